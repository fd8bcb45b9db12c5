"""C08: expressions and their text, through the Python interface."""
import hh, emodel as em
from hh import check, eq, ev, sig, note, fail
import cconfigspace as ccs
E = ccs.Expression

def num_cases(thorough): return 60000 if thorough else 4000

from C08_build import *
def mutate(t, r, ps, os, vals):
    """a text one token away from the language: refused if it is not in the
    language, and with the meaning of what it now says otherwise"""
    toks = [m.group().strip() for m in em.TOK.finditer(t)]
    for _ in range(r.choice([1, 1, 2])):
        if not toks: break
        i, k = r.below(len(toks)), r.below(4)
        if k == 0: del toks[i]
        elif k == 1: toks.insert(i, r.pick(toks + ["(", ")", "-", "!", "#", "[", "]", ",", "==", "7", "true"]))
        elif k == 2: j = r.below(len(toks)); toks[i], toks[j] = toks[j], toks[i]
        else: toks[i] = r.pick(list(em.OPS) + list(em.UN) + ["(", ")", "3", "none"])
    t = " ".join(toks)
    for p in "[,":
        t = t.replace(p + " - ", p + " -")      # a sign belongs to its number there
    if "9223372036854775808" in t: return       # its sign may be gone: not a 64-bit integer any more
    note("mutated %r", t)
    try: a = em.Reader(t, ps).read()
    except (ValueError, KeyError, IndexError): a = None
    n = os.num_objective
    try: os.add_objective(t)
    except Exception as err:
        if a is not None: fail("mutated-refused", repr(t), "means", a, type(err).__name__, str(err)[:300])
        if os.num_objective != n: fail("mutated-added", repr(t))
        ev("mutated.refused"); return
    if a is None: fail("mutated-accepted", "text", repr(t), "read as", os.objectives[n][0])
    x = os.objectives[n][0]
    for v in vals:
        w = em.outcome(a, ps, v)
        if nanny(w): continue
        got = run(x, os, v)
        if not agree(got, w): fail("mutated-meaning", "text", repr(t), "printed", x, "got", got, "expected", w)
    ev("mutated.accepted")

def run_case(r, idx):
    ps = gen_params(r) if r.chance(.85) else []
    hp = [make(p) for p in ps]
    os = ccs.ObjectiveSpace(name="os")
    os.add_parameters(hp)
    plan = r.below(10)
    cs = None
    if plan < 2 and ps:
        cs = ccs.ConfigurationSpace(name="cs"); cs.add_parameters([h for h, p in zip(hp, ps) if p.kind != "str"])
    for rep in range(3):
        d = r.choice([1, 2, 2, 3, 3, 4])
        e = em.gen(r, ps, d)
        note("tree %r", e)
        vs = set()
        def walk(x):
            if x[0] == "var": vs.add(x[1])
            for y in (x[1] if x[0] == "list" else [z for z in x[1:] if isinstance(z, tuple)]): walk(y)
        walk(e)
        vals = [assignment(r, ps) for _ in range(4)]
        want = [em.outcome(e, ps, v) for v in vals]
        def judge(x, what, text=None):
            check(isinstance(x, E), "not-an-expression", what, text)
            for v, w in zip(vals, want):
                if nanny(w): ev("skip.nan"); continue
                got = run(x, os, v)
                ev("eval." + what)
                if not agree(got, w): fail("eval-" + what, "text", repr(text), "printed", x, "values", [x if x is not em.INACTIVE else "inactive" for x in v], "got", got, "expected", w)
            if not vs:
                got = run(x, None, [])
                if not nanny(want[0]) and not agree(got, want[0]): fail("eval-alone-" + what, "text", repr(text), "got", got, "expected", want[0])
        def parse(t, what):
            """text to expression, by every public way"""
            ways = [0]
            if not vs: ways.append(1)
            if cs is not None and all(ps[i].kind != "str" for i in vs): ways.append(2)
            w = r.pick(ways)
            try:
                if w == 0:
                    n = os.num_objective
                    if r.chance(.5): os.add_objective(t)
                    else: os.add_objectives([t])
                    return os.objectives[n][0]
                if w == 1: return ccs.parse(t)
                sp = cs
                n = sp.num_forbidden_clauses
                try:
                    if r.chance(.5): sp.add_forbidden_clause(t)
                    else: sp.add_forbidden_clauses([t])
                except ccs.Error as err:
                    # a clause the space's defaults already satisfy, or that cannot be evaluated, is refused
                    ev("clause.refused"); os.add_objective(t); return os.objectives[-1][0]
                return sp.forbidden_clauses[n]
            except ccs.Error as err: fail("parse-" + what, "text", repr(t), "refused:", err)
            except (hh.Fail): raise
            except Exception as err: fail("parse-" + what, "text", repr(t), type(err).__name__, str(err)[:200])
        x = build(e, hp, r)
        judge(x, "built")
        # printing and reading back
        t = str(x)
        note("printed %r", t)
        try: a = em.Reader(t, ps).read()
        except (ValueError, KeyError) as err: fail("printed-unreadable", repr(t), err)
        for v, w in zip(vals, want):
            got = em.outcome(a, ps, v)
            if not nanny(w) and not agree(got, w): fail("printed-meaning", "tree", e, "printed", repr(t), "means", a, "got", got, "expected", w)
        ev("print.read")
        y = parse(t, "printed")
        judge(y, "reparsed", t)
        t2 = str(y); ev("print.again")
        y2 = parse(t2, "printed-again"); judge(y2, "reparsed-again", t2)
        # texts written by the published rules
        for _ in range(2):
            t = em.write(e, r, ps, paren=r.choice([0, .1, .4]))
            note("written %r", t)
            # the harness's own reading of what it wrote must agree with the tree
            a = em.Reader(t, ps).read()
            for v, w in zip(vals, want):
                got = em.outcome(a, ps, v)
                if not nanny(w) and not agree(got, w): fail("HARNESS", t, a, e)
            judge(parse(t, "written"), "written", t)
            ev("text.written")
            mutate(t, r, ps, os, vals)
        for v, w in zip(vals, want):
            ev("outcome." + ("error" if w[0] == "e" else "inactive" if w[1] is em.INACTIVE else type(w[1]).__name__))
        sig(e)
        if em.size(e) > 6: ev("tree.large")
hh.main(num_cases, run_case)
