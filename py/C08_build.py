"""Parameters and expressions of the library made from the plain ones."""
import hh, emodel as em
import cconfigspace as ccs
E = ccs.Expression
NAMES = ["a", "b2", "_c", "x_1", "Z", "nonexistent", "true_color", "falsehood", "none1", "trueX", "e5", "E", "inf", "nan", "in", "and", "not", "or", "None", "True", "param", "long_name_with_words"]
def gen_params(r, wide=False):
    ps, n = [], r.randint(9, 40) if wide else r.below(5)
    names = ["w%d" % i for i in range(n)] if wide else r.sample(NAMES, n)
    for name in names:
        k = r.below(6)
        if k == 0: ps.append(em.P(name, "int", lo=-5, hi=9))
        elif k == 1: ps.append(em.P(name, "float", lo=-4.0, hi=8.0))
        elif k == 2: ps.append(em.P(name, "cat", distinct(r, [em.gen_lit(r)[1] for _ in range(4)])))
        elif k == 3: ps.append(em.P(name, "ord", distinct(r, [em.gen_lit(r)[1] for _ in range(4)])))
        elif k == 4: ps.append(em.P(name, "disc", sorted(set(r.sample([-3, -1, 0, 1, 2, 4, 7, 2.5, 0.5], r.randint(1, 5))))))
        else: ps.append(em.P(name, "str"))
    return ps
def distinct(r, l):
    out = []
    for v in l:
        if not any(hh.same(v, w) for w in out) and v == v: out.append(v)
    return out
def make(p):
    if p.kind == "int": return ccs.IntNumericalParameter(name=p.name, lower=p.lo, upper=p.hi + 1)
    if p.kind == "float": return ccs.FloatNumericalParameter(name=p.name, lower=p.lo, upper=p.hi)
    if p.kind == "cat": return ccs.CategoricalParameter(name=p.name, values=p.values)
    if p.kind == "ord": return ccs.OrdinalParameter(name=p.name, values=p.values)
    if p.kind == "disc": return ccs.DiscreteParameter(name=p.name, values=p.values)
    return ccs.StringParameter(name=p.name)
BIN = {"||": E.Or, "&&": E.And, "==": E.Equal, "!=": E.NotEqual, "<": E.Less, ">": E.Greater, "<=": E.LessOrEqual, ">=": E.GreaterOrEqual,
       "+": E.Add, "-": E.Substract, "*": E.Multiply, "/": E.Divide, "%": E.Modulo}
UN = {"+": E.Positive, "-": E.Negative, "!": E.Not}
def build(e, hp, r):
    """the library's expression of a tree, from constructors"""
    def operand(x):
        if r.chance(.3):
            if x[0] == "lit": return x[1]
            if x[0] == "var": return hp[x[1]]
        return build(x, hp, r)
    k = e[0]
    if k == "lit": return E.Literal(value=e[1])
    if k == "var": return E.Variable(parameter=hp[e[1]])
    if k == "list": return E.List(values=[operand(x) for x in e[1]])
    if k == "un": return UN[e[1]](node=operand(e[2]))
    if k == "in": return E.In(left=operand(e[1]), right=build(e[2], hp, r))
    return BIN[e[1]](left=operand(e[2]), right=operand(e[3]))
def assignment(r, ps):
    return [em.INACTIVE if r.chance(.06) else p.pick(r) for p in ps]
def run(x, os, vals):
    """evaluation by the library"""
    v = [ccs.inactive if w is em.INACTIVE else w for w in vals]
    try: out = x.eval(context=os, values=v) if os is not None else x.eval()
    except ccs.Error as err: return ("e", err._code.value)
    return ("v", em.INACTIVE if out is ccs.inactive else out)
def agree(a, b):
    if a[0] != b[0]: return False
    if a[0] == "e": return a[1] == b[1]
    if a[1] is em.INACTIVE or b[1] is em.INACTIVE: return a[1] is b[1]
    return hh.same(a[1], b[1])
def nanny(o): return o[0] == "v" and isinstance(o[1], float) and o[1] != o[1]
