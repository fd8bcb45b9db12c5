"""Expressions as plain Python trees: meaning, published syntax, reading."""
import math, re
INACTIVE = object()
BAD = -2           # invalid value
OPS = {"||": ("OR", 0, 2), "&&": ("AND", 1, 2), "==": ("EQUAL", 2, 2), "!=": ("NOT_EQUAL", 2, 2), "<": ("LESS", 3, 2), ">": ("GREATER", 3, 2),
       "<=": ("LESS_OR_EQUAL", 3, 2), ">=": ("GREATER_OR_EQUAL", 3, 2), "+": ("ADD", 4, 2), "-": ("SUBSTRACT", 4, 2),
       "*": ("MULTIPLY", 5, 2), "/": ("DIVIDE", 5, 2), "%": ("MODULO", 5, 2)}
UN = {"+": "POSITIVE", "-": "NEGATIVE", "!": "NOT"}
UNPREC, INPREC, ATOM = 6, 7, 9
# a node is ("lit", v) | ("var", i) | ("un", op, node) | ("bin", op, a, b) | ("in", a, list) | ("list", [nodes])

class Err(Exception):
    def __init__(self, code): self.code = code
def wrap(n): return (n + (1 << 63)) % (1 << 64) - (1 << 63)
def isnum(v): return type(v) in (int, float)
class P:
    """model of a parameter: kind, acceptable values"""
    def __init__(self, name, kind, values=None, lo=None, hi=None): self.name, self.kind, self.values, self.lo, self.hi = name, kind, values, lo, hi
    def index(self, v):
        for i, w in enumerate(self.values):
            if type(w) is type(v) and w == v and (type(v) is not float or math.copysign(1, w) == math.copysign(1, v)): return i   # values are compared bit by bit
        return -1
    def pick(self, r):
        if self.kind == "int": return r.randint(self.lo, self.hi)
        if self.kind == "float": return r.choice([float(r.randint(int(self.lo), int(self.hi) - 1)), r.uniform(self.lo, self.hi)])
        if self.kind == "str": return gen_string(r)
        return r.pick(self.values)
def compatible(node, other, ps):
    if node[0] != "var": return True
    p = ps[node[1]]
    if p.kind in ("cat", "ord"): return p.index(other) >= 0
    if p.kind in ("int", "float", "disc"): return isnum(other)
    return True
def equal(a, b):
    if isnum(a) and isnum(b):
        return a == b if type(a) is type(b) else float(a) == float(b)
    if type(a) is not type(b): return None
    return a == b
def tdiv(a, b):
    q = abs(a) // abs(b)
    return wrap(q if (a < 0) == (b < 0) else -q)
def ev(e, ps, vals):
    k = e[0]
    if k == "lit": return e[1]
    if k == "var": return vals[e[1]]
    if k == "list": raise Err(-18)
    if k == "in":
        l = ev(e[1], ps, vals)
        if l is INACTIVE: return l
        some = False
        for x in e[2][1]:
            v = ev(x, ps, vals)
            if v is INACTIVE: some = True; continue
            if not compatible(e[1], v, ps): raise Err(BAD)
            if equal(l, v): return True
        return INACTIVE if some else False
    if k == "un":
        a = ev(e[2], ps, vals)
        if a is INACTIVE: return a
        if e[1] == "!":
            if type(a) is not bool: raise Err(BAD)
            return not a
        if not isnum(a): raise Err(BAD)
        if e[1] == "+": return a
        return wrap(-a) if type(a) is int else -a
    op, x, y = e[1], e[2], e[3]
    a = ev(x, ps, vals); b = ev(y, ps, vals)
    off = a is INACTIVE or b is INACTIVE
    if op == "||":
        if not all(v is INACTIVE or type(v) is bool for v in (a, b)): raise Err(BAD)
        if a is True or b is True: return True
        return INACTIVE if off else False
    if op == "&&":
        if off: return INACTIVE
        if type(a) is not bool or type(b) is not bool: raise Err(BAD)
        return a and b
    if op in ("==", "!="):
        if off: return INACTIVE
        if not compatible(x, b, ps) or not compatible(y, a, ps): raise Err(BAD)
        q = equal(a, b)
        if q is None:
            if x[0] != "var" and y[0] != "var": raise Err(BAD)
            q = False
        return q == (op == "==")
    if op in ("<", ">", "<=", ">="):
        for z in (x, y):
            if z[0] == "var" and ps[z[1]].kind == "cat": raise Err(BAD)
        if off: return INACTIVE
        if not compatible(x, b, ps) or not compatible(y, a, ps): raise Err(BAD)
        c = None
        for z in (x, y):
            if z[0] == "var" and ps[z[1]].kind == "ord":
                i, j = ps[z[1]].index(a), ps[z[1]].index(b)
                if i < 0 or j < 0: raise Err(BAD)
                c = (i > j) - (i < j); break
        if c is None:
            if isnum(a) and isnum(b):
                if type(a) is not type(b): a, b = float(a), float(b)
            elif type(a) is str and type(b) is str: a, b = a.encode(), b.encode()
            else: raise Err(BAD)
            c = (a > b) - (a < b)
        return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[op]
    if off: return INACTIVE
    if not isnum(a) or not isnum(b): raise Err(BAD)
    ii = type(a) is int and type(b) is int
    if not ii: a, b = float(a), float(b)
    if op in "/%" and b == 0: raise Err(BAD)
    try:
        if op == "+": return wrap(a + b) if ii else a + b
        if op == "-": return wrap(a - b) if ii else a - b
        if op == "*": return wrap(a * b) if ii else a * b
        if op == "/": return tdiv(a, b) if ii else a / b
        return a - tdiv(a, b) * b if ii and b != -1 else 0 if ii else math.fmod(a, b)
    except (OverflowError, ValueError): return float("nan")   # not judged
def outcome(e, ps, vals):
    try: return ("v", ev(e, ps, vals))
    except Err as x: return ("e", x.code)

# ---------------------------------------------------------------- generation
CH = "abcXYZ019 _-+*/%<>=!&|#()[],.;:~^$@?{}`\"'\\\t\n\r\f\v\x01\x1b\x7f\x85\xa0\u00e9\u4e2d\u2028\u200b\U0001f600"
def gen_string(r, empty=True):
    return "".join(r.choice(CH) if r.chance(.6) else r.choice("abc") for _ in range(r.randint(0 if empty else 1, 6)))
def gen_float(r):
    k = r.below(8)
    if k < 3: return r.randint(-8, 16) / 2.0
    if k == 3: return r.choice([1e20, 1e22, 1.5e300, 1e-7, 5e-324, 1.7976931348623157e308, 0.1, -0.0, 1e16, 123456789012345680.0, -2.5e-10])
    if k == 4: return r.uniform(-1, 1) * 10.0 ** r.randint(-30, 30)
    return float(r.randint(-4, 9))
def gen_int(r):
    k = r.below(10)
    if k == 0: return r.choice([0, 1, -1, 2**63 - 1, -2**63, 2**53 + 1, 10**18, -10**15])
    if k == 1: return wrap(r.getrandbits(64))
    return r.randint(-6, 12)
def gen_lit(r):
    k = r.below(10)
    if k < 4: return ("lit", gen_int(r))
    if k < 6: return ("lit", gen_float(r))
    if k < 8: return ("lit", r.chance(.5))
    if k < 9: return ("lit", gen_string(r))
    return ("lit", None)
def value(r, ps):
    if ps and r.chance(.5):
        i = r.below(len(ps)); return ("var", i)
    return gen_lit(r)
def wild(r, ps, d):
    if d <= 0 or r.chance(.12): return value(r, ps)
    k = r.below(18)
    if k < 13: return ("bin", r.pick(list(OPS)), wild(r, ps, d - 1), wild(r, ps, d - 1))
    if k < 16: return ("un", r.pick(list(UN)), wild(r, ps, d - 1))
    return ("in", wild(r, ps, d - 1), ("list", [value(r, ps) for _ in range(r.below(5))]))
def num(r, ps, d):
    nv = [i for i, p in enumerate(ps) if p.kind in ("int", "float", "disc")]
    if d <= 0 or r.chance(.15):
        if nv and r.chance(.6): return ("var", r.pick(nv))
        return ("lit", r.choice([gen_int(r), gen_float(r), r.randint(-4, 9)]))
    if r.chance(.2): return ("un", r.pick("+-"), num(r, ps, d - 1))
    return ("bin", r.pick(["+", "-", "*", "/", "%", "-", "-", "/"]), num(r, ps, d - 1), num(r, ps, d - 1))
def boolean(r, ps, d):
    if d > 0 and r.chance(.6):
        if r.chance(.2): return ("un", "!", boolean(r, ps, d - 1))
        if r.chance(.25): return ("bin", r.pick(["==", "!="]), boolean(r, ps, d - 1), boolean(r, ps, d - 1))
        return ("bin", r.pick(["||", "&&"]), boolean(r, ps, d - 1), boolean(r, ps, d - 1))
    k = r.below(8)
    if k < 2: return ("lit", r.chance(.5))
    if k < 5 or not ps: return ("bin", r.pick(["<", ">", "<=", ">=", "==", "!="]), num(r, ps, d), num(r, ps, d))
    i = r.below(len(ps)); p = ps[i]
    if k < 6: return ("in", ("var", i), ("list", [("lit", p.pick(r)) for _ in range(r.below(4))]))
    return ("bin", r.pick(["==", "!="] + (["<", ">", "<=", ">="] if p.kind != "cat" else [])), ("var", i), ("lit", p.pick(r)))
def in_num(r, ps, d):
    """numeric membership, with signed operands on the left"""
    l = num(r, ps, d)
    return ("in", r.choice([l, ("un", "-", l), ("lit", -r.randint(1, 5)), ("lit", -1.5)]), ("list", [("lit", r.randint(-5, 5)) for _ in range(r.below(5))]))
def gen(r, ps, d):
    k = r.below(10)
    if k < 3: return num(r, ps, d)
    if k < 6: return boolean(r, ps, d)
    if k < 7: return in_num(r, ps, min(d, 2))
    return wild(r, ps, d)
def size(e):
    return 1 + sum(size(x) for x in ([e[2]] if e[0] == "un" else e[2:4] if e[0] == "bin" else [e[1]] + e[2][1] if e[0] == "in" else []))

# ---------------------------------------------------------------- published syntax
def prec(e):
    k = e[0]
    if k == "un": return UNPREC
    if k == "bin": return OPS[e[1]][1]
    if k == "in": return INPREC
    if k == "lit" and isnum(e[1]) and math.copysign(1, e[1]) < 0: return UNPREC
    return ATOM
def lit_text(v, r):
    if v is None: return "none"
    if v is True: return "true"
    if v is False: return "false"
    if type(v) is int: return ("-" if v < 0 else "") + r.choice(["", "", "", "0", "00"]) + str(abs(v))
    if type(v) is float:
        t = repr(v)
        if "e" in t:
            if r.chance(.3): t = t.replace("e", "E")
            if r.chance(.3): t = t.replace("+", "")
        else:
            if r.chance(.3): t += "0" * r.randint(1, 3)
            if r.chance(.3): t += r.choice(["e0", "E+0", "e-00"])
            if v == int(v) and r.chance(.2): t = "%de0" % v if v or math.copysign(1, v) > 0 else "-0e0"
        return t
    q = r.choice("'\"")
    m = {"\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f", "\\": "\\\\", q: "\\" + q}
    return q + "".join(m.get(c, c) for c in v) + q
def sp(r): return r.choice(["", "", "", " ", " ", "  ", "\t", "\n"])
def write(e, r, ps, need=0, paren=.1):
    k = e[0]
    if k == "lit": t = lit_text(e[1], r)
    elif k == "var": t = ps[e[1]].name
    elif k == "list":
        return "[" + sp(r) + ("," + sp(r)).join(write(x, r, ps, 0, 0) + sp(r) for x in e[1]) + "]"
    elif k == "un": t = e[1] + sp(r) + write(e[2], r, ps, UNPREC, paren)
    elif k == "bin":
        p = OPS[e[1]][1]
        t = write(e[2], r, ps, p, paren) + sp(r) + e[1] + sp(r) + write(e[3], r, ps, p + 1, paren)
    else: t = write(e[1], r, ps, INPREC, paren) + sp(r) + "#" + sp(r) + write(e[2], r, ps)
    if prec(e) < need or r.chance(paren): t = "(" + sp(r) + t + sp(r) + ")"
    return t
TOK = re.compile(r"""\s*(?:(?P<str>"(?:[^\0\t\n\r\f"\\]|\\[0tnrf"\\])*"|'(?:[^\0\t\n\r\f'\\]|\\[0tnrf'\\])*')|(?P<num>[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?)|(?P<id>[a-zA-Z_][a-zA-Z_0-9]*)|(?P<op>\|\||&&|==|!=|<=|>=|[-+*/%<>!#()\[\],]))""")
ESC = {"t": "\t", "n": "\n", "r": "\r", "f": "\f", "\\": "\\", "'": "'", '"': '"'}
class Reader:
    """independent reading of a text by the published table"""
    def __init__(self, text, ps):
        self.t, i = [], 0
        text = text.rstrip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m or m.end() == i: raise ValueError("bad text at %d" % i)
            self.t.append((m.lastgroup, m.group(m.lastgroup))); i = m.end()
        self.i, self.names = 0, {p.name: n for n, p in enumerate(ps)}
    def peek(self): return self.t[self.i] if self.i < len(self.t) else (None, None)
    def next(self): x = self.peek(); self.i += 1; return x
    def read(self):
        e = self.expr(0)
        if self.i != len(self.t): raise ValueError("trailing text")
        return e
    def lit(self, neg=False):
        k, s = self.next()
        if k == "num":
            v = float(s) if re.search("[.eE]", s) else int(s)
            return ("lit", -v if neg and type(v) is float else wrap(-v) if neg else v)
        if neg: raise ValueError("sign")
        if k == "str": return ("lit", re.sub(r"\\(.)", lambda m: ESC[m.group(1)], s[1:-1]))
        if k == "id": return {"none": ("lit", None), "true": ("lit", True), "false": ("lit", False)}.get(s) or ("var", self.names[s])
        raise ValueError("value expected")
    def primary(self):
        k, s = self.peek()
        if s == "(" and k == "op":
            self.next(); e = self.expr(0)
            if self.next() != ("op", ")"): raise ValueError(")")
            return e
        return self.lit()
    def lists(self):
        if self.next() != ("op", "["): raise ValueError("[")
        l = []
        if self.peek() == ("op", "]"): self.next(); return ("list", l)
        while True:
            neg = self.peek() == ("op", "-")
            if neg: self.next()
            l.append(self.lit(neg))
            x = self.next()
            if x == ("op", "]"): return ("list", l)
            if x != ("op", ","): raise ValueError(",")
    def expr(self, least):
        k, s = self.peek()
        if k == "op" and s in UN:
            self.next(); left = ("un", s, self.expr(UNPREC))
        else:
            left = self.primary()
        while True:
            k, s = self.peek()
            if k != "op": return left
            if s == "#" and INPREC >= least:
                self.next(); left = ("in", left, self.lists())
            elif s in OPS and OPS[s][1] >= least:
                self.next(); left = ("bin", s, left, self.expr(OPS[s][1] + 1))
            else: return left
