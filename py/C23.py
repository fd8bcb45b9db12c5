"""C23: the Python interface mirrors the library, round-trips values, raises its
errors and releases every object exactly once."""
import ctypes as ct, gc, math, os, struct, tempfile
import hh, emodel as em
from hh import check, eq, ev, sig, note, fail
import cconfigspace as ccs
from cconfigspace.base import Map
so = hh._so
E, D = ccs.Expression, ccs.Distribution
RES = ccs.Result

def num_cases(thorough): return 160000 if thorough else 8000

# ---------------------------------------------------------------- helpers
def refuse(names, f, *a, **k):
    """the call must raise the library's error, with a message and no effect on what it holds"""
    try: f(*a, **k)
    except ccs.Error as e:
        s = str(e)
        if isinstance(names, str): names = [names]
        check(any(s.startswith("Result.ERROR_" + n) for n in names), "wrong-error", getattr(f, "__name__", f), "raised", s[:120], "expected", names)
        ev("refused"); ev("refused." + names[0])
        return s
    fail("not-refused", getattr(f, "__name__", f), a, k, "expected", names)
def raw(name, *a):
    """a direct call of the library"""
    rc = getattr(so, name)(*a)
    check(rc >= 0, "HARNESS-raw", name, rc)
    return rc
def raw_refcount(o):
    c = ct.c_int()
    raw("ccs_object_get_refcount", o.handle, ct.byref(c))
    return c.value
def rngs(r):
    """two generators in the same state"""
    s = r.below(1 << 31)
    a, b = ccs.Rng(), ccs.Rng()
    a.seed = s; b.seed = s
    return a, b
def is_inactive(v): return v is ccs.inactive
def V(v): return ccs.inactive if v is em.INACTIVE else v
WORDS = ["", "a", "b", "foo", "bar", "été", "日本", "with space", "quote\"'", "tab\t", "x" * 40, "%s%n"]
def scalar(r):
    k = r.below(8)
    if k == 0: return r.chance(.5)
    if k == 1: return r.pick([0, 1, -1, 2**63 - 1, -2**63, r.randint(-1000, 1000)])
    if k == 2: return r.pick([0.0, 1.0, -2.5, 1e300, -1e-300, float("inf"), r.uniform(-10, 10)])
    if k == 3: return r.pick(WORDS)
    if k == 4: return None
    if k == 5: return ccs.inactive
    if k == 6: return r.randint(0, 5)
    return r.pick(WORDS) + str(r.below(4))
def key(v):
    """identity of a value: its type and bits"""
    if isinstance(v, ccs.Object): return ("o", v.handle.value)
    if isinstance(v, float): return (float, struct.pack("d", v))
    return (type(v), v)

# ---------------------------------------------------------------- maps
def s_map(r):
    m, model = Map(), {}
    objs = [ccs.Rng(), ccs.Tree(arity=1, value=3), ccs.StringParameter(name="p"), ccs.FeaturesSpace(name="f")]
    def val():
        if r.chance(.25): return r.pick(objs)
        return scalar(r)
    def same(a, b): return key(a) == key(b)
    keys = [val() for _ in range(6)]
    for _ in range(r.randint(5, 40)):
        k = r.pick(keys) if r.chance(.8) else val()
        op = r.below(10)
        if op < 4: v = val(); m[k] = v; model[key(k)] = (k, v); ev("map.set")
        elif op < 6:
            if key(k) in model: del m[k]; del model[key(k)]; ev("map.del")
            else: refuse("INVALID_VALUE", m.__delitem__, k)
        elif op < 9:
            g = m[k] if key(k) in model else None
            if key(k) in model: check(same(g, model[key(k)][1]), "map-get", repr(k), g, model[key(k)])
            else: check(m[k] is None, "map-get-missing", repr(k))
            eq(m.has_key(k), key(k) in model, "map-has_key", repr(k)); ev("map.get")
        else:
            eq(len(m), len(model), "map-len")
            ks, vs = m.keys(), m.values()
            eq(len(ks), len(model), "map-keys-len"); eq(len(vs), len(model), "map-values-len")
            check(len({key(x) for x in ks}) == len(ks), "map-keys-distinct")
            for a, b in zip(ks, vs):
                check(key(a) in model and same(b, model[key(a)][1]), "map-pair", repr(a), repr(b))
            ev("map.list")
        if r.chance(.1): gc.collect()
    k = v = g = ks = vs = a = b = None
    n = sum(1 for e in model.values() for x in e if x is objs[0])
    # the pool itself, and every place of the map that holds the object
    eq(raw_refcount(objs[0]), 1 + n, "map-refcount"); ev("refcount")
    if r.chance(.5):
        del objs[:]; gc.collect()
        keys = None
        for k, v in zip(m.keys(), m.values()):
            for x in (k, v):
                if isinstance(x, ccs.Object): check(x.object_type in (0, 2, 9, 15), "map-object-type", x.object_type); ev("object.from.map")
    sig("map", len(model), r.getstate()[1][:4])

# ---------------------------------------------------------------- generators, intervals
def s_rng(r):
    a, b = rngs(r)
    for _ in range(r.randint(1, 6)):
        if r.chance(.5):
            w = ct.c_ulong(); raw("ccs_rng_get", b.handle, ct.byref(w))
            eq(a.get(), w.value, "rng-get")
        else:
            w = ct.c_double(); raw("ccs_rng_uniform", b.handle, ct.byref(w))
            eq(a.uniform(), w.value, "rng-uniform")
    check(a.min <= a.max, "rng-range"); check(a.min <= a.get() <= a.max, "rng-draw-range")
    eq(a.object_type, ccs.ObjectType.RNG, "object-type"); ev("rng")
    sig("rng", b.get())
def s_interval(r):
    def mk():
        t = r.pick([ccs.NumericType.INT, ccs.NumericType.FLOAT])
        if t == ccs.NumericType.INT: l, u = r.randint(-6, 6), r.randint(-6, 6)
        else: l, u = r.pick([-2.5, -1.0, 0.0, .5, 1.0, 3.25, -math.inf]), r.pick([-1.0, 0.0, .5, 1.0, 3.25, math.inf])
        li, ui = r.chance(.5), r.chance(.5)
        i = ccs.Interval(t=t, lower=l, upper=u, lower_included=li, upper_included=ui)
        eq((i.type, i.lower, i.upper, i.lower_included, i.upper_included), (t, l, u, li, ui), "interval-attributes")
        return i, (t, l, u, li, ui)
    def has(m, v): return (v > m[1] or (m[3] and v == m[1])) and (v < m[2] or (m[4] and v == m[2]))
    PI, PF = list(range(-8, 9)), [x / 8 for x in range(-32, 33)] + [-math.inf, math.inf]
    if r.chance(.2):
        b = r.pick([2**53, -2**53 - 4, 2**62, 2**63 - 9, -2**63]); k = ccs.Interval(t=ccs.NumericType.INT, lower=b + 1, upper=b + 6, lower_included=r.chance(.5), upper_included=r.chance(.5))
        eq((k.lower, k.upper), (b + 1, b + 6), "interval-attributes")
        for v in range(b, b + 8): eq(k.include(v), (v > b + 1 or v == b + 1 and k.lower_included) and (v < b + 6 or v == b + 6 and k.upper_included), "interval-include-large", str(k), v)
        ev("interval.large")
    i, m = mk()
    j, n = mk()
    for x, y in ((i, m), (j, n)):
        for v in (PI if y[0] == ccs.NumericType.INT else PF):
            if math.isinf(v) and not (v in (y[1], y[2])): continue
            eq(x.include(v), has(y, v), "interval-include", str(x), v)
            eq(x.contains(v), has(y, v), "interval-contains", str(x), v)
        ev("interval.include", 17)
        if y[0] == ccs.NumericType.INT: eq(x.empty, not any(has(y, v) for v in PI), "interval-empty", str(x))
        else: eq(x.empty, not (y[1] < y[2] or (y[1] == y[2] and y[3] and y[4])), "interval-empty", str(x))
        s = str(x)
        eq(s, "%s%s, %s%s" % ("[" if y[3] else "(", y[1], y[2], "]" if y[4] else ")"), "interval-str")
    if m[0] == n[0]:
        k = i.intersect(j)
        for v in (PI if m[0] == ccs.NumericType.INT else PF):
            if math.isinf(v): continue
            eq(k.include(v), has(m, v) and has(n, v), "interval-intersect", str(i), str(j), str(k), v)
        ev("interval.intersect")
        eq(i == i, True, "interval-equal")
        if m[0] == ccs.NumericType.INT: w = {v for v in PI if has(m, v)} == {v for v in PI if has(n, v)}
        else: w = m == n or (i.empty and j.empty)
        eq(i == j, w, "interval-eq", str(i), str(j))
    else: refuse("INVALID_TYPE", i.intersect, j)
    # assignable
    i.lower_included = not m[3]; i.upper_included = not m[4]
    if m[0] == ccs.NumericType.INT: i.lower = m[1] - 1; i.upper = m[2] + 1
    else: i.lower = -7.5; i.upper = 8.25
    eq((i.lower_included, i.upper_included), (not m[3], not m[4]), "interval-set")
    eq((i.lower, i.upper), (m[1] - 1, m[2] + 1) if m[0] == ccs.NumericType.INT else (-7.5, 8.25), "interval-set-bounds")
    sig("interval", m, n)

# ---------------------------------------------------------------- distributions
def gen_dist(r, depth=2):
    """a distribution and the description it was made from"""
    k = r.below(9 if depth else 5)
    if k == 0:
        if r.chance(.5): l, u, s, q = r.uniform(-5, 0), r.uniform(1, 6), ccs.ScaleType.LINEAR, r.pick([0.0, .25])
        else: l, u, s, q = r.uniform(.5, 1), r.uniform(2, 60), ccs.ScaleType.LOGARITHMIC, r.pick([0.0, .25])
        return D.Uniform.Float(lower=l, upper=u, scale=s, quantization=q), ("uf", l, u, s, q)
    if k == 1:
        if r.chance(.5): l, u, s, q = r.randint(-9, 0), r.randint(5, 50), ccs.ScaleType.LINEAR, r.pick([0, 2])
        else: l, u, s, q = r.randint(1, 3), r.randint(9, 500), ccs.ScaleType.LOGARITHMIC, r.pick([0, 2])
        return D.Uniform.Int(lower=l, upper=u, scale=s, quantization=q), ("ui", l, u, s, q)
    if k == 2:
        m, d, s, q = r.uniform(-3, 3), r.uniform(.1, 2), r.pick([0, 1]), r.pick([0.0, .5])
        return D.Normal.Float(mu=m, sigma=d, scale=s, quantization=q), ("nf", m, d, s, q)
    if k == 3:
        m, d, s, q = r.uniform(0, 3), r.uniform(.1, 2), r.pick([0, 1]), r.pick([0, 2])
        return D.Normal.Int(mu=m, sigma=d, scale=s, quantization=q), ("ni", m, d, s, q)
    if k == 4:
        a = [r.pick([0.0, 1.0, r.uniform(0, 5)]) for _ in range(r.randint(1, 7))]
        if not sum(a): a[0] = 1.0
        return D.Roulette(areas=a), ("ro", a)
    if k < 7:
        ds = [gen_dist(r, 0)]
        while r.chance(.5): ds.append(gen_dist(r, 0))
        return D.Multivariate(distributions=[d for d, _ in ds]), ("mv", [m for _, m in ds])
    ds = [gen_dist(r, depth - 1)]
    while r.chance(.6):
        d = gen_dist(r, depth - 1)
        if dims(d[1]) == dims(ds[0][1]): ds.append(d)
    w = [r.uniform(.1, 3) for _ in ds] if r.chance(.7) else None
    return D.Mixture(distributions=[d for d, _ in ds], weights=w), ("mi", [m for _, m in ds], w or [1.0] * len(ds))
def dims(m):
    """data types of a distribution's coordinates"""
    if m[0] in ("uf", "nf"): return [ccs.NumericType.FLOAT]
    if m[0] in ("ui", "ni", "ro"): return [ccs.NumericType.INT]
    if m[0] == "mv": return [t for x in m[1] for t in dims(x)]
    return dims(m[1][0])
CLS = {"uf": D.Uniform.Float, "ui": D.Uniform.Int, "nf": D.Normal.Float, "ni": D.Normal.Int, "ro": D.Roulette, "mv": D.Multivariate, "mi": D.Mixture}
TYP = {"u": 0, "n": 1, "ro": 2, "mi": 3, "mv": 4}
def same_dist(d, m):
    check(type(d) is CLS[m[0]], "distribution-class", type(d).__name__, m)
    eq(d.type, TYP.get(m[0], TYP.get(m[0][0])), "distribution-type")
    eq(d.data_types, dims(m), "distribution-data-types", m); eq(d.dimension, len(dims(m)), "distribution-dimension")
    if m[0][0] == "u": eq((d.lower, d.upper, d.scale_type, d.scale, d.quantization, d.data_type), (m[1], m[2], m[3], m[3], m[4], dims(m)[0]), "uniform-attributes")
    elif m[0][0] == "n": eq((d.mu, d.sigma, d.scale_type, d.scale, d.quantization, d.data_type), (m[1], m[2], m[3], m[3], m[4], dims(m)[0]), "normal-attributes")
    elif m[0] == "ro":
        eq(d.num_areas, len(m[1]), "roulette-number"); t = sum(m[1])
        check(all(abs(a - b / t) < 1e-9 for a, b in zip(d.areas, m[1])) and len(d.areas) == len(m[1]), "roulette-areas", d.areas, m)
    else:
        eq(d.num_distributions, len(m[1]), "distributions-number")
        if m[0] == "mi":
            t = sum(m[2]); check(all(abs(a - b / t) < 1e-9 for a, b in zip(d.weights, m[2])) and len(d.weights) == len(m[2]), "mixture-weights", d.weights, m)
        for x, y in zip(d.distributions, m[1]): same_dist(x, y)
    ev("distribution.checked")
def raw_samples(d, types, rng, n):
    b = (ct.c_longlong * (n * len(types)))()
    raw("ccs_distribution_samples", d.handle, rng.handle, ct.c_size_t(n), b)
    rows = [[b[i * len(types) + j] if t == ccs.NumericType.INT else struct.unpack("d", struct.pack("q", b[i * len(types) + j]))[0] for j, t in enumerate(types)] for i in range(n)]
    return [x[0] for x in rows] if len(types) == 1 else rows
def s_dist(r):
    d, m = gen_dist(r)
    note("distribution %r", m)
    same_dist(d, m)
    t = dims(m)
    a, b = rngs(r)
    n = r.randint(1, 12)
    if r.chance(.5): eq(d.samples(a, n), raw_samples(d, t, b, n), "samples"); ev("samples", n)
    else:
        for _ in range(n): eq(d.sample(a), raw_samples(d, t, b, 1)[0], "sample")
        ev("sample", n)
    eq(d.samples(a, 0), [], "samples-none")
    one = lambda l: l[0] if len(t) == 1 else l
    many = lambda x: [x] if len(t) == 1 else x
    bs = many(d.bounds)
    eq([i.type for i in bs], t, "bounds-type")
    for v in d.samples(a, 20):
        for i, x in zip(bs, many(v)): check(i.include(x), "bounds", str(i), v)
    ev("bounds", 20)
    ws = [ccs.Interval(t=x, lower=-10**6 if x == ccs.NumericType.INT else -1e6, upper=10**6 if x == ccs.NumericType.INT else 1e6) for x in t]
    eq(d.is_oversampling(one(ws)), one([any(x[0] in ("nf", "ni") for x in l) for l in leaves(m)]), "oversampling", m); ev("oversampling")
    refuse("INVALID_VALUE", d.is_oversampling, ws + ws)
    # through a handle: the same class and attributes, sharing the object
    c = raw_refcount(d)
    e = ccs.Object.from_handle(d.handle)
    eq(raw_refcount(d), c + 1, "from-handle-refcount")
    same_dist(e, m)
    del d; gc.collect()
    same_dist(e, m); e.sample(a); ev("outlived")
    sig("dist", m)
def leaves(m):
    """per coordinate, the elementary distributions it may come from"""
    if m[0] == "mi": return [sum(l, []) for l in zip(*[leaves(x) for x in m[1]])]
    if m[0] == "mv": return [l for x in m[1] for l in leaves(x)]
    return [[m]]

# ---------------------------------------------------------------- parameters
class P(em.P):
    default = None; quant = None
def distinct(l):
    out = []
    for v in l:
        if not any(key(v) == key(w) for w in out): out.append(v)
    return out
NAMES = ["a", "b2", "_c", "x_1", "Z", "e5", "param", "été", "n a", "k9", "w", "u", "long_name_with_words"]
def gen_param(r, name=None):
    k = r.below(6)
    name = name or r.pick(NAMES)
    if k == 0:
        p = P(name, "int", lo=r.randint(-9, 0), hi=r.randint(3, 40)); p.quant = r.pick([0, 0, 2])
        p.default = r.randint(p.lo, p.hi - 1) if not p.quant else p.lo
        h = ccs.IntNumericalParameter(name=name, lower=p.lo, upper=p.hi, quantization=p.quant, default=p.default)
    elif k == 1:
        p = P(name, "float", lo=r.uniform(-9, 0), hi=r.uniform(3, 40)); p.quant = r.pick([0.0, 0.0, .5])
        p.default = r.uniform(p.lo, p.hi - .01)
        if p.default < p.lo: p.default = p.lo
        h = ccs.FloatNumericalParameter(name=name, lower=p.lo, upper=p.hi, quantization=p.quant, default=p.default)
    elif k in (2, 3):
        p = P(name, "cat" if k == 2 else "ord", distinct([r.pick([True, False, 1, 2, 3.5, 1.0, -0.5, "x", "é", "", "foo"]) for _ in range(r.randint(1, 6))]))
        i = r.below(len(p.values)); p.default = p.values[i]
        h = (ccs.CategoricalParameter if k == 2 else ccs.OrdinalParameter)(name=name, values=p.values, default_index=i)
    elif k == 4:
        p = P(name, "disc", r.sample([-3, -1, 0, 1, 2, 4, 7, 2.5, 0.5], r.randint(1, 5)))
        i = r.below(len(p.values)); p.default = p.values[i]
        h = ccs.DiscreteParameter(name=name, values=p.values, default_index=i)
        p.values = sorted(p.values)
    else:
        p = P(name, "str"); p.default = None
        h = ccs.StringParameter(name=name)
    return h, p
PCLS = {"int": ccs.IntNumericalParameter, "float": ccs.FloatNumericalParameter, "cat": ccs.CategoricalParameter, "ord": ccs.OrdinalParameter, "disc": ccs.DiscreteParameter, "str": ccs.StringParameter}
def accepts(p, v):
    if p.kind == "int": return type(v) is int and p.lo <= v < p.hi
    if p.kind == "float": return type(v) is float and p.lo <= v < p.hi
    if p.kind == "str": return type(v) is str
    return any(key(v) == key(w) for w in p.values)
def some_value(r, p):
    """mostly acceptable"""
    if r.chance(.25): return r.pick([None, True, 0, 1, -4, 50, 2.5, 1.0, "x", "zz", 41.0, -20.5])
    if p.kind == "int": return r.randint(p.lo, p.hi - 1)
    if p.kind == "float": return r.pick([p.lo, (p.lo + p.hi) / 2])
    if p.kind == "str": return r.pick(WORDS)
    return r.pick(p.values)
def good_value(r, p):
    for _ in range(50):
        v = some_value(r, p)
        if accepts(p, v): return v
    return p.values[0] if p.values else p.lo
def same_param(h, p):
    check(type(h) is PCLS[p.kind], "parameter-class", type(h).__name__, p.kind)
    eq(h.name, p.name, "parameter-name")
    eq(h.object_type, ccs.ObjectType.PARAMETER, "parameter-object-type")
    eq(h.type, {"int": 0, "float": 0, "cat": 1, "ord": 2, "disc": 3, "str": 4}[p.kind], "parameter-type")
    if p.kind in ("int", "float"):
        eq((h.lower, h.upper, h.quantization), (p.lo, p.hi, p.quant), "parameter-attributes")
        eq(h.data_type, ccs.NumericType.INT if p.kind == "int" else ccs.NumericType.FLOAT, "parameter-data-type")
    elif p.kind != "str": 
        if p.kind == "disc": check(len(h.values) == len(p.values) and all(a == b for a, b in zip(sorted(h.values), p.values)), "discrete-values", h.values, p.values)
        else: eq(h.values, p.values, "parameter-values")
    if p.kind != "str":
        check(h.default_value == p.default and (p.kind == "disc" or type(h.default_value) is type(p.default)), "parameter-default", h.default_value, p.default)
    ev("parameter.checked")
def s_param(r):
    h, p = gen_param(r)
    note("parameter %r %r", p.kind, vars(p))
    same_param(h, p)
    vs = [some_value(r, p) for _ in range(r.randint(0, 6))] + [scalar(r)]
    vs = [v for v in vs if v is not ccs.inactive]
    want = [accepts(p, v) for v in vs]
    if p.kind == "disc": want = None
    if want is not None:
        eq([h.check_value(v) for v in vs], want, "check-value", vs)
        eq(h.check_values(vs), want, "check-values", vs); ev("check.values", len(vs))
    if p.kind != "str":
        a, b = rngs(r)
        n = r.randint(1, 8)
        x = h.samples(n, rng=a)
        buf = (ccs.Datum * n)()
        dd = ct.c_void_p(); raw("ccs_parameter_get_default_distribution", h.handle, ct.byref(dd))
        dd = D.from_handle(dd, retain=False)
        raw("ccs_parameter_samples", h.handle, dd.handle, b.handle, ct.c_size_t(n), buf)
        eq(x, [v.value for v in buf], "parameter-samples")
        ok = h.check_values(x); check(all(ok), "sample-not-accepted", x)
        y = h.sample(rng=a); check(h.check_value(y), "sample-not-accepted", y)
        z = h.sample(); check(h.check_value(z), "sample-not-accepted", z)
        ev("parameter.samples", n)
        dd = h.default_distribution
        eq(dd.dimension, 1, "default-distribution")
    if p.kind == "ord":
        for _ in range(4):
            i, j = r.below(len(p.values)), r.below(len(p.values))
            eq(h.compare(p.values[i], p.values[j]), (i > j) - (i < j), "ordinal-compare")
        refuse("INVALID_VALUE", h.compare, p.values[0], "no such value")
    o = ccs.Object.from_handle(h.handle)
    check(o == h and not (o != h), "parameter-equal"); same_param(o, p)
    h2, _ = gen_param(r, p.name)
    check(not (h2 == h), "parameter-distinct")
    del h; gc.collect(); same_param(o, p)
    # malformed definitions
    k = r.below(6)
    if k == 0: refuse("INVALID_VALUE", ccs.IntNumericalParameter, name="q", lower=5, upper=5)
    elif k == 1: refuse("INVALID_VALUE", ccs.FloatNumericalParameter, name="q", lower=1.0, upper=0.0)
    elif k == 2: refuse("INVALID_VALUE", ccs.CategoricalParameter, name="q", values=["a", "b", "a"])
    elif k == 3: refuse("OUT_OF_BOUNDS" if False else ["INVALID_VALUE", "OUT_OF_BOUNDS"], ccs.OrdinalParameter, name="q", values=["a"], default_index=4)
    elif k == 4: refuse("INVALID_VALUE", ccs.DiscreteParameter, name="q", values=[1, "a"])
    else: refuse("INVALID_VALUE", ccs.IntNumericalParameter, name="q", lower=0, upper=5, default=9)
    sig("param", p.kind, p.name, repr(p.values), p.lo, p.hi)

# ---------------------------------------------------------------- spaces and bindings
def params(r, n, kinds=None):
    out = []
    for name in r.sample(NAMES, n):
        while True:
            x = gen_param(r, name)
            if kinds is None or x[1].kind in kinds: break
        out.append(x)
    return out
def same_context(s, ps, name):
    eq(s.name, name, "space-name"); eq(s.num_parameters, len(ps), "space-size")
    hs = s.parameters
    eq(len(hs), len(ps), "space-parameters")
    for i, (h, (g, p)) in enumerate(zip(hs, ps)):
        same_param(h, p); check(h == g, "space-parameter-identity")
        check(s.parameter(i) == g and s.parameter_by_name(p.name) == g, "space-parameter")
        eq(s.parameter_index(g), i, "space-index"); eq(s.parameter_index_by_name(p.name), i, "space-index-name")
    refuse("OUT_OF_BOUNDS", s.parameter, len(ps)); refuse("INVALID_NAME", s.parameter_by_name, "no such"); refuse("INVALID_NAME", s.parameter_index_by_name, "no such")
    refuse("INVALID_PARAMETER", s.parameter_index, ccs.StringParameter(name="no such"))
    ev("context.checked")
def fill(r, s, ps, plain=True):
    hs = [h for h, _ in ps]
    if r.chance(.5):
        for h in hs: s.add_parameter(h)
    else:
        k = r.below(len(hs) + 1)
        s.add_parameters(hs[:k])
        for h in hs[k:]: s.add_parameter(h)
    if hs: refuse("INVALID_PARAMETER", s.add_parameter, r.pick(hs))
def drive_binding(r, b, s, ps, vals, strict=True):
    """reads and writes of a binding against the list of its values"""
    vals = list(vals)
    names = [p.name for _, p in ps]
    def look():
        eq(b.values, vals, "binding-values"); eq(b.num_values, len(vals), "binding-number")
        eq(b.asdict(), dict(zip(names, vals)), "binding-asdict")
        ev("binding.read")
    look()
    for _ in range(r.randint(1, 8)):
        if not ps: break
        i = r.below(len(ps)); h, p = ps[i]
        how = r.below(3)
        at = [i, p.name, h][how]
        op = r.below(4)
        if op == 0: eq(b.value(at), vals[i], "binding-value", ["index", "name", "parameter"][how]); ev("binding.get")
        elif op < 3:
            v = good_value(r, p) if r.chance(.7) else ccs.inactive
            b.set_value(at, v); vals[i] = v; ev("binding.set.%d" % how)
            eq(b.value(i), v, "binding-set", ["index", "name", "parameter"][how])
        else:
            v = [good_value(r, q) if r.chance(.8) else ccs.inactive for _, q in ps]
            b.set_values(v); vals = v; ev("binding.set.all")
        look()
    v = scalar(r)
    refuse("OUT_OF_BOUNDS", b.value, len(ps)); refuse("OUT_OF_BOUNDS", b.set_value, len(ps), 1)
    refuse("INVALID_NAME", b.value, "no such"); refuse("INVALID_NAME", b.set_value, "no such", 1)
    refuse("INVALID_VALUE", b.set_values, [1] * (len(ps) + 1))
    look()
    return vals
def bkey(vals): return [key(v) for v in vals]
def s_space(r):
    """configuration spaces, their configurations, defaults, samples"""
    n = r.below(6)
    ps = params(r, n, ("int", "float", "cat", "ord", "disc"))
    name = r.pick(WORDS)
    cs = ccs.ConfigurationSpace(name=name)
    fill(r, cs, ps)
    note("space of %r", [(p.name, p.kind, p.values, p.lo, p.hi) for _, p in ps])
    same_context(cs, ps, name)
    eq(cs.object_type, ccs.ObjectType.CONFIGURATION_SPACE, "object-type")
    eq(cs.conditions, [None] * n, "no-conditions"); eq(cs.forbidden_clauses, [], "no-clauses"); eq(cs.num_conditions, n, "num-conditions")
    drawable = all(p.kind != "str" for _, p in ps)
    if r.chance(.15):
        # hardly anything is allowed: a sampling that fails keeps nothing of what it had found
        k = r.pick([300, 1000, 10**6]); rare = ccs.ConfigurationSpace(name="rare")
        rare.add_parameter(ccs.IntNumericalParameter(name="x", lower=0, upper=k)); rare.add_forbidden_clause("x > 1")
        rare.rng = rngs(r)[0]
        for _ in range(3):
            w = r.randint(1, 12)
            try: x = rare.samples(w) if r.chance(.7) else [rare.sample()]
            except ccs.Error as e: check("ERROR_SAMPLING_UNSUCCESSFUL" in str(e), "sampling-error", str(e)[:200]); ev("sampling.failed")
            else: check(all(c.check() and c.values[0] <= 1 for c in x), "rare-samples"); ev("sampling.rare", len(x))
            x = None
    d = cs.default_configuration
    for v, (h, p) in zip(d.values, ps):
        if p.kind != "str": check(v == p.default, "default-configuration", v, p.default)
    # conditions on earlier parameters, through text or trees
    cond = {}
    for i in range(1, n):
        if r.chance(.35):
            j = r.below(i); q = ps[j][1]
            if q.kind == "str": continue
            v = q.default
            try: e = E.Equal(left=ps[j][0], right=v)
            except ccs.Error: continue
            how = r.below(3)
            cs.set_condition([i, ps[i][1].name, ps[i][0]][how], e)
            cond[i] = (j, v, str(e)); ev("condition.set")
            refuse("INVALID_PARAMETER" if False else ["INVALID_PARAMETER", "INVALID_CONDITION", "INVALID_VALUE"], cs.set_condition, i, e)
    got = cs.conditions
    for i in range(n):
        one = cs.condition(r.pick([i, ps[i][1].name, ps[i][0]]))
        eq(str(got[i]) if got[i] is not None else None, cond[i][2] if i in cond else None, "conditions")
        eq(str(one) if one is not None else None, cond[i][2] if i in cond else None, "condition")
    check([h.handle.value for h in cs.conditional_parameters] == [ps[i][0].handle.value for i in sorted(cond)], "conditional")
    check([h.handle.value for h in cs.unconditional_parameters] == [ps[i][0].handle.value for i in range(n) if i not in cond], "unconditional")
    # forbidden clauses
    clauses = []
    num = [(i, x) for i, x in enumerate(ps) if x[1].kind == "int" and x[1].hi - x[1].lo > 3]
    for i, (h, p) in num[:2]:
        v = next(v for v in (p.lo, p.hi - 1) if v != p.default)
        if p.quant: continue
        e = E.Equal(left=h, right=v)
        if r.chance(.5): cs.add_forbidden_clause(e)
        else: cs.add_forbidden_clauses([e])
        clauses.append((i, v, str(e))); ev("clause.added")
    eq([str(c) for c in cs.forbidden_clauses], [c[2] for c in clauses], "clauses"); eq(cs.num_forbidden_clauses, len(clauses), "num-clauses")
    for i, c in enumerate(clauses): eq(str(cs.forbidden_clause(i)), c[2], "clause")
    refuse("OUT_OF_BOUNDS", cs.forbidden_clause, len(clauses))
    def valid(vals):
        for i, ((h, p), v) in enumerate(zip(ps, vals)):
            if i in cond:
                j, w, _ = cond[i]
                x = vals[j]
                act = not is_inactive(x) and (x == w) and ((type(x) is bool) == (type(w) is bool))
                if act != (not is_inactive(v)): return False
                if not act: continue
            elif is_inactive(v): return False
            if p.kind == "disc":
                if not any(v == w and type(v) in (int, float) for w in p.values): return False
            elif not accepts(p, v): return False
        return not any(not is_inactive(vals[i]) and vals[i] == v for i, v, _ in clauses)
    # samples agree with a direct draw of the library in the same state
    if drawable:
        a, b = rngs(r)
        cs.rng = a
        check(cs.rng.handle.value == a.handle.value, "space-rng")
        k = r.randint(1, 6)
        cf = cs.samples(k) if r.chance(.6) else [cs.sample() for _ in range(k)]
        eq(len(cf), k, "samples-number")
        cs.rng = b
        buf = (ct.c_void_p * k)()
        if len(cf) == k:
            raw("ccs_configuration_space_samples", cs.handle, ct.c_size_t(k), buf)
            other = [ccs.Configuration(handle=ct.c_void_p(x), retain=False) for x in buf]
            for x in other: check(x.check(), "sample-invalid", x.values)
        for x in cf:
            check(x.check() and cs.check(x), "sample-invalid", x.values); check(valid(x.values), "sample-model", x.values, cond, clauses)
            check(x.configuration_space.handle.value == cs.handle.value and x.context.handle.value == cs.handle.value, "sample-space")
            eq(cs.check_values(x.values), True, "check-values-sample"); ev("sampled")
        eq(cs.samples(0), [], "samples-none")
    # hand-made configurations
    for _ in range(3):
        vals = [ccs.inactive if (i in cond and r.chance(.5)) else good_value(r, p) for i, (h, p) in enumerate(ps)]
        x = ccs.Configuration(configuration_space=cs, values=vals)
        if any(p.kind == "disc" for _, p in ps):
            for i, (h, p) in enumerate(ps):
                if p.kind == "disc" and not is_inactive(vals[i]): check(x.values[i] == vals[i], "binding-values")
        else: eq(x.values, vals, "configuration-values")
        w = valid(vals)
        eq(x.check(), w, "configuration-check", vals, cond, clauses); eq(cs.check(x), w, "space-check", vals); eq(cs.check_values(vals), w, "space-check-values", vals)
        ev("check.valid" if w else "check.invalid")
    if n: refuse("INVALID_VALUE", ccs.Configuration, configuration_space=cs, values=[1] * (n + 1)); refuse("INVALID_VALUE", cs.check_values, [1] * (n + 1))
    # distributions of the parameters
    for i, (h, p) in enumerate(ps):
        if p.kind == "str": continue
        dist, k = cs.get_parameter_distribution(r.pick([i, p.name, h]))
        eq(k, 0, "distribution-index"); eq(dist.dimension, 1, "distribution-dimension"); ev("distribution.of.parameter")
    fl = [i for i, x in enumerate(ps) if x[1].kind == "float" and not x[1].quant]
    if fl:
        ds = [D.Uniform.Float(lower=ps[i][1].lo, upper=ps[i][1].hi) for i in fl]
        mv = D.Multivariate(distributions=ds) if len(ds) > 1 or r.chance(.5) else ds[0]
        if mv is ds[0] and len(ds) > 1: fl = fl[:1]
        cs.set_distribution(mv, [r.pick([i, ps[i][1].name, ps[i][0]]) for i in fl])
        for k, i in enumerate(fl):
            g, j = cs.get_parameter_distribution(i)
            check(g.handle.value == mv.handle.value and j == k, "set-distribution", j, k)
        ev("distribution.set")
        refuse("INVALID_VALUE", cs.set_distribution, mv, [0] * (mv.dimension + 1))
    refuse("OUT_OF_BOUNDS", cs.get_parameter_distribution, n)
    if r.chance(.3):
        # parameters added with distributions of their own, for all or some of them
        c2 = ccs.ConfigurationSpace(name="given"); k = r.randint(1, 6)
        hs = [ccs.IntNumericalParameter(name="g%d" % i, lower=0, upper=20) for i in range(k)]
        ds = [D.Uniform.Int(lower=5, upper=r.randint(7, 15)) if r.chance(.6) else None for _ in hs]
        if r.chance(.5): c2.add_parameters(hs, ds)
        else:
            for a, b in zip(hs, ds): c2.add_parameter(a, b) if b is not None else c2.add_parameter(a)
        for i, b in enumerate(ds):
            g, j = c2.get_parameter_distribution(i)
            if b is None: eq((j, g.lower, g.upper), (0, 0, 20), "default-distribution")
            else: check(g.handle.value == b.handle.value and j == 0, "given-distribution", i)
        for x in c2.samples(10):
            for v, b in zip(x.values, ds): check(0 <= v < 20 if b is None else 5 <= v < b.upper, "given-distribution-samples", v)
        ev("distribution.given"); refuse("INVALID_VALUE", ccs.ConfigurationSpace(name="n").add_parameters, hs, ds + [None])
        g = x = a = b = c2 = hs = None
    nd = [x for x in ps if x[1].kind != "disc"]
    if len(nd) == n:
        vals = [good_value(r, p) for _, p in ps]
        x = ccs.Configuration(configuration_space=cs, values=vals)
        vals = drive_binding(r, x, cs, ps, vals)
        y = ccs.Configuration(configuration_space=cs, values=vals)
        check(x == y and not (x != y) and x.cmp(y) == 0 and x <= y and x >= y and not x < y and not x > y, "equal-configurations", vals)
        eq(hash(x), hash(y), "equal-hash"); eq(x.hash, y.hash, "equal-hash"); check(isinstance(x.hash, int), "hash-type")
        w = ct.c_uint32(); raw("ccs_binding_hash", x.handle, ct.byref(w)); eq(x.hash, w.value, "hash-value")
        for i in range(min(n, 2)):
            v = good_value(r, ps[i][1])
            z = ccs.Configuration(configuration_space=cs, values=vals); z.set_value(i, v)
            c = ct.c_int(); raw("ccs_binding_cmp", x.handle, z.handle, ct.byref(c))
            eq((x == z, x != z, x < z, x > z, x <= z, x >= z, x.cmp(z)), (c.value == 0, c.value != 0, c.value < 0, c.value > 0, c.value <= 0, c.value >= 0, c.value), "compare")
            eq(c.value == 0, key(v) == key(vals[i]), "compare-equal"); ev("compared")
        eq(len({x, y}), 1, "set-of-configurations")
        for i, (h, p) in enumerate(ps):
            v = good_value(r, p)
            eq(cs.validate_value(r.pick([i, p.name, h]), v), v, "validate-value"); ev("validated")
            if p.kind == "int": refuse("INVALID_VALUE", cs.validate_value, i, p.hi)
        # what a binding gives stays valid when everything else is gone
        hold = x.configuration_space if r.chance(.5) else None
        del cs, ps, nd, y, hold, d
        fl = ds = mv = g = dist = h = p = got = one = cf = other = None
        gc.collect()
        eq(x.values, vals, "binding-after-collection"); x.check(); x.context.parameters; ev("outlived")
    sig("space", name, n, repr(cond), repr(clauses))

def s_features(r):
    n = r.below(5)
    ps = params(r, n, ("int", "float", "cat", "ord", "str"))
    name = r.pick(WORDS)
    fs = ccs.FeaturesSpace(name=name)
    fill(r, fs, ps)
    same_context(fs, ps, name)
    check(type(ccs.Object.from_handle(fs.handle)) is ccs.FeaturesSpace, "features-space-class")
    for _ in range(3):
        vals = [good_value(r, p) if r.chance(.9) else scalar(r) for _, p in ps]
        try: f = ccs.Features(features_space=fs, values=vals)
        except ccs.Error:
            ev("features.refused"); check(not all(accepts(p, v) for (_, p), v in zip(ps, vals)), "features-refused", vals); continue
        w = all(accepts(p, v) for (_, p), v in zip(ps, vals))
        eq(f.values, vals, "features-values")
        eq(f.check(), w, "features-check", vals); eq(fs.check(f), w, "space-check-features", vals); eq(fs.check_values(vals), w, "check-features-values", vals)
        check(type(f.features_space) is ccs.FeaturesSpace and f.features_space.handle.value == fs.handle.value, "features-space")
        check(type(f.context) is ccs.FeaturesSpace and f.context.handle.value == fs.handle.value, "features-context")
        ev("features.valid" if w else "features.invalid")
        if w:
            v2 = drive_binding(r, f, fs, ps, vals)
            g = ccs.Features(features_space=fs, values=v2)
            check(f == g, "features-equal"); eq(f.hash, g.hash, "features-hash")
    sig("features", name, repr([p.kind for _, p in ps]), repr(vals) if n else 0)

# ---------------------------------------------------------------- objectives and evaluations
def obj_space(r, nobj=None):
    """an objective space over numbers and the model of its objectives"""
    n = r.randint(1, 3)
    hs = [ccs.FloatNumericalParameter(name="o%d" % i, lower=-1e9, upper=1e9, default=0.0) for i in range(n)]
    ps = []
    for i, h in enumerate(hs):
        p = P("o%d" % i, "float", lo=-1e9, hi=1e9); p.quant = 0.0; p.default = 0.0; ps.append((h, p))
    os_ = ccs.ObjectiveSpace(name="os")
    fill(r, os_, ps)
    k = nobj or r.randint(1, 3)
    objs, exprs, types = [], [], []
    for i in range(k):
        j, sign = r.below(n), r.pick([0, 1])
        how = r.below(3)
        if how == 0: e, f = E.Variable(parameter=hs[j]), (lambda v, j=j: v[j])
        elif how == 1: e, f = "o%d" % j, (lambda v, j=j: v[j])
        else: e, f = "o%d + 1.0" % j, (lambda v, j=j: v[j] + 1.0)
        exprs.append(e); types.append(sign); objs.append((f, sign, str(e)))
    way = r.below(3)
    if way == 0:
        for e, t in zip(exprs, types): os_.add_objective(e, t=t)
    elif way == 1: os_.add_objectives(exprs, types)
    else:
        for e, t in zip(exprs, types): os_.add_objectives({e: t})
    return os_, ps, objs
def dominance(a, b, objs):
    """1 better, -1 worse … of a against b (smaller comparison value is better)"""
    s = 0
    for f, t, _ in objs:
        x, y = f(a), f(b)
        c = (x > y) - (x < y)
        if t: c = -c
        if c:
            if s and s != c: return 2
            s = c
    return s
def s_objective(r):
    os_, ps, objs = obj_space(r)
    same_context(os_, ps, "os")
    eq(os_.num_objective, len(objs), "num-objective")
    for i, (e, t) in enumerate(os_.objectives):
        eq((str(e), t), (objs[i][2], objs[i][1]), "objectives")
        g = os_.get_objective(i); eq((str(g[0]), g[1]), (objs[i][2], objs[i][1]), "get-objective")
    refuse("OUT_OF_BOUNDS", os_.get_objective, len(objs))
    kind = r.below(3)
    if kind == 0:
        cs = ccs.ConfigurationSpace(name="cs"); cs.add_parameter(ccs.IntNumericalParameter(name="x", lower=0, upper=9))
        conf = cs.default_configuration
        def mk(vals, res=0): return ccs.Evaluation(objective_space=os_, configuration=conf, values=vals, result=res)
        cls = ccs.Evaluation
    elif kind == 1:
        cs = ccs.ConfigurationSpace(name="cs"); conf = cs.default_configuration
        fs = ccs.FeaturesSpace(name="fs"); fs.add_parameter(ccs.CategoricalParameter(name="k", values=["u", "v"]))
        feat = ccs.Features(features_space=fs, values=["v"])
        def mk(vals, res=0): return ccs.FeaturesEvaluation(objective_space=os_, configuration=conf, features=feat, values=vals, result=res)
        cls = ccs.FeaturesEvaluation
    else:
        t = ccs.Tree(arity=2, value=1); ts = ccs.TreeSpace.Static(name="ts", tree=t)
        conf = ccs.TreeConfiguration(tree_space=ts, position=[])
        def mk(vals, res=0): return ccs.TreeEvaluation(objective_space=os_, configuration=conf, values=vals, result=res)
        cls = ccs.TreeEvaluation
    def vals(): return [float(r.randint(-2, 2)) for _ in ps]
    vs = [vals() for _ in range(4)]
    es = [mk(v) for v in vs]
    for e, v in zip(es, vs):
        eq(e.values, v, "evaluation-values"); eq(e.result, 0, "evaluation-result")
        eq(e.objective_values, [f(v) for f, _, _ in objs], "objective-values"); eq(e.num_objective_values, len(objs), "num-objective-values")
        eq(e.check(), True, "evaluation-check"); eq(os_.check_values(v), True, "check-values")
        check(e.objective_space.handle.value == os_.handle.value and type(e.objective_space) is ccs.ObjectiveSpace, "evaluation-space")
        check(e.configuration.handle.value == conf.handle.value and type(e.configuration) is type(conf), "evaluation-configuration")
        if kind == 1: check(e.features.handle.value == feat.handle.value and type(e.features) is ccs.Features, "evaluation-features")
        check(type(ccs.Object.from_handle(e.handle)) is cls, "evaluation-class")
    for i in range(4):
        for j in range(4):
            eq(es[i].compare(es[j]), dominance(vs[i], vs[j], objs), "evaluation-compare", vs[i], vs[j], [(t, s) for _, t, s in objs]); ev("dominance")
    b = mk([1e10] * len(ps)); eq(b.check(), False, "evaluation-check-bad"); eq(os_.check_values([1e10] * len(ps)), False, "check-values-bad")
    f = mk(vals(), res=-3); eq(f.result, -3, "evaluation-failed"); refuse("INVALID_VALUE" if False else ["INVALID_VALUE", "INVALID_OBJECT", "INVALID_EVALUATION"], f.compare, es[0])
    f.result = 0; eq(f.result, 0, "evaluation-set-result"); f.result = 7; eq(f.result, 7, "evaluation-set-result")
    drive_binding(r, mk(vs[0]), os_, ps, vs[0])
    refuse("INVALID_VALUE", mk, [1.0] * (len(ps) + 1)); refuse("INVALID_VALUE", os_.check_values, [])
    e = es[0]; v = vs[0]
    del es, b, f, mk, os_, conf; cs = fs = feat = ts = t = None; gc.collect()
    eq(e.objective_values, [f(v) for f, _, _ in objs], "objective-values"); e.configuration; ev("outlived")
    sig("objective", kind, repr(vs), repr([(t, s) for _, t, s in objs]))

# ---------------------------------------------------------------- tuners
class Boom(Exception): pass
def pareto(told, objs):
    """values kept: told successfully and not strictly dominated"""
    ok = [(e, v) for e, v, res in told if res == 0]
    return [(e, v) for e, v in ok if not any(dominance(w, v, objs) == -1 for _, w in ok)]
def setting(r, kind):
    """spaces and constructors of one kind of tuner (0 plain, 1 features, 2 tree)"""
    os_, ops, objs = obj_space(r)
    if kind == 2:
        root = gen_tree(r, 2)[0]
        sp = ccs.TreeSpace.Static(name="ts", tree=root)
    else:
        sp = ccs.ConfigurationSpace(name="cs"); sp.add_parameters([ccs.IntNumericalParameter(name="x", lower=0, upper=50), ccs.CategoricalParameter(name="c", values=["p", "q", 1])])
    a, b = rngs(r)
    sp.rng = a
    fs, feats = None, [None]
    if kind == 1:
        fs = ccs.FeaturesSpace(name="fs"); fs.add_parameter(ccs.CategoricalParameter(name="k", values=["u", "v", "w"]))
        feats = [ccs.Features(features_space=fs, values=[k]) for k in ("u", "v", "w")]
    return os_, ops, objs, sp, fs, feats
def mk_eval(kind, os_, conf, feat, vals, res=0):
    if kind == 0: return ccs.Evaluation(objective_space=os_, configuration=conf, values=vals, result=res)
    if kind == 1: return ccs.FeaturesEvaluation(objective_space=os_, configuration=conf, features=feat, values=vals, result=res)
    return ccs.TreeEvaluation(objective_space=os_, configuration=conf, values=vals, result=res)
def handles(l): return sorted(x.handle.value for x in l)
def q(t, kind, what, f):
    """history, optima… of a tuner, which are methods of feature tuners"""
    return getattr(t, what)(f) if kind == 1 else getattr(t, what)
def s_tuner(r):
    kind = r.below(3)
    os_, ops, objs, sp, fs, feats = setting(r, kind)
    name = r.pick(WORDS)
    if kind == 0: t = ccs.Tuner.Random(name=name, configuration_space=sp, objective_space=os_)
    elif kind == 1: t = ccs.FeaturesTuner.Random(name=name, configuration_space=sp, features_space=fs, objective_space=os_)
    else: t = ccs.TreeTuner.Random(name=name, tree_space=sp, objective_space=os_)
    eq(t.name, name, "tuner-name"); eq(t.type, 0, "tuner-type")
    check(t.objective_space.handle.value == os_.handle.value, "tuner-objective-space")
    check((t.tree_space if kind == 2 else t.configuration_space).handle.value == sp.handle.value, "tuner-space")
    if kind == 1: check(t.features_space.handle.value == fs.handle.value, "tuner-features-space")
    told = []
    for step in range(r.randint(1, 6)):
        f = r.pick(feats)
        k = r.randint(1, 4)
        cf = t.ask(f, k) if kind == 1 else t.ask(k)
        eq(len(cf), k, "ask-number"); check(all(c.check() for c in cf), "ask-invalid"); ev("asked", k)
        cf1 = t.ask(f) if kind == 1 else t.ask(); eq(len(cf1), 1, "ask-default")
        es = []
        for c in cf:
            v = [float(r.randint(-2, 2)) for _ in ops]; res = 0 if r.chance(.85) else r.pick([-1, 5])
            e = mk_eval(kind, os_, c, f, v, res); es.append(e); told.append((e, v, res, f))
        t.tell(es); ev("told", len(es))
        for g in ([None] + feats if kind == 1 else [None]):
            mine = [(e, v, res) for e, v, res, x in told if g is None or x is g]
            h = q(t, kind, "history", g)
            eq([x.handle.value for x in h], [e.handle.value for e, _, res in mine if res == 0], "history"); eq(q(t, kind, "history_size", g), len(h), "history-size")
            groups = [[x for x in told if x[3] is y] for y in feats] if kind == 1 and g is None else [[x for x in told if g is None or x[3] is g]]
            best = [b for gr in groups for b in pareto([x[:3] for x in gr], objs)]
            o = q(t, kind, "optima", g)
            # of equivalent evaluations any may be kept
            want = {tuple(fn(v) for fn, _, _ in objs) for _, v in best}
            if kind == 1 and g is None: pass
            else:
                eq(sorted({tuple(x.objective_values) for x in o}), sorted(want), "optima", [v for _, v, _ in mine])
            eq(q(t, kind, "num_optima", g), len(o), "num-optima")
            check(set(handles(o)) <= {e.handle.value for e, _ in best}, "optima-dominated"); ev("optima")
        try: s = t.suggest(f) if kind == 1 else t.suggest
        except ccs.Error: fail("suggest")
        check(s.check(), "suggest-invalid"); ev("suggested")
    # everything the tuner gave survives it, and it survives what it was made of
    h = q(t, kind, "history", None)
    vals = [x.values for x in h]
    if r.chance(.5): del t, os_, sp, fs; gc.collect()
    else: del told, es, e, cf, c, o, best; gc.collect(); eq(len(q(t, kind, "history", None)), len(h), "history")
    eq([x.values for x in h], vals, "history-outlives"); ev("outlived")
    sig("tuner", kind, repr(vals))

class Model:
    """the user's side of a user-defined tuner: records what it is given"""
    def __init__(self): self.history, self.calls, self.asked, self.deleted, self.fail, self.sug, self.state, self.loaded = [], [], 0, 0, None, None, 0, None; self.code = 0
def callbacks(m, kind, r, full):
    """functions of a user-defined tuner over the model"""
    def boom(where):
        if m.fail == where:
            m.fail = None
            if m.code == RES.ERROR_OUT_OF_BOUNDS: ccs.Tree(arity=1, value=0).get_child(7) # an error of the library itself
            if m.code: raise ccs.Error(RES(m.code))
            raise Boom("injected in " + where)
    def filt(f): return [e for e in m.history if kind != 1 or f is None or e.features.values == f.values]
    def delete(t): m.deleted += 1; m.calls.append("delete")
    def ask(t, *a):
        f, count = (a if kind == 1 else (None, a[0]))
        m.calls.append(("ask", count, f.values if f is not None else None)); boom("ask")
        if count is None: return (None, 1)
        sp = t.tree_space if kind == 2 else t.configuration_space
        cf = sp.samples(count); m.last = [c.handle.value for c in cf]
        return (cf, count)
    def tell(t, evs): m.calls.append(("tell", len(evs))); boom("tell"); m.history += evs
    def get_optima(t, *a): m.calls.append("get_optima"); boom("get_optima"); return filt(a[0] if a else None)[:1]
    def get_history(t, *a): m.calls.append("get_history"); boom("get_history"); return filt(a[0] if a else None)
    def suggest(t, *a): m.calls.append("suggest"); boom("suggest"); return (m.history[0].configuration if m.history else (t.tree_space if kind == 2 else t.configuration_space).sample())
    def serialize(t, size):
        m.calls.append("serialize"); boom("serialize"); return ct.create_string_buffer(b"state %d" % m.state)
    def deserialize(t, history, optima, state):
        m.calls.append("deserialize"); boom("deserialize")
        m.loaded = (history, optima, ct.cast(state, ct.c_char_p).value if state else None); m.history = list(history)
    d = dict(delete=delete, ask=ask, tell=tell, get_optima=get_optima, get_history=get_history)
    if full & 1: d["suggest"] = suggest
    if full & 2: d["serialize"] = serialize
    if full & 4: d["deserialize"] = deserialize
    return d
def s_user_tuner(r):
    kind = r.below(3)
    os_, ops, objs, sp, fs, feats = setting(r, kind)
    m = Model(); full = r.pick([0, 1, 7, 7, 7, 6, 3])
    cbs = callbacks(m, kind, r, full)
    cls = [ccs.Tuner, ccs.FeaturesTuner, ccs.TreeTuner][kind].UserDefined
    kw = dict(name="ut", objective_space=os_)
    kw["tree_space" if kind == 2 else "configuration_space"] = sp
    if kind == 1: kw["features_space"] = fs
    data = r.pick([None, m, [], "text", 0, {"a": 1}])
    t = cls(tuner_data=data, **kw, **cbs)
    check(type(t) is cls, "user-tuner-class"); check(t.tuner_data is data, "tuner-data", t.tuner_data, data)
    o = ccs.Object.from_handle(t.handle); check(type(o) is cls and o.tuner_data is data, "tuner-data-handle"); del o
    told = []
    destroyed = []
    if r.chance(.3): t.set_destroy_callback(lambda o, d: destroyed.append((o.name, d)), user_data=["ud"])
    if r.chance(.4): t.user_data = {"k": [1, "é"]}
    ud = t.user_data
    def use(t, m, n):
        nonlocal told
        for _ in range(n):
            f = r.pick(feats); a = (f,) if kind == 1 else ()
            op = r.below(6); m.calls.clear()
            where = ["ask", "tell", "get_history", "get_optima", "suggest", None][op]
            inject = r.chance(.2) and where
            if inject: m.fail = where
            def do(fn, *x):
                if inject:
                    m.code = r.pick([0, 0, RES.ERROR_INVALID_TREE, RES.ERROR_OUT_OF_BOUNDS])
                    want = "EXTERNAL" if not m.code else RES(m.code).name[6:]
                    s = refuse(want, fn, *x); check(m.code or "injected in " + where in s, "error-message", s[:300]); ev("callback.error"); ev("callback.error." + want); m.code = 0; return None
                return fn(*x)
            if op == 0:
                k = r.randint(1, 3)
                cf = do(t.ask, *a, k)
                eq(m.calls, [("ask", k, f.values if f is not None else None)], "ask-calls")
                if cf is not None: eq([c.handle.value for c in cf], m.last, "ask-result"); ev("user.ask")
            elif op == 1:
                c = sp.sample(); e = mk_eval(kind, os_, c, f, [float(r.randint(-2, 2)) for _ in ops])
                do(t.tell, [e]); eq(m.calls, [("tell", 1)], "tell-calls")
                if not inject: told.append(e); ev("user.tell")
            elif op == 2:
                h = do(q, t, kind, "history", f)
                if h is not None:
                    check([x.handle.value for x in h] == [x.handle.value for x in m.history if kind != 1 or x.features.values == f.values], "user-history"); ev("user.history")
            elif op == 3:
                h = do(q, t, kind, "optima", f)
                if h is not None: eq(len(h), min(1, len([x for x in m.history if kind != 1 or x.features.values == f.values])), "user-optima"); ev("user.optima")
            elif op == 4:
                g = (lambda: t.suggest(f)) if kind == 1 else (lambda: t.suggest)
                if not full & 1: m.fail = None; refuse("UNSUPPORTED_OPERATION", g)
                else:
                    s = do(g)
                    if s is not None:
                        check(s.check(), "user-suggest"); ev("user.suggest")
                        if m.history: check(s.handle.value == m.history[0].configuration.handle.value, "user-suggest-object")
            else:
                m.fail = None
                eq([x.handle.value for x in m.history], [x.handle.value for x in told], "told-history")
    use(t, m, r.randint(2, 8))
    m.state = r.below(1000)
    vals = [e.values for e in m.history]
    if full & 2:
        m.fail = "serialize"; refuse("EXTERNAL", t.serialize); m.fail = None
    buf = t.serialize(); ev("user.saved")
    m2 = Model(); c2 = callbacks(m2, kind, r, full)
    d2 = r.pick([None, m2, [], ""])
    if full & 4 and r.chance(.3):
        m2.fail = "deserialize"; n = hh.live()
        refuse("EXTERNAL", cls.deserialize, tuner_data=d2, buffer=buf, **c2); m2.fail = None; gc.collect(); ccs.clear_thread_error()
        ev("user.load.failed")
        # the user's object was created, so it is deleted exactly once
        check(m2.deleted <= 1, "deleted-twice"); m2.deleted = 0; m2.history = []; m2.loaded = None
    t2 = cls.deserialize(tuner_data=d2, buffer=buf, **c2)
    check(type(t2) is cls, "reloaded-class"); check(t2.tuner_data is d2, "reloaded-data", t2.tuner_data, d2)
    eq(t2.name, "ut", "reloaded-name"); eq(t2.user_data, ud, "reloaded-user-data"); ev("user.loaded")
    if full & 4:
        h, op, st = m2.loaded
        eq([e.values for e in h], vals, "reloaded-history"); eq([e.values for e in op], vals[:1], "reloaded-optima")
        eq(st, b"state %d" % m.state if full & 2 else None, "reloaded-state"); h = op = None; m2.loaded = None
        # the reloaded tuner has spaces of its own
        sp, os_ = (t2.tree_space if kind == 2 else t2.configuration_space), t2.objective_space
        if kind == 1: feats = [ccs.Features(features_space=t2.features_space, values=[k]) for k in ("u", "v", "w")]
        told = list(m2.history)
        use(t2, m2, r.randint(1, 5)); ev("user.reloaded.used")
    told = None
    m.history, m2.history = [], []
    m.last = m2.last = None
    eq((m.deleted, m2.deleted), (0, 0), "deleted-early")
    had = len(t._handle and destroyed)
    cbn = bool(ccs.base._data_store) if False else None
    sp = os_ = fs = None; kw.clear()
    if r.chance(.5): del t, t2
    else: del t2, t
    gc.collect()
    eq((m.deleted, m2.deleted), (1, 1), "deleted-once"); ev("user.deleted", 2)
    check(had == 0 and (not destroyed or destroyed == [("ut", ["ud"])]), "destroy-callback", destroyed)
    data = d2 = None; cbs.clear(); c2.clear()
    sig("user", kind, full, repr(vals))

# ---------------------------------------------------------------- trees
def gen_tree(r, depth):
    """a tree and its model [value, arity, weight, bias, children]"""
    ar = r.below(4) if depth else r.below(2)
    v = scalar(r)
    while v is ccs.inactive: v = scalar(r)
    t = ccs.Tree(arity=ar, value=v)
    m = [v, ar, 1.0, 1.0, [None] * ar]
    if depth:
        for i in range(ar):
            if r.chance(.75):
                c, n = gen_tree(r, depth - 1)
                t.set_child(i, c); m[4][i] = n
                if r.chance(.3): refuse("INVALID_VALUE", t.set_child, i, ccs.Tree(arity=0, value=0))
    if r.chance(.3): m[2] = r.pick([.5, 2.0, 3.0]); t.weight = m[2]
    if r.chance(.3): m[3] = r.pick([.5, 2.0, 0.0]); t.bias = m[3]
    return t, m
def paths(m, at=()):
    yield at, m, True
    for i, c in enumerate(m[4]):
        if c is not None: yield from paths(c, at + (i,))
        else: yield at + (i,), None, True # valid, but holds no node
    yield at + (m[1],), None, False
def node(m, pos):
    for i in pos: m = m[4][i]
    return m
def same_tree(t, m, pos=()):
    check(type(t) is ccs.Tree, "tree-class")
    check(hh.same(t.value, m[0]), "tree-value", t.value, m[0]); eq(t.arity, m[1], "tree-arity"); eq(t.weight, m[2], "tree-weight"); eq(t.bias, m[3], "tree-bias")
    eq(t.position, list(pos), "tree-position"); eq(t.depth, len(pos), "tree-depth")
    ch = t.children
    eq(len(ch), m[1], "tree-children")
    for i, (c, n) in enumerate(zip(ch, m[4])):
        g = t.get_child(i)
        if n is None: check(c is None and g is None, "tree-no-child"); continue
        check(c.handle.value == g.handle.value, "tree-child"); eq(c.index, i, "tree-index"); check(c.parent.handle.value == t.handle.value, "tree-parent")
        same_tree(c, n, pos + (i,))
    ev("tree.node")
def s_tree(r):
    t, m = gen_tree(r, 3)
    same_tree(t, m)
    check(t.parent is None and t.index is None, "tree-root"); refuse("OUT_OF_BOUNDS", t.get_child, m[1])
    refuse("OUT_OF_BOUNDS", t.set_child, m[1], ccs.Tree(arity=0, value=0))
    ts = ccs.TreeSpace.Static(name="ts", tree=t)
    check(type(ts) is ccs.TreeSpace.Static and type(ccs.Object.from_handle(ts.handle)) is ccs.TreeSpace.Static, "tree-space-class")
    eq(ts.name, "ts", "tree-space-name"); eq(ts.type, 0, "tree-space-type"); check(ts.tree.handle.value == t.handle.value, "tree-space-tree")
    for pos, n, ok in list(paths(m)):
        pos = list(pos)
        eq(t.position_is_valid(pos), ok, "position-valid", pos); eq(ts.check_position(pos), ok, "space-position", pos)
        c = ccs.TreeConfiguration(tree_space=ts, position=pos)
        eq(c.position, pos, "configuration-position"); eq(c.position_size, len(pos), "configuration-position-size")
        eq(c.check(), ok, "tree-configuration-check", pos); eq(ts.check_configuration(c), ok, "space-check-configuration", pos)
        check(c.tree_space.handle.value == ts.handle.value, "tree-configuration-space")
        if n is not None:
            vals = [node(m, pos[:i])[0] for i in range(len(pos) + 1)]
            for g in (t.get_values_at_position(pos), ts.get_values_at_position(pos), c.values, ts.get_node_at_position(pos).values): eq(g, vals, "values-at", pos)
            x = t.get_node_at_position(pos); eq(x.position, pos, "node-at")
            check(ts.get_node_at_position(pos).handle.value == x.handle.value and c.node.handle.value == x.handle.value, "node-at"); ev("position.valid")
        else:
            refuse(["OUT_OF_BOUNDS", "INVALID_TREE"], t.get_node_at_position, pos); refuse(["OUT_OF_BOUNDS", "INVALID_TREE"], t.get_values_at_position, pos); ev("position.invalid")
        d = ccs.TreeConfiguration(tree_space=ts, position=pos)
        check(c == d and not c != d and c.hash == d.hash and hash(c) == hash(d) and c.cmp(d) == 0 and c <= d and c >= d and not c < d and not c > d, "tree-configuration-equal")
    ps = [list(p) for p, n, ok in paths(m) if n]
    for _ in range(4):
        x, y = r.pick(ps), r.pick(ps)
        c, d = ccs.TreeConfiguration(tree_space=ts, position=x), ccs.TreeConfiguration(tree_space=ts, position=y)
        k = c.cmp(d)
        eq(k == 0, x == y, "tree-configuration-cmp"); eq((c == d, c != d, c < d, c > d, c <= d, c >= d), (k == 0, k != 0, k < 0, k > 0, k <= 0, k >= 0), "tree-configuration-order")
        check((d.cmp(c) > 0) == (k < 0), "tree-configuration-antisymmetry")
    a, b = rngs(r)
    # draws of a node, against the library
    try: k = r.randint(1, 5); x = t.samples(a, k) if r.chance(.5) else [t.sample(a) for _ in range(k)]
    except ccs.Error as e: check("INVALID_DISTRIBUTION" in str(e), "tree-sample", e); x = None
    if x is not None:
        eq(len(x), k, "tree-samples"); check(all(v is None or 0 <= v < m[1] for v in x), "tree-sample-range", x); ev("tree.sample", k)
        ts.rng = b; check(ts.rng.handle.value == b.handle.value, "tree-space-rng")
        try: cf = ts.samples(k) + [ts.sample()]
        except ccs.Error as e: check("INVALID_DISTRIBUTION" in str(e), "tree-space-sample", e); cf = []
        for c in cf: check(c.check() and ts.check_configuration(c), "tree-space-sample"); ev("tree.space.sample")
    eq(t.samples(a, 0) if x is not None else [], [], "tree-samples-none")
    nd = ts.tree
    ps_ = [p for p in ps if p]
    leaf = t.get_node_at_position(r.pick(ps)) 
    lp = leaf.position
    del ts, t, nd; c = d = cf = None; gc.collect()
    sig("tree", repr(m))
def s_dynamic(r):
    calls, deleted, fail_at = [], [], []
    ar = r.randint(1, 3)
    def get_child(ts, parent, i):
        calls.append((parent.position, i))
        if fail_at: fail_at.pop(); raise Boom("no child")
        return ccs.Tree(arity=ar if parent.depth < 2 else 0, value=parent.depth * 10 + i)
    def delete(ts): deleted.append(ts.name)
    def ser(ts, size): return ct.create_string_buffer(b"dyn")
    loaded = []
    def des(ts, state): loaded.append(ct.cast(state, ct.c_char_p).value if state else None)
    data = r.pick([None, calls, [], 0])
    kw = dict(delete=delete, get_child=get_child)
    full = r.below(2)
    if full: kw.update(serialize=ser, deserialize=des)
    root = ccs.Tree(arity=ar, value="root")
    ts = ccs.TreeSpace.Dynamic(name="dyn", tree=root, tree_space_data=data, **kw)
    check(ts.tree_space_data is data, "tree-space-data", ts.tree_space_data); eq(ts.type, 1, "dynamic-type")
    check(type(ccs.Object.from_handle(ts.handle)) is ccs.TreeSpace.Dynamic, "dynamic-class")
    def explore(ts, n):
        for _ in range(n):
            pos = [r.below(ar) for _ in range(r.randint(1, 3))]
            if r.chance(.2):
                known = ts.tree.position_is_valid(pos)
                if not known:
                    fail_at.append(1); s = refuse("EXTERNAL", ts.get_node_at_position, pos); check("no child" in s, "error-message", s[:200]); ev("dynamic.error"); continue
            k = len(calls)
            x = ts.get_node_at_position(pos); eq(x.position, pos, "dynamic-position")
            eq(x.values, ["root"] + [i * 10 + p for i, p in enumerate(pos)], "dynamic-values"); eq(ts.get_values_at_position(pos), x.values, "dynamic-values-at")
            n = len(calls); ts.get_node_at_position(pos); eq(len(calls), n, "child-asked-twice")
            for p, i in calls[k:]: check(p + [i] == pos[:len(p) + 1], "child-asked", p, i, pos)
            ev("dynamic.node")
        c = ts.sample(); check(c.check(), "dynamic-sample"); c.values; c.node
    explore(ts, r.randint(1, 5))
    if r.chance(.4): ts.user_data = [1, {"z": None}]
    ud = ts.user_data
    buf = ts.serialize(); d2 = r.pick([None, "x", []])
    t2 = ccs.TreeSpace.Dynamic.deserialize(tree_space_data=d2, buffer=buf, **kw)
    check(t2.tree_space_data is d2, "dynamic-reloaded-data"); eq(t2.user_data, ud, "dynamic-reloaded-user-data")
    if full: eq(loaded, [b"dyn"], "dynamic-state")
    explore(t2, 2); ev("dynamic.reloaded")
    eq(deleted, [], "dynamic-deleted-early")
    del ts, t2; gc.collect()
    eq(deleted, ["dyn", "dyn"], "dynamic-deleted"); ev("user.deleted", 2)
    calls.clear(); kw.clear(); data = d2 = None
    sig("dynamic", ar, full, repr(ud))

# ---------------------------------------------------------------- saving
def tvals(o):
    try: return o.values
    except ccs.Error: return None # a position that holds no node
def describe(o, deep=True):
    """what Python shows of an object, as plain data"""
    if o is None or not isinstance(o, ccs.Object): return ("v", repr(o))
    c = type(o).__name__
    if isinstance(o, ccs.Rng): return (c, o.min, o.max)
    if isinstance(o, D):
        if isinstance(o, D.Uniform): return (c, o.lower, o.upper, o.scale, o.quantization)
        if isinstance(o, D.Normal): return (c, o.mu, o.sigma, o.scale, o.quantization)
        if isinstance(o, D.Roulette): return (c, ["%.12g" % a for a in o.areas])
        return (c, [describe(x) for x in o.distributions], ["%.12g" % a for a in getattr(o, "weights", [])])
    if isinstance(o, ccs.Parameter):
        x = (c, o.name, repr(o.default_value) if c != "StringParameter" else None)
        if hasattr(o, "lower"): x += (o.lower, o.upper, o.quantization)
        if hasattr(o, "values"): x += (repr(o.values),)
        return x
    if isinstance(o, E): return (c, o.type, str(o), sorted(repr(describe(p)) for p in o.parameters))
    if isinstance(o, ccs.ConfigurationSpace):
        return (c, o.name, [describe(p) for p in o.parameters], [describe(x) for x in o.conditions], [describe(x) for x in o.forbidden_clauses],
                [describe(o.get_parameter_distribution(i)[0]) + (o.get_parameter_distribution(i)[1],) for i in range(o.num_parameters) if not isinstance(o.parameter(i), ccs.StringParameter)], repr(o.default_configuration.values))
    if isinstance(o, ccs.ObjectiveSpace): return (c, o.name, [describe(p) for p in o.parameters], [(describe(e), t) for e, t in o.objectives])
    if isinstance(o, ccs.FeaturesSpace): return (c, o.name, [describe(p) for p in o.parameters])
    if isinstance(o, (ccs.Configuration, ccs.Features)): return (c, o.asdict(), describe(o.context), o.check())
    if isinstance(o, (ccs.Evaluation, ccs.FeaturesEvaluation, ccs.TreeEvaluation)): return (c, o.asdict(), o.result, describe(o.configuration), o.objective_values, describe(getattr(o, "features", None)))
    if isinstance(o, ccs.Tree): return (c, repr(o.value), o.arity, o.weight, o.bias, [describe(x) for x in o.children])
    if isinstance(o, ccs.TreeSpace): return (c, o.name, describe(o.tree))
    if isinstance(o, ccs.TreeConfiguration): return (c, o.position, repr(tvals(o)), describe(o.tree_space))
    if isinstance(o, (ccs.Tuner, ccs.TreeTuner)): return (c, o.name, [x.asdict() for x in o.history], sorted(repr(x.values) for x in o.optima), describe(o.objective_space))
    if isinstance(o, ccs.FeaturesTuner): return (c, o.name, [x.asdict() for x in o.history()], sorted(repr(x.values) for x in o.optima()), describe(o.features_space))
    if isinstance(o, Map): return (c, sorted(repr((describe(k), describe(v))) for k, v in zip(o.keys(), o.values())))
    fail("HARNESS-describe", c)
def some_object(r):
    k = r.below(16)
    if k == 0: return ccs.Rng()
    if k < 3: return gen_dist(r)[0]
    if k < 5: return gen_param(r)[0]
    if k == 5:
        ps = params(r, 3, ("int", "float"))
        return r.pick([lambda: E.Add(left=ps[0][0], right=E.Multiply(left=2, right=ps[1][0])), lambda: E.In(left=ps[0][0], right=E.List(values=[1, 2.5, "x"])),
                       lambda: E.Not(node=E.Less(left=ps[0][0], right=ps[2][0])), lambda: E.Literal(value=r.pick([1, 2.5, "é", True])), lambda: E.Variable(parameter=ps[0][0]), lambda: ccs.parse("1 + 2 * 3")])()
    if k < 8:
        ps = params(r, r.below(5), ("int", "float", "cat", "ord"))
        cs = ccs.ConfigurationSpace(name=r.pick(WORDS)); cs.add_parameters([h for h, _ in ps])
        if len(ps) > 1: cs.set_condition(1, E.Equal(left=ps[0][0], right=ps[0][1].default))
        return cs if k == 6 else r.pick([cs.sample(), cs.default_configuration])
    if k == 8: return obj_space(r)[0]
    if k == 9:
        fs = ccs.FeaturesSpace(name="fs"); ps = params(r, 2, ("int", "cat", "str")); fs.add_parameters([h for h, _ in ps])
        return fs if r.chance(.5) else ccs.Features(features_space=fs, values=[good_value(r, p) for _, p in ps])
    if k == 10:
        t, m = gen_tree(r, 2); ts = ccs.TreeSpace.Static(name="s", tree=t)
        return r.pick([t, ts, ccs.TreeConfiguration(tree_space=ts, position=list(r.pick([p for p, n, ok in paths(m) if n])))])
    if k < 14:
        kind = r.below(3)
        os_, ops, objs, sp, fs, feats = setting(r, kind)
        if kind == 0: t = ccs.Tuner.Random(name="t", configuration_space=sp, objective_space=os_)
        elif kind == 1: t = ccs.FeaturesTuner.Random(name="t", configuration_space=sp, features_space=fs, objective_space=os_)
        else: t = ccs.TreeTuner.Random(name="t", tree_space=sp, objective_space=os_)
        es = []
        for _ in range(r.below(5)):
            f = r.pick(feats); es.append(mk_eval(kind, os_, sp.sample(), f, [float(r.randint(-2, 2)) for _ in ops], 0 if r.chance(.8) else -1))
        if es and r.chance(.3): return es[0]
        t.tell(es)
        return t
    m = Map()
    for _ in range(r.below(5)):
        m[scalar(r)] = scalar(r)
    return m
JSON = [None, 1, 2.5, "é", [1, [2]], {"a": {"b": []}}, True, "", 0, []]
def deps(o):
    """what a saved object only refers to, innermost first"""
    if isinstance(o, ccs.Configuration): return [o.configuration_space]
    if isinstance(o, ccs.Features): return [o.features_space]
    if isinstance(o, ccs.TreeConfiguration): return [o.tree_space]
    if isinstance(o, E): return o.parameters
    if isinstance(o, (ccs.Evaluation, ccs.FeaturesEvaluation, ccs.TreeEvaluation)):
        l = deps(o.configuration) + [o.configuration, o.objective_space]
        return l + deps(o.features) + [o.features] if isinstance(o, ccs.FeaturesEvaluation) else l
    return []
def hm_get(hm, o):
    for k, v in zip(hm.keys(), hm.values()):
        if k.handle.value == o.handle.value: return v.handle.value
def s_save(r):
    o = some_object(r)
    want = describe(o)
    note("saving %s", want)
    ud = r.pick(JSON) if r.chance(.6) else None
    if ud is not None: o.user_data = ud; check(o.user_data is ud, "user-data")
    how = r.below(3)
    cls = type(o)
    needs = deps(o)
    hm = Map() if needs or r.chance(.4) else None
    kw = dict(handle_map=hm) if hm is not None else {}
    # what it refers to is reloaded first, into the same map
    if needs: refuse(["INVALID_OBJECT", "INVALID_HANDLE"], ccs.deserialize, buffer=o.serialize()); ev("save.needs")
    kept = [ccs.deserialize(buffer=x.serialize(), handle_map=hm) for x in needs]
    for x, y in zip(needs, kept): eq(describe(y), describe(x), "reloaded-dependency"); eq(hm_get(hm, x), y.handle.value, "handle-map-dependency")
    cb = r.chance(.35)
    seen, back = [], []
    skw, lkw = {}, dict(kw)
    if cb:
        tok, tok2 = object(), ["d"]
        def save_cb(x, d, size): seen.append((d is tok, size)); return ct.create_string_buffer(repr(x.user_data).encode())
        def load_cb(x, data, d): back.append((ct.cast(data, ct.c_char_p).value if data else None, d is tok2)); x.user_data = "loaded"
        skw = dict(callback=save_cb, callback_data=tok); lkw.update(callback=load_cb, callback_data=tok2)
    load = r.pick([ccs.deserialize, ccs.Object.deserialize]) if r.chance(.8) else cls.deserialize if not issubclass(cls, (ccs.TreeSpace.Dynamic,)) else ccs.deserialize
    if how == 0:
        buf = o.serialize(**skw)
        n = ct.c_size_t()
        x = load(buffer=buf, **lkw)
        # damaged data is refused
        if r.chance(.5):
            cut = (ct.c_byte * (ct.sizeof(buf) - 1 - r.below(min(8, ct.sizeof(buf) - 1))))(*buf[:0])
            ct.memmove(cut, buf, ct.sizeof(cut))
            nb = len(back); k = r.pick(["refuse"])
            try: y = load(buffer=cut, **{k: v for k, v in lkw.items()})
            except ccs.Error: ev("save.truncated")
            else: fail("truncated-accepted", cls.__name__, ct.sizeof(cut), ct.sizeof(buf))
            del back[nb:]
    elif how == 1:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "o")
            check(o.serialize(path=p, **skw) is None, "file"); x = load(path=p, **lkw)
            refuse("INVALID_FILE_PATH", o.serialize, path=os.path.join(d, "no", "such")); refuse("INVALID_FILE_PATH", load, path=os.path.join(d, "none"))
    else:
        with tempfile.TemporaryFile() as f:
            fd = f.fileno()
            zero = None
            check(o.serialize(file_descriptor=fd, **skw) is None, "descriptor"); os.lseek(fd, 0, 0)
            x = load(file_descriptor=fd, **lkw)
    ev("saved.%d" % how); ev("saved." + cls.__name__)
    check(type(x) is cls, "reloaded-class", type(x).__name__, cls.__name__)
    eq(describe(x), want, "reloaded"); eq(describe(o), want, "saving-changed")
    if isinstance(o, ccs.Rng): eq([o.get() for _ in range(3)], [x.get() for _ in range(3)], "reloaded-draws")
    if isinstance(o, (ccs.ConfigurationSpace, ccs.TreeSpace.Static)) and not isinstance(o, ccs.FeaturesSpace):
        try: a = o.sample()
        except ccs.Error: a = None
        if a is not None: eq(describe(a), describe(x.sample()), "reloaded-samples")
    if cb and ud is not None:
        check(all(s[0] for s in seen) and seen, "save-callback-data"); eq(back, [(repr(ud).encode(), True)], "load-callback"); eq(x.user_data, "loaded", "load-callback-user-data"); ev("save.callback")
    elif not cb: eq(x.user_data, ud, "reloaded-user-data"); ev("save.user.data" if ud is not None else "save.plain")
    if hm is not None:
        # the map gives the new object for the old identity
        eq(hm_get(hm, o), x.handle.value, "handle-map"); ev("save.handle.map")
    refuse("INVALID_VALUE", o.serialize, format="text"); refuse("INVALID_VALUE", load, format="text", buffer=1); refuse("INVALID_VALUE", load)
    refuse("INVALID_VALUE", load, path="a", file_descriptor=0)
    if r.chance(.5): del o
    else: del x
    gc.collect()
    sig("save", repr(want), how, repr(ud))

# ---------------------------------------------------------------- lifetime
def s_life(r):
    """wrappers, aliases, user data and destruction callbacks in every order"""
    log = []
    pool = {}
    for i in range(r.randint(1, 4)):
        o = some_object(r)
        note("object %d %s", i, type(o).__name__)
        pool[i] = dict(refs=[o], cbs=[], ud=None, h=o.handle.value)
        del o
    ccs.parse("0") # the parser holds its last result
    for _ in range(r.randint(4, 20)):
        if not pool: break
        i = r.pick(sorted(pool)); s = pool[i]
        op = r.below(8); note("op %d on %d", op, i)
        if op == 0: s["refs"].append(ccs.Object.from_handle(s["refs"][0].handle)); ev("life.alias")
        elif op == 1: s["refs"].append(type(s["refs"][0]).from_handle(s["refs"][0].handle)); ev("life.alias")
        elif op == 2:
            k = len(s["cbs"]); s["cbs"].append((i, k))
            data = r.pick([None, 7, "text", [1], (i, k)])
            def cb(o, d, i=i, k=k, data=data, h=s["h"]):
                log.append((i, k)); check(d is data, "destroy-data"); 
                if o.handle.value != h: log.append("wrong object")
                o.object_type
            if r.chance(.7): r.pick(s["refs"]).set_destroy_callback(cb, user_data=data)
            else:
                def cb2(o, d, cb=cb, data=data): cb(o, data)
                r.pick(s["refs"]).set_destroy_callback(cb2)
            ev("life.callback")
            if r.chance(.2):
                def cb3(o, d, i=i, k=k + 1): log.append((i, k)); raise Boom("injected in a destruction callback")
                s["cbs"].append((i, k + 1)); r.pick(s["refs"]).set_destroy_callback(cb3); ev("life.callback.fails")
        elif op == 3: s["ud"] = r.pick([{"x": 1}, [1], "s", None, object()]); r.pick(s["refs"]).user_data = s["ud"]; ev("life.user.data")
        elif op == 4: check(r.pick(s["refs"]).user_data is s["ud"], "user-data", i)
        elif op == 5:
            o = r.pick(s["refs"])
            eq(o.refcount, len(s["refs"]) + s.get("map", 0), "refcount", type(o).__name__); ev("refcount")
            del o
        elif op == 6 and len(s["refs"]) > 1: s["refs"].pop(r.below(len(s["refs"]))); ev("life.drop")
        else:
            n = len(log); s["refs"].clear(); del pool[i]
            if r.chance(.5): gc.collect()
            eq(log[n:], s["cbs"], "destroy-callbacks"); ev("life.destroyed", len(s["cbs"])); ev("life.released")
    refuse("INVALID_VALUE", ccs.Object.set_destroy_callback, some_object(r), None)
    for i in sorted(pool, key=lambda _: r.random()):
        n = len(log); cbs = pool[i]["cbs"]; pool[i]["refs"].clear(); s = None; del pool[i]; gc.collect()
        eq(log[n:], cbs, "destroy-callbacks"); ev("life.released")
    # a callback that fails is reported and does not stop the others
    sig("life", repr(log))

# ---------------------------------------------------------------- errors
def s_error(r):
    st = ccs.ErrorStack(error=ccs.Result.ERROR_INVALID_TREE, message=r.pick(["plain", "100% %s %n", "é"]))
    msg = st.message
    check(msg in ("plain", "100% %s %n", "é"), "stack-message", msg); eq(st.code.value, ccs.Result.ERROR_INVALID_TREE, "stack-code")
    el = []
    for i in range(r.below(4)):
        f, l, fn = "file%d.py" % i, r.below(1000), "fn_é%d" % i
        st.push(f, l, fn); el.append((f.encode(), l, fn.encode()))
    gc.collect()
    eq([(e.file, e.line, e.func) for e in st.elems()], el, "stack-elements"); ev("stack")
    check(type(ccs.Object.from_handle(st.handle)) is ccs.ErrorStack, "stack-class")
    ccs.set_thread_error(st)
    g = ccs.get_thread_error(); check(g.handle.value == st.handle.value, "thread-error"); check(ccs.get_thread_error() is None, "thread-error-taken")
    ccs.set_thread_error(st); ccs.clear_thread_error(); check(ccs.get_thread_error() is None, "thread-error-cleared")
    eq(raw_refcount(st), 2, "stack-refcount")
    # an exception carries the library's message and where it was raised
    t = ccs.Tree(arity=1, value=0)
    try: t.get_child(3)
    except ccs.Error as e:
        check("ERROR_OUT_OF_BOUNDS" in str(e), "error-location", str(e)); eq(e._code.value, ccs.Result.ERROR_OUT_OF_BOUNDS, "error-code")
    else: fail("not-refused")
    check(ccs.get_thread_error() is None, "stale-error"); ev("error.location")
    # objects whose creation failed
    for i in r.sample(range(len(BAD)), 6):
        f = BAD[i]; note("BAD %d", i)
        refuse(["INVALID_VALUE", "INVALID_DISTRIBUTION", "INVALID_OBJECT", "INVALID_PARAMETER", "INVALID_SCALE", "OUT_OF_BOUNDS", "INVALID_HANDLE"], f); ev("creation.refused")
        check(ccs.get_thread_error() is None, "stale-error")
    # wrong kinds of objects
    o = some_object(r)
    if not isinstance(o, ccs.Tree): refuse("INVALID_OBJECT", ccs.Tree.set_child, t, 0, o)
    if not isinstance(o, ccs.Rng): refuse("INVALID_OBJECT", ccs.Tree.sample, t, o)
    if not isinstance(o, (ccs.Tree,)): refuse("INVALID_OBJECT", ccs.TreeSpace.Static, name="x", tree=o)
    sig("error", repr(el), type(o).__name__)
BAD = [lambda: D.Uniform.Float(lower=1.0, upper=0.0), lambda: D.Uniform.Int(lower=5, upper=5), lambda: D.Roulette(areas=[]),
       lambda: D.Roulette(areas=[-1.0, 2.0]), lambda: D.Mixture(distributions=[D.Roulette(areas=[1.0])], weights=[-1.0]), lambda: D.Uniform.Float(scale=9), lambda: D.Multivariate(distributions=[]),
       lambda: ccs.CategoricalParameter(name="x", values=[]), lambda: ccs.Datum(object()), lambda: ccs.Datum(b"bytes"), lambda: ccs.Object(None),
       lambda: D.Uniform.Float(lower=0.0, upper=1.0, quantization=5.0), lambda: D.Uniform.Float(lower=-1.0, upper=1.0, scale=1)]

# ---------------------------------------------------------------- expressions
import C08_build as cb
def s_expr(r):
    wide = r.chance(.12)
    ps = cb.gen_params(r, wide)
    hp = [cb.make(p) for p in ps]
    os_ = ccs.ObjectiveSpace(name="os"); os_.add_parameters(hp)
    e = em.gen(r, ps, r.randint(1, 3))
    if wide:
        e = ("in", e, ("list", [("var", i) for i in r.sample(range(len(ps)), r.randint(9, len(ps)))])); ev("expression.wide")
    x = cb.build(e, hp, r)
    def walk(x, e):
        """nodes, classes and parameters follow the tree"""
        k = e[0]
        if k == "lit": check(type(x) is E.Literal and x.type == ccs.ExpressionType.LITERAL, "node-class", e); eq(x.value, e[1], "literal-value"); eq(x.num_nodes, 0, "num-nodes"); return
        if k == "var": check(type(x) is E.Variable and x.parameter == hp[e[1]], "node-class", e); eq(x.num_nodes, 0, "num-nodes"); return
        kids = e[1] if k == "list" else [y for y in e[1:] if isinstance(y, tuple)]
        cls = E.List if k == "list" else E.In if k == "in" else cb.UN[e[1]] if k == "un" else cb.BIN[e[1]]
        check(type(x) is cls, "node-class", type(x).__name__, e); eq(x.num_nodes, len(kids), "num-nodes")
        ns = x.nodes
        eq(len(ns), len(kids), "nodes")
        for a, b in zip(ns, kids): walk(a, b)
        ev("expression.node")
    walk(x, e)
    vs = set()
    def coll(e):
        if e[0] == "var": vs.add(e[1])
        for y in (e[1] if e[0] == "list" else [z for z in e[1:] if isinstance(z, tuple)]): coll(y)
    coll(e)
    check(sorted(p.handle.value for p in x.parameters) == sorted(hp[i].handle.value for i in vs), "expression-parameters")
    x.check_context(os_)
    if vs: refuse("INVALID_PARAMETER", x.check_context, ccs.ObjectiveSpace(name="empty"))
    vals = cb.assignment(r, ps)
    want = em.outcome(e, ps, vals)
    if not cb.nanny(want): got = cb.run(x, os_, vals); check(cb.agree(got, want), "expression-eval", e, got, want); ev("expression.eval")
    l = E.List(values=[1, 2.5, "é", True] + hp[:1])
    for i, v in enumerate([1, 2.5, "é", True]): eq(l.eval(i, context=os_, values=[V(v) for v in vals]) if hp else l.eval(i), v, "list-eval")
    refuse("OUT_OF_BOUNDS", l.eval, 5 + len(hp)); ev("list.eval")
    if hp:
        order = r.sample(range(len(hp)), len(hp))
        l = E.List(values=[hp[i] for i in order]); eq(l.num_nodes, len(hp), "num-nodes")
        for j in (range(len(hp)) if not wide else r.sample(range(len(hp)), 6)):
            v = vals[order[j]]
            check(key(l.eval(j, context=os_, values=[V(x) for x in vals])) == key(V(v)), "list-eval-variable", j, order, vals); ev("list.variable")
    del hp, os_; gc.collect(); str(x); x.parameters; ev("outlived")
    sig("expr", repr(e))

# ---------------------------------------------------------------- constants
CONST = {"ObjectType": "CCS_OBJECT_TYPE_", "Result": "CCS_RESULT_", "DataType": "CCS_DATA_TYPE_", "DatumFlag": "CCS_DATUM_FLAG_", "NumericType": "CCS_NUMERIC_TYPE_", "SerializeFormat": "CCS_SERIALIZE_FORMAT_",
         "SerializeOperation": "CCS_SERIALIZE_OPERATION_", "SerializeOption": "CCS_SERIALIZE_OPTION_", "DeserializeOption": "CCS_DESERIALIZE_OPTION_", "DistributionType": "CCS_DISTRIBUTION_TYPE_", "ScaleType": "CCS_SCALE_TYPE_",
         "ParameterType": "CCS_PARAMETER_TYPE_", "ExpressionType": "CCS_EXPRESSION_TYPE_", "ObjectiveType": "CCS_OBJECTIVE_TYPE_", "Comparison": "CCS_COMPARISON_", "TunerType": "CCS_TUNER_TYPE_", "FeaturesTunerType": "CCS_FEATURES_TUNER_TYPE_",
         "TreeTunerType": "CCS_TREE_TUNER_TYPE_", "TreeSpaceType": "CCS_TREE_SPACE_TYPE_", "TerminalType": "CCS_TERMINAL_TYPE_", "AssociativityType": "CCS_ASSOCIATIVITY_TYPE_"}
def s_const(r):
    names = hh.enums()
    up = {k.upper(): v for k, v in names.items()}
    for cls, pre in CONST.items():
        c = getattr(ccs, cls)
        n = 0
        for k, v in c._members_.items():
            for cand in (pre + k, pre + k.replace("ASSOCIATIVITY_", ""), pre.replace("_TYPE_", "_") + k, "CCS_" + k, pre.replace("_FORMAT_", "_") + k):
                if cand in up: break
            else: ev("constant.unknown"); continue
            eq(v, up[cand], "constant", cls, k, cand); eq(getattr(c, k), v, "constant-attribute"); ev("constant"); n += 1
            eq(c(v).name, k, "constant-name"); check(v in c, "constant-in")
            eq(str(c(v)), cls + "." + k, "constant-str")
        check(n > 0 , "HARNESS-constants", cls)
    eq(ccs.version_string, str(ccs.version), "version") if False else None
    for code in range(-30, 2):
        s = ct.c_char_p(); raw("ccs_get_result_name", ct.c_int(code), ct.byref(s))
        eq(s.value.decode(), "CCS_RESULT_" + ccs.Result(code).name, "result-name"); ev("result.name")
    sig("const")

SCEN = [(s_map, 8), (s_rng, 2), (s_interval, 5), (s_dist, 8), (s_param, 9), (s_space, 16), (s_features, 6), (s_objective, 9), (s_tuner, 9), (s_user_tuner, 12), (s_tree, 8), (s_dynamic, 6), (s_save, 14), (s_life, 10), (s_error, 6), (s_expr, 7), (s_const, 1)]
ALL = [f for f, w in SCEN for _ in range(w)]
def run_case(r, idx):
    f = r.pick(ALL)
    note(f.__name__)
    ev("scenario." + f.__name__[2:])
    f(r)
hh.main(num_cases, run_case)
