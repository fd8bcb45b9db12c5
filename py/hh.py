"""Harness of the Python drivers: cases, checks, events, lifetime ledger."""
import argparse, ctypes as ct, gc, hashlib, json, os, random, sys, traceback

_so = ct.CDLL(os.environ["LIBCCONFIGSPACE_SO_"])
_so.mon_live.restype = ct.c_long
_so.mon_count.restype = ct.c_long
_so.mon_case.argtypes = [ct.c_ulonglong, ct.c_uint]
_so.mon_enum.argtypes = [ct.c_size_t, ct.POINTER(ct.c_char_p), ct.POINTER(ct.c_long)]
_so.mon_init()

class Fail(Exception):
    def __init__(self, key, msg): self.key, self.msg = key, msg; super().__init__(key, msg)

events, sigs, samples, notes = {}, set(), [], []
_unraisable = []

def ev(name, n=1): events[name] = events.get(name, 0) + n
def note(fmt, *a):
    if len(notes) < 400: notes.append(str(fmt) % a if a else str(fmt))
def sig(*a): sigs.add(hashlib.blake2b(repr(a).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest())
def fail(key, *msg): raise Fail(key, " ".join(str(m) for m in msg))
def check(cond, key, *msg):
    if not cond: fail(key, *msg)
def same(a, b):
    """equality of values with their types (1, 1.0 and True differ)"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if type(a) is not type(b): return False
    if isinstance(a, float): return a == b or (a != a and b != b)
    return a == b
def eq(a, b, key, *msg):
    if not same(a, b): fail(key, "got", repr(a), "expected", repr(b), *msg)
def live():
    return _so.mon_live()

def enums():
    out, n, v, i = {}, ct.c_char_p(), ct.c_long(), 0
    while _so.mon_enum(i, ct.byref(n), ct.byref(v)):
        out[n.value.decode()] = v.value; i += 1
    return out

class R(random.Random):
    def below(self, n): return self.randrange(n)
    def chance(self, p): return self.random() < p
    def pick(self, l): return l[self.randrange(len(l))]

def main(num_cases, run_case, after=None, limit=60):
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--from", dest="a", type=int, default=0)
    ap.add_argument("--to", dest="b", type=int, default=None)
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--sigs", default=None)
    o = ap.parse_args()
    n = num_cases(o.thorough)
    if o.count: print(n); return
    a, b = o.a, n if o.b is None else o.b
    if o.case is not None: a, b = o.case, o.case + 1
    limit = int(os.environ.get("CASE_LIMIT_S", str(limit)))
    sys.unraisablehook = lambda u: _unraisable.append("%r in %r" % (u.exc_value, u.object))
    import cconfigspace as ccs
    gc.disable()
    failed, case = 0, a
    while case < b:
        notes.clear(); _unraisable.clear()
        _so.mon_case(case, limit)
        ccs.parse('0'); gc.collect(); ccs.clear_thread_error() # the parser holds its last result
        before = live()
        store = len(ccs.base._data_store) if hasattr(ccs.base, "_data_store") else 0
        err = None
        try:
            run_case(R((o.seed << 32) ^ (case * 0x9E3779B97F4A7C15 & (1 << 63) - 1)), case)
        except Fail as f: err = (f.key, f.msg)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((t.name for t in reversed(tb) if "/cconfigspace/" in t.filename), "?")
            err = ("exception:%s:%s" % (type(e).__name__, where), "".join(traceback.format_exception(e))[-3000:])
        if err is None:
            ccs.parse('0'); gc.collect(); ccs.clear_thread_error(); gc.collect()
            d = live() - before
            if _unraisable: err = ("unraisable", _unraisable[0])
            elif d: err = ("leak" if d > 0 else "over-release", "%d library blocks more than before the case" % d)
            elif hasattr(ccs.base, "_data_store") and len(ccs.base._data_store) != store: err = ("data-store", "entries left in the data store: %d" % (len(ccs.base._data_store) - store))
        else:
            gc.collect(); ccs.clear_thread_error(); gc.collect()
        if err:
            failed += 1
            print("FAIL %s case=%d %s" % (json.dumps(err[0]), case, err[1].replace("\n", " | ")), flush=True)
            print("  NOTES " + " ; ".join(notes).replace("\n", " | ")[-3000:], flush=True)
            if failed > 20: case += 1; break
        elif len(samples) < 1 and notes: samples.append(" ; ".join(notes)[:400])
        case += 1
    _so.mon_case(case, 0)
    if o.sigs:
        with open(o.sigs, "w") as f: f.write("\n".join(sorted(sigs)))
    print("STATS " + json.dumps(dict(cases=case - a, next=case if failed <= 20 else b, events=events, samples=samples, allocs=_so.mon_count())), flush=True)
    sys.stdout.flush()
    os._exit(1 if failed else 0)
