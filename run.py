#!/usr/bin/env python3
"""Runner: builds the monitored library from /repo's working tree, runs one
property's workload in shards, classifies what the monitors reported, matches
known findings, writes evidence/<id>.json and prints the verdict."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CCS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
JOBS = 8
sys.path.insert(0, ROOT)
from props import PROPS  # per-property settings

SAN = {
  "asan": ["-fsanitize=address,undefined",
           "-fno-sanitize=nonnull-attribute,function,vptr,pointer-overflow",
           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
  "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
}
WRAPS = ["malloc","calloc","realloc","free","strdup","strndup","posix_memalign","aligned_alloc","reallocarray","vasprintf","asprintf",
         "gsl_rng_alloc","gsl_rng_free","gsl_rng_clone","read","write"]
ENV = {
  "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:handle_sigfpe=1:allocator_may_return_null=1:"
                  "detect_stack_use_after_return=1:max_allocation_size_mb=2048:symbolize=1:allow_user_segv_handler=0:malloc_fill_byte=190:max_malloc_fill_size=65536:free_fill_byte=221:max_free_fill_size=4096",
  "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
  "TSAN_OPTIONS": "exitcode=98:halt_on_error=0:history_size=4:second_deadlock_stack=1",
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def lib_sources():
    srcs, hdrs = [], []
    for d in ("src", "include"):
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            for f in fn:
                p = os.path.join(dp, f)
                if f.endswith(".c"): srcs.append(p)
                elif f.endswith(".h") or f.endswith(".subst"): hdrs.append(p)
    return srcs, hdrs

class BuildError(Exception): pass

def compile_many(jobs):
    def one(j):
        r = sh(j)
        return j, r.returncode, r.stdout
    with ThreadPoolExecutor(JOBS) as ex:
        for j, rc, out in ex.map(one, jobs):
            if rc: raise BuildError(" ".join(j) + "\n" + out[-6000:])

def write_version(d):
    ver = open(os.path.join(REPO, "VERSION")).read().strip().lstrip("v") if os.path.exists(os.path.join(REPO, "VERSION")) else "0.0.2.0"
    ver = ver.split("-")[0]
    parts = (ver.split(".") + ["0"] * 4)[:4]
    s = open(os.path.join(REPO, "src/version.h.subst")).read()
    for k, v in (("VERSION_STRING", "v" + ver), ("VERSION_MAJOR", parts[0]), ("VERSION_MINOR", parts[1]),
                 ("VERSION_PATCH", parts[2]), ("VERSION_REVISION", parts[3]), ("VERSION", ver)):
        s = s.replace(f"=={k}==", v)
    open(os.path.join(d, "version.h"), "w").write(s)

def build_lib(flavour):
    """objects of the whole library under the given sanitizer"""
    srcs, hdrs = lib_sources()
    flags = ["clang", "-g", "-O1", "-std=gnu11", "-w", "-ftrivial-auto-var-init=pattern", *SAN[flavour]]
    key = file_hash(srcs + hdrs, flavour + " ".join(flags))
    d = os.path.join(BUILD, f"lib-{flavour}-{key}")
    if os.path.exists(os.path.join(d, ".done")): return d
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    write_version(d)
    jobs = []
    for c in srcs:
        o = os.path.join(d, os.path.relpath(c, REPO).replace("/", "_")[:-2] + ".o")
        jobs.append([*flags, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"), "-I", d, "-c", c, "-o", o])
    compile_many(jobs)
    open(os.path.join(d, ".done"), "w").close()
    return d

def build_prog(pid):
    """driver of one property, linked with the monitored library"""
    conf = PROPS[pid]
    if "python" in conf: return build_python(pid)
    flavour = conf.get("flavour", "asan")
    lib = build_lib(flavour)
    hd = os.path.join(ROOT, "harness")
    hsrc = [os.path.join(hd, f) for f in ["h.cpp"] + conf.get("src", [f"{pid}.cpp"]) + conf.get("common", ["gen.cpp", "dump.cpp", "zoo.cpp"])]
    deps = [os.path.join(hd, f) for f in os.listdir(hd) if f.endswith(".hpp")]
    inc = [p for p in lib_sources()[1] if "/include/" in p]
    base_flags = ["clang++", "-g", "-O1", "-std=c++17", "-w", *SAN[flavour], "-I", os.path.join(REPO, "include"), "-I", hd]
    objs, jobs = [], []
    od = os.path.join(BUILD, "obj"); os.makedirs(od, exist_ok=True)
    own = set(conf.get("src", [f"{pid}.cpp"]))
    extra = [os.path.join(REPO, f) for f in conf.get("repo_src", [])]        # sources of the tree outside src/
    xinc = [os.path.join(REPO, d) for d in conf.get("repo_inc", [])]
    for d in xinc:
        base_flags += ["-I", d]
        inc += [os.path.join(dp, f) for dp, _, fn in os.walk(d) for f in fn]
    for c in hsrc + extra:
        flags = [f if f != "-O1" or os.path.basename(c) not in own else conf.get("opt", "-O1") for f in base_flags]
        k = file_hash([c] + deps + inc, " ".join(flags))
        o = os.path.join(od, f"{os.path.basename(c)[:-4]}-{flavour}-{k}.o")
        objs.append(o)
        if not os.path.exists(o): jobs.append([*flags, "-c", c, "-o", o])
    compile_many(jobs)
    exe = os.path.join(BUILD, f"{pid}-{hashlib.sha256((lib + ' '.join(objs)).encode()).hexdigest()[:16]}")
    if not os.path.exists(exe):
        libobjs = [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".o")]
        r = sh(["clang++", *SAN[flavour], "-o", exe + ".tmp", *objs, *libobjs, *[f"-Wl,--wrap={w}" for w in WRAPS + conf.get("wraps", [])],
                "-lgsl", "-lgslcblas", "-lm", "-lpthread"])
        if r.returncode: raise BuildError(r.stdout[-6000:])
        os.rename(exe + ".tmp", exe)
    return exe

VENV = "/opt/ccs-venv/bin/python"
def build_python(pid):
    """the library as a monitored shared object, and a launcher that runs the
    property's Python driver on it with the repository's Python interface"""
    srcs, hdrs = lib_sources()
    py = os.path.join(ROOT, "py")
    mon = os.path.join(py, "mon.c")
    flags = ["clang", "-g", "-O1", "-fPIC", "-std=gnu11", "-w", "-ftrivial-auto-var-init=pattern", "-shared-libasan", *SAN["asan"]]
    key = file_hash(srcs + hdrs + [mon], " ".join(flags))
    d = os.path.join(BUILD, f"lib-py-{key}")
    so = os.path.join(d, "libccsmon.so")
    if not os.path.exists(so):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        write_version(d)
        names = []
        for h in sorted(hdrs):
            if "/include/" not in h: continue
            t = re.sub(r"/\*.*?\*/", "", open(h).read(), flags=re.S)
            for m in re.finditer(r"enum\s+\w*\s*\{(.*?)\}", t, re.S):
                names += [n for n in re.findall(r"(?:^|,)\s*(CCS_\w+)", m.group(1)) if not n.endswith("FORCE_32BIT")]
        open(os.path.join(d, "enums.inc"), "w").write("".join(f'{{"{n}", (long){n}}},\n' for n in dict.fromkeys(names)))
        jobs, objs = [], []
        for c in srcs + [mon]:
            o = os.path.join(d, os.path.relpath(c, "/").replace("/", "_")[:-2] + ".o"); objs.append(o)
            jobs.append([*flags, "-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "src"), "-I", d, "-c", c, "-o", o])
        compile_many(jobs)
        r = sh(["clang", "-shared", "-shared-libasan", *SAN["asan"], "-o", so + ".tmp", *objs, *[f"-Wl,--wrap={w}" for w in WRAPS if w not in ("read", "write")],
                "-lgsl", "-lgslcblas", "-lm", "-lpthread"])
        if r.returncode: raise BuildError(r.stdout[-6000:])
        os.rename(so + ".tmp", so)
        for o in objs: os.unlink(o)
    rt = sh(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"]).stdout.strip()
    exe = os.path.join(BUILD, f"{pid}-{key}.sh")
    text = f"""#!/bin/sh
export LD_PRELOAD={rt} PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONHASHSEED=0
export PYTHONPATH={REPO}/bindings/python:{py} LIBCCONFIGSPACE_SO_={so}
exec {VENV} {py}/{conf_python(pid)} "$@"
"""
    if not os.path.exists(exe) or open(exe).read() != text:
        open(exe, "w").write(text); os.chmod(exe, 0o755)
    return exe

def conf_python(pid): return PROPS[pid]["python"]

def prune():
    """keep the build directory small"""
    if not os.path.isdir(BUILD): return
    ents = sorted((os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD) if e.startswith("lib-"))
    for _, e in ents[:-6]: shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)
    ents = sorted((os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD) if re.match(r"C\d\d-", e))
    for _, e in ents[:-40]:
        try: os.unlink(os.path.join(BUILD, e))
        except OSError: pass

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

# ------------------------------------------------------------------ reports
def crash_key(out):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", out)
    kind = None
    if m: kind = "asan:" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", out)
        if m:
            t = m.group(1)
            for pat, k in (("overflow", "overflow"), ("null pointer", "null"), ("out of bounds", "bounds"), ("shift", "shift"),
                           ("misaligned", "misaligned"), ("outside the range", "cast"), ("division by zero", "divzero"), ("not a valid value", "enum")):
                if pat in t: kind = "ubsan:" + k; break
            else: kind = "ubsan:other"
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", out)
        kind = "tsan:" + m.group(1).replace(" ", "-") if m else "crash"
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)|#\d+ (\S+) (/\S+\.[ch]:\d+)", out):
        f, loc = (m.group(1), m.group(2)) if m.group(1) else (m.group(3), m.group(4))
        if "/src/" in loc and "sanitizer" not in loc and "asan" not in loc and loc.startswith(REPO):
            fn = f; break
    return f"{kind}:{fn}"

def run_shard(exe, args, deadline, agg=None):
    """run one process; it is stopped at the deadline, or soon after a violation was found elsewhere"""
    env = dict(os.environ); env.update(ENV)
    with tempfile.TemporaryFile(dir=scratch_dir()) as o:
        p = subprocess.Popen([exe, *args], stdout=o, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=scratch_dir(), start_new_session=True)
        cut = False
        while True:
            end = min(deadline, agg.stop_at or deadline) if agg else deadline
            try: p.wait(min(1.0, max(0.05, end - time.time()))); break
            except subprocess.TimeoutExpired: pass
            if time.time() >= end:
                cut = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                p.wait(); break
        o.seek(0); out = o.read().decode("utf-8", "replace")
        return (97, out + "\nSHARD-TIMEOUT\n") if cut else (p.returncode, out)

_scratch = None
def scratch_dir():
    global _scratch
    if _scratch is None: _scratch = tempfile.mkdtemp(prefix="ccsverif-")
    return _scratch

class Agg:
    def __init__(self): self.cases = 0; self.events = {}; self.samples = []; self.sigs = set(); self.fails = []; self.allocs = 0; self.deaths = 0; self.stop_at = None
    def found(self, pid):
        """once a violation is established there is no point in running for long"""
        if self.stop_at is None:
            known = known_findings(pid)
            bad = [f for f in self.fails if not any(re.fullmatch(k["key"], f["key"]) for k in known)]
            if any(f["key"] != "hang" for f in bad) or len(bad) > 3: self.stop_at = time.time() + 45
    def stats(self, s):
        self.cases += s["cases"]; self.allocs += s.get("allocs", 0)
        for k, v in s["events"].items(): self.events[k] = self.events.get(k, 0) + v
        self.samples += s["samples"][:1]

def run_range(pid, exe, seed, thorough, a, b, agg, budget_end):
    """run cases [a,b); restart after a crashing case"""
    restarts = 0
    while a < b and not (agg.stop_at and time.time() > agg.stop_at):
        sigf = tempfile.NamedTemporaryFile(dir=scratch_dir(), suffix=".sig", delete=False).name
        args = ["--seed", str(seed), "--from", str(a), "--to", str(b), "--sigs", sigf] + (["--thorough"] if thorough else [])
        rc, out = run_shard(exe, args, max(time.time() + 30, budget_end), agg)
        for m in re.finditer(r'^FAIL ("(?:[^"\\]|\\.)*") case=(\d+) (.*(?:\n  (?:DESC|NOTES).*)*)', out, re.M):
            agg.fails.append(dict(key=json.loads(m.group(1)), case=int(m.group(2)), text=m.group(3)))
        st = re.search(r"^STATS (\{.*\})$", out, re.M)
        if st:
            s = json.loads(st.group(1)); agg.stats(s); a = s["next"]
            if os.path.exists(sigf):
                agg.sigs.update(l.strip() for l in open(sigf)); os.unlink(sigf)
            tsan_reports(out, agg); agg.found(pid)
            if a < b: break
            continue
        m = re.search(r"^(DEATH|HANG) case=(\d+)", out, re.M)
        case = int(m.group(2)) if m else a
        if "SHARD-TIMEOUT" in out:
            # out of time budget: not a verdict about the code by itself
            tsan_reports(out, agg); agg.timeout = True; agg.found(pid)
            return
        agg.deaths += 1
        key = "hang" if m and m.group(1) == "HANG" else crash_key(out)
        agg.fails.append(dict(key=key, case=case, text=out[-9000:], death=True))
        agg.cases += max(0, case - a + 1); agg.found(pid)
        a = case + 1
        restarts += 1
        if restarts > 3: break

def tsan_reports(out, agg):
    for chunk in out.split("==================")[1:]:
        if "WARNING: ThreadSanitizer" in chunk:
            agg.fails.append(dict(key=crash_key(chunk), case=-1, text=chunk[:6000]))

def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]

def main():
    pid = sys.argv[1]
    t = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = t == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    conf = PROPS[pid]
    t0 = time.time()
    budget_end = t0 + (conf.get("thorough_s", 5400) if thorough else conf.get("quick_s", 600))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay_dir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(replay_dir, exist_ok=True)
    agg = Agg(); agg.timeout = False
    rerun = None
    try:
        with Lock(): exe = build_prog(pid); prune()
        n = int(sh([exe] + (["--thorough"] if thorough else []) + ["--count"], env={**os.environ, **ENV}).stdout.split()[-1])
        shards = min(n, conf.get("shards", JOBS * 4))
        bounds = [n * i // shards for i in range(shards + 1)]
        with ThreadPoolExecutor(conf.get("par", JOBS)) as ex:
            list(ex.map(lambda i: run_range(pid, exe, seed, thorough, bounds[i], bounds[i + 1], agg, budget_end), range(shards)))
        def rerun(f):
            if f["case"] < 0: return True
            for _ in range(2):
                rc, out = run_shard(exe, ["--seed", str(seed), "--case", str(f["case"])] + (["--thorough"] if thorough else []), time.time() + 120)
                if rc != 0: return True
            return False
    except BuildError as e:
        # The tree does not build under the monitor: no verdict is possible about behaviour
        print("BUILD-ERROR", str(e)[-4000:]); sys.exit(2)
    finally:
        if _scratch: shutil.rmtree(_scratch, ignore_errors=True)
    finish(pid, t, seed, conf, agg, t0, rerun, replay_dir)

def finish(pid, t, seed, conf, agg, t0, rerun, replay_dir):
    global _scratch
    _scratch = None
    known = known_findings(pid)
    groups = {}
    for f in agg.fails: groups.setdefault(f["key"], []).append(f)
    viol, knownhit = [], []
    for key, fs in groups.items():
        k = next((k for k in known if re.fullmatch(k["key"], key) and (not k.get("text") or all(re.search(k["text"], f["text"], re.S) for f in fs))), None)
        if k: knownhit.append((k, fs)); continue
        # a hang is confirmed alone, without load, before it counts
        if key == "hang" and rerun and not rerun(fs[0]):
            agg.events["hang.not-reproduced"] = agg.events.get("hang.not-reproduced", 0) + 1
            continue
        viol.append((key, fs))
    if not viol and not agg.fails:
        for e, mn in conf.get("require", {}).items():
            if agg.events.get(e, 0) < mn:
                viol.append(("monitor-starved:" + e, [dict(key="monitor-starved", case=-1,
                    text=f"the monitor observed {agg.events.get(e,0)} '{e}' events, at least {mn} occur on a healthy tree")]))
    if _scratch: shutil.rmtree(_scratch, ignore_errors=True)
    wall = time.time() - t0
    evd = dict(property=pid, tier=t, seed=seed, level=conf.get("level", "exploration"),
        coverage=dict(evaluations=agg.cases, distinct_nontrivial=len(agg.sigs), rule=conf["rule"], samples=agg.samples[:5],
                      observed_events=agg.events, library_allocations_tracked=agg.allocs, time_budget_hit=agg.timeout,
                      known_findings_seen=[k["id"] for k, _ in knownhit], **getattr(agg, "extra", {})),
        assumptions=conf.get("assumptions", ["clang 18 ASan/UBSan instrumentation of the library objects", "GSL and libc are trusted"]),
        wall_s=round(wall, 2), violations=len(viol))
    json.dump(evd, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k, fs in knownhit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for key, fs in viol:
        h = hashlib.sha256(key.encode()).hexdigest()[:10]
        rp = os.path.join(replay_dir, f"{pid}-{h}.txt")
        f = fs[0]
        with open(rp, "w") as o:
            o.write(f"property {pid}\nkey {key}\ntier {t} seed {seed}\n")
            if f["case"] >= 0:
                o.write(f"replay: cd {ROOT} && VERIF_SEED={seed} python3 run.py --replay {pid} {t} {f['case']}\n")
            o.write("\n" + f["text"] + "\n")
        print(f"-- {key} ({len(fs)} occurrence(s), first case {f['case']})")
        print(("  " + f["text"][:1500]).replace("\nVIOLATION", "\n VIOLATION"))
        print(f"VIOLATION property={pid} replay={rp}")
    print(f"{pid} {t}: cases={agg.cases} distinct={len(agg.sigs)} events={sum(agg.events.values())} violations={len(viol)} known={len(knownhit)} wall={wall:.1f}s" + (" (stopped early)" if agg.stop_at else " (time budget hit)" if agg.timeout else ""))
    sys.exit(1 if viol else 0)

def replay():
    pid, t, case = sys.argv[2], sys.argv[3], sys.argv[4]
    with Lock(): exe = build_prog(pid)
    env = dict(os.environ); env.update(ENV); env["ASAN_OPTIONS"] += ":exitcode=99"
    os.execve(exe, [exe, "--seed", os.environ.get("VERIF_SEED", "1"), "--case", case] + (["--thorough"] if t == "thorough" else []), env)

if __name__ == "__main__":
    if sys.argv[1] == "--replay": replay()
    elif sys.argv[1] == "--setup":
        with Lock():
            for p in PROPS: build_prog(p)
        print("setup done")
    else: main()
