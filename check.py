#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the monitors of one property from /repo's working tree, runs them, and
judges what they observed.  Exit 0: held on everything explored; exit 1 with
`VIOLATION property=<id> replay=<path>` lines: violated; other: no answer."""
import sys, os, json, time, argparse, subprocess, hashlib, re, shutil, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
NCPU = min(8, os.cpu_count() or 4)
import specs

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {  # name: (compiler, flags, threads)
    "sa": ("g++", "-O1 -g1 " + SAN, False),           # serial, address+undefined
    "ta": ("g++", "-O1 -g1 " + SAN, True),            # threads, address+undefined
    "tt": ("clang++", "-O1 -g1 -fsanitize=thread", True),  # threads, race detector
    "tq": ("clang++", "-O0 -g1 -fsanitize=thread", True),
    "st": ("clang++", "-O1 -g1 -fsanitize=thread", False),
    "s0": ("g++", "-O0 -g1", False),
    "t0": ("g++", "-O0 -g1", True),
    "s1": ("g++", "-O1 -g1", False),
    "t1": ("g++", "-O1 -g1", True),
    "sn": ("g++", "-O2 -DNDEBUG", False),             # release
    "tn": ("g++", "-O2 -DNDEBUG", True),
    "so": ("clang++", "-O0 -g1 " + SAN, False),
    "to": ("clang++", "-O0 -g1 " + SAN, True),
    "s2": ("clang++", "-O2 -DNDEBUG", False),           # release, second compiler
    "sc": ("clang++", "-O1 -g1 " + SAN, False),       # second compiler
}

WRAPS = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait", "pthread_cond_signal", "pthread_cond_broadcast"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Fatal(Exception):
    pass

# ---------------------------------------------------------------- building
def repo_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "spatialops")):
        ds[:] = sorted(x for x in ds if x not in ("test", "example", "tutorial", "quickstart", "docs"))
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".cpp", ".cu", ".in", ".ipp", ".inl")):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "SpatialOpsConfigure.h.in"))
    return out

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()

_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        hs = [os.path.join(HERE, "harness", f) for f in sorted(os.listdir(os.path.join(HERE, "harness"))) if f.endswith(".h")]
        _repo_hash = (tree_hash(repo_files()), tree_hash(hs))
    return _repo_hash

def make_config(threads):
    """configure SpatialOpsConfigure.h the way the project's cmake does"""
    vals = {"NTHREADS": "4" if threads else "1", "SOPS_REPO_DATE": '"none"', "SOPS_REPO_HASH": '"none"'}
    on = {"ENABLE_THREADS", "FIELD_EXPRESSION_THREADS", "STENCIL_THREADS", "TILL_THREADS"} if threads else set()
    src = open(os.path.join(REPO, "SpatialOpsConfigure.h.in")).read()
    lines = []
    for l in src.splitlines():
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)$", l)
        if m:
            k, rest = m.group(1), m.group(2)
            if k in on or k in vals:
                l = "#define " + k + re.sub(r"[@$]\{?(\w+)[}@]", lambda q: vals.get(q.group(1), ""), rest)
            else:
                l = "/* #undef %s */" % k
        else:
            l = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda q: vals.get(q.group(1) or q.group(2), ""), l)
        lines.append(l)
    d = os.path.join(BUILD, "cfg_" + ("t" if threads else "s"))
    p = os.path.join(d, "spatialops", "SpatialOpsConfigure.h")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    txt = "\n".join(lines) + "\n"
    if not os.path.exists(p) or open(p).read() != txt:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(txt); os.replace(tmp, p)
    return d

def compile_obj(src, variant, extra=""):
    cxx, flags, thr = VARIANTS[variant]
    rh, hh = repo_hash()
    if not src.startswith(REPO): rh += hh
    key = hashlib.sha256((rh + src + tree_hash([src]) + cxx + flags + extra + str(thr)).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cpp", "") + "-" + variant + "-" + key + ".o")
    if os.path.exists(obj):
        os.utime(obj); return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cfg = make_config(thr)
    tmp = obj + ".%d.%d" % (os.getpid(), threading.get_ident())
    cmd = [cxx, "-std=gnu++17", "-w", "-I" + REPO, "-I" + cfg, "-I" + os.path.join(HERE, "harness")] + flags.split() + extra.split() + ["-c", src, "-o", tmp]
    r = sh(cmd)
    if r.returncode != 0:
        raise Fatal("compiling %s (%s) failed:\n%s" % (src, variant, r.stdout[:3500]))
    os.replace(tmp, obj)
    return obj

def lib_sources(threads, stencils=False):
    l = [p for p in repo_files() if p.endswith(".cpp")]
    if not threads:
        l = [p for p in l if os.path.basename(p) not in ("ThreadPool.cpp",)]
    if not stencils:   # minutes of template code that only the operator monitors link
        l = [p for p in l if "/stencil/" not in p]
    return l

def build_all(jobs, pool):
    """compile everything the jobs need; returns exe per job index"""
    futs, cfgs = {}, set()
    for j in jobs:
        thr = VARIANTS[j["variant"]][2]
        make_config(thr)
        for s in lib_sources(thr, j.get("stencils")):
            k = (s, j["variant"], "")
            futs.setdefault(k, None)
        for s in j["srcs"]:
            futs.setdefault((s, j["variant"], j.get("flags", "")), None)
    # biggest (harness) sources first
    for k in sorted(futs, key=lambda k: k[0].startswith(REPO)):
        futs[k] = pool.submit(compile_obj, *k)
    objs = {k: f.result() for k, f in futs.items()}
    exes = {}
    def link(j):
        v = j["variant"]; cxx, flags, thr = VARIANTS[v]
        os_ = [objs[(s, v, j.get("flags", ""))] for s in j["srcs"]]
        lib = [objs[(s, v, "")] for s in lib_sources(thr, j.get("stencils"))]
        if j.get("nolib"): lib = []
        key = hashlib.sha256((" ".join(os_ + lib) + str(j.get("perturb"))).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "bin", j["name"] + "-" + v + "-" + key)
        if os.path.exists(exe):
            os.utime(exe); return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = sh([cxx] + flags.split() + os_ + lib + ["-o", tmp] + (["-lboost_thread", "-lboost_system"] if thr else []) + ["-lpthread"] + (["-Wl,--wrap=" + w for w in WRAPS] if j.get("perturb") else []))
        if r.returncode != 0:
            raise Fatal("linking %s (%s) failed:\n%s" % (j["name"], v, r.stdout[-4000:]))
        os.replace(tmp, exe); return exe
    lf = [pool.submit(link, j) for j in jobs]
    return [f.result() for f in lf]

def prune(limit_mb=3000):
    fs = []
    for d in ("obj", "bin", "gen"):
        p = os.path.join(BUILD, d)
        if os.path.isdir(p):
            for f in os.listdir(p):
                q = os.path.join(p, f)
                if os.path.isfile(q):
                    s = os.stat(q); fs.append((s.st_mtime, s.st_size, q))
    tot = sum(x[1] for x in fs)
    for m, s, q in sorted(fs):
        if tot < limit_mb * 1e6: break
        if time.time() - m < 1200: break
        try: os.unlink(q)
        except OSError: pass
        tot -= s

# ---------------------------------------------------------------- running
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78",
       "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:allocator_may_return_null=1:report_thread_leaks=0"}

def frames(text):
    fr = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        fn, path = m.group(1), m.group(2)
        if path.startswith(REPO + "/") or "/harness/" in path:
            fn = re.sub(r"<.*", "", re.sub(r"\(.*", "", fn)).split(" ")[-1]
            fr.append((fn or "?", os.path.basename(path)))
    return fr

def crash_keys(group, rc, err):
    """turn an abnormal end or a sanitizer report into violation keys"""
    keys = []
    for blk in re.split(r"(?==+\nWARNING: ThreadSanitizer)", err):
        m = re.match(r"=+\nWARNING: ThreadSanitizer: ([^(\n]+)", blk)
        if m:
            fr = [f for f in frames(blk)]
            tops, seen = [], 0
            for part in re.split(r"\n  (?=Write|Read|Previous|Atomic|As if)", blk)[1:3]:
                f = frames(part)
                if f: tops.append(f[0][0] + "@" + f[0][1])
            keys.append(("race:" + "|".join(sorted(set(tops))) if "race" in m.group(1) else "tsan:" + m.group(1).strip().replace(" ", "-") + ":" + "|".join(tops), blk[:3000]))
    if keys:
        return keys
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        f = frames(err)
        return [("%s:asan:%s" % (group, m.group(1)), err[:3000])]
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return [("%s:ubsan:%s" % (group, re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60].strip().replace(" ", "-")), err[:3000])]
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return [("%s:assert:%s" % (group, m.group(1)[:60].replace(" ", "")), err[-1500:])]
    if rc < 0:
        return [("%s:signal:%d" % (group, -rc), err[-1500:])]
    return [("%s:exit:%d" % (group, rc), err[-1500:])]

def run_once(exe, args, timeout, outf):
    for p in (outf, outf + ".mark"):
        if os.path.exists(p): os.unlink(p)
    env = dict(os.environ); env.update(ENV)
    of, ef = outf + ".stdout", outf + ".stderr"
    t0 = time.time()
    with open(of, "wb") as o, open(ef, "wb") as e:
        p = subprocess.Popen([exe] + args + ["--out", outf], stdout=o, stderr=e, env=env, start_new_session=True, cwd=os.path.dirname(outf))
        try:
            rc = p.wait(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            hung = True; rc = None
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    rd = lambda q: open(q, "rb").read()[-400000:].decode("utf-8", "replace")
    mark = ""
    if os.path.exists(outf + ".mark"):
        mark = open(outf + ".mark", "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    res = None
    if os.path.exists(outf):
        try: res = json.load(open(outf))
        except ValueError: res = None
    return {"rc": rc, "hung": hung, "out": rd(of), "err": rd(ef), "mark": mark, "res": res, "wall": time.time() - t0}

def known(prop):
    d = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                d[m.group(2)] = m.group(3)
    return d

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None); ap.add_argument("--replay")
    ap.add_argument("--only", help="run only jobs whose name/variant matches")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.property
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = json.load(open(a.replay)) if a.replay else None
    if rep: seed, tier = rep["seed"], rep["tier"]
    spec = specs.PROPS[prop]
    work = os.path.join(BUILD, "run", prop + "-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    jobs = []
    for j in spec["jobs"](tier, seed, os.path.join(BUILD, "gen")):
        j = dict(j)
        j["srcs"] = [s if s.startswith("/") else os.path.join(HERE, "harness", s) for s in j["srcs"]]
        if a.only and a.only not in j["name"] + "/" + j["variant"]: continue
        if rep and (rep["job"], rep["variant"]) != (j["name"], j["variant"]): continue
        jobs.append(j)
    if not jobs: raise Fatal("no jobs")
    violations = {}   # key -> (detail, replay info)
    inconclusive = []
    totals = {"evals": 0, "sigs": set(), "counters": {}, "samples": [], "runs": 0}
    lock = threading.Lock()
    with ThreadPoolExecutor(NCPU) as pool:
        exes = build_all(jobs, pool)
        tb = time.time() - t0
        sem = threading.Semaphore(NCPU)  # weighted by job "cores"
        def acquire(n):
            with lock_acq:
                for _ in range(n): sem.acquire()
        lock_acq = threading.Lock()
        stop = threading.Event()   # a hang is established: nothing more is learnt by waiting for others
        def one(j, exe, sd, shard, nsh):
            if stop.is_set(): return
            args = ["--seed", str(sd), "--scale", str(j.get("scale", 1)), "--shard", str(shard), "--nshards", str(nsh), "--tier", tier]
            if j.get("extra"): args += ["--extra", j["extra"]]
            if rep:
                args = rep["args"] + ([] if rep.get("whole") else ["--group", rep["group"], "--case", str(rep["case"])])
                args = [x for x in args]
            tmo = j.get("timeout", 150 if tier == "quick" else 600)
            outf = os.path.join(work, "%s-%s-%d-%d.json" % (j["name"], j["variant"], sd, shard))
            cores = min(j.get("cores", 1), NCPU)
            acquire(cores)
            try:
                if stop.is_set(): return
                r = run_once(exe, args, tmo, outf)
                if r["hung"]:
                    r2 = run_once(exe, args, tmo, outf)
                    if not r2["hung"]:
                        with lock: inconclusive.append("%s/%s seed %d shard %d: watchdog fired once at [%s], not reproduced" % (j["name"], j["variant"], sd, shard, r["mark"]))
                        r = r2
            finally:
                for _ in range(cores): sem.release()
            mk = (r["mark"].split("\t") + ["", "", ""])[:3]
            info = {"property": prop, "job": j["name"], "variant": j["variant"], "args": args, "seed": seed, "tier": tier, "whole": bool(j.get("whole"))}
            def add(key, detail, group, case):
                with lock:
                    if key not in violations:
                        violations[key] = (detail, dict(info, group=group, case=case, key=key, detail=detail))
            for l in r["out"].splitlines():
                if l.startswith("VIOL\t"):
                    f = l.split("\t", 4)
                    add(f[1], f[4], f[2], int(f[3]))
            if r["hung"]:
                stop.set()
                add("%s:hang" % (mk[0] or j["name"]), "no progress within %d s, twice, in case [%s]" % (tmo, r["mark"]), mk[0], int(mk[1] or 0))
            elif r["rc"] == 3:
                raise Fatal("harness %s failed: %s" % (j["name"], r["err"][-2000:]))
            elif r["rc"] != 0 or "ThreadSanitizer" in r["err"]:
                if r["rc"] == -9:
                    raise Fatal("harness %s was killed from outside: %s" % (j["name"], r["err"][-500:]))
                for key, det in crash_keys(mk[0] or j["name"], r["rc"], r["err"]):
                    if j.get("benign") and any(re.search(p, key) for p in j["benign"]): continue
                    add(key, ("case [%s]\n" % r["mark"]) + det, mk[0], int(mk[1] or 0))
            elif r["res"] is None:
                raise Fatal("harness %s gave no result: %s" % (j["name"], r["err"][-2000:]))
            if r["res"]:
                with lock:
                    totals["runs"] += 1
                    totals["evals"] += r["res"]["evaluations"]
                    totals["sigs"].update((j["name"], s) if False else hash((j["name"], s)) for s in r["res"]["sigs"])
                    for k, v in r["res"]["counters"].items():
                        totals["counters"][k] = totals["counters"].get(k, 0) + v
                    if len(totals["samples"]) < 60: totals["samples"] += ["[%s/%s] %s" % (j["name"], j["variant"], s) for s in r["res"]["samples"][:4]]
        work_items = []
        vorder = []
        for j in jobs:
            if j["variant"] not in vorder: vorder.append(j["variant"])
        for j, exe in zip(jobs, exes):
            # each build of a harness gets seeds of its own, so that builds explore different cases
            salt = 1000003 * vorder.index(j["variant"])
            seeds = [seed + salt + 1000 * k for k in range(j.get("seeds", 1))]
            if rep: seeds = [int(rep["args"][1])]
            for sd in seeds:
                nsh = 1 if rep else j.get("shards", 1)
                for s in range(nsh):
                    work_items.append((j, exe, sd, s, nsh))
        with ThreadPoolExecutor(16) as rp:
            fs = [rp.submit(one, *w) for w in work_items]
            for f in fs: f.result()
    kn = known(prop)
    bad = 0
    rdir = os.path.join(HERE, "replays")
    for key in sorted(violations):
        detail, info = violations[key]
        if key in kn:
            continue
        bad += 1
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha256((key + info["variant"]).encode()).hexdigest()[:10]))
        json.dump(info, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key: %s" % key); print("  " + detail[:1500].replace("\n", "\n  "))
    for key in sorted(kn):
        if rep: continue
        print("KNOWN-FINDING: property=%s %s%s" % (prop, kn[key], "" if key in violations else " (not reached in this run)"))
    for x in inconclusive: print("INCONCLUSIVE (re-run was clean): " + x)
    wall = time.time() - t0
    mins = spec.get("min", 1)
    if not rep and not a.only:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
              "coverage": {"evaluations": totals["evals"], "distinct_nontrivial": len(totals["sigs"]), "rule": spec["rule"],
                           "samples": totals["samples"][:24] or ["none"], "observed": totals["counters"], "harness_runs": totals["runs"],
                           "jobs": ["%s/%s x%d" % (j["name"], j["variant"], j.get("shards", 1) * j.get("seeds", 1)) for j in jobs],
                           "inconclusive": inconclusive, "build_s": round(tb, 1)},
              "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": bad}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct, %d runs, %d violation(s), %.1f s (build %.1f s)" % (prop, tier, totals["evals"], len(totals["sigs"]), totals["runs"], bad, wall, tb))
    shutil.rmtree(work, ignore_errors=True)
    prune()
    if bad: return 1
    if not rep and totals["evals"] < mins:
        raise Fatal("observed only %d cases, expected at least %d" % (totals["evals"], mins))
    for k, v in spec.get("require", {}).items():
        if not rep and not a.only and totals["counters"].get(k, 0) < v:
            raise Fatal("monitor observed only %d of event %s (need %d)" % (totals["counters"].get(k, 0), k, v))
    return 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fatal as e:
        print("CHECK ERROR: %s" % e); sys.exit(2)
