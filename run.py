#!/usr/bin/env python3
"""Driver: builds /repo's current sources in instrumented variants, runs the monitored
workloads of one property, judges, writes evidence/<id>.json.

  run.py C01            VERIF_TIER (quick|thorough) and VERIF_SEED from the environment
  run.py --replay FILE  re-runs the case recorded in a replay file
Exit 0: held on everything explored; 1 + VIOLATION line: broken; 2: trouble of the check itself.
"""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_OUT", HERE)
H = os.path.join(HERE, "harness")
sys.path.insert(0, H)
import jobs as J

NCPU = min(8, os.cpu_count() or 8)
BASE_DEFS = ["-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-D_PLATFORM=linux", "-D_PLATFORM_ABI=x64"]
UB = "-fsanitize=undefined -fno-sanitize=shift,signed-integer-overflow,alignment,float-cast-overflow,vptr".split()
VARIANTS = {
    # name: (compiler, library+harness flags)
    "asan":  ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"] + UB + ["-fno-sanitize-recover=all"]),
    "asandbg": ("gcc", ["-O0", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_DEBUG"] + UB + ["-fno-sanitize-recover=all"]),
    "memchk": ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-D_DEBUG", "-D_LCU_MEM_CHECK_FEATURE_ENABLE=1", "-fsanitize=address"] + UB + ["-fno-sanitize-recover=all"]),
    "tsan":  ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]),
    "plain": ("gcc", ["-O2", "-g"]),
    "dbg":   ("gcc", ["-O0", "-g", "-D_DEBUG"]),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1:exitcode=98:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=0:malloc_context_size=12:quarantine_size_mb=64:max_malloc_fill_size=262144",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
    "LSAN_OPTIONS": "exitcode=98:max_leaks=40",
    "TZ": "UTC", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "MALLOC_ARENA_MAX": "2", "MALLOC_PERTURB_": "165",
})

class Trouble(Exception):
    pass

def lib_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return out

def gen_config(tmp):
    gen = os.path.join(tmp, "generate", "config"); os.makedirs(gen, exist_ok=True)
    cfg = os.path.join(REPO, "inc", "config")
    for f in os.listdir(cfg):
        if f.endswith(".h.in"):
            t = open(os.path.join(cfg, f)).read()
            t = re.sub(r"^\s*#\s*cmakedefine(01)?\s+(\w+).*$", r"/* #undef \2 */", t, flags=re.M)
            t = re.sub(r"@(\w+)@", lambda m: "0" if "WIN" in m.group(1) or "MODE" in m.group(1) else "vp", t)
            open(os.path.join(gen, f[:-3]), "w").write(t)
    return os.path.join(tmp, "generate")

def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise Trouble("%s failed: %s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))

class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.inc = ["-I", os.path.join(REPO, "inc"), "-I", gen_config(tmp), "-I", H]
        self.libs = {}

    def lib(self, variant, defs=()):
        key = (variant, tuple(defs))
        if key in self.libs: return self.libs[key]
        cc, fl = VARIANTS[variant]
        d = os.path.join(self.tmp, "lib-%s-%d" % (variant, len(self.libs))); os.makedirs(d)
        objs, cmds = [], []
        for s in lib_sources():
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            objs.append(o)
            cmds.append([cc, "-std=gnu11", "-w", "-fPIC"] + BASE_DEFS + fl + list(defs) + self.inc + ["-c", s, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda c: run(c, "library build"), cmds))
        self.libs[key] = objs
        return objs

    def exe(self, job):
        cc, fl = VARIANTS[job["variant"]]
        objs = self.lib(job["variant"], job.get("defs", ()))
        name = "%s-%s-%s" % (job["src"][:-2], job["variant"], abs(hash((tuple(job.get("defs", ())), tuple(job.get("wrap", ())), tuple(job.get("hdefs", ()))))))
        out = os.path.join(self.tmp, name)
        if os.path.exists(out): return out
        hs = [os.path.join(H, job["src"]), os.path.join(H, "vp.c")] + [os.path.join(H, x) for x in job.get("extra", ())]
        link = []
        for w in job.get("wrap", ()):
            f, syms = J.WRAPS[w]
            if f: hs.append(os.path.join(H, f))
            link += ["-Wl," + ",".join("--wrap=" + s for s in syms)] if syms else []
        # a case-specific libc substitute is compiled with the harness, never with the library
        hobjs, cmds = [], []
        for i, s in enumerate(hs):
            o = out + ".%d.o" % i; hobjs.append(o)
            cmds.append([cc, "-std=gnu11" if s.endswith(".c") else "-fno-sized-deallocation", "-Wall", "-Wno-unused-function", "-Wno-format-truncation"] + BASE_DEFS + fl + list(job.get("hdefs", ())) + self.inc + ["-c", s, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda c: run(c, "harness build"), cmds))
        run([cc] + fl + hobjs + objs + link + ["-o", out, "-lpthread", "-lm", "-ldl"] + (["-lstdc++"] if job.get("extra") else []), "link")
        return out

def classify(err, rc):
    """Turns a dead process's stderr into a stable key."""
    def frame():
        for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?(\S+)[^\n]*?/(src|inc)/([\w/\.]+):\d+", err):
            if "/harness/" not in m.group(0): return m.group(1)
        m = re.search(r"/(?:src|inc)/([\w/\.]+):\d+", err)
        return m.group(1) if m else "?"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m: return "asan:%s:%s" % (m.group(1), frame())
    if "LeakSanitizer: detected memory leaks" in err or re.search(r"SUMMARY: \w+Sanitizer: \d+ byte\(s\) leaked", err): return "leak:%s" % frame()
    m = re.search(r"runtime error: ([^\n]+)", err)
    if m: return "ubsan:%s:%s" % (re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:60], frame())
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m: return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), frame())
    if "FATAL: ThreadSanitizer" in err or "FATAL: AddressSanitizer" in err: return None
    if rc < 0: return "signal:%d" % -rc
    return None

class Shard:
    pass

def run_shard(exe, job, seed, tier, lo, hi, outp, tmp, extra_env=None):
    env = dict(ENV); env["VP_TMP"] = tmp; env["VP_HARNESS"] = H
    if extra_env: env.update(extra_env)
    if "env" in job:
        for k, v in job["env"].items():
            env[k] = env.get(k, "") + v if k.endswith("_OPTIONS") else v
        if "TSAN_OPTIONS" in job["env"]: env["TSAN_OPTIONS"] = env["TSAN_OPTIONS"].replace("@H@", H)
    cmd = [exe, "--mode", job["mode"], "--seed", str(seed * 16 + sorted(VARIANTS).index(job["variant"])), "--from", str(lo), "--to", str(hi), "--out", outp]
    if tier == "thorough": cmd.append("--thorough")
    limit = job.get("limit", 800 if tier == "quick" else 7200)
    errp = outp + ".err"
    with open(errp, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL if not job.get("keepout") else ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=tmp, start_new_session=True)
        timed = False
        try: rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            timed = True
            os.killpg(p.pid, signal.SIGKILL); rc = p.wait()
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
    err = open(errp, "rb").read()
    if len(err) > 120000: err = err[:40000] + b"\n...\n" + err[-60000:]     # a report of many leaks says so in its first line
    err = err.decode("utf-8", "replace")
    s = Shard(); s.job, s.lo, s.hi, s.rc, s.err, s.timed = job, lo, hi, rc, err, timed
    s.key = s.msg = None; s.stats = None; s.case = lo; s.trace = ""; s.running = False
    try:
        b = open(outp + ".state", "rb").read()
        magic, cur, running, pos = struct.unpack("<4Q", b[:32])
        s.case = cur; s.running = bool(running)
        fk = b[32:288].split(b"\0")[0].decode("utf-8", "replace"); fm = b[288:288 + 4096].split(b"\0")[0].decode("utf-8", "replace")
        tr = b[288 + 4096:]
        cap = len(tr)
        raw = tr[:pos] if pos <= cap else tr[pos % cap:] + tr[:pos % cap]
        s.trace = raw.decode("utf-8", "replace")
    except Exception:
        fk = fm = ""
    if rc == 0:
        s.stats = json.load(open(outp + ".json"))
        for k in ("cases", "seen"):
            d = open(outp + "." + k, "rb").read()
            s.stats[k + "_set"] = struct.unpack("<%dQ" % (len(d) // 8), d)
    elif rc == 97: s.key, s.msg = fk, fm
    elif rc == 96: s.key = None
    else:
        s.key = classify(err, rc); s.msg = err[:6000]
    for ext in ("", ".state", ".json", ".cases", ".seen", ".err"):
        try: os.unlink(outp + ext)
        except OSError: pass
    return s

def load_known():
    known, fixed = {}, []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m: known[(m.group(1), m.group(2))] = m.group(3)
    return known

def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = None; scale = 1.0
    for a in args[1:]:
        if a.startswith("--only="): only = a[7:]
        if a.startswith("--scale="): scale = float(a[8:])
        if a in ("quick", "thorough"): tier = a
    t0 = time.time()
    spec = J.PROPS[pid]
    known = load_known()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        return check(pid, tier, seed, spec, known, tmp, t0, only, scale)
    except Trouble as e:
        print("TROUBLE: %s" % e); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(pid, tier, seed, spec, known, tmp, t0, only, scale):
    b = Builder(tmp)
    jobs = [dict(j) for j in spec["jobs"] if not only or only in (j["mode"], j["variant"], j["mode"] + ":" + j["variant"])]
    for j in jobs: j["exe"] = b.exe(j)
    t_build = time.time() - t0
    work = []
    n = 0
    for j in jobs:
        total = max(1, int(j["n"][0 if tier == "quick" else 1] * scale))
        par = j.get("par", NCPU)
        step = max(1, -(-total // (par * j.get("chunks", 1 if tier == "quick" else 4))))
        lo = 0
        while lo < total:
            hi = min(total, lo + step)
            n += 1
            work.append((j, lo, hi, os.path.join(tmp, "o%d" % n)))
            lo = hi
    # heavier (multi-threaded) jobs take several slots
    import threading
    slots = threading.Semaphore(NCPU); take = threading.Lock()
    bad = []; stop = threading.Event()
    results = []
    def do(w):
        j, lo, hi, outp = w
        k = min(NCPU, j.get("slots", 1))
        with take:
            for _ in range(k): slots.acquire()
        try:
            if stop.is_set(): return None
            ts = time.time()
            s = run_shard(j["exe"], j, seed, tier, lo, hi, outp, tmp)
            if s.rc != 0 and (s.timed or s.key in ("hang", None) or (s.key or "").endswith("!slow")):
                # inconclusive: once more, a repeated stall is a hang
                s2 = run_shard(j["exe"], j, seed, tier, lo, hi, outp + "r", tmp)
                if s2.rc != 0 and s2.key is None and s2.timed: s2.key, s2.msg = "hang", "did not finish, twice"
                s = s2
            s.wall = time.time() - ts
            if s.rc != 0 and s.key and (pid, s.key) not in known: stop.set()
            return s
        finally:
            for _ in range(k): slots.release()
    with ThreadPoolExecutor(NCPU * 2) as ex:
        results = [r for r in ex.map(do, work) if r is not None]
    viol, trouble, found = {}, [], {}
    ev = dict(evaluations=0, counters={}, per_workload={}); cases, seen, samples = set(), set(), []
    for s in results:
        name = "%s:%s" % (s.job["mode"], s.job["variant"])
        if s.stats:
            ev["evaluations"] += s.stats["cases"]
            w = ev["per_workload"].setdefault(name, dict(cases=0, nontrivial=0, wall_s=0))
            w["cases"] += s.stats["cases"]; w["nontrivial"] += s.stats["nontrivial"]; w["wall_s"] = round(w["wall_s"] + s.wall, 2)
            for k, v in s.stats["counters"].items(): ev["counters"][k] = ev["counters"].get(k, 0) + v
            cases.update((s.job["mode"], h) for h in s.stats["cases_set"]); seen.update(s.stats["seen_set"])
            for x in s.stats["samples"]:
                if len(samples) < 12 and sum(1 for y in samples if y.startswith(name)) < 2: samples.append(name + ": " + x)
        elif s.key:
            if (pid, s.key) in known: found[s.key] = s
            else: viol.setdefault(s.key, s)
            ev["evaluations"] += s.case - s.lo + 1
        else:
            trouble.append(s)
    for s in results:   # findings reported without stopping the workload
        if s.stats:
            for k in s.stats["counters"]:
                if k.startswith("finding:"):
                    key = k[8:]
                    if (pid, key) in known: found.setdefault(key, s)
                    else:
                        s.key = key; s.msg = "workload finding " + key
                        viol.setdefault(key, s)
    # a run that observed too little decides nothing
    short = []
    if not viol and not trouble and not only:
        for k, least in spec.get("require", {}).items():
            if ev["counters"].get(k, 0) < least * min(1.0, scale):
                text = "observed too little: %s = %d < %d" % (k, ev["counters"].get(k, 0), least)
                # what only happens when the library makes the very calls that faults are injected into says nothing about a library that uses others
                if k in J.HOOKED and not os.environ.get("VP_STRICT"): short.append(text); print("NOTE: " + text)
                else: trouble.append(text)
    rdir = os.path.join(OUT, "replays"); 
    for key in sorted(found): print("KNOWN-FINDING: property=%s %s (%s)" % (pid, key, known[(pid, key)]))
    for key, s in list(viol.items())[:6]:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^\w.-]+", "_", key)[:80]))
        json.dump(dict(property=pid, key=key, mode=s.job["mode"], variant=s.job["variant"], src=s.job["src"], seed=seed, tier=tier,
                       case=s.case, shard=[s.lo, s.hi], message=s.msg, trace=s.trace[-12000:], stderr=s.err[-8000:]), open(rp, "w"), indent=1)
        print("%s %s [%s/%s case %d]: %s" % (pid, key, s.job["mode"], s.job["variant"], s.case, (s.msg or "")[:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "exploration"),
        coverage=dict(evaluations=ev["evaluations"], distinct_nontrivial=len(cases), rule=spec["rule"], samples=samples or ["(none)"],
                      distinct_observed_states=len(seen), observed=ev["counters"], fell_short=short, workloads=ev["per_workload"], build_s=round(t_build, 2)),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol),
        known_findings=sorted(found)), open(os.path.join(OUT, "evidence", pid + ".json"), "w"), indent=1)
    if viol: return 1
    if trouble:
        for s in trouble[:4]:
            if isinstance(s, str): print("TROUBLE: " + s)
            else: print("TROUBLE: %s/%s rc=%d timed=%s case %d\n%s" % (s.job["mode"], s.job["variant"], s.rc, s.timed, s.case, s.err[-3000:]))
        return 2
    print("%s %s seed=%d: held on %d cases (%d distinct non-trivial, %d distinct observed states) in %.1f s (build %.1f s)" % (
        pid, tier, seed, ev["evaluations"], len(cases), len(seen), time.time() - t0, t_build))
    if "-v" in sys.argv:
        for k, v in sorted(ev["counters"].items()): print("   %-40s %d" % (k, v))
        for k, v in ev["per_workload"].items(): print("   workload", k, v)
    return 0

def replay(path):
    r = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        b = Builder(tmp)
        job = [j for j in J.PROPS[r["property"]]["jobs"] if j["mode"] == r["mode"] and j["variant"] == r["variant"] and j["src"] == r["src"]][0]
        exe = b.exe(job)
        for lo, hi in ((r["case"], r["case"] + 1), tuple(r["shard"])):
            s = run_shard(exe, job, r["seed"], r["tier"], lo, hi, os.path.join(tmp, "o"), tmp)
            print("case range [%d,%d): rc=%d key=%s" % (lo, hi, s.rc, s.key))
            if s.key:
                print(s.trace[-4000:]); print(s.msg)
                print("VIOLATION property=%s replay=%s" % (r["property"], path)); return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
