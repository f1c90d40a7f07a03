#!/usr/bin/env python3
"""Runner of the runtime monitors.

  check.py Cxx quick|thorough     run the monitors of one property on /repo's working tree
  check.py --replay FILE          re-run the single case (or run) a VIOLATION line points to

exit 0: held on everything observed; 1: a VIOLATION line was printed; 2: the check could not run.
"""
import hashlib, json, mmap, os, re, struct, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIBS = os.path.join(REPO, "libs")
INC = os.path.join(LIBS, "mathlib", "include")
HARN = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "build", "replays")
EVID = os.path.join(HERE, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NT = max(2, min(8, os.cpu_count() or 2))
IDLE = (1 << 64) - 1

COMMON = ["-std=c++17", "-w", "-g1", "-pthread", "-I" + INC, "-I" + HARN]
BUILDS = {
    # name: (compiler, flags, env)
    "opt":  ("g++", ["-O2", "-DNDEBUG"], {"MALLOC_PERTURB_": "165"}),
    # heap and simple stack variables left uninitialised hold a pattern (clang: gcc 13 with this option overwrites the
    # backing array of an initializer_list it has already filled); the msan build finds the rest
    "asan": ("clang++", ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"],
             {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:max_malloc_fill_size=1048576:malloc_fill_byte=165",
              "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}),
    "msan": ("clang++", ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"],
             {"MSAN_OPTIONS": "exitcode=99:halt_on_error=1"}),
    "tsan": ("g++", ["-O1", "-DNDEBUG", "-fsanitize=thread"], {"TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1"}),
    "clangfp": ("clang++", ["-O2", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"],
             {"UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}),
}

ALLDRV = sorted(f[:-4] for f in os.listdir(HARN) if re.fullmatch(r"c\d\d\.cpp", f))

# Catch2 and the stream classes c31 formats with are not instrumented for MemorySanitizer
NOMSAN = ("c31",)

# how many cases a driver runs relative to the default, by what its cases cost
WEIGHT = {"c04": 0.5, "c06": 0.3, "c07": 0.2, "c08": 0.6, "c27": 0.2}

def plan(prop, tier):
    """list of (driver, build, scale, extra args)"""
    q = tier == "quick"
    d = prop.lower()
    if prop == "C29":
        out = []
        for x in ALLDRV:
            s = 0.6 * WEIGHT.get(x, 1.0) if q else 12 * WEIGHT.get(x, 1.0)
            out += [(x, "asan", s, []), (x, "clangfp", s * 2, [])]
            if x not in NOMSAN: out.append((x, "msan", s * 0.7, []))
        return out
    if prop == "C30":
        return [(x, "tsan", (0.02 if q else 0.3) if x != "c30" else (2 if q else 30), ["--threads", "4", "--conc"]) for x in ALLDRV]
    w = WEIGHT.get(d, 1.0)
    if q:
        return [(d, "opt", 16.0 * w, []), (d, "asan", 4.0 * w, [])] + ([(d, "msan", 1.5 * w, [])] if d not in NOMSAN else [])
    return [(d, "opt", 250.0 * w, []), (d, "asan", 40.0 * w, []), (d, "clangfp", 60.0 * w, [])] + ([(d, "msan", 15.0 * w, [])] if d not in NOMSAN else [])

def srchash(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def headers():
    out = []
    for root, _, fs in os.walk(LIBS):
        for f in fs:
            out.append(os.path.join(root, f))
    return out

class CannotRun(Exception):
    pass

def build(driver, bname):
    cxx, flags, _ = BUILDS[bname]
    src = os.path.join(HARN, driver + ".cpp")
    extra = []
    for l in open(src):
        m = re.match(r"// VF_FLAGS: (.*)", l)
        if m:
            extra += m.group(1).replace("@REPO@", REPO).split()
    key = srchash(headers() + [src] + [os.path.join(HARN, f) for f in os.listdir(HARN) if f.endswith(".h")], cxx + " ".join(flags + COMMON + extra))
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s-%s" % (driver, bname, key))
    if os.path.exists(exe):
        return exe
    for f in os.listdir(BUILD):                       # superseded binaries of the same kind
        if f.startswith("%s-%s-" % (driver, bname)):
            try: os.unlink(os.path.join(BUILD, f))
            except OSError: pass
    tmp = exe + ".tmp%d" % os.getpid()
    p = subprocess.run([cxx] + COMMON + flags + [src, "-o", tmp] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise CannotRun("driver %s does not build (%s):\n%s" % (driver, bname, p.stdout[-4000:]))
    os.rename(tmp, exe)
    return exe

def read_status(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    if len(b) < 64 * 16:
        return []
    f = struct.unpack_from("64Q", b, 0)
    i = struct.unpack_from("64Q", b, 512)
    return [(f[t], i[t]) for t in range(64)]

def famnames(exe, env):
    p = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    return [l.split(None, 2)[2] for l in p.stdout.splitlines() if l.startswith("F ")]

def run(exe, driver, bname, scale, extra, seed, hang_s, limit_s, again=False):
    """returns dict(viols=[...], summary=..., crash=..., wall)"""
    env = dict(os.environ); env.update(BUILDS[bname][2])
    tag = "%s-%s-%d-%d" % (driver, bname, os.getpid(), time.monotonic_ns())
    st = os.path.join(BUILD, "st-" + tag); outp = os.path.join(BUILD, "out-" + tag); errp = os.path.join(BUILD, "err-" + tag)
    args = [exe, "--seed", str(seed), "--scale", str(scale), "--status", st, "--out", outp]
    if "--threads" not in extra:
        args += ["--threads", str(NT)]
    args += extra
    t0 = time.time()
    hung = None
    with open(errp, "wb") as ef:
        p = subprocess.Popen(args, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env)
        seen = {}
        while True:
            try:
                p.wait(timeout=1.0); break
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            for t, fi in enumerate(read_status(st)):
                if fi[0] == IDLE:
                    seen.pop(t, None); continue
                if t not in seen or seen[t][0] != fi:
                    seen[t] = (fi, now)
                elif now - seen[t][1] > hang_s:
                    hung = fi
            if hung or now - t0 > limit_s:
                stat = read_status(st)
                p.kill(); p.wait(); break
    wall = time.time() - t0
    stat = read_status(st)
    viols, summ = [], None
    if os.path.exists(outp):
        for l in open(outp, errors="replace"):
            if l.startswith("V "):
                try: viols.append(json.loads(l[2:]))
                except ValueError: pass
            elif l.startswith("S "):
                summ = json.loads(l[2:])
    err = open(errp, errors="replace").read()
    for f in (st, outp, errp):
        try: os.unlink(f)
        except OSError: pass
    res = dict(viols=viols, summary=summ, wall=wall, crash=None, driver=driver, build=bname, args=args)
    # a run that completed but exits with a sanitizer's code leaked memory (LeakSanitizer reports at exit)
    leaked = summ is not None and not hung and p.returncode not in (0, 1) and "LeakSanitizer has encountered a fatal error" not in err
    if hung or summ is None or leaked:
        names = famnames(exe, env)
        cand = []
        for f, i in ([hung] if hung else stat):
            if f != IDLE and f < len(names):
                cand.append("%s:%d" % (names[f], i))
        if hung:
            # a watchdog alone decides nothing: the case must hang again on its own (a concurrent run: as a whole)
            def stuck(cs):
                try:
                    subprocess.run([exe, "--seed", str(seed), "--replay", cs], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=hang_s)
                    return False
                except subprocess.TimeoutExpired:
                    return True
            if "--conc" in extra or not cand:
                if not again: return run(exe, driver, bname, scale, extra, seed, hang_s * 2, limit_s, True)
            elif not stuck(cand[0]):
                if again: raise CannotRun("%s (%s) stood still twice, but %s does not hang on its own" % (driver, bname, cand[0]))
                return run(exe, driver, bname, scale, extra, seed, hang_s * 2, limit_s, True)
            kind = "hang: one case ran for more than %d s" % hang_s
        elif wall > limit_s:
            raise CannotRun("%s (%s) exceeded its time budget of %d s without any case hanging" % (driver, bname, limit_s))
        else:
            kind = "leak" if leaked else "crash rc=%s" % p.returncode
            if p.returncode == -9:
                if not again: return run(exe, driver, bname, scale, extra, seed, hang_s, limit_s, True)
                raise CannotRun("%s (%s) was killed (out of memory?)" % (driver, bname))
            if not cand and not re.search(r"Sanitizer|runtime error|Assertion", err):
                raise CannotRun("%s (%s) failed before running any case: rc=%s\n%s" % (driver, bname, p.returncode, err[-2000:]))
        m = re.search(r"[^\n]*(Sanitizer:|runtime error:|Assertion|ThreadSanitizer)[^\n]*", err)
        res["crash"] = dict(kind=kind, cases=cand, report=(m.group(0).strip() if m else ""), log=err[:6000])
        # find the one case that reproduces it
        for cs in cand:
            if hung or "--conc" in extra: break
            try:
                pp = subprocess.run([exe, "--seed", str(seed), "--replay", cs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=hang_s + 30)
            except subprocess.TimeoutExpired:
                continue
            if pp.returncode not in (0, 1):
                res["crash"]["cases"] = [cs]; break
    return res

def known():
    """known-findings file: 'finding: property=Cxx site=<monitor site, exact> [input~=<regex>] | text'"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) site=\"([^\"]*)\"(?: input~=\"([^\"]*)\")? \| (.*)", l)
            if m:
                out.append(dict(property=m.group(1), site=m.group(2), rx=m.group(3), what=m.group(4).strip(), hit=False))
    return out

def write_replay(prop, d):
    os.makedirs(REPLAYS, exist_ok=True)
    name = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(REPLAYS, "%s-%s.json" % (prop, name))
    json.dump(d, open(p, "w"), indent=1)
    return p

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["--setup"]:
        for t in ("g++", "clang++"):
            print(subprocess.run([t, "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    todo = plan(prop, tier)
    for d, b, _, _ in todo:
        if not os.path.exists(os.path.join(HARN, d + ".cpp")):
            print("no driver for", prop); return 2
    hang = 40 if tier == "quick" else 120
    limit = 780 if tier == "quick" else 6 * 3600
    cannot = []
    try:
        many = len(todo) > 4
        # one job = build + run; the jobs of a many-driver plan overlap
        def job(t):
            d, b, s, x = t
            if many and "--threads" not in x:
                x = x + ["--threads", "1"]
            try:
                return run(build(d, b), d, b, s, x, SEED, hang * (3 if many else 1), limit)
            except CannotRun as e:
                cannot.append(str(e))
                return None
        if many:
            with ThreadPoolExecutor(NT) as ex:
                results = list(ex.map(job, todo))
        else:
            with ThreadPoolExecutor(NT) as ex:
                list(ex.map(lambda t: build(t[0], t[1]), todo))
            results = [job(t) for t in todo]
    except CannotRun as e:
        print("CANNOT-RUN:", e); return 2
    results = [r for r in results if r]
    kn = known()
    nv = 0
    shown = set()
    missing = []
    for r in results:
        d, b = r["driver"], r["build"]
        if r["crash"]:
            c = r["crash"]
            rp = write_replay(prop, dict(property=prop, driver=d, build=b, seed=SEED, kind=c["kind"], cases=c["cases"], report=c["report"], log=c["log"], args=r["args"][1:]))
            print("%s [%s/%s] %s %s" % (c["kind"], d, b, c["report"], " ".join(c["cases"][:3])))
            print("VIOLATION property=%s replay=%s" % (prop, rp)); nv += 1
            continue
        for f in r["summary"]["families"]:
            for mm in f["missing"]:
                if r["args"][r["args"].index("--scale") + 1] and float(r["args"][r["args"].index("--scale") + 1]) >= 0.2:
                    missing.append("%s/%s: %s" % (d, f["name"], mm))
        for v in r["viols"]:
            if v["site"].startswith("C29 ") and prop != "C29":
                continue
            if prop in ("C29", "C30"):
                # behavioural monitors belong to the other properties
                if not v["site"].startswith("C29 ") and not v["site"].startswith("C30 ") and d.upper() != prop:
                    continue
            k = next((k for k in kn if k["property"] == prop and k["site"] == v["site"] and (not k["rx"] or re.search(k["rx"], v["input"]))), None)
            if k:
                if v["input"] or not k["rx"]: k["hit"] = True
                continue
            if (d, v["site"]) in shown and True:
                continue
            if any(k["property"] == prop and k["site"] == v["site"] and k["rx"] for k in kn) and not v["input"]:
                continue          # the unlogged first report of a case that is reported again with its input
            shown.add((d, v["site"]))
            rp = write_replay(prop, dict(property=prop, driver=d, build=b, seed=SEED, cases=["%s:%d" % (v["family"], v["idx"])], site=v["site"], msg=v["msg"], input=v["input"]))
            print("%s [%s/%s %s:%d] %s | %s" % (v["site"], d, b, v["family"], v["idx"], v["msg"], v["input"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, rp)); nv += 1
    for k in kn:
        if k["hit"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if cannot and not nv:
        print("CANNOT-RUN:", "; ".join(cannot)); return 2
    if missing and not nv:
        print("CANNOT-RUN: required input classes were never observed: " + "; ".join(missing[:10])); return 2
    evidence(prop, tier, results, nv, time.time() - t0)
    print("%s %s: %s, %d runs, %.1f s" % (prop, tier, "VIOLATED" if nv else "held", len(results), time.time() - t0))
    return 1 if nv else 0

def evidence(prop, tier, results, nv, wall):
    ev = sum(r["summary"]["evaluations"] for r in results if r["summary"])
    di = sum(max((r["summary"]["distinct_nontrivial"] for r in results if r["summary"] and r["driver"] == d), default=0) for d in set(r["driver"] for r in results))
    ob = sum(r["summary"]["monitor_observations"] for r in results if r["summary"])
    samples, fams, sites = [], {}, {}
    for r in results:
        if not r["summary"]: continue
        for f in r["summary"]["families"]:
            key = r["driver"] + "/" + f["name"]
            g = fams.setdefault(key, dict(evaluations=0, classes={}))
            g["evaluations"] += f["evaluations"]
            for k, v in f["classes"].items(): g["classes"][k] = g["classes"].get(k, 0) + v
            for k, v in f["sites"].items(): sites[k] = sites.get(k, 0) + v
            for s in f["samples"][:1]:
                if len(samples) < 12: samples.append({"family": key, "input": s[:600]})
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"))) if os.path.exists(os.path.join(HERE, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "exploration")
    out = dict(property=prop, tier=tier, seed=SEED, level=level, wall_s=round(wall, 2), violations=nv,
        coverage=dict(evaluations=ev, distinct_nontrivial=di,
            rule="a case (one seeded execution of the real code under the monitors) counts as distinct when the hash of all its generated inputs is new, and as nontrivial unless its driver marked the input degenerate (e.g. null vector); distinct_nontrivial is the largest per-driver count over the builds, summed over drivers",
            samples=samples, monitor_observations=ob,
            runs=[dict(driver=r["driver"], build=r["build"], wall_s=round(r["wall"], 2), evaluations=(r["summary"] or {}).get("evaluations", 0), crash=bool(r["crash"])) for r in results],
            families=fams, monitor_sites=sites if len(sites) < 4000 else len(sites)))
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(out, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))

def replay(path):
    d = json.load(open(path))
    exe = build(d["driver"], d["build"])
    env = dict(os.environ); env.update(BUILDS[d["build"]][2])
    rc = 0
    if not d["cases"] or "--conc" in d.get("args", []):
        a = [x for x in d["args"]]
        for o in ("--status", "--out"):
            if o in a: i = a.index(o); del a[i:i + 2]
        cmds = [[exe] + a]
    else:
        cmds = [[exe, "--seed", str(d["seed"]), "--replay", c] for c in d["cases"]]
    for c in cmds:
        print("+", " ".join(c), flush=True)
        p = subprocess.run(c, env=env)
        if p.returncode: rc = 1
    print("reproduced" if rc else "not reproduced")
    return rc

if __name__ == "__main__":
    try:
        sys.exit(main())
    except CannotRun as e:
        print("CANNOT-RUN:", e); sys.exit(2)
