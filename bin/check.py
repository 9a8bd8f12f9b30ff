#!/usr/bin/env python3
"""Driver of the checks: builds a harness from /repo's working tree, explores it on all cores, replays
every violation before reporting it and writes the evidence file."""
import os, sys, json, subprocess, time, shutil, struct, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "bin"))
from registry import CHECKS

NCPU = os.cpu_count() or 4
ENG = os.path.join(HERE, "engine")

def die(msg):
    print("ERROR: " + msg); sys.exit(2)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(pid, cfg, bdir):
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    base = ["g++", "-std=c++14", "-g1", "-w"] 
    san = cfg.get("san", "address")
    opt = cfg.get("opt", "-O1")
    inc = cfg.get("inc_first", []) + ["-I" + REPO + "/include", "-I" + ENG, "-I" + HERE + "/checks"]
    common = base + [opt] + (["-fsanitize=" + san, "-fno-omit-frame-pointer"] if san else []) + inc + cfg.get("cxxflags", [])
    jobs = []
    for i, tu in enumerate(cfg["tus"]):
        src, defs = tu[0], list(tu[1:])
        obj = os.path.join(bdir, "tu%d.o" % i)
        path = os.path.join(ENG, src[4:]) if src.startswith("eng:") else os.path.join(HERE, "checks", src)
        flags = common + ([] if src.startswith("eng:") else cfg.get("omp", ["-fopenmp"]) + cfg.get("tuflags", []))
        if src.startswith("eng:"): flags = base + ["-O2"] + inc + (["-fsanitize=address"] if san == "address" and src != "eng:omp_shim.cpp" else [])
        jobs.append(flags + defs + ["-c", path, "-o", obj])
    t0 = time.time()
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(sh, jobs))
    for j, r in zip(jobs, res):
        if r.returncode:
            print(r.stdout[-6000:]); die("compilation failed: " + " ".join(j))
    exe = os.path.join(bdir, "harness")
    link = ["g++"] + (["-fsanitize=" + san] if san else []) + cfg.get("ldflags", []) + [os.path.join(bdir, "tu%d.o" % i) for i in range(len(cfg["tus"]))] + ["-o", exe] + cfg.get("libs", ["-llapack", "-lblas"]) + ["-lpthread", "-ldl"]
    r = sh(link)
    if r.returncode:
        print(r.stdout[-6000:]); die("link failed")
    return exe, time.time() - t0

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=1000000000:malloc_fill_byte=255:free_fill_byte=255:max_free_fill_size=65536:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=8:handle_abort=1"
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
ENV["OMP_NUM_THREADS"] = "1"

def read_state(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 32: return None
    seq, start, inc, sec, n = struct.unpack_from("<QQiii", b, 0)
    n = max(0, min(n, 400))
    ch = struct.unpack_from("<400i", b, 28)[:n]
    ar = struct.unpack_from("<400i", b, 28 + 1600)[:n]
    stage = b[28 + 3200:28 + 3400].split(b"\0")[0].decode(errors="replace")
    return dict(seq=seq, start=start, in_case=inc, section=sec, choice=list(ch), arity=list(ar), stage=stage)

def tail(path, n=3500):
    try:
        s = open(path, errors="replace").read()
    except OSError:
        return ""
    i = s.find("ERROR: AddressSanitizer")
    if i >= 0: return s[max(0, i - 200):i + n]
    return s[-n:]

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None; only = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--section": only = args.pop(0)
    cfg = CHECKS[pid]
    fast = bool(os.environ.get("VERIF_FAST"))  # development: stop at the first violation
    if os.environ.get("VERIF_TYPES"):          # development: only some scalar types
        import re; cfg = dict(cfg); cfg["tus"] = [t for t in cfg["tus"] if not any(d.startswith("-DTS=") and not re.fullmatch(os.environ["VERIF_TYPES"], d[5:]) for d in t[1:])]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_all = time.time()
    bdir = os.path.join(HERE, "build", pid + os.environ.get("VERIF_TAG", "") + ("-replay" if replay else ""))
    exe, tbuild = build(pid, cfg, bdir)
    sections = [l for l in cfg.get("sections", [])]
    env = dict(ENV); env.update(cfg.get("env", {}))
    scratch = os.path.join(bdir, "scratch"); os.makedirs(scratch, exist_ok=True)
    if cfg.get("ram_scratch"):  # many small files: a directory in memory when there is one
        import tempfile, atexit
        try: scratch = tempfile.mkdtemp(prefix="mc_%s_" % pid, dir="/dev/shm"); atexit.register(shutil.rmtree, scratch, True)
        except OSError: pass
    if replay:
        rec = json.load(open(replay)); spec = rec["spec"]
        if rec.get("sequence"):
            q = rec["sequence"]; got, what = replay_sequence(exe, tier, q["nworkers"], (q["worker"], q["resume"]), bdir, env, scratch, 3000, q["section"])
            print("\n".join(what)); sys.exit(1 if got else 0)
        r = subprocess.run([exe, "--replay", spec, "--tier", tier], env=env, cwd=scratch)
        sys.exit(1 if r.returncode else 0)
    # known findings of this property
    kf = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {k["signature"]: k for k in kf["findings"] if k["property"] == pid}
    knownf = os.path.join(bdir, "known.txt")
    open(knownf, "w").write("\n".join(known) + "\n")
    budget = cfg.get("budget", {}).get(tier, 420 if tier == "quick" else 2700)
    case_limit = cfg.get("case_limit", 90)
    nw = cfg.get("workers", NCPU)
    W = []
    def start(k, resume=None, gen=0):
        st = os.path.join(bdir, "st%d.%d" % (k, gen)); out = os.path.join(bdir, "out%d.%d.json" % (k, gen)); err = os.path.join(bdir, "err%d.%d" % (k, gen))
        cmd = [exe, "--tier", tier, "--worker", str(k), "--nworkers", str(nw), "--out", out, "--state", st, "--known", knownf, "--budget", str(max(5, budget - (time.time() - t_all)))]
        if resume: cmd += ["--resume", resume]
        if only: cmd += ["--section", only]
        if fast: cmd += ["--fast"]
        p = subprocess.Popen(cmd, stdout=open(err + ".out", "w"), stderr=open(err, "w"), env=env, cwd=scratch)
        return dict(k=k, p=p, st=st, out=out, err=err, gen=gen, resume=resume)
    NOTHING = dict(cases=0, transitions=0, checks=0, skipped=0, states=0, outcomes=0, capped=True, sections={}, samples=[], known=[], failures=[], elapsed=0)
    errors = []
    live = [start(k) for k in range(nw)]
    outs = []; crashes = []
    hard = budget + 240; hung = False
    while live:
        time.sleep(0.15)
        for w in list(live):
            rc = w["p"].poll()
            st = None; hang = stopped = False
            if rc is None:
                st = read_state(w["st"])
                if st and st["in_case"] and time.time() - st["start"] > (case_limit if not hung else 25):
                    w["p"].kill(); w["p"].wait(); hang = True; rc = -9
                    if not hung: hung = True; hard = min(hard, time.time() - t_all + 90)  # enough to know
                elif time.time() - t_all > hard:
                    w["p"].kill(); w["p"].wait(); rc = -9; stopped = True
                else:
                    continue
            live.remove(w)
            if rc in (0, 1) and os.path.exists(w["out"]):
                outs.append(json.load(open(w["out"])))
                for f in outs[-1]["failures"]: f["run"] = (w["k"], w["resume"])
                if fast and outs[-1]["failures"]: hard = 0
                continue
            if rc in (90, 91, 92):
                errors.append("explorer error in worker %d: %s" % (w["k"], tail(w["err"]))); outs.append(dict(NOTHING)); continue
            st = read_state(w["st"])
            if not st: errors.append("worker %d died before any case: %s" % (w["k"], tail(w["err"]))); outs.append(dict(NOTHING)); continue
            if stopped: outs.append(dict(NOTHING)); continue  # stopped by the time limit
            if fast: hard = 0
            crashes.append(dict(st=st, hang=hang, rc=rc, report=tail(w["err"]), run=(w["k"], w["resume"])))
            # continue after the crashing case
            ch, ar = st["choice"], st["arity"]
            i = len(ch) - 1
            while i >= 0 and ch[i] + 1 >= ar[i]: i -= 1
            if w["gen"] < 6 and not hang and not fast and i >= 0 and time.time() - t_all < budget:
                nxt = ch[:i] + [ch[i] + 1]
                live.append(start(w["k"], "%s:%s" % (section_name(exe, st["section"], env), ",".join(map(str, nxt))), w["gen"] + 1))
            else:
                outs.append(dict(NOTHING))
    # gather
    viol = []; kn = {}
    tot = dict(cases=0, transitions=0, checks=0, skipped=0, states=0, outcomes=0); capped = False; samples = []; secs = {}
    for o in outs:
        for k in tot: tot[k] += o[k]
        capped |= o["capped"]; samples += o["samples"][:3]
        for s, (n, t) in o["sections"].items():
            a = secs.setdefault(s, [0, 0.0]); a[0] += n; a[1] += t
        for sig, msg in o["known"]: kn.setdefault(sig, msg)
        for f in o["failures"]:
            if f["sig"] not in [v["sig"] for v in viol]: viol.append(f)
    for c in crashes:
        name = section_name(exe, c["st"]["section"], env)
        kind = "hang" if c["hang"] else "crash"
        sig = "%s/%s/%s" % (kind, name.split("<")[0], c["st"]["stage"])
        spec = "%s:%s" % (name, ",".join(map(str, c["st"]["choice"])))
        if sig in known: kn.setdefault(sig, spec); continue
        if sig not in [v["sig"] for v in viol]:
            viol.append(dict(sig=sig, msg=c["report"], spec=spec, desc=spec, run=c["run"]))
    # replay before reporting
    confirmed = []; unconfirmed = []
    for v in viol[:12]:
        if confirmed and (fast or time.time() - t_all > 600 or v["sig"].startswith("hang/")): continue
        try:
            r = subprocess.run([exe, "--replay", v["spec"], "--tier", tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=scratch, timeout=case_limit)
            bad = r.returncode != 0 or b'"cases":' not in r.stdout
        except subprocess.TimeoutExpired:
            bad = True
        (confirmed if bad else unconfirmed).append(v)
    # a case that passes on its own may fail because of what earlier executions left behind (static data, freed memory):
    # the whole sequence of executions of that worker is then what is replayed
    if unconfirmed and not confirmed:
        for v in sorted(unconfirmed, key=lambda v: v["sig"].startswith("hang/")):
            left = (840 if tier == "quick" else 7200) - (time.time() - t_all)
            if left < 20 or confirmed: break
            got, sigs = replay_sequence(exe, tier, nw, v["run"], bdir, env, scratch, left, only)
            if got: v["sequence"] = dict(worker=v["run"][0], nworkers=nw, resume=v["run"][1], section=only); confirmed.append(v)
        unconfirmed = [v for v in unconfirmed if v not in confirmed]
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    for sig, msg in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, sig, known[sig].get("what", "") if sig in known else ""))
    ok_known = [s for s in known if s not in kn]
    wall = time.time() - t_all
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["cases"], samples=samples[:12],
               executions=tot["cases"], oracle_comparisons=tot["checks"], distinct_outcomes=tot["outcomes"], skipped_by_precondition=tot["skipped"],
               exhaustive=not capped and not crashes, sections={s: n for s, (n, t) in sorted(secs.items())}, bounds=cfg["bounds"][tier] if isinstance(cfg.get("bounds"), dict) else cfg.get("bounds", ""), build_s=round(tbuild, 1),
               binding="every explored trace is an execution of the real htool code compiled from /repo; the model is only the oracle")
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d comparisons, %d outcomes, capped=%s, build %.1fs, total %.1fs" % (pid, tier, tot["cases"], tot["states"], tot["transitions"], tot["checks"], tot["outcomes"], capped, tbuild, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for s, (n, t) in sorted(secs.items()): print("   %-40s %8d cases %8.1fs cpu" % (s, n, t))
    for v in confirmed:
        h = hashlib.sha1((v["sig"] + v["spec"]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (pid, h))
        json.dump(dict(property=pid, signature=v["sig"], spec=v["spec"], case=v["desc"], message=v["msg"], sequence=v.get("sequence"), how="python3 bin/check.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        print("  violated: %s\n    case %s\n    %s" % (v["sig"], v["desc"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(bdir, ignore_errors=True)
    if confirmed: sys.exit(1)
    if errors: die("; ".join(errors))
    if unconfirmed:
        print("ERROR: violations that did not replay: " + ", ".join(v["sig"] + " " + v["spec"] for v in unconfirmed)); sys.exit(2)
    if tot["cases"] == 0: die("nothing explored")
    sys.exit(0)

_names = {}
def replay_sequence(exe, tier, nw, run, bdir, env, scratch, limit, only):
    """reruns one worker from its start until its first violation; true if there is one again"""
    out = os.path.join(bdir, "again.json"); st = os.path.join(bdir, "again.st")
    for f in (out, st):
        if os.path.exists(f): os.remove(f)
    cmd = [exe, "--tier", tier, "--worker", str(run[0]), "--nworkers", str(nw), "--out", out, "--state", st, "--fast", "--budget", str(limit)]
    if os.path.exists(os.path.join(bdir, "known.txt")): cmd += ["--known", os.path.join(bdir, "known.txt")]
    if run[1]: cmd += ["--resume", run[1]]
    if only: cmd += ["--section", only]
    try: r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=scratch, timeout=limit)
    except subprocess.TimeoutExpired: return False, ["no violation within the time limit"]
    if r.returncode in (0, 1) and os.path.exists(out):
        f = json.load(open(out))["failures"]; return bool(f), ["%s: %s -- %s" % (x["sig"], x["desc"], x["msg"]) for x in f]
    if r.returncode in (90, 91, 92): return False, ["explorer error"]
    return True, [r.stderr[-1500:]]

def section_name(exe, idx, env):
    if exe not in _names:
        r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        _names[exe] = r.stdout.split("\n")
    return _names[exe][idx]

main()
