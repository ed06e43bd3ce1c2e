#!/usr/bin/python3
"""check.py PROPERTY [quick|thorough] [--replay FILE] [--only CHECK] [--scale F]

Decides one property: builds /repo's working tree, runs the property's generated checks in
parallel worker processes, shrinks and replays any failure, writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Other: error of the check."""
import argparse, glob, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "lib")); sys.path.insert(0, os.path.join(VERIF, "props"))
import core, build
core.add_venv()
WORKER = os.path.join(VERIF, "lib", "worker.py")

def worker_env(flavour):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONHASHSEED="0", LC_ALL="C.UTF-8", TZ="UTC")
    if flavour == "asan":
        e["LD_PRELOAD"] = build.asan_preload()
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e

class Job:
    def __init__(self, spec, flavour, errpath):
        self.spec = spec; self.errpath = errpath
        self.err = open(errpath, "wb")
        self.p = subprocess.Popen([build.PY, WORKER, json.dumps(spec)], stdout=self.err, stderr=subprocess.STDOUT,
                                  env=worker_env(flavour), start_new_session=True, cwd="/")
        self.failed_at = None
    def poll(self): return self.p.poll()
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait()
    def errtext(self):
        try:
            return open(self.errpath, "rb").read()[-4000:].decode("utf-8", "replace")
        except OSError:
            return ""

def load(path):
    try:
        with open(path) as f: return json.load(f)
    except (OSError, ValueError):
        return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    mod = importlib.import_module(a.property.lower())
    checks = [c for c in mod.CHECKS if not a.only or c.name == a.only]
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 5400))
    run = tempfile.mkdtemp(prefix="verif-%s-" % a.property, dir="/tmp")
    try:
        return run_all(a, mod, checks, seed, tier, t0, budget, run)
    except build.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    finally:
        shutil.rmtree(run, ignore_errors=True)

def run_all(a, mod, checks, seed, tier, t0, budget, run):
    bdirs = {f: build.build_flame(f) for f in sorted({c.flavour for c in checks})}
    extras = mod.prepare(bdirs) if hasattr(mod, "prepare") else {}
    t1 = time.time()
    if a.replay:
        rec = load(a.replay)
        c = [c for c in mod.CHECKS if c.name == rec["check"]][0]
        n, err = replay(mod, c, rec["case"], bdirs, extras, run, 1)
        print("replay: %s" % (err if n else "passes"))
        if n: print("VIOLATION property=%s replay=%s" % (a.property, os.path.abspath(a.replay)))
        return 1 if n else 0

    queue = []
    for ci, c in enumerate(checks):
        regs = []
        for f in sorted(glob.glob(os.path.join(VERIF, "regress", a.property, "*.json"))):
            r = load(f)
            if r["check"] == c.name: regs.append(r["case"])
        if regs:
            queue.append((c, {"mode": "regress", "cases": regs, "n": len(regs)}, "r"))
        total = max(1, int((c.quick if tier == "quick" else c.thorough) * a.scale))
        nsh = max(1, min(c.shards, total // 10 or 1))
        if tier == "thorough":
            nsh = max(nsh, min(24, total // 400))
        for s in range(nsh):
            n = total // nsh + (1 if s < total % nsh else 0)
            queue.append((c, {"mode": "generate", "n": n, "seed": seed * 100003 + ci * 1009 + s}, str(s)))
    # interleave checks so that every check starts early
    queue.sort(key=lambda q: (q[2] != "r", int(q[2]) if q[2] != "r" else -1))
    deadline = t1 + budget
    jobs, done, failures = [], [], []
    qi = 0
    ncpu = int(os.environ.get("VERIF_JOBS", "8"))
    stop_at = None
    while True:
        while qi < len(queue) and len(jobs) < ncpu and not failures:
            c, spec, tag = queue[qi]; qi += 1
            base = os.path.join(run, "%s-%s" % (c.name, tag))
            spec = dict(spec, module=mod.__name__, check=c.name, scratch=base + ".d", bdir=bdirs[c.flavour],
                        pydir=build.pydir(bdirs[c.flavour]), extras=extras, deadline=deadline,
                        cur=base + ".cur", failfile=base + ".fail", out=base + ".out")
            j = Job(spec, c.flavour, base + ".err"); j.c = c; j.base = base
            jobs.append(j)
        time.sleep(0.05)
        now = time.time()
        for j in list(jobs):
            rc = j.poll()
            failed = os.path.exists(j.spec["failfile"])
            if failed and j.failed_at is None:
                j.failed_at = now
                if stop_at is None: stop_at = now + (75 if tier == "quick" else 240)
            if rc is None and stop_at is not None and (now > stop_at or j.failed_at is None):
                j.kill(); rc = "stopped"
            if rc is None and now > deadline + 120:
                j.kill(); rc = "budget"
            if rc is not None:
                jobs.remove(j); done.append(j)
                shutil.rmtree(j.spec["scratch"], ignore_errors=True)
                j.result = load(j.spec["out"])
                if failed:
                    failures.append((j, load(j.spec["failfile"])))
                elif rc in ("stopped", "budget"):
                    j.note = rc
                elif j.result is None:
                    case = None
                    try: case = json.loads(open(j.spec["cur"]).read())
                    except (OSError, ValueError): pass
                    if case is None:
                        print("ERROR: worker %s died before running a case (rc=%s)\n%s" % (j.base, rc, j.errtext()))
                        for k in jobs: k.kill()
                        return 2
                    kind = "hang" if rc == -signal.SIGALRM else "process died (rc=%s)" % rc
                    rec = {"case": case, "error": kind, "trace": j.errtext()}
                    if kind != "hang" and not j.spec.get("fork") and j.spec["mode"] == "generate":
                        rec = shrink_crash(j, rec)
                    failures.append((j, rec))
                    if stop_at is None: stop_at = now
                elif j.result.get("error") and not j.result["failed"]:
                    print("ERROR: harness error in %s: %s\n%s" % (j.base, j.result["error"], j.result.get("trace")))
                    for k in jobs: k.kill()
                    return 2
        if not jobs and (qi >= len(queue) or failures):
            break
        if now > deadline and qi < len(queue) and not failures:
            qi = len(queue)     # out of budget: do not start more shards

    confirmed = None; unconfirmed = []
    failures.sort(key=lambda f: len(core.dumps(f[1]["case"])))
    for j, rec in failures[:4]:
        n, err = replay(mod, j.c, rec["case"], bdirs, extras, run, 3)
        if n >= 2:
            confirmed = (j, rec, err); break
        unconfirmed.append({"check": j.c.name, "error": rec["error"], "reproduced": n})
    write_evidence(a, mod, checks, seed, tier, t0, t1, done, confirmed, unconfirmed)
    known = known_findings(a.property)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (a.property, k))
    if confirmed:
        j, rec, err = confirmed
        rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (a.property, j.c.name))
        with open(path, "w") as f:
            json.dump({"property": a.property, "check": j.c.name, "case": rec["case"], "error": err or rec["error"],
                       "trace": rec.get("trace"), "seed": seed, "tier": tier}, f, indent=1)
        print("check %s failed: %s" % (j.c.name, (err or rec["error"])[:1500]))
        print("minimal case: %s" % core.dumps(rec["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    print("%s %s: held on %d generated cases (%.0f s)" % (a.property, tier, sum(j.result["stats"]["evaluations"] for j in done if j.result), time.time() - t0))
    for u in unconfirmed: print("note: not reproduced on replay, not reported: %s" % u)
    return 0

def shrink_crash(j, rec):
    """Re-run the shard with every case in a forked child, so that a crash can be shrunk."""
    spec = dict(j.spec, fork=True, failfile=j.base + ".fail2", out=j.base + ".out2", cur=j.base + ".cur2",
                deadline=time.time() + 150)
    k = Job(spec, j.c.flavour, j.base + ".err2")
    t = time.time() + 160; seen = None
    while k.poll() is None and time.time() < t:
        if seen is None and os.path.exists(spec["failfile"]):
            seen = time.time(); t = min(t, seen + 60)
        time.sleep(0.2)
    k.kill()
    shutil.rmtree(spec["scratch"], ignore_errors=True)
    r = load(spec["failfile"])
    if r is not None and len(core.dumps(r["case"])) <= len(core.dumps(rec["case"])):
        r["trace"] = rec["trace"]
        return r
    return rec

def replay(mod, c, case, bdirs, extras, run, times):
    """Run the case by itself in fresh processes; how many failed, and the message."""
    js = []
    for i in range(times):
        base = os.path.join(run, "replay-%d-%d" % (i, int(time.time() * 1e6)))
        spec = {"mode": "replay", "module": mod.__name__, "check": c.name, "case": case, "scratch": base + ".d",
                "bdir": bdirs[c.flavour], "pydir": build.pydir(bdirs[c.flavour]), "extras": extras, "out": base + ".out"}
        js.append(Job(spec, c.flavour, base + ".err"))
    n = 0; err = None
    for j in js:
        try:
            rc = j.p.wait(timeout=c.hang + 60)
        except subprocess.TimeoutExpired:
            j.kill(); rc = "timeout"
        r = load(j.spec["out"])
        shutil.rmtree(j.spec["scratch"], ignore_errors=True)
        if r is None:
            n += 1; err = err or "process died or hung (rc=%s): %s" % (rc, j.errtext()[-1500:])
        elif r["failed"]:
            n += 1; err = r["error"]
    return n, err

def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out

def write_evidence(a, mod, checks, seed, tier, t0, t1, done, confirmed, unconfirmed):
    if a.no_evidence: return
    per = {}; samples = []; ev = nt = 0
    for j in done:
        r = j.result
        d = per.setdefault(j.c.name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "skipped_for_time": 0, "h": set()})
        if not r: continue
        s = r["stats"]
        d["evaluations"] += s["evaluations"]; d["h"].update(s["hashes"]); d["skipped_for_time"] += s["skipped"]
        for k, v in s["labels"].items(): d["labels"][k] = d["labels"].get(k, 0) + v
        if s["samples"]:
            d.setdefault("samples", []).extend(s["samples"][:2])
    for k, d in per.items():
        for s in d.pop("samples", [])[:3]: samples.append({"check": k, "case": s})
        d["distinct_nontrivial"] = len(d.pop("h"))
        d["labels"] = dict(sorted(d["labels"].items(), key=lambda x: -x[1])[:60])
        ev += d["evaluations"]; nt += d["distinct_nontrivial"]
    e = {"property": a.property, "tier": tier, "seed": seed, "level": "exploration",
         "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": mod.RULE, "samples": samples[:10],
                      "checks": per, "build_s": round(t1 - t0, 1), "unreproduced": unconfirmed},
         "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
         "violations": 1 if confirmed else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(e, f, indent=1, default=str)

if __name__ == "__main__":
    sys.exit(main())
