#!/usr/bin/python3
"""Runs one shard of one check (or replays cases) in its own process. Invoked by check.py."""
import hashlib, importlib, json, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "props"))
import core
core.add_venv()
sys.dont_write_bytecode = True

def main():
    job = json.loads(sys.argv[1])
    os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    mod = importlib.import_module(job["module"])
    check = [c for c in mod.CHECKS if c.name == job["check"]][0]
    scratch = job["scratch"]; os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    if job.get("pydir"):
        sys.path.insert(0, job["pydir"])
    env = core.Env(job["bdir"], scratch, job.get("extras", {}))
    env.mode = job["mode"]
    hang = job.get("hang", check.hang)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)

    if job["mode"] == "replay":
        res = {"failed": False}
        signal.alarm(hang)
        try:
            check.run(job["case"], env)
        except BaseException as e:
            res = {"failed": True, "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-3000:]}
        signal.alarm(0)
        json.dump(res, open(job["out"], "w"))
        return

    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase
    stats = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "skipped": 0, "hashes": []}
    seen = set(); deadline = job["deadline"]; best = [None]
    curf = os.open(job["cur"], os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    def record_fail(case, err, trace):
        s = core.dumps(case)
        if best[0] is None or len(s) <= best[0]:
            best[0] = len(s)
            tmp = job["failfile"] + ".tmp"
            with open(tmp, "w") as f:
                json.dump({"case": case, "error": err, "trace": trace}, f)
            os.replace(tmp, job["failfile"])

    def execute(case):
        if not job.get("fork"):
            return check.run(case, env)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(hang)
                try:
                    out = check.run(case, env)
                    msg = json.dumps({"ok": [bool(out[0]), list(out[1])]})
                except BaseException as e:
                    msg = json.dumps({"err": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-2000:]})
                os.write(w, msg.encode()[:60000])
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 65536)
            if not b: break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if st != 0 or not data:
            raise core.Violation("process died, wait status %d" % st)
        m = json.loads(data.decode())
        if "err" in m:
            raise core.Violation(m["err"])
        return m["ok"]

    def body(case):
        if time.time() > deadline:
            stats["skipped"] += 1
            return
        s = core.dumps(case).encode()
        os.ftruncate(curf, 0); os.pwrite(curf, s, 0)
        if not job.get("fork"): signal.alarm(hang)
        try:
            nontrivial, labels = execute(case)
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except Exception as e:
            signal.alarm(0)
            record_fail(case, "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-3000:])
            raise
        signal.alarm(0)
        stats["evaluations"] += 1
        h = hashlib.blake2b(s, digest_size=8).digest()
        if h not in seen:
            seen.add(h)
            if nontrivial:
                stats["nontrivial"] += 1
                stats["hashes"].append(h.hex())
                if len(stats["samples"]) < 3 or (stats["nontrivial"] % 97 == 0 and len(stats["samples"]) < 6):
                    stats["samples"].append(case if len(s) < 3000 and b"NaN" not in s and b"Infinity" not in s else s[:3000].decode() + "...")
        for l in labels:
            stats["labels"][l] = stats["labels"].get(l, 0) + 1

    result = {"stats": stats, "failed": False, "error": None}
    if job["mode"] == "regress":
        for case in job["cases"]:
            try:
                body(case)
            except Exception:
                result["failed"] = True
                break
    else:
        st = check.strategy()
        t = settings(max_examples=job["n"], database=None, deadline=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     phases=[Phase.generate, Phase.shrink], print_blob=False)(
            seed(job["seed"])(given(st)(body)))
        try:
            t()
        except BaseException as e:
            result["failed"] = best[0] is not None
            result["error"] = "%s: %s" % (type(e).__name__, e)
            result["trace"] = traceback.format_exc()[-3000:]
    with open(job["out"] + ".tmp", "w") as f:
        json.dump(result, f)
    os.replace(job["out"] + ".tmp", job["out"])

main()
