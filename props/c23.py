import os, pickle, struct, subprocess, gc, shutil
import numpy as np
from hypothesis import strategies as st
import build, gen, gencav, cmp, hist
from core import Check, fail
from gen import fl

RULE = ("interleave: 2-4 scripts, each of 2-7 operations on its own machine and states (build from a dictionary or from lattice text, propagate from a new or kept "
        "state over any range in either direction with observers, reconfigure, change a state attribute, report configurations, drop the machine while its states "
        "live on, rebuild), over lattices that are equal, differ in one element or one data file, or are unrelated; the scripts are interleaved in one process in a "
        "drawn order and every result is compared with the script run alone in a newly forked process; non-trivial = two scripts have a machine at the same time and "
        "propagations alternate between them. threads: 2-4 scripts of library operations (parse, build, propagate, clone, reconfigure, delete), one thread per script "
        "started together under the thread sanitizer, compared with the scripts run one after the other; non-trivial = at least two threads build or reconfigure a machine.")
ASSUMPTIONS = ["each machine and state is used by one thread, as the documentation of Machine asks; data files do not change while machines are built",
               "interleaved and solitary results equal to 1e-12 of each array's largest entry",
               "threads: races are those the thread sanitizer sees in the executed schedule; where the sanitizer cannot start, results only are compared"]
TECHNIQUE = "property-based testing (Hypothesis): interleaved and multi-threaded scripts vs each script alone; thread sanitizer as the oracle for races"

# ---------------------------------------------------------------- generation
@st.composite
def variant(draw, c):
    """the same lattice with something changed"""
    els = [dict(e) for e in c["els"]]; k = draw(st.integers(0, 7)); linear = "sim" in c
    if k == 0: return c
    if k >= 6:                                                  # a property left to its default
        i = draw(st.integers(-1, len(els) - 1)); d = dict(c["g"]) if i < 0 else els[i]
        ks = sorted(x for x in d if x not in ("type", "name", "_files"))
        for x in draw(st.lists(st.sampled_from(ks), min_size=1, max_size=3)) if ks else (): d.pop(x, None)
        return dict(c, g=d) if i < 0 else dict(c, els=els)
    i = draw(st.integers(0, len(els) - 1)); e = els[i]
    cav = [j for j, x in enumerate(els) if x["type"] == "rfcavity"]
    if not linear and k in (1, 2) and cav:
        i = draw(st.sampled_from(cav)); els[i] = dict(draw(gencav.cavity(c["g"])), name=els[i]["name"])
    elif not linear and k == 3:
        g = dict(c["g"]); g["IonEk"] = g["IonEk"] * 1.01
        return dict(c, g=g)
    elif not linear and k == 4 and e["type"] in gen.STATIC:
        els[i] = dict(draw(gen.element(c["g"], (e["type"],), mis=0.5, curves=0.3)), name=e["name"])
    elif k == 5 and len(els) > 1: els = gen.named(els[1:] + els[:1])
    elif "L" in e: e["L"] = e["L"] * 1.5
    return dict(c, els=els)

@st.composite
def filed(draw, c):
    """the lattice with some inline curves moved to files"""
    els = []
    for e in c["els"]:
        if "ncurve" in e and draw(st.booleans()):
            ks = [k for k in e if k[:5] == "curve" and k[5:].isdigit()]
            t = "".join("%s = %s;\n" % (k, gen.valtext(e[k])) for k in ks) + "a: drift, L = 1;\nl: LINE = (a);\nUSE: l;\n"
            e = dict((k, v) for k, v in e.items() if k not in ks); e.update(CurveFile="c.lat", _files={"c.lat": t})
        els.append(e)
    return dict(c, els=els)

@st.composite
def script(draw, n, back=True):
    ops = [{"op": "build", "how": draw(st.sampled_from(["dict", "text"]))}]
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 11)); i = draw(st.integers(0, n - 1))
        if k <= 4: ops.append(dict(draw(hist.prop_op(n, back)), op="prop", new=draw(st.booleans())))
        elif k <= 6: ops.append({"op": "reconf", "i": i, "key": draw(st.sampled_from(["L", "B2", "B", "phi", "scl_fac", "dx", "pitch", "K", "Rm", "ncurve"])), "f": draw(st.sampled_from([1.1, 0.5, -1.0, 2.0]))})
        elif k == 7: ops.append(dict(draw(hist.set_op()), op="set"))
        elif k == 8: ops.append({"op": "conf", "i": i})
        elif k == 9: ops.append({"op": "drop"})
        elif k == 10: ops.append({"op": "build", "how": draw(st.sampled_from(["dict", "text"]))})
        else: ops.append({"op": "print"})
    return ops

@st.composite
def inter_case(draw):
    base = draw(hist.linear_lattice(nmax=4)) if draw(st.integers(0, 5)) == 5 else draw(filed(draw(hist.moment_lattice(cav=0.5, curves=0.4, nmax=4))))
    jobs = []
    for k in range(draw(st.integers(2, 4))):
        c = base if k == 0 else draw(variant(base)) if draw(st.integers(0, 4)) else draw(hist.moment_lattice(cav=0.5, nmax=3))
        jobs.append({"c": c, "ops": draw(script(len(c["els"])))})
    left = [len(j["ops"]) for j in jobs]; order = []
    while any(left):
        k = draw(st.sampled_from([i for i, l in enumerate(left) if l])); order.append(k); left[k] -= 1
    return {"jobs": jobs, "order": order, "share": draw(st.booleans())}

# ---------------------------------------------------------------- running scripts
class Player:
    """one script's machine, states and results"""
    def __init__(self, c): self.c, self.M, self.pool, self.out = c, None, [], []
    def step(self, op):
        try: r = self.do(op)
        except Exception as e: r = "%s: %s" % (type(e).__name__, e)
        self.out.append(r)
    def do(self, op):
        import flame
        c = self.c; sim = c.get("sim", "MomentMatrix"); n = len(c["els"]); k = op["op"]
        if k == "build":
            self.M = flame.Machine(gen.conf(c, sim)) if op["how"] == "dict" else flame.Machine(gen.text(c, sim).encode())
            self.pool.append(self.M.allocState()); return cmp.snap(self.pool[-1])
        if k == "drop":
            self.M = None; gc.collect(); return [cmp.snap(S) for S in self.pool]
        if k == "set":
            if not self.pool: return None
            S = self.pool[op["s"] % len(self.pool)].clone(); self.pool.append(hist.tweak(S, op)); return cmp.snap(S)
        if self.M is None: return None
        if k == "prop":
            S = self.M.allocState() if op["new"] or not self.pool else self.pool[op["s"] % len(self.pool)].clone()
            err, obs = hist.propagate(self.M, S, op["start"] % n, op["max"], [o % n for o in op["obs"]])
            self.pool.append(S); return [err, cmp.snap(S)] + [(i, cmp.snap(o)) for i, o in obs]
        if k == "reconf":
            d = dict(self.M.conf(op["i"])); v = d.get(op["key"], 0.3)
            if not isinstance(v, float): return None
            self.M.reconfigure(op["i"], {op["key"]: v * op["f"]}); return None
        if k == "conf":
            return [sorted((a, np.array(b).tolist() if isinstance(b, np.ndarray) else repr(b)) for a, b in dict(self.M.conf(op["i"])).items() if a != "elements"), list(self.M.find(type=c["els"][op["i"]]["type"])), len(self.M)]
        return str(self.M)

def play(work):
    """work: ([cases], [[(script, op)...]])"""
    cs, seq = work
    P = [Player(c) for c in cs]
    for k, op in seq: P[k].step(op)
    return [p.out for p in P]

class Zygote:
    """a process that has imported flame and built nothing; forks one child per request"""
    def __init__(self):
        import flame
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1]); os.close(b[0]); self.serve(os.fdopen(a[0], "rb"), b[1])
        os.close(a[0]); os.close(b[1]); self.w, self.r = os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")
    def serve(self, r, w):
        try:
            while True:
                h = r.read(8)
                if len(h) < 8: os._exit(0)
                work = pickle.loads(r.read(struct.unpack("Q", h)[0]))
                pid = os.fork()
                if pid == 0:
                    try: d = pickle.dumps(play(work))
                    except BaseException as e: d = pickle.dumps("harness: %r" % e)
                    with os.fdopen(w, "wb") as f: f.write(struct.pack("Q", len(d)) + d)
                    os._exit(0)
                _, stt = os.waitpid(pid, 0)
                if stt:
                    d = pickle.dumps("the process ended with status %d" % stt)
                    os.write(w, struct.pack("Q", len(d)) + d)
        finally: os._exit(1)
    def ask(self, work):
        d = pickle.dumps(work); self.w.write(struct.pack("Q", len(d)) + d); self.w.flush()
        h = self.r.read(8)
        return pickle.loads(self.r.read(struct.unpack("Q", h)[0]))

def same(a, b, what):
    if type(a) != type(b): fail("%s: %.300r, alone: %.300r", what, a, b)
    if isinstance(a, dict) and a and isinstance(next(iter(a.values())), np.ndarray): cmp.same_snap(a, b, what, 1e-12)
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b): fail("%s: %d results, alone: %d", what, len(a), len(b))
        for x, y in zip(a, b): same(x, y, what)
    elif a != b: fail("%s: %.300r, alone: %.300r", what, a, b)

def files_of(jobs, env, share):
    """Write the data files; with share, equal file sets are one directory."""
    seen = {}; out = []
    for j in jobs:
        els = []
        for e in j["c"]["els"]:
            key = repr(sorted(e["_files"].items())) if "_files" in e else None
            if share and key in seen and ("Eng_Data_Dir" in e or "CurveFile" in e): e = dict(e, Eng_Data_Dir=seen[key]); e.pop("_files")
            else:
                nodir = "Eng_Data_Dir" not in e and ("cavtype" in e)
                e = gencav.materialize({"els": [e]}, env)["els"][0]
                if nodir: e.pop("Eng_Data_Dir", None)
                elif key: seen[key] = e["Eng_Data_Dir"]
            els.append(e)
        out.append(dict(j["c"], els=els))
    return out

def inter_run(case, env):
    if "zygote" not in env.cache: env.cache["zygote"] = Zygote()
    Z = env.cache["zygote"]; jobs = case["jobs"]
    cs = files_of(jobs, env, case["share"])
    pos = [0] * len(jobs); seq = []
    for k in case["order"]:
        if k < len(jobs) and pos[k] < len(jobs[k]["ops"]): seq.append((k, jobs[k]["ops"][pos[k]])); pos[k] += 1
    got = Z.ask((cs, seq))
    if isinstance(got, str): fail("interleaved scripts: %s", got)
    labels = set(); last = None; alt = 0
    for k in range(len(jobs)):
        want = Z.ask(([cs[k]], [(0, o) for o in jobs[k]["ops"][:pos[k]]]))
        if isinstance(want, str): fail("script %d alone: %s", k, want)
        for i, (a, b) in enumerate(zip(got[k], want[0])):
            same(a, b, "script %d operation %d %r" % (k, i, jobs[k]["ops"][i]))
            if isinstance(a, str) and "Error" in a[:20]: labels.add("error")
    for k, op in seq:
        labels.add(op["op"])
        if op["op"] == "prop":
            alt += last is not None and last != k; last = k
    labels.add("%d machines" % len(jobs))
    return alt > 0, labels

# ---------------------------------------------------------------- threads
@st.composite
def thread_script(draw, nf, nl):
    ops = [["B", "a", draw(st.integers(0, nf - 1))]]
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 11)); s = draw(st.sampled_from("aab"))
        if k <= 2: ops.append(["B", s, draw(st.integers(0, nf - 1))])
        elif k <= 4: ops.append(["P", s, draw(st.integers(0, 3)), draw(st.sampled_from([99, 99, 2]))])
        elif k == 5: ops.append(["Q", s, draw(st.integers(0, 3)), draw(st.sampled_from([99, 1, -1, -99]))])
        elif k <= 8: ops.append(["R", s, draw(st.integers(0, 5)), draw(st.sampled_from(["L", "B2", "B", "phi", "scl_fac", "dx", "K"])), draw(st.sampled_from([0.1, 0.3, -0.2]))])
        elif k == 9: ops.append(["D", s])
        elif k == 10: ops.append(["X", ".", draw(st.integers(0, nf - 1))])
        else: ops.append(["Y", ".", draw(st.integers(0, nf - 1)), draw(st.sampled_from([1.5, -2.0]))])
    return ops

@st.composite
def thread_case(draw):
    lats = [draw(filed(draw(hist.moment_lattice(cav=0.6, curves=0.5, nmax=3, broken=0.05))))]
    for _ in range(draw(st.integers(0, 2))): lats.append(draw(variant(lats[0])) if draw(st.integers(0, 3)) else draw(hist.linear_lattice(nmax=3)))
    return {"jobs": [{"c": c} for c in lats], "share": draw(st.booleans()), "inc": draw(st.booleans()), "seed": draw(st.integers(1, 999)),
            "scripts": [draw(thread_script(len(lats), 0)) for _ in range(draw(st.integers(2, 4)))]}

def thread_run(case, env):
    exe = env.extras["thread_ops"]
    cs = files_of(case["jobs"], env, case["share"])
    env.n += 1; d = env.tmp("thr%d" % env.n); os.makedirs(d, exist_ok=True)
    rounds = 24 if env.mode == "replay" else 12 if env.cache.get("race") else 4
    for k in range(rounds):
        for i, c in enumerate(cs):
            els = []
            for e in c["els"]:
                if "Eng_Data_Dir" in e:                   # the same data under a name of this round
                    ln = os.path.join(d, "d%d_%s" % (k, os.path.basename(e["Eng_Data_Dir"])))
                    if not os.path.islink(ln): os.symlink(e["Eng_Data_Dir"], ln)
                    e = dict(e, Eng_Data_Dir=ln)
                els.append(e)
            t = gen.text(dict(c, els=els), c.get("sim", "MomentMatrix"))
            if case["inc"]: t = "q%d = 1+2*3;\n" % i + t
            open(os.path.join(d, "l%d.%d.lat" % (i, k)), "w").write(t)
    job = os.path.join(d, "job"); out = []
    for s in case["scripts"]:
        out.append("T")
        for o in s:
            o = list(o)
            if o[0] in "BXY": o[2] = os.path.join(d, "l%d.@.lat" % (o[2] % len(cs)))
            out.append("\t".join(str(x) for x in o))
    open(job, "w").write("\n".join(out) + "\n")
    # a schedule is not repeatable: once a race was seen, every candidate gets more rounds
    for k in range(3 if env.mode == "replay" else 1):
        try:
            r = subprocess.run([exe, job, str(rounds), str(case["seed"] + k)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60,
                               env=dict(os.environ, TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_signal_unsafe=0"))
        except subprocess.TimeoutExpired:
            env.cache["race"] = True; fail("threads: no end after 60 s")
        if r.returncode:
            env.cache["race"] = True; fail("threads: exit status %d\n%s\n%s", r.returncode, r.stdout[-1500:], r.stderr[:3500])
    shutil.rmtree(d, ignore_errors=True)
    n, err = [int(x) for x in r.stdout.split()[1:3]]
    busy = sum(any(o[0] in "BR" for o in s) for s in case["scripts"])
    return busy >= 2, {"%d threads" % len(case["scripts"])} | {o[0] for s in case["scripts"] for o in s} | ({"error"} if err else set())

def prepare(bdirs):
    try:
        b = build.build_flame("tsan"); exe = build.build_harness("thread_ops", b, "tsan", libs=["-lpthread"])
        ok = subprocess.run([exe, "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.PIPE).returncode == 0
    except build.BuildError: raise
    if not ok: exe = build.build_harness("thread_ops", bdirs["rel"], "rel", libs=["-lpthread"])
    return {"thread_ops": exe}

CHECKS = [Check("interleave", inter_case, inter_run, 2000, 40000), Check("threads", thread_case, thread_run, 700, 16000)]
