import logging, os, re, subprocess, sys
import numpy as np
from hypothesis import strategies as st
import build, gen, gencav, cmp, hist, c23
from core import Check, fail
from gen import fl

RULE = ("log: a script of 2-7 operations (as in C23, plus rejected builds) on a lattice of any simulation type, run once with everything silenced, once with every message "
        "collected, once with drawn log levels (changed between operations) and a drawn python logging set-up (collecting handler, raising handler, raising filter, handler "
        "that builds machines itself, disabled logger); results are equal in all runs, the collected messages are those of the full run at or above the level, machine "
        "construction is announced, and out-of-range cavity warnings appear exactly when the reference particle is outside the limits; non-trivial = a message was expected "
        "in the third run. cli: the command-line tool writes the same output file at every verbosity; non-trivial = at least two elements.")
ASSUMPTIONS = ["messages are text that decodes as UTF-8", "results equal to 1e-12 of each array's largest entry"]
TECHNIQUE = "property-based testing (Hypothesis): metamorphic relation between runs at different log levels, limits modelled from observed states"
LEVELS = [0, 5, 10, 11, 20, 25, 30, 31, 40, 50, 65535]
MODES = ["collect", "collect", "collect", "raise", "filter", "reenter", "disabled"]
SIMS = ["nosuch", "100%s", "%d%%", "a\nb\n", "\u00e9\u4e2d", ""]

@st.composite
def limited(draw, g):
    """a Generic cavity whose limits are near the beam's energy and the cavity's scale"""
    e = draw(gencav.synthetic(g, kind="Generic")); t = e["_files"]["cav.lat"]
    t = re.sub(r"(EnergyLimit|NormLimit|RefNorm) = .*\n", "", t); ek = g["IonEk"] / 1e6
    pre = []
    if draw(st.integers(0, 3)): pre.append("EnergyLimit = [%r, %r];" % (float(ek * draw(st.sampled_from([0.5, 0.999, 1.001, 2.0]))), float(ek * draw(st.sampled_from([0.9, 0.999, 1.001, 2.0, 5.0])))))
    if draw(st.integers(0, 3)):
        r = draw(fl(0.05, 0.5)); ns = e["scl_fac"] * ref_z(g) / r
        pre.append("RefNorm = %r;" % float(r))
        pre.append("NormLimit = [%r, %r];" % (float(ns * draw(st.sampled_from([0.5, 0.999, 1.001, 2.0, -1.0]))), float(ns * draw(st.sampled_from([0.9, 0.999, 1.001, 2.0])))))
        if "SyncFit" not in t: pre.append("SyncFit = [0.1, -0.3, 0.5, 0.01, -0.2];")
    e["_files"] = {"cav.lat": "\n".join(pre) + "\n" + t}
    return e

def ref_z(g): return g.get("IonZ", g["IonChargeStates"][0])

@st.composite
def log_case(draw):
    if draw(st.integers(0, 5)) == 5: c = draw(hist.linear_lattice(nmax=4))
    else:
        c = draw(hist.moment_lattice(cav=0.4, nmax=3)); els = list(c["els"])
        for _ in range(draw(st.integers(0, 2))): els.insert(draw(st.integers(0, len(els))), draw(limited(c["g"])))
        c = dict(c, els=gen.named(els))
    ops = draw(c23.script(len(c["els"])))
    if draw(st.integers(0, 2)) == 0: ops.insert(draw(st.integers(0, len(ops))), {"op": "badbuild", "sim": draw(st.sampled_from(SIMS)), "bad": draw(st.booleans())})
    lv = [draw(st.sampled_from(LEVELS)) for _ in ops]
    if draw(st.integers(0, 2)) == 0: lv = [draw(st.sampled_from(LEVELS))] * len(ops)
    if draw(st.integers(0, 2)) == 0:         # the same once more: the same messages once more
        i = draw(st.integers(0, len(ops) - 1)); k = draw(st.integers(1, 3)); ops[i:i] = [dict(ops[i]) for _ in range(k)]; lv[i:i] = [lv[i]] * k
    return {"c": c, "ops": ops, "levels": lv, "mode": draw(st.sampled_from(MODES))}

class Handler(logging.Handler):
    def __init__(self, mode):
        logging.Handler.__init__(self, 0); self.mode, self.recs, self.inside = mode, [], False
    def handle(self, r): self.emit(r)        # no lock: nested machines log too
    def emit(self, r):
        if self.inside: return
        self.recs.append((r.levelno, r.getMessage(), r.name, os.path.basename(r.pathname)))
        if self.mode == "raise" and len(self.recs) % 2: raise RuntimeError("handler")
        if self.mode == "reenter":
            import flame
            self.inside = True
            try:
                M = flame.Machine({"sim_type": "Vector", "elements": [{"name": "n", "type": "drift", "L": 1.0}], "initial": np.zeros(6)}); S = M.allocState(); M.propagate(S)
            finally: self.inside = False
    def filter(self, r): return True

class Player(c23.Player):
    def do(self, op):
        import flame
        if op["op"] == "badbuild":
            d = gen.conf(self.c, op["sim"]) if not op["bad"] else gen.conf(dict(self.c, els=[{"type": "nosuch", "name": "q"}]), self.c.get("sim", "MomentMatrix"))
            flame.Machine(d); return "accepted"
        return c23.Player.do(self, op)

def play(c, ops, levels, mode):
    """results and messages of every operation"""
    from flame import _internal as I
    L = logging.getLogger(I.getLoggerName()); L.propagate = False; L.disabled = mode == "disabled"
    H = Handler(mode); F = None
    if mode == "filter":
        def F(r): raise ValueError("filter")
        L.addFilter(F)
    L.addHandler(H); hook = sys.unraisablehook; seen = []; sys.unraisablehook = lambda u: seen.append(repr(u.exc_value))
    P = Player(c); msgs = []
    try:
        for op, l in zip(ops, levels):
            I.setLogLevel(l); H.recs = []; P.step(op); msgs.append(H.recs)
    finally:
        I.setLogLevel(30); L.removeHandler(H); L.disabled = False; sys.unraisablehook = hook
        if F: L.removeFilter(F)
    return P, msgs, seen

def log_run(case, env):
    import flame
    if "null" not in env.cache: env.cache["null"] = os.open(os.devnull, os.O_WRONLY)
    c = gencav.materialize(case["c"], env); c = dict(c); sim = c.get("sim", "MomentMatrix")
    ops = case["ops"]; lv = (case["levels"] + [0] * len(ops))[:len(ops)]; mode = case["mode"]
    sys.stdout.flush(); keep = os.dup(1); os.dup2(env.cache["null"], 1)      # cavities trace to the standard output at level 10
    try:
        Q, mq, _ = play(c, ops, [65535] * len(ops), "collect")
        A, ma, _ = play(c, ops, [0] * len(ops), "collect")
        B, mb, seen = play(c, ops, lv, mode)
    finally: os.dup2(keep, 1); os.close(keep)
    labels = {mode}; nt = False
    for i, op in enumerate(ops):
        w = "operation %d %r" % (i, op)
        if mq[i]: fail("%s: messages at level 65535: %.300r", w, mq[i])
        c23.same(A.out[i], Q.out[i], w + " with all messages"); c23.same(B.out[i], Q.out[i], w + " at level %d, %s" % (lv[i], mode))
        for r in ma[i]:
            if r[0] not in (0, 10, 20, 30, 40) or r[2] != "flame.machine" or not re.search(r"\.(cpp|h|hpp)$", r[3]): fail("%s: record %r", w, r)
            if r[1].endswith("\n"): fail("%s: message %r", w, r[1])
        want = [r for r in ma[i] if r[0] >= lv[i]]
        nt = nt or bool(want)
        labels.add("level %d" % lv[i])
        if mode in ("disabled", "filter"):
            if mb[i]: fail("%s: delivered in spite of %s: %.300r", w, mode, mb[i])
        elif mb[i] != want: fail("%s at level %d (%s): messages %.600r, expected %.600r", w, lv[i], mode, mb[i], want)
        txt = [r[:2] for r in ma[i]]
        if op["op"] == "build":
            ok = isinstance(A.out[i], dict)
            a, b = (20, "Constructing Machine w/ sim_type='%s'" % sim), (10, "Complete constructing Machine w/ sim_type='%s'" % sim)
            if not txt or txt[0] != a or (b in txt) != ok and "initializing" not in str(A.out[i]) and "constructing" in str(A.out[i]): fail("%s: messages %r, result %.100r", w, txt[:5], A.out[i])
            if ok and txt.count(b) != 1: fail("%s: messages %r", w, txt[:5])
        if op["op"] == "badbuild":
            s = op["sim"] if not op["bad"] else sim
            if txt != [(20, "Constructing Machine w/ sim_type='%s'" % s)]: fail("%s: messages %r", w, txt)
            labels.add("rejected build")
    if mode in ("raise", "filter") and nt and mode == "filter" and not seen: fail("an exception of a logging filter was lost")
    return nt, labels

# ---------------------------------------------------------------- warnings
@st.composite
def warn_case(draw):
    c = draw(hist.moment_lattice(cav=0.1, nmax=2, broken=0.0, strip=False)); els = [e for e in c["els"]]
    for _ in range(draw(st.integers(1, 3))): els.insert(draw(st.integers(0, len(els))), draw(limited(c["g"])))
    return {"c": dict(c, els=gen.named(els)), "f": draw(st.sampled_from([1.0, 1.0, 0.9985, 1.0015, 0.4, 3.0]))}

def limits(e):
    t = e.get("_files", {}).get("cav.lat", "")
    g = lambda k: (lambda m: eval(m.group(1)) if m else None)(re.search(r"^%s = (.*);$" % k, t, re.M))
    return g("EnergyLimit"), g("NormLimit"), g("RefNorm"), g("SyncFit")

def warn_run(case, env):
    import flame
    from flame import _internal as I
    raw = case["c"]["els"]; c = gencav.materialize(case["c"], env); n = len(raw)
    L = logging.getLogger(I.getLoggerName()); L.propagate = False; H = Handler("collect"); L.addHandler(H); I.setLogLevel(30)
    try:
        M = flame.Machine(gen.conf(c)); N = flame.Machine(gen.conf(c)); S = M.allocState()
        S.ref_IonEk = S.ref_IonEk * case["f"]; S.IonEk = S.IonEk * case["f"]
        labels = set(); nt = False
        for i, e in enumerate(raw):
            before = S.clone(); H.recs = []
            err, _ = hist.propagate(M, S, i, 1)
            first = H.recs; H.recs = []; twin = before.clone(); hist.propagate(N, twin, i, 1)
            if H.recs != first: fail("element %d: messages %.400r; of an equal machine right after: %.400r", i, first, H.recs)
            if err: labels.add("error"); break
            if e["type"] != "rfcavity" or "_files" not in e or "cav.lat" not in e["_files"]: continue
            el, nl, rn, sf = limits(e); ek = float(before.ref_IonEk) / 1e6; want = []; near = False
            if el:
                near |= min(abs(ek / el[0] - 1), abs(ek / el[1] - 1)) < 1e-9
                if ek < el[0] or ek > el[1]: want.append(("energy", ek, el))
            if nl and rn and sf and e.get("syncflag", 1.0) == 1.0:
                ns = e["scl_fac"] * float(before.ref_IonZ) / rn
                near |= min(abs(ns - nl[0]), abs(ns - nl[1])) <= 1e-9 * abs(ns)
                if ns < nl[0] or ns > nl[1]: want.append(("scale", ns, nl))
            if near: continue
            got = []
            for l, m, _, _ in H.recs:
                k = re.match(r"Warning: RF cavity (incident energy|normalized scale) \((\S+?)(?: \[MeV\])?\) is out of range \((\S+) ~ (\S+)\)\.$", m)
                if l != 30 or not k: fail("element %d: message %r at level %d", i, m, l)
                got.append(("energy" if k.group(1)[0] == "i" else "scale", float(k.group(2)), (float(k.group(3)), float(k.group(4)))))
            if [g[0] for g in got] != [x[0] for x in want]: fail("element %d: warnings %r, expected %r", i, H.recs, want)
            for g, x in zip(got, want):
                for a, b in zip((g[1],) + tuple(g[2]), (x[1],) + tuple(x[2])):
                    if not abs(a - b) <= 2e-5 * abs(b): fail("element %d: warning %r, expected %r", i, H.recs, x)
                labels.add(x[0] + " out of range"); nt = True
            if not want and (el or nl): labels.add("within limits")
    finally: L.removeHandler(H)
    return nt, labels

# ---------------------------------------------------------------- command line
@st.composite
def cli_case(draw):
    lin = draw(st.integers(0, 3)) == 0
    c = draw(hist.linear_lattice(nmax=4)) if lin else draw(hist.moment_lattice(cav=0.4, nmax=3, broken=0.05))
    els = [{"type": "source"}] + [e for e in c["els"] if e["type"] != "source"]
    if lin: els[0]["initial"] = c["g"]["initial"]
    els = [dict(e, name="e%d" % i) for i, e in enumerate(els)]
    return {"c": dict(c, els=els), "fmt": draw(st.sampled_from(["txt,file=out", "txt,verbose,file=out", "txt,verbose=3,file=out"])), "v": draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 6, 8]), min_size=1, max_size=2)), "max": draw(st.sampled_from([None, None, 2, 1]))}

def cli_run(case, env):
    exe = build.cli(env.bdir); c = gencav.materialize(case["c"], env)
    env.n += 1; d = env.tmp("cli%d" % env.n); os.makedirs(d)
    open(d + "/l.lat", "w").write(gen.text(c, c.get("sim", "MomentMatrix")))
    outs = []
    for v in [0] + case["v"]:
        if os.path.exists(d + "/out"): os.remove(d + "/out")
        r = subprocess.run([exe, "-A", "-v", str(v), "-F", case["fmt"]] + (["-M", str(case["max"])] if case["max"] else []) + ["l.lat"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        outs.append((r.returncode, open(d + "/out").read() if os.path.exists(d + "/out") else None, r.stderr[-300:]))
        if outs[-1][:2] != outs[0][:2]: fail("verbosity %d: exit %d output %.500r; verbosity 0: exit %d output %.500r; %r", v, outs[-1][0], outs[-1][1], outs[0][0], outs[0][1], outs[-1][2])
    return len(c["els"]) > 1 and outs[0][1] is not None, {case["fmt"], "exit %d" % outs[0][0]} | {"-v %d" % v for v in case["v"]}

CHECKS = [Check("log", log_case, log_run, 1200, 20000), Check("warn", warn_case, warn_run, 1600, 30000), Check("cli", cli_case, cli_run, 400, 6000, shards=4)]
