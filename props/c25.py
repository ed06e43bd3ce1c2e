import ctypes, gc, io, logging, os, random, sys
import numpy as np
from hypothesis import strategies as st
import build, gen, gencav, cmp, hist, c05, c19, c23
from core import Check, fail

RULE = ("api: a script of 2-9 operations of the python module (building from text, dictionary and file, allocation, propagation with observers, reading, writing and "
        "cloning states, reconfiguring, renaming, parsing, printing, searching, and the failing variants of all these) is repeated with new objects (once) and on the same "
        "machine and states (live); memory in use, python memory blocks, open files and the reference counts of every object passed in must not grow with the number of "
        "repetitions; non-trivial = at least two operations did work beyond building. h5: series of states written to and arrays read from HDF5 files, good and bad, repeated in the same way; "
        "non-trivial = a file was opened.")
ASSUMPTIONS = ["growth = at least 16 bytes, one python block or one descriptor per repetition in six consecutive windows of repetitions", "data files are the same in all repetitions (each file read is cached once)"]
TECHNIQUE = "property-based testing (Hypothesis): generated operation sequences repeated, with heap, python block, descriptor and reference counters as the oracle"
OKERR = (Exception,)

def counters(): return np.array([c05.used(), sys.getallocatedblocks(), len(os.listdir("/proc/self/fd"))], dtype=float)
UNIT = np.array([16.0, 1.0, 1.0]); NAMES = ["bytes of memory", "python blocks", "open files"]

def growth(once, n, what):
    """n repetitions per window; linear growth in all windows is a leak"""
    for _ in range(6): once()
    gc.collect(); a = counters(); d = []
    for k in (1, 1, 2, 4, 8, 40):
        for _ in range(k * n): once()
        gc.collect(); b = counters(); d.append((b - a) / (k * n)); a = b
        bad = np.all([x >= UNIT * 0.9 for x in d], axis=0)
        if not bad.any(): return
    i = int(np.argmax(bad)); fail("%s: every repetition leaves %s %s behind", what, [round(float(x[i]), 1) for x in d], NAMES[i])

# ---------------------------------------------------------------- scripts
@st.composite
def op(draw, n):
    k = draw(st.sampled_from(["prop", "prop", "prop", "badprop", "attr", "set", "setbad", "clone", "cycle", "reconf", "badreconf", "badreconf", "rename", "conf", "find", "print", "parse", "badparse", "build", "badbuild", "alloc", "badalloc", "file", "log", "misc"]))
    d = {"op": k, "i": draw(st.integers(0, n - 1)), "j": draw(st.integers(0, 60)), "b": draw(st.booleans())}
    if k == "prop": d.update(draw(hist.prop_op(n)), op="prop")
    if k in ("reconf", "badreconf"): d["key"] = draw(st.sampled_from(["L", "B2", "B", "phi", "scl_fac", "dx", "K", "ncurve", "cavtype", "type", "name", "matrix", "IonChargeStates", "Eng_Data_Dir"])); d["f"] = draw(st.sampled_from([1.1, 0.5, -1.0]))
    return d

@st.composite
def api_case(draw):
    if draw(st.integers(0, 4)) == 4: c = draw(hist.linear_lattice(nmax=3))
    else: c = draw(hist.moment_lattice(cav=0.3, curves=0.2, nmax=3, broken=0.1))
    n = len(c["els"])
    return {"c": c, "ops": draw(st.lists(op(n), min_size=2, max_size=9)), "live": draw(st.booleans()), "how": draw(st.sampled_from(["dict", "text"]))}

class Boom:
    def __init__(self, n): self.n = n
    def __iter__(self): return self
    def __next__(self):
        self.n -= 1
        if self.n < 0: raise KeyError("boom")
        return 0

class Odd: pass
ODD = Odd()
BADV = [None, "x", [1.0], np.zeros((2, 2)), np.zeros(7), [["a"] * 7] * 7, {}, ODD, 1j, b"1", float("nan"), -1, 2 ** 70, [[1, 2], [3]], np.zeros((7, 7, 1, 1))]

def run_op(o, x):
    """x: M, S, conf, text, path, n"""
    import flame
    M, S, k = x["M"], x["S"], o["op"]; at = x["attrs"][o["j"] % len(x["attrs"])]
    if k == "prop":
        T = S.clone() if o.get("s", 0) % 2 else M.allocState(); M.propagate(T, o["start"] % x["n"], o["max"], observe=[i % x["n"] for i in o["obs"]]); return
    if k == "badprop": return [lambda: M.propagate(S, observe=[x["n"] + 3]), lambda: M.propagate(S, observe=Boom(o["j"] % 3)), lambda: M.propagate(S, "a"), lambda: M.propagate(x["other"]), lambda: M.propagate(None), lambda: M.propagate(S, 0, "b"),
                               lambda: M.propagate(S, 0, 1, ["a", 0]), lambda: M.propagate(S, observe=[0, 0, o["i"], 1 << 70]), lambda: M.propagate(S, foo=1), lambda: M.propagate(S, -1)][o["j"] % 10]()
    if k == "attr":
        for a in S: getattr(S, a)
        return
    if k == "set": v = x["vals"][at]; return setattr(S, at, v.tolist() if o["b"] and isinstance(v, np.ndarray) else v)
    if k == "setbad":
        if o["j"] % 7 == 0: return delattr(S, at)
        return setattr(S, at, BADV[(o["j"] + o["i"]) % len(BADV)])
    if k == "clone":
        T = [S.clone() for _ in range(3)]; T[0].extra = T[1]; return
    if k == "cycle":
        T = S.clone(); T.me = T; T.both = [T, M]; return
    if k == "reconf":
        d = M.conf(o["i"]); v = d.get(o["key"], 0.3)
        if isinstance(v, float): M.reconfigure(o["i"], {o["key"]: v * o["f"]}); M.reconfigure(o["i"], {o["key"]: v})
        else: M.reconfigure(o["i"], {o["key"]: v})
        if o["b"]: M.reconfigure(o["i"], d, replace=True)
        return
    if k == "badreconf": return [lambda: M.reconfigure(x["n"] + 1, {}), lambda: M.reconfigure(o["i"], {o["key"]: np.zeros((2, 3))}), lambda: M.reconfigure(o["i"], {o["key"]: "no such"}), lambda: M.reconfigure(o["i"], {1: 2}), lambda: M.reconfigure(o["i"], {"a": ODD}),
                                lambda: M.reconfigure(o["i"], {"type": "nosuch"}), lambda: M.reconfigure(o["i"], {}, replace=True), lambda: M.reconfigure(o["i"], [1]), lambda: M.reconfigure(o["i"], {o["key"]: [{"a": 1.0}, {}]}),
                                lambda: M.reconfigure(o["i"], {"type": "marker" if M.conf(o["i"])["type"] == "drift" else "drift"}), lambda: M.reconfigure(o["i"], {"type": "drift" if o["b"] else "quadrupole", "L": 0.5, "B2": 1.0, "K": 1.0, "name": "a" * 60})][o["j"] % 11]()
    if k == "rename": nm = M.conf(o["i"])["name"]; M.reconfigure(o["i"], {"name": "another"}); M.find("another"); M.reconfigure(o["i"], {"name": nm}); return
    if k == "conf": M.conf(); M.conf(o["i"]); return M.conf(x["n"]) if o["b"] else None
    if k == "find":
        M.find(name="e0"); M.find(type="drift"); M.find(); return M.find(name="a", type="b") if o["b"] else None
    if k == "print": str(M); str(S); S.show(o["j"] % 4); repr(S); return S.show("x") if o["b"] else None
    if k == "parse": r = flame.GLPSParser().parse(x["text"], extra=x["extra"] if o["b"] else None); flame.GLPSPrinter(r); return
    if k == "badparse": t = x["text"]; p = (o["j"] * 37 + o["i"] * 11) % len(t); return flame.GLPSParser().parse(t[:p] + (b"~" if o["b"] else b"") + t[p + 1 + o["j"] % 5:])
    if k == "build": N = flame.Machine(x["conf"] if o["b"] else x["text"]); N.propagate(N.allocState()); len(N); return
    if k == "badbuild":
        d = dict(x["conf"]); els = [dict(e) for e in d["elements"]]; e = els[o["i"]]; j = o["j"] % 8
        if j == 0: e["type"] = "nosuch"
        elif j == 1: e.pop("type")
        elif j == 2: e["L"] = "x"
        elif j == 3: e["cavtype"] = "nosuch"; e["HdipoleFitMode"] = 7.0; e["initial"] = [1.0]; e["moment00"] = [1.0]
        elif j == 4: d["sim_type"] = "nosuch"
        elif j == 5: e["z"] = ODD
        elif j == 6: e["Eng_Data_Dir"] = "/nonexistent"
        else: els.append(3)
        d["elements"] = els
        return flame.Machine(d)
    if k == "alloc": M.allocState(); M.allocState({}); M.allocState({"IonEk": 1e6}, inherit=True); return
    if k == "badalloc": return [lambda: M.allocState(3), lambda: M.allocState({"IonChargeStates": np.zeros(2)}), lambda: M.allocState({"IonChargeStates": np.ones(1), "NCharge": np.ones(1)}), lambda: M.allocState({1: 1}), lambda: M.allocState({"initial": "x"}, inherit=True), lambda: M.allocState({"a": ODD}), lambda: M.allocState({"initial": np.ones(2)}, inherit=True)][o["j"] % 7]()
    if k == "file":
        j = o["j"] % 5
        if j == 0: flame.Machine(open("/dev/null", "rb"))
        with open(x["path"], "rb") as f:
            if j == 1: flame.GLPSParser().parse(f)
            elif j == 2: flame.Machine(f)
            elif j == 3: flame.Machine(io.BytesIO(x["text"][:-len(x["text"]) // 3]))
        return flame.GLPSParser().parse(open(x["path"] + "x", "rb"))
    if k == "log":
        from flame import _internal as I
        L = logging.getLogger(I.getLoggerName()); H = logging.Handler(); H.emit = lambda r: r.getMessage(); old = L.propagate; L.propagate = False; L.addHandler(H); I.setLogLevel(15)
        try: flame.Machine(x["conf"])
        finally: I.setLogLevel(30); L.removeHandler(H); L.propagate = old
        return
    if k == "misc": len(S); list(S); dir(S); hash(S); S == M; getattr(S, "nosuch", None); len(M); return flame.GLPSPrinter([(o["i"], "x")]) if o["b"] else None

def refs(objs): return [sys.getrefcount(o) for o in objs]

def api_run(case, env):
    import flame
    c = gencav.materialize(case["c"], env); sim = c.get("sim", "MomentMatrix"); conf = gen.conf(c, sim); text = gen.text(c, sim).encode(); ops = case["ops"]
    env.n += 1; path = env.tmp("l%d.lat" % env.n); open(path, "wb").write(text); flame.setLogLevel(50)
    if "other" not in env.cache: env.cache["other"] = [flame.Machine(b'sim_type="Vector"; initial=[1,2,3,4,5,6]; d: drift, L=1; l: LINE=(d);').allocState(), flame.Machine(b'sim_type="TransferMatrix"; d: drift, L=1; l: LINE=(d);').allocState()]
    work = set()
    def fresh():
        M = flame.Machine(conf if case["how"] == "dict" else text); S = M.allocState()
        return {"M": M, "S": S, "conf": conf, "text": text, "path": path, "n": len(M), "extra": {"ext9": 1.5, "ext8": "s"}, "attrs": sorted(S), "other": env.cache["other"][sim == "Vector"], "vals": {a: getattr(S, a) for a in S}}
    def play(x):
        for i, o in enumerate(ops):
            try: run_op(o, x); work.add((i, True))
            except OKERR: work.add((i, False))
    try:
        try: x = fresh()
        except OKERR: return False, {"no state"}
        objs = [x["M"], x["S"], conf, text, path, x["extra"], x["other"], env.cache["other"], conf["elements"]] + list(conf["elements"]) + [v for v in conf.values() if isinstance(v, np.ndarray)] + [v for e in conf["elements"] for v in e.values() if isinstance(v, np.ndarray)] \
            + [v for v in x["vals"].values() if isinstance(v, np.ndarray)] + BADV[1:10] + [flame.Machine, type(x["S"]), np.dtype("f8"), x["vals"], Odd]
        # reference counts of everything passed in
        play(x); gc.collect(); r0 = refs(objs); play(x); gc.collect(); r1 = refs(objs); play(x); gc.collect(); r2 = refs(objs)
        for o, a, b, d in zip(objs, r0, r1, r2):
            if b > a and d > b or b < a and d < b: fail("references to %.120r: %d, %d, %d after one, two and three rounds of %r", o, a, b, d, ops)
        if case["live"]: growth(lambda: play(x), 16, "operations %r on one machine" % [o["op"] for o in ops])
        else:
            del x, objs, o
            growth(lambda: play(fresh()), 16, "operations %r" % [o["op"] for o in ops])
    finally: flame.setLogLevel(flame.FLAME_WARN); os.unlink(path)
    return len(work) >= 2, {o["op"] + (" ok" if (i, True) in work else " fails") for i, o in enumerate(ops)} | {"live" if case["live"] else "new objects"}

# ---------------------------------------------------------------- HDF5
@st.composite
def h5_case(draw):
    lin = draw(st.booleans()); c = draw(hist.linear_lattice(nmax=2)) if lin else draw(hist.moment_lattice(nmax=2, cav=0.1, broken=0))
    step = st.sampled_from(["new", "open", "append", "append", "append", "append2", "prepare", "attr", "close", "free", "badopen", "badgroup", "load", "badload", "noload"])
    return {"c": c, "ops": draw(st.lists(step, min_size=2, max_size=12)), "spec": draw(st.sampled_from(["o.h5", "o.h5/a", "o.h5/a/b"]))}

def prepare(bdirs): return {b: build.build_harness("h5_ops", b, f, shared=True) for f, b in bdirs.items()}

def h5_run(case, env):
    c = gencav.materialize(case["c"], env); sim = c.get("sim", "MomentMatrix"); L = c19.lib(env); text = gen.text(c, sim).encode(); os.chdir(env.scratch); c19.call
    if not os.path.exists("in.h5"):
        import h5py
        with h5py.File("in.h5", "w") as f: f["a/m"] = np.arange(6.0).reshape(2, 3); f["t"] = np.zeros((2, 2, 2)); f["s"] = b"text"
    V = ctypes.c_void_p; done = set()
    def once():
        m, s, s2, w = V(), V(), V(), V(); opened = False
        if c19.call(L, "h5_machine", text, len(text), ctypes.byref(m)): return
        if c19.call(L, "h5_state", m, ctypes.byref(s)) is None and c19.call(L, "h5_state", m, ctypes.byref(s2)) is None:
            c19.call(L, "h5_prop", m, s2, 0, 5)
            for o in case["ops"]:
                if o in ("load", "badload", "noload"):
                    r, q, d = ctypes.c_size_t(), ctypes.c_size_t(), V()
                    e = c19.call(L, "h5_load", {"load": b"in.h5/a", "badload": b"in.h5", "noload": b"nosuch.h5"}[o], {"load": b"m", "badload": b"t", "noload": b"m"}[o], ctypes.byref(r), ctypes.byref(q), ctypes.byref(d))
                    if not e: L.h5_free(d)
                    done.add(o); continue
                if not w:
                    if c19.call(L, "h5_new", None, ctypes.byref(w)): continue
                    if o == "new": continue
                if o == "free": L.h5_free_writer(w); w = V(); opened = False; continue
                a = {"open": ("h5_open", w, case["spec"].encode()), "badopen": ("h5_open", w, b"/nonexistent/x.h5"), "badgroup": ("h5_open", w, b"nosuchdir/o.h5/"), "append": ("h5_append", w, s), "append2": ("h5_append", w, s2), "prepare": ("h5_prepare", w, s), "attr": ("h5_attr", w, b"sim_type", b"x"), "close": ("h5_close", w)}.get(o)
                if a and (c19.call(L, *a) is None): done.add(o)
        if w: L.h5_free_writer(w)
        for q in (s, s2):
            if q: L.h5_free_state(q)
        L.h5_free_machine(m)
    growth(once, 12, "HDF5 operations %r" % case["ops"])
    return bool(done & {"open", "load"}), done

CHECKS = [Check("api", api_case, api_run, 1600, 30000, hang=300), Check("h5", h5_case, h5_run, 400, 8000, hang=300)]
