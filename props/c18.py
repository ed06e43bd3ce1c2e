"""C18: Python states are faithful, independent and checked views; misuse of the Python API raises."""
import gc, math, os, weakref
from hypothesis import strategies as st
import numpy as np
import cmp, gen, gencav, hist
from core import Check, fail
from gen import chance

TECHNIQUE = "model-based stateful property testing (Hypothesis): attribute writes, clones and propagations against snapshots and a machine and state rebuilt from attributes alone; fuzzing of API calls with hostile arguments under AddressSanitizer"
RULE = "views: an attribute is written or refused, or a returned array modified, and a propagation follows or other states exist; misuse: at least one call has an argument outside the documented ones"
ASSUMPTIONS = ["one thread", "objects handed to the API do not themselves change the machine or state that is being used while the call runs"]

# ---- attributes
HOW = ["float64", "list", "fortran", "strided", "int", "float32", "readonly", "swapped", "tuple", "scalars"]
WRONG = ["short", "long", "deeper", "flat", "scalar", "none", "text", "dict", "object", "transposed", "short1", "long1", "short2", "long2", "empty", "ragged", "complex", "delete", "nested", "negative"]

@st.composite
def views_case(draw):
    if chance(draw, 0.25): c = draw(hist.linear_lattice(nmax=3))
    else: c = dict(draw(hist.moment_lattice(nmax=3, cav=0.2)), sim="MomentMatrix")
    s = st.integers(0, 9); a = st.integers(0, 60); sd = st.integers(0, 10 ** 6)
    w = st.tuples(st.just("write"), s, a, st.sampled_from(HOW), sd)
    op = st.one_of(w, w, st.tuples(st.just("bad"), s, a, st.sampled_from(WRONG), sd), st.tuples(st.just("mutate"), s, a), st.tuples(st.just("clone"), s), st.just(("alloc",)), st.tuples(st.just("user"), s, sd),
                   st.tuples(st.just("prop"), s, st.integers(0, 4), st.sampled_from([1, 2, 99, 0, -1, -2]), st.lists(st.integers(0, 4), max_size=2)))
    c["ops"] = [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))]
    return c

def fresh_values(v, seed, how):
    """another value of the same shape, exact in the form it is given in"""
    r = np.random.RandomState(seed); x = np.array(v, float); y = x * (1 + 0.1 * r.uniform(-1, 1, x.shape)) + 0.01 * r.uniform(-1, 1, x.shape)
    y = np.where(np.isfinite(y), y, 0.5)
    if how == "int": y = np.rint(np.clip(y, -1e15, 1e15)) + 0.0 if x.ndim or seed % 4 else np.array([3e20, -7e18, 9223372036854775808.0][seed % 3])
    if how == "float32": y = y.astype(np.float32).astype(float)
    return y

def form(y, how):
    if y.ndim == 0: return int(y) if how == "int" else np.float64(y) if how == "scalars" else float(y)
    if how == "list": return y.tolist()
    if how == "tuple": return tuple(map(tuple, y)) if y.ndim == 2 else tuple(y.tolist())
    if how == "fortran": return y.copy(order="F")
    if how == "strided":
        z = np.full([2 * n for n in y.shape], 7.0); z[tuple(slice(0, None, 2) for _ in y.shape)] = y; return z[tuple(slice(0, None, 2) for _ in y.shape)]
    if how == "int": return y.astype(np.int64)
    if how == "float32": return y.astype(np.float32)
    if how == "readonly": z = y.copy(); z.flags.writeable = False; return z
    if how == "swapped": return y.astype(">f8")
    if how == "scalars": return [list(r) for r in y] if y.ndim > 1 else list(y)
    return y.copy()

def wrong(v, kind):
    """a value that must be refused for an attribute with this value, or None"""
    v = np.array(v); n = v.ndim
    if kind == "none": return (None,)
    if kind == "text": return ("abc" if n == 0 else ["x"] * v.shape[0] if n == 1 else "abc",)
    if kind == "dict": return ({},)
    if kind == "object": return (object(),)
    if kind == "complex": return (1j if n == 0 else [[1j]] if n == 2 else [1j],)
    if n == 0: return {"deeper": ([1.0],), "ragged": ([[1.0], [1.0, 2.0]],), "nested": ([[1.0]],), "empty": (np.zeros(0),), "short": (np.zeros((0, 0)),)}.get(kind)
    if kind == "short": return (v[:-1] + 0.0,) if v.shape[0] > 1 else None
    if kind == "long": return (np.concatenate([v, v[:1]]) + 0.0,)
    if kind in ("short1", "long1", "short2", "long2"):                      # along another axis
        x = int(kind[-1])
        if n <= x: return None
        if kind[0] == "l": return (np.concatenate([v, v.take([0], x)], x) + 0.0,)
        return (v.take(range(v.shape[x] - 1), x) + 0.0,) if v.shape[x] > 1 else None
    if kind == "deeper": return (v[None] + 0.0,)
    if kind == "nested": return ([v.tolist()],)
    if kind == "flat": return (v.ravel() + 0.0,) if n > 1 else None
    if kind == "scalar": return (1.5,)
    if kind == "transposed": return (v.T.copy(),) if n > 1 and v.T.shape != v.shape else None
    if kind == "empty": return (np.zeros([0] * n),)
    if kind == "ragged": return ([[1.0], [1.0, 2.0]],) if n > 0 else None
    return None

DERIVED = [r + a for r in ("", "ref_") for a in ("IonW", "gamma", "beta", "bg", "SampleIonK")]

def derived(m, what):
    """the derived attributes of a new state"""
    if "IonEk" not in m: return
    for r in ("", "ref_"):
        es, ek = m[r + "IonEs"], m[r + "IonEk"]; g = (es + ek) / es; b = np.sqrt(1 - 1 / g ** 2)
        for a, v in (("IonW", es + ek), ("gamma", g), ("beta", b), ("bg", b * g), ("SampleIonK", 2 * math.pi * m[r + "SampleFreq"] / (b * 2.99792458e11))):
            if not np.allclose(m[r + a], v, rtol=1e-7, atol=0): fail("%s: %s is %r, expected %r", what, r + a, m[r + a], v)

def views_run(case, env):
    import flame
    c = gencav.materialize({"g": case["g"], "els": case["els"]}, env); cf = gen.conf(c, case["sim"])
    M = flame.Machine(cf); n = len(M)
    try: pool = [M.allocState()]
    except Exception: return False, ["no state"]
    model = [cmp.snap(pool[0])]; derived(model[0], "new state"); names = sorted(model[0]); labels = set(); wrote = interesting = False
    def check(what):
        for i, (S, m) in enumerate(zip(pool, model)): cmp.same_snap(cmp.snap(S), m, "%s: state %d" % (what, i))
    for k, o in enumerate(case["ops"]):
        what = "after operation %d of %s" % (k, case["ops"])
        if o[0] == "alloc": pool.append(M.allocState()); model.append(cmp.snap(pool[-1])); cmp.same_snap(model[-1], cmp.snap(flame.Machine(cf).allocState()), what); continue
        i = o[1] % len(pool); S = pool[i]
        if o[0] == "write":
            a = names[o[2] % len(names)]; y = fresh_values(model[i][a], o[4], o[3])
            if a == "next_elem": y = np.array(float(o[4]))
            x = form(y, o[3])
            setattr(S, a, int(y) if a == "next_elem" and o[3] != "float64" else x)
            if isinstance(x, np.ndarray) and o[3] != "readonly": x[...] = 3                # the state keeps no view of it
            model[i] = dict(model[i], **{a: y}); labels.add("write " + o[3]); wrote = True
            g = getattr(S, a)
            if np.ndim(g) == 0 and not isinstance(g, (float, int)): fail("%s: %s is a %s", what, a, type(g))
            interesting |= len(pool) > 1
        elif o[0] == "bad":
            a = names[o[2] % len(names)]
            if o[3] == "delete":
                try: delattr(S, a)
                except Exception as e: pass
                else: fail("%s: attribute %s can be deleted", what, a)
            else:
                v = ([-1.0, -0.75, -1, -2 ** 63, 2.0 ** 64, 1e300, math.nan][o[4] % 7],) if a == "next_elem" and o[3] == "negative" else wrong(model[i][a], o[3])
                if v is None: continue
                try: setattr(S, a, v[0])
                except (ValueError, TypeError, OverflowError) as e: pass
                else: fail("%s: %s accepts %r", what, a, v[0])
            labels.add("refuse " + o[3]); interesting = True
        elif o[0] == "mutate":
            a = names[o[2] % len(names)]; v = getattr(S, a)
            if isinstance(v, np.ndarray): v[...] = 12.5; labels.add("mutate"); interesting = True
        elif o[0] == "clone": pool.append(S.clone()); model.append(dict(model[i])); labels.add("clone")
        elif o[0] == "user":
            nm = "my_%d" % (o[2] % 3); setattr(S, nm, o[2])
            if getattr(S, nm) != o[2] or nm in set(S): fail("%s: user attribute", what)
            try: getattr(S, "nosuch_%d" % o[2])
            except AttributeError: pass
            else: fail("%s: unknown attribute can be read", what)
        elif o[0] == "prop":
            # the same from the attributes alone, through another machine
            T = S.clone()
            for a in names:
                v = np.array(model[i][a], float); setattr(T, a, (v + 0.37 if v.ndim else 5 if a == "next_elem" else float(v) * 1.01 + 0.37))
            for a in names: v = model[i][a]; setattr(T, a, v if v.ndim else min(int(v), 2 ** 64 - 1) if a == "next_elem" else float(v))
            obs = [q % n for q in o[4]] if n else []; start = o[2] % max(n, 1); types = [e["type"] for e in c["els"]]
            went = types[start:start + o[3]] if o[3] >= 0 else [t for t in types[max(0, start + o[3] + 1):start + 1] if t != "source"]
            e1, r1 = hist.propagate(M, S, start, o[3], obs)
            if went and not e1:             # what energy, mass and frequency determine is not taken from the state
                for a in DERIVED:
                    if a in model[i]: setattr(T, a, model[i][a] * 1.3 + 0.1 if model[i][a].ndim else float(model[i][a]) * 1.3 + 0.1)
                labels.add("derived attributes")
            e2, r2 = hist.propagate(M if o[3] < 0 and "rfcavity" in types else flame.Machine(cf), T, start, o[3], obs)
            if e1 != e2: fail("%s: %s, but from the attributes %s", what, e1, e2)
            model[i] = cmp.snap(T); pool.append(T); model.append(dict(model[i]))
            if [q for q, _ in r1] != [q for q, _ in r2]: fail("%s: observed %s and %s", what, [q for q, _ in r1], [q for q, _ in r2])
            for (q, X), (_, Y) in zip(r1, r2): pool.append(X); model.append(cmp.snap(Y))
            labels.add("propagate error" if e1 else "propagate"); interesting |= wrote
        check(what)
        if len(pool) > 8: del pool[:-8]; del model[:-8]; gc.collect()
    return interesting, sorted(labels)

# ---- misuse
class Hostile:
    def __init__(self, **k): self.__dict__.update(k)
class Bad:
    """raises whatever is asked of it"""
    def __getattr__(self, n): raise AttributeError(n)
    def _r(self, *a, **k): raise ZeroDivisionError("hostile")
    __index__ = __float__ = __int__ = __len__ = __iter__ = __bool__ = __getitem__ = __str__ = _r
class Seq:
    def __len__(self): return 3
    def __getitem__(self, i): raise ZeroDivisionError("hostile item")
class Reader:
    def __init__(self, v): self.v = v
    def read(self, *a):
        if isinstance(self.v, BaseException): raise self.v
        return self.v
class Named(Reader): name = 5
class FloatNaN:
    def __float__(self): return math.nan
class FloatStr:
    def __float__(self): return "x"

def gen_raises(n):
    for i in range(n): yield i
    raise ZeroDivisionError("hostile iterator")

def selfdict():
    d = {"sim_type": "Vector"}; d["elements"] = [d]; return d
def deep():
    d = {"type": "drift"}
    for _ in range(6): d = {"elements": [d]}
    return d

# some calls read files: every text given as one is a parse error or a small lattice
MAKE = {
 "none": lambda c: None, "true": lambda c: True, "m1": lambda c: -1, "zero": lambda c: 0, "one": lambda c: 1, "n": lambda c: len(c["M"][0]), "i31": lambda c: 2 ** 31, "mi31": lambda c: -2 ** 31, "i32": lambda c: 2 ** 32, "i63": lambda c: 2 ** 63, "mi63": lambda c: -2 ** 63, "i64": lambda c: 2 ** 64, "i64p": lambda c: 2 ** 64 + 1, "i400": lambda c: 10 ** 400,
 "f": lambda c: 1.5, "nan": lambda c: math.nan, "inf": lambda c: math.inf, "minf": lambda c: -math.inf, "np1": lambda c: np.int64(1), "npf": lambda c: np.float32(0.5), "npb": lambda c: np.bool_(True), "np0": lambda c: np.array(1.0), "str": lambda c: "x", "empty": lambda c: "", "nul": lambda c: "a\0b", "utf": lambda c: "\u00e9\U0001f600", "sur": lambda c: "\udc80", "bytes": lambda c: b"d: drift; l: LINE=(d);", "bnul": lambda c: b"\0\0", "mem": lambda c: memoryview(b"x = 1;"), "barr": lambda c: bytearray(b"sim_type"),
 "list": lambda c: [], "l1": lambda c: [1], "l12": lambda c: [0, 1, 0, 1], "lm1": lambda c: [-1], "lbig": lambda c: [2 ** 70], "lbig2": lambda c: [2 ** 40], "lf": lambda c: [0.5], "ls": lambda c: ["a"], "lnone": lambda c: [None], "tup": lambda c: (1, 2), "pairs": lambda c: [("a", 1.0), ("b", "x")], "badpairs": lambda c: [("a",)], "badpairs2": lambda c: [(1, 2)], "badpairs3": lambda c: [("a", 1, 2)], "listpairs": lambda c: [["a", 1.0]], "set": lambda c: {1, 0}, "range": lambda c: range(3), "gen": lambda c: gen_raises(1), "gen0": lambda c: gen_raises(0), "iter": lambda c: iter([0, 1]),
 "dict": lambda c: {}, "dL": lambda c: {"L": 0.25}, "dLs": lambda c: {"L": "x"}, "dLv": lambda c: {"L": np.zeros(2)}, "dLn": lambda c: {"L": None}, "dkey": lambda c: {1: 2}, "dnul": lambda c: {"a\0": 1.0}, "dlist": lambda c: {"L": [1.0]}, "dnest": lambda c: {"L": [{"a": 1.0}]}, "dself": lambda c: selfdict(), "ddeep": lambda c: deep(), "dtype": lambda c: {"type": "quadrupole"}, "dtype2": lambda c: {"type": 5.0}, "dname": lambda c: {"name": "other"}, "dname2": lambda c: {"name": np.zeros(3)}, "dbad": lambda c: {"L": Bad()}, "dseq": lambda c: {"elements": Seq()}, "dcplx": lambda c: {"L": 1j}, "dnan": lambda c: {"L": FloatNaN()}, "dfs": lambda c: {"L": FloatStr()}, "dobj": lambda c: {"L": np.array([object()])}, "dstrarr": lambda c: {"L": np.array(["a", "b"])}, "d3d": lambda c: {"L": np.zeros((2, 2, 2))}, "dstruct": lambda c: {"L": np.zeros(2, dtype=[("a", float), ("b", int)])}, "dbool": lambda c: {"L": np.array([True, False])}, "dbytes": lambda c: {"L": b"x"}, "dsur": lambda c: {"L": "\udc80"}, "dsurk": lambda c: {"\udc80": 1.0}, "dini": lambda c: {"initial": np.zeros(5)}, "dini2": lambda c: {"IonChargeStates": np.array([0.1, 0.2]), "IonEk": 1e6}, "dcs": lambda c: {"cstate": 99.0}, "delem": lambda c: {"elements": [{"type": "drift", "L": 1.0, "name": "a"}], "sim_type": "Vector", "initial": np.zeros(6)}, "delem2": lambda c: {"elements": [5], "sim_type": "Vector"}, "delem3": lambda c: {"elements": [[("type", "drift")]], "sim_type": "Vector"}, "delem4": lambda c: {"elements": ["drift"]}, "dmixed": lambda c: {"a": [1.0, "x", None]},
 "a0": lambda c: np.zeros(0), "a2": lambda c: np.array([True, False]), "a6": lambda c: np.zeros(6), "a66": lambda c: np.zeros((6, 6)), "a77": lambda c: np.zeros((7, 7)), "aobj": lambda c: np.array([None] * 6), "aneg": lambda c: np.zeros(12)[::-2], "ahuge": lambda c: np.broadcast_to(np.zeros(1), (500, 500)),
 "bad": lambda c: Bad(), "seq": lambda c: Seq(), "obj": lambda c: object(), "fn": lambda c: len, "type": lambda c: float, "state": lambda c: c["S"][0], "state2": lambda c: c["S"][-1], "ostate": lambda c: c["other"], "machine": lambda c: c["M"][0], "raw": lambda c: c["raw"], "cls": lambda c: type(c["S"][0]), "weak": lambda c: weakref.ref(c["S"][0]), "proxy": lambda c: weakref.proxy(c["S"][0]),
 "rb": lambda c: Reader(b"sim_type = \"Vector\"; initial=[0,0,0,0,0,0]; d: drift, L=1; l: LINE=(d);"), "rs": lambda c: Reader("text"), "rn": lambda c: Reader(None), "rx": lambda c: Reader(OSError("gone")), "rname": lambda c: Named(b"x = 1;"), "ri": lambda c: Reader(7),
}
CALLS = ["Machine", "Machine", "parse", "GLPSPrinter", "setLogLevel", "allocState", "allocState", "propagate", "propagate", "propagate", "reconfigure", "reconfigure", "reconfigure", "conf", "find", "M.str", "M.len", "init", "raw", "clone", "show", "setattr", "setattr", "getattr", "delattr", "S.misc", "M.misc", "new"]
KW = {"Machine": ["path", "extra"], "parse": ["path", "extra"], "allocState": ["inherit", "config"], "propagate": ["start", "max", "observe"], "reconfigure": ["replace", "index", "config"], "conf": ["index"], "find": ["name", "type"], "show": ["level"], "init": ["path", "extra"]}

@st.composite
def misuse_case(draw):
    if chance(draw, 0.4): c = draw(hist.linear_lattice(nmax=2))
    else: c = dict(draw(hist.moment_lattice(nmax=2, cav=0.15)), sim="MomentMatrix")
    v = st.sampled_from(sorted(MAKE)); calls = []
    for _ in range(draw(st.integers(1, 6))):
        f = draw(st.sampled_from(CALLS)); args = draw(st.lists(v, max_size=3))
        if f in ("propagate",) and draw(st.booleans()): args = ["state"] + args[:1]
        if f == "reconfigure" and draw(st.booleans()): args = [draw(st.sampled_from(["zero", "one", "m1", "i64", "i64p", "n"])), draw(st.sampled_from([k for k in sorted(MAKE) if k[0] == "d"]))]
        kws = {draw(st.sampled_from(KW.get(f, ["x"]))): draw(v)} if chance(draw, 0.4) else {}
        calls.append([f, args, kws, draw(st.integers(0, 60))])
    c["calls"] = calls
    return c

def misuse_run(case, env):
    import flame
    from flame import _internal
    c = gencav.materialize({"g": case["g"], "els": case["els"]}, env); cf = gen.conf(c, case["sim"]); os.chdir(env.scratch)
    M = flame.Machine(cf); n = len(M)
    try: S0 = M.allocState(); S = S0.clone()
    except Exception: return False, ["no state"]
    if "other" not in env.cache:
        env.cache["other"] = [flame.Machine(b'sim_type="Vector"; initial=[1,2,3,4,5,6]; d: drift, L=1; l: LINE=(d);'), flame.Machine(b'sim_type="TransferMatrix"; d: drift, L=1; l: LINE=(d);'),
                              flame.Machine(b'sim_type="MomentMatrix"; IonEk=1e6; IonEs=931e6; IonChargeStates=[0.5]; NCharge=[1]; vector_variable="v"; matrix_variable="m"; v0=[0,0,0,0,0,0,1]; m0=[%s]; d: drift, L=1; l: LINE=(d);' % b",".join([b"0"] * 49))]
    om = env.cache["other"][0 if case["sim"] != "Vector" else 1]
    ctx = {"M": [M], "S": [S], "other": om.allocState(), "raw": flame.Machine.__new__(flame.Machine)}
    def reference(m):
        T = S0.clone(); e, _ = hist.propagate(m, T, 0, 99); return e, cmp.snap(T)
    ref = reference(M); conf0 = [repr(M.conf(i)) for i in range(n)]; labels = set()
    for k, (f, args, kws, j) in enumerate(case["calls"]):
        what = "call %d %s(%s, %s)" % (k, f, args, kws); T = ctx["S"][-1]; before = cmp.snap(T)
        a = [MAKE[x](ctx) for x in args]; kw = {x: MAKE[y](ctx) for x, y in kws.items()}; at = sorted(T)[j % len(sorted(T))]
        call = {"Machine": lambda: flame.Machine(*a, **kw), "parse": lambda: flame.GLPSParser().parse(*a, **kw), "GLPSPrinter": lambda: flame.GLPSPrinter(*a, **kw), "setLogLevel": lambda: flame.setLogLevel(*a, **kw),
                "allocState": lambda: M.allocState(*a, **kw), "propagate": lambda: M.propagate(*a, **kw), "reconfigure": lambda: M.reconfigure(*a, **kw), "conf": lambda: M.conf(*a, **kw), "find": lambda: M.find(*a, **kw),
                "M.str": lambda: str(M) + repr(M), "M.len": lambda: len(M), "init": lambda: flame.Machine(cf).__init__(*a, **kw), "raw": lambda: [getattr(ctx["raw"], ["conf", "find", "allocState", "propagate", "reconfigure"][j % 5])(*a, **kw)],
                "clone": lambda: T.clone(*a, **kw), "show": lambda: T.show(*a, **kw), "setattr": lambda: setattr(T, at, *a[:1] or [None]), "getattr": lambda: getattr(T, *a[:1] or ["x"]), "delattr": lambda: delattr(T, at),
                "S.misc": lambda: [str(T), repr(T), len(T), list(T), dir(T), hash(T), T == S, T.__sizeof__(), T.__reduce_ex__(2)], "M.misc": lambda: [hash(M), dir(M), M[0] if j % 2 else iter(M), M.__reduce_ex__(2)],
                "new": lambda: [type(T), _internal.Machine, _internal.State][j % 3](*a, **kw)}[f]
        try: r = call(); ok = True
        except (SystemError, MemoryError) as e: fail("%s ends in %s: %s", what, type(e).__name__, e)
        except Exception as e: ok = False; r = None
        finally: flame.setLogLevel(flame.FLAME_WARN)
        labels.add(f + (" ok" if ok else " raises"))
        now = cmp.snap(T)
        if f not in ("propagate", "setattr") or not (ok or f == "propagate"): cmp.same_snap(now, before, what + " changes a state")
        idx = kw.get("index", a[0] if a else None)
        if f == "reconfigure":
            if ok:
                try: good = 0 <= idx < n and int(idx) == idx
                except Exception: good = False
                if not good: fail("%s accepts the element index %r", what, idx)
                if 0 <= idx < n: ref = reference(M); conf0 = [repr(M.conf(i)) for i in range(n)]
        elif f == "propagate" and ok:
            st_, mx = kw.get("start", a[1] if len(a) > 1 else 0), kw.get("max", a[2] if len(a) > 2 else None)
            if isinstance(st_, (float, str)) or (isinstance(st_, int) and not 0 <= st_ < 2 ** 64): fail("%s accepts start=%r", what, st_)
            if isinstance(mx, (float, str)): fail("%s accepts max=%r", what, mx)
        elif f == "allocState" and ok and r is not None and len(ctx["S"]) < 4: ctx["S"].append(r)
        elif f == "clone" and ok and len(ctx["S"]) < 4: ctx["S"].append(r)
        if reference(M)[0] != ref[0]: fail("%s: the machine now gives %s, before %s", what, reference(M)[0], ref[0])
        cmp.same_snap(reference(M)[1], ref[1], what + ": the machine's result")
        if [repr(M.conf(i)) for i in range(n)] != conf0: fail("%s changes the configuration of the machine", what)
        del a, kw, r, call
        if k % 3 == 2: gc.collect()
    return True, sorted(labels)

CHECKS = [Check("views", views_case, views_run, 3000, 80000), Check("views-asan", views_case, views_run, 600, 10000, flavour="asan"), Check("misuse", misuse_case, misuse_run, 5000, 120000, flavour="asan")]
