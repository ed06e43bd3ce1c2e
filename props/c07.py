"""C07: configurations behave as independent values with scoped lookup (model-based, C++ API through a small shared library)."""
import ctypes
from hypothesis import strategies as st
import build
from core import Check, fail
from gen import chance

TECHNIQUE = "model-based stateful property testing (Hypothesis operation sequences on the C++ Config API against a Python model of scoped dictionaries)"
RULE = "a case is non-trivial if a configuration is written, or its scope changed, after it was copied, assigned or given as parent or nested value"
ASSUMPTIONS = ["operations are run on four Config objects in one thread", "NaN is not generated"]
NR = 4
NAMES = ["a", "b", "L", "name", "", "type", "elements", "x" * 40, "long_property_" * 25, "long_property_" * 25 + "2"]
DEF = {"d": 0.0, "s": "", "v": [], "c": []}
lit = st.one_of(st.sampled_from([0.0, 1.0, -1.5, 1e300, 5e-324]), st.floats(allow_nan=False))

@st.composite
def value(draw):
    t = draw(st.sampled_from("dsvc"))
    if t == "d": return ["d", draw(lit)]
    if t == "s": return ["s", draw(st.sampled_from(["", "x", "quad", "a b\n\"", "é"]))]
    if t == "v": return ["v", draw(st.lists(lit, max_size=3))]
    return ["c", draw(st.lists(st.integers(0, NR - 1), max_size=3))]

def op(names=NAMES, nr=NR):
    r = st.integers(0, nr - 1); n = st.sampled_from(names)
    wr = st.sampled_from(["set", "set", "setany", "swapany", "swap"]); rd = st.sampled_from(["get", "getd", "try"])
    return st.one_of(st.tuples(wr, r, n, value()), st.tuples(wr, r, n, value()), st.tuples(rd, r, n, value()), st.tuples(st.sampled_from(["any", "tryany"]), r, n),
                     st.tuples(st.sampled_from(["assign", "copy", "exchange", "scope"]), r, r), st.tuples(st.sampled_from(["push", "flatten", "iter", "push", "flatten", "new", "reserve", "show"]), r),
                     st.tuples(st.just("sub"), r, n, r, st.integers(0, 2)))

@st.composite
def case(draw):
    """often few names and objects, so that definitions of different scopes meet; in the end every object and its enclosing scopes are read"""
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4)) if draw(st.integers(0, 3)) else NAMES; nr = draw(st.sampled_from([NR, NR, 2, 1]))
    ops = [list(o) for o in draw(st.lists(op(names, nr), min_size=3, max_size=25))]
    # layers: definitions in nested scopes of one object
    if draw(st.integers(0, 2)) == 2:
        r = draw(st.integers(0, nr - 1)); k = draw(st.integers(0, len(ops))); lay = []
        for _ in range(draw(st.integers(2, 4))):
            for n in draw(st.lists(st.sampled_from(names), max_size=4, unique=True)): lay.append(["set", r, n, draw(value())])
            lay.append(draw(st.sampled_from([["push", r], ["push", r], ["scope", (r + 1) % nr, r]])))
            if lay[-1][0] == "scope": r = lay[-1][1]
        ops[k:k] = lay
    for r in range(nr): ops += [["iter", r]] + [["any", r, n] for n in sorted(set(names))[:6]] + [["flatten", r], ["iter", r]]
    return {"ops": ops}

class Conf:
    def __init__(self, v=None, imp=None): self.v, self.imp = dict(v or {}), dict(imp or {})
    def copy(self): return Conf(self.v, self.imp)
    def find(self, n): return self.v[n] if n in self.v else self.imp.get(n)
    def scope(self): return Conf({}, {**self.imp, **self.v})

def hx(s): return "x" + s.encode().hex()
def num(x): return "%r" % float(x)
def dump(c): return " ; ".join("%s %s" % (hx(n), dval(c.v[n])) for n in sorted(c.v, key=lambda s: s.encode()))
def cnum(x): return ("-" if x < 0 or (x == 0 and str(x)[0] == "-") else "") + "inf" if x in (float("inf"), float("-inf")) else float(x).hex()
def dval(v):
    t, x = v
    if t == "d": return "d @" + cnum(x)
    if t == "s": return "s " + hx(x)
    if t == "v": return " ".join(["v %d" % len(x)] + ["@" + cnum(y) for y in x])
    return " ".join(["c %d" % len(x)] + ["{ %s }" % dump(y) for y in x])

def canon(line):
    """hexadecimal floats of C to Python's spelling"""
    out = []
    for w in line.split(" "):
        if w.lstrip("-")[:2] == "0x" or w in ("inf", "-inf"): w = "@" + cnum(float.fromhex(w))
        out.append(w)
    return " ".join(out)

def protocol(ops):
    L = []
    for o in ops:
        w = [o[0], str(o[1])]
        if o[0] in ("assign", "copy", "exchange", "scope"): w.append(str(o[2]))
        elif len(o) > 2:
            w.append(hx(o[2]))
            if o[0] == "sub": w += [str(o[3]), str(o[4])]
            elif len(o) > 3:
                t, x = o[3]; w.append(t)
                if t == "d": w.append(float(x).hex())
                elif t == "s": w.append(hx(x))
                else: w += [str(len(x))] + [float(y).hex() if t == "v" else str(y) for y in x]
        L.append(" ".join(w))
    return "\n".join(L) + "\n"

KEY = object()

def model(ops):
    R = [Conf() for _ in range(NR)]; out = []; shared = set(); interesting = False
    for o in ops:
        k, r = o[0], o[1]; c = R[r]; res = "ok"
        if k in ("assign", "copy"): R[r] = R[o[2]].copy(); shared |= {r, o[2]}
        elif k == "exchange": R[r], R[o[2]] = R[o[2]], R[r]
        elif k == "scope": R[r] = R[o[2]].scope(); shared |= {r, o[2]}
        elif k == "new": R[r] = Conf()
        elif k == "push": R[r] = c.scope(); interesting |= r in shared
        elif k == "flatten": R[r] = Conf({**c.imp, **c.v}); interesting |= r in shared and bool(c.imp)
        elif k == "iter": res = dump(c)
        elif k in ("reserve", "show"): pass
        else:
            n = o[2]; f = c.find(n)
            if k == "any": res = dval(f) if f else KEY
            elif k == "tryany": res = "1 " + dval(f) if f else "0 d @" + cnum(42.5)
            elif k == "sub":
                if not f or f[0] != "c": res = KEY
                elif not f[1]: res = "range"
                else: R[o[3]] = f[1][o[4] % len(f[1])].copy(); shared |= {r, o[3]}
            else:
                v = o[3]
                if v[0] == "c": shared |= set(v[1]); v = ["c", [R[i].copy() for i in v[1]]]
                if k == "get": res = (dval(f) if f[0] == v[0] else KEY) if f else KEY
                elif k == "getd": res = dval(f) if f and f[0] == v[0] else dval(v)
                elif k == "try": res = "1 " + dval(f) if f and f[0] == v[0] else "0 " + dval(v)
                else:
                    old = c.v.get(n); interesting |= r in shared
                    c.v[n] = v
                    if k == "swap": res = dval(old) if old and old[0] == v[0] else dval([v[0], DEF[v[0]]])
                    if k == "swapany": res = dval(old) if old else None   # whatever an empty value is
        out.append(res)
    return out, R, interesting

def run(case, env):
    if "lib" not in env.cache:
        L = ctypes.CDLL(env.extras[env.bdir]); L.config_ops.restype = ctypes.c_void_p; L.config_ops.argtypes = [ctypes.c_char_p, ctypes.c_uint]
        L.config_free.argtypes = [ctypes.c_void_p]; env.cache["lib"] = L
    L = env.cache["lib"]; p = L.config_ops(protocol(case["ops"]).encode(), NR)
    got = ctypes.string_at(p).decode().split("\n"); L.config_free(p)
    want, R, interesting = model(case["ops"])
    for i, (o, w) in enumerate(zip(case["ops"], want)):
        g = got[i]
        if w is KEY:
            if not g.startswith("key_error x"): fail("operation %d %s gives '%s', not a key error", i, o, g)
            if len(g) < 14: fail("operation %d %s: empty error message", i, o)
        elif w is not None and canon(g) != w: fail("operation %d %s gives '%s', expected '%s'", i, o, g, w)
    for i, c in enumerate(R):
        if canon(got[len(want) + i]) != dump(c): fail("in the end object %d holds '%s', expected '%s'", i, got[len(want) + i], dump(c))
    return interesting, sorted({o[0] for o in case["ops"]})

def prepare(bdirs): return {b: build.build_harness("config_ops", b, f, shared=True) for f, b in bdirs.items()}

CHECKS = [Check("ops", case, run, 24000, 600000), Check("ops-asan", case, run, 4000, 100000, flavour="asan")]
