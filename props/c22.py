import random
from collections import OrderedDict
import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl, chance

RULE = ("A lattice of 1-8 element uses over 1-5 definitions (all simulation types, repeated names, names that are prefixes of each other, own properties shadowing globals, extra user properties of every "
        "value type) is given to Machine as text, str, dictionary with shuffled keys, list of pairs, parsed configuration, conf() of another machine and printed-and-reparsed text: same length, same "
        "per-element configuration (own over globals), same find() answers as a plain scan, bit-identical propagation; unsupported types are rejected; non-trivial = at least two element uses.")
ASSUMPTIONS = ["numbers have at most 6 significant digits, the printer's precision", "names follow the lattice language"]
TECHNIQUE = "differential property-based testing (Hypothesis) across input forms plus a scan model of the lookups"

def r6(v):
    if isinstance(v, bool): return v
    if isinstance(v, float): return float("%.6g" % v)
    if isinstance(v, list): return [r6(x) for x in v]
    if isinstance(v, dict): return {k: r6(x) for k, x in v.items()}
    return v

SUFFIX = ["", "", "0", "1", "00", "9", "99", "a", "A", "b", "_", "_a", ":b", ":1", "Z", "z", "zz"]
@st.composite
def names_of(draw, n):
    """unique names, mostly of a few families (one name continued in different ways)"""
    bases = draw(st.lists(st.sampled_from(["a", "q", "A", "d1", "S1:q", "quad", "drift", "source", "longer_name_of_an_element", "type1", "el9"]), min_size=1, max_size=3))
    return draw(st.lists(st.tuples(st.sampled_from(bases), st.sampled_from(SUFFIX), st.sampled_from(["", "", "", "1", "b"])).map("".join), min_size=n, max_size=n, unique=True))
EXTRA = ["aper", "ProcessName", "note", "zz", "tag", "vals", "AB9"]

@st.composite
def extra(draw):
    k = draw(st.integers(0, 5))
    if k == 4: return draw(st.sampled_from([1e16, 123457e10, 1e300, 2.0 ** 60 // 1e14 * 1e14, -4e15, 1e-300]))
    if k == 5 and draw(st.integers(0, 2)) == 0: return "long text " * draw(st.integers(20, 400))
    return r6(draw(fl(-1e6, 1e6))) if k == 0 else draw(st.sampled_from(["", "x", "a b", "1.5", "with 'quote'", "semi;colon"])) if k == 1 else [r6(draw(fl(-9, 9))) for _ in range(draw(st.integers(0, 4)))] if k == 2 else float(draw(st.integers(-9, 9)))

@st.composite
def strat(draw):
    lin = chance(draw, 0.4)
    c = dict(draw(hist.linear_lattice(nmax=4) if lin else hist.moment_lattice(cav=0.1, broken=0.0, nmax=4)))
    c.setdefault("sim", "MomentMatrix")
    names = draw(names_of(len(c["els"])))
    defs = [r6(dict(e, name=n)) for e, n in zip(c["els"], names)]
    c["g"] = r6(c["g"])
    for k in draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=3)): c["g"][k] = draw(extra())
    for e in defs:
        for k in draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=2)): e[k] = draw(extra())
    if draw(st.booleans()) and not lin: c["g"]["L"] = 0.25
    use = [draw(st.integers(0, len(defs) - 1)) for _ in range(draw(st.integers(1, 8)))] if draw(st.booleans()) else list(range(len(defs)))
    if draw(st.integers(0, 19)) == 0: use = use * draw(st.integers(9, 40))         # a long lattice
    c["els"] = defs; c["use"] = use
    c["shuf"] = draw(st.integers(0, 10 ** 6)); c["sub"] = draw(st.integers(0, 3))
    c["start"] = draw(st.integers(0, len(use) - 1)); c["rev"] = draw(st.booleans())
    return c

def shuffled(d, r):
    L = list(d.items()); r.shuffle(L); return L

def eqv(a, b):
    if isinstance(a, (list, np.ndarray)) or isinstance(b, (list, np.ndarray)):
        return not isinstance(a, str) and not isinstance(b, str) and np.array_equal(np.atleast_1d(np.array(a, float)) if np.ndim(a) else np.array([a]), np.array(b, float)) and np.ndim(a) == np.ndim(b)
    return type(a) == type(b) and a == b

def layout(a, r):
    """the same array in another memory layout or type"""
    k = r.randrange(6)
    if k == 0: return np.asfortranarray(a)
    if k == 1: z = np.full([2 * n for n in a.shape], 7.0); w = z[tuple(slice(0, None, 2) for _ in a.shape)]; w[...] = a; return w
    if k == 2: return a.astype(">f8")
    if k == 3: z = a.copy(); z.flags.writeable = False; return z
    if k == 4: return a[::-1].copy()[::-1]
    return a if not (a == np.rint(a)).all() or np.abs(a).max(initial=0) > 1e9 else a.astype(r.choice([np.int64, np.int32, np.float32]))

def square(C, r):
    """vectors as arrays of other layouts, those of square length sometimes as matrices"""
    def f(v):
        if not isinstance(v, np.ndarray): return v
        if v.size in (36, 49) and r.random() < 0.7: v = v.reshape(int(v.size ** 0.5), -1)
        elif v.size and v.size % 2 == 0 and r.random() < 0.3: v = v.reshape(2, -1)
        return layout(v, r)
    D = {k: f(v) for k, v in C.items() if k != "elements"}; D["elements"] = [{k: f(v) for k, v in e.items()} for e in C["elements"]]
    return D

def forms(c):
    """(label, configuration object) in every input form"""
    import flame
    r = random.Random(c["shuf"]); sim = c["sim"]
    T = gen.text(c, sim)
    if c["rev"]:      # the line given as the reverse of the reversed one
        T = T.replace("USE: cell;\n", "").replace("cell: LINE = (%s);" % ", ".join(e["name"] for e in c["els"]), "rr: LINE = (%s);\ncell: LINE = (-rr);\nUSE: cell;" % ", ".join(e["name"] for e in reversed(c["els"])))
    C = gen.conf(c, sim)
    yield "text", T.encode()
    yield "str", T
    yield "dict", C
    yield "shuffled dict", dict(shuffled(dict(C, elements=[dict(shuffled(e, r)) for e in C["elements"]]), r))
    yield "square arrays", square(C, r)
    yield "list", shuffled(dict(C, elements=[shuffled(e, r) for e in C["elements"]]), r)
    P = flame.GLPSParser().parse(T.encode())
    yield "parsed", P
    yield "parsed dict", OrderedDict(P)
    yield "conf() of a machine", flame.Machine(T.encode()).conf()
    yield "printed", flame.GLPSPrinter(P).encode()
    yield "printed dict", flame.GLPSPrinter(C).encode()

def run(case, env):
    import flame
    c = gencav.materialize(case, env); c["els"] = [dict(c["els"][i]) for i in case["use"]]; n = len(c["els"]); g = dict(c["g"], sim_type=c["sim"])
    base = None; seen = []
    for label, conf in forms(c):
        try: M = flame.Machine(conf)
        except Exception as e: fail("machine from %s rejected: %s: %s", label, type(e).__name__, e)
        if len(M) != n: fail("machine from %s has %d elements, expected %d", label, len(M), n)
        for i, e in enumerate(c["els"]):
            got = dict(M.conf(i)); want = dict(g); want.update(e)
            if set(got) - {"elements"} != set(want): fail("machine from %s: element %d has keys %s, expected %s", label, i, sorted(got), sorted(want))
            for k in want:
                if not eqv(got[k], want[k]): fail("machine from %s: element %d %s=%r, expected %r", label, i, k, got[k], want[k])
        top = dict(M.conf())
        for k in g:
            if not eqv(top.get(k), g[k]): fail("machine from %s: global %s=%r, expected %r", label, k, top.get(k), g[k])
        if len(top["elements"]) != n: fail("machine from %s: conf() lists %d elements", label, len(top["elements"]))
        for e, d in zip(c["els"], top["elements"]):
            if dict(d)["name"] != e["name"] or dict(d)["type"] != e["type"]: fail("machine from %s: conf() element order", label)
        names = sorted({e["name"] for e in c["els"]}); types = sorted({e["type"] for e in c["els"]})
        for q in names + [x + "_" for x in names] + [x[:-1] for x in names] + ["nothere", ""]:
            w = [i for i, e in enumerate(c["els"]) if e["name"] == q]
            if M.find(name=q) != w: fail("machine from %s: find(name=%r) = %s, expected %s", label, q, M.find(name=q), w)
        for q in types + [x[:-1] for x in types] + ["nothere", ""]:
            w = [i for i, e in enumerate(c["els"]) if e["type"] == q]
            if M.find(type=q) != w: fail("machine from %s: find(type=%r) = %s, expected %s", label, q, M.find(type=q), w)
        if sorted(M.find()) != list(range(n)): fail("machine from %s: find() = %s", label, M.find())
        try: M.find(name=names[0], type=types[0])
        except ValueError: pass
        else: fail("find(name, type) accepted")
        S = M.allocState(); err, ob = hist.propagate(M, S, case["start"], 99, [n - 1, case["start"]])
        res = (bool(err), [(i, cmp.snap(s)) for i, s in ob], cmp.snap(S))
        if base is None: base = res; bl = label
        else:
            if res[0] != base[0]: fail("propagation with %s %s, with %s %s", label, err, bl, base[0])
            if [i for i, _ in res[1]] != [i for i, _ in base[1]]: fail("observations with %s", label)
            for (i, a), (_, b) in zip(res[1], base[1]): cmp.same_snap(a, b, "state after element %d, machine from %s vs %s" % (i, label, bl))
            cmp.same_snap(res[2], base[2], "final state, machine from %s vs %s" % (label, bl))
    return n > 1, [c["sim"], "repeated" if len({e["name"] for e in c["els"]}) < n else "unique", "error" if base[0] else "ran"]

# ---- rejections
@st.composite
def strat_err(draw):
    lin = draw(st.booleans())
    c = dict(draw(hist.linear_lattice(nmax=3) if lin else hist.moment_lattice(cav=0.0, broken=0.0, nmax=3))); c.setdefault("sim", "MomentMatrix")
    c["k"] = draw(st.sampled_from(["sim", "nosim", "simtype", "etype", "other", "noetype", "typetype", "noname", "noelements", "elementstype"])); c["i"] = draw(st.integers(0, 9)); c["text"] = draw(st.booleans())
    c["bad"] = draw(st.sampled_from(["", "Drift", "drift ", "foo", "momentmatrix", "Vector1", "vector"]))
    return c

def run_err(case, env):
    import flame
    c = dict(case, els=[dict(e) for e in case["els"]]); k = c["k"]; i = c["i"] % len(c["els"]); sim = c["sim"]
    if k == "etype": c["els"][i]["type"] = c["bad"] if c["bad"] not in ("", "drift ") or not c["text"] else "foo"
    if k == "other": c["els"][i]["type"] = "generic" if sim == "MomentMatrix" else "rfcavity"
    text = c["text"] and k not in ("noetype", "noname", "typetype", "noelements", "elementstype")
    if k == "sim": sim = c["bad"]
    if text:
        T = gen.text(c, sim)
        if k == "nosim": T = T.split("\n", 1)[1]
        if k == "simtype": T = "sim_type = 3;\n" + T.split("\n", 1)[1]
        conf = T.encode()
    else:
        conf = gen.conf(c, sim); e = conf["elements"][i]
        if k == "nosim": del conf["sim_type"]
        if k == "simtype": conf["sim_type"] = 3.0
        if k == "noetype": del e["type"]
        if k == "typetype": e["type"] = 4.0
        if k == "noname": del e["name"]
        if k == "noelements": del conf["elements"]
        if k == "elementstype": conf["elements"] = 5.0
    try: M = flame.Machine(conf)
    except (KeyError, ValueError, RuntimeError): return True, [k]
    fail("machine accepted a configuration with %s wrong (%s)", k, conf if text else {a: b for a, b in conf.items() if a in ("sim_type",)})

CHECKS = [Check("forms", strat, run, 1200, 20000), Check("rejected", strat_err, run_err, 600, 5000, shards=2)]
