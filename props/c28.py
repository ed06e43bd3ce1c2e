"""Simulations defined by a user of the library: registration, machines, propagation, lookups, views of their states."""
import ctypes, os, re
import numpy as np
from hypothesis import strategies as st
import build
from core import Check, fail
from gen import chance

RULE = ("Simulation types and element types of a user (state classes with arrays of 0-3 dimensions in any memory order, elements that compute, jump, loop, refuse their configuration or fail while advancing) are "
        "registered at run time, also twice or for unknown simulations; machines are built from configurations and lattice text, propagated over ranges in both directions with observers and a trace, "
        "reconfigured, searched, printed and dropped, in histories of 6-30 operations against a model in Python; their states are read and written through Python and HDF5; "
        "non-trivial = a machine of at least two elements was propagated, or a state with an array of two or more dimensions was viewed.")
ASSUMPTIONS = ["user classes keep the documented contract of StateBase and ElementVoid", "a state is dropped after an error in propagate (documented as undefined)"]
TECHNIQUE = "stateful property-based testing (Hypothesis) of the C++ library through user-defined simulations against a reference model"

NA = ["a", "b", "ab", "a1", "q:x", "zz_9"]
TY = ["add", "mul", "jump", "trip", "plus", "add2"]
SIMS = ["simA", "simB", "Vector", "MomentMatrix", "sim"]
INT_MAX = 2 ** 31 - 1

num = st.one_of(st.integers(-9, 9).map(float), st.sampled_from([0.1, -0.375, 1.5, 1e-3, 12345.678]))

@st.composite
def element(draw, types):
    e = {"name": draw(st.sampled_from(NA)), "type": draw(st.sampled_from(types)), "k": draw(num)}
    if draw(st.booleans()): e["L"] = draw(st.sampled_from([0.0, 0.25, 1.0, 0.1]))
    if draw(st.integers(0, 3)) == 0: e["tag"] = draw(st.sampled_from(["t1", "t2"]))
    e["to"] = float(draw(st.integers(0, 9))); e["times"] = float(draw(st.integers(0, 4)))
    if draw(st.integers(0, 5)): e.pop("to"); 
    return e

@st.composite
def array(draw, top=4):
    nd = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 3])); dim = [draw(st.integers(1, top)) for _ in range(nd)]; sz = draw(st.booleans())
    n = int(np.prod(dim)) if nd else 1
    return {"sz": sz, "dim": dim, "perm": draw(st.integers(0, 5)), "pad": draw(st.sampled_from([0, 0, 1, 3])),
            "data": [float(draw(st.integers(0, 99))) if sz else draw(num) for _ in range(n)]}

@st.composite
def registry(draw):
    regs = []
    for s in draw(st.lists(st.sampled_from(SIMS), min_size=1, max_size=4)):
        regs.append(["state", s, draw(st.integers(0, 1))])
        for _ in range(draw(st.integers(1, 5))):
            regs.append(["elem", s if draw(st.integers(0, 9)) else draw(st.sampled_from(SIMS + ["nosim"])), draw(st.sampled_from(TY if draw(st.integers(0, 5)) else TY + ["drift", "marker"])), draw(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3]))])
    return regs

def known(regs):
    R = {"Vector": None, "MomentMatrix": None, "TransferMatrix": None}
    for r in regs:
        if r[0] == "state": 
            if r[1] not in R: R[r[1]] = [r[2], {}]
        elif R.get(r[1]) and r[2] not in R[r[1]][1]: R[r[1]][1][r[2]] = r[3]
    return {s: v for s, v in R.items() if v and v[1]}

BUILD_BAD = ["sim", "nosim", "noelements", "type", "k", "name", "boom", "lie", "notype"]

@st.composite
def machine(draw, R):
    s = draw(st.sampled_from(sorted(R))); types = sorted(R[s][1])
    els = draw(st.lists(element(types), min_size=0 if draw(st.integers(0, 5)) == 0 else 1, max_size=7))
    if draw(st.integers(0, 29)) == 0: els = els * draw(st.integers(3, 12))
    c = {"sim": s, "els": els, "g": {}, "text": draw(st.integers(0, 3)) == 0}
    if draw(st.integers(0, 3)) == 0: c["g"]["L"] = draw(st.sampled_from([0.5, 2.0]))
    if draw(st.integers(0, 3)) == 0: c["g"]["tag"] = "glob"
    if draw(st.integers(0, 5)) == 0:
        c["g"]["k"] = draw(num)
        for e in els:
            if draw(st.booleans()): e.pop("k", None)
    if draw(st.integers(0, 3)) == 0:
        b = draw(st.sampled_from(BUILD_BAD)); i = draw(st.integers(0, len(els) - 1)) if els else 0
        if els or b in ("sim", "nosim", "noelements"): c["bad"] = b; c["at"] = i
    if c["text"]:                                                              # the language: one definition per name
        c["els"] = [dict(next(f for f in c["els"] if f["name"] == e["name"])) for e in c["els"]]
        if c.get("bad") in ("nosim", "noelements", "name", "notype", "lie") or not c["els"]: c["text"] = False
        if "bad" in c and c["els"]: c["at"] = [e["name"] for e in c["els"]].index(c["els"][c["at"]]["name"])
    return c

@st.composite
def history(draw):
    regs = draw(registry()); R = known(regs)
    if not R: regs = regs + [["state", "simA", 0], ["elem", "simA", "add", 0]]; R = known(regs)
    if not R: R = {}
    ops = []; 
    for _ in range(draw(st.integers(6, 30))):
        k = draw(st.sampled_from(["build", "state", "prop", "prop", "prop", "observe", "trace", "reconf", "reconf", "find", "range", "at", "clone", "assign", "dropm", "drops", "print", "h5"]))
        o = {"op": k, "m": draw(st.integers(0, 9)), "s": draw(st.integers(0, 9)), "i": draw(st.integers(0, 8))}
        if k == "build": o["c"] = draw(machine(R)) if R else None
        elif k == "state": o["acc"] = draw(st.one_of(st.none(), num)); o["arr"] = draw(st.lists(array(), max_size=3)); o["bad"] = draw(st.sampled_from([None] * 8 + ["refuse", "lack"])); o["default"] = draw(st.integers(0, 5)) == 0
        elif k == "prop": o["start"] = draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3, 5, 7, 9])); o["max"] = draw(st.sampled_from([INT_MAX, INT_MAX, -INT_MAX, 0, 1, 2, 3, -1, -2, 5, -5]))
        elif k == "observe": o["mode"] = draw(st.sampled_from([0, 1, 1, 1, 2]))
        elif k == "trace": o["on"] = draw(st.booleans())
        elif k == "reconf": o["e"] = draw(element(TY)); o["keep"] = draw(st.integers(0, 3)) > 0; o["bad"] = draw(st.sampled_from([None] * 6 + ["type", "k", "name", "boom", "notype", "class"]))
        elif k in ("find", "range"): o["name"] = draw(st.sampled_from(TY + NA[:1] if o.get("m", 0) % 3 == 0 else NA + ["", "none", "a:"])); o["nth"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 40])); o["which"] = draw(st.integers(0, 1))
        ops.append(o)
    first = [{"op": "build", "m": 0, "s": 0, "i": 0, "c": draw(machine(R)) if R else None}, {"op": "state", "m": 0, "s": 0, "i": 0, "acc": None, "arr": draw(st.lists(array(), max_size=2)), "bad": None, "default": False}]
    if first[0]["c"] and draw(st.integers(0, 7)):
        first[0]["c"].pop("bad", None)
        if len(first[0]["c"]["els"]) == 1: first[0]["c"]["els"] = first[0]["c"]["els"] * 2
    return {"regs": regs, "ops": first + ops}

# ---- the library
class Lib:
    def __init__(self, path):
        self.L = ctypes.CDLL(path)
        for f in ("reg_state reg_elem cleanup builtin live machine machine_text info print at find range reconf observe trace propagate state clone assign state_get h5").split():
            getattr(self.L, "custom_" + f).restype = ctypes.c_void_p
        Z = ctypes.c_size_t; I = ctypes.c_int; S = ctypes.c_char_p
        for f, a in (("machine_text", [S, Z]), ("at", [I, Z]), ("find", [I, S, Z]), ("reconf", [I, Z, S]), ("observe", [I, Z, I]), ("propagate", [I, I, Z, I]), ("state", [I, S]), ("h5", [S, ctypes.POINTER(I), I])):
            getattr(self.L, "custom_" + f).argtypes = a
        self.L.custom_free.argtypes = [ctypes.c_void_p]
    def __call__(self, f, *a):
        p = getattr(self.L, "custom_" + f)(*[x.encode() if isinstance(x, str) else x for x in a])
        s = ctypes.string_at(p).decode("utf-8", "replace"); self.L.custom_free(p); return s

def lib(env):
    if "lib" not in env.cache: env.cache["lib"] = Lib(env.extras[env.bdir])
    return env.cache["lib"]

def line(k, v):
    if isinstance(v, str): return "%s s %s\n" % (k, v or "~")
    if isinstance(v, list): return "%s v %d %s\n" % (k, len(v), " ".join(repr(float(x)) for x in v))
    return "%s d %r\n" % (k, float(v))
def conf_text(d): return "".join(line(k, v) for k, v in d.items())

def broken(c):
    """the configuration of a build with its one defect"""
    els = [dict(e) for e in c["els"]]; top = {"sim_type": c["sim"], **c["g"]}; b = c.get("bad"); i = c.get("at", 0)
    if b == "sim": top["sim_type"] = "no_such_sim"
    if b == "nosim": top.pop("sim_type")
    if b in ("type", "boom", "lie", "k", "name", "notype"):
        for j, e in enumerate(els):
            if (j == i) if not c["text"] else (e["name"] == els[i]["name"] and True): 
                if b == "type": e["type"] = "no_such_type"
                if b == "boom": e["boom"] = 1.0
                if b == "lie": e["lie"] = 1.0
                if b == "k": e.pop("k", None)
        if b == "k": top.pop("k", None)
        if b == "name": els[i].pop("name")
        if b == "notype": els[i].pop("type")
        if b == "k":                                                          # every other element keeps a value of its own
            for j, e in enumerate(els):
                if j != i and not (c["text"] and e["name"] == els[i]["name"]): e.setdefault("k", 1.0)
    return top, els

def to_lattice(top, els):
    f = lambda v: '"%s"' % v if isinstance(v, str) else repr(float(v))
    t = "".join("%s = %s;\n" % (k, f(v)) for k, v in top.items()); seen = set()
    for e in els:
        if e["name"] in seen: continue
        seen.add(e["name"]); t += "%s : %s%s;\n" % (e["name"], e["type"], "".join(", %s = %s" % (k, f(v)) for k, v in e.items() if k not in ("name", "type")))
    return t + "cell : LINE = (%s);\nUSE: cell;\n" % ", ".join(e["name"] for e in els)

# ---- the model
class MM:
    def __init__(s, h, sim, els, K): s.h, s.sim, s.els, s.K, s.obs, s.trace = h, sim, els, K, {}, False
class MS:
    def __init__(s, h, sim, acc, arr): s.h, s.sim, s.acc, s.hits, s.pos, s.next, s.arr = h, sim, acc, 0, 0.0, 0, arr
def np_arr(a): return np.array(a["data"], dtype=np.uint64 if a["sz"] else float).reshape(a["dim"])

def step(S, e, K, back):
    if K == 0: S.acc += e["k"]; S.arr = [a + (np.uint64(1) if a.dtype == np.uint64 else 1.0) for a in S.arr]
    elif K == 1: S.acc = S.acc * e["k"] + 1
    elif K == 2:
        if S.hits < int(e.get("times", 0)): S.hits += 1; S.next = int(e.get("to", 0))
    elif S.acc > e["k"]: raise RuntimeError("tripped in " + e["name"])
    S.pos += -e.get("L", 0.0) if back else e.get("L", 0.0)

def hexs(x):
    return float(x)

def expect_error(r, kinds, *words):
    if not r.startswith("error "): fail("accepted (%s), expected %s", r, kinds)
    k = r.split(" ", 2)[1]
    if k not in kinds: fail("error %r, expected a %s", r, kinds)
    for w in words:
        if not re.search(r"(?<![0-9A-Za-z_:])%s(?![0-9A-Za-z_:])" % re.escape(w), r): fail("error %r does not name %r", r, w)

def run(case, env):
    L = lib(env); labels = set(); nt = False
    Ms, Ss = [], []
    try:
        return play(case, env, L, Ms, Ss, labels)
    finally:
        for s in Ss: L.L.custom_state_del(s.h)
        for m in Ms: L.L.custom_machine_del(m.h)
        live = L("live"); L("cleanup"); L("builtin")
        if live != "0 0" and env.cache.get("leaked") != live:
            env.cache["leaked"] = live; fail("elements and states alive after everything was dropped: %s", live)

def reg_all(L, regs, R):
    for r in regs:
        if r[0] == "state":
            g = L("reg_state", r[1], r[2])
            if r[1] in R: expect_error(g, ("logic_error",), r[1])
            else:
                if g != "ok": fail("registering %s: %s", r, g)
                R[r[1]] = (r[2], {})
        else:
            g = L("reg_elem", r[1], r[2], r[3])
            if r[1] not in R: expect_error(g, ("logic_error",), r[1], r[2])
            elif r[2] in R[r[1]][1] or (R[r[1]][0] is None and r[2] in ("drift", "marker")): expect_error(g, ("logic_error",), r[1], r[2])
            else:
                if g != "ok": fail("registering %s: %s", r, g)
                R[r[1]][1][r[2]] = r[3]

def check_machine(L, m):
    t = L("info", m.h).split("\n"); w = t[0].split()
    if w != [m.sim, str(len(m.els)), str(len(m.els))]: fail("machine %s, expected %s with %d elements", w, m.sim, len(m.els))
    for i, e in enumerate(m.els):
        g = t[1 + i].split(" ")
        want = [str(i), e["type"], e["name"], float(e.get("L", 0.0)), e["name"], e.get("tag", "-"), "111"]
        if g[:3] != want[:3] or float.fromhex(g[3]) != want[3] or g[4:] != want[4:]: fail("element %d is %s, expected %s", i, g, want)
    r = [int(x) for x in L("range", m.h, "", 2).split()]
    if sorted(r) != list(range(len(m.els))): fail("all_range() gives %s of %d elements", r, len(m.els))

def check_state(L, s, what):
    got = {}
    for l in L("state_get", s.h).split("\n")[:-2]:
        head, vals = l.split(" :"); w = head.split(); got[w[0]] = (w[1] == "1", [int(x) for x in w[3:]], vals.split())
        if int(w[2]) != len(w) - 3: fail("%s: dimensions of %s", what, head)
    want = {"acc": np.array(s.acc), "hits": np.array(s.hits, dtype=np.uint64), "pos": np.array(s.pos), "next_elem": None if s.next is None else np.array(s.next % 2 ** 64, dtype=np.uint64)}
    for n, a in enumerate(s.arr): want["m%d" % n] = a
    if set(want) != set(got): fail("%s: parameters %s, expected %s", what, sorted(got), sorted(want))
    for k, a in want.items():
        if a is None: continue
        z, dim, vals = got[k]
        if z != (a.dtype == np.uint64) or dim != list(a.shape): fail("%s: %s has type %s and shape %s, expected %s %s", what, k, z, dim, a.dtype, a.shape)
        v = [int(x) for x in vals] if z else [float.fromhex(x) for x in vals]
        if v != a.ravel().tolist(): fail("%s: %s = %s, expected %s", what, k, v, a.ravel().tolist())

def play(case, env, L, Ms, Ss, labels):
    R = {"Vector": (None, {}), "MomentMatrix": (None, {}), "TransferMatrix": (None, {})}; nt = False
    reg_all(L, case["regs"], R)
    for n, o in enumerate(case["ops"]):
        k = o["op"]; what = "operation %d (%s)" % (n, k)
        m = Ms[o["m"] % len(Ms)] if Ms else None; s = Ss[o["s"] % len(Ss)] if Ss else None
        before = L("live")
        if k == "build":
            c = o["c"]
            if c is None: continue
            top, els = broken(c); b = c.get("bad"); i = c.get("at", 0)
            if c["text"] and b != "noelements": t = to_lattice(top, els); r = L("machine_text", t.encode(), len(t.encode()))
            else: r = L("machine", conf_text(top) + ("" if b == "noelements" else "elements e %d\n" % len(els) + "".join(conf_text(e) + ";\n" for e in els)))
            if b:
                labels.add("refused build: " + b)
                nm = c["els"][i]["name"] if c["els"] else ""
                if b == "sim": expect_error(r, ("key_error",), "no_such_sim")
                elif b == "nosim": expect_error(r, ("key_error",), "sim_type")
                elif b == "noelements": expect_error(r, ("key_error",), "elements")
                elif b == "type": expect_error(r, ("key_error",), "no_such_type")
                elif b == "notype": expect_error(r, ("key_error",), "type")
                elif b == "k": expect_error(r, ("key_error",), str(i), nm, "k")
                elif b == "name": expect_error(r, ("key_error",), str(i), "name")
                elif b == "boom": expect_error(r, ("runtime_error",), str(i), nm, "boom goes the element")
                else: expect_error(r, ("logic_error",))
                if L("live") != before: fail("%s: a refused machine leaves elements behind: %s, before %s", what, L("live"), before)
                continue
            if not r.startswith("ok "): fail("%s: machine %s refused: %s", what, c, r)
            full = [{**c["g"], **e} for e in els]
            Ms.append(MM(int(r.split()[1]), c["sim"], full, dict(R[c["sim"]][1]))); check_machine(L, Ms[-1])
            if c["text"]: labels.add("from text")
        elif k == "state" and m:
            d = {} if o["default"] else ({} if o["acc"] is None else {"acc": o["acc"]}); arr = [] if o["default"] else o["arr"]
            for q, a in enumerate(arr): d["spec%d" % q] = [float(a["sz"]), len(a["dim"])] + (a["dim"] + [1, 1, 1])[:3] + [a["perm"], a["pad"]]; d["data%d" % q] = a["data"]
            if o["bad"] and not o["default"]:
                r = L("state", m.h, conf_text({**d, o["bad"]: 1.0}))
                expect_error(r, ("key_error",) if o["bad"] == "lack" else ("runtime_error",), "absent_parameter" if o["bad"] == "lack" else "state refused")
                if L("live") != before: fail("%s: a refused state leaves something behind", what)
                continue
            r = L("state", m.h, None if o["default"] else conf_text(d))
            if not r.startswith("ok "): fail("%s: state refused: %s", what, r)
            Ss.append(MS(int(r.split()[1]), m.sim, d.get("acc", 1.0) + (100 if R[m.sim][0] else 0), [np_arr(a) for a in arr])); check_state(L, Ss[-1], what)
        elif k == "prop" and m and s:
            N = len(m.els); back = o["max"] < 0; s.next = o["start"]; views, trace, err = [], [], None; cnt = 0
            try:
                while 0 <= s.next < N and cnt < abs(o["max"]):
                    j = s.next; e = m.els[j]; s.next += -1 if back else 1; cnt += 1
                    step(s, e, m.K[e["type"]], back)
                    if j in m.obs:
                        views.append("view %d %s %s %d %s" % (j, e["name"], float(s.acc).hex(), s.next % 2 ** 64, float(s.pos).hex()))
                        if m.obs[j] == 2: raise RuntimeError("observer objects")
                    if m.trace: trace.append((j, e["name"], s.acc, s.hits))
            except RuntimeError as x: err = str(x)
            g = L("propagate", m.h, s.h, o["start"], o["max"]).split("\n")
            if err is not None:
                labels.add("error while propagating"); expect_error(g[0], ("runtime_error",), err)
            elif g[0] != "ok": fail("%s: %s", what, g[0])
            gv = [v for v in g[1:] if v.startswith("view ")]; gt = [v for v in g[1:] if v and not v.startswith("view ")]
            fixv = lambda v: (v.split(" ")[:3], float.fromhex(v.split(" ")[3]), v.split(" ")[4], float.fromhex(v.split(" ")[5]))
            if [fixv(v) for v in gv] != [fixv(v) for v in views]: fail("%s: observers saw %s, expected %s", what, gv, views)
            if len(gt) != len(trace): fail("%s: trace %s, expected %s", what, gt, trace)
            for t, (j, nm, acc, hits) in zip(gt, trace):
                w = re.search(r"acc=(\S+) hits=(\d+)", t)
                if "[%d]" % j not in t or not re.search(r"(^|\s)%s(\s|$)" % re.escape(nm), t) or not w or float.fromhex(w.group(1)) != acc or int(w.group(2)) != hits: fail("%s: trace line %r, expected [%d] %s %r %d", what, t, j, nm, acc, hits)
            if cnt > 1: nt = True; labels.add("backward" if back else "forward")
            if s.hits: labels.add("jumped")
            if err is not None: Ss.remove(s); L.L.custom_state_del(s.h)
            else: check_state(L, s, what)
        elif k == "observe" and m and m.els:
            j = o["i"] % len(m.els); g = L("observe", m.h, j, o["mode"])
            if g != "ok": fail("%s: %s", what, g)
            if o["mode"]: m.obs[j] = o["mode"]
            else: m.obs.pop(j, None)
        elif k == "trace" and m:
            g = L("trace", m.h, int(o["on"])); m.trace = o["on"]
            if g != "ok": fail("%s: %s", what, g)
        elif k == "reconf" and m:
            j = o["i"]; b = o["bad"]
            if j >= len(m.els) and (o["m"] % 2 or not m.els):
                expect_error(L("reconf", m.h, j, conf_text({**o["e"], "type": "add"})), ("invalid_argument",)); check_machine(L, m); continue
            j %= len(m.els); old = m.els[j]; e = {**o["e"], "type": old["type"]}
            if o["keep"]: e["name"] = old["name"]
            d = dict(e)
            if b == "type": d["type"] = "no_such_type"
            elif b == "boom": d["boom"] = 1.0
            elif b in ("k", "name"): d.pop(b)
            elif b == "notype": d.pop("type")
            elif b == "class":
                other = [t for t, K in sorted(m.K.items()) if K != m.K[old["type"]]]
                if not other: continue
                d["type"] = other[0]
            r = L("reconf", m.h, j, conf_text(d))
            if b:
                labels.add("refused reconfigure")
                expect_error(r, ("invalid_argument", "runtime_error") if b == "boom" else ("runtime_error",) if b == "class" else ("key_error",), *({"type": ["no_such_type"], "notype": ["type"], "k": ["k"], "name": ["name"], "boom": ["boom goes the element"]}.get(b, [])))
            else:
                if r != "ok": fail("%s: %s", what, r)
                m.els[j] = e; labels.add("reconfigured")
                if e["name"] != old["name"]: labels.add("renamed")
            if L("live") != before: fail("%s: reconfiguring changes the number of live elements: %s, before %s", what, L("live"), before)
            check_machine(L, m)
        elif k == "find" and m:
            hits = [i for i, e in enumerate(m.els) if e["name"] == o["name"]]; want = str(hits[o["nth"]]) if o["nth"] < len(hits) else "none"
            g = L("find", m.h, o["name"], o["nth"])
            if g != want: fail("%s: find(%r, %d) gives %s, expected %s", what, o["name"], o["nth"], g, want)
        elif k == "range" and m:
            want = [i for i, e in enumerate(m.els) if e["type" if o["which"] else "name"] == o["name"]]; g = [int(x) for x in L("range", m.h, o["name"], o["which"]).split()]
            if g != want: fail("%s: elements with %s %r: %s, expected %s", what, "type" if o["which"] else "name", o["name"], g, want)
        elif k == "at" and m:
            g = L("at", m.h, o["i"])
            if o["i"] < len(m.els):
                if g != "ok %d" % o["i"]: fail("%s: at(%d) gives %s", what, o["i"], g)
            else: expect_error(g, ("out_of_range",))
        elif k == "print" and m:
            t = L("print", m.h); ls = t.strip("\n").split("\n")
            if m.sim not in ls[0] or not re.search(r"\b%d\b" % len(m.els), "\n".join(ls[:2])): fail("%s: printed head %r of %s with %d elements", what, ls[:2], m.sim, len(m.els))
            body = ls[2:]
            if len(body) != len(m.els): fail("%s: %d lines for %d elements: %r", what, len(body), len(m.els), t)
            for i, (l, e) in enumerate(zip(body, m.els)):
                for w in (str(i), e["name"], e["type"]):
                    if not re.search(r"(?<![0-9A-Za-z_])%s(?![0-9A-Za-z_])" % re.escape(w), l): fail("%s: line %r of element %d %s", what, l, i, e)
        elif k == "clone" and s:
            r = L("clone", s.h)
            if not r.startswith("ok "): fail("%s: %s", what, r)
            c = MS(int(r.split()[1]), s.sim, s.acc, list(s.arr)); c.hits, c.pos, c.next = s.hits, s.pos, s.next; Ss.append(c); check_state(L, c, what)
        elif k == "assign" and s:
            t = Ss[o["i"] % len(Ss)]
            if t.sim != s.sim: continue
            g = L("assign", s.h, t.h)
            if g != "ok": fail("%s: %s", what, g)
            if t is not s: s.acc, s.hits, s.pos, s.arr, s.next = t.acc, t.hits, t.pos, list(t.arr), None
            check_state(L, s, what); check_state(L, t, what)
        elif k == "dropm" and m and len(Ms) > 1:
            Ms.remove(m); L.L.custom_machine_del(m.h)
        elif k == "drops" and s and len(Ss) > 1:
            Ss.remove(s); L.L.custom_state_del(s.h)
        elif k == "h5" and s:
            import h5py
            L2 = [s] + [x for x in Ss if x is not s and [(a.dtype, a.shape) for a in x.arr] == [(a.dtype, a.shape) for a in s.arr]]
            if any(x.next is None or not 0 <= x.next for x in L2): continue
            p = os.path.join(env.scratch, "c28.h5")
            if os.path.exists(p): os.unlink(p)
            g = L("h5", p, (ctypes.c_int * len(L2))(*[x.h for x in L2]), len(L2))
            if g != "ok": fail("%s: writing HDF5: %s", what, g)
            with h5py.File(p, "r") as f:
                cols = {"acc": [x.acc for x in L2], "hits": [x.hits for x in L2], "pos": [x.pos for x in L2], "next_elem": [x.next for x in L2]}
                for q in range(len(s.arr)): cols["m%d" % q] = [x.arr[q] for x in L2]
                if set(f) != set(cols): fail("%s: HDF5 holds %s, expected %s", what, sorted(f), sorted(cols))
                for c, v in cols.items():
                    got = f[c][()]; w = np.array(v)
                    if got.shape != w.shape or got.tolist() != w.tolist(): fail("%s: HDF5 %s = %s, expected %s", what, c, got.tolist(), w.tolist())
            os.unlink(p); labels.add("HDF5")
        live = "%d %d" % (sum(len(x.els) for x in Ms), len(Ss))
        if L("live") != live: fail("%s: %s elements and states are alive, expected %s", what, L("live"), live)
    for m in Ms: check_machine(L, m)
    for s in Ss: check_state(L, s, "at the end")
    return nt, sorted(labels)

# ---- states of such simulations seen from Python
@st.composite
def view_case(draw):
    arr = draw(st.lists(array(5), min_size=1, max_size=4)); ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["set", "set", "scalar", "prop", "clone", "shape"])); o = {"op": k, "q": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 10 ** 6))}
        if k == "scalar": o["name"] = draw(st.sampled_from(["acc", "hits", "pos", "next_elem"])); o["v"] = draw(st.integers(0, 2 ** 40)); o["f"] = draw(num)
        ops.append(o)
    return {"arr": arr, "acc": draw(num), "n": draw(st.integers(1, 4)), "ops": ops, "copy": draw(st.integers(0, 2))}

def view_run(case, env):
    import flame
    L = lib(env); g = L("reg_state", "viewed", 0) + L("reg_elem", "viewed", "add", 0)
    if g != "okok": fail("registering: %s", g)
    M = S = None
    try:
        M = flame.Machine({"sim_type": "viewed", "elements": [{"name": "e%d" % i, "type": "add", "k": 0.5, "L": 0.25} for i in range(case["n"])]})
        d = {"acc": case["acc"]}; arr = []
        for q, a in enumerate(case["arr"]):
            d["spec%d" % q] = [float(a["sz"]), float(len(a["dim"]))] + [float(x) for x in (a["dim"] + [1, 1, 1])[:3]] + [float(a["perm"]), float(a["pad"])]; d["data%d" % q] = a["data"]; arr.append(np_arr(a))
        d = {k: np.array(v) if isinstance(v, list) else v for k, v in d.items()}
        S = M.allocState(d); want = {"acc": case["acc"], "hits": 0, "pos": 0.0, "next_elem": 0, **{"m%d" % q: a for q, a in enumerate(arr)}}
        def check(S, want, what):
            if set(S) != set(want) or len(S) != len(want): fail("%s: the state lists %s, expected %s", what, sorted(S), sorted(want))
            for k, w in want.items():
                v = getattr(S, k)
                if np.ndim(w) == 0:
                    sz = k in ("hits", "next_elem") or getattr(w, "dtype", None) == np.uint64
                    if type(v) is not (int if sz else float) or v != w: fail("%s: %s = %r, expected %r", what, k, v, w)
                elif v.shape != w.shape or v.dtype != w.dtype or v.tolist() != w.tolist(): fail("%s: %s = %r, expected %r", what, k, v, w)
                else:
                    if v.flags.writeable and v.size: v.ravel()[0] = 77; v[...] = 77                       # what is read is a copy
                    if getattr(S, k).tolist() != w.tolist(): fail("%s: writing into the array read from %s changes the state", what, k)
        check(S, want, "new state"); others = []
        for n, o in enumerate(case["ops"]):
            what = "operation %d (%s)" % (n, o["op"]); q = "m%d" % (o["q"] % len(arr)); w = want[q]; r = np.random.RandomState(o["seed"])
            if o["op"] in ("set", "shape"):
                if np.ndim(w) == 0:
                    v = int(r.randint(0, 2 ** 31)) if w.dtype == np.uint64 else float(r.randint(-99, 99)) / 8
                    setattr(S, q, v); want[q] = np.array(v, dtype=w.dtype)
                else:
                    v = r.randint(0, 10 ** 6, w.shape).astype(w.dtype)
                    if w.dtype == float: v = v / 8
                    if o["op"] == "set":
                        f = [v, v.tolist(), np.asfortranarray(v), v[::-1].copy()[::-1]][r.randint(4)]
                        if w.dtype == np.uint64 and isinstance(f, list): f = v
                        setattr(S, q, f); want[q] = v.copy()
                    else:
                        bad = [v.ravel()[:-1] if v.ndim == 1 else v[:-1], np.concatenate([v, v]), v[None], v[0] if v.ndim > 1 else v[None, None]][r.randint(4)]
                        try: setattr(S, q, bad)
                        except (ValueError, RuntimeError, TypeError): pass
                        else: fail("%s: %s of shape %s takes an array of shape %s", what, q, v.shape, bad.shape)
            elif o["op"] == "scalar":
                v = o["v"] if o["name"] in ("hits", "next_elem") else o["f"]
                setattr(S, o["name"], v); want[o["name"]] = v
            elif o["op"] == "prop":
                M.propagate(S)
                for _ in range(case["n"]): want["acc"] += 0.5; want["pos"] += 0.25
                for k in list(want):
                    if k[0] == "m": want[k] = want[k] + (np.uint64(case["n"]) if want[k].dtype == np.uint64 else 0.0)
                    if k[0] == "m" and want[k].dtype == float:
                        for _ in range(case["n"]): want[k] = want[k] + 1.0
                want["next_elem"] = case["n"]
            else:
                others.append((S, want)); S = S.clone(); want = dict(want)
            check(S, want, what)
        for T, w in others: check(T, w, "the state a clone was taken of")
    finally:
        M = S = None; T = others = None
        import gc; gc.collect()
        L("cleanup"); L("builtin")
    return any(len(a["dim"]) > 1 for a in case["arr"]), ["%d-dimensional" % max(len(a["dim"]) for a in case["arr"])]

def prepare(bdirs): return {b: build.build_harness("custom_ops", b, f, shared=True) for f, b in bdirs.items()}

CHECKS = [Check("history", history, run, 2500, 60000), Check("memory", history, run, 400, 8000, flavour="asan"), Check("views", view_case, view_run, 600, 12000)]
