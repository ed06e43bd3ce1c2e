import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl

RULE = ("A lattice of any simulation type and 3-10 operations: reconfigure any element with some properties of a newly drawn element of its type (merge) or all of them "
        "(replace), invalid reconfigurations (bad index, wrong value type, other element type, unusable option), propagations over any range; after every "
        "operation the reported configuration of every element, and after every propagation the result, are compared with a machine newly built from the lattice "
        "as edited; non-trivial = a propagation passed an element reconfigured after an earlier propagation had passed it.")
ASSUMPTIONS = ["a replacing reconfiguration is given complete properties (it drops inherited globals by design)", "equality to 1e-12 of each array's largest entry"]
TECHNIQUE = "stateful property-based testing (Hypothesis): edited machine vs machine rebuilt from the edited lattice"
BEAM = ("IonEs", "IonEk", "IonChargeStates", "NCharge", "SampleFreq", "IonZ")

def new_props(draw, g, e):
    """another element of the same type"""
    t = e["type"]
    if t == "rfcavity": return draw(gencav.cavity(g))
    if t == "stripper": return draw(gencav.stripper(g))
    if t == "source":
        h = draw(gen.beam(nmax=3, Ek=(3e5, 1e8), spread=0.2, energy=0.02))
        return dict(h, type="source")
    return draw(gen.element(g, (t,), mis=0.5, curves=0.2))

def new_linear(draw, c, e):
    d = draw(hist.linear_lattice(nmax=1))
    n = {"type": e["type"], "L": draw(fl(0, 2)), "K": draw(fl(-2, 2)), "phi": draw(fl(-2, 2)), "transfer": [draw(fl(-2, 2)) for _ in range(36)],
         "initial": [draw(fl(-2, 2)) for _ in c["g"]["initial"]]}
    return n

BAD = [("L", "abc"), ("L", [1.0]), ("type", "drift"), ("type", "quadrupole"), ("type", "nosuch"), ("dx", "x"), ("HdipoleFitMode", 7.0), ("HdipoleFitMode", "q"),
       ("name", 4.0), ("cavtype", "nosuch"), ("Eng_Data_Dir", "/nonexistent"), ("f", "x"), ("phi", "x"), ("matrix", [1.0, 2.0]), ("transfer", [0.0] * 40),
       ("NCharge", [1.0]), ("IonChargeStates", "x"), ("initial", [0.0] * 40), ("skipcache", "x"), ("MpoleLevel", -1.0), ("cstate", 9.0)]

@st.composite
def strat(draw, linear=False, cav=0.5):
    c = dict(draw(hist.linear_lattice() if linear else hist.moment_lattice(cav=cav, broken=0.08)))
    n = len(c["els"]); ops = []
    if draw(st.integers(0, 3)) == 3:                       # repeated names
        c["els"] = [dict(e, name="e%d" % (i % 2)) for i, e in enumerate(c["els"])]
    for _ in range(draw(st.integers(2, 6))):
        i = draw(st.integers(0, n - 1)); e = c["els"][i]; k = draw(st.integers(0, 9))
        if k == 9:
            key, v = draw(st.sampled_from(BAD))
            ops.append({"op": "reconf", "i": i if draw(st.integers(0, 3)) else n + draw(st.integers(0, 3)), "d": {key: v}, "replace": False})
        else:
            new = new_linear(draw, c, e) if linear else new_props(draw, c["g"], e)
            rep = k >= 7
            keys = [x for x in sorted(new) if x not in ("type", "_files", "name")]
            if not rep and keys and "_files" not in new:
                keys = draw(st.lists(st.sampled_from(keys), unique=True, min_size=1, max_size=len(keys)))
            d = dict((x, new[x]) for x in keys)
            if "_files" in new: d["_files"] = new["_files"]
            if rep:
                d["type"] = e["type"]; d["name"] = e["name"]
                if e["type"] in ("source", "stripper") and not linear:
                    for b in c["g"]: d.setdefault(b, c["g"][b])
            elif draw(st.integers(0, 5)) == 5: d["skipcache"] = draw(st.sampled_from([0.0, 1.0]))
            if draw(st.integers(0, 7)) == 7: d["name"] = draw(st.sampled_from(["e0", "e1", "new"]))
            ops.append({"op": "reconf", "i": i, "d": d, "replace": rep})
        w = draw(st.integers(0, 4))
        if w <= 3:      # usually pass the element just edited, usually from the same state as before
            o = draw(hist.prop_op(n))
            if w <= 2: o.update(s=0, start=0 if w else min(i, n - 1), max=99)
            ops.append(o)
    if draw(st.booleans()): ops.insert(0, {"op": "prop", "s": 0, "start": 0, "max": 99, "obs": []})
    c["ops"] = ops
    return c

def arr(v):
    if isinstance(v, (list, tuple, np.ndarray)): return np.array(v, float)
    return v

def same_conf(a, b, what):
    if set(a) != set(b): fail("%s: reported keys differ: %s", what, sorted(set(a) ^ set(b)))
    for k in a:
        x, y = arr(a[k]), arr(b[k])
        ok = np.array_equal(x, y) if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else x == y
        if not ok: fail("%s: %s reported as %r, expected %r", what, k, a[k], b[k])

def run(case, env):
    import flame
    sim = case.get("sim", "MomentMatrix")
    c = gencav.materialize(case, env); els = [dict(e) for e in c["els"]]; n = len(els)
    fresh = lambda els: flame.Machine(gen.conf(dict(c, els=els), sim))
    M = flame.Machine(gen.conf(c, sim)); pool = [M.allocState()]
    replaced = set(); labels = set(); nt = False; passed = set(); edited = set()
    for k, op in enumerate(case["ops"]):
        w = "op %d %s" % (k, {x: y for x, y in op.items() if x != "d"} if op["op"] != "prop" else op)
        if op["op"] == "reconf":
            i = op["i"]; d = dict(op["d"]); files = d.pop("_files", None)
            if files is not None: d = gencav.materialize({"els": [dict(d, _files=files)]}, env)["els"][0]
            elif d.get("Eng_Data_Dir") == gencav.DATA: d = gencav.materialize({"els": [d]}, env)["els"][0]
            pd = dict((x, np.array(y, float) if isinstance(y, list) else y) for x, y in d.items())
            try:
                M.reconfigure(i, pd, replace=True) if op["replace"] else M.reconfigure(i, pd); err = None
            except Exception as e: err = "%s: %s" % (type(e).__name__, e)
            want = None
            if i >= n: want = "index"
            elif d.get("type", els[i]["type"]) != els[i]["type"]: want = "type change"
            else:
                new = dict(d) if op["replace"] else dict(els[i], **d)
                try: fresh(els[:i] + [new] + els[i + 1:])
                except Exception as e: want = "%s: %s" % (type(e).__name__, e)
            if (err is None) != (want is None): fail("%s with %r: reconfigure: %s; building the edited lattice: %s", w, d, err or "accepted", want or "accepted")
            if err is None:
                els[i] = new; edited.add(i)
                if op["replace"]: replaced.add(i)
                labels.add("%s %s" % ("replace" if op["replace"] else "merge", els[i]["type"]))
            else: labels.add("rejected")
            F = fresh(els)
            for j in range(n):
                want = dict(F.conf(j)) if j not in replaced else None
                if want is None:
                    if j == i and op["replace"] and err is None: want = els[j]
                    else: continue
                same_conf(dict(M.conf(j)), want, "%s: conf(%d)" % (w, j))
            for nm in ("e0", "e1", "e2", "new"):
                if list(M.find(name=nm)) != list(F.find(name=nm)): fail("%s: find(%r) gives %s, expected %s", w, nm, M.find(name=nm), F.find(name=nm))
            for t in set(e["type"] for e in els):
                if list(M.find(type=t)) != list(F.find(type=t)): fail("%s: find(type=%r)", w, t)
        else:
            S = pool[op["s"] % len(pool)].clone(); start = op["start"] % n
            S2 = S.clone(); obs = [o % n for o in op["obs"]]
            e1, r1 = hist.propagate(M, S, start, op["max"], obs)
            rng = range(start, min(n, start + op["max"])) if op["max"] >= 0 else range(start, max(-1, start + op["max"]), -1)
            if op["max"] < 0 and any(els[j]["type"] == "rfcavity" for j in rng): pass
            else:
                F = fresh(els)
                e2, r2 = hist.propagate(F, S2, start, op["max"], obs)
                if e1 != e2: fail("%s: edited machine: %s; rebuilt machine: %s", w, e1 or "no error", e2 or "no error")
                cmp.same_snap(cmp.snap(S), cmp.snap(S2), w + " final state", 1e-12)
                if [i for i, _ in r1] != [i for i, _ in r2]: fail("%s: observed %s, expected %s", w, [i for i, _ in r1], [i for i, _ in r2])
            for j in rng:
                if j in edited and j in passed: nt = True
                passed.add(j)
            pool.append(S)
    return nt, labels

CHECKS = [Check("edit", strat, run, 2400, 40000), Check("edit_static", lambda: strat(cav=0.0), run, 1600, 30000),
          Check("edit_linear", lambda: strat(True), run, 600, 8000, shards=4)]
