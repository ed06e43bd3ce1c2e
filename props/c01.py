import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl

RULE = ("A lattice (every element type: static, sextupole, stripper, cavities with generated or shipped data, sometimes an element whose required "
        "property is missing) and a history of 3-10 operations on one long-lived machine: propagate any pool state over any range in either direction with "
        "observers, derive a state differing in one attribute, repeat a call with one thing changed; every propagate is compared (result, error, observed "
        "states) with the same call on a newly built machine; non-trivial = at least two propagations visited a common element.")
ASSUMPTIONS = ["backward passes through a cavity need a preceding forward pass by design: executed as history, not compared",
               "equality to 1e-12 of each array's largest entry"]
TECHNIQUE = "stateful property-based testing (Hypothesis): long-lived machine vs freshly built machine after every operation of a generated history"

def ranges_cavity(case, start, mx):
    els = case["els"]; n = len(els)
    if mx >= 0: return False
    lo = max(-1, start + mx)
    return any(els[i]["type"] == "rfcavity" for i in range(start, lo, -1) if 0 <= i < n)

def run(case, env):
    import flame
    sim = case.get("sim", "MomentMatrix")
    c = gencav.materialize(case, env)
    conf = gen.conf(c, sim)
    M = flame.Machine(conf)
    n = len(c["els"])
    pool = [M.allocState()]
    visited = {}; labels = set(); nt = False
    for k, op in enumerate(case["ops"]):
        w = "op %d %r" % (k, op)
        S = pool[op["s"] % len(pool)].clone()
        if op["op"] == "set":
            S = hist.tweak(S, op); labels.add("set " + op["attr"])
        elif op["op"] == "alloc":
            if sim != "MomentMatrix" or len(c["g"]["IonChargeStates"]) <= op["cs"]: continue
            S = M.allocState({"cstate": float(op["cs"])}, inherit=True); labels.add("one charge state")
        else:
            start, mx = op["start"] % n, op["max"]
            S2 = S.clone()
            obs = [o % n for o in op.get("obs", [])]
            e1, r1 = hist.propagate(M, S, start, mx, obs)
            if ranges_cavity(c, start, mx):
                labels.add("backward through cavity (history only)")
            else:
                F = flame.Machine(conf)
                e2, r2 = hist.propagate(F, S2, start, mx, obs)
                if e1 != e2: fail("%s: long-lived machine: %s; fresh machine: %s", w, e1 or "no error", e2 or "no error")
                cmp.same_snap(cmp.snap(S), cmp.snap(S2), w + " final state", 1e-12)
                if len(r1) != len(r2): fail("%s: %d observations, expected %d", w, len(r1), len(r2))
                for (i1, o1), (i2, o2) in zip(r1, r2):
                    if i1 != i2: fail("%s: observed %d, expected %d", w, i1, i2)
                    cmp.same_snap(cmp.snap(o1), cmp.snap(o2), w + " observed", 1e-12)
                if e1: labels.add("error")
            rng = range(start, min(n, start + mx)) if mx >= 0 else range(start, max(-1, start + mx), -1)
            for i in rng:
                if i in visited: nt = True
                visited[i] = 1; labels.add(c["els"][i]["type"] + (" fwd" if mx >= 0 else " bwd"))
        pool.append(S)
    return nt, labels

CHECKS = [Check("history", lambda: hist.history(), run, 2400, 40000), Check("history_cavity", lambda: hist.history(cav=1.0), run, 1200, 20000),
          Check("history_linear", lambda: hist.history(linear=True), run, 400, 4000, shards=2)]
