import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl

RULE = ("A lattice of 1-7 elements of any simulation type, a start, an element count (zero, negative, beyond the end, omitted), a random partition of the range and "
        "a set of observed elements (repeats allowed); the whole call, the pieces, one element at a time and the observed call are compared on separate machines and "
        "on one machine; non-trivial = at least two elements visited.")
ASSUMPTIONS = ["equality to 1e-12 of each array's largest entry", "backward ranges holding a cavity follow a forward pass over the whole lattice on the same machine"]
TECHNIQUE = "metamorphic property-based testing (Hypothesis): split vs whole propagation, observed vs unobserved"

@st.composite
def strat(draw, linear=False):
    c = dict(draw(hist.linear_lattice(nmax=7) if linear else hist.moment_lattice(cav=0.3, broken=0.05, nmax=6, sext=True, strip=True)))
    n = len(c["els"])
    c["start"] = draw(st.integers(0, n + 1)); c["max"] = draw(st.sampled_from([None, 0, 1, 2, 3, 5, 99, -1, -2, -3, -99, 2**31 - 1, -(2**31 - 1)]))
    if c["max"] == 99: c["start"] = 0
    if c["max"] is not None and c["max"] < -1: c["start"] = max(c["start"], n - 1)
    c["cuts"] = draw(st.lists(st.integers(1, 4), max_size=4))
    c["obs"] = draw(st.lists(st.integers(0, n - 1), max_size=5))
    c["fwd"] = draw(st.booleans())
    return c

def call(M, S, start, mx, obs=None):
    try:
        kw = {} if mx is None else {"max": mx}
        if obs is not None: kw["observe"] = obs
        return None, M.propagate(S, start=start, **kw)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e), None

def visits(start, mx, n):
    if start >= n: return []
    if mx is None: return list(range(start, n))
    if mx >= 0: return list(range(start, min(n, start + mx)))
    return list(range(start, max(-1, start + mx), -1))

def run(case, env):
    import flame
    sim = case.get("sim", "MomentMatrix"); c = gencav.materialize(case, env); conf = gen.conf(c, sim); n = len(c["els"])
    start, mx = case["start"], case["max"]
    V = visits(start, mx, n); back = mx is not None and mx < 0
    def fresh():
        M = flame.Machine(conf); S = M.allocState()
        if back and case["fwd"] or back and any(c["els"][i]["type"] == "rfcavity" for i in V):
            M.propagate(S, 0, start + 1)
        return M, S
    try: M, A = fresh()
    except RuntimeError: return False, ["forward pass fails"]
    a0 = cmp.snap(A)
    eW, rW = call(M, A, start, mx)
    W = cmp.snap(A)
    labels = {"backward" if back else "forward", "empty range" if not V else "range"}
    if eW: labels.add("error")
    # which elements: next element index, position
    if not eW:
        want = (V[-1] + (-1 if back else 1)) % 2**64 if V else start
        if int(A.next_elem) != want: fail("next_elem %d, expected %d", int(A.next_elem), want)
        pos = float(a0["pos"])
        for i in V:
            e = c["els"][i]
            if e["type"] == "source":
                if not back or sim != "MomentMatrix": pos = 0.0
            elif sim != "MomentMatrix": pos += e.get("L", 0.0)       # the linear simulations only go forward in position
            elif e["type"] not in ("marker", "bpm", "orbtrim", "stripper"): pos += -e["L"] if back else e["L"]
        cmp.num_close(float(A.pos), pos, "position", 1e-12, 1e-12)
        if not V: cmp.same_snap({k: v for k, v in W.items() if k != "next_elem"}, {k: v for k, v in a0.items() if k != "next_elem"}, "empty range changed the state", 1e-13)
    # pieces
    for how in ("cuts", "single"):
        M2, B = fresh()
        cuts = list(case["cuts"]) if how == "cuts" else [1] * len(V)
        i = 0; err = None
        while i < len(V) and err is None:
            k = min(cuts.pop(0) if cuts else len(V), len(V) - i)
            err, _ = call(M2, B, V[i], -k if back else k)
            i += k
        if (err is None) != (eW is None): fail("%s: pieces: %s; whole: %s", how, err or "no error", eW or "no error")
        if V: cmp.same_snap(cmp.snap(B), W, "pieces (%s) vs whole" % how, 1e-12)
    # observers: on a fresh machine, then on the same machine again without observers
    M3, C = fresh()
    eO, r = call(M3, C, start, mx, list(case["obs"]))
    if (eO is None) != (eW is None): fail("observed: %s; not observed: %s", eO or "no error", eW or "no error")
    cmp.same_snap(cmp.snap(C), W, "final state with observers", 1e-12)
    if eO is None:
        want = [i for i in V if i in case["obs"]]
        got = [i for i, _ in r]
        if got != want: fail("observed elements %s, expected %s (visits %s)", got, want, V)
        if want: labels.add("observed")
        snaps = [cmp.snap(s) for _, s in r]
        M4, D = fresh(); k = 0
        for i in V:
            call(M4, D, i, -1 if back else 1)
            if i in case["obs"]:
                d = cmp.snap(D)
                cmp.same_snap(snaps[k], d, "state observed at %d" % i, 1e-12); k += 1
        # later, unobserved: nothing recorded, same result; earlier observations unchanged
        if not (back and any(c["els"][i]["type"] == "rfcavity" for i in V)):
            E = M3.allocState()
            if back and case["fwd"]: M3.propagate(E, 0, start + 1)
            e5, r5 = call(M3, E, start, mx)
            if r5: fail("a call without observers returned %d observations", len(r5))
            cmp.same_snap(cmp.snap(E), W, "later call without observers", 1e-12)
            for (i, s), b in zip(r, snaps): cmp.same_snap(cmp.snap(s), b, "stored observation %d changed by a later call" % i)
    return len(V) >= 2, labels

CHECKS = [Check("compose", strat, run, 4800, 60000), Check("compose_linear", lambda: strat(True), run, 2400, 24000, shards=4)]
