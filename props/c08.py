import numpy as np
from hypothesis import strategies as st
import gen, ref, cmp, hist
from gen import fl, nz, or0
from core import Check, fail

RULE = ("Lattices of 1-6 linear elements (drift, quadrupole, sbend, solenoid, generic, marker, optional source) with lengths and strengths "
        "of both signs and exact zeros, short or full initial vector/matrix; non-trivial = at least one non-marker element.")
ASSUMPTIONS = ["reference: matrix exponential of each element's equations of motion", "tolerance 1e-10 relative in natural units"]
TYPES = ("drift", "quadrupole", "sbend", "solenoid", "generic", "marker")

@st.composite
def lin_element(draw, types=TYPES):
    t = draw(st.sampled_from(types)); e = {"type": t}
    if t == "marker":
        if draw(st.integers(0, 3)) == 0: e["L"] = draw(fl(0, 2))
        return e
    if t == "generic":
        n = draw(st.sampled_from([36, 36, 0, 1, 6, 13, 35]))
        M = np.eye(6)
        for _ in range(draw(st.integers(0, 8))):
            M[draw(st.integers(0, 5)), draw(st.integers(0, 5))] += draw(fl(-2, 2))
        e["transfer"] = [float(v) for v in M.ravel()[:n]]
        if draw(st.booleans()): e["L"] = draw(fl(0, 2))
        return e
    e["L"] = L = draw(or0(fl(0.01, 2.0)))
    s = lambda lim=4.0: (lambda v: v / (L * L) if L > 0.05 else v)(draw(or0(nz(1e-3, lim))))
    if t == "quadrupole" or t == "solenoid":
        if draw(st.integers(0, 7)): e["K"] = s() if t == "quadrupole" else draw(or0(nz(1e-3, 4.0))) / max(L, 0.3)
    if t == "sbend":
        if L == 0: e["L"] = L = 0.5
        e["phi"] = draw(or0(nz(1e-2, 3.0)))
        if draw(st.booleans()): e["K"] = s()
    if draw(st.integers(0, 9)) == 0: e["L"] = -e["L"]
    return e

@st.composite
def strat(draw):
    els = [draw(lin_element()) for _ in range(draw(st.integers(1, 6)))]
    if draw(st.booleans()): els.insert(draw(st.sampled_from([0, 0, len(els) // 2])), {"type": "source"})
    n = draw(st.integers(0, 6))
    v = [draw(fl(-3, 3)) for _ in range(n)]
    m = None
    if draw(st.booleans()):
        k = draw(st.sampled_from([36, 36, 6, 20, 0])); m = [draw(fl(-2, 2)) for _ in range(k)]
    return {"els": gen.named(els), "v": v, "m": m}

def run_sim(sim, els, initial):
    import flame
    g = {} if initial is None else {"initial": initial}
    M = hist.Machine(gen.conf({"g": g, "els": els}, sim))
    return M, g

def run(case, env):
    els = case["els"]
    srcs = [i for i, e in enumerate(els) if e["type"] == "source"]
    v0 = np.zeros(6); v0[:len(case["v"])] = case["v"]
    m0 = np.eye(6).ravel()
    if case["m"] is not None: m0[:len(case["m"])] = case["m"]
    m0 = m0.reshape(6, 6)
    V, gv = run_sim("Vector", els, case["v"]); Mx, gm = run_sim("TransferMatrix", els, case["m"])
    sv = V.allocState(gen.conf({"g": gv, "els": []})); sm = Mx.allocState(gen.conf({"g": gm, "els": []}))
    if np.array(sv.state).shape != (6,) or np.array(sm.state).shape != (6, 6): fail("state shapes")
    if not np.array_equal(np.array(sv.state), v0): fail("initial vector %r != %r", np.array(sv.state).tolist(), v0.tolist())
    if not np.array_equal(np.array(sm.state), m0): fail("initial matrix %r != %r", np.array(sm.state).tolist(), m0.tolist())
    v, m, pos = v0.copy(), m0.copy(), 0.0
    P = np.eye(6)
    for i, e in enumerate(els):
        V.propagate(sv, start=i, max=1); Mx.propagate(sm, start=i, max=1)
        if e["type"] == "source":
            v, m, pos = v0.copy(), m0.copy(), 0.0; P = np.eye(6)
        else:
            T = ref.linear_matrix(e, {}); v = T @ v; m = T @ m; P = T @ P
            pos += float(e.get("L", 0.0))
        w = "after [%d] %s" % (i, e["type"])
        sc = max(np.abs(P).max() * 10, 1)
        close(sv.state, v, w + " vector", max(np.abs(P).max(), 1) * 10)
        close(sm.state, m, w + " matrix", max(np.abs(P).max(), 1) * 10)
        cmp.num_close(sv.pos, pos, w + " Vector pos", 1e-12, 1e-12); cmp.num_close(sm.pos, pos, w + " TransferMatrix pos", 1e-12, 1e-12)
    # whole-lattice: vector result = transfer matrix applied to the initial vector
    I, _ = run_sim("TransferMatrix", els, None); si = I.allocState({}); I.propagate(si)
    close(np.array(si.state) @ v0, np.array(sv.state), "matrix applied to vector", max(np.abs(P).max(), 1) * 10)
    nontriv = any(e["type"] not in ("marker", "source") for e in els)
    return nontriv, [e["type"] for e in els]

def close(a, b, what, sc):
    a = np.asarray(a, float); b = np.asarray(b, float)
    e = np.abs(a - b).max()
    if not e <= 1e-10 * max(sc, np.abs(b).max()): fail("%s: differ by %.3g: got %r expected %r", what, e, a.tolist(), b.tolist())

# ---- per-map laws: volume preservation and composition over length
@st.composite
def strat_law(draw):
    e = draw(lin_element(("drift", "quadrupole", "sbend", "solenoid")))
    return {"e": e, "f": draw(fl(0.02, 0.98))}

def run_law(case, env):
    import flame
    e, f = case["e"], case["f"]
    def T(els):
        M = hist.Machine(gen.conf({"g": {}, "els": gen.named(els)}, "TransferMatrix")); s = M.allocState({}); M.propagate(s)
        return np.array(s.state), float(s.pos)
    A, pa = T([e])
    J = np.zeros((4, 4)); J[0, 1] = J[2, 3] = 1; J[1, 0] = J[3, 2] = -1
    B = A[:4, :4] * np.outer(1 / ref.U[:4], ref.U[:4])
    if not np.abs(B.T @ J @ B - J).max() <= 1e-9 * max(1, np.abs(B).max() ** 2): fail("map of %s is not symplectic: %r", e["type"], A.tolist())
    a, b = dict(e), dict(e)
    a["L"] = e["L"] * f; b["L"] = e["L"] - a["L"]
    if e["type"] == "sbend":
        if a["L"] == 0 or b["L"] == 0: return False, [e["type"]]
        a["phi"] = e["phi"] * a["L"] / e["L"]; b["phi"] = e["phi"] - a["phi"]
    C, pc = T([a, b])
    close(C * np.outer(1 / ref.U[:6], ref.U[:6]), A * np.outer(1 / ref.U[:6], ref.U[:6]), "two parts vs whole %s" % e["type"], 100 * np.abs(A).max())
    cmp.num_close(pa, pc, "pos", 1e-12, 1e-12)
    return e["L"] != 0 and e["type"] != "drift", [e["type"]]

# ---- oversized input is rejected
@st.composite
def strat_bad(draw):
    return {"sim": draw(st.sampled_from(["Vector", "TransferMatrix"])), "n": draw(st.integers(37, 60)), "where": draw(st.sampled_from(["initial", "transfer"]))}
def run_bad(case, env):
    import flame
    n = case["n"] - (30 if case["sim"] == "Vector" and case["where"] == "initial" else 0)
    els = [{"name": "s", "type": "source"}, {"name": "g", "type": "generic", "transfer": [1.0] * (n if case["where"] == "transfer" else 36)}]
    g = {"initial": [1.0] * n} if case["where"] == "initial" else {}
    try:
        hist.Machine(gen.conf({"g": g, "els": els}, case["sim"]))
    except Exception:
        return True, [case["where"]]
    fail("%s of %d numbers accepted by %s", case["where"], n, case["sim"])

CHECKS = [Check("model", strat, run, 6000, 80000), Check("laws", strat_law, run_law, 2500, 30000, shards=4), Check("reject", strat_bad, run_bad, 60, 200, shards=1)]
CHECKS = [c if c.name in ('reject',) else hist.warmed(c) for c in CHECKS]
