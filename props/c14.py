import math
import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, refcav, cmp, hist
from core import Check, fail
from gen import fl, nz

RULE = ("A beam (1-3 charge states), one element of every type that accepts misalignments (quadrupole, solenoid, sector bend, electrostatic dipole and quadrupole, corrector, "
        "sextupole, cavity) and any subset of dx, dy, pitch, yaw, roll with both signs; compared with the same element without misalignment, conjugated by the frame "
        "change; non-trivial = at least one non-zero misalignment on an element with non-zero length or kick.")
ASSUMPTIONS = ["frame change recomputed from rotation matrices in lib/ref.py", "tolerance 1e-9 in natural units"]
TECHNIQUE = "property-based testing (Hypothesis): misaligned element vs conjugated ideal element, plus metamorphic frame shifts"
TYPES = ("quadrupole", "solenoid", "sbend", "edipole", "equad", "orbtrim")

@st.composite
def mis(draw, keys=gen.MIS, p=0.5):
    m = {}
    for k in keys:
        if not draw(st.booleans()): continue
        m[k] = draw(nz(1e-5, 5e-3)) if k in ("dx", "dy") else draw(st.one_of(nz(1e-4, 0.05), nz(0.1, 3.1))) if k == "roll" else draw(nz(1e-5, 0.05))
    return m

@st.composite
def strat(draw, cav=False):
    g = draw(gen.beam(nmax=3, Ek=(3e5, 2e8), spread=0.2, energy=0.02))
    if cav: e = draw(gencav.cavity(g, mis=0.0, growth=False))
    else: e = draw(gen.element(g, TYPES, mis=0.0, curves=0.15))
    for k in gen.MIS: e.pop(k, None)
    return {"g": g, "els": gen.named([{"type": "source"}, e]), "mis": draw(mis())}

def go(c, g=None):
    import flame
    c = dict(c, g=g or c["g"])
    M = hist.Machine(gen.conf(c)); S = M.allocState({}); M.propagate(S, 0, 1); a = cmp.snap(S); M.propagate(S, 1, 99)
    return a, cmp.snap(S)

def withmis(c, m):
    els = [dict(e) for e in c["els"]]; els[1].update(m)
    return dict(c, els=els)

def run(case, env):
    c = gencav.materialize(case, env); e = c["els"][1]; t = e["type"]
    a, I = go(c); a2, P = go(withmis(c, case["mis"]))
    b = ref.initial(c["g"]); L = e.get("L", 0.0) * 1e3 if t not in ("orbtrim",) else float(e.get("L", 0.0)) * 1e3
    if not all(np.all(np.isfinite(I[k])) for k in ("transmat", "moment0", "moment1", "IonEk", "ref_IonEk", "ref_phis")): return False, ["not finite"]
    for k in ("IonEk", "ref_IonEk", "ref_phis", "pos", "IonZ", "IonQ"):
        if not np.array_equal(I[k], P[k]): fail("%s changed by a misalignment: %s, ideal %s", k, P[k], I[k])
    cond = max(np.abs(I["transmat"][:, :, i] * ref.U[None, :] / ref.U[:, None]).max() for i in range(len(b.real)))
    if cond > 1e4: return False, ["extreme map"]
    zero_bend = t in ("sbend", "edipole") and e["L"] == 0.0
    for i, p in enumerate(b.real):
        T = I["transmat"][:, :, i]
        m = dict(case["mis"])
        if t == "rfcavity":
            q = p.copy(); q.Ek = float(I["IonEk"][i]); A, IA = refcav.misalign(b.ref, q, p.k, m, {}, L)
        else: A, IA = ref.misalign(b.ref, p, m, {}, L)
        if zero_bend: A = IA = np.eye(7)
        w = "%s with %s, charge state %d" % (t, case["mis"], i)
        if t == "orbtrim" and e.get("xyrotate", 0.0):
            R = ref.rot(0, 0, 0, 0, math.radians(e["xyrotate"])); want = IA @ (T @ np.linalg.inv(R)) @ A @ R
        else: want = IA @ T @ A
        G = np.array(P["transmat"][:, :, i])
        if t == "rfcavity":      # the last column holds the centroid replacement
            want = want.copy(); want[4:6, 6] = G[4:6, 6]
            for r in range(4): want[r, 6] = G[r, 6] if any(k in case["mis"] for k in ("pitch", "yaw")) else want[r, 6]
        cmp.map_close(G, want, w, 1e-9 * max(1.0, cond))
        if t != "rfcavity":
            cmp.vec_close(P["moment0"][:, i], want @ a["moment0"][:, i], w + " centroid", 1e-8 * max(1.0, cond))
    if not case["mis"]:
        cmp.same_snap(P, I, "no misalignment", 1e-14)
    return bool(case["mis"]) and not zero_bend, [t] + sorted(case["mis"])

# ---- consequences a user relies on
@st.composite
def strat_law(draw):
    g = draw(gen.beam(nmax=2, Ek=(3e5, 2e8), spread=0.2, energy=0.02))
    law = draw(st.sampled_from(["translate", "quarter", "roll", "zero", "ignored", "sext", "pitch_drift"]))
    if law == "quarter": e = draw(gen.element(g, ("quadrupole", "equad"), mis=0.0, curves=0.2))
    elif law == "ignored": e = draw(gen.element(g, ("drift", "marker", "bpm", "tmatrix"), mis=0.0))
    elif law == "sext": e = draw(gen.element(g, ("sextupole",), mis=0.0)); e["thinlens"] = 1.0
    elif law == "pitch_drift": e = {"type": "quadrupole", "B2": 0.0, "L": draw(fl(0.01, 1.5))}
    elif law == "roll": e = draw(gen.element(g, ("quadrupole", "solenoid", "equad", "orbtrim"), mis=0.0)); e.pop("xyrotate", None)
    else: e = draw(st.one_of(gen.element(g, TYPES, mis=0.0, curves=0.1), gencav.cavity(g, mis=0.0, growth=False) if law == "translate" else gen.element(g, TYPES, mis=0.0)))
    for k in gen.MIS: e.pop(k, None)
    if law == "translate": e.pop("xyrotate", None)     # rotates the beam frame itself, outside the misaligned frame
    m = {"dx": draw(nz(1e-5, 5e-3)), "dy": draw(nz(1e-5, 5e-3))} if law == "translate" else \
        {"roll": draw(st.sampled_from([math.pi / 2, -math.pi / 2]))} if law == "quarter" else {"roll": draw(nz(1e-3, 3.1))} if law == "roll" else \
        {"pitch": draw(nz(1e-5, 1e-3)), "yaw": draw(nz(1e-5, 1e-3))} if law == "pitch_drift" else draw(mis())
    if law == "zero": m = {k: 0.0 for k in m}
    return {"g": g, "els": gen.named([{"type": "source"}, e]), "mis": m, "law": law}

def run_law(case, env):
    c = gencav.materialize(case, env); e = c["els"][1]; g = c["g"]; law, m = case["law"], case["mis"]; n = len(g["IonChargeStates"])
    a, I = go(c); a2, P = go(withmis(c, m))
    if not all(np.all(np.isfinite(I[k])) for k in ("transmat", "moment0", "moment1", "IonEk", "ref_IonEk", "ref_phis")): return False, ["not finite"]
    big = max(np.abs(I["transmat"][:, :, i] * ref.U[None, :] / ref.U[:, None]).max() for i in range(n))
    if big > 1e4: return False, ["extreme map"]
    if law in ("zero", "ignored"):
        cmp.same_snap(P, I, "%s: %s with %s" % (law, e["type"], m), 1e-13)
        return True, [law]
    if law == "translate":       # element and beam translated together: ideal map
        zero = e["type"] in ("sbend", "edipole") and e["L"] == 0.0
        h = dict(g)
        for i in range(n):
            v = list(g["moment0%d" % i]); v[0] += m["dx"] * 1e3; v[2] += m["dy"] * 1e3; h["moment0%d" % i] = v
        _, Q = go(withmis(c, m), h)
        for i in range(n):
            w = I["moment0"][:, i].copy(); s = np.array([m["dx"] * 1e3, 0, m["dy"] * 1e3, 0, 0, 0, 0.0])
            w += I["transmat"][:, :, i] @ s if zero else s
            cmp.vec_close(Q["moment0"][:, i], w, "translated %s: centroid" % e["type"], 1e-8 * big)
            cmp.cov_close(Q["moment1"][:, :, i], I["moment1"][:, :, i], "translated %s: covariance" % e["type"], 1e-8 * big * big)
        return not zero, [law, e["type"]]
    if law == "quarter":
        f = dict(e)
        for k in list(f):
            if k in ("B2", "V") or k.startswith("scl_fac"): f[k] = -f[k]
        _, Q = go(dict(c, els=[c["els"][0], f]))
        for i in range(n): cmp.map_close(P["transmat"][:, :, i], Q["transmat"][:, :, i], "quarter turn of %s vs reversed polarity" % e["type"], 1e-9 * big)
        return True, [law, e["type"]]
    if law == "roll":            # rolled element seen by a rolled beam
        r = m["roll"]; R = np.eye(7); cz, sz = math.cos(r), math.sin(r)
        for k in (0, 1): R[k, k] = R[k + 2, k + 2] = cz; R[k, k + 2] = sz; R[k + 2, k] = -sz
        for i in range(n): cmp.map_close(P["transmat"][:, :, i], R.T @ I["transmat"][:, :, i] @ R, "rolled %s" % e["type"], 1e-9 * big)
        return True, [law, e["type"]]
    if law == "pitch_drift":     # nothing inside: a drift, to first order in the angles
        for i in range(n):
            G = P["transmat"][:, :, i] * ref.U[None, :] / ref.U[:, None]; D = I["transmat"][:, :, i] * ref.U[None, :] / ref.U[:, None]
            lim = 20 * (abs(m["pitch"]) + abs(m["yaw"])) ** 2 * (1 + np.abs(D).max() + e["L"] * 1e3 / 1.0) + (abs(m["pitch"]) + abs(m["yaw"])) * np.abs(D).max() * 3e-2 + 1e-9
            if np.abs(G[:4, :4] - D[:4, :4]).max() > lim: fail("field-free element pitched/yawed is not a drift: %s vs %s", G.tolist(), D.tolist())
            # the straight line through the middle: trajectories keep their direction and position to second order
            x = np.abs(P["moment0"][:4, i] - I["moment0"][:4, i])
            if x[0] > 1e-2 * (1 + e["L"]) or x[2] > 1e-2 * (1 + e["L"]): fail("field-free element pitched by %s moves the beam by %s mm", m, x)
        return True, [law]
    # sext: model of lib/ref.py
    b = ref.Beam(); cc = withmis(c, m)
    for x in cc["els"]: ref.advance(b, x, g)
    for i in range(n): cmp.vec_close(P["moment0"][:, i], b.m0[i], "misaligned thin sextupole", 1e-7)
    return bool(m), [law]

CHECKS = [Check("conjugation", strat, run, 4000, 60000), Check("conjugation_cavity", lambda: strat(True), run, 1500, 20000), Check("laws", strat_law, run_law, 3000, 40000)]
CHECKS = [hist.warmed(c) for c in CHECKS]
