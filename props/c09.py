import math
import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl

RULE = ("A lattice of 1-6 moment elements of every type and a beam of 1-4 charge states with correlated covariances; the state right after every element (observed) is "
        "related to the state before it through the reported transfer matrix; non-trivial = an element other than a drift/marker/monitor/source.")
ASSUMPTIONS = ["no reference formula for the maps is used: only the reported transfer matrix and kinematic definitions", "tolerances 1e-9..1e-8 in natural units"]
TECHNIQUE = "property-based testing (Hypothesis): invariants relating consecutive observed states"
C0 = 2.99792458e8
DET1 = ("drift", "quadrupole", "solenoid", "sbend", "equad", "edipole", "orbtrim", "marker", "bpm")

def kinematics(s, w):
    for p in ("", "ref_"):
        at = lambda n: np.atleast_1d(s[p + n])
        Es, Ek = at("IonEs"), at("IonEk"); W = Es + Ek; g = W / Es; be = np.sqrt(1 - 1 / g ** 2)
        lam = C0 / at("SampleFreq") * 1e3
        for n, v in (("IonW", W), ("gamma", g), ("bg", np.where(be != 0, be * g, 0.0)), ("beta", be), ("SampleIonK", 2 * math.pi / (be * lam))):
            # beta comes from 1-1/gamma^2: absolute rounding of gamma
            tol = 1e-12 + 1e-15 / np.maximum(be, 1e-9) ** 2
            if not np.all(np.abs(at(n) - v) <= tol * np.maximum(np.abs(v), 1e-300)): fail("%s: %s%s is %s, but IonEk and IonEs give %s", w, p, n, at(n), v)

def run(case, env):
    import flame
    c = gencav.materialize(case, env); n = len(c["els"])
    M = hist.Machine(gen.conf(c)); S = M.allocState()
    try: obs = M.propagate(S, observe=list(range(n)))
    except RuntimeError as e:
        fail("propagation of a valid lattice failed: %s", e)
    S0 = cmp.snap(M.allocState()); labels = set(); nt = False
    prev = S0
    for i, st_ in obs:
        e = c["els"][i]; t = e["type"]; s = cmp.snap(st_); w = "after [%d] %s" % (i, t)
        fin = all(np.all(np.isfinite(s[k])) for k in ("moment0", "moment1", "IonEk", "IonQ", "phis", "transmat", "ref_phis", "ref_IonEk", "last_caviphi0"))
        if not fin: return nt, labels | {"not finite"}
        kinematics(s, w)
        if t != "source": cmp.num_close(float(s["pos"]), float(prev["pos"]) + (float(e.get("L", 0.0)) if t not in ("marker", "bpm", "orbtrim", "stripper") else 0.0), w + " position", 1e-12, 1e-12)
        nq = s["IonZ"].size
        for q in range(nq):
            C = s["moment1"][:, :, q]; D = C[:6, :6] / np.outer(ref.U[:6], ref.U[:6]); sc = np.abs(D).max() + 1e-30
            if np.abs(D - D.T).max() > 1e-9 * sc: fail("%s: covariance of charge state %d is not symmetric (%.3g)", w, q, np.abs(D - D.T).max() / sc)
            if np.linalg.eigvalsh((D + D.T) / 2).min() < -1e-8 * sc: fail("%s: covariance of charge state %d is not positive semidefinite: %s", w, q, np.linalg.eigvalsh(D))
            if s["moment0"][6, q] != 1.0 and abs(s["moment0"][6, q] - 1) > 1e-12: fail("%s: moment0[6] is %r", w, s["moment0"][6, q])
        if t not in ("source", "stripper"):
            if prev["IonZ"].size != nq: fail("%s: number of charge states changed", w)
            for k in ("IonZ", "IonQ", "IonEs", "SampleFreq", "ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_SampleFreq"):
                if not np.array_equal(s[k], prev[k]): fail("%s: %s changed from %s to %s", w, k, prev[k], s[k])
            for q in range(nq):
                T = s["transmat"][:, :, q]
                m0, m1 = prev["moment0"][:, q], prev["moment1"][:, :, q]
                if t != "sextupole":
                    big = np.abs(T * ref.U[None, :] / ref.U[:, None]).max()
                    cmp.vec_close(s["moment0"][:, q], T @ m0, w + " centroid vs transmat", 1e-9, scale=big * np.abs(m0 / ref.U).max())
                    if not (t == "rfcavity" and float(e.get("EmitGrowth", 0)) != 0):
                        cmp.cov_close(s["moment1"][:, :, q], T @ m1 @ T.T, w + " covariance vs transmat", 1e-9, scale=big ** 2 * np.abs(m1 / np.outer(ref.U, ref.U)).max())
                    if t == "rfcavity" and not any(k in e for k in gen.MIS):
                        cmp.num_close(s["moment0"][4, q], s["phis"][q] - s["ref_phis"], w + " longitudinal centroid phase", 1e-9, 1e-9 * (1 + abs(float(s["ref_phis"]))))
                        cmp.num_close(s["moment0"][5, q], (s["IonEk"][q] - s["ref_IonEk"]) / 1e6, w + " longitudinal centroid energy", 1e-9, 1e-12)
                if t != "rfcavity":
                    # phases
                    L = e.get("L", 0.0) if t not in ("marker", "bpm", "orbtrim") else 0.0
                    want = prev["phis"][q] + prev["SampleIonK"][q] * L * 1e3
                    if t == "sbend": want += s["moment0"][4, q] - prev["moment0"][4, q]
                    cmp.num_close(s["phis"][q], want, w + " phase", 1e-11, 1e-10)
                if t in DET1 and not e.get("asym_fac"):
                    T7 = T * ref.U[None, :] / ref.U[:, None]; big = max(1.0, np.abs(T7).max())
                    if big < 1e3:
                        if abs(np.linalg.det(T7) - 1) > 1e-9 * big ** 3: fail("%s: determinant of the map is %r", w, np.linalg.det(T7))
                        if not any(k in e for k in ("pitch", "yaw")) and abs(np.linalg.det(T7[:4, :4]) - 1) > 1e-9 * big ** 3:
                            fail("%s: transverse determinant is %r", w, np.linalg.det(T7[:4, :4]))
                if not np.array_equal(T[6], [0, 0, 0, 0, 0, 0, 1]) and np.abs(T[6] - np.eye(7)[6]).max() > 1e-12: fail("%s: last row of the map is %s", w, T[6])
            if t != "rfcavity":
                L = e.get("L", 0.0) if t not in ("marker", "bpm", "orbtrim") else 0.0
                for k in ("IonEk", "ref_IonEk"):
                    if not np.array_equal(s[k], prev[k]): fail("%s: static element changed %s from %s to %s", w, k, prev[k], s[k])
                cmp.num_close(float(s["ref_phis"]), float(prev["ref_phis"]) + float(prev["ref_SampleIonK"]) * L * 1e3, w + " reference phase", 1e-11, 1e-10)
                for k in ("last_caviphi0",):
                    if s[k] != prev[k]: fail("%s: %s changed", w, k)
        labels.add(t)
        if t not in ("source", "drift", "marker", "bpm"): nt = True
        prev = s
    return nt, labels

@st.composite
def strat(draw, cav=0.3):
    c = draw(hist.moment_lattice(cav=cav, broken=0.0, nmax=6, mis=0.35))
    return c

CHECKS = [Check("transport", strat, run, 4000, 60000), Check("transport_static", lambda: strat(0.0), run, 4000, 60000)]
CHECKS = [hist.warmed(c) for c in CHECKS]
