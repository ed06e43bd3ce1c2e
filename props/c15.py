import math
import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, refcav, cmp, hist
from core import Check, fail, Violation
from gen import fl

RULE = ("A beam (1-3 charge states, 0.3-300 MeV/u) and 1-2 cavities of every built-in type or Generic, with the shipped data files or generated ones "
        "(field maps, thin-lens tables, multipole tables), any phase, synchronous option, frequency, multipole level, emittance growth, misalignment; "
        "non-trivial = a cavity with non-zero field strength.")
ASSUMPTIONS = ["reference: independent numpy implementation of the field integral, transit-time-factor gap model and multipole kicks (lib/refcav.py)",
               "scl_fac bounded so that no charge state loses more than 30% of its energy", "tolerance 1e-7 in natural units"]

@st.composite
def strat(draw, syn=0.5):
    g = draw(gen.beam(nmax=3, Ek=(3e5, 3e8), spread=0.2, energy=0.02))
    els = [{"type": "source"}]
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.integers(0, 3)) == 0: els.append({"type": "drift", "L": draw(fl(0, 0.5))})
        els.append(draw(gencav.cavity(g, syn=syn)))
    return {"g": g, "els": gen.named(els)}

def run(case, env):
    import flame
    c = gencav.materialize(case, env)
    M = hist.Machine(gen.conf(c)); S = M.allocState({}); b = ref.Beam(); labels = set(); nt = False
    for i, e in enumerate(c["els"]):
        M.propagate(S, start=i, max=1)
        try: ref.advance(b, e, c["g"])
        except (ArithmeticError, ValueError): return False, ["model undefined"]
        if e["type"] != "rfcavity": continue
        w = "after [%d] %s" % (i, e["cavtype"])
        if not abs(b.cavraw) < 1e4: return nt, labels | {"phase fit far outside its range"}
        noise = getattr(b, "noise", 0.0)
        if not noise < 1e-3: return nt, ["growth of a bunch too short to evaluate"]
        cmp.cmp_beam(S, b, w, tol=1e-7 + noise, phase_tol=1e-8)
        d = abs(float(S.last_caviphi0) - b.caviphi) % 360.0
        if not min(d, 360 - d) < 1e-6: fail("%s: last_caviphi0 %r expected %r", w, float(S.last_caviphi0), b.caviphi)
        labels.add(e["cavtype"]); labels.add("sync=%s" % e.get("syncflag")); labels.add("mpole=%s" % e.get("MpoleLevel"))
        for k in ("forcettfcalc", "EmitGrowth"): 
            if k in e: labels.add(k)
        if any(k in e for k in gen.MIS): labels.add("misaligned")
        if e["scl_fac"] != 0: nt = True
        else: labels.add("zero field")
    return nt, labels

# ---- laws that need no model of the multipoles
@st.composite
def strat_law(draw):
    g = draw(gen.beam(nmax=2, Ek=(3e5, 3e8), spread=0.2, energy=0.02))
    e = draw(gencav.cavity(g, mis=0.0, growth=False))
    return {"g": g, "els": gen.named([{"type": "source"}, {"type": "drift", "L": draw(fl(0, 1))}, e]), "law": draw(st.sampled_from(["zero", "driven", "turn", "energy"]))}

def prop(c, upto=None):
    import flame
    M = hist.Machine(gen.conf(c)); S = M.allocState({}); M.propagate(S, 0, upto if upto is not None else 2**31 - 1)
    return S

def with_cav(c, **kw):
    e = dict(c["els"][2]); e.update(kw)
    return dict(c, els=c["els"][:2] + [e])

def run_law(case, env):
    c = gencav.materialize(case, env); e = c["els"][2]; law = case["law"]
    S0 = prop(c, 2)
    if law == "zero":
        z = ref.Beam()
        try:
            for x in with_cav(c, scl_fac=0.0)["els"]: ref.advance(z, x, c["g"])
        except (ArithmeticError, ValueError): return False, ["model undefined"]
        if not abs(z.cavraw) < 1e4: return False, ["phase fit far outside its range"]
        S = prop(with_cav(c, scl_fac=0.0))
        if abs(float(S.ref_IonEk) - float(S0.ref_IonEk)) > 1e-5 or not np.allclose(S.IonEk, S0.IonEk, rtol=0, atol=1e-5): fail("zero field changed energies")
        L = refcav.Cav(e, c["g"]); zl = (L.tab[-1, 0] - L.tab[0, 0])
        cmp.num_close(float(S.ref_phis), float(S0.ref_phis) + float(S0.ref_SampleIonK) * zl, "zero field phase", 1e-9, 1e-9)
        for i in range(len(S.IonZ)):
            T = np.array(S.transmat[:, :, i])
            D = np.eye(7); tl = sum((x["L"] if isinstance(x, dict) else x[1]) for x in L.thin if (x["type"] if isinstance(x, dict) else x[0]) == "drift")
            D[0, 1] = D[2, 3] = tl
            if not np.abs((T - D)[:4, :6] * ref.U[None, :6] / ref.U[:4, None]).max() <= 1e-9 * (1 + tl): fail("zero field transverse map is not a drift: %r", T.tolist())
        return True, [law]
    S = prop(c)
    r = ref.Beam()
    try:
        for x in c["els"]: ref.advance(r, x, c["g"])
    except (ArithmeticError, ValueError): return False, ["model undefined"]
    if not abs(r.cavraw) < 1e4: return False, ["phase fit far outside its range"]      # the phase itself has lost its digits
    if law == "driven":
        c2 = with_cav(c, phi=float(S.last_caviphi0), syncflag=0.0)
        S2 = prop(c2)
        cmp.num_close(float(S2.ref_IonEk), float(S.ref_IonEk), "driven phase: ref energy", 1e-9); cmp.num_close(float(S2.ref_phis), float(S.ref_phis), "driven phase: ref phase", 1e-8, 1e-8)
        for i in range(len(S.IonZ)):
            cmp.num_close(float(S2.IonEk[i]), float(S.IonEk[i]), "driven phase: energy", 1e-9)
            cmp.map_close(S2.transmat[:, :, i], S.transmat[:, :, i], "driven phase: map", 1e-7)
        return True, [law]
    if law == "turn":       # a full turn of the phase changes nothing
        S2 = prop(with_cav(c, phi=e["phi"] + 360.0))
        cmp.num_close(float(S2.ref_IonEk), float(S.ref_IonEk), "phase turn: ref energy", 1e-9)
        for i in range(len(S.IonZ)): cmp.map_close(S2.transmat[:, :, i], S.transmat[:, :, i], "phase turn: map", 1e-7)
        return True, [law]
    # energies and phases against the field integral only
    b = ref.Beam()
    for x in c["els"][:2]: ref.advance(b, x, c["g"])
    C = refcav.Cav(e, c["g"]); fy = math.radians(float(S.last_caviphi0)); m = C.f / b.ref.freq
    try: W, fo = refcav.boost(C.tab, b.ref, m * b.ref.phis + fy, C.scl, C.f)
    except ArithmeticError: return False, ["model undefined"]
    cmp.num_close(float(S.ref_IonEk), W - b.ref.Es, "field integral: ref energy", 1e-9, 1e-3)
    for i, p in enumerate(b.real):
        W, fo = refcav.boost(C.tab, p, m * p.phis + fy, C.scl, C.f)
        cmp.num_close(float(S.IonEk[i]), W - p.Es, "field integral: energy[%d]" % i, 1e-9, 1e-3)
        cmp.num_close(float(S.moment0[5][i]), (float(S.IonEk[i]) - float(S.ref_IonEk)) / 1e6, "centroid energy", 1e-9, 1e-12)
        cmp.num_close(float(S.moment0[4][i]), float(S.phis[i]) - float(S.ref_phis), "centroid phase", 1e-9, 1e-12)
    return True, [law]

CHECKS = [Check("model_syn", lambda: strat(1.0), run, 4800, 60000), Check("model_shipped", lambda: strat(0.0), run, 2400, 30000),
          Check("laws", strat_law, run_law, 2400, 30000, shards=8)]
CHECKS = [hist.warmed(c) for c in CHECKS]
