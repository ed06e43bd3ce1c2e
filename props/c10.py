import numpy as np
from hypothesis import strategies as st
import gen, ref, cmp, hist
from core import Check, fail, Violation

RULE = ("A beam (1-3 charge states, energies 20 keV/u-200 MeV/u, reference charge optionally off) and 1-3 elements of any static type "
        "with log/linearly drawn strengths of both signs including exact zeros, all option flags, then propagated element by element; "
        "non-trivial = at least one element whose map is not the identity or a drift.")
ASSUMPTIONS = ["reference: matrix exponential of each element's documented linear equations of motion (lib/ref.py)",
               "tolerance 1e-9 in natural units"]

def run_elements(case, env):
    import flame
    M = hist.Machine(gen.conf(case))
    S = M.allocState({})
    b = None
    labels = set(); nontriv = False
    b = ref.Beam()
    for i, e in enumerate(case["els"]):
        M.propagate(S, start=i, max=1)
        b0 = b.copy()
        ref.advance(b, e, case["g"])
        try:
            cmp.cmp_beam(S, b, "after [%d] %s" % (i, e["type"]), tol=1e-6 if e["type"] == "sextupole" else 1e-9)
        except Violation:
            # the one known finding (KNOWN_FINDINGS.txt): thick sextupole, off-axis in y
            if e["type"] != "sextupole" or float(e.get("thinlens", 0.0)) == 1.0: raise
            b = b0; ref.advance_sext(b, e, case["g"], known=True)
            cmp.cmp_beam(S, b, "after [%d] %s (known-finding model)" % (i, e["type"]), tol=1e-5)
            labels.add("known finding: thick sextupole")
        if e["type"] == "sextupole": break      # compared at a looser tolerance: do not carry on from it
        labels.add(e["type"])
        if e["type"] not in ("source", "drift", "marker", "bpm"):
            for T in b.T:
                if np.abs(T - np.eye(7)).max() > 1e-6: nontriv = True
        if e["type"] == "sbend" and e["L"]:
            h = np.radians(e["phi"]) / e["L"]; kx = e.get("K", 0.0) + h * h
            labels.add("sbend Kx" + ("=0" if kx == 0 else "<0" if kx < 0 else ">0"))
        if any(k in e for k in gen.MIS): labels.add("misaligned")
        if "ncurve" in e: labels.add("curves")
    return nontriv, labels

def strat_all():
    return gen.lattice(types=gen.STATIC + ("sextupole",), nmin=1, nmax=3, beam_kw=dict(nmax=3), mis=0.2)

@st.composite
def one(draw, t):
    g = draw(gen.beam(nmax=2))
    e = draw(gen.element(g, (t,), mis=0.1, curves=0.0))
    return {"g": g, "els": gen.named([{"type": "source"}, e])}

# ---- halves compose: uniform elements split in two equal parts
UNIFORM = ("drift", "quadrupole", "solenoid", "equad", "sbend")
@st.composite
def strat_split(draw):
    g = draw(gen.beam(nmax=2))
    e = draw(gen.element(g, UNIFORM, mis=0.0, curves=0.0, zero_len=False))
    e.pop("HdipoleFitMode", None); e.pop("bg", None)
    return {"g": g, "e": e, "f": draw(gen.fl(0.05, 0.95))}

def run_split(case, env):
    import flame
    g, e, f = case["g"], case["e"], case["f"]
    a = dict(e); b = dict(e)
    a["L"] = e["L"] * f; b["L"] = e["L"] - a["L"]
    if e["type"] == "sbend":
        a["phi"] = e["phi"] * f; b["phi"] = e["phi"] - a["phi"]
        a["phi2"] = 0.0; b["phi1"] = 0.0
    src = {"type": "source"}
    def go(els):
        c = {"g": g, "els": gen.named([src] + els)}
        M = hist.Machine(gen.conf(c)); S = M.allocState({})
        M.propagate(S)
        return S
    S1, S2 = go([e]), go([a, b])
    n = len(g["IonChargeStates"])
    for i in range(n):
        cmp.vec_close(S2.moment0[:, i], S1.moment0[:, i], "two parts vs whole: moment0[%d]" % i, 2e-8)
        cmp.cov_close(S2.moment1[:, :, i], S1.moment1[:, :, i], "two parts vs whole: moment1[%d]" % i, 2e-8)
        cmp.num_close(S2.phis[i], S1.phis[i], "two parts vs whole: phis", 1e-8, 1e-8)
    return e["type"] != "drift", [e["type"]]

# ---- zero limits: no strength = drift (or identity for the corrector)
@st.composite
def strat_zero(draw):
    g = draw(gen.beam(nmax=2))
    L = draw(gen.fl(0.0, 1.5))
    t = draw(st.sampled_from(["quadrupole", "solenoid", "equad", "sextupole", "orbtrim", "quadcurve", "solcurve", "equadcurve", "sextthin"]))
    e = {"L": L}
    if t == "quadrupole": e.update(type=t, B2=0.0)
    elif t == "solenoid": e.update(type=t, B=0.0)
    elif t == "equad": e.update(type=t, V=0.0, radius=0.1)
    elif t == "sextupole": e.update(type=t, B3=0.0, step=float(draw(st.integers(1, 4))))
    elif t == "sextthin": e.update(type="sextupole", B3=0.0, thinlens=1.0)
    elif t == "orbtrim": e.update(type=t, theta_x=0.0)
    else:
        e.update(type={"quadcurve": "quadrupole", "solcurve": "solenoid", "equadcurve": "equad"}[t], ncurve=1.0,
                 curve0=[draw(gen.fl(-1, 1)) for _ in range(draw(st.integers(1, 4)))], scl_fac0=0.0)
    return {"g": g, "e": e}

def run_zero(case, env):
    import flame
    g, e = case["g"], case["e"]
    d = {"type": "drift", "L": 0.0 if e["type"] == "orbtrim" else e["L"]}
    S = []
    for x in (e, d):
        M = hist.Machine(gen.conf({"g": g, "els": gen.named([{"type": "source"}, x])}))
        s = M.allocState({}); M.propagate(s); S.append(s)
    for i in range(len(g["IonChargeStates"])):
        cmp.map_close(S[0].transmat[:, :, i], S[1].transmat[:, :, i], "zero strength %s vs drift" % e["type"], 1e-11)
        cmp.vec_close(S[0].moment0[:, i], S[1].moment0[:, i], "zero strength %s centroid" % e["type"], 1e-11)
    cmp.num_close(S[0].pos, S[1].pos, "pos", 1e-12, 1e-12); cmp.num_close(S[0].ref_phis, S[1].ref_phis, "ref_phis", 1e-12, 1e-12)
    return e["L"] > 0, [e["type"]]

CHECKS = [Check("model", strat_all, run_elements, 3000, 60000)] + \
         [Check("model_" + t, (lambda t=t: one(t)), run_elements, 500, 8000, shards=2)
          for t in ("quadrupole", "solenoid", "sbend", "edipole", "equad", "orbtrim", "sextupole")] + \
         [Check("compose", strat_split, run_split, 1500, 20000, shards=4), Check("zero", strat_zero, run_zero, 600, 6000, shards=2)]
CHECKS = [hist.warmed(c) for c in CHECKS]
