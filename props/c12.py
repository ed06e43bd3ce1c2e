import numpy as np
from hypothesis import strategies as st
import gen, ref, cmp, hist
from core import Check, fail
from gen import fl, chance

RULE = ("Beam definitions over every combination of the keys IonEs, IonEk, SampleFreq, IonZ, IonQ, IonChargeStates (0-6 states), NCharge, cstate, vector_variable, matrix_variable and the "
        "numbered vectors, in the machine's globals, in allocState's dictionary (alone or inherited) or in a source element, as text or as dictionary, including missing, wrongly sized and "
        "wrongly typed entries; the allocated state (or the state after the source) is compared attribute by attribute with an independent model, or the error is demanded; "
        "non-trivial = at least one charge state is listed, or the definition must be rejected.")
ASSUMPTIONS = ["without IonChargeStates an unusable moment0/initial may either be rejected or fall back to the defaults", "cstate is a non-negative number"]
TECHNIQUE = "model-based property testing (Hypothesis) of state construction against an independent model"

num = fl(-1e3, 1e3)
def vec(n):
    """n distinct-looking numbers from one draw (cheap to generate and to shrink)"""
    return st.integers(1, 9999).map(lambda k: [((k * (i + 1) * 7919) % 2003 - 1001) / 8.0 for i in range(n)])

@st.composite
def beamdef(draw, partial=False):
    """a dictionary of beam keys, mostly complete; 'partial' = an overlay"""
    d = {}
    def maybe(k, s, p):
        if chance(draw, p): d[k] = draw(s)
    maybe("IonEs", st.sampled_from([931.49432e6, 938.2720813e6, 5e8]), 0.3 if partial else 0.9)
    maybe("IonEk", fl(1e4, 3e8), 0.3 if partial else 0.9)
    maybe("SampleFreq", st.sampled_from([40.25e6, 80.5e6, 322e6]), 0.3)
    maybe("IonZ", fl(0.01, 1.0), 0.3); maybe("IonQ", fl(0.1, 1e4), 0.3)
    maybe("vector_variable", st.sampled_from(["moment0", "BV", "S", "P"]), 0.3)
    maybe("matrix_variable", st.sampled_from(["initial", "S", "M", "initial1"]), 0.3)
    n = draw(st.integers(1, 5))
    if chance(draw, 0.4 if partial else 0.85):
        if chance(draw, 0.05): n = 0
        if chance(draw, 0.06): n = 11 + draw(st.integers(0, 3))
        d["IonChargeStates"] = [draw(fl(0.01, 1.0)) for _ in range(n)]
        k = n + draw(st.sampled_from([-1, 1])) if chance(draw, 0.06) else n
        d["NCharge"] = [draw(fl(0.01, 1e4)) for _ in range(max(0, k))]
        if chance(draw, 0.04): del d["NCharge"]
        maybe("cstate", st.integers(0, max(0, n if chance(draw, 0.2) else n - 1)).map(float), 0.3)
    else:
        maybe("cstate", st.just(0.0), 0.05)
        maybe("NCharge", vec(2), 0.1)
    vn, mn = d.get("vector_variable", "moment0"), d.get("matrix_variable", "initial")
    for i in range(n + draw(st.integers(0, 1))):
        if not chance(draw, 0.04):
            d["%s%d" % (vn, i)] = draw(vec(7)) if not chance(draw, 0.04) else draw(st.one_of(vec(6), vec(8), vec(0), st.just("x"), num))
        if not chance(draw, 0.04):
            d["%s%d" % (mn, i)] = draw(vec(49)) if not chance(draw, 0.04) else draw(st.one_of(vec(36), vec(48), st.just("y"), num))
    if chance(draw, 0.2): d[vn] = draw(vec(7))
    if chance(draw, 0.2): d[mn] = draw(vec(49))
    if chance(draw, 0.05): d[vn] = draw(vec(5))
    for k in list(d):
        if k[:1] in "BSPMmi" and isinstance(d[k], list) and len(d[k]) in (7, 49) and k not in ("NCharge",):
            v = d[k]
            if len(v) == 7: v[5] = v[5] / 1e5; v[6] = 1.0     # a kinetic energy that stays physical
    return d

class Reject(Exception): pass
def model(d):
    """reference beam, or Reject"""
    isv = lambda k: isinstance(d.get(k), list)
    vn, mn = d.get("vector_variable", "moment0"), d.get("matrix_variable", "initial")
    if isv("IonChargeStates"):
        n = len(d["IonChargeStates"])
        if n == 0: raise Reject("no charge state")
        if int(d.get("cstate", 0)) >= n: raise Reject("cstate out of range")
        if not isv("NCharge") or len(d["NCharge"]) != n: raise Reject("NCharge")
        for i in ([int(d["cstate"])] if "cstate" in d else range(n)):
            if not isv(vn + str(i)) or len(d[vn + str(i)]) != 7: raise Reject(vn + str(i))
            if not isv(mn + str(i)) or len(d[mn + str(i)]) != 49: raise Reject(mn + str(i))
        return ref.initial(d)
    if "cstate" in d: raise Reject("cstate without IonChargeStates")
    q = {k: v for k, v in d.items() if k not in (vn, mn)}
    q["vector_variable"], q["matrix_variable"] = "\1", "\2"            # the two may have one name
    for k, m, t in ((vn, 7, "\1"), (mn, 49, "\2")):
        if isv(k) and len(d[k]) == m: q[t] = d[k]
    return ref.initial(q)

def check(S, b, w, pos=0.0):
    n = len(b.real)
    A = cmp.snap(S)
    def eq(k, v):
        if A[k].shape != np.shape(v) or not np.array_equal(A[k], np.array(v, float), equal_nan=True):
            fail("%s: %s is %s, configured %s", w, k, A[k].tolist(), np.array(v).tolist())
    for nm, at in (("IonZ", "Z"), ("IonQ", "Q"), ("IonEs", "Es"), ("IonEk", "Ek"), ("SampleFreq", "freq"), ("phis", "phis")):
        eq("ref_" + nm, getattr(b.ref, at)); eq(nm, [getattr(p, at) for p in b.real])
    eq("moment0", np.array(b.m0).T); eq("moment1", np.array(b.m1).transpose(1, 2, 0)); eq("transmat", np.array([np.eye(7)] * n).transpose(1, 2, 0))
    eq("pos", pos); eq("last_caviphi0", 0.0)
    for nm, at in (("IonW", "W"), ("gamma", "gamma"), ("beta", "beta"), ("bg", "bg"), ("SampleIonK", "k")):
        for p, x in [(b.ref, float(A["ref_" + nm]))] + list(zip(b.real, A[nm])):
            g = p.gamma if p.Es else 2.0
            if g >= 1: cmp.num_close(float(x), getattr(p, at), "%s: %s" % (w, nm), 1e-12 / max(1e-9, 1 - 1 / g ** 2) if g > 1 else 1e-3)
    e0, e1 = b.env(); sc0 = max(1.0, np.abs(np.array(b.m0)).max()); sc1 = max(np.abs(np.array(b.m1)).max(), sc0 ** 2)
    if np.abs(A["moment0_env"] - e0).max() > 1e-12 * sc0: fail("%s: moment0_env %s, weighted mean %s", w, A["moment0_env"].tolist(), e0.tolist())
    if np.abs(A["moment1_env"] - e1).max() > 1e-12 * sc1: fail("%s: moment1_env %s, weighted covariance %s", w, A["moment1_env"].tolist(), e1.tolist())
    for j in range(7):
        v = A["moment1_env"][j, j]
        if v >= 0: cmp.num_close(float(A["moment0_rms"][j]), float(np.sqrt(v)), "%s: moment0_rms[%d]" % (w, j), 1e-12)

@st.composite
def strat(draw):
    return {"g": draw(beamdef()), "d": draw(beamdef(partial=draw(st.booleans()))), "mode": draw(st.sampled_from(["machine", "dict", "inherit", "empty"])),
            "text": draw(st.booleans())}

def mk(g, els, text):
    import flame
    c = {"g": g, "els": els}
    return hist.Machine(gen.text(c).encode()) if text else hist.Machine(gen.conf(c))
def cv(d): return {k: (np.array(v, float) if isinstance(v, list) else v) for k, v in d.items()}

def run(case, env):
    g, d, mode = case["g"], case["d"], case["mode"]
    # marker only: the globals need not be a usable beam for the machine to exist
    M = mk(g, [{"name": "m", "type": "marker"}], case["text"])
    eff = {"machine": g, "dict": d, "inherit": dict(g, **d), "empty": {}}[mode]
    try: b = model(eff)
    except Reject as e: b = None; why = str(e)
    try:
        S = M.allocState() if mode == "machine" else M.allocState(cv(d)) if mode == "dict" else M.allocState(cv(d), inherit=True) if mode == "inherit" else M.allocState({})
    except Exception as e:
        if b is not None and "IonChargeStates" in eff: fail("allocState (%s) rejected a complete definition: %s", mode, e)
        if b is not None and not bad(eff): fail("allocState (%s) rejected: %s", mode, e)
        return b is None, ["rejected"]
    if b is None: fail("allocState (%s) accepted a definition that lacks or mis-sizes something: %s", mode, why)
    check(S, b, "allocState (%s)" % mode)
    if S.next_elem != 0: fail("next_elem of a new state is %r", S.next_elem)
    return "IonChargeStates" in eff, [mode, "%d states" % len(b.real), "cstate" if "cstate" in eff else "all", "text" if case["text"] else "dict"]

def bad(eff):
    vn, mn = eff.get("vector_variable", "moment0"), eff.get("matrix_variable", "initial")
    return any(k in eff and (not isinstance(eff[k], list) or len(eff[k]) != m) for k, m in ((vn, 7), (mn, 49)))

# ---- source
@st.composite
def strat_src(draw):
    g = draw(beamdef()); own = draw(beamdef(partial=True)) if draw(st.booleans()) else {}
    # names of the source's own numbered vectors follow the effective variable names
    return {"g": g, "own": own, "pos": draw(st.sampled_from([0, 0, 1])), "n0": draw(st.integers(1, 3)), "dirty": draw(st.booleans()), "text": draw(st.booleans()),
            "z": draw(vec(3)), "twice": draw(st.booleans()), "back": draw(st.booleans())}

def run_src(case, env):
    g, own = case["g"], case["own"]
    els = [{"name": "d%d" % i, "type": "drift", "L": 0.5} for i in range(case["pos"])]
    els += [dict(own, name="src", type="source"), {"name": "d9", "type": "drift", "L": 1.0}]
    k = case["pos"]; eff = dict(g, **own)
    try: b = model(eff)
    except Reject as e: b = None; why = str(e)
    try: M = mk(g, els, case["text"])
    except Exception as e:
        if b is not None and ("IonChargeStates" in eff or not bad(eff)): fail("machine with a complete source rejected: %s", e)
        return b is None, ["rejected"]
    if b is None: fail("machine accepted a source that lacks or mis-sizes something: %s", why)
    # a state of another beam
    n0 = case["n0"]
    o = {"IonEs": 931.49432e6, "IonEk": 1e6, "IonChargeStates": np.array([0.3] * n0), "NCharge": np.array([2.0] * n0)}
    for i in range(n0): o["moment0%d" % i] = np.arange(7.0) / 10; o["initial%d" % i] = np.eye(7).ravel() * (i + 1)
    S = M.allocState(o)
    if case["dirty"]: S.moment0 = np.array(S.moment0) * 2; S.pos = 3.25; S.ref_phis = 1.5; S.last_caviphi0 = 12.5; S.transmat = np.array(S.transmat) * 3; S.IonEk = np.array(S.IonEk) * 1.5; S.ref_IonEk = 4e6; S.SampleFreq = np.array(S.SampleFreq) * 2; S.ref_SampleFreq = 1e8; S.phis = np.array(S.phis) + 2
    for rep in range(2 if case["twice"] else 1):
        M.propagate(S, start=k, max=1)
        check(S, b, "state after the source", 0.0)
        if case["twice"]: M.propagate(S, start=k + 1, max=1)
    if case["back"]:
        S = M.allocState(o); a = cmp.snap(S)
        M.propagate(S, start=k, max=-1)
        cmp.same_snap(cmp.snap(S), a, "source passed backward", skip=("next_elem",))
    return "IonChargeStates" in eff, ["own" if own else "inherited", "%d states" % len(b.real)]

# ---- linear simulations
@st.composite
def strat_lin(draw):
    sim = draw(st.sampled_from(["Vector", "TransferMatrix"])); full = 6 if sim == "Vector" else 36
    def ini(p):
        if not chance(draw, p): return None
        m = full if not chance(draw, 0.3) else draw(st.integers(0, full + 3))
        return draw(vec(m))
    return {"sim": sim, "g": ini(0.7), "d": ini(0.7), "own": ini(0.5), "mode": draw(st.sampled_from(["machine", "dict", "inherit", "empty"])), "text": draw(st.booleans()),
            "typ": draw(st.sampled_from([None] * 7 + ["x", 2.5]))}

def run_lin(case, env):
    import flame
    sim = case["sim"]; full = 6 if sim == "Vector" else 36
    base = np.zeros(6) if sim == "Vector" else np.eye(6).ravel()
    def want(v):
        if v is None: return base
        if len(v) > full: return None
        w = base.copy(); w[:len(v)] = v; return w
    glob = {} if case["g"] is None else {"initial": case["g"]}
    own = {} if case["own"] is None else {"initial": case["own"]}
    els = [dict(own, name="s", type="source"), {"name": "m", "type": "marker"}]
    src = want(dict(glob, **own).get("initial"))
    c = {"g": glob, "els": els}
    try: M = hist.Machine(gen.text(c, sim).encode()) if case["text"] else hist.Machine(gen.conf(c, sim))
    except Exception as e:
        if src is not None: fail("%s machine rejected: %s", sim, e)
        return True, ["rejected"]
    if src is None: fail("%s machine accepted a source with too many initial values", sim)
    d = {} if case["d"] is None else {"initial": np.array(case["d"], float)}
    if case["typ"] is not None and case["mode"] != "machine":
        try: S = M.allocState({"initial": case["typ"]})
        except Exception: return True, ["wrong type rejected"]
        if not np.array_equal(np.array(S.state).ravel(), base): fail("%s: initial=%r gives %s", sim, case["typ"], S.state)
        return False, ["wrong type ignored"]
    mode = case["mode"]
    eff = {"machine": glob, "dict": d, "inherit": dict(glob, **d), "empty": {}}[mode].get("initial")
    w = want(eff)
    try: S = M.allocState() if mode == "machine" else M.allocState(d) if mode == "dict" else M.allocState(d, inherit=True) if mode == "inherit" else M.allocState({})
    except Exception as e:
        if w is not None: fail("%s allocState (%s) rejected: %s", sim, mode, e)
        return True, ["rejected"]
    if w is None: fail("%s allocState (%s) accepted %d initial values", sim, mode, len(eff))
    if not np.array_equal(np.array(S.state).ravel(), w): fail("%s allocState (%s): state %s, configured %s", sim, mode, np.array(S.state).tolist(), w.tolist())
    if S.pos != 0 or S.next_elem != 0: fail("%s: new state has pos %r next_elem %r", sim, S.pos, S.next_elem)
    M.propagate(S, 0, 1)
    if not np.array_equal(np.array(S.state).ravel(), src): fail("%s after the source: state %s, configured %s", sim, np.array(S.state).tolist(), src.tolist())
    return True, [sim, mode]

CHECKS = [Check("alloc", strat, run, 8000, 150000), Check("source", strat_src, run_src, 5000, 90000), Check("linear", strat_lin, run_lin, 1000, 10000, shards=4)]
CHECKS = [hist.warmed(c) for c in CHECKS]
