import math
import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl, chance

RULE = ("A beam of 1-12 charge states (fractions over six decades) reaches, directly or after a static element, a stripper with generated output charge states (own or inherited, 1-14), charge model, "
        "loss and straggling parameters; state compared with an independent model, then carried on through a further element or second stripper. Metamorphic: reordering, rescaling or splitting the "
        "incoming charge states; non-trivial = two or more charge states in or out.")
ASSUMPTIONS = ["covariance diagonals of the incoming beam are positive, as straggling is applied as a relative growth", "computed (Baron) fractions depend on the first incoming charge state's velocity"]
TECHNIQUE = "model-based and metamorphic property testing (Hypothesis)"

@st.composite
def inbeam(draw):
    g = dict(draw(gen.beam(nmin=1, nmax=4, Ek=(1e6, 5e7), spread=0.2, energy=0.01)))
    if chance(draw, 0.15):
        for i in range(len(g["IonChargeStates"]), 12):
            g["IonChargeStates"].append(g["IonChargeStates"][0] * (1 + i / 100.0)); g["NCharge"].append(1.0 + i)
            g["moment0%d" % i] = list(g["moment00"]); g["moment0%d" % i][0] += i / 8.0; g["initial%d" % i] = g["initial0"]
    n = len(g["NCharge"])
    if n > 1 and chance(draw, 0.3): g["NCharge"][draw(st.integers(0, n - 1))] = draw(st.sampled_from([0.0, 1e-3, 1e5]))
    if sum(g["NCharge"]) <= 0: g["NCharge"][0] = 1.0
    return g

def strip(draw, g):
    e = draw(gencav.stripper(g, nmax=14 if chance(draw, 0.1) else 5))
    if chance(draw, 0.15): e.pop("Stripper_Para"); e.pop("Stripper_E0Para")
    if "IonChargeStates" in e and e.get("charge_model") != "off" and chance(draw, 0.8):     # around the computed mean charge
        pr = e.get("Stripper_IonProton", 92.0); beta = ref.initial(g).real[0].beta
        q1 = pr * (1 - math.exp(-83.275 * beta / pr ** 0.447)); qa = abs(q1 * (1 - math.exp(-12.905 + 0.2124 * pr - 0.00122 * pr * pr)))
        e["IonChargeStates"] = [float("%.9g" % ((qa + draw(fl(-6, 6))) / e.get("Stripper_IonMass", 238.0))) for _ in e["IonChargeStates"]]
        e["IonChargeStates"] = [z if z > 0.01 else 0.01 for z in e["IonChargeStates"]]
    return e

@st.composite
def strat(draw):
    g = draw(inbeam()); els = [{"type": "source"}]
    if chance(draw, 0.5): els.append(draw(gen.element(g, ("drift", "quadrupole", "solenoid", "sbend", "orbtrim"), mis=0.2, curves=0.0)))
    els.append(strip(draw, g))
    if chance(draw, 0.25): els.append(strip(draw, g))
    if chance(draw, 0.4): els.append(draw(gen.element(g, ("drift", "quadrupole", "marker"), mis=0.2, curves=0.0)))
    c = {"g": g, "els": gen.named(els)}
    if chance(draw, 0.25): c["set"] = {k: [draw(fl(lo, hi)) for _ in g["NCharge"]] for k, (lo, hi) in {"IonEs": (0.98, 1.02), "SampleFreq": (0.5, 2.0), "IonZ": (0.8, 1.2), "IonQ": (0.5, 3.0), "phis": (-1.0, 1.0)}.items() if draw(st.booleans())}
    return c

def well(s):
    d = np.array([np.diag(s["moment1_env"])[k] for k in (1, 3, 5)])
    return np.all(np.isfinite(s["moment0"])) and np.all(np.isfinite(s["moment1"])) and np.all(d > 1e-14)

def run(case, env):
    import flame
    M = hist.Machine(gen.conf(case)); S = M.allocState({}); b = ref.initial(case["g"])
    nt = len(case["g"]["IonChargeStates"]) > 1; labels = set()
    for i, e in enumerate(case["els"]):
        if i == 1 and case.get("set"):                                                 # a state changed by hand
            for k, v in case["set"].items():
                a = np.array(getattr(S, k)); v = a + v if k == "phis" else a * v; setattr(S, k, v)
                for p, x in zip(b.real, v): setattr(p, {"IonEs": "Es", "SampleFreq": "freq", "IonZ": "Z", "IonQ": "Q", "phis": "phis"}[k], float(x))
            labels.add("changed by hand")
        if i: ref.advance(b, e, case["g"])
        if i and e["type"] == "stripper" and not well(cmp.snap(S)): return False, ["degenerate beam"]
        if any(p.Ek <= 0 for p in b.real + [b.ref]): return False, ["stopped"]
        M.propagate(S, start=i, max=1)
        w = "after %s %s" % (e["type"], e["name"])
        if sum(p.Q for p in b.real) < 1e-200: return False, ["no charge left"]
        if not np.isfinite(np.array(S.moment1)).all(): return False, ["not finite"]
        cmp.cmp_beam(S, b, w, 1e-8, 1e-9)
        A = cmp.snap(S)
        if e["type"] == "stripper":
            derived(A, w)
            labels.add(e.get("charge_model", "default")); labels.add("own" if "IonChargeStates" in e else "inherited states")
            labels.add("%d->%d" % (min(3, len(case["g"]["IonChargeStates"])), min(3, len(b.real))))
            if len(b.real) > 1: nt = True
            if len(b.real) > 10: labels.add("more than 10 states")
            q = S.clone(); cmp.same_snap(cmp.snap(q), A, w + " clone")
    return nt, labels

def derived(A, w):
    for p in ("ref_", ""):
        Ek, Es, f = (np.atleast_1d(A[p + k]) for k in ("IonEk", "IonEs", "SampleFreq"))
        g = (Ek + Es) / Es; b = np.sqrt(1 - 1 / g ** 2)
        for k, v in (("gamma", g), ("beta", b), ("bg", b * g), ("IonW", Ek + Es), ("SampleIonK", 2 * math.pi / (b * ref.C0 / f * 1e3))):
            if not np.allclose(np.atleast_1d(A[p + k]), v, rtol=1e-9, atol=0): fail("%s: %s%s %s inconsistent with the energy, expected %s", w, p, k, A[p + k].tolist(), v.tolist())
    Q = A["IonQ"]
    if A["moment0_env"].size and abs(A["moment0_env"] - (A["moment0"] * Q).sum(1) / Q.sum()).max() > 1e-9 * max(1, np.abs(A["moment0"]).max()): fail("%s: moment0_env", w)
    for j in range(6): cmp.num_close(float(A["moment0_rms"][j]), math.sqrt(A["moment1_env"][j, j]), "%s moment0_rms[%d]" % (w, j), 1e-10)
    m1 = A["moment1"]
    if np.abs(m1 - m1.transpose(1, 0, 2)).max() > 1e-9 * np.abs(m1).max(): fail("%s: covariance not symmetric", w)

# ---- invariance under rearrangement of the incoming charge states
@st.composite
def strat_meta(draw):
    g = draw(inbeam()); n = len(g["NCharge"]); g["IonZ"] = g["IonChargeStates"][0]; g["IonQ"] = 1.0
    e = strip(draw, g)
    if "IonChargeStates" not in e: e["IonChargeStates"] = [0.3, 0.35]; e["NCharge"] = [1.0, 2.0]
    op = draw(st.sampled_from(["perm", "scale", "split"]))
    arg = draw(st.permutations(list(range(n)))) if op == "perm" else draw(st.sampled_from([1e-3, 7.0, 1e4])) if op == "scale" else [draw(st.integers(0, n - 1)), draw(fl(0.1, 0.9))]
    return {"g": g, "els": gen.named([{"type": "source"}, e, {"type": "drift", "L": 0.5}]), "op": op, "arg": arg}

def run_meta(case, env):
    import flame
    g = case["g"]; n = len(g["NCharge"]); op, arg = case["op"], case["arg"]
    L = [(g["IonChargeStates"][i], g["NCharge"][i], g["moment0%d" % i], g["initial%d" % i]) for i in range(n)]
    if op == "perm": L2 = [L[i] for i in arg]
    elif op == "scale": L2 = [(l[0], l[1] * arg) + l[2:] for l in L]
    else:
        l = L[arg[0]]; L2 = list(L); L2[arg[0]] = (l[0], l[1] * arg[1]) + l[2:]; L2.append((l[0], l[1] * (1 - arg[1])) + l[2:])
    h = {k: v for k, v in g.items() if not (k[:7] in ("moment0", "initial") and k[7:].isdigit())}
    h["IonChargeStates"] = [l[0] for l in L2]; h["NCharge"] = [l[1] for l in L2]
    for i, l in enumerate(L2): h["moment0%d" % i], h["initial%d" % i] = l[2], l[3]
    A = []
    for q in (g, h):
        M = hist.Machine(gen.conf(dict(case, g=q))); S = M.allocState({}); M.propagate(S)
        A.append(cmp.snap(S))
    a, b = A
    if not (np.isfinite(a["moment1"]).all() and well(a)): return False, ["degenerate beam"]
    if not min(a["IonQ"].sum(), b["IonQ"].sum()) > 1e-200: return False, ["no charge left"]
    off = case["els"][1].get("charge_model") == "off"
    if L[0][2] != L2[0][2] and not off:        # computed fractions follow the first incoming state
        a, b = dict(a), dict(b)
        for k in ("IonQ", "moment0_env", "moment1_env", "moment0_rms"): a.pop(k); b.pop(k)
    cmp.same_snap(b, a, "incoming charge states %s" % op, 1e-9)
    return n > 1, [op]

# ---- errors
@st.composite
def strat_err(draw):
    g = draw(inbeam()); e = strip(draw, g)
    if "IonChargeStates" not in e: e["IonChargeStates"] = [0.3, 0.35]; e["NCharge"] = [1.0, 2.0]
    k = draw(st.sampled_from(["model", "size", "nocharge", "short", "short0", "empty"]))
    if k == "model": e["charge_model"] = draw(st.sampled_from(["Baron", "on", "", "x"]))
    elif k == "size": e["charge_model"] = "off"; e["NCharge"] = e["NCharge"] + [1.0] if draw(st.booleans()) else e["NCharge"][:-1]
    elif k == "nocharge": e["IonChargeStates"] = draw(st.sampled_from(["x", 3.0]))
    elif k == "short": e["Stripper_Para"] = [3.0, 20.0][:draw(st.integers(0, 2))]
    elif k == "short0": e["Stripper_E0Para"] = [1e6, 1.0][:draw(st.integers(0, 2))]
    else: e["IonChargeStates"] = []; e["NCharge"] = []
    return {"g": g, "els": gen.named([{"type": "source"}, e]), "k": k}

def run_err(case, env):
    import flame
    try: M = hist.Machine(gen.conf(case))
    except Exception: return True, [case["k"] + " (construction)"]
    S = M.allocState({}); M.propagate(S, 0, 1); a = cmp.snap(S)
    try: M.propagate(S, 1, 1)
    except Exception:
        b = cmp.snap(S)
        for k in ("IonZ", "moment0", "moment1", "IonQ"):
            if not np.array_equal(a[k], b[k]): fail("rejected stripper (%s) changed %s", case["k"], k)
        return True, [case["k"]]
    fail("stripper with a wrong parameter (%s) was accepted, charge states %s", case["k"], cmp.snap(S)["IonZ"].tolist())

CHECKS = [Check("model", strat, run, 3000, 60000), Check("rearranged", strat_meta, run_meta, 2000, 30000), Check("errors", strat_err, run_err, 400, 4000, shards=2),
          Check("model_asan", strat, run, 200, 4000, flavour="asan", shards=4)]
CHECKS = [c if c.name in ('errors',) else hist.warmed(c) for c in CHECKS]
