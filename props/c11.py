import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref, cmp, hist
from core import Check, fail
from gen import fl

RULE = ("A lattice of 1-5 moment elements and 1-5 charge states with fractions over six decades (exact zeros allowed for some): averages recomputed from the "
        "per-charge arrays at creation and after every element; and a second beam made from the first by permuting, dropping, duplicating (fraction split) or "
        "rescaling charge states, compared per charge state and in the averages; non-trivial = at least two charge states.")
ASSUMPTIONS = ["the reference charge and fraction are given explicitly, so that they do not depend on the order of charge states", "tolerance 1e-10"]
TECHNIQUE = "metamorphic property-based testing (Hypothesis) over charge-state sets, plus direct recomputation of averages"

def averages(s, w):
    Q = s["IonQ"]; tot = Q.sum(); m0 = s["moment0"]; m1 = s["moment1"]
    mean = (m0 * Q).sum(1) / tot
    cov = np.zeros((7, 7))
    for k in range(Q.size):
        d = (m0[:, k] - mean)[:6]
        cov[:6, :6] += Q[k] * (m1[:6, :6, k] + np.outer(d, d))
    cov /= tot
    big0 = np.abs(m0 / ref.U[:, None]).max(); big1 = np.abs(m1 / np.outer(ref.U, ref.U)[:, :, None]).max() + big0 ** 2
    if not np.isfinite(big1) or not abs(tot) > 1e-200: return False
    cmp.vec_close(s["moment0_env"], mean, w + " moment0_env", 1e-12, scale=big0)
    cmp.cov_close(s["moment1_env"], cov, w + " moment1_env", 1e-12, scale=big1)
    r = s["moment0_rms"]; d = np.diag(s["moment1_env"])
    for j in range(7):
        if d[j] >= 0: cmp.num_close(r[j], np.sqrt(d[j]), "%s moment0_rms[%d]" % (w, j), 1e-12, 0.0)
    return True

@st.composite
def strat(draw, op=True):
    c = dict(draw(hist.moment_lattice(cav=0.25, broken=0.0, nmax=4, strip=not op)))
    g = dict(draw(gen.beam(nmin=1, nmax=5, Ek=(3e5, 1e8), spread=0.2, energy=0.02)))
    n = len(g["IonChargeStates"])
    if n > 1 and draw(st.integers(0, 3)) == 3: g["NCharge"][draw(st.integers(0, n - 1))] = 0.0
    if draw(st.integers(0, 3)) == 3: g["NCharge"][draw(st.integers(0, n - 1))] *= 1e-5
    if sum(g["NCharge"]) <= 0: g["NCharge"] = [1.0] * n
    g["IonZ"] = g.get("IonZ", g["IonChargeStates"][0]); g["IonQ"] = 1.0
    c["g"] = g
    els = [e for e in c["els"] if e["type"] != "source"]
    c["els"] = gen.named(([{"type": "source"}] if draw(st.booleans()) else []) + els)
    if op:
        k = draw(st.sampled_from(["perm", "drop", "split", "scale", "add"]))
        c["op"] = k
        if k == "perm": c["arg"] = draw(st.permutations(list(range(n))))
        elif k == "drop": c["arg"] = draw(st.integers(0, n - 1))
        elif k == "split": c["arg"] = [draw(st.integers(0, n - 1)), draw(fl(0.1, 0.9))]
        elif k == "scale": c["arg"] = draw(st.sampled_from([0.5, 3.0, 1e-3, 1e4]))
        else:
            h = draw(gen.beam(nmin=1, nmax=1, Ek=(3e5, 1e8), energy=0.02))
            h["moment00"][5] *= g["IonEk"] / h["IonEk"]
            c["arg"] = [g["IonChargeStates"][0] * (1 + draw(fl(-.1, .1))), draw(fl(0.1, 1e3)), h["moment00"], h["initial0"], draw(st.integers(0, n))]
    return c

def states(g):
    return [(z, q, g["moment0%d" % i], g["initial%d" % i]) for i, (z, q) in enumerate(zip(g["IonChargeStates"], g["NCharge"]))]
def beam(g, L):
    h = {k: v for k, v in g.items() if not (k[:7] in ("moment0", "initial") and k[7:].isdigit())}
    h["IonChargeStates"] = [l[0] for l in L]; h["NCharge"] = [l[1] for l in L]
    for i, l in enumerate(L): h["moment0%d" % i], h["initial%d" % i] = l[2], l[3]
    return h

def run_avg(case, env):
    import flame
    c = gencav.materialize(case, env)
    M = hist.Machine(gen.conf(c)); S = M.allocState(); averages(cmp.snap(S), "new state")
    labels = set()
    for i, s in M.propagate(S, observe=list(range(len(c["els"])))):
        if not averages(cmp.snap(s), "after [%d] %s" % (i, c["els"][i]["type"])): break
        labels.add(c["els"][i]["type"])
    # backwards too
    n = len(c["els"])
    if not any(e["type"] in ("rfcavity", "stripper", "sextupole") for e in c["els"]):
        try: M.propagate(S, n - 1, -n)
        except RuntimeError: return False, ["singular map"]
        averages(cmp.snap(S), "after the backward pass"); labels.add("backward")
    return len(case["g"]["NCharge"]) > 1, labels

PER = ("IonZ", "IonEs", "IonEk", "IonW", "gamma", "beta", "bg", "SampleFreq", "SampleIonK", "phis")
def run_indep(case, env):
    import flame
    c = gencav.materialize(case, env); g = c["g"]; L = states(g); n = len(L); op, arg = case["op"], case["arg"]
    idx = list(range(n))                      # idx[j]: where charge state j of the second beam is in the first
    L2 = list(L)
    if op == "perm": idx = list(arg); L2 = [L[j] for j in idx]
    elif op == "drop":
        if n == 1: return False, ["single"]
        idx.pop(arg); L2 = [L[j] for j in idx]
        if sum(l[1] for l in L2) <= 0: return False, ["no charge left"]
    elif op == "split":
        j, f = arg; z, q, a, b = L[j]
        L2[j] = (z, q * f, a, b); L2.append((z, q * (1 - f), a, b)); idx.append(j)
    elif op == "scale": L2 = [(z, q * arg, a, b) for z, q, a, b in L]
    else: L2.insert(arg[4], tuple(arg[:4])); idx.insert(arg[4], None)
    def go(g):
        M = hist.Machine(gen.conf(dict(c, g=g))); S = M.allocState()
        if not any(e["type"] == "source" for e in c["els"]): pass
        M.propagate(S); return cmp.snap(S)
    A, B = go(g), go(beam(g, L2))
    for k in A:
        if k.startswith("ref_") or k in ("pos", "next_elem", "last_caviphi0"):
            if not np.array_equal(A[k], B[k], equal_nan=True): cmp.num_close(float(B[k]), float(A[k]), "%s %s" % (op, k), 1e-13)
    for j, i in enumerate(idx):
        if i is None: continue
        for k in PER: cmp.num_close(float(B[k][j]), float(A[k][i]), "%s: %s of charge state %d" % (op, k, i), 1e-12, 0.0)
        for k in ("moment0", "moment1", "transmat"):
            x, y = B[k][..., j], A[k][..., i]
            m = np.isfinite(y)
            if not np.array_equal(m, np.isfinite(x)) or not np.all(np.abs(x - y)[m] <= 1e-12 * (np.abs(y[m]).max() if m.any() else 0)): fail("%s: %s of charge state %d: got %s expected %s", op, k, i, x.tolist(), y.tolist())
    for j in range(len(L2)):
        cmp.num_close(float(B["IonQ"][j]), L2[j][1], "%s IonQ" % op, 1e-14)
    averages(B, op)
    if op in ("perm", "split", "scale") and np.all(np.isfinite(A["moment1_env"])):
        big0 = np.abs(A["moment0"] / ref.U[:, None]).max(); big1 = np.abs(A["moment1"] / np.outer(ref.U, ref.U)[:, :, None]).max() + big0 ** 2
        cmp.vec_close(B["moment0_env"], A["moment0_env"], "%s: mean" % op, 1e-11, scale=big0)
        cmp.cov_close(B["moment1_env"], A["moment1_env"], "%s: covariance" % op, 1e-11, scale=big1)
    return n > 1, [op] + [e["type"] for e in c["els"]]

CHECKS = [Check("averages", lambda: strat(False), run_avg, 3000, 40000), Check("independence", strat, run_indep, 3000, 40000)]
CHECKS = [hist.warmed(c) for c in CHECKS]
