import math, os
import numpy as np
from hypothesis import strategies as st
import gen, ref, cmp, hist
from core import Check, fail
from gen import fl, chance, nz, or0

RULE = ("A solenoid, quadrupole or electrostatic quadrupole given by 1-4 field curves of 1-40 samples (inline or in a data file, in the globals or in the element), with scaling factors and sub-ranges, "
        "against the chain of uniform elements FLAME itself builds, one per sample, with the summed scaled strength: same maps, energies, phases, centroids, covariances and position, per charge state. "
        "Plus: constant curve = uniform element, splitting at a sample, reordering and merging curves; unequal, missing or empty curves and invalid ranges must be rejected; "
        "non-trivial = at least two samples of different strength or a demanded rejection.")
ASSUMPTIONS = ["slices of |K| L^2 below 6 in total, so that rounding stays below the tolerance 1e-9 times the map size"]
TECHNIQUE = "differential property-based testing (Hypothesis) against the equivalent chain of uniform elements"
FIELD = {"quadrupole": "B2", "solenoid": "B", "equad": "V"}

def strength(draw, t, b, L):
    p = b.real[0]; K = draw(nz(1e-3, 3.0)) / (max(L, 0.05) ** 2)
    if t == "quadrupole": return K * p.brho
    if t == "solenoid": return math.copysign(math.sqrt(abs(K)), K) * 2 * p.brho
    return K * p.brho * ref.C0 * p.beta / 2

@st.composite
def curved(draw, g, n=None, m=None):
    t = draw(st.sampled_from(sorted(FIELD))); b = ref.initial(g)
    L = draw(st.one_of(fl(0.02, 1.5), st.just(0.0)) if chance(draw, 0.05) else fl(0.02, 1.5))
    n0, m0 = n, m; n = n or draw(st.integers(1, 4)); m = m or draw(st.integers(1, 8) if not chance(draw, 0.15) else st.integers(9, 40))
    e = {"type": t, "L": L}; free = n0 is None and m0 is None
    if free and chance(draw, 0.04): n = draw(st.integers(5, 13)); m = draw(st.integers(1, 3))
    cs = [[draw(or0(fl(-1.0, 1.0), 1.0)) for _ in range(m)] for _ in range(n)]
    if free and chance(draw, 0.04):                # long curves: the drawn samples, faded, again and again
        k = draw(st.sampled_from([41, 64, 101, 257, 400])); cs = [[c[i % m] * (1 - 0.002 * i) for i in range(k)] for c in cs]; m = k
    sc = [None if chance(draw, 0.1) else strength(draw, t, b, L) / n for _ in range(n)]
    rng = None
    if chance(draw, 0.4):
        a = draw(st.integers(0, m - 1)); z = draw(st.integers(a + 1, m)); rng = [a + (0.5 if chance(draw, 0.05) else 0.0), float(z)]
    return {"e": e, "cs": cs, "sc": sc, "rng": rng, "ncs": draw(st.booleans()), "file": chance(draw, 0.3), "decoy": draw(st.booleans()), "glob": chance(draw, 0.15),
            "extra": draw(st.integers(0, 1))}

def build(d, env, g):
    """(element, globals) of the curved element"""
    e = dict(d["e"]); h = dict(g); n = len(d["cs"])
    e["ncurve"] = str(n) if d["ncs"] else float(n)
    for i, s in enumerate(d["sc"]):
        if s is not None: e["scl_fac%d" % i] = s
    if d["rng"]: e["use_range"] = list(d["rng"])
    if d["file"]:
        env.n += 1; dr = env.tmp("cur%d" % env.n); os.makedirs(dr, exist_ok=True)
        with open(os.path.join(dr, "c.lat"), "w") as f:
            for i, c in enumerate(d["cs"]): f.write("curve%d = [%s];\n" % (i, ", ".join(repr(x) for x in c)))
        e["CurveFile"] = "c.lat"; e["Eng_Data_Dir"] = dr
        if d["decoy"]:                     # the file wins over inline curves
            for i, c in enumerate(d["cs"]): e["curve%d" % i] = [x + 0.25 for x in c]
    else:
        for i, c in enumerate(d["cs"]): (h if d["glob"] else e)["curve%d" % i] = list(c)
        if d["extra"]: e["curve%d" % n] = [3.0]; e["scl_fac%d" % n] = 1.0         # not among the ncurve curves: ignored
    return e, h

def slices(d):
    """the uniform elements"""
    t = d["e"]["type"]; k = FIELD[t]
    cs = [c[int(d["rng"][0]):int(d["rng"][1])] if d["rng"] else c for c in d["cs"]]
    m = len(cs[0]); out = []
    for j in range(m):
        v = sum((s or 0.0) * c[j] for s, c in zip(d["sc"], cs))
        e = {"type": t, "L": d["e"]["L"] / m, k: v}
        if t == "equad": e["radius"] = 1.0
        out.append(e)
    return out

def total(c):
    """final snapshot and accumulated maps"""
    import flame
    M = hist.Machine(gen.conf(c)); S = M.allocState({}); M.propagate(S, 0, 1)
    n = len(c["g"]["IonChargeStates"]); T = [np.eye(7) for _ in range(n)]; seen = [cmp.snap(S)]
    for i in range(1, len(c["els"])):
        M.propagate(S, i, 1); A = cmp.snap(S); seen.append(A)
        T = [A["transmat"][:, :, k] @ T[k] for k in range(n)]
    return A, T, seen

def compare(a, b, w):
    A, T, s1 = a; B, R, s2 = b
    if not all(np.isfinite(x).all() for x in R): return False
    big = max(1.0, max(np.abs(x * ref.U[None, :] / ref.U[:, None]).max() for s in s2 for x in np.moveaxis(s["transmat"], 2, 0)), max(np.abs(x * ref.U[None, :] / ref.U[:, None]).max() for x in R))
    if big > 1e5: return False
    tol = 1e-10 * len(s2) * big
    for k in range(len(T)):
        cmp.map_close(T[k], R[k], "%s: map of charge state %d" % (w, k), tol)
        cmp.vec_close(A["moment0"][:, k], B["moment0"][:, k], "%s: centroid %d" % (w, k), tol * big)
        cmp.cov_close(A["moment1"][:, :, k], B["moment1"][:, :, k], "%s: covariance %d" % (w, k), tol * big * big)
        cmp.num_close(A["phis"][k], B["phis"][k], "%s: phase %d" % (w, k), 1e-10, 1e-10)
        if A["IonEk"][k] != B["IonEk"][k]: fail("%s: energy", w)
    cmp.num_close(float(A["pos"]), float(B["pos"]), w + ": pos", 1e-12, 1e-12); cmp.num_close(float(A["ref_phis"]), float(B["ref_phis"]), w + ": ref_phis", 1e-10, 1e-10)
    return True

@st.composite
def strat(draw):
    g = draw(gen.beam(nmax=3, Ek=(2e4, 2e8), spread=0.2, energy=0.02))
    return {"g": g, "d": draw(curved(g)), "again": draw(st.booleans())}

def run(case, env):
    d = case["d"]; e, h = build(d, env, case["g"]); sl = slices(d)
    b = total({"g": case["g"], "els": gen.named([{"type": "source"}] + sl)})
    for _ in range(2 if case["again"] else 1):
        a = total({"g": h, "els": gen.named([{"type": "source"}, e])})
        ok = compare(a, b, "%s with %d curves of %d samples" % (e["type"], len(d["cs"]), len(d["cs"][0])))
    k = FIELD[e["type"]]
    lab = [e["type"], "file" if d["file"] else "inline", "range" if d["rng"] else "all", "%d curves" % len(d["cs"])]
    return ok and len(set(x[k] for x in sl)) > 1, lab

# ---- metamorphic
@st.composite
def strat_meta(draw):
    g = draw(gen.beam(nmax=2, Ek=(2e4, 2e8), spread=0.2, energy=0.02))
    op = draw(st.sampled_from(["constant", "split", "permute", "merge", "refine"]))
    d = draw(curved(g, n=draw(st.integers(2, 4)) if op in ("permute", "merge") else None, m=draw(st.integers(2, 8)) if op == "split" else None))
    if op == "constant": d["cs"] = [[c[0]] * len(c) for c in d["cs"]]
    if op == "split": d["rng"] = None
    return {"g": g, "d": d, "op": op, "k": draw(st.integers(1, max(1, len(d["cs"][0]) - 1))), "perm": draw(st.permutations(list(range(len(d["cs"]))))), "mis": draw(gen.misalignment(0.4)) if op != "split" else {}}

def run_meta(case, env):
    g, d, op = case["g"], case["d"], case["op"]; d = dict(d, e=dict(d["e"], **case["mis"]))
    e, h = build(d, env, g); t = e["type"]; m = len(d["cs"][0])
    a = total({"g": h, "els": gen.named([{"type": "source"}, e])})
    src = {"type": "source"}
    if op == "constant":
        f = dict(d["e"]); f[FIELD[t]] = sum((s or 0.0) * c[0] for s, c in zip(d["sc"], d["cs"]))
        if t == "equad": f["radius"] = 1.0
        els = [f]; q = h
    elif op == "split":
        k = min(case["k"], m - 1); els = []
        for lo, hi in ((0, k), (k, m)):
            x, q = build(dict(d, rng=[float(lo), float(hi)], e=dict(d["e"], L=d["e"]["L"] * (hi - lo) / m)), env, g); els.append(x)
    else:
        if op == "permute": d2 = dict(d, cs=[d["cs"][i] for i in case["perm"]], sc=[d["sc"][i] for i in case["perm"]])
        elif op == "merge":
            c = [(d["sc"][0] or 0.0) * x + (d["sc"][1] or 0.0) * y for x, y in zip(d["cs"][0], d["cs"][1])]
            d2 = dict(d, cs=[c] + d["cs"][2:], sc=[1.0] + d["sc"][2:])
        else:
            d2 = dict(d, cs=[[x for x in c for _ in range(2)] for c in d["cs"]], rng=[2 * x for x in d["rng"]] if d["rng"] and d["rng"][0] == int(d["rng"][0]) else None)
            if d["rng"] and d2["rng"] is None: return False, ["fractional range"]
        x, q = build(d2, env, g); els = [x]
    b = total({"g": q, "els": gen.named([src] + els)})
    ok = compare(a, b, "%s (%s)" % (t, op))
    return ok, [op, t] + (["misaligned"] if case["mis"] else [])

# ---- rejections
@st.composite
def strat_err(draw):
    g = draw(gen.beam(nmax=2, Ek=(2e4, 2e8))); k = draw(st.sampled_from(["unequal", "missing", "past", "reversed", "empty range", "negative", "size", "empty", "type", "ncurve", "nofile", "badfile"]))
    d = draw(curved(g, n=draw(st.integers(2, 4)) if k in ("unequal",) else None)); d["rng"] = None; d["extra"] = 0; d["glob"] = False
    m = len(d["cs"][0])
    if k == "unequal": 
        x = d["cs"][draw(st.integers(0, len(d["cs"]) - 1))]
        if len(x) > 1 and draw(st.booleans()): x.pop()
        else: x.append(0.5)
    elif k == "past": d["rng"] = [float(draw(st.integers(0, m))), float(m + draw(st.integers(1, 5)))]
    elif k == "reversed": d["rng"] = [float(m), float(draw(st.integers(0, m - 1)))]
    elif k == "empty range": x = float(draw(st.integers(0, m))); d["rng"] = [x, x]
    elif k == "negative": d["rng"] = [-float(draw(st.integers(1, 3))), float(m)] if draw(st.booleans()) else [0.0, -1.0]
    elif k == "size": d["rng"] = draw(st.sampled_from([[], [0.0], [0.0, 1.0, 1.0]]))
    elif k == "empty": d["cs"] = [[] for _ in d["cs"]]
    elif k in ("nofile", "badfile"): d["file"] = True
    return {"g": g, "d": d, "k": k, "arg": draw(st.sampled_from([1.5, -1.0, "1.5", 1e10]))}

def run_err(case, env):
    import flame
    d, k = case["d"], case["k"]; e, h = build(d, env, case["g"])
    if k == "size": e["use_range"] = d["rng"]
    if k == "missing": e["ncurve"] = float(len(d["cs"]) + 1)
    if k == "type":
        if d["file"]: open(os.path.join(e["Eng_Data_Dir"], "c.lat"), "w").write("curve0 = 1;\n")
        else: e["curve0"] = 1.0
    if k == "ncurve": e["ncurve"] = case["arg"]
    if k == "nofile": e["CurveFile"] = "no_such.lat"
    if k == "badfile": open(os.path.join(e["Eng_Data_Dir"], "c.lat"), "w").write("curve0 = [1, 2;\n")
    try:
        M = hist.Machine(gen.conf({"g": h, "els": gen.named([{"type": "source"}, e])})); S = M.allocState({}); M.propagate(S)
    except Exception: return True, [k]
    fail("%s with %s curve data was accepted (%s)", e["type"], k, {x: y for x, y in e.items() if x not in ("L", "type")})

CHECKS = [Check("slices", strat, run, 5000, 80000), Check("relations", strat_meta, run_meta, 3000, 24000), Check("rejected", strat_err, run_err, 800, 8000, shards=4)]
CHECKS = [c if c.name in ('rejected',) else hist.warmed(c) for c in CHECKS]
