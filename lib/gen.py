"""Hypothesis generators of beams, elements and lattices.  Every random choice is the library's."""
import math
import numpy as np
from hypothesis import strategies as st
import ref

def fl(a, b, **k):
    return st.floats(a, b, allow_nan=False, allow_infinity=False, width=64, **k)

def chance(draw, p):
    """True with probability about p (shrinks to False)"""
    return p >= 1 or (p > 0 and draw(st.integers(0, 99)) >= 100 * (1 - p))

def nz(a, b):
    """magnitude in [a,b], either sign"""
    return st.tuples(fl(a, b), st.booleans()).map(lambda t: t[0] if t[1] else -t[0])

def or0(s, *vals):
    """mostly s; sometimes exactly 0 (or the given values)"""
    return st.one_of(s, s, s, st.sampled_from((0.0,) + vals))

def logf(a, b):
    """log-uniform over [a,b], rounded to 6 digits so that cases stay readable"""
    return fl(math.log10(a), math.log10(b)).map(lambda e: float("%.6g" % (10.0 ** e)))

@st.composite
def cov(draw, diag_only=False, psd=True, scale=1.0):
    """7x7 covariance (row/column 6 zero), positive semidefinite by construction"""
    d = np.array([draw(fl(0.05, 3.0)) for _ in range(6)]) * scale
    u = ref.U[:6] * d
    if diag_only:
        m = np.diag(u * u)
    else:
        L = np.eye(6)
        for i in range(6):
            for j in range(i):
                L[i, j] = draw(fl(-0.8, 0.8))
        L = (u[:, None]) * L
        m = L @ L.T
        m = (m + m.T) / 2
    M = np.zeros((7, 7)); M[:6, :6] = m
    return [float("%.9g" % v) for v in M.ravel()]

@st.composite
def centroid(draw, energy=True, one=1.0):
    r6 = lambda lo, hi: fl(lo, hi).map(lambda x: round(x, 9))      # no denormals: they only probe cancellation
    v = [draw(or0(r6(-5.0, 5.0))), draw(or0(r6(-5e-3, 5e-3))), draw(or0(r6(-5.0, 5.0))), draw(or0(r6(-5e-3, 5e-3))),
         draw(or0(r6(-0.5, 0.5))), draw(or0(r6(-1.0, 1.0))) if energy else 0.0, one]
    return v

@st.composite
def beam(draw, nmin=1, nmax=4, Ek=(2e4, 2e8), Z=(0.05, 1.0), spread=0.3, energy=0.05, freq=True, zref=True, es=True, neg=True):
    """Global keys that define a beam."""
    n = draw(st.integers(nmin, nmax))
    g = {}
    if es:
        g["IonEs"] = draw(st.sampled_from([931.49432e6, 931.49432e6, 938.2720813e6, 9.0e8]))
    else:
        g["IonEs"] = 931.49432e6
    ek = draw(logf(*Ek)); g["IonEk"] = ek
    z0 = draw(fl(*Z))
    if neg and draw(st.integers(0, 14)) == 0: z0 = -z0                           # negative ions
    zs = [z0]
    for _ in range(n - 1):
        zs.append(z0 * (1 + draw(fl(-spread, spread))))
    g["IonChargeStates"] = [float("%.8g" % z) for z in zs]
    g["NCharge"] = [draw(st.sampled_from([1.0, 10.0, 100.0, 33.25, 0.5, 1e4])) if draw(st.booleans()) else draw(fl(0.1, 1e4)) for _ in zs]
    if freq and draw(st.integers(0, 4)) == 0:
        g["SampleFreq"] = draw(st.sampled_from([40.25e6, 161e6, 322e6]))
    if zref and draw(st.integers(0, 4)) == 0:
        g["IonZ"] = float("%.8g" % (z0 * (1 + draw(fl(-0.2, 0.2)))))
    for i in range(n):
        c = draw(centroid())
        c[5] = c[5] * ek / 1e6 * energy            # relative energy offset
        g["moment0%d" % i] = c
        g["initial%d" % i] = draw(cov())
    if nmax > nmin and chance(draw, 0.04):         # many charge states, derived from the drawn ones
        for i in range(n, n + draw(st.integers(2, 11))):
            j = i % n; f = math.cos(1.7 * i)
            g["IonChargeStates"].append(float("%.8g" % (g["IonChargeStates"][j] * (1 + 0.6 * spread * f * (1 if abs(g["IonChargeStates"][j] / z0 - 1) < 0.3 * spread else 0)))))
            g["NCharge"].append([1.0, 25.5, 3.0, 400.0][i % 4])
            g["moment0%d" % i] = [f * x for x in g["moment0%d" % j][:6]] + [1.0]
            g["initial%d" % i] = list(g["initial%d" % j])
    return g

def refpart(g):
    return ref.initial(g)

MIS = ("dx", "dy", "pitch", "yaw", "roll")
@st.composite
def misalignment(draw, p=0.5, angles=True):
    if not chance(draw, p): return {}
    m = {}
    keys = draw(st.lists(st.sampled_from(MIS if angles else MIS[:2]), unique=True, max_size=5))
    for k in keys:
        m[k] = draw(nz(1e-5, 5e-3)) if k in ("dx", "dy") else (draw(st.one_of(nz(1e-4, 0.05), nz(0.1, 3.0))) if k == "roll" else draw(nz(1e-5, 0.02)))
    return m

def _len(draw, zero=True):
    if zero and draw(st.integers(0, 9)) == 0: return 0.0
    return draw(fl(0.01, 1.5))

def _K(draw, L, lim=3.0):
    """strength such that |K| L^2 is bounded, in 1/m^2"""
    s = draw(or0(nz(1e-3, lim)))
    return s / (L * L) if L > 0.05 else s * 10

STATIC = ("drift", "quadrupole", "solenoid", "sbend", "edipole", "equad", "orbtrim", "tmatrix", "marker", "bpm")
LOSSLESS = STATIC

@st.composite
def element(draw, g, types=STATIC, mis=0.4, curves=0.2, zero_len=True):
    """One element dict (without name) with strengths suited to beam g."""
    b = ref.initial(g)
    p = b.real[0]; brho = p.brho; beta = p.beta
    t = draw(st.sampled_from(types))
    e = {"type": t}
    if t in ("marker", "bpm"):
        if draw(st.integers(0, 3)) == 0: e["L"] = draw(fl(0.0, 1.0))
        return e
    if t == "orbtrim":
        if draw(st.integers(0, 2)) == 0:
            e["realpara"] = 1.0
            if draw(st.booleans()): e["tm_xkick"] = draw(fl(-0.02, 0.02)) * brho
            if draw(st.booleans()): e["tm_ykick"] = draw(fl(-0.02, 0.02)) * brho
        else:
            if draw(st.integers(0, 3)): e["theta_x"] = draw(or0(fl(-0.02, 0.02)))
            if draw(st.integers(0, 3)): e["theta_y"] = draw(or0(fl(-0.02, 0.02)))
        if draw(st.integers(0, 2)) == 0: e["xyrotate"] = draw(fl(-180.0, 180.0))
        e.update(draw(misalignment(mis)))
        return e
    L = _len(draw, zero_len); e["L"] = L
    if t == "drift":
        if draw(st.integers(0, 9)) == 0: e["L"] = L = -L                      # a step back
        if draw(st.integers(0, 5)) == 0: e.update(draw(misalignment(1.0)))    # must be ignored
        return e
    if t == "tmatrix":
        M = np.eye(7)
        for _ in range(draw(st.integers(0, 6))):
            i, j = draw(st.integers(0, 5)), draw(st.integers(0, 6))
            M[i, j] += draw(fl(-0.5, 0.5)) * ref.U[i] / ref.U[j]
        e["matrix"] = [float(x) for x in M.ravel()]
        return e
    if t in ("quadrupole", "solenoid", "equad"):
        def strength():
            K = _K(draw, L)
            if t == "quadrupole": return K * brho
            if t == "solenoid": return math.copysign(math.sqrt(abs(K)), K) * 2 * brho
            return K * brho * C_B / 2
        C_B = ref.C0 * beta
        if chance(draw, curves):
            n = draw(st.integers(1, 3)); m = draw(st.integers(1, 7))
            e["ncurve"] = draw(st.sampled_from([float(n), str(n)]))
            for i in range(n):
                e["curve%d" % i] = [draw(or0(fl(-1.0, 1.0))) for _ in range(m)]
                if draw(st.integers(0, 5)): e["scl_fac%d" % i] = strength() / n
            if draw(st.integers(0, 2)) == 0:
                a = draw(st.integers(0, m - 1)); z = draw(st.integers(a + 1, m))
                e["use_range"] = [float(a), float(z)]
        else:
            if t == "quadrupole": e["B2"] = strength()
            elif t == "solenoid": e["B"] = strength()
            else:
                r = draw(fl(0.01, 0.2)); e["radius"] = r; e["V"] = strength() * r * r
    elif t == "sbend":
        e["phi"] = draw(or0(nz(1.0, 100.0))); e["phi1"] = draw(or0(nz(0.5, 35.0))); e["phi2"] = draw(or0(nz(0.5, 35.0)))
        if draw(st.booleans()): e["K"] = _K(draw, L)
        m = draw(st.sampled_from([None, None, 1.0, "1", 0.0, "0"]))
        if m is not None: e["HdipoleFitMode"] = m
        if m in (0.0, "0"): e["bg"] = b.ref.bg * (1 + draw(fl(-0.05, 0.05)))
        if draw(st.integers(0, 14)) == 0: 
            e["L"], e["phi"], K = draw(st.sampled_from(KX0))     # focusing and field index cancel, or nearly so
            e["K"] = K * (1 + draw(st.sampled_from([0.0, 0.0, 1e-15, 1e-12, -1e-9, 1e-6, -1e-4, 1e-3])))
        elif draw(st.integers(0, 24)) == 0: e["phi"] = draw(st.sampled_from([1e-9, 1e-6, -1e-4, 0.01, -0.3]))
    elif t == "edipole":
        e["phi"] = draw(st.sampled_from([0.0, 1e-9, -1e-4, 0.05, -1.0])) if chance(draw, 0.08) else draw(nz(5.0, 100.0)); e["ver"] = draw(st.sampled_from([0.0, 1.0])); e["spher"] = draw(st.one_of(st.sampled_from([0.0, 1.0]), fl(-1.0, 4.0)))
        for k in ("fringe_x", "fringe_y"):
            if draw(st.booleans()): e[k] = draw(or0(nz(0.01, 1.0)))
        if draw(st.integers(0, 2)) == 0: e["asym_fac"] = draw(fl(-0.2, 0.2))
        m = draw(st.sampled_from([None, None, 1.0, "1", 0.0, "0"]))
        if m is not None: e["HdipoleFitMode"] = m
        if draw(st.booleans()): e["beta"] = b.ref.beta * (1 + draw(fl(-0.05, 0.05)))
    elif t == "sextupole":
        e["B3"] = draw(or0(nz(1.0, 60.0))) * brho
        if draw(st.booleans()): e["step"] = float(draw(st.integers(1, 6)))
        if draw(st.booleans()): e["thinlens"] = draw(st.sampled_from([0.0, 1.0]))
        if draw(st.booleans()): e["dstkick"] = draw(st.sampled_from([0.0, 1.0]))
    e.update(draw(misalignment(mis)))
    return e

def _kx0():
    """(L, phi, K) with K + 1/rho^2 exactly zero, however it is evaluated"""
    out = []
    for L in (0.25, 0.5, 1.0, 2.0):
        for i in range(2, 200):
            phi = i / 2.0; r = {phi * math.pi / 180.0, phi * (math.pi / 180.0), phi / 180.0 * math.pi, phi / (180.0 / math.pi)}
            if len(r) > 1: continue
            r = r.pop(); rho = L / r; k = {1.0 / (rho * rho), (r / L) ** 2, (1.0 / rho) ** 2, 1.0 / rho / rho}
            if len(k) == 1: out.append((L, phi, -k.pop()))
    return out
KX0 = _kx0()

def named(els):
    return [dict(e, name="e%d" % i) for i, e in enumerate(els)]

@st.composite
def lattice(draw, types=STATIC, nmin=1, nmax=6, source=True, beam_kw=None, **kw):
    """{'g': globals, 'els': [...]} for the MomentMatrix simulator"""
    g = draw(beam(**(beam_kw or {})))
    els = [draw(element(g, types, **kw)) for _ in range(draw(st.integers(nmin, nmax)))]
    if source: els = [{"type": "source"}] + els
    return {"g": g, "els": named(els)}

def conf(case, sim="MomentMatrix"):
    """Python configuration for flame.Machine: globals first, so that elements inherit them."""
    def cv(v):
        if isinstance(v, (list, tuple)) and (not v or not isinstance(v[0], (dict, list, tuple))):
            return np.array(v, float)
        return v
    c = {"sim_type": sim}
    for k in case["g"]: c[k] = cv(case["g"][k])
    c["elements"] = [dict((k, cv(v)) for k, v in sorted(e.items())) for e in case["els"]]
    return c

def numtext(v):
    r = repr(float(v))
    if "inf" in r or "nan" in r: raise ValueError(r)
    return r

def valtext(v):
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (list, tuple)): return "[" + ", ".join(numtext(x) for x in v) + "]"
    return numtext(v)

def text(case, sim="MomentMatrix"):
    """The same lattice in the lattice language."""
    out = ['sim_type = "%s";' % sim]
    for k in case["g"]: out.append("%s = %s;" % (k, valtext(case["g"][k])))
    seen = {}
    for e in case["els"]:
        if e["name"] in seen: continue
        seen[e["name"]] = 1
        out.append("%s: %s%s;" % (e["name"], e["type"], "".join(", %s = %s" % (k, valtext(v)) for k, v in e.items() if k not in ("name", "type"))))
    out.append("cell: LINE = (%s);" % ", ".join(e["name"] for e in case["els"]))
    out.append("USE: cell;")
    return "\n".join(out) + "\n"
