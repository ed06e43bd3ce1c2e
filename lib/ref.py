"""Independent reference model of FLAME's simulators (numpy/scipy), written from the element
documentation (sphinx_doc/element.rst, documentation/mainpage.h).  Static elements are the matrix
exponential of their linear equations of motion, so focusing/defocusing/zero limits need no cases."""
import math
import numpy as np
from scipy.linalg import expm

C0 = 2.99792458e8
MEV = 1e6
AU = 931.49432
F0 = 80.5e6
X, PX, Y, PY, S, PS = range(6)
U = np.array([1.0, 1e-3, 1.0, 1e-3, 1e-2, 1e-3, 1.0])       # natural magnitudes of the coordinates

class Part:
    """A reference particle or a charge state."""
    __slots__ = ("Z", "Q", "Es", "Ek", "phis", "freq", "K_override")
    def __init__(self, Z=0.0, Q=1.0, Es=0.0, Ek=0.0, phis=0.0, freq=F0):
        self.Z, self.Q, self.Es, self.Ek, self.phis, self.freq = Z, Q, Es, Ek, phis, freq
    def copy(self):
        return Part(self.Z, self.Q, self.Es, self.Ek, self.phis, self.freq)
    @property
    def W(self): return self.Es + self.Ek
    @property
    def gamma(self): return self.W / self.Es if self.Es != 0 else 1.0
    @property
    def beta(self):
        # cancellation-free: 1-1/g^2 = (g-1)(g+1)/g^2
        if self.Es == 0: return 0.0
        g = self.gamma
        return math.sqrt(max(0.0, 1.0 - 1.0 / (g * g)))
    @property
    def bg(self):
        b = self.beta
        return b * self.gamma if b != 0 else 1.0
    @property
    def lam(self): return C0 / self.freq * 1e3
    @property
    def k(self):
        b = self.beta
        return 2 * math.pi / ((b if b != 0 else 1.0) * self.lam)
    @property
    def brho(self): return self.beta * self.W / (C0 * self.Z)

class Beam:
    def __init__(self):
        self.ref = Part(); self.real = []; self.m0 = []; self.m1 = []; self.T = []; self.pos = 0.0; self.caviphi = 0.0
    def copy(self):
        b = Beam(); b.ref = self.ref.copy(); b.real = [r.copy() for r in self.real]
        b.m0 = [m.copy() for m in self.m0]; b.m1 = [m.copy() for m in self.m1]; b.T = [t.copy() for t in self.T]
        b.pos = self.pos; b.caviphi = self.caviphi
        return b
    def env(self):
        q = np.array([r.Q for r in self.real]); q = q / q.sum()
        m0 = sum(w * m for w, m in zip(q, self.m0))
        m1 = np.zeros((7, 7))
        for w, m, c in zip(q, self.m0, self.m1):
            d = (m - m0)[:6]
            m1[:6, :6] += w * (c[:6, :6] + np.outer(d, d))
        return m0, m1

def lookup(el, gl, key, default=None):
    if key in el: return el[key]
    if key in gl: return gl[key]
    if default is None: raise KeyError(key)
    return default

def initial(gl, el=None):
    """State from a configuration (documented keys), el overlays gl."""
    c = dict(gl); c.update(el or {})
    b = Beam()
    b.ref.Es = float(c.get("IonEs", 0.0)); b.ref.Ek = float(c.get("IonEk", 0.0)); b.ref.freq = float(c.get("SampleFreq", F0))
    vn = c.get("vector_variable", "moment0"); mn = c.get("matrix_variable", "initial")
    if "IonChargeStates" in c:
        Z = list(c["IonChargeStates"]); Q = list(c["NCharge"])
        b.ref.Z = float(c.get("IonZ", Z[0])); b.ref.Q = float(c.get("IonQ", Q[0]))
        idx = range(len(Z))
        if "cstate" in c:
            idx = [int(c["cstate"])]
        for i in idx:
            p = b.ref.copy(); p.Z = float(Z[i]); p.Q = float(Q[i])
            m0 = np.zeros(7); v = np.array(c[vn + str(i)], float); m0[:len(v)] = v
            m1 = np.array(c[mn + str(i)], float).reshape(7, 7)
            p.phis = m0[S]; p.Ek = b.ref.Ek + m0[PS] * MEV
            b.real.append(p); b.m0.append(m0); b.m1.append(m1); b.T.append(np.eye(7))
    else:
        b.ref.Z = float(c.get("IonZ", 0.0)); b.ref.Q = float(c.get("IonQ", 1.0))
        b.real.append(b.ref.copy())
        b.m0.append(np.array(c[vn], float) if vn in c else np.zeros(7))
        b.m1.append(np.array(c[mn], float).reshape(7, 7) if mn in c else np.eye(7))
        b.T.append(np.eye(7))
    return b

# ------------------------------------------------------------------ linear generators (per mm)
def _disp(p):
    """d(phase)/ds per MeV/u"""
    return -2 * math.pi / (p.lam * p.Es / MEV * p.bg ** 3)

def gen_drift(p):
    A = np.zeros((7, 7)); A[X, PX] = 1; A[Y, PY] = 1; A[S, PS] = _disp(p)
    return A
def gen_quad(p, K):
    A = gen_drift(p); A[PX, X] = -K; A[PY, Y] = K
    return A
def gen_sol(p, K):
    A = gen_drift(p)
    A[X, Y] = K; A[Y, X] = -K; A[PX, PY] = K; A[PY, PX] = -K; A[PX, X] = -K * K; A[PY, Y] = -K * K
    return A

def rot(dx, dy, tx, ty, tz):
    """entrance frame: translate by (-dx,-dy), then rotate (left-handed: yaw sign reversed)."""
    ty = -ty
    cx, sx, cy, sy, cz, sz = math.cos(tx), math.sin(tx), math.cos(ty), math.sin(ty), math.cos(tz), math.sin(tz)
    Rz = np.array([[cz, sz, 0], [-sz, cz, 0], [0, 0, 1]])
    Ry = np.array([[cy, 0, -sy], [0, 1, 0], [sy, 0, cy]])
    Rx = np.array([[1, 0, 0], [0, cx, sx], [0, -sx, cx]])
    R3 = Rz @ Ry @ Rx
    R = np.eye(7)
    for i in range(3):
        for j in range(3):
            R[2 * i, 2 * j] = R3[i, j]; R[2 * i + 1, 2 * j + 1] = R3[i, j]
    T = np.eye(7); T[X, 6] = -dx; T[Y, 6] = -dy
    return R @ T

def misalign(ref, p, el, gl, L_mm):
    g = lambda k: float(lookup(el, gl, k, 0.0))
    dx, dy, pitch, yaw, roll = g("dx") * 1e3, g("dy") * 1e3, g("pitch"), g("yaw"), g("roll")
    # to mm / relative momentum units
    sc = np.eye(7); sc[S, S] = 1.0 / (-p.k); sc[PS, PS] = 1.0 / (p.beta ** 2 * p.gamma * ref.Es / MEV)
    sci = np.diag(1.0 / np.diag(sc))
    def shift(s):
        T = np.eye(7); T[S, 6] = s; T[PS, 6] = 1.0
        return T
    R = rot(dx, dy, pitch, yaw, roll)
    M = sci @ np.linalg.inv(shift(-L_mm / 2)) @ R @ shift(-L_mm / 2) @ sc
    IM = sci @ np.linalg.inv(shift(L_mm / 2)) @ np.linalg.inv(R) @ shift(L_mm / 2) @ sc
    return M, IM

def curves(el, gl, n):
    cv = []; sc = []
    for i in range(n):
        c = list(lookup(el, gl, "curve%d" % i))
        r = lookup(el, gl, "use_range", ())
        if r: c = c[int(r[0]):int(r[1])]
        cv.append(c); sc.append(float(lookup(el, gl, "scl_fac%d" % i, 0.0)))
    return np.array(sc) @ np.array(cv)

def sbend_matrix(ref, p, el, gl):
    g = lambda k, d=None: float(lookup(el, gl, k, d))
    L = g("L") * 1e3; phi = math.radians(g("phi")); p1 = math.radians(g("phi1")); p2 = math.radians(g("phi2"))
    K = g("K", 0.0) / 1e6
    if L == 0: return None
    mode = int(float(lookup(el, gl, "HdipoleFitMode", 1)))
    qm = (p.Z - ref.Z) / ref.Z
    if mode == 0:
        bg = g("bg"); dg = math.sqrt(bg * bg + 1); db = math.sqrt(1 - 1 / dg ** 2)
        d = (ref.gamma - dg) / (db * db * dg) - qm
        k = 2 * math.pi / (db * ref.lam)
    else:
        dg, db, d, k = ref.gamma, ref.beta, -qm, ref.k
    h = phi / L
    w = 1.0 / (db * db * dg * ref.Es / MEV)
    A = np.zeros((7, 7)); A[X, PX] = 1; A[Y, PY] = 1
    A[PX, X] = -(K + h * h); A[PY, Y] = K
    A[PX, PS] = h * w; A[PX, 6] = h * d
    A[S, X] = k * h
    A[S, PS] = -k * w / ref.gamma ** 2
    A[S, 6] = -k * (d + qm) / ref.gamma ** 2
    E1 = np.eye(7); E1[PX, X] = math.tan(p1) * h; E1[PY, Y] = -math.tan(p1) * h
    E2 = np.eye(7); E2[PX, X] = math.tan(p2) * h; E2[PY, Y] = -math.tan(p2) * h
    return E2 @ expm(A * L) @ E1

def edipole_matrix(ref, p, el, gl):
    g = lambda k, d=None: float(lookup(el, gl, k, d))
    ver = g("ver") == 1.0
    L0 = g("L") * 1e3
    if L0 == 0: return None
    phi = math.radians(g("phi")); fx = g("fringe_x", 0.0) / 1e3; fy = g("fringe_y", 0.0) / 1e3
    kap = g("asym_fac", 0.0); sph = g("spher")
    mode = int(float(lookup(el, gl, "HdipoleFitMode", 1)))
    b = ref.beta if mode else g("beta", ref.beta)
    eta = (1 / math.sqrt(1 - b * b) - 1) / 2
    ratio = (p.beta ** 2 / p.Z) / (b * b / ref.Z)
    L = ratio * L0; h = phi / L
    Kx = (1 - sph + (1 + 2 * eta) ** 2) * h ** 2; Ky = sph * h ** 2
    dK = (ratio - 1) - (p.Ek - ref.Ek) / p.Ek; dKZ = ref.Z / p.Z - 1
    scl = (p.gamma - 1) * ref.Es / MEV
    D = 2 * (1 + eta) * (1 + 2 * eta)
    Nk = ((1 + 2 * eta) ** 2 + 1) / D; Nt = 1 + 1 / (1 + 2 * eta) ** 2; Nkz = (1 + 2 * eta - 1) / D
    cor = -p.gamma / (1 + p.gamma)
    k = p.k
    A = np.zeros((7, 7)); A[X, PX] = 1; A[Y, PY] = 1; A[PX, X] = -Kx; A[PY, Y] = -Ky
    A[PX, PS] = Nk * h / scl
    A[PX, 6] = (Nk * dK + Nkz * dKZ) * h
    A[S, X] = -k * cor * Nt * h
    A[S, PS] = k * cor / D / scl
    M = expm(A * L)
    M[S, 6] = 0.0          # the model applies no constant phase kick
    E = np.eye(7); E[PX, X] = fx; E[PX, PX] = math.sqrt(1 + kap); E[PY, Y] = fy; E[PS, PS] = 1 + kap
    M = E @ M @ E
    if ver:
        R = np.eye(7); R[X, X] = R[PX, PX] = R[Y, Y] = R[PY, PY] = 0
        R[X, Y] = R[PX, PY] = -1; R[Y, X] = R[PY, PX] = 1
        M = R @ M @ R.T
    return M

ZERO_LEN = ("marker", "bpm", "orbtrim", "source")
def length(el, gl):
    if el["type"] in ("marker", "bpm", "orbtrim"): return 0.0
    return float(lookup(el, gl, "L", 0.0))

def static_matrix(ref, p, el, gl):
    """Full (misaligned) transfer matrix of a static element for charge state p."""
    t = el["type"]; g = lambda k, d=None: float(lookup(el, gl, k, d))
    L = length(el, gl) * 1e3
    if t in ("marker", "bpm"): return np.eye(7)
    if t == "drift": return expm(gen_drift(p) * L)
    if t == "tmatrix": return np.array(lookup(el, gl, "matrix"), float).reshape(7, 7)
    if t == "orbtrim":
        tx, ty = g("theta_x", 0.0), g("theta_y", 0.0)
        if g("realpara", 0.0) == 1.0:
            e = ref.Z * C0 / math.sqrt(ref.W ** 2 - ref.Es ** 2)
            tx, ty = g("tm_xkick", 0.0) * e, g("tm_ykick", 0.0) * e
        M = np.eye(7); M[PX, 6] = tx * p.Z / ref.Z; M[PY, 6] = ty * p.Z / ref.Z
    elif t in ("quadrupole", "solenoid", "equad"):
        n = int(float(lookup(el, gl, "ncurve", 0)))
        def K(f):
            if t == "quadrupole": return f / p.brho / 1e6
            if t == "solenoid": return f / (2 * p.brho) / 1e3
            return 2 * f / (C0 * p.beta) / p.brho / 1e6
        mk = gen_sol if t == "solenoid" else gen_quad
        if n:
            f = curves(el, gl, n); M = np.eye(7)
            for v in f: M = expm(mk(p, K(v)) * (L / len(f))) @ M
        else:
            f = {"quadrupole": lambda: g("B2"), "solenoid": lambda: g("B"), "equad": lambda: g("V") / g("radius") ** 2}[t]()
            M = expm(mk(p, K(f)) * L)
    elif t == "sbend":
        M = sbend_matrix(ref, p, el, gl)
        if M is None: return np.eye(7)
    elif t == "edipole":
        M = edipole_matrix(ref, p, el, gl)
        if M is None: return np.eye(7)
    else:
        raise KeyError(t)
    A, IA = misalign(ref, p, el, gl, L)
    M = IA @ M @ A
    if t == "orbtrim":
        r = math.radians(g("xyrotate", 0.0))
        M = M @ rot(0, 0, 0, 0, r)
    return M

def advance_static(b, el, gl):
    """Forward through one static element (not source/stripper/cavity/sextupole), in place."""
    L = length(el, gl) * 1e3
    for i, p in enumerate(b.real):
        M = static_matrix(b.ref, p, el, gl)
        ph = b.m0[i][S]
        b.m0[i] = M @ b.m0[i]; b.m1[i] = M @ b.m1[i] @ M.T; b.T[i] = M
        if el["type"] == "sbend": p.phis += b.m0[i][S] - ph
        p.phis += p.k * L
    b.ref.phis += b.ref.k * L
    b.pos += L / 1e3

def _sext_thick_known(K, x, y, dl):
    """What the code under test computes for a thick sextupole: known finding, KNOWN_FINDINGS.txt C10
    (the radial offset is taken as sqrt(x^2+x^2) instead of sqrt(x^2+y^2))."""
    M = np.eye(7); dr = math.sqrt(x * x + x * x); q = math.sqrt(abs(K) * dr)
    if q == 0:
        M[X, PX] = M[Y, PY] = dl
        return M
    x *= math.copysign(1, K); y *= math.copysign(1, K)
    c, s, C, Sh = math.cos(q * dl), math.sin(q * dl), math.cosh(q * dl), math.sinh(q * dl)
    M[X, X] = M[PX, PX] = ((dr + x) * c + (dr - x) * C) / (2 * dr)
    M[X, PX] = ((dr + x) * s + (dr - x) * Sh) / (2 * q * dr)
    M[X, Y] = M[PX, PY] = M[Y, X] = M[PY, PX] = y * (C - c) / (2 * dr)
    M[X, PY] = M[Y, PX] = y * (Sh - s) / (2 * q * dr)
    M[PX, X] = q * (-(dr + x) * s + (dr - x) * Sh) / (2 * dr)
    M[PX, Y] = M[PY, X] = y * q * (s + Sh) / (2 * dr)
    M[Y, Y] = M[PY, PY] = ((dr - x) * c + (dr + x) * C) / (2 * dr)
    M[Y, PY] = ((dr - x) * s + (dr + x) * Sh) / (2 * q * dr)
    M[PY, Y] = q * (-(dr - x) * s + (dr + x) * Sh) / (2 * dr)
    return M

def advance_sext(b, el, gl, known=False):
    g = lambda k, d=None: float(lookup(el, gl, k, d))
    L = g("L") * 1e3; n = int(g("step", 1.0)); thin = g("thinlens", 0.0) == 1.0; dst = g("dstkick", 1.0) == 1.0
    for i, p in enumerate(b.real):
        K = g("B3") / p.brho / 1e9
        A, IA = misalign(b.ref, p, el, gl, L)
        m0, m1, T = A @ b.m0[i], A @ b.m1[i] @ A.T, np.eye(7)
        dl = L / n
        for _ in range(n):
            x, y = m0[X], m0[Y]
            if thin:
                D = np.eye(7); D[X, PX] = D[Y, PY] = dl / 2
                P = np.eye(7); P[PX, X] = -K * dl * x; P[PX, Y] = K * dl * y; P[PY, X] = K * dl * y; P[PY, Y] = K * dl * x
                M = D @ P @ D
            elif known:
                M = _sext_thick_known(K, x, y, dl)
            else:
                G = np.zeros((7, 7)); G[X, PX] = G[Y, PY] = 1
                G[PX, X] = -K * x; G[PX, Y] = K * y; G[PY, X] = K * y; G[PY, Y] = K * x
                M = expm(G * dl)
            if dst:
                M[PX, 6] = -K * dl * (m1[X, X] - m1[Y, Y]); M[PY, 6] = 2 * K * dl * m1[X, Y]
            M[S, PS] = _disp(p) * dl
            m0 = M @ m0; m1 = M @ m1 @ M.T; T = M @ T
        b.m0[i] = IA @ m0; b.m1[i] = IA @ m1 @ IA.T; b.T[i] = IA @ T @ A
        p.phis += p.k * length(el, gl) * 1e3
    b.ref.phis += b.ref.k * length(el, gl) * 1e3
    b.pos += length(el, gl)

def advance(b, el, gl):
    t = el["type"]
    if t == "source":
        n = initial(gl, el)
        b.__dict__.update(n.__dict__)
    elif t == "sextupole": advance_sext(b, el, gl)
    elif t == "rfcavity":
        import refcav; refcav.advance(b, el, gl)
    elif t == "stripper":
        import refcav; refcav.advance_stripper(b, el, gl)
    else: advance_static(b, el, gl)

# ------------------------------------------------------------------ linear simulators
def linear_matrix(el, gl):
    g = lambda k, d=None: float(lookup(el, gl, k, d))
    t = el["type"]; L = float(lookup(el, gl, "L", 0.0)) * 1e3
    A = np.zeros((6, 6)); A[X, PX] = 1; A[Y, PY] = 1
    if t == "marker": return np.eye(6)
    if t == "drift": return expm(A * L)
    if t == "quadrupole":
        K = g("K", 0.0) / 1e6; A[PX, X] = -K; A[PY, Y] = K
        return expm(A * L)
    if t == "sbend":
        K = g("K", 0.0) / 1e6; h = g("phi") / L if L else 0.0
        A[PX, X] = -(K + h * h); A[PY, Y] = K
        return expm(A * L)
    if t == "solenoid":
        K = g("K", 0.0) / 1e3
        A[X, Y] = K; A[Y, X] = -K; A[PX, PY] = K; A[PY, PX] = -K; A[PX, X] = -K * K; A[PY, Y] = -K * K
        return expm(A * L)
    if t == "generic":
        M = np.eye(6).ravel(); v = np.array(lookup(el, gl, "transfer"), float); M[:len(v)] = v
        return M.reshape(6, 6)
    raise KeyError(t)
