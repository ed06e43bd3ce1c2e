"""Reference model of RF cavities and charge strippers (independent numpy implementation of the documented models)."""
import math, os, re
import numpy as np
import ref as R
from cavtab import MLP
from ref import lookup, C0, MEV, AU, X, PX, Y, PY, S, PS
MU0 = 4 * math.pi * 1e-7

TYPES = {"0.041QWR": (1, 41, 17.0), "0.085QWR": (2, 85, 17.0), "0.29HWR": (3, 29, 20.0), "0.53HWR": (4, 53, 20.0)}
BETA = {41: (0.025, 0.08), 85: (0.05, 0.25), 29: (0.15, 0.4), 53: (0.3, 0.6)}
KR = {1: (0.025, 0.055), 2: (0.006, 0.035), 3: (0.01687155, 0.0449908), 4: (0.0112477, 0.0224954)}
COL = {"EFocus1": 2, "EFocus2": 3, "EDipole": 1, "EQuad": 4, "HMono": 6, "HDipole": 5, "HQuad": 7}
FIT = {1: (4.394, -0.4965, -4.731), 2: (5.428, -0.5008, 1.6), 3: (22.35, -0.5348, 2.026), 4: (41.43, -0.5775, 2.59839)}

def P(b, *a): return sum(c * b ** k for k, c in enumerate(a))

def gap_fit(lab, b):
    """first gap: Ecen, T, Tp, S, Sp, V0 ; the cavity's total length for the mirror image"""
    if lab == 41:
        return (0.0006384 * b ** -1.884 + 86.69, P(b, 0.9232, -123.2, 3570, -5.476e4, 4.316e5, -1.377e6),
                P(b, 1.699, 924.7, -4.062e4, 7.528e5, -6.631e6, 2.277e7), 0.0,
                P(b, -1.571, 25.59, 806.6, -2.98e4, 3.385e5, -1.335e6), 0.492385), 120.0
    if lab == 85:
        return (0.0002838 * b ** -2.13 + 76.5, 0.0009467 * b ** -1.855 - 1.002,
                P(b, 24.44, -334, 2468, -1.017e4, 2.195e4, -1.928e4), 0.0, -0.0009751 * b ** -1.898 + 0.001568, 0.9838574), 150.0
    if lab == 29:
        return (0.01163 * b ** -2.001 + 91.77, 0.02166 * b ** -1.618 - 1.022,
                P(b, -11.25, 534.7, -3917, 1.313e4, -2.147e4, 1.389e4), 0.0,
                P(b, -0.8283, -4.409, 78.77, -343.9, 645.1, -454.4), 1.242518), 150.0
    return (0.01219 * b ** -2.348 + 137.8, 0.04856 * b ** -1.68 - 1.018,
            P(b, -3.612, 422.8, -1973, 4081, -4109, 1641), 0.0, -0.03969 * b ** -1.775 + 0.009034, 2.12878493), 250.0

def transfac(tab, col, gap, k, half):
    z = tab[:, 0].copy(); e = tab[:, col].copy(); n = len(z); length = z[-1]
    if half:
        # C round(): halves away from zero
        n = int(math.floor((n - 1) / 2.0 + 0.5)); z = z[:n]; e = e[:n]
    dz = (z[n - 1] - z[0]) / (n - 1)
    zz = z - z[0]
    ea = (np.abs(e[:-1]) + np.abs(e[1:])) / 2
    eml = ea.sum() * dz; cen = ((zz[:-1] + zz[1:]) / 2 * ea).sum() * dz / eml
    zz = zz - cen
    zm = (zz[:-1] + zz[1:]) / 2; em = (e[:-1] + e[1:]) / 2
    T = (em * np.cos(k * zm)).sum() * dz / eml
    Tp = -(zm * em * np.sin(k * zm)).sum() * dz / eml
    Sx = (em * np.sin(k * zm) * (zz[1:] - zz[:-1])).sum() / eml
    Sp = (zm * em * np.cos(k * zm)).sum() * dz / eml
    V0 = eml / MEV / 1e3
    if gap == 2: cen = length - cen; T = -T; Tp = -Tp
    return cen, T, Tp, Sx, Sp, V0

def gap_ttf(lab, tab, b, k, gap, scl, force):
    lo, hi = BETA[lab]
    if force or b < lo or b > hi:
        c = transfac(tab, 1, gap, k, True)
        return c[:5] + (c[5] * scl,)
    (cen, T, Tp, Sx, Sp, V0), length = gap_fit(lab, b)
    if gap == 2: cen = length - cen; T = -T; Tp = -Tp
    return cen, T, Tp, Sx, Sp, V0 * scl

def mlp_ttf(cavi, mlp, lab, k, force):
    lo, hi = KR[cavi]
    if force or k < lo or k > hi:
        c = transfac(mlp, COL[lab], 0, k, False)
        return c[1], c[3]
    t = MLP[(lab, cavi)]
    return P(k, *t["T"]), P(k, *t["S"])

def bg_of(W, Es):
    g = W / Es
    return math.sqrt(1 - 1 / (g * g)), g

def boost(tab, p, fy, scl, f):
    """integrate energy and phase through the sampled field"""
    n = len(tab); dz = (tab[-1, 0] - tab[0, 0]) / (n - 1); W = p.W
    k = 2 * math.pi * f / (p.beta * C0 * 1e3)
    for i in range(n - 1):
        f0 = fy; fy = fy + k * dz
        W += p.Z * scl * (tab[i, 1] + tab[i + 1, 1]) / 2 * math.cos((f0 + fy) / 2) * dz / 1e3
        if W <= p.Es: raise ArithmeticError("decelerated to rest")
        k = 2 * math.pi * f / (bg_of(W, p.Es)[0] * C0 * 1e3)
    return W, fy

_files = {}
def read_table(path):
    rows = []
    for l in open(path):
        s = l.strip()
        if not s or s[0] in "%#": continue
        rows.append([float(x) for x in s.split()])
    return np.array(rows)

def read_thin(path):
    out = []
    for l in open(path):
        s = l.split()
        if not s or s[0].startswith("%"): continue
        t = s[0]
        out.append((t, float(s[2]), 0.0 if t in ("drift", "AccGap") else float(s[4])))
    return out

def read_generic(path):
    """The subset of the lattice language used by cavity data files: elements, vectors, numbers, one LINE."""
    txt = "\n".join(l.split("#")[0] for l in open(path).read().splitlines())
    var = {}; els = {}; line = None
    for s in txt.split(";"):
        s = " ".join(s.split())
        if not s: continue
        m = re.match(r"(\w+) ?= ?(.*)$", s)
        if m: var[m.group(1)] = _val(m.group(2)); continue
        m = re.match(r"(\w+) ?: ?(.*)$", s)
        if not m: raise ValueError(s)
        nm, body = m.groups()
        ml = re.match(r"(?i)line ?= ?\((.*)\)$", body)
        if ml: line = [x.strip() for x in ml.group(1).split(",") if x.strip()]; continue
        if nm.upper() == "USE": continue
        parts = _split(body); e = {"type": parts[0]}
        for q in parts[1:]:
            k, v = q.split("=", 1); e.setdefault(k.strip(), _val(v))
        els[nm] = e
    return var, [els[n] for n in line]

def _split(s):
    out = []; d = 0; cur = ""
    for c in s:
        if c == "[": d += 1
        if c == "]": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    out.append(cur.strip())
    return out
def _val(v):
    v = v.strip()
    if v.startswith("["): return [float(x) for x in v.strip("[] ").split(",") if x.strip()]
    if v.startswith('"'): return v.strip('"')
    return float(eval(v, {"__builtins__": {}}))

def cached(fn, path):
    st = os.stat(path); k = (fn.__name__, path, st.st_mtime_ns, st.st_size)
    if k not in _files: _files[k] = fn(path)
    return _files[k]

class Cav:
    def __init__(self, el, gl):
        self.g = lambda k, d=None: lookup(el, gl, k, d)
        g = self.g
        self.f = float(g("f")); self.scl = float(g("scl_fac")); self.phi = math.radians(float(g("phi")))
        self.sync = float(g("syncflag", 1.0)); self.force = float(g("forcettfcalc", 0.0)) != 0.0
        self.mp = int(float(g("MpoleLevel", 2))); self.growth = int(float(g("EmitGrowth", 0)))
        self.type = g("cavtype"); d = g("Eng_Data_Dir", "."); self.dir = d
        self.Rm = float(g("Rm", 0.0))
        if self.type == "Generic":
            self.cavi = 0
            var, self.thin = cached(read_generic, os.path.join(d, g("datafile")))
            ez = var["Ez"]; self.tab = np.array(ez).reshape(-1, 2); self.var = var
            self.Rm = float(var.get("Rm", self.Rm))
            self.syn = next((e["attr"][20:23] for e in self.thin if e["type"] == "AccGap"), None)
        else:
            self.cavi, self.lab, self.Rm = TYPES[self.type]
            self.tab = cached(read_table, os.path.join(d, "axisData_%d.txt" % self.lab))
            self.mlp = cached(read_table, os.path.join(d, "Multipole%d/CaviMlp_%d.txt" % (self.lab, self.lab)))
            self.thin = cached(read_thin, os.path.join(d, "Multipole%d/thinlenlon_%d.txt" % (self.lab, self.lab)))

    def drive(self, ref):
        """driven phase"""
        m = self.f / ref.freq; Ek = (ref.W - ref.Es) / MEV
        if self.sync < 1.0: return self.phi
        if self.cavi == 0:
            v = self.var
            if "RefNorm" in v and "SyncFit" in v and self.sync == 1.0:
                nrm = self.scl * ref.Z / v["RefNorm"]; c = v["SyncFit"]
                fyc = sum((c[5*i] * Ek ** c[5*i+1] + c[5*i+2] * math.log(Ek) + c[5*i+3] * math.exp(-Ek) + c[5*i+4]) * nrm ** i for i in range(len(c) // 5))
            else:
                fyc = self.syn[0] * Ek ** self.syn[1] - self.syn[2]
        else:
            a, b, c = FIT[self.cavi]; fyc = a * Ek ** b + c
        return self.phi - fyc - ref.phis * m

    def matrix(self, p, Ek0, fy0):
        """p: charge state after the boost (Z, Es used); Ek0, fy0: entrance energy and cavity phase"""
        lam = C0 / self.f * 1e3; Es = p.Es; Z = p.Z
        disp = lambda b, g, L: -2 * math.pi / lam / (b * g) ** 3 * MEV / Es * L
        Mt = np.eye(7); Ml = np.eye(7)
        def kick(kind, V, T, Sx, b, g, fy):
            nonlocal Mt
            if kind[0] == "E": c = Z * V / (b * b) / g / AU * (T * math.cos(fy) - Sx * math.sin(fy))
            else: c = -MU0 * C0 * Z * V / b / g / AU * (T * math.cos(fy + math.pi / 2) - Sx * math.sin(fy + math.pi / 2))
            M = np.eye(7)
            if kind in ("EDipole", "HDipole"): M[PY, 6] = c
            else:
                c /= self.Rm; M[PX, X] = c; M[PY, Y] = -c if kind in ("EQuad", "HQuad") else c
            Mt = M @ Mt
        level = {"EDipole": 1, "HDipole": 1, "EQuad": 2, "HMono": 2, "HQuad": 2}
        if self.cavi == 0:
            W = Ek0 + Es; b, g = bg_of(W, Es); fy = fy0; k = 2 * math.pi / (b * lam)
            for e in self.thin:
                t = e["type"]; L = e["L"]
                if t == "drift":
                    fy += k * L; M = np.eye(7); M[X, PX] = M[Y, PY] = L; Mt = M @ Mt
                    M = np.eye(7); M[S, PS] = disp(b, g, L); Ml = M @ Ml
                    continue
                V = e["V0"] * self.scl
                T = np.polyval(e["attr"][:10], k); Sx = np.polyval(e["attr"][10:20], k)
                if t == "AccGap":
                    W = W + Z * V * MEV * (T * math.cos(fy) - Sx * math.sin(fy))
                    b1, g1 = bg_of(W, Es); k = 2 * math.pi / (b1 * lam)
                    M = np.eye(7); M[PX, PX] = M[PY, PY] = b * g / (b1 * g1); Mt = M @ Mt
                    M = np.eye(7); M[PS, S] = -Z * V * (T * math.sin(fy) + Sx * math.cos(fy)); Ml = M @ Ml
                    b, g = b1, g1
                elif self.mp >= level.get(t, 0):
                    kick(t, V, T, Sx, b, g, fy)
        else:
            tab = self.tab; dis = (tab[-1, 0] - tab[0, 0]) / 2
            W = [Ek0 + Es]; fys = [fy0]; bs, gs, ks = [], [], []
            b, g = bg_of(W[0], Es); bs.append(b); gs.append(g); ks.append(2 * math.pi / (b * lam)); tt = []
            for gap in (1, 2):
                c, T, Tp, Sx, Sp, V = gap_ttf(self.lab, tab, bs[-1], ks[-1], gap, self.scl, self.force)
                tt.append((c, T, Tp, Sx, Sp, V)); k = ks[-1]; a = fys[-1] + k * c
                W1 = W[-1] + Z * V * MEV * (T * math.cos(a) - Sx * math.sin(a))
                b, g = bg_of(W1, Es); kf = 2 * math.pi / (b * lam)
                fys.append(a + kf * (dis - c) + Z * V * k * (Tp * math.sin(a) + Sp * math.cos(a)) / (2 * (W[-1] - Es) / MEV))
                W.append(W1); bs.append(b); gs.append(g); ks.append(kf)
            K = [(ks[0] + ks[1]) / 2, (ks[1] + ks[2]) / 2]
            c1 = tt[0][0] - dis; c2 = tt[1][0]
            L1, L2, L3 = dis + c1, c2 - c1, dis - c2
            def d(L, i):
                M = np.eye(7); M[S, PS] = disp(bs[i], gs[i], L); return M
            def kk(i, a):
                M = np.eye(7); M[PS, S] = -Z * tt[i][5] * (tt[i][1] * math.sin(a) + tt[i][3] * math.cos(a)); return M
            Ml = d(L3, 2) @ kk(1, fys[1] + K[1] * c2) @ d(L2, 1) @ kk(0, fys[0] + K[0] * L1) @ d(L1, 0)
            fy = fy0; k = ks[0]; seg = 0; b, g = bs[0], gs[0]; s = tab[0, 0]
            for t, L, E0 in self.thin:
                s += L
                i = 0 if s < 0 else 1
                if t == "drift":
                    fy += k * L; M = np.eye(7); M[X, PX] = M[Y, PY] = L; Mt = M @ Mt
                elif t == "AccGap":
                    acc = bs[i] * gs[i] / (bs[i+1] * gs[i+1])
                    seg += 1; b, g = bs[seg], gs[seg]; k = ks[seg]
                    M = np.eye(7); M[PX, PX] = M[PY, PY] = acc; Mt = M @ Mt
                elif self.mp >= level.get(t, 0):
                    src = {"EFocus1": "EFocus2", "EFocus2": "EFocus1"}.get(t, t) if i == 0 else t
                    T, Sx = mlp_ttf(self.cavi, self.mlp, src, K[i], self.force)
                    if i == 0:
                        if t[0] == "E": Sx = -Sx
                        else: T = -T
                    if t == "HQuad": b = (bs[i] + bs[i+1]) / 2; g = (gs[i] + gs[i+1]) / 2
                    kick("EFocus" if t.startswith("EF") else t, E0 * self.scl, T, Sx, b, g, fy)
        M = Mt.copy(); M[4:6, 4:6] = Ml[4:6, 4:6]
        return M

def advance(b, el, gl):
    c = Cav(el, gl)
    L = R.length(el, gl)
    ref = b.ref; m = c.f / ref.freq
    cavfy = c.drive(ref)
    i0 = m * ref.phis + cavfy
    W, fo = boost(c.tab, ref, i0, c.scl, c.f)
    ref.Ek = W - ref.Es; ref.phis += (fo - i0) / m
    for j, p in enumerate(b.real):
        pin = p.copy()
        mj = c.f / p.freq; fi = mj * p.phis + cavfy
        W, fo = boost(c.tab, p, fi, c.scl, c.f)
        p.Ek = W - p.Es; p.phis += (fo - fi) / mj
        M = c.matrix(p, pin.Ek, fi)
        D = np.eye(7); D[S, S] = mj; Di = np.eye(7); Di[S, S] = 1 / mj
        if mj != 1: M = Di @ M @ D
        # the frame is evaluated with the exit energy, but the entrance wavenumber
        A, IA = misalign(ref, p, pin.k, el, gl, L * 1e3)
        v = A @ b.m0[j]; x2 = (b.m1[j][X, X], b.m1[j][Y, Y]); x0 = (v[X], v[Y])
        M[S, 6] = M[PS, 6] = 0.0
        w = M @ v
        z = p.phis - ref.phis; zp = (p.Ek - ref.Ek) / MEV
        M[S, 6] = z - w[S]; M[PS, 6] = zp - w[PS]
        w[S], w[PS] = z, zp
        b.m0[j] = IA @ w
        C = A @ b.m1[j] @ A.T; C = M @ C @ M.T
        if c.growth:
            c.noise = 0.0; C = emit_growth(c, C, ref, pin, p, x2, x0); b.noise = getattr(b, 'noise', 0.0) + c.noise
        b.m1[j] = IA @ C @ IA.T
        b.T[j] = IA @ M @ A
    b.pos += L
    b.cavraw = cavfy
    b.caviphi = math.fmod(math.degrees(cavfy), 360.0)

def misalign(ref, p, k, el, gl, L):
    class Q: pass
    q = Q(); q.k = k; q.beta = p.beta; q.gamma = p.gamma
    return R.misalign(ref, q, el, gl, L)

def emit_growth(c, C, ref, pin, pout, x2, x0):
    lam = C0 / c.f * 1e3
    ab = (pin.beta + pout.beta) / 2; ag = (pin.gamma + pout.gamma) / 2
    cs, sn = math.cos(c.phi), math.sin(c.phi)
    E = 0.0 if abs(cs) < 1e-4 else (pout.W - pin.W) / cs / ref.Z
    d = math.sqrt(C[4, 4])
    F = lambda u: 15 / u ** 2 * (3 / u ** 2 * (math.sin(u) / u - math.cos(u)) - math.sin(u) / u)
    kp = -math.pi * abs(ref.Z) * E / ref.Es / (ab * ag) ** 2 / pout.beta / pout.gamma / lam
    gp = 0.5 * (1 + (sn * sn - cs * cs) * F(2 * d))
    fac = np.ones(7)
    for j, i in ((0, 1), (1, 3)):
        dl = kp * kp * (gp - (sn * F(d)) ** 2) * (x2[j] + x0[j] ** 2)
        if dl + C[i, i] > 0: fac[i] = math.sqrt((dl + C[i, i]) / C[i, i])
        # F() cancels for short bunches: rounding of any evaluation order, relative to the entry
        c.noise = max(c.noise, 45 * 1e-15 / d ** 4 * kp * kp * (x2[j] + x0[j] ** 2) / C[i, i])
    kz = -2 * kp * ag ** 2; ik = 2 * math.pi / (ab * lam)
    dz = (kz * d) ** 2 * d * d / ik ** 2 * (cs * cs / 8 + d * sn / 576)
    tf = 1 / (ag - 1) / ref.Es * MEV
    if dz + C[5, 5] * tf ** 2 > 0: fac[5] = math.sqrt((dz + C[5, 5] * tf ** 2) / (C[5, 5] * tf ** 2))
    return C * np.outer(fac, fac)

# ------------------------------------------------------------------ stripper
def advance_stripper(b, el, gl):
    g = lambda k, d=None: lookup(el, gl, k, d)
    Z = [float(x) for x in g("IonChargeStates")]; N = [float(x) for x in g("NCharge")]
    mass = float(g("Stripper_IonMass", 238.0)); pr = float(g("Stripper_IonProton", 92.0)); z0 = float(g("Stripper_IonZ", 78.0 / 238.0))
    e1 = float(g("Stripper_E1Para", 2.8874e-3)); lam = float(g("Stripper_lambda", 5.5740)); up = float(g("Stripper_upara", 2.6903))
    para = list(g("Stripper_Para", [3.0, 20.0, 16.623e6])); e0 = list(g("Stripper_E0Para", [16.348e6, 1.00547, -0.10681]))
    if g("charge_model", "baron") == "off": amt = N
    else:
        q1 = pr * (1 - math.exp(-83.275 * b.real[0].beta / pr ** 0.447)); qa = q1 * (1 - math.exp(-12.905 + 0.2124 * pr - 0.00122 * pr * pr))
        y = q1 / pr; d = math.sqrt(q1 * (0.07535 + 0.19 * y - 0.2654 * y * y))
        amt = [math.exp(-0.5 * ((q * mass - qa) / d) ** 2) / (math.sqrt(2 * math.pi) * d) for q in Z]
    q = np.array([p.Q for p in b.real]); q = q / q.sum()
    m0 = sum(w * m for w, m in zip(q, b.m0)); C = sum(w * (c + np.outer(m - m0, m - m0)) for w, c, m in zip(q, b.m1, b.m0))
    loss = lambda E: (E - para[2]) * e0[1] + e0[0]
    Ek = loss(sum(w * p.Ek for w, p in zip(q, b.real))); ph = sum(w * p.phis for w, p in zip(q, b.real))
    add = np.zeros(7); add[5] = e1 ** 2 + (para[1] / 100 * para[0] * e0[2]) ** 2 / 3; add[1] = add[3] = up / lam ** 2 * 1e-6
    fac = np.ones(7)
    for i in (1, 3, 5): fac[i] = math.sqrt((C[i, i] + add[i]) / C[i, i])
    row6 = C[6].copy(); C = C * np.outer(fac, fac)
    b.ref.Z = z0; b.ref.Ek = loss(b.ref.Ek)
    b.real = [R.Part(z, a, b.ref.Es, Ek, ph, b.ref.freq) for z, a in zip(Z, amt)]
    b.m0 = [m0.copy() for _ in Z]; b.m1 = [C.copy() for _ in Z]; b.T = [np.eye(7) for _ in Z]
