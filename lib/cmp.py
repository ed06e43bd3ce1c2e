"""Comparisons with stated tolerances, and reading FLAME states into plain numbers."""
import numpy as np
from core import fail
from ref import U

def mat_err(A, B):
    """largest difference of two 7x7 maps in natural units, relative to the larger map's size"""
    A = np.asarray(A, float); B = np.asarray(B, float)
    if not (np.all(np.isfinite(A)) and np.all(np.isfinite(B))):
        return 0.0 if np.array_equal(A, B, equal_nan=True) else np.inf
    sa = A * U[None, :] / U[:, None]; sb = B * U[None, :] / U[:, None]
    return np.max(np.abs(sa - sb)) / max(np.max(np.abs(sb)), np.max(np.abs(sa)), 1.0)

def map_close(A, B, what, tol=1e-9):
    e = mat_err(A, B)
    if not e <= tol:
        i, j = np.unravel_index(np.nanargmax(np.abs((np.asarray(A) - np.asarray(B)) * U[None, :] / U[:, None])), (7, 7))
        fail("%s: map differs, err=%.3g, worst entry [%d,%d]: got %r expected %r", what, e, i, j, float(A[i][j]), float(B[i][j]))

def vec_close(a, b, what, tol=1e-9, scale=None):
    """centroids; scale = natural-unit magnitude the rounding is relative to"""
    a = np.asarray(a, float); b = np.asarray(b, float)
    if not np.all(np.isfinite(b)):
        if not np.array_equal(np.isfinite(a), np.isfinite(b)): fail("%s: got %r expected %r", what, a, b)
        return
    sc = max(1.0, np.max(np.abs(a / U)) if np.all(np.isfinite(a)) else 1.0, np.max(np.abs(b / U)), scale or 0.0)
    e = np.max(np.abs((a - b) / U)) / sc
    if not e <= tol: fail("%s: err=%.3g got %r expected %r", what, e, a.tolist(), b.tolist())

def cov_close(a, b, what, tol=1e-9, scale=None):
    a = np.asarray(a, float); b = np.asarray(b, float)
    W = np.outer(U, U)
    if not np.all(np.isfinite(b)):
        if not np.array_equal(np.isfinite(a), np.isfinite(b)): fail("%s: got %r expected %r", what, a, b)
        return
    sc = max(1e-6, np.max(np.abs(a / W)) if np.all(np.isfinite(a)) else 1.0, np.max(np.abs(b / W)), scale or 0.0)
    e = np.max(np.abs((a - b) / W)) / sc
    if not e <= tol:
        i, j = np.unravel_index(np.nanargmax(np.abs(a - b) / W), a.shape)
        fail("%s: err=%.3g at [%d,%d] got %r expected %r", what, e, i, j, a[i, j], b[i, j])

def num_close(a, b, what, rtol=1e-10, atol=0.0):
    if a == b or (a != a and b != b): return
    if not abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
        fail("%s: got %r expected %r", what, a, b)

MOMENT_ATTRS = ("pos", "ref_IonZ", "ref_IonQ", "ref_IonEs", "ref_IonW", "ref_gamma", "ref_beta", "ref_bg", "ref_SampleFreq",
                "ref_SampleIonK", "ref_phis", "ref_IonEk", "IonZ", "IonQ", "IonEs", "IonW", "gamma", "beta", "bg",
                "SampleFreq", "SampleIonK", "phis", "IonEk", "moment0", "moment1", "moment0_env", "moment0_rms", "moment1_env",
                "transmat", "last_caviphi0")

def snap(Sx):
    """All attributes of a state as plain arrays."""
    d = {}
    for n in Sx:
        d[n] = np.array(getattr(Sx, n), float)
    return d

def same_snap(a, b, what, tol=0.0, skip=()):
    """Attribute-wise equality of two snapshots: exact, or relative to each array's largest entry."""
    if set(a) != set(b): fail("%s: attributes differ %s", what, sorted(set(a) ^ set(b)))
    for k in sorted(a):
        if k in skip: continue
        x, y = a[k], b[k]
        if x.shape != y.shape: fail("%s: %s has shape %s, expected %s", what, k, x.shape, y.shape)
        if np.array_equal(x, y, equal_nan=True): continue
        if tol:
            fx, fy = np.isfinite(x), np.isfinite(y)
            if np.array_equal(fx, fy):
                m = fx
                sc = max(np.max(np.abs(y[m])) if m.any() else 0.0, 1e-300)
                if np.all(np.abs(x[m] - y[m]) <= tol * sc): continue
        fail("%s: %s got %s expected %s", what, k, x.tolist(), y.tolist())

def cmp_beam(Sx, b, what, tol=1e-9, phase_tol=1e-9, check_T=True, env=True):
    """FLAME MomentState against the reference beam."""
    n = len(b.real)
    Z = np.array(Sx.IonZ, float)
    if Z.shape != (n,): fail("%s: %d charge states, expected %d", what, Z.size, n)
    num_close(float(Sx.pos), b.pos, what + " pos", 1e-10, 1e-12)
    def part(pref, r, i=None):
        def at(nm):
            v = getattr(Sx, (pref + nm))
            return float(v if i is None else v[i])
        w = "%s %s[%s]" % (what, pref or "real", "" if i is None else i)
        num_close(at("IonZ"), r.Z, w + " IonZ", 1e-13); num_close(at("IonQ"), r.Q, w + " IonQ", 1e-9)
        num_close(at("IonEs"), r.Es, w + " IonEs", 1e-13); num_close(at("IonEk"), r.Ek, w + " IonEk", tol, 1e-6)
        num_close(at("SampleFreq"), r.freq, w + " SampleFreq", 1e-13)
        num_close(at("phis"), r.phis, w + " phis", phase_tol, phase_tol)
    part("ref_", b.ref)
    for i, r in enumerate(b.real): part("", r, i)
    M0 = np.array(Sx.moment0, float); M1 = np.array(Sx.moment1, float); T = np.array(Sx.transmat, float)
    if M0.shape != (7, n) or M1.shape != (7, 7, n) or T.shape != (7, 7, n): fail("%s: array shapes %s %s %s", what, M0.shape, M1.shape, T.shape)
    for i in range(n):
        if check_T: map_close(T[:, :, i], b.T[i], "%s transmat[%d]" % (what, i), tol)
        vec_close(M0[:, i], b.m0[i], "%s moment0[%d]" % (what, i), tol * 10)
        cov_close(M1[:, :, i], b.m1[i], "%s moment1[%d]" % (what, i), tol * 10)
    if env:
        e0, e1 = b.env()
        vec_close(Sx.moment0_env, e0, what + " moment0_env", tol * 10)
        cov_close(Sx.moment1_env, e1, what + " moment1_env", tol * 10)
