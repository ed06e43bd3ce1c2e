"""Histories of operations on one machine (used by C01, C02, C03, C18)."""
import numpy as np
from hypothesis import strategies as st
import gen, gencav, ref
from gen import fl

ATTRS = ("ref_phis", "ref_IonEk", "ref_IonZ", "ref_SampleFreq", "ref_IonEs", "ref_IonQ", "phis", "IonEk", "IonZ", "IonQ", "SampleFreq", "IonEs",
         "moment0", "moment1")
BREAK = {"quadrupole": "B2", "solenoid": "B", "sbend": "phi", "equad": "V", "edipole": "phi", "drift": None}

def tweak(S, op):
    """change one attribute of one charge state (or the reference)"""
    a = op["attr"]
    if a not in set(S):            # linear simulations
        v = np.array(S.state, float); v.flat[op["i"] % v.size] += op["f"]; S.state = v
        return S
    v = getattr(S, a)
    if np.ndim(v) == 0:
        setattr(S, a, float(v) * (1 + op["f"]) + (op["f"] if a == "ref_phis" else 0.0))
    else:
        v = np.array(v, float)
        if v.ndim == 1:
            i = op["i"] % v.shape[0]; v[i] = v[i] * (1 + op["f"]) + (op["f"] if a == "phis" else 0.0)
        elif a == "moment0":
            i = op["i"] % v.shape[1]; v[op["i"] % 6, i] += op["f"]
        else:
            i = op["i"] % v.shape[2]; v[:6, :6, i] *= (1 + op["f"])
        setattr(S, a, v)
    return S

def propagate(M, S, start, mx, obs=()):
    """(error text or None, [(index, state)])"""
    try:
        r = M.propagate(S, start=start, max=mx, observe=list(obs)) if obs else M.propagate(S, start=start, max=mx)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e), []
    return None, list(r or [])

@st.composite
def prop_op(draw, n, back=True):
    m = draw(st.sampled_from([1, 1, 2, 3, 99, 0, -1, -1, -2, -99] if back else [1, 1, 2, 3, 99, 0]))
    return {"op": "prop", "s": draw(st.integers(0, 11)), "start": draw(st.integers(0, max(0, n - 1))), "max": m,
            "obs": draw(st.lists(st.integers(0, max(0, n - 1)), max_size=3)) if draw(st.integers(0, 2)) == 2 else []}

@st.composite
def set_op(draw):
    return {"op": "set", "s": draw(st.integers(0, 11)), "attr": draw(st.sampled_from(ATTRS)), "i": draw(st.integers(0, 5)),
            "f": draw(st.sampled_from([0.01, -0.01, 0.003, 1e-6]))}

@st.composite
def ops(draw, n, back=True, nmin=2, nmax=7):
    """Operations with concrete pool indices; each appends one state to the pool (the initial one is index 0)."""
    out = []; props = []            # props: (op, pool index of its result)
    def put(o):
        o = dict(o); o["s"] %= len(out) + 1
        out.append(o)
        if o["op"] == "prop": props.append((o, len(out)))
        return len(out)
    for _ in range(draw(st.integers(nmin, nmax))):
        k = draw(st.integers(0, 9))
        if k <= 4 and props:
            o, res = draw(st.sampled_from(props)); w = draw(st.integers(0, 5))
            if w == 0 and back: put(dict(o, max=-o["max"]))                       # same state, other direction
            elif w == 1: put(dict(o, obs=[] if o["obs"] else [draw(st.integers(0, n - 1))]))
            elif w in (2, 3):                                                     # a state differing in one attribute
                put(dict(o, s=put(dict(draw(set_op()), s=o["s"]))))
            elif back:                                                            # retrace, then the same call again
                m = min(abs(o["max"]), n)
                if o["max"] > 0: put(dict(o, s=res, start=min(n, o["start"] % n + m) - 1, max=-m))
                elif o["max"] < 0: put(dict(o, s=res, start=max(0, o["start"] % n - m + 1), max=m))
                if w == 5: put(o)
            else: put(o)
        elif k == 9: put({"op": "alloc", "s": 0, "cs": draw(st.integers(0, 2))})
        elif k == 8: put(draw(set_op()))
        else: put(draw(prop_op(n, back)))
    return out

@st.composite
def padded(draw, els, pads):
    """Now and then a long lattice: a run of weak elements among the drawn ones."""
    if not gen.chance(draw, 0.04): return els
    at = draw(st.integers(1, len(els))); k = draw(st.integers(8, 45))
    return els[:at] + [dict(pads[i % len(pads)], **({"L": 0.01 * (1 + i % 7)} if "L" in pads[i % len(pads)] else {})) for i in range(k)] + els[at:]

@st.composite
def moment_lattice(draw, cav=0.3, broken=0.15, nmax=5, sext=True, strip=True, mis=0.3, curves=0.15):
    g = draw(gen.beam(nmax=3, Ek=(3e5, 1e8), spread=0.2, energy=0.02))
    els = []
    if draw(st.booleans()): els.append({"type": "source"})
    types = gen.STATIC + (("sextupole",) if sext else ())
    for _ in range(draw(st.integers(1, nmax))):
        if gen.chance(draw, cav * 0.6): els.append(draw(gencav.cavity(g)))
        elif strip and gen.chance(draw, 0.06): els.append(draw(gencav.stripper(g)))
        else:
            e = draw(gen.element(g, types, mis=mis, curves=curves))
            if gen.chance(draw, broken) and e["type"] in BREAK and BREAK[e["type"]]: e.pop(BREAK[e["type"]], None)
            els.append(e)
    els = draw(padded(els, [{"type": "marker"}, {"type": "drift", "L": 0.01}, {"type": "bpm"}, {"type": "quadrupole", "L": 0.02, "B2": 0.01}, {"type": "orbtrim"}]))
    return {"g": g, "els": gen.named(els)}

LINEAR = ("drift", "quadrupole", "solenoid", "sbend", "marker", "generic", "source")
@st.composite
def linear_lattice(draw, nmax=5):
    sim = draw(st.sampled_from(["Vector", "TransferMatrix"]))
    ini = [draw(fl(-2, 2)) for _ in range(6 if sim == "Vector" else 36)]
    els = []
    for _ in range(draw(st.integers(1, nmax))):
        t = draw(st.sampled_from(LINEAR)); e = {"type": t}
        if t not in ("marker", "source", "generic"): e["L"] = draw(fl(0, 2))
        if t == "drift" and draw(st.integers(0, 7)) == 0: e["L"] = -e["L"]
        if t == "source": e["initial"] = [draw(fl(-2, 2)) for _ in ini]
        if t == "generic": e["transfer"] = [draw(fl(-2, 2)) for _ in range(36)]
        if t in ("quadrupole", "solenoid", "sbend"): e["K"] = draw(fl(-2, 2))
        if t == "sbend": e["phi"] = draw(fl(-2, 2))
        els.append(e)
    els = draw(padded(els, [{"type": "marker"}, {"type": "drift", "L": 0.01}, {"type": "quadrupole", "L": 0.02, "K": 0.01}]))
    return {"sim": sim, "g": {"initial": ini}, "els": gen.named(els)}

@st.composite
def history(draw, cav=0.3, linear=False, back=True):
    c = dict(draw(linear_lattice() if linear else moment_lattice(cav=cav)))
    c["ops"] = draw(ops(len(c["els"]), back))
    return c

# ---- warm-up: the checked propagation may be preceded by unrelated use of the same machine
_warm = None
@st.composite
def warm_ops(draw):
    if draw(st.integers(0, 4)) < 3: return []
    return [{"m": draw(st.integers(1, 5)), "f": draw(st.sampled_from([1.0, 1.0, 1.01, 0.97, 1.3])), "ph": draw(st.sampled_from([0.0, 0.0, 0.1, -2.0])),
             "z": draw(st.sampled_from([1.0, 1.0, 1.05])), "start": draw(st.integers(0, 2)), "max": draw(st.sampled_from([99, 99, 1, 2, -1, -99]))} for _ in range(draw(st.integers(1, 2)))]

def warm(M, w):
    """Propagate another state (other number of charge states, energies, phases) through the machine first; its outcome is not looked at."""
    try:
        c = dict(M.conf()); d = {}
        if "IonChargeStates" in c:
            z = np.atleast_1d(c["IonChargeStates"]); q = np.atleast_1d(c["NCharge"]); n = len(z)
            d["IonChargeStates"] = np.array([z[k % n] * w["z"] * (1 + 0.01 * (k // n)) for k in range(w["m"])]); d["NCharge"] = np.array([q[k % n] for k in range(w["m"])])
            for k in range(w["m"]):
                for a in ("moment0", "initial"):
                    if a + str(k % n) in c: d[a + str(k)] = c[a + str(k % n)]
        S = M.allocState(d, inherit=True)
        if "phis" in set(S):
            for a in ("phis", "ref_phis"): setattr(S, a, getattr(S, a) + w["ph"])
            for a in ("IonEk", "ref_IonEk"): setattr(S, a, getattr(S, a) * w["f"])
        else: S.state = np.array(S.state) * w["f"] + w["ph"]
        n = len(M); b = min(w["start"], n - 1)
        M.propagate(S, start=b if w["max"] > 0 else n - 1 - b, max=w["max"])
    except Exception: pass

def Machine(conf, *a, **k):
    """flame.Machine with the current case's warm-up already done"""
    import flame
    M = flame.Machine(conf, *a, **k)
    for w in _warm or (): warm(M, w)
    return M

def warmed(check):
    """the check, with some cases warmed up"""
    from core import Check
    s0, r0 = check.strategy, check.run
    @st.composite
    def s(draw):
        c = dict(draw(s0())); w = draw(warm_ops())
        if w: c["warm"] = w
        return c
    def r(case, env):
        global _warm
        _warm = case.get("warm")
        try: nt, lab = r0(case, env)
        finally: _warm = None
        return nt, (set(lab) | {"machine used before"} if case.get("warm") else lab)
    return Check(check.name, s, r, check.quick, check.thorough, check.flavour, check.shards, check.hang)
