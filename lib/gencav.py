"""Generators of RF cavities (real and synthetic data files) and strippers."""
import math, os
import numpy as np
from hypothesis import strategies as st
import gen, ref
from gen import fl, nz, or0

# total |E| integral (MV at scl_fac 1), field map length [mm] and nominal frequency of the shipped cavities
SHIPPED = {"0.041QWR": (41, 0.98477, 240.0, 80.5e6), "0.085QWR": (85, 1.967715, 300.0, 80.5e6),
           "0.29HWR": (29, 2.485036, 300.0, 322e6), "0.53HWR": (53, 4.25756986, 500.0, 322e6)}
DATA, TMP = "@DATA@", "@TMP@"

def amp(draw, g, V, lim=1.2):
    """scl_fac such that no charge state can lose more than 30 percent of its kinetic energy"""
    b = ref.initial(g)
    ek = min([p.Ek for p in b.real] + [b.ref.Ek]); z = max([abs(p.Z) for p in b.real] + [abs(b.ref.Z)])
    top = min(lim, 0.3 * ek / (z * V * 1e6))
    return 0.0 if draw(st.integers(0, 9)) == 9 else draw(fl(0.02, 1.0)) * top

def options(draw, e, g, V, mis, growth):
    e["scl_fac"] = amp(draw, g, V)
    e["phi"] = draw(st.one_of(fl(-180.0, 180.0), st.sampled_from([0.0, -35.0, 90.0, -90.0])))
    s = draw(st.sampled_from([None, None, 1.0, 0.0, 2.0, 1.0, 0.0, 2.0, 0.5, 1.5]))
    if s is not None: e["syncflag"] = s
    m = draw(st.sampled_from([None, None, 0.0, 1.0, 2.0, "0", "1", "2"]))
    if m is not None: e["MpoleLevel"] = m
    if growth and draw(st.integers(0, 2)) == 0: e["EmitGrowth"] = draw(st.sampled_from([1.0, "1"]))
    e.update(draw(gen.misalignment(mis)))

@st.composite
def shipped(draw, g, mis=0.3, growth=True):
    t = draw(st.sampled_from(sorted(SHIPPED))); lab, V, L, f = SHIPPED[t]
    e = {"type": "rfcavity", "L": L / 1e3, "f": draw(st.sampled_from([f, f, f, 80.5e6, 161e6, 322e6])), "Eng_Data_Dir": DATA}
    if draw(st.integers(0, 3)) == 0:
        e["cavtype"] = "Generic"; e["datafile"] = "thinlenlon_%d%s.lat" % (lab, draw(st.sampled_from(["", "_p"])))
    else:
        e["cavtype"] = t
        if draw(st.integers(0, 4)) == 0: e["forcettfcalc"] = 1.0
    options(draw, e, g, V, mis, growth)
    return e

r9 = lambda v: float("%.7g" % v)
@st.composite
def synthetic(draw, g, mis=0.3, growth=True, kind=None):
    """A cavity with generated data files; e['_files'] = {relative name: text}, in its own directory"""
    kind = kind or draw(st.sampled_from(["Generic"] * 2 + sorted(SHIPPED)))
    half = draw(st.sampled_from([60.0, 120.0, 150.0, 200.0])); n = draw(st.integers(3, 12)) * 2 + draw(st.integers(0, 1))
    z = np.linspace(-half, half, n) + half * draw(st.sampled_from([0.0] * 9 + [0.1, -0.1, 0.07]))      # the map need not be centred
    E = [draw(fl(-8e6, 8e6)) for _ in range((n + 1) // 2)]
    if not any(abs(x) > 1e5 for x in E): E[0] = 1e6
    E = E + [-x for x in reversed(E[:n - len(E)])] if draw(st.booleans()) else E + [draw(fl(-8e6, 8e6)) for _ in range(n - len(E))]
    V = float(np.sum(np.abs(E)) * (z[1] - z[0]) * 1e-9)
    e = {"type": "rfcavity", "L": draw(st.sampled_from([2 * half / 1e3, 0.25])), "f": draw(st.sampled_from([80.5e6, 161e6, 322e6])), "Eng_Data_Dir": TMP}
    parts = ["EFocus", "EDipole", "EQuad", "HMono", "HDipole", "HQuad"]
    ngap = draw(st.integers(1, 2)); files = {}
    klen = st.sampled_from([0.0] * 7 + [0.5, 3.0])        # a kick's own length only counts towards its position
    kick = lambda t: draw(fl(-1, 1)) * (3e-4 if t[0] == "H" else 0.2 if t != "EDipole" else 0.01)
    if kind == "Generic":
        e["cavtype"] = "Generic"; e["datafile"] = "cav.lat"
        out = []; names = []
        b = ref.initial(g); k = 2 * math.pi * e["f"] / (0.8 * min(p.beta for p in b.real + [b.ref]) * 299792458.0 * 1e3)
        def high(t):                          # now and then a coefficient of higher order, bounded at the beam's wave number
            if gen.chance(draw, 0.3): j = draw(st.integers(3, 9)); t[9 - j] = draw(fl(-0.4, 0.4)) / k ** j
            return t
        def poly(c0): return high([0.0] * 7 + [draw(fl(-20, 20)), draw(fl(-0.5, 0.5)), c0])
        L = 2 * half / (ngap + 1)
        for i in range(ngap + 1):
            ks = draw(st.lists(st.sampled_from(parts), max_size=3))
            out.append("d%d: drift, L = %r;" % (i, L)); names.append("d%d" % i)
            for j, t in enumerate(ks):
                out.append("k%d_%d: %s, L = %r, V0 = %r, attr = %r;" % (i, j, t, draw(klen), r9(kick(t)), [r9(x) for x in poly(draw(fl(-1, 1))) + poly(draw(fl(-0.2, 0.2)))]))
                names.append("k%d_%d" % (i, j))
            if i < ngap:
                syn = [draw(fl(1.0, 8.0)), draw(fl(-0.6, -0.4)), draw(fl(-3.0, 3.0))]
                out.append("g%d: AccGap, L = 0.0, V0 = %r, attr = %r;" % (i, r9(V / ngap * draw(fl(0.2, 1.0))), [r9(x) for x in high([0.0] * 9 + [draw(fl(-1, 1))]) + high([0.0] * 9 + [draw(fl(-0.3, 0.3))]) + syn]))
                names.append("g%d" % i)
        out.append("cell: LINE = (%s);" % ", ".join(names)); out.append("USE: cell;")
        pre = ["Rm = %r;" % draw(fl(10.0, 30.0))]
        if draw(st.booleans()):
            pre.append("RefNorm = %r;" % r9(draw(fl(0.05, 0.5))))
            pre.append("SyncFit = %r;" % [r9(draw(fl(-2, 2))) if i % 5 != 1 else r9(draw(fl(-0.6, -0.1))) for i in range(5 * draw(st.integers(1, 3)))])
            if draw(st.booleans()): pre += ["EnergyLimit = [0.1, 300.0];", "NormLimit = [0.0, 100.0];"]
        pre.append("Ez = [%s];" % ", ".join("%r, %r" % (r9(a), r9(b)) for a, b in zip(z, E)))
        files["cav.lat"] = "\n".join(pre + out) + "\n"
    else:
        lab = SHIPPED[kind][0]; e["cavtype"] = kind
        if draw(st.integers(0, 2)) == 0: e["forcettfcalc"] = 1.0
        sep = draw(st.sampled_from([" ", "\t", "   "])); com = draw(st.booleans())
        files["axisData_%d.txt" % lab] = ("%pos Ez\n" if com else "") + "".join("%r%s%r\n" % (r9(a), sep, r9(b)) for a, b in zip(z, E))
        m = draw(st.integers(4, 10)); zm = np.linspace(0.0, half, m)
        rows = [[r9(x)] + [r9(draw(fl(-1, 1)) * 1e5 + 1.0) for _ in range(7)] for x in zm]
        files["Multipole%d/CaviMlp_%d.txt" % (lab, lab)] = "%Posi EDipole EFocus1 EFocus2 EQuad HDipole HMono HQuad\n" + "".join(sep.join(repr(v) for v in r) + "\n" for r in rows)
        kinds = ["EFocus1", "EFocus2", "EQuad", "HMono", "HQuad"] + (["EDipole", "HDipole"] if lab in (41, 85) else [])
        ls = []
        L = half / 2
        for i in range(4):
            ls.append("drift d%d %r 0.015" % (i, L * (0.99 if i == 0 else 1.0)))
            for t in draw(st.lists(st.sampled_from(kinds), max_size=2)): ls.append("%s k %r 0.015 %r" % (t, draw(klen), r9(kick(t))))
            if i in (0, 2): ls.append("AccGap g 0.0 0.015")
        files["Multipole%d/thinlenlon_%d.txt" % (lab, lab)] = ("%% model\n\n" if com else "") + "\n".join(ls) + "\n"
    options(draw, e, g, V, mis, growth)
    e["_files"] = files
    return e

@st.composite
def cavity(draw, g, mis=0.3, growth=True, syn=0.5):
    return draw(synthetic(g, mis, growth)) if gen.chance(draw, syn) else draw(shipped(g, mis, growth))

@st.composite
def stripper(draw, g, nmax=5):
    n = draw(st.integers(1, nmax))
    e = {"type": "stripper"}
    if draw(st.integers(0, 5)): e["IonChargeStates"] = [r9(draw(fl(0.1, 0.9))) for _ in range(n)]; e["NCharge"] = [r9(draw(fl(0.1, 1e3))) for _ in range(n)]
    ek = g["IonEk"]
    e["Stripper_E0Para"] = [r9(ek * draw(fl(0.9, 1.0))), r9(draw(fl(0.9, 1.1))), r9(draw(fl(-0.2, 0.2)))]
    e["Stripper_Para"] = [r9(draw(fl(0.5, 5))), r9(draw(fl(1, 40))), r9(ek)]
    for k, s in (("Stripper_IonZ", fl(0.1, 0.9)), ("Stripper_IonMass", st.sampled_from([238.0, 40.0, 129.0])), ("Stripper_IonProton", st.sampled_from([92.0, 18.0, 54.0])),
                 ("Stripper_E1Para", fl(0.0, 0.01)), ("Stripper_lambda", fl(1.0, 10.0)), ("Stripper_upara", fl(0.1, 5.0)), ("charge_model", st.sampled_from(["off", "baron"]))):
        if draw(st.booleans()): e[k] = draw(s)
    return e

def materialize(case, env):
    """Write generated files, resolve the directory placeholders; returns a new case."""
    data = os.path.join(env.bdir, "..", "src", "python", "flame", "test", "data")
    data = os.path.realpath(data)
    els = []
    for e in case["els"]:
        e = dict(e); files = e.pop("_files", None)
        if files is not None:
            env.n += 1; d = env.tmp("cav%d" % env.n)
            for n, t in files.items():
                p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f: f.write(t)
            e["Eng_Data_Dir"] = d
        elif e.get("Eng_Data_Dir") == DATA: e["Eng_Data_Dir"] = data
        els.append(e)
    return dict(case, els=els)
