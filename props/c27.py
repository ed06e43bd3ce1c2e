"""C27: what machines and states print is what they hold."""
import re
from hypothesis import strategies as st
import numpy as np
import cmp, gen, gencav, hist
from core import Check, fail
from gen import chance

TECHNIQUE = "model-based stateful property testing (Hypothesis): histories of propagation, attribute changes, copies and reconfiguration; the text of states at every level and of machines is read back by an independent reader and compared with the attributes, the configuration and the maps observed by propagation"
RULE = "at least one element was propagated, and there are several charge states, several elements or a changed attribute or parameter"
ASSUMPTIONS = ["numbers are compared to the digits printed", "layout apart from labels and the order of numbers is not judged"]

NUM = r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)"
def numbers(s): return [float(x) for x in re.findall(NUM, s)]
def ub(s):
    """a vector or matrix as boost::ublas prints it: [n](..) or [n,m]((..),(..))"""
    m = re.match(r"\s*\[(\d+)(?:,(\d+))?\]\(", s)
    if not m: fail("no array at %r", s[:80])
    d = 0; i = m.end() - 1
    for j in range(i, len(s)):
        d += (s[j] == "(") - (s[j] == ")")
        if d == 0: break
    n = [int(x) for x in m.groups() if x]; v = numbers(s[i:j + 1])
    if len(v) != int(np.prod(n)): fail("%d numbers in an array of %s: %s", len(v), n, s[:j + 1])
    return np.array(v).reshape(n)

def same(got, want, digits, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape: fail("%s: printed %s, held %s", what, got.shape, want.shape)
    ok = (np.abs(got - want) <= np.abs(want) * 0.6 * 10.0 ** (1 - digits)) | (got == want) | (np.isnan(got) & np.isnan(want))
    if not np.all(ok): fail("%s: printed\n%s\nheld\n%s", what, got, want)

def after(s, label, what):
    i = s.find(label)
    if i < 0: fail("%s: no %r in\n%s", what, label, s)
    return s[i + len(label):]

PART = ("IonZ", "IonQ", "IonEs", "IonEk", "SampleIonK", "phis", "IonW", "gamma", "beta", "bg")
def particle(line, S, q, what):
    got = dict(re.findall(r"(\w+)=(%s)" % NUM, line))
    for k in PART:
        if k not in got: fail("%s: no %s in %r", what, k, line)
        same(float(got[k]), S["ref_" + k] if q is None else S[k][q], 11, "%s %s" % (what, k))

def moment_state(t, S, level, what):
    if level <= 0:
        same(ub(after(t, "mean=", what)), S["moment0_env"], 6, what + " mean"); return
    same(numbers(after(t, "energy [eV] =", what))[0], S["IonEk"][0], 9, what + " energy")
    a = after(t, "moment0 mean =", what); b = after(a, "moment0 rms =", what); c = after(b, "moment1 mean =", what)
    same(numbers(a[:a.index("moment0 rms")]), S["moment0_env"], 11, what + " mean")
    same(numbers(b[:b.index("moment1 mean")]), S["moment0_rms"], 11, what + " rms")
    c = c[:c.index("Reference state")] if "Reference state" in c else c
    same(numbers(c), np.asarray(S["moment1_env"]).ravel(), 11, what + " covariance")
    parts = t.split("Charge state ")
    if level < 2:
        if len(parts) != 1 or "Reference state" in t: fail("%s: charge states shown", what)
        return
    r = after(parts[0], "Reference state:", what); particle(r, S, None, what + " reference")
    if len(parts) - 1 != S["IonZ"].size: fail("%s: %d charge states printed of %d", what, len(parts) - 1, S["IonZ"].size)
    for q, p in enumerate(parts[1:]):
        w = "%s charge state %d" % (what, q)
        if int(re.match(r"(\d+)", p).group(1)) != q: fail("%s: numbered %s", w, p[:10])
        particle(p[:p.index("moment0")], S, q, w); same(ub(after(p, "moment0", w)), S["moment0"][:, q], 11, w + " moment0")
        if level >= 3: same(ub(after(p, "moment1", w)), S["moment1"][:, :, q], 11, w + " moment1")
        elif "moment1" in p: fail("%s: moment1 shown at level %d", w, level)

def show(S, what, levels, linear):
    before = cmp.snap(S)
    for l in levels:
        t = S.show() if l is None else S.show(l)
        if not isinstance(t, str): fail("%s: show gives %r", what, t)
        if linear: same(ub(after(t, "State:", what)), before["state"], 6, what)
        else: moment_state(t, before, 1 if l is None else l, "%s show(%s)" % (what, l))
    t = str(S)
    if linear: same(ub(after(t, "State:", what)), before["state"], 6, what)
    else: moment_state(t, before, 0, what + " str")
    now = cmp.snap(S)
    if set(now) != set(before) or any(not np.array_equal(np.asarray(now[k]), np.asarray(before[k]), equal_nan=True) for k in now): fail("%s: printing changed the state", what)

def machine(M, sim, names, types, what, c):
    import flame
    t = str(M); m = re.match(r"\s*sim_type:\s*(\S+)\s*#Elements:\s*(\d+)\s*", t)
    if not m: fail("%s: %s", what, t[:200])
    if m.group(1) != sim or int(m.group(2)) != len(names): fail("%s: %s, the machine is %s with %d elements", what, m.group(0), sim, len(names))
    blocks = re.split(r"^Element ", t[m.end():], flags=re.M)[1:]
    if len(blocks) != len(names): fail("%s: %d elements printed of %d\n%s", what, len(blocks), len(names), t)
    for i, b in enumerate(blocks):
        h = re.match(r"(\d+):\s*(\S+)\s*\((\w+)\)", b)
        if not h or (int(h.group(1)), h.group(2), h.group(3)) != (i, names[i], types[i]): fail("%s: element %d is %s (%s), printed as %r", what, i, names[i], types[i], b[:60])
        rest = b[h.end():]
        if types[i] == "source":
            S = M.allocState() if sim != "MomentMatrix" else M.allocState({})
            M.propagate(S, start=i, max=1); same(ub(after(rest, "Initial:", what)), np.array(S.state if sim != "MomentMatrix" else S.moment0_env), 6, "%s source %d" % (what, i))
        elif sim == "TransferMatrix":
            S = M.allocState(); S.state = np.eye(6); M.propagate(S, start=i, max=1); got = ub(after(rest, "Transfer:", what))
            if np.all(np.isfinite(got)): same(got, np.array(S.state), 6, "%s map of element %d" % (what, i))
        elif sim == "Vector":
            got = ub(after(rest, "Transfer:", what)); S = M.allocState()
            for k in range(6 if np.all(np.isfinite(got)) else 0): S.state = np.eye(6)[k]; M.propagate(S, start=i, max=1); same(got[:, k], np.array(S.state), 6, "%s column %d of element %d" % (what, k, i))

@st.composite
def strat(draw):
    lin = chance(draw, 0.3)
    c = draw(hist.linear_lattice() if lin else hist.moment_lattice(cav=0.1, broken=0.0, nmax=4)); c["sim"] = c.get("sim", "MomentMatrix"); n = len(c["els"])
    par = {"drift": "L", "quadrupole": "L", "solenoid": "L", "sbend": "L"}
    op = st.one_of(st.tuples(st.just("prop"), st.integers(0, n), st.sampled_from([1, 1, 2, 99, -1])), st.tuples(st.just("set"), st.sampled_from(hist.ATTRS), st.integers(0, 5), st.sampled_from([0.01, -0.003, 1e-7, 1e5])),
                   st.tuples(st.just("clone")), st.tuples(st.just("reconf"), st.integers(0, n - 1), st.sampled_from([0.25, 1.5, 1e-3])), st.tuples(st.just("new")))
    c["ops"] = [list(x) for x in draw(st.lists(op, min_size=1, max_size=6))]; c["levels"] = draw(st.lists(st.sampled_from([None, -1, 0, 1, 2, 3, 4, 100]), min_size=1, max_size=3)); c["print"] = draw(st.booleans())
    return c

def run(case, env):
    import flame
    c = gencav.materialize(case, env); lin = c["sim"] != "MomentMatrix"; sim = c["sim"]; M = flame.Machine(gen.conf(c, sim)); S = M.allocState()
    names = [e["name"] for e in c["els"]]; types = [e["type"] for e in c["els"]]; labels = {sim}; done = changed = False
    show(S, "new state", case["levels"], lin)
    if case["print"]: machine(M, sim, names, types, "new machine", c)
    for k, o in enumerate(case["ops"]):
        what = "after %s (%d)" % (o, k)
        if o[0] == "prop":
            e, _ = hist.propagate(M, S, o[1], o[2]); done = True
            if e: labels.add("error")
        elif o[0] == "set":
            S = hist.tweak(S, {"attr": o[1], "i": o[2], "f": o[3]}); changed = True
        elif o[0] == "clone": S = S.clone()
        elif o[0] == "new": S = M.allocState()
        else:
            if types[o[1]] in ("drift", "quadrupole", "solenoid", "sbend") and c["els"][o[1]].get("L"):
                try: M.reconfigure(o[1], {"L": c["els"][o[1]]["L"] * o[2]}); changed = True
                except (RuntimeError, ValueError): labels.add("refused")
        labels.add(o[0]); show(S, what, case["levels"], lin)
        if o[0] == "reconf" or (case["print"] and k + 1 == len(case["ops"])): machine(M, sim, names, types, what, c)
    return done and (changed or len(names) > 1), labels

CHECKS = [Check("print", strat, run, 5000, 80000)]
