"""C26: the control-system database written for a lattice names exactly its elements."""
import filecmp, io, logging, os, re, shutil, subprocess, sys
from hypothesis import strategies as st
import numpy as np
import gen, gencav
from core import Check, fail
from gen import chance

TECHNIQUE = "model-based property testing (Hypothesis): generated lattices of repeated, nested and similarly named elements are given to flame.ioc, through the class with generated record-name manglers and template directories and as a command, and the files written are read back with an independent reader and compared with the generated sequence and with flame.Machine; every record of the shipped templates is followed to the element it reads or sets"
RULE = "subst, command: at least two elements have records and some element name occurs more than once or some element has no records; links: at least one record that sets a parameter was followed"
ASSUMPTIONS = ["element names and paths have no characters with a meaning in EPICS files", "a mangler is a function of the element"]

KNOWN = ["source", "drift", "rfcavity", "quadrupole", "sextupole", "sbend", "solenoid", "edipole", "equad", "stripper", "bpm", "marker", "orbtrim"]
BUILD = {"marker": {}, "bpm": {}, "drift": {"L": 0.1}, "quadrupole": {"L": 0.2, "B2": 1.0}, "solenoid": {"L": 0.1, "B": 0.5}, "orbtrim": {}, "sextupole": {"L": 0.1, "B3": 1.0}, "equad": {"L": 0.1, "V": 10.0, "radius": 0.05}}
OTHER = ["thing", "Marker", "quadrupole2", "mark", "tdrift"]
BEAM = {"IonEs": 931.49432e6, "IonEk": 1e6, "IonChargeStates": [0.2], "NCharge": [1.0]}
NAMES = st.one_of(st.sampled_from(["a", "A", "b", "a1", "a11", "a_1", "a:b", "b:a", "q1", "q", "FS1_BMS:D1", "m", "m1"]), st.from_regex(r"\A[A-Za-z][A-Za-z0-9_:]{0,30}[A-Za-z0-9_]\Z"))
RESERVED = {"line", "use", "parse", "file", "h5file", "pi"}
MANGLERS = {
    "plain": lambda e: e["name"], "constant": lambda e: "X", "type": lambda e: e["type"], "lower": lambda e: "$(PREF)" + e["name"].lower(),
    "first": lambda e: e["name"][0], "both": lambda e: "%s:%s:" % (e["type"], e["name"]), "length": lambda e: "%s:%s" % (e["name"], e.get("L", "")), "short": lambda e: re.sub("[^a-zA-Z]", "", e["name"])}

@st.composite
def lattice(draw, only=None):
    names = draw(st.lists(NAMES.filter(lambda n: n.lower() not in RESERVED), min_size=1, max_size=6, unique=True))
    types = sorted(BUILD) if only else sorted(BUILD) + KNOWN + OTHER
    elems = {n: draw(st.sampled_from(types)) for n in names}
    lines = {}
    for k in range(draw(st.integers(0, 2))):
        n = "ln%d_" % k
        if n in elems: continue
        lines[n] = draw(st.lists(st.tuples(st.sampled_from([1, 1, 1, 2, 3]), st.sampled_from(names + sorted(lines))), min_size=1, max_size=4))
    main = draw(st.lists(st.tuples(st.sampled_from([1, 1, 1, 1, 2, 3, 12 if chance(draw, 0.2) else 1]), st.sampled_from(names + sorted(lines))), min_size=1, max_size=8))
    return {"elems": elems, "lines": {k: [list(x) for x in v] for k, v in lines.items()}, "main": [list(x) for x in main]}

def expand(c, items):
    out = []
    for n, x in items: out += n * ([x] if x in c["elems"] else expand(c, c["lines"][x]))
    return out

def text(c, sim="MomentMatrix"):
    o = ['sim_type = "%s";' % sim] + ["%s = %s;" % (k, gen.valtext(v)) for k, v in BEAM.items()]
    for n, t in c["elems"].items(): o.append("%s: %s%s;" % (n, t, "".join(", %s=%s" % (k, gen.valtext(v)) for k, v in BUILD.get(t, {}).items())))
    it = lambda L: "(" + ", ".join(("%d*%s" % (n, x)) if n > 1 else x for n, x in L) + ")"
    for n, L in c["lines"].items(): o.append("%s: LINE = %s;" % (n, it(L)))
    return "\n".join(o + ["cell_: LINE = %s;" % it(c["main"]), "USE: cell_;", ""])

def readsubst(p):
    """[(template, [(P, ELEM)])]"""
    s = open(p).read(); out = []; i = 0
    pat = re.compile(r'\s*file\s+"([^"]*)"\s*\{((?:\s*\{\s*P\s*=\s*"[^"]*"\s*,\s*ELEM\s*=\s*"[^"]*"\s*,?\s*\})*)\s*\}')
    while s[i:].strip():
        m = pat.match(s, i)
        if not m: fail("lattice.substitutions can't be read at %r", s[i:i + 60])
        out.append((m.group(1), re.findall(r'P\s*=\s*"([^"]*)"\s*,\s*ELEM\s*=\s*"([^"]*)"', m.group(2)))); i = m.end()
    return out

def resolve(link, seq):
    """the element a link names: 'name' or 'name[N]' (as in vaccel/flameelem.cpp)"""
    m = re.match(r"([^\s\[]+)(?:\[(\d+)\])?\Z", link)
    if not m: fail("ELEM=%r names no element", link)
    at = [i for i, n in enumerate(seq) if n == m.group(1)]; k = int(m.group(2) or 0)
    if k >= len(at): fail("ELEM=%r: the lattice %s has %d elements of that name", link, seq, len(at))
    return at[k]

def verify(out, indir, seq, types, inp, mangle, M=None):
    tpl = {f[:-9] for f in os.listdir(indir) if f.endswith(".template")}
    want = [i for i, n in enumerate(seq) if types[n] in tpl]
    S = readsubst(os.path.join(out, "lattice.substitutions")); blocks = {}
    for f, rows in S:
        if f in blocks: fail("two blocks for %s", f)
        blocks[f] = rows
    if "common.template" not in blocks: fail("no block for common.template: %s", list(blocks))
    at = {}
    for f, rows in S:
        got = [resolve(e, seq) for _, e in rows]
        exp = want if f == "common.template" else [i for i in want if types[seq[i]] + ".template" == f]
        if got != exp: fail("%s lists the elements %s of\n%s (%s)\nit should list %s\n%s", f, got, seq, [types[n] for n in seq], exp, rows)
        for (p, _), i in zip(rows, got):
            if at.setdefault(i, p) != p: fail("element %d has the record names %r and %r", i, at[i], p)
    for t in sorted({types[seq[i]] for i in want}):
        if t + ".template" not in blocks: fail("no block for %s.template", t)
    if len(set(at.values())) != len(at): fail("several elements have the same record name: %s", at)
    seen = set()
    for i in want:                          # the first of a name (or whatever the mangler makes of it) has that very name
        m = mangle({"name": seq[i], "type": types[seq[i]], **BUILD.get(types[seq[i]], {})})
        if not at[i].startswith(m): fail("record name %r of %s, the mangler said %r", at[i], seq[i], m)
    files = {"core.db", "orbit.db", "common.template"} | {types[seq[i]] + ".template" for i in want}
    for f in files:
        if not os.path.exists(os.path.join(out, f)) or open(os.path.join(out, f), "rb").read() != open(os.path.join(indir, f), "rb").read(): fail("%s is not a copy of the one in %s", f, indir)
    if open(os.path.join(out, "input.lat"), "rb").read() != open(inp, "rb").read(): fail("input.lat is not the lattice")
    cmd = open(os.path.join(out, "st.cmd")).read()
    n = sum(types[x] == "marker" for x in seq); got = re.findall(r"NELM\s*=\s*(\d+)", cmd)
    if [int(x) for x in got] != [n]: fail("st.cmd says NELM=%s, %d markers", got, n)
    got = re.findall(r'epicsEnvSet\(\s*"LATTICE"\s*,\s*"([^"]*)"', cmd)
    if len(got) != 1 or not os.path.isabs(got[0]) or os.path.realpath(got[0]) != os.path.realpath(inp): fail("st.cmd says the lattice is %s, it is %s", got, inp)
    if M is not None:
        for i, n in enumerate(seq):
            if M.conf(i)["name"] != n: fail("element %d of the machine is %s, expected %s", i, M.conf(i)["name"], n)
            if i in M.find(name=n) and M.find(name=n)[seq[:i].count(n)] != i: fail("find(%r) is %s", n, M.find(name=n))
    return want

# ---------------------------------------------------------------- the class
@st.composite
def subst_case(draw):
    c = draw(lattice(only=draw(st.booleans()))); tp = sorted(set(c["elems"].values()))
    c["mangler"] = draw(st.sampled_from([None, None] + sorted(MANGLERS)))
    c["dir"] = draw(st.sampled_from([None, None, "own"])); c["tpl"] = draw(st.lists(st.sampled_from(tp), unique=True)) if c["dir"] else []
    c["dirs"] = draw(st.sampled_from(["flat", "flat", "deep", "exists", "old"])); c["rel"] = draw(st.booleans()); c["twice"] = draw(st.booleans())
    return c

class Warnings(logging.Handler):
    def __init__(self): logging.Handler.__init__(self); self.got = []
    def emit(self, r): self.got.append(r)

def setup(c, env):
    """(root, input, data directory, types, sequence)"""
    from flame import ioc
    env.n += 1; root = env.tmp("i%d" % env.n); os.makedirs(root + "/lat/sub"); inp = root + "/lat/sub/in put.lat"
    with open(inp, "w") as f: f.write(text(c))
    indir = ioc.datadir
    if c.get("dir"):
        indir = root + "/data"; os.makedirs(indir)
        for f in ("core.db", "orbit.db", "common.template"):
            with open(indir + "/" + f, "w") as g: g.write("# own %s\n" % f)
        with open(indir + "/st.cmd", "w") as g: g.write('epicsEnvSet("LATTICE", "%(latticepath)s")\n# %%\nX("NELM=%(nmarkers)d")\n')
        for t in c["tpl"]:
            with open(indir + "/" + t + ".template", "w") as g: g.write("# %s \xe9\n" % t)
    return root, inp, indir, c["elems"], expand(c, c["main"])

def outdir(c, root, inp):
    o = root + "/out" + ("/a/b" if c["dirs"] == "deep" else "")
    if c["dirs"] in ("exists", "old"):
        os.makedirs(o)
        if c["dirs"] == "old":
            for f in ("lattice.substitutions", "st.cmd", "input.lat", "core.db", "quadrupole.template"):
                with open(o + "/" + f, "w") as g: g.write("something longer than before\n" * 300)
    return o

def subst_run(c, env):
    import flame
    from flame import ioc
    root, inp, indir, types, seq = setup(c, env); labels = ["mangler %s" % c["mangler"], "out %s" % c["dirs"]]
    try:
        os.chdir(root); tpl = {f[:-9] for f in os.listdir(indir) if f.endswith(".template")}; any_ = any(types[n] in tpl for n in seq)
        a = [os.path.relpath(inp, root) if c["rel"] else inp]; kw = {}
        mangle = MANGLERS[c["mangler"]] if c["mangler"] else (lambda e: "$(PREF)%s:" % e["name"])
        if c["mangler"]: kw["mangler"] = mangle
        if c.get("dir"): kw["indir"] = indir
        o = outdir(c, root, inp); W = Warnings(); lg = logging.getLogger("flame.ioc"); lg.addHandler(W); lg.propagate = False
        try:
            G = ioc.Generator(*a, **kw)
            for k in range(1 + c["twice"]):
                W.got = []
                try: G.emit_subst(o if not c["rel"] else os.path.relpath(o, root))
                except RuntimeError as e:
                    if any_: fail("refused: %s", e)
                    if "No elements" not in str(e): fail("no element has records, and the error is %s", e)
                    return False, labels + ["no elements"]
                if not any_: fail("no element has records, but the database was written")
                miss = sorted(w for r in W.got if r.levelno >= logging.WARNING for w in set(re.findall(r"\w+", r.getMessage())) & set(types.values()))
                if miss != sorted({types[n] for n in seq} - tpl): fail("warnings about the types %s of %s", miss, sorted({types[n] for n in seq} - tpl))
        finally: lg.removeHandler(W)
        M = None
        if all(t in BUILD for t in types.values()): M = flame.Machine(open(inp, "rb")); labels.append("machine")
        want = verify(o, indir, seq, types, inp, mangle, M)
        if c["dir"]: labels.append("own templates")
        if len(want) < len(seq): labels.append("without records")
        return len(want) > 1 and (len(set(seq)) < len(seq) or len(want) < len(seq)), labels
    finally: os.chdir(env.scratch); shutil.rmtree(root)

# ---------------------------------------------------------------- the command
@st.composite
def command_case(draw):
    c = draw(lattice()); c["dir"] = None; c["dirs"] = draw(st.sampled_from(["flat", "deep", "exists", "old"])); c["rel"] = draw(st.booleans()); c["debug"] = draw(st.booleans()); c["about"] = chance(draw, 0.1)
    return c

def command_run(c, env):
    from flame import ioc
    root, inp, indir, types, seq = setup(c, env)
    try:
        o = outdir(c, root, inp); tpl = {f[:-9] for f in os.listdir(indir) if f.endswith(".template")}; any_ = any(types[n] in tpl for n in seq)
        import flame
        cwd = root + "/lat"; env2 = dict(os.environ); env2["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(flame.__file__))) + os.pathsep + env2.get("PYTHONPATH", ""); env2["PYTHONDONTWRITEBYTECODE"] = "1"
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "flame.ioc"] + (["-d"] if c["debug"] else []) + ["gendb", os.path.relpath(inp, cwd) if c["rel"] else inp, os.path.relpath(o, cwd) if c["rel"] else o], cwd=cwd, env=env2, capture_output=True, text=True, timeout=120)
        if c["about"]:
            q = subprocess.run([sys.executable, "-W", "ignore", "-m", "flame"], cwd=cwd, env=env2, capture_output=True, text=True, timeout=120)
            if q.returncode or not re.search(r"Python API version:\s*%s\b" % flame._pyapi_version, q.stdout) or not re.search(r"C\+\+ API version:\s*%s\b" % flame._capi_version, q.stdout): fail("python -m flame ends with %d, %s %s", q.returncode, q.stdout, q.stderr)
        if not any_:
            if r.returncode == 0 or "No elements" not in r.stderr: fail("no element has records: exit %d, %s", r.returncode, r.stderr[-500:])
            return False, ["no elements"]
        if r.returncode: fail("gendb ended with %d: %s", r.returncode, r.stderr[-1500:])
        want = verify(o, indir, seq, types, inp, lambda e: "$(PREF)%s:" % e["name"])
        for t in {types[n] for n in seq} - tpl:
            if not re.search(r"\b%s\b" % t, r.stderr): fail("nothing is said about the type %s without records: %s", t, r.stderr)
        return len(want) > 1 and (len(set(seq)) < len(seq) or len(want) < len(seq)), ["relative" if c["rel"] else "absolute", "out %s" % c["dirs"]]
    finally: shutil.rmtree(root)

# ---------------------------------------------------------------- the records of the shipped templates
SETS = {"quadrupole": lambda d: {"L": d(0.05, 0.4), "B2": d(-5, 5)}, "solenoid": lambda d: {"L": d(0.05, 0.4), "B": d(0.5, 4)}, "sextupole": lambda d: {"L": d(0.05, 0.4), "B3": d(1, 50)}, "equad": lambda d: {"L": d(0.05, 0.4), "V": d(50, 500), "radius": d(0.02, 0.05)},
        "sbend": lambda d: {"L": d(0.2, 1), "phi": d(2, 40), "phi1": 0.0, "phi2": 0.0, "bg": 0.0}, "edipole": lambda d: {"L": d(0.2, 1), "phi": d(2, 40), "beta": 0.0, "fringe_x": 0.0, "fringe_y": 0.0, "asym_fac": 0.0, "spher": 0.0, "ver": 0.0},
        "rfcavity": lambda d: {"L": 0.24, "cavtype": "0.041QWR", "f": 80.5e6, "phi": d(-40, 40), "scl_fac": d(0.3, 1.0)}, "marker": lambda d: {}, "bpm": lambda d: {}, "drift": lambda d: {"L": d(0.05, 1)}, "orbtrim": lambda d: {"theta_x": d(-1e-3, 1e-3)}}

@st.composite
def links_case(draw):
    d = lambda a, b: draw(st.integers(1, 999)) / 1000.0 * (b - a) + a
    pool = [{"name": n, "type": t, **SETS[t](d)} for n, t in zip(["a", "b", "c", "d"], [draw(st.sampled_from(sorted(SETS))) for _ in range(4)])]
    seq = draw(st.lists(st.integers(0, 3), min_size=1, max_size=5))
    return {"pool": pool, "seq": seq, "change": draw(st.integers(0, 999)), "f": draw(st.sampled_from([0.1, -0.2, 0.01]))}

def expanded(s, mac):
    """EPICS macro substitution, $(X) and $(X=default)"""
    return re.sub(r"\$\((\w+)(?:=([^()]*))?\)", lambda m: mac.get(m.group(1), m.group(2) if m.group(2) is not None else m.group(0)), s)

def records(s):
    for m in re.finditer(r'record\(\s*(\w+)\s*,\s*"([^"]+)"\s*\)\s*\{([^{}]*)\}', s): yield m.group(1), m.group(2), {k: v for k, v in re.findall(r'field\(\s*"?(\w+)"?\s*,\s*"([^"]*)"\s*\)', m.group(3))}

def links_run(c, env):
    import flame
    from flame import ioc
    env.n += 1; root = env.tmp("i%d" % env.n); os.makedirs(root)
    try:
        m0 = [1.0, 1e-3, -0.5, 2e-3, 1e-3, 1e-3, 1.0]; els = [c["pool"][i] for i in c["seq"]]; seq = ["S"] + [e["name"] for e in els]
        o = ['sim_type = "MomentMatrix";', 'Eng_Data_Dir = "%s";' % os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python/flame/test/data"), "IonEs=931.49432e6; IonEk=1e6; IonChargeStates=[0.2]; NCharge=[1];", "BaryCenter0=%s;" % gen.valtext(m0), "S0=%s;" % gen.valtext([float(x) for x in np.diag([1, 1e-6, 1, 1e-6, 1e-6, 1e-6, 0]).ravel()]), 'S: source, vector_variable="BaryCenter", matrix_variable="S";']
        for e in c["pool"]: o.append("%s: %s%s;" % (e["name"], e["type"], "".join(", %s=%s" % (k, gen.valtext(v)) for k, v in e.items() if k not in ("name", "type"))))
        with open(root + "/in.lat", "w") as f: f.write("\n".join(o + ["cell_: LINE = (%s);" % ", ".join(seq), "USE: cell_;", ""]))
        ioc.Generator(root + "/in.lat").emit_subst(root + "/out"); M = flame.Machine(open(root + "/out/input.lat", "rb"))
        recs = {}; labels = set()
        for f, rows in readsubst(root + "/out/lattice.substitutions"):
            t = open(root + "/out/" + f).read()
            for p, e in rows:
                for rt, rn, fields in records(expanded(t, {"P": p, "ELEM": e, "SIM": "THESIM"})):
                    if rn in recs: fail("two records have the name %s", rn)
                    recs[rn] = (rt, fields)
                    if "$(" in rn.replace("$(PREF)", ""): fail("record name %s", rn)
        S = M.allocState({}); M.propagate(S); ref = [x for x in sets_state(S)]
        by = {}; sets = []; seen = set()
        for rn, (rt, fields) in sorted(recs.items()):
            d = fields.get("DTYP", ""); link = fields.get("INP", fields.get("OUT"))
            if not d.startswith("FLAME"): continue
            w = (link or "").split(" ")
            if w[0] != "@THESIM": fail("record %s has the link %r", rn, link)
            i = resolve(w[1], seq)
            if d == "FLAME Index": seen.add(i)
            elif d == "FLAME State":
                if len(w) != 3: fail("record %s has the link %r", rn, link)
                m = re.match(r"(\w+)((?:\[\d+\])*)\Z", w[2]); 
                if not m: fail("record %s has the link %r", rn, link)
                if m.group(1) not in set(S): fail("record %s reads %s, which states do not have", rn, w[2])
                v = np.asarray(getattr(S, m.group(1))); ix = tuple(int(x) for x in re.findall(r"\d+", m.group(2)))
                try: v = np.atleast_1d(v)[ix] if ix else v
                except IndexError: fail("record %s reads %s, a state has %s", rn, w[2], v.shape)
                labels.add("reads " + m.group(1))
            elif d == "FLAME Setting":
                if len(w) != 3: fail("record %s has the link %r", rn, link)
                v = dict(M.conf(i)).get(w[2])
                if not isinstance(v, float): fail("record %s of %s is about the parameter %s, which is %r", rn, els[i - 1], w[2], v)
                by.setdefault((i, w[2]), set()).add(rt)
                if rt == "ao": sets.append((i, w[2], v, rn))
            else: fail("record %s has the type %s", rn, d)
        if seen != set(range(len(seq))): fail("elements %s have records, of %s", sorted(seen), seq)
        for k, v in by.items():
            if v != {"ao", "ai"}: fail("%s of %s has records %s", k[1], els[k[0] - 1], sorted(v))
        for i, e in enumerate(els):
            need = {"quadrupole": {"B2"}, "solenoid": {"B"}, "sextupole": {"B3"}, "equad": {"V"}, "sbend": {"phi"}, "edipole": {"phi"}, "rfcavity": {"phi", "scl_fac"}}.get(e["type"], set())
            if not need <= {p for (k, p) in by if k == i + 1}: fail("%s has no records to set %s", e, need)
        if not sets: return False, labels
        i, p, v, rn = sets[c["change"] % len(sets)]; M.reconfigure(i, {p: v + c["f"] * max(1.0, abs(v))}); T = M.allocState({}); M.propagate(T)
        if all(np.array_equal(x, y, equal_nan=True) for x, y in zip(ref, sets_state(T))): fail("setting %s of %s from %r by the record %s changes nothing", p, els[i - 1], v, rn)
        labels.add("sets %s %s" % (els[i - 1]["type"], p)); return True, labels
    finally: shutil.rmtree(root)

def sets_state(S): return [np.array(S.moment0_env), np.array(S.moment1_env), np.array(S.transmat), np.array(S.ref_IonEk)]

CHECKS = [Check("subst", subst_case, subst_run, 3000, 60000), Check("links", links_case, links_run, 1500, 25000), Check("command", command_case, command_run, 96, 1500, hang=300)]
