"""C05: any input text is parsed or rejected cleanly; building and running a machine from it likewise."""
import ctypes, math, os, re, subprocess, sys
from hypothesis import strategies as st
import numpy as np
import gen, gencav, genlat, hist
from core import Check, Violation, fail
from gen import chance, fl

TECHNIQUE = "mutation and grammar fuzzing (Hypothesis) of lattice texts, configurations and data files under AddressSanitizer and UBSan, with an allocation-growth check"
RULE = "a case is non-trivial if the input was mutated (text, config, data) (bounds: every case has sizes at or next to their limits) and, for leaks, if the repeated call does real work (a parse error after at least one statement, or a machine)"
ASSUMPTIONS = ["resource exhaustion on purpose (a beamline of more than 1e5 elements, more than 1e4 sextupole steps) is not generated",
               "a leak is an allocation growth of at least 16 bytes per repeated identical call, twice in a row"]

FROZEN = b'a = 1+2*3; v = [1, a, 3]; s = "t"; d: drift, L = a; q: quadrupole, L = 0.5, K = -0.25; c: LINE = (d, 2*q, -d); USE: c;'
BASES = [b"", b"a", b"a = 1;", b'print("x");', b"d: drift, L=1; l: LINE=(d);", b'x = parse("no.lat");', b'x = parse(".");', b'x = file("none"); ', b'h = h5file("a.h5/b");', b"USE: x;", b"END;",
         b'a = "unterminated', b"# only a comment", b"l: LINE = ();", b"END; print(1); print([1, 2]); print(\"x\"); d: drift; print(d); l: LINE = (d); print(l); print(-l); print(2*l);",
         b'l: LINE = (); c = parse("ok.lat"); print(c); print(parse("ok.lat")); d: drift, sub = c; m: LINE = (d, 0*d); USE: m;', b'v = [[1]]; ', b'v = ["a"];', b'c = parse("ok.lat"); x = [c]; ', b'c = parse("ok.lat"); x = -c;', b'x = sin(parse("ok.lat"));', b'd: drift, a = parse("ok.lat"), a = [1, "x"];', b"a = -(-(-(-1)));", b"\xff\xfe", b"\x00", b"a = 1/0;", b"d: drift; l: LINE = (3*(d, d));", b"d: drift, L=; l: LINE=(d);"]
SNIP = [b";", b",", b"(", b")", b"[", b"]", b"=", b":", b'"', b"#", b"\n", b"\x00", b"\xc3\xa9", b"\xff", b"-", b"*", b"/", b"+", b"LINE", b"USE", b"END", b"print(", b'parse("self.lat")', b'parse(".")', b'h5file(".")', b'file("self.lat")',
        b"1e400", b"1e-400", b"nan", b"inf", b"0x1F", b"99999999999999999999", b"-1", b"0", b"a", b"e0", b"cell", b"sin(1)", b"[]", b'""', b"[[1]]", b"(((((((((((((((((((", b"1,1,1,1,1,1,1", b"L = 1", b": drift", b"\r\n", b"\t", b"%s%n%d", b"\\", b"'", b"@", b"$", b"IonChargeStates"]
TOK = re.compile(rb'"[^"\n]*"|[A-Za-z_][A-Za-z0-9_:.]*|[0-9][0-9.eE+-]*|.', re.S)

@st.composite
def base_text(draw):
    k = draw(st.integers(0, 9))
    if k < 3:
        prog, g = draw(genlat.program(nmax=8)); return genlat.layout(prog, draw(st.integers(0, 10 ** 6)))[0].encode("utf-8", "replace")
    if k < 6:
        c = draw(hist.moment_lattice(nmax=3, cav=0.2)); c["els"] = [{a: b for a, b in e.items() if a != "_files"} for e in c["els"]]
        return gen.text(c).encode()
    if k < 8:
        c = draw(hist.linear_lattice(nmax=3)); return gen.text(c, c["sim"]).encode()
    return draw(st.sampled_from(BASES))

def mutate(draw, t):
    for _ in range(draw(st.sampled_from([1, 2, 3, 4, 1, 2, 6, 0]))):
        k = draw(st.integers(0, 11)); p = draw(st.integers(0, 4095)); q = draw(st.integers(0, 40)); n = max(1, len(t)); p %= n
        if k == 0: t = t[:p] + t[p + 1 + q:]
        elif k == 1: t = t[:p] + draw(st.sampled_from(SNIP)) + t[p:]
        elif k == 2: t = t[:p] + bytes([draw(st.integers(0, 255))]) + t[p + 1:]
        elif k == 3: t = t[:p]
        elif k == 4: t = t[:p] + t[max(0, p - q):p] + t[p:]
        elif k in (5, 6, 7, 8):
            T = TOK.findall(t)
            if not T: continue
            i = p % len(T)
            if k == 5: T.pop(i)
            elif k == 6: T[i] = draw(st.sampled_from(SNIP))
            elif k == 7: T.insert(i, T[(p + q) % len(T)])
            else: j = (i + q) % len(T); T[i], T[j] = T[j], T[i]
            t = b"".join(T)
        elif k == 9: t = t + t[p:]
        elif k == 10: t = t[:p] + draw(st.binary(max_size=12)) + t[p:]
        else:
            m = list(re.finditer(rb"[0-9][0-9.]*(?:e[+-]?[0-9]+)?", t))
            if m: x = m[p % len(m)]; t = t[:x.start()] + draw(st.sampled_from([b"0", b"-1", b"1e308", b"1e-308", b"nan", b"7", b"1e400", b"65536", b"0.5", b"[1,2]", b'"x"'])) + t[x.end():]
    return t

@st.composite
def text_case(draw):
    b = draw(base_text()); t = mutate(draw, b)
    if chance(draw, 0.03): t = b"a = " + draw(st.sampled_from([b"(", b"-", b"sin(", b"[", b'"', b"1+", b"1*("])) * draw(st.sampled_from([50, 1000, 20000])) + t
    return {"t": t.decode("latin-1"), "mut": t != b, "via": draw(st.sampled_from(["parse", "parse", "parse", "file", "machine", "cli"]))}

NUM = r"[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?"

def too_big(t):
    """a beamline of many elements, or many sextupole steps, asked for on purpose"""
    nums = [float(x) for x in re.findall(NUM, t) if len(x) < 300]
    big = max(nums + [1.0])
    if "step" in t and big > 1e4: return True
    logn = 0.0
    for seg in re.findall(r"(?is)LINE.*?(?:;|$)", t):
        for left in re.findall(r"(\S*)\s*\*", seg):
            m = re.search("(?<![0-9a-zA-Z_.+-])" + NUM + "$", left)
            f = float(m.group(0)) if m else big      # a variable or an expression: anything in the file
            logn += math.log(max(f, 2.0))
    return logn > math.log(1e5)

OKERR = (RuntimeError, ValueError, KeyError, TypeError, IndexError, OSError, NotImplementedError, ZeroDivisionError, AttributeError, OverflowError)

def guarded(what, f, *a, **k):
    try: return f(*a, **k)
    except MemoryError: raise
    except (SystemError, AssertionError) as e: fail("%s ends in %s: %s", what, type(e).__name__, e)
    except OKERR as e:
        if not str(e): fail("%s is rejected without a message (%s)", what, type(e).__name__)
        return None

def exercise(M):
    """a machine that could be built: allocate a state, run it both ways, print it"""
    n = guarded("len", len, M); labels = []
    if not n: return labels
    guarded("str(machine)", str, M)
    for inherit in (True, False):
        S = guarded("allocState", lambda: M.allocState() if inherit else M.allocState({}))
        if S is None: continue
        r = guarded("propagate", lambda: (M.propagate(S, max=200), 1)[1])
        if r is not None:
            labels.append("propagated")
            for a in S: guarded("attribute " + a, getattr, S, a)
        guarded("backward", lambda: M.propagate(S, start=min(n, 200) - 1, max=-200))
        guarded("str(state)", str, S); guarded("show", S.show, level=3) if hasattr(S, "show") else None
    return labels

def frozen():
    import flame
    return repr(flame.GLPSParser().parse(FROZEN))

def okfile(env):
    p = env.tmp("ok.lat")
    if not os.path.exists(p):
        with open(p, "wb") as f: f.write(FROZEN)

def text_run(case, env):
    import flame
    t = case["t"].encode("latin-1")
    if too_big(case["t"]): return False, ["skipped: huge"]
    if "good" not in env.cache: env.cache["good"] = frozen()
    data = os.path.realpath(os.path.join(env.bdir, "..", "src", "python", "flame", "test", "data")).encode()
    t = t.replace(b"@DATA@", data).replace(b"@TMP@", data)
    p = env.tmp("self.lat"); okfile(env)
    with open(p, "wb") as f: f.write(t)
    os.chdir(env.scratch); labels = [case["via"]]
    if case["via"] == "cli":
        # the sanitizer's runtime is already preloaded
        r = subprocess.run([env.bdir + "/tools/flame", p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80, cwd=env.scratch)
        if r.returncode not in (0, 1): fail("the command line tool ends with status %d: %s", r.returncode, (r.stdout + r.stderr)[-800:].decode("latin-1"))
        if r.returncode == 1 and not (r.stderr + r.stdout).strip(): fail("the command line tool fails without a message")
        return case["mut"], labels + ["accepted" if r.returncode == 0 else "rejected"]
    P = flame.GLPSParser()
    if case["via"] == "file":
        with open(p, "rb") as f: c = guarded("parse of a file", P.parse, f)
    else: c = guarded("parse", P.parse, t)
    if c is not None:
        labels.append("parsed")
        s = guarded("print", flame.GLPSPrinter, c)
        if isinstance(s, (str, bytes)): guarded("reparse", flame.GLPSParser().parse, s if isinstance(s, bytes) else s.encode())
    if case["via"] == "machine" or c is not None:
        if case["via"] == "file":
            with open(p, "rb") as f: M = guarded("Machine of a file", flame.Machine, f)
        else: M = guarded("Machine", flame.Machine, c if c is not None and len(t) % 2 else t)
        if M is not None: labels += ["machine"] + exercise(M)
    if frozen() != env.cache["good"]: fail("a later parse is disturbed: %s", frozen())
    return case["mut"], labels

# ---- configurations
VALS = [0.0, -1.0, 1.0, 2.0, 0.5, 1e308, -1e308, 1e-308, math.nan, math.inf, -math.inf, 3.0, 12.0, 1e9, -0.0, "", "x", "1", "off", "baron", "Generic", "MomentMatrix", [], [1.0], [0.0] * 6, [0.0] * 7, [1.0] * 36, [1.0] * 49, [0.0] * 48, [0.0] * 50, [math.nan] * 3, [1.0, 2.0], [0.0] * 3]
KEYS = ["L", "B", "B2", "B3", "V", "radius", "phi", "phi1", "phi2", "K", "bg", "ver", "spher", "fringe_x", "fringe_y", "asym_fac", "beta", "HdipoleFitMode", "ncurve", "curve0", "curve1", "scl_fac0", "use_range", "CurveFile", "Eng_Data_Dir",
        "cavtype", "datafile", "f", "scl_fac", "syncflag", "MpoleLevel", "EmitGrowth", "Rm", "forcettfcalc", "IonChargeStates", "NCharge", "charge_model", "Stripper_Para", "Stripper_E0Para", "Stripper_IonZ", "Stripper_lambda", "Stripper_upara", "transfer", "dx", "pitch", "roll", "skipcache", "theta_x", "realpara", "tm_xkick", "xyrotate", "thinlens", "dstkick",
        "type", "name", "aper", "initial", "vector_variable", "matrix_variable", "cstate", "S0", "initial0"]
GKEYS = ["IonEs", "IonEk", "IonZ", "IonQ", "SampleFreq", "IonChargeStates", "NCharge", "S0", "S1", "moment00", "initial0", "initial1", "cstate", "vector_variable", "matrix_variable", "sim_type", "elements", "initial", "skipcache"]
TYPES = ["source", "marker", "bpm", "drift", "orbtrim", "sbend", "quadrupole", "solenoid", "rfcavity", "stripper", "edipole", "equad", "generic", "sextupole", "nosuch", ""]

@st.composite
def config_case(draw):
    if chance(draw, 0.25): c = draw(hist.linear_lattice(nmax=4))
    else: c = dict(draw(hist.moment_lattice(nmax=4, cav=0.5, broken=0.05)), sim="MomentMatrix")
    if chance(draw, 0.3): c["els"] = gen.named(c["els"] + [{"type": draw(st.sampled_from(TYPES)), "L": 0.5}])
    muts = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 6)); i = draw(st.integers(0, len(c["els"]) - 1)); e = c["els"][i]; own = sorted(x for x in e if x not in ("_files", "name"))
        if k == 0 and own: muts.append(["del", i, draw(st.sampled_from(own))])
        elif k in (1, 2) and own: muts.append(["set", i, draw(st.sampled_from(own)), draw(st.sampled_from(VALS))])
        elif k == 3: muts.append(["set", i, draw(st.sampled_from(KEYS)), draw(st.sampled_from(VALS))])
        elif k == 4: muts.append(["gset", draw(st.sampled_from(GKEYS + sorted(c["g"]))), draw(st.sampled_from(VALS))])
        elif k == 5: muts.append(["gdel", draw(st.sampled_from(sorted(c["g"])))])
        else: muts.append(["re", i, draw(st.sampled_from(own + KEYS if own else KEYS)), draw(st.sampled_from(VALS))])
    if draw(st.integers(0, 1)):
        fs = [(i, f) for i, e in enumerate(c["els"]) for f in sorted(e.get("_files", {}))]
        if fs:
            i, f = draw(st.sampled_from(fs)); t = mutate(draw, c["els"][i]["_files"][f].encode())
            c["els"][i]["_files"][f] = t.decode("latin-1"); muts.append(["file", i, f])
    return {"c": c, "muts": muts}

def cv(v): return np.array(v, float) if isinstance(v, list) else v

def config_run(case, env):
    import flame
    c = {"g": dict(case["c"]["g"]), "els": [dict(e) for e in case["c"]["els"]]}; sim = case["c"]["sim"]; late = []
    if any("step" in e and e["step"] > 1e4 for e in c["els"]): return False, ["skipped: huge"]
    if any(too_big(t) for e in c["els"] for n, t in e.get("_files", {}).items() if n.endswith(".lat")): return False, ["skipped: huge"]
    for m in case["muts"]:
        if m[0] == "del": c["els"][m[1]].pop(m[2], None)
        elif m[0] == "set":
            if m[2] != "step": c["els"][m[1]][m[2]] = m[3]
        elif m[0] == "gset": c["g"][m[1]] = m[2]
        elif m[0] == "gdel": c["g"].pop(m[1], None)
        elif m[0] == "re":
            if m[2] != "step": late.append((m[1], m[2], m[3]))
    for e in c["els"]:
        if e.get("ncurve") == 1e9: e["ncurve"] = 5.0
    # latin-1 data files
    els = []
    for e in c["els"]:
        files = e.pop("_files", None)
        if files is not None:
            env.n += 1; d = env.tmp("c%d" % env.n)
            for n, t in files.items():
                p = os.path.join(d, n); os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f: f.write(t.encode("latin-1"))
            if e.get("Eng_Data_Dir") == gencav.TMP: e["Eng_Data_Dir"] = d
        els.append(e)
    c = gencav.materialize({"g": c["g"], "els": els}, env)
    conf = {"sim_type": sim}; conf.update({k: cv(v) for k, v in c["g"].items()})
    if "elements" not in c["g"]: conf["elements"] = [{k: cv(v) for k, v in e.items()} for e in c["els"]]
    M = guarded("Machine", flame.Machine, conf); labels = ["file" if any(m[0] == "file" for m in case["muts"]) else "values"]
    guarded("print", flame.GLPSPrinter, conf)
    if M is None: return True, labels + ["rejected"]
    labels += exercise(M)
    for i, k, v in late:
        r = guarded("reconfigure", lambda: (M.reconfigure(i, {k: cv(v)}), 1)[1])
        labels.append("reconfigured" if r else "reconfigure rejected"); exercise(M)
    return True, labels

# ---- sizes and indices next to their limits
@st.composite
def bounds_case(draw):
    k = draw(st.integers(0, 9)); off = lambda n: max(0, n + draw(st.sampled_from([-1, 0, 1, 1, 2, 6, 7, 40])))
    if k < 2:
        sim = draw(st.sampled_from(["Vector", "TransferMatrix"])); n = 6 if sim == "Vector" else 36
        return {"sim": sim, "g": {"initial": off(n)}, "els": [["source", {}], ["generic", {"transfer": off(36)}], ["drift", {}], ["source", {"initial": off(n)}]][:draw(st.integers(1, 4))]}
    n = draw(st.integers(1, 12)); g = {"n": n, "cen": [7] * n, "cov": [49] * n, "nq": n}
    for _ in range(draw(st.integers(0, 2))):
        w = draw(st.integers(0, 4))
        if not g["cen"]: break
        if w == 0: g["cstate"] = draw(st.sampled_from([0.0, n - 1.0, float(n), n + 1.0, n - 0.5, n + 0.5, -1.0, -0.5, 1e19, 1e300, math.nan, math.inf, 11.0, 64.0]))
        elif w == 1: g["cen"][draw(st.integers(0, len(g["cen"]) - 1))] = off(7)
        elif w == 2: g["cov"][draw(st.integers(0, len(g["cov"]) - 1))] = off(49)
        elif w == 3: g["nq"] = off(n)
        else: g["cen"].pop(); g["cov"].pop()
    els = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.sampled_from(["stripper", "stripper", "tmatrix", "curve", "drift", "source", "source"])); m = draw(st.integers(0, 12))
        if t == "stripper":
            e = {"IonChargeStates": m, "NCharge": off(m)}
            if draw(st.booleans()): e["charge_model"] = draw(st.sampled_from(["off", "baron"]))
            for a, z in (("Stripper_E1Para", 3), ("Stripper_lambda", 3), ("Stripper_upara", 3), ("Stripper_E0Para", 3), ("Stripper_Para", 3)):
                if draw(st.integers(0, 3)) == 0: e[a] = off(z)
        elif t == "tmatrix": e = {"matrix": off(49)}
        elif t == "curve":
            z = draw(st.integers(0, 5)); nc = draw(st.integers(0, 3)); e = {"type": draw(st.sampled_from(["quadrupole", "solenoid", "equad"])), "ncurve": draw(st.sampled_from([float(nc), nc + 1.0, float(nc), nc - 1.0]))}
            for i in range(nc): e["curve%d" % i] = z if draw(st.integers(0, 3)) else off(z)
            if draw(st.booleans()): e["use_range"] = [float(draw(st.integers(-1, z + 2))), float(draw(st.integers(-1, z + 2)))][:draw(st.sampled_from([2, 2, 2, 1, 0]))] + [1.0] * draw(st.sampled_from([0, 0, 0, 1]))
        elif t == "source":
            e = {}
            if draw(st.booleans()): e["IonChargeStates"] = m; e["NCharge"] = m if draw(st.integers(0, 3)) else off(m)
            if draw(st.booleans()): e["vector_variable"] = draw(st.sampled_from(["S", "none", ""]))
            if draw(st.booleans()): e["cstate"] = draw(st.sampled_from([0.0, n - 1.0, float(n), m - 1.0, float(m)]))
        else: e = {}
        els.append([t, e])
    return {"sim": "MomentMatrix", "g": g, "els": els, "mix": [draw(st.integers(0, 12)) for _ in range(draw(st.integers(0, 3)))]}

def bounds_run(case, env):
    import flame
    fill = lambda n, v=1.0: np.full(n, v)
    def unit(n): a = np.zeros(max(n, 49)); a[:49] = np.eye(7).ravel(); return a[:n]
    g = case["g"]; els = []
    if case["sim"] != "MomentMatrix":
        conf = {"sim_type": case["sim"], "initial": fill(g["initial"])}
        for i, (t, e) in enumerate(case["els"]): els.append(dict({"name": "e%d" % i, "type": t, "L": 0.5}, **{k: fill(v) for k, v in e.items()}))
        conf["elements"] = els; n = 6 if case["sim"] == "Vector" else 36
        bad = g["initial"] > n or any(e.get("transfer", 0) > 36 or e.get("initial", 0) > n for t, e in case["els"])
        M = guarded("Machine", flame.Machine, conf)
        if M is None:
            return True, ["rejected"]
        if bad: fail("arrays that are too long are accepted: %r", case)
        return True, exercise(M)
    n = g["n"]; z = lambda m: np.array([0.14 + 0.001 * i for i in range(m)])
    conf = {"sim_type": "MomentMatrix", "IonEs": 931.49432e6, "IonEk": 0.5e6, "IonChargeStates": z(n), "NCharge": fill(g["nq"])}
    for i, m in enumerate(g["cen"]): conf["moment0%d" % i] = conf["S%d" % i] = fill(m, 1e-3)
    for i, m in enumerate(g["cov"]): conf["initial%d" % i] = unit(m)
    if "cstate" in g: conf["cstate"] = g["cstate"]
    for i, (t, e) in enumerate(case["els"]):
        d = {"name": "e%d" % i, "type": t if t != "curve" else e["type"], "L": 0.5, "radius": 0.05}
        for k, v in e.items():
            if k in ("IonChargeStates",): d[k] = z(v)
            elif k in ("type", "ncurve", "cstate", "charge_model", "vector_variable"): d[k] = v
            elif k == "use_range": d[k] = np.array(v, float)
            elif k == "matrix": d[k] = unit(v)
            else: d[k] = fill(v, 0.01)
        els.append(d)
    conf["elements"] = els
    M = guarded("Machine", flame.Machine, conf)
    guarded("print", flame.GLPSPrinter, conf)
    bad = g["nq"] != n or any(x != 7 for x in g["cen"]) and len(g["cen"]) == n or any(x != 49 for x in g["cov"]) and len(g["cov"]) == n
    if M is None: return True, ["rejected"]
    labels = ["built"] + exercise(M)
    if "cstate" in g and g["cstate"] >= n and g["cstate"] < 1e18:
        S = None
        try: S = M.allocState()
        except OKERR: pass
        if S is not None: fail("cstate %r of %d charge states is accepted", g["cstate"], n)
    # states with other numbers of charge states through the same machine, in turn and copied onto each other
    pool = []
    for m in case["mix"]:
        d = {"IonChargeStates": z(m), "NCharge": fill(m)}
        for i in range(m): d["moment0%d" % i] = fill(7, 1e-3); d["initial%d" % i] = unit(49)
        if "cstate" in g: d["cstate"] = 0.0
        S = guarded("allocState", lambda: M.allocState(d, inherit=True))
        if S is None: continue
        pool.append(S); labels.append("mixed sizes")
        guarded("propagate", lambda: M.propagate(S)); guarded("str", str, S)
        for T in pool:
            guarded("clone", lambda: T.clone()); guarded("propagate", lambda: M.propagate(T, max=1))
            guarded("backward", lambda: M.propagate(T, start=len(M) - 1, max=-2))
            for a in T: guarded("attribute " + a, getattr, T, a)
    return True, labels

# ---- leaks
class MI2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]

def used():
    L = ctypes.CDLL("libc.so.6"); L.mallinfo2.restype = MI2
    m = L.mallinfo2(); return m.uordblks + m.hblkhd

@st.composite
def leak_case(draw):
    k = draw(st.integers(0, 5))
    if k <= 2: b = draw(st.sampled_from(BASES)) if draw(st.integers(0, 2)) == 0 else draw(base_text()); return {"kind": draw(st.sampled_from(["parse", "parse", "machine", "file"])), "t": mutate(draw, b).decode("latin-1")}
    c = draw(config_case()); return {"kind": "config", "c": c}

def leak_run(case, env):
    import flame, gc
    if case["kind"] == "config":
        c = case["c"]
        q = gencav.materialize({"g": c["c"]["g"], "els": c["c"]["els"]}, env)
        for m in c["muts"]:
            if m[0] == "set" and m[2] not in ("step", "ncurve"): q["els"][m[1]][m[2]] = m[3]
            elif m[0] == "del": q["els"][m[1]].pop(m[2], None)
        if any(e.get("step", 0) > 1e3 for e in q["els"]): return False, ["skipped: huge"]
        conf = dict({"sim_type": c["c"]["sim"]}, **{k: cv(v) for k, v in q["g"].items()}); conf["elements"] = [{k: cv(v) for k, v in e.items()} for e in q["els"]]
        late = [(m[1], m[2], cv(m[3])) for m in c["muts"] if m[0] == "re" and m[2] not in ("step", "ncurve")]
        def once():
            try:
                M = flame.Machine(conf); S = M.allocState(); M.propagate(S, max=20)
                for i, k, v in late: M.reconfigure(i, {k: v})
                S.clone(); str(S); M.propagate(S, max=20, observe=[0, len(M) - 1])
            except OKERR: return
    else:
        t = case["t"].encode("latin-1")
        if too_big(case["t"]) or len(t) > 20000: return False, ["skipped: huge"]
        data = os.path.realpath(os.path.join(env.bdir, "..", "src", "python", "flame", "test", "data")).encode()
        t = t.replace(b"@DATA@", data).replace(b"@TMP@", data)
        p = env.tmp("self.lat"); okfile(env); open(p, "wb").write(t); os.chdir(env.scratch)
        def once():
            try:
                if case["kind"] == "parse": flame.GLPSPrinter(flame.GLPSParser().parse(t))
                elif case["kind"] == "file":
                    with open(p, "rb") as f: flame.GLPSParser().parse(f)
                else: M = flame.Machine(t); M.propagate(M.allocState(), max=20)
            except OKERR: return
    # print() statements of the lattice would fill the log
    n = 40
    for _ in range(12): once()
    gc.collect(); u0 = used()
    for _ in range(n): once()
    gc.collect(); u1 = used()
    if u1 - u0 >= 16 * n:
        for _ in range(n): once()
        gc.collect(); u2 = used()
        if u2 - u1 >= 16 * n:
            for _ in range(2 * n): once()
            gc.collect(); u3 = used()
            if u3 - u2 >= 32 * n: fail("repeated calls allocate %d, %d, %d bytes more per call", (u1 - u0) // n, (u2 - u1) // n, (u3 - u2) // (2 * n))
    return True, [case["kind"]]

CHECKS = [Check("text", text_case, text_run, 6000, 150000, flavour="asan"),
          Check("config", config_case, config_run, 4000, 100000, flavour="asan"),
          Check("bounds", bounds_case, bounds_run, 3000, 60000, flavour="asan"),
          Check("leak", leak_case, leak_run, 500, 8000)]
