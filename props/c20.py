"""C20: the command-line tool reports what the library computes; wrong use ends with an error."""
import os, re, shutil, subprocess
from hypothesis import strategies as st
import numpy as np
import build, cmp, gen, gencav, hist
from core import Check, fail
from gen import chance

TECHNIQUE = "differential property-based testing (Hypothesis): the command-line tool with generated lattices and option combinations against the Python module, its text, unit-test and HDF5 output parsed back; generated wrong invocations, in release and AddressSanitizer builds"
RULE = "run: the tool succeeded with at least one selected element reported, or had to fail; wrong: always (each case is an invocation that must fail)"
ASSUMPTIONS = ["texts print 6 digits (level 0 and the linear simulations) or 10 digits, tables of the unit-test format 16 digits"]

NOTE = st.one_of(st.sampled_from(["", "a:b", "x=y", "D:1", "C:/d=e,f", " b ", "S:", "=", ":", "1.5", "é", "#c", "(x)", "a;b"]), st.text("ab1:=,. -_/'#$%&*<>", max_size=8))

@st.composite
def run_case(draw):
    if chance(draw, 0.3): c = draw(hist.linear_lattice(nmax=4)); sim = c["sim"]
    else:
        c = draw(hist.moment_lattice(nmax=4, cav=0.15, broken=0.1)); sim = "MomentMatrix"
        if chance(draw, 0.15): c["els"].append(dict(draw(gencav.stripper(c["g"])), name="strip"))
    if sim == "MomentMatrix" and c["els"][0]["type"] != "source" and draw(st.integers(0, 9)): c["els"] = [{"type": "source", "name": "S"}] + c["els"]
    # repeated elements
    if chance(draw, 0.4): c["els"] = c["els"] + draw(st.lists(st.sampled_from(c["els"]), min_size=1, max_size=3))
    names = [e["name"] for e in c["els"]]; types = [e["type"] for e in c["els"]]; sel = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 0]))):
        k = draw(st.sampled_from(["A", "T", "N", "L", "T", "N"]))
        sel.append([k] if k in "AL" else [k, draw(st.sampled_from((types if k == "T" else names) + ["nosuch"]))])
    fmt = draw(st.sampled_from(["default", "txt", "txt file", "txt 0", "txt 2", "txt 3", "txt verbose", "utest", "hdf5", "hdf5 group"]))
    c.update(sim=sim, sel=sel, fmt=fmt, max=draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 50, -1, -2])), verb=draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 6])), how=draw(st.sampled_from(["path", "path", "rel", "stdin", "--lattice"])), long=draw(st.booleans()),
             define=draw(st.sampled_from([0, 0, 1, 2, 9])), notes=draw(st.lists(NOTE, max_size=2)), clash=chance(draw, 0.05), pick=draw(st.lists(st.integers(0, 40), min_size=1, max_size=12 if chance(draw, 0.3) else 3)), abs=draw(st.booleans()))
    return c

def lattice_text(case, c):
    """text, -D options: some values of the lattice come from the command line"""
    n = case["define"]; defs = []; g = dict(c["g"]); els = []; done = {}
    def val(v):
        nonlocal n
        if n > 0 and isinstance(v, float) and not isinstance(v, bool): n -= 1; k = "cv%d" % len(defs); defs.append("%s=%s:%r" % (k, ["double", "D"][len(defs) % 2], v)); return k
        if n > 0 and isinstance(v, str): n -= 1; k = "cv%d" % len(defs); defs.append("%s=%s:%s" % (k, ["str", "S"][len(defs) % 2], v)); return k
        return gen.valtext(v)
    out = ["sim_type = %s;" % val(case["sim"])]
    for i, t in enumerate(case.get("notes", ())):
        k = "cv%d" % len(defs); defs.append("%s=%s:%s" % (k, ["str", "S"][i % 2], t)); out.append("note%d = %s;" % (i, k))
    for k, v in g.items(): out.append("%s = %s;" % (k, val(v)))
    for e in c["els"]:
        if e["name"] in done: continue
        done[e["name"]] = 1; out.append("%s: %s%s;" % (e["name"], e["type"], "".join(", %s = %s" % (k, val(v)) for k, v in e.items() if k not in ("name", "type"))))
    if case["clash"] and defs: out.append("%s = 1;" % defs[0].split("=")[0])
    out.append("cell: LINE = (%s);" % ", ".join(e["name"] for e in c["els"])); out.append("USE: cell;")
    return "\n".join(out) + "\n", defs

def expected(M, S, mx, obs):
    """[(index, state)], error"""
    err, r = hist.propagate(M, S, 0, mx, obs)
    return err, r

NUM = r"[-+]?(?:nan|inf|[0-9.]+(?:e[-+]?[0-9]+)?)"
def numbers(t): return [float(x) for x in re.findall(NUM, t)]

def close(got, want, what, tol):
    want = np.ravel(np.asarray(want, float))
    if len(got) != len(want): fail("%s: %d numbers printed, %d expected: %s", what, len(got), len(want), got)
    for a, b in zip(got, want):
        if np.isfinite(b) and abs(a - b) <= tol * abs(b) + (1e-300 if b else 0): continue
        if a == b or (np.isnan(a) and np.isnan(b)): continue
        fail("%s: printed %r, computed %r", what, a, float(b))

def body(t, S, sim, level, what):
    """the text of one state"""
    if sim != "MomentMatrix":
        m = re.match(r"State: \[([0-9,]+)\](.*)$", t.strip(), re.S)
        if not m: fail("%s: %r", what, t)
        if [int(x) for x in m.group(1).split(",")] != list(S.state.shape): fail("%s: shape %s", what, m.group(1))
        close(numbers(m.group(2)), S.state, what, 1e-5 if level else 1e-5); return
    if level <= 0:
        m = re.match(r"State: moment0 mean=\[7\](.*)$", t.strip(), re.S)
        if not m: fail("%s: %r", what, t)
        close(numbers(m.group(1)), S.moment0_env, what, 1e-5); return
    m = re.match(r"\s*State:\s*energy \[eV\] =(.*?)moment0 mean =(.*?)moment0 rms =(.*?)moment1 mean =(.*?)(?:Reference state:(.*))?$", t, re.S)
    if not m: fail("%s: %r", what, t)
    close(numbers(m.group(1)), S.IonEk[:1], what + " energy", 1e-8); close(numbers(m.group(2)), S.moment0_env, what + " moment0", 1e-9); close(numbers(m.group(3)), S.moment0_rms, what + " rms", 1e-9); close(numbers(m.group(4)), S.moment1_env, what + " moment1", 1e-9)
    if (m.group(5) is not None) != (level >= 2): fail("%s: detail %d prints %r", what, level, t)
    if level >= 2:
        parts = re.split(r"Charge state ([0-9]+)\n", m.group(5))
        if [int(x) for x in parts[1::2]] != list(range(len(S.IonEk))): fail("%s: charge states %s", what, parts[1::2])
        for k, p in enumerate(parts[2::2]):
            q = re.match(r"(.*?)moment0 \[7\](\([^\n]*\))\n(?:\s*moment1 \[7,7\](\([^\n]*\))\n)?", p, re.S)
            if not q: fail("%s: charge state %d: %r", what, k, p)
            close(numbers(q.group(2)), S.moment0[:, k], "%s moment0[%d]" % (what, k), 1e-9)
            if (q.group(3) is not None) != (level >= 3): fail("%s: detail %d prints %r", what, level, p)
            if level >= 3: close(numbers(q.group(3)), S.moment1[:, :, k], "%s moment1[%d]" % (what, k), 1e-9)

def invoke(env, args, cwd, stdin=b"", out=None):
    e = dict(os.environ); e.pop("LD_PRELOAD", None); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"
    try: p = subprocess.run([build.cli(env.bdir)] + args, cwd=cwd, env=e, input=stdin, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    except subprocess.TimeoutExpired: fail("flame %s does not end", args)
    o = (p.stdout or b"").decode("utf-8", "replace"); r = p.stderr.decode("utf-8", "replace")
    if p.returncode not in (0, 1): fail("flame %s ends with status %d: %s", args, p.returncode, r[-1500:])
    return p.returncode, o, r

def verbose(o, text, defs, n, mx, names, M, c, sim, what):
    """the lattice it runs, and the trace of states"""
    import flame
    top = "".join("%s = %s;\n" % (d.split("=", 1)[0], (lambda t, v: v if t in ("D", "double") else '"%s"' % v)(*d.split("=", 1)[1].split(":", 1))) for d in defs)
    want = flame.GLPSPrinter(flame.GLPSParser().parse((top + text).encode()))
    m = re.search(r"# Reduced lattice\n(.*?)\n*# Machine configuration\n(.*?)\n\n(?=\n*(?:After|# Final))", o, re.S)
    if not m: fail("%s: prints %r", what, o[:800])
    if sorted(m.group(1).strip().split("\n")) != sorted(want.strip().split("\n")): fail("%s: the lattice printed is\n%s\nexpected\n%s", what, m.group(1), want)
    X = flame.Machine(gen.text(c, sim).encode()); S = X.allocState({}); k = 10 ** 6 if mx is None else mx; i = 0; st_ = []
    while 0 <= i < n and len(st_) < abs(k): X.propagate(S, i, 1 if k > 0 else -1); st_.append((i, S.clone())); i += 1 if k > 0 else -1
    t, f = o.rsplit("\n# Final ", 1); parts = re.split(r"\nAfter \[(\d+)\] (\S+) ", t)
    got = [(int(a), b) for a, b in zip(parts[1::3], parts[2::3])]
    if got != [(i, names[i]) for i, _ in st_]: fail("%s: trace of %s, propagated through %s", what, got, [i for i, _ in st_])
    for (i, s), b in zip(st_, parts[3::3]): body(re.split(r"\n\s*(?:After Element \[|def test_)", b)[0], s, sim, 0, "%s: trace after element %d" % (what, i))
    body(f, S, sim, 0, what + ": final state")

def run_run(case, env):
    import flame
    env.n += 1; d = env.tmp("r%d" % env.n); os.makedirs(d)
    try:
        c = gencav.materialize({"g": case["g"], "els": case["els"]}, env); sim = case["sim"]
        text, defs = lattice_text(case, c); open(d + "/in.lat", "w").write(text)
        names = [e["name"] for e in c["els"]]; types = [e["type"] for e in c["els"]]; n = len(names); sel = set()
        args = []; warn = 0; L = case["long"]
        for s in case["sel"]:
            if s[0] == "A": args.append("--select-all" if L else "-A"); sel |= set(range(n))
            elif s[0] == "L": args.append("--select-last" if L else "-L"); sel.add(n - 1)
            else:
                hit = [i for i in range(n) if (types if s[0] == "T" else names)[i] == s[1]]; sel |= set(hit); warn += not hit
                args += ["--select-%s=%s" % ("type" if s[0] == "T" else "name", s[1])] if L else ["-" + s[0], s[1]]
        args = [a for i, a in enumerate(args) if not (a in ("-A", "--select-all", "-L", "--select-last") and a in args[:i])]
        mx = case["max"]
        if mx is not None: args += ["--max=%d" % mx] if L or mx < 0 else ["-M", str(mx)]
        for x in defs: args += ["--define=" + x] if L else ["-D", x]
        if case["verb"]: args += ["-v", str(case["verb"])]
        fmt = case["fmt"]; out = None; level = 1; pre = d + "/" if case["abs"] else ""; keys = []
        if fmt == "txt": args += ["-F", "txt"]
        elif fmt == "txt file": out = "out put.txt"; args += ["-F", "txt,file=%sout put.txt" % pre]
        elif fmt in ("txt 0", "txt 2", "txt 3"): level = int(fmt[-1]); args += ["--format", "txt,verbose=%d" % level]
        elif fmt == "txt verbose": args += ["-F", "txt,verbose"]
        elif fmt == "hdf5": out = "o.h5"; args += ["-F", "hdf5,file=%so.h5" % pre]
        elif fmt == "hdf5 group": out = "o.h5"; args += ["-F", "hdf5,file=%so.h5/run" % pre]
        # the library
        M = S = err = None; r = []
        try: M = flame.Machine(gen.text(c, sim).encode()); S = M.allocState({})
        except Exception as e: err = str(e) or "?"
        if case["clash"] and defs: err = "clash"
        if not err:
            obs = sorted(sel); err, r = hist.propagate(M, S, 0, mx if mx is not None else 10 ** 6, obs)
            if err:
                # what is reported before the error
                r = []; S = flame.Machine(gen.text(c, sim).encode()); T = S.allocState({}); i = 0; left = abs(mx) if mx is not None else 10 ** 6; back = mx is not None and mx < 0
                while 0 <= i < n and left > 0:
                    e1, q = hist.propagate(S, T, i, -1 if back else 1, [i] if i in sel else [])
                    if e1: break
                    r += q; i += -1 if back else 1; left -= 1
        if fmt == "utest":
            T = S if not err and S is not None else None
            a = sorted(k for k in T if np.ndim(getattr(T, k)) <= 2) if T is not None and not isinstance(T, flame.Machine) else ["pos", "next_elem"]
            keys = [a[p % len(a)] for p in case["pick"]]; args += ["-F", "utest," + ",".join(keys)]
        how = case["how"]; stdin = b""; place = case["pick"][0] % 2
        if how == "stdin": f = ["-"]; stdin = text.encode()
        elif how == "--lattice": f = ["--lattice", d + "/in.lat"]
        else: f = ["in.lat" if how == "rel" else d + "/in.lat"]
        args = f + args if place else args + f
        rc, o, e = invoke(env, args, d, stdin); what = "flame %s" % args; labels = {fmt, how, sim} | ({"defines"} if defs else set()) | ({"backward"} if (mx or 0) < 0 else set()) | ({"verbose"} if case["verb"] else set())
        if (rc != 0) != bool(err): fail("%s ends with status %d and %r, the library with %s", what, rc, e[-300:], err)
        if rc and not e.strip(): fail("%s fails without a message", what)
        if not rc and warn and "does not match" not in e: fail("%s: no warning about a selection without elements: %r", what, e)
        if err: labels.add("error")
        elif case["verb"]: verbose(o, text, defs, n, mx, names, M, c, sim, what)
        if fmt.startswith("hdf5"):
            if not err:
                import h5py
                with h5py.File(d + "/o.h5", "r") as h:
                    g = h["run"] if fmt == "hdf5 group" else h["/"]
                    st_ = g.attrs["sim_type"]; st_ = st_.decode() if isinstance(st_, bytes) else str(st_)
                    if st_.rstrip("\0") != sim: fail("%s: sim_type %r", what, st_)
                    snaps = [cmp.snap(s) for _, s in r]
                    if snaps and sorted(g) != sorted(snaps[0]): fail("%s: datasets %s", what, sorted(g))
                    if not snaps and len(g): fail("%s: datasets %s without a selected element", what, sorted(g))
                    for k in g:
                        v = g[k][()]
                        if len(v) != len(snaps): fail("%s: %d records of %s, %d elements", what, len(v), k, len(snaps))
                        for i, s in enumerate(snaps):
                            x = np.zeros(v.shape[1:]); x[tuple(slice(0, q) for q in s[k].shape)] = s[k]
                            if not np.array_equal(v[i].astype(float), x, equal_nan=True): fail("%s: %s after element %d: %s, computed %s", what, k, r[i][0], v[i], x)
        elif fmt == "utest":
            if not err:
                parts = re.split(r"    def test_(\w+)\(self\):\n", o)[1:]
                if len(parts) != 2 * len(r): fail("%s: %d tests, %d elements", what, len(parts) // 2, len(r))
                for (i, s), t, b in zip(r, parts[0::2], parts[1::2]):
                    b = b.split("\nAfter [")[0]; m = re.match(r"\s*# (\S+)\n\s*self.checkPropagate\(0, \{\}, \{\n(.*?)\n?        \}, max=(\d+)\)", b, re.S)
                    if not m: fail("%s: %r", what, b)
                    if t != types[i] or m.group(1) != names[i] or int(m.group(3)) != i + 1: fail("%s: test_%s %s max=%s for element %d (%s %s)", what, t, m.group(1), m.group(3), i, types[i], names[i])
                    got = eval("[" + re.sub(r"'(\w+)':", r"('\1'),", m.group(2)) + "]", {"asfarray": lambda x: np.array(x, float), "nan": np.nan, "inf": np.inf})
                    if list(got[0::2]) != keys: fail("%s: prints %s", what, got[0::2])
                    for k, v in zip(keys, got[1::2]): close(list(np.ravel(v)), getattr(s, k), "%s: %s after %d" % (what, k, i), 1e-15)
        else:
            if out and err and not r and not os.path.exists(d + "/" + out): return True, sorted(labels)
            if out: t = open(d + "/" + out).read(); (fail("%s: prints %r besides the file", what, o) if not case["verb"] and o.strip() else None)
            else: t = o
            t = t.split("\n# Final")[0]; parts = re.split(r"After Element \[(\d+)\] (\S+) ", t)
            if not case["verb"] and parts[0].strip(): fail("%s: prints %r", what, parts[0])
            got = [(int(a), b) for a, b in zip(parts[1::3], parts[2::3])]; want = [(i, names[i]) for i, _ in r]
            if got != want: fail("%s: reports %s, selected are %s (error: %s)", what, got, want, err)
            for (i, s), b in zip(r, parts[3::3]): body(re.split(r"\nAfter \[", b)[0], s, sim, level, "%s: after element %d" % (what, i))
        return bool(r) or bool(err), sorted(labels)
    finally: shutil.rmtree(d, ignore_errors=True)

# ---- wrong invocations
GOOD = 'sim_type = "Vector"; initial = [1,2,3,4,5,6]; s: source, initial = [1,2,3,4,5,6]; d: drift, L = 1; m: marker; l: LINE = (s, d, m, d); USE: l;\n'
WRONG = {
 "unknown option": ["--nosuch"], "unknown short": ["-Z"], "max text": ["-M", "abc"], "max fraction": ["-M", "1.5"], "max empty": ["--max="], "max huge": ["-M", "99999999999"], "max missing": ["-M"], "verbose text": ["-v", "x"],
 "define no =": ["-D", "abc"], "define no :": ["-D", "a=D"], "define no name": ["-D", "=D:1"], "define type": ["-D", "a=int:1"], "define no type": ["-D", "a=:1"], "define number": ["-D", "a=D:x"], "define number tail": ["-D", "a=double:1x"], "define empty number": ["-D", "a=D:"], "define clash": ["-D", "initial=D:1"],
 "format": ["-F", "csv"], "format empty": ["--format="], "format comma": ["-F", ","], "txt level": ["-F", "txt,verbose=x"], "txt level empty": ["-F", "txt,verbose="], "txt file": ["-A", "-F", "txt,file=nosuch/dir/o.txt"], "txt dir": ["-A", "-F", "txt,file=."], "hdf5 file": ["-A", "-F", "hdf5,file=nosuch/dir/o.h5"], "hdf5 abs": ["-A", "-F", "hdf5,file=/nosuch/dir/o.h5"], "hdf5 dir": ["-A", "-F", "hdf5,file=."], "hdf5 not": ["-A", "-F", "hdf5,file=in.lat"],
 "utest name": ["-A", "-F", "utest,nosuch"], "utest second": ["-A", "-F", "utest,pos,stat"], "full file": ["-A", "-F", "txt,file=/dev/full"], "full": ["-A"], "full default": ["-L"],
 "two lattices": ["in.lat"], "no lattice": [], "missing lattice": [], "directory": [], "empty": [], "syntax": [], "type": [], "simtype": [], "value": [], "no line": [], "binary": [], "help": ["-h"],
}
LATS = {"empty": b"", "syntax": b"sim_type = ;", "type": GOOD.replace("marker", "nosuch").encode(), "simtype": GOOD.replace('"Vector"', '"Nosuch"').encode(), "value": GOOD.replace("[1,2,3,4,5,6]; d", "[1,2,3,4,5,6,7]; d").encode(), "no line": b'sim_type = "Vector"; d: drift, L = 1;', "binary": bytes(range(256))}

@st.composite
def wrong_case(draw):
    return {"kind": draw(st.sampled_from(sorted(WRONG))), "more": draw(st.lists(st.sampled_from(["-A", "-L", "-v1", "-v3", "-Tdrift", "-Nm", "-M2", "-Dq=D:1", "-Dr=S:x", "-Tnosuch"]), max_size=3, unique=True)), "first": draw(st.booleans()), "rev": draw(st.booleans())}

def wrong_run(case, env):
    env.n += 1; d = env.tmp("x%d" % env.n); os.makedirs(d); k = case["kind"]
    try:
        more = [m for m in case["more"] if not (k.startswith("max") and m == "-M2") and not (k.startswith("verbose") and m[:2] == "-v") and not (k.startswith("utest") and m in ("-A",)) and not (k.startswith("full") and m in ("-A", "-L"))]
        more = [m for m in more if not ("-A" in WRONG[k] and m == "-A") and not ("-L" in WRONG[k] and m == "-L")]
        lat = LATS.get(k, GOOD.encode()); open(d + "/in.lat", "wb").write(lat)
        f = [] if k == "no lattice" else ["nosuch.lat"] if k == "missing lattice" else ["."] if k == "directory" else ["in.lat"]
        a = WRONG[k]; args = a + more if case["rev"] else more + a
        if k == "max missing": args = more + f + a
        else: args = f + args if case["first"] else args + f
        if k in ("full", "full default"):
            with open("/dev/full", "wb") as o: rc, o, e = invoke(env, args, d, out=o)
        else: rc, o, e = invoke(env, args, d)
        if rc == 0: fail("flame %s (%s) succeeds: %r %r", args, k, o[:300], e[:300])
        if not e.strip() and not (k in ("help", "no lattice") and "lattice" in o): fail("flame %s (%s) fails without a message", args, k)
        for n in sorted(os.listdir(d)):
            if n != "in.lat" and k[:4] in ("max ", "defi", "unkn", "synt", "miss"): fail("flame %s (%s) leaves %s", args, k, n)
        if open(d + "/in.lat", "rb").read() != lat: fail("flame %s (%s) changes the lattice", args, k)
        return True, [k]
    finally: shutil.rmtree(d, ignore_errors=True)

CHECKS = [Check("run", run_case, run_run, 2400, 60000), Check("run-asan", run_case, run_run, 240, 6000, flavour="asan"), Check("wrong", wrong_case, wrong_run, 500, 6000, flavour="asan")]
