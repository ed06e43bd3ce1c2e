import io, math, os
import numpy as np
from hypothesis import strategies as st
import gen, genlat, cmp
from genlat import LatErr, Ambiguous
from core import Check, fail
from gen import chance

RULE = ("Programs of 3-16 statements of the lattice language (variables, typed expressions of depth up to 5, elements, nested, repeated and reversed lines, USE, print, END, file functions, an included lattice, "
        "definitions from the caller) are drawn as syntax trees, printed with random layout, comments and redundant parentheses, and parsed as bytes, str, open file or file with a path; the result must be exactly what an "
        "independent evaluator of the tree gives, also as seen by the elements of a machine built from it; in a second check one erroneous statement (9 kinds, about 110 forms) is inserted and must be rejected with the line "
        "of that statement; a third check scales to 10^4-size programs; non-trivial = at least one operator, function, reference or error.")
ASSUMPTIONS = ["a name used for several kinds of definition is looked up as a variable, then an element, then a line (what the parser does today)", "line repetition counts are whole numbers", "function values compared to 1e-15 relative, arithmetic exactly"]
TECHNIQUE = "grammar-based generation (Hypothesis) against an independent evaluator of the lattice language"

FILES = [["file", ["s", "a.dat"]], ["file", ["s", "./sub/../a.dat"]], ["file", ["s", "sub/b.dat"]], ["file", ["s", "link"]], ["dir", ["s", "sub"]], ["dir", ["s", "."]], ["h5file", ["s", "a.dat"]], ["h5file", ["s", "sub/b.dat/group/x"]],
         ["h5file", ["s", "./sub/../a.dat/g"]], ["file", ["s", "sub/deep/../b.dat"]]]
SUBFILES = [["file", ["s", "b.dat"]], ["file", ["s", "../a.dat"]], ["dir", ["s", "deep"]]]

def tree(env):
    d = env.tmp("tree")
    if not env.cache.get("tree"):
        os.makedirs(os.path.join(d, "sub", "deep"), exist_ok=True)
        for f in ("a.dat", "sub/b.dat"): open(os.path.join(d, f), "w").write("1\n")
        if not os.path.islink(os.path.join(d, "link")): os.symlink("sub/b.dat", os.path.join(d, "link"))
        env.cache["tree"] = True
    return d

@st.composite
def strat(draw):
    sub, _ = draw(genlat.program(nmax=6, files=SUBFILES))
    extra = {}
    for n in draw(st.lists(st.sampled_from(["x", "y", "Q", "ext1", "pi", "e"]), unique=True, max_size=3)) if chance(draw, 0.4) else []:
        extra[n] = draw(st.sampled_from([0.0, 1.5, -3.0, 1e-9, 123456789012.25, 7, 2 ** 40, 1e300, "s", "a b", "1", "", "z" * 300, "word " * 900]))
    prog, g = draw(genlat.program(files=FILES, subs=["sub/gen.lat", "./sub/gen.lat"]))
    prog = [s for s in prog if not (s[0] == "=" and s[1] in extra)] if draw(st.booleans()) else prog
    if chance(draw, 0.5): prog.insert(g.r.randint(0, len(prog)), ["=", "sim_type", ["s", "Vector"]])
    D = [(k, x) for k, x in enumerate(prog) if x[0] in ("el", "line", "=")]
    if D and chance(draw, 0.1):                 # one name for definitions of two kinds: variables go before elements, elements before lines
        k, x = draw(st.sampled_from(D)); n = x[1]; els = [y[1] for y in prog[:k + 1] if y[0] == "el"]
        o = draw(st.sampled_from([z for z in ("el", "line", "=") if z != x[0] and (z != "line" or els)]))
        new = {"el": ["el", n, "drift", [["L", ["n", "2"]]]], "=": ["=", n, ["n", "3"]], "line": ["line", n, "LINE", [["id", e] for e in els[-1:]] * 2]}[o]
        at = draw(st.integers(k + 1, len(prog))); prog = prog[:at] + [new] + prog[at:]
        if draw(st.booleans()): prog = prog + [["line", "clash", "LINE", [["id", n], ["*", ["n", "2"], ["id", n]]]]] + ([["use", "clash"]] if not any(y[0] == "use" for y in prog) else [])
    return {"prog": prog, "sub": sub, "extra": extra, "seed": draw(st.integers(0, 10 ** 6)), "form": draw(st.sampled_from(["bytes", "str", "file", "cwd", "bytesio"]))}

def parse(case, env, text, prog=None):
    import flame
    d = tree(env); data = text.encode(); P = flame.GLPSParser(); kw = {"extra": case["extra"]} if case.get("extra") else {}
    f = case.get("form", "bytes")
    if f == "bytes": return P.parse(data, path=d, **kw)
    if f == "str": return P.parse(text, path=d, **kw)
    if f == "bytesio": return P.parse(io.BytesIO(data), path=d, **kw)
    p = os.path.join(d, "in.lat"); open(p, "wb").write(data)
    if f == "file":
        with open(p, "rb") as fp: return P.parse(fp, **kw)
    old = os.getcwd(); os.chdir(d)
    try: return P.parse(data, **kw)
    finally: os.chdir(old)

def same(got, want, what):
    t = want[0]
    if t == "n":
        if not isinstance(got, float): fail("%s is %r, expected a number", what, got)
        near(got, want[1], want[2], what)
    elif t == "s":
        if not isinstance(got, str) or got != want[1]: fail("%s is %r, expected %r", what, got, want[1])
    elif t == "v":
        if not isinstance(got, np.ndarray) or got.shape != (len(want[1]),): fail("%s is %r, expected a vector of %d", what, got, len(want[1]))
        for i, (v, e) in enumerate(want[1]): near(float(got[i]), v, e, "%s[%d]" % (what, i))
    else:
        if not isinstance(got, list) or len(got) != 1: fail("%s is %r, expected one nested configuration", what, got)
        same_conf(got[0], want[1], what + ".")

def near(g, w, e, what):
    if math.isnan(w):
        if not math.isnan(g): fail("%s is %r, expected nan", what, g)
    elif not (g == w or abs(g - w) <= e * 1.01): fail("%s is %r, expected %r", what, g, w)

def same_conf(got, want, pre=""):
    d = dict(got)
    keys = set(want["vars"]) | {"elements", "name"}
    if set(d) != keys: fail("%sdefines %s, expected %s", pre or "file ", sorted(d), sorted(keys))
    if len(got) != len(d): fail("%srepeats a name", pre)
    for n, v in want["vars"].items(): same(d[n], v, pre + n)
    if d["name"] != want["name"]: fail("%suses line %r, expected %r", pre, d["name"], want["name"])
    E = d["elements"]
    if len(E) != len(want["elements"]): fail("%sline of %d elements, expected %d", pre, len(E), len(want["elements"]))
    for i, (e, (l, t, P)) in enumerate(zip(E, want["elements"])):
        e = dict(e)
        if e.get("name") != l or e.get("type") != t: fail("%selement %d is %s: %s, expected %s: %s", pre, i, e.get("name"), e.get("type"), l, t)
        if set(e) != set(P) | {"name", "type"}: fail("%selement %d %s has %s, expected %s", pre, i, l, sorted(e), sorted(P))
        for n, v in P.items(): same(e[n], v, "%selement %d %s.%s" % (pre, i, l, n))

def prepare_case(case, env):
    d = tree(env); subs = {}
    if "sub" in case:
        p = os.path.join(d, "sub", "gen.lat")
        open(p, "w").write(genlat.layout(case["sub"], case["seed"] + 1)[0]); subs[os.path.realpath(p)] = case["sub"]
    return os.path.realpath(d), subs

def expect(case, d, subs):
    return genlat.evaluate(case["prog"], d, subs, case.get("extra"))

def nontriv(prog):
    s = repr(prog); return any(x in s for x in ("'id'", "'+'", "'*'", "'f'", "'/'", "'neg'"))

def check(case, env):
    import flame
    d, subs = prepare_case(case, env)
    try: want = expect(case, d, subs)
    except Ambiguous: return None
    except LatErr as e: want = e
    text, spans = genlat.layout(case["prog"], case["seed"], case.get("plain", False))
    try: got = parse(case, env, text)
    except (RuntimeError, ValueError) as e: got = e
    if isinstance(want, LatErr):
        if not isinstance(got, Exception): fail("accepted although statement %s is in error (%s)\n%s", want.k, want.why, text)
        if want.k is not None:
            m = str(got)
            if not m.startswith("On line "): fail("error without a line: %s\n%s", m, text)
            n = int(m.split()[2].rstrip(":")); a, b, c = spans[want.k]
            hi = c if case["prog"][want.k][0] == "raw" else b
            if not a <= n <= hi: fail("error reported on line %d, the statement is on lines %d-%d: %s\n%s", n, a, hi, m, text)
            if want.names and len(want.names) < 100 and "'%s'" % want.names not in m: fail("the error report doesn't name '%s' (%s): %s\n%s", want.names, want.why, m, text)
        return want, None
    if isinstance(got, Exception): fail("well-formed file rejected: %s\n%s", got, text)
    same_conf(got, want)
    v = want["vars"].get("sim_type")
    if v == ("s", "Vector") and len(want["elements"]) < 200:
        M = flame.Machine(text.encode(), path=d, extra=case.get("extra") or None)
        if len(M) != len(want["elements"]): fail("machine of %d elements", len(M))
        for i in sorted({0, len(M) - 1, len(M) // 2}):
            l, t, P = want["elements"][i]; c = dict(M.conf(i))
            W = {n: x for n, x in want["vars"].items() if x[0] != "c"}; W.update(P); W["name"] = ("s", l); W["type"] = ("s", t)
            miss = set(W) - set(c)
            if miss: fail("element %d doesn't see %s", i, sorted(miss))
            for n, x in W.items(): same(c[n], x, "element %d %s.%s" % (i, l, n))
    return want, got

def run(case, env):
    r = check(case, env)
    if r is None: return False, ["ambiguous"]
    return nontriv(case["prog"]), [case["form"], "error" if isinstance(r[0], LatErr) else "parsed"]

@st.composite
def strat_err(draw):
    prog, g = draw(genlat.program(nmax=8, files=FILES))
    prog, k, kind = draw(genlat.broken(g, prog))
    c = {"prog": prog, "extra": {}, "seed": draw(st.integers(0, 10 ** 6)), "form": draw(st.sampled_from(["bytes", "str", "file"])), "kind": kind}
    if chance(draw, 0.1):
        c["extra"] = {"w1": 3.0}
    if chance(draw, 0.12):
        k = draw(st.integers(0, 3)); c["kind"] = ["noline", "emptyline", "badUSE", "twoUSE"][k]
        prog, g = draw(genlat.program(nmax=8))
        if k == 0: prog = [s for s in prog if s[0] not in ("line", "use")]
        if k == 1: prog = [s for s in prog if s[0] != "use"] + [["line", "w1", "LINE", []]]
        if k == 2: prog = [s for s in prog if s[0] != "use"] + [["use", "nowhere"]]
        if k == 3: prog = [s for s in prog if s[0] != "use"] + [["use", g.lines[0]], ["use", g.lines[-1]]]
        c["prog"] = prog
    return c

def run_err(case, env):
    import flame
    r = check(case, env)
    if r is None: return False, ["ambiguous"]
    if not isinstance(r[0], LatErr): return False, ["no error"]
    # nothing of it lingers
    P = flame.GLPSParser().parse(b"nowhere = 2; w1: marker; l: LINE=(w1);")
    if len(dict(P)["elements"]) != 1 or dict(P)["nowhere"] != 2.0: fail("parse after a failed parse gives %r", P)
    return True, [case["kind"]]

@st.composite
def strat_big(draw):
    n = draw(st.sampled_from([300, 3000, 9990, 10010, 25000])) + draw(st.integers(-20, 20))
    return {"n": n, "k": draw(st.sampled_from(["stmts", "vector", "line", "props", "parens", "elements", "mult", "expr", "neg", "string", "name", "comment", "newlines"]))}

def run_big(case, env):
    import flame
    n, k = case["n"], case["k"]; B = "a: marker; b: drift, L=2;\n"; E = 2; want = None
    T = {"stmts": lambda: "".join("v%d = %d;\n" % (i, i) for i in range(n)), "vector": lambda: "v = [" + ", ".join("%d" % i for i in range(n)) + "];", "line": lambda: "", "props": lambda: "c: marker" + "".join(", p%d = %d" % (i, i) for i in range(n)) + ";",
         "parens": lambda: "v = " + "(" * n + "1" + ")" * n + ";", "elements": lambda: "".join("e%d: drift, L=%d;\n" % (i, i) for i in range(n)), "mult": lambda: "", "expr": lambda: "v = 0" + " + 1" * n + ";", "neg": lambda: "v = " + "-" * n + "1;",
         "string": lambda: 'v = "' + "x" * n + '";', "name": lambda: "v" + "x" * n + " = 1;", "comment": lambda: "#" + "y" * n + "\n", "newlines": lambda: "\n" * n}[k]()
    L = {"line": "l: LINE = (" + ", ".join("ab"[i % 3 == 0] for i in range(n)) + ");", "elements": "l: LINE = (" + ", ".join("e%d" % (n - 1 - i) for i in range(n)) + ");", "mult": "l: LINE = (%d*a, b);" % n, "props": "l: LINE = (c, a);"}.get(k, "l: LINE = (a, b);")
    P = dict(flame.GLPSParser().parse((B + T + "\n" + L + "\n").encode())); E = P["elements"]
    ok = {"stmts": lambda: all(P["v%d" % i] == i for i in range(n)), "vector": lambda: np.array_equal(P["v"], np.arange(n)), "line": lambda: [dict(e)["name"] for e in E] == ["ab"[i % 3 == 0] for i in range(n)], "props": lambda: all(dict(E[0])["p%d" % i] == i for i in range(n)),
          "parens": lambda: P["v"] == 1, "elements": lambda: [dict(e)["L"] for e in E] == list(range(n - 1, -1, -1)), "mult": lambda: len(E) == n + 1 and dict(E[-1])["name"] == "b" and all(dict(e)["name"] == "a" for e in E[:-1]), "expr": lambda: P["v"] == n,
          "neg": lambda: P["v"] == (-1) ** n, "string": lambda: P["v"] == "x" * n, "name": lambda: P["v" + "x" * n] == 1, "comment": lambda: len(E) == 2, "newlines": lambda: len(E) == 2}[k]
    if not ok(): fail("%s of size %d evaluates wrongly", k, n)
    return True, [k]

CHECKS = [Check("programs", strat, run, 6000, 200000), Check("rejected", strat_err, run_err, 6000, 150000), Check("large", strat_big, run_big, 100, 600, shards=4)]
