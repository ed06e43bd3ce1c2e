"""C17: data files are read faithfully and caches follow their content."""
import ctypes, os, re
from hypothesis import strategies as st
import numpy as np
import build, cmp, gen, gencav
from core import Check, fail
from gen import chance, fl

TECHNIQUE = "property-based testing (Hypothesis): reference reader of tables, metamorphic re-layout and corruption of data files, and histories of file rewrites against machines reading never-used copies"
RULE = ("table: more than one number, or a malformed text; cache: some path is read before and after its content changed; layout: the files were laid out differently or corrupted; "
        "machines: a machine is built or reconfigured after a file that was read before has changed")
ASSUMPTIONS = ["a file does not change while it is being read", "data files do not include further files", "field-curve files are compared while they still have the content they had when the machine was built or reconfigured"]

# ---- tables
num = st.one_of(st.integers(-1000, 1000).map(float), st.floats(allow_nan=False, allow_infinity=False).filter(lambda x: x == 0 or 1e-300 < abs(x) < 1e300), st.sampled_from([0.0, -0.0, 1e-5, 123456.789, 1e300]))

def spell(draw, x):
    """one of the spellings of exactly this number"""
    k = draw(st.integers(0, 6)); s = repr(x)
    if k == 1: s = "%.17e" % x
    elif k == 2: s = "%.17E" % x
    elif k == 3 and x == int(x) and abs(x) < 1e9: s = str(int(x)) if x or s[0] != "-" else "-0"
    elif k == 4 and s.startswith("0."): s = s[1:]
    elif k == 5 and s.endswith(".0"): s = s[:-1]
    if k == 6 and s[0] != "-": s = "+" + s
    assert float(s) == x
    return s

def ws(draw, lo=1): return "".join(draw(st.sampled_from([" ", "\t", "  ", " \t "])) for _ in range(draw(st.integers(lo, 2))))
def eol(draw, crlf): return "\r\n" if crlf == 2 or (crlf == 1 and draw(st.booleans())) else "\n"

def table_text(draw, rows, heads, lay=True):
    """text of a table with header lines, blank lines, blanks around, any line ends"""
    out = []; crlf = draw(st.sampled_from([0, 0, 1, 2])) if lay else 0
    def blank():
        if lay and chance(draw, 0.2): out.append(ws(draw, 0) + eol(draw, crlf))
    at = {}
    for h in heads: at.setdefault(draw(st.integers(0, len(rows))), []).append(h)
    for i in range(len(rows) + 1):
        for h in at.get(i, []):
            blank(); out.append("%" + (ws(draw, 0) + "".join(w + ws(draw) for w in h) if h else "") + eol(draw, crlf))
        if i < len(rows):
            blank(); out.append(ws(draw, 0) + "".join(w + (ws(draw) if j + 1 < len(rows[i]) else ws(draw, 0)) for j, w in enumerate(rows[i])) + eol(draw, crlf))
    blank(); t = "".join(out)
    if lay and chance(draw, 0.3): t = t.rstrip("\r\n")
    order = [h for i in sorted(at) for h in at[i]]
    return t, order

BAD = ["x", "1.5x", "1,5", "1;2", "--1", "1e", ".", "+", "%", "nanx", "1_0", "1e5e5", "\u00e9"]

@st.composite
def table_case(draw):
    if chance(draw, 0.05):          # wide or long
        nc, nr = draw(st.sampled_from([(40, 3), (17, 2), (33, 4), (130, 2), (3, 300), (2, 1100), (1, 2500), (3, 130)])); nr += draw(st.integers(0, 3)); pool = draw(st.lists(num, min_size=3, max_size=7))
        vals = [[pool[(i * 5 + j * 3) % len(pool)] if (i + j) % 3 else float(i * 1000 + j) for j in range(nc)] for i in range(nr)]; rows = [[repr(v) for v in r] for r in vals]; bad = None; head = ["c%d" % j for j in range(nc)]
        if chance(draw, 0.25): i = draw(st.integers(1, nr - 1)); bad = "ragged"; rows[i] = rows[i][:-1] if nc > 1 and draw(st.booleans()) else rows[i] + ["0.5"]
        sep = draw(st.sampled_from([" ", "\t", "   "])); t = "% " + sep.join(head) + "\n" + "".join(sep.join(r) + "\n" for r in rows)
        return {"t": t, "want": vals if not bad else None, "cols": {w: n for n, w in enumerate(head)}, "bad": bad}
    nc = draw(st.integers(1, 6)); nr = draw(st.integers(0, 6))
    vals = [[draw(num) for _ in range(nc)] for _ in range(nr)]
    rows = [[spell(draw, v) for v in r] for r in vals]; want = vals; bad = None
    heads = draw(st.lists(st.lists(st.sampled_from(["z", "Ez", "a_b", "1", "é", "x:y", "%"]), max_size=4), max_size=2))
    if nr and chance(draw, 0.3):
        i = draw(st.integers(0, nr - 1)); j = draw(st.integers(0, nc - 1)); k = draw(st.integers(0, 2)); bad = "token"
        if k < 2 or nr < 2 or nc < 2:
            rows[i][j] = draw(st.sampled_from(BAD))
            if rows[i][j][0] == "%" and j == 0: rows[i][j] = "x"
        elif k == 2: bad = "ragged"; rows[i] = rows[i][:-1] if draw(st.booleans()) else rows[i] + ["0.5"]
    t, order = table_text(draw, rows, heads)
    return {"t": t, "want": want if not bad else None, "cols": {w: n for n, w in enumerate(order[-1])} if order else {}, "bad": bad}

def lib(env):
    if "lib" not in env.cache:
        L = ctypes.CDLL(env.extras[env.bdir])
        for f in (L.table_read, L.table_fetch): f.restype = ctypes.c_void_p
        L.table_read.argtypes = [ctypes.c_char_p, ctypes.c_size_t]; L.table_fetch.argtypes = [ctypes.c_char_p]; L.util_free.argtypes = [ctypes.c_void_p]
        env.cache["lib"] = L
    return env.cache["lib"]

def call(env, f, *a):
    p = getattr(lib(env), f)(*a); s = ctypes.string_at(p).decode("utf-8", "replace"); lib(env).util_free(p)
    return s

def parse_dump(s):
    L = s.split("\n"); r, c = [int(x) for x in L[0].split()]
    rows = [[float.fromhex(w) for w in l.split()] for l in L[1:1 + r]]
    return r, c, rows, {l.rsplit(" ", 1)[0]: int(l.rsplit(" ", 1)[1]) for l in L[1 + r:] if l}

def expect_table(got, want, cols, what):
    if want is None:
        if not got.startswith("error ") or len(got) < 8: fail("%s: a malformed table is accepted as %s", what, got)
        return
    if got.startswith("error "): fail("%s is refused: %s", what, got)
    r, c, rows, names = parse_dump(got)
    if r != len(want) or (want and c != len(want[0])): fail("%s: read as %d x %d, holds %d x %d", what, r, c, len(want), len(want[0]) if want else 0)
    if [[x.hex() for x in q] for q in rows] != [[float(x).hex() for x in q] for q in want]: fail("%s: read %s, holds %s", what, rows, want)
    if cols is not None and names != cols: fail("%s: columns %s, expected %s", what, names, cols)

def table_run(case, env):
    b = case["t"].encode(); got = call(env, "table_read", b, len(b))
    expect_table(got, case["want"], case["cols"], "table %r" % case["t"])
    return case["want"] is None or sum(len(r) for r in case["want"]) > 1, ["malformed: " + case["bad"] if case["bad"] else "valid", "CRLF" if "\r" in case["t"] else "LF"]

# ---- histories of one cache
TIMES = ["now", "keep", "old", "future", "fixed"]

@st.composite
def cache_case(draw):
    ver = []
    base = [[draw(st.integers(10, 99)) for _ in range(3)] for _ in range(2)]
    for k in range(draw(st.integers(2, 4))):
        v = [list(r) for r in base]; v[draw(st.integers(0, 1))][draw(st.integers(0, 2))] = draw(st.integers(10, 99))   # same length of text
        if chance(draw, 0.3): v = v + [[1, 2, 3]]
        ver.append({"t": "".join("%d %d %d\n" % tuple(r) for r in v), "want": v})
    if chance(draw, 0.4): ver.append({"t": "10 11 12\n13 1x 15\n", "want": None})
    op = st.one_of(st.tuples(st.just("write"), st.integers(0, 2), st.integers(0, len(ver) - 1), st.sampled_from(TIMES), st.booleans()), st.tuples(st.just("read"), st.integers(0, 2)),
                   st.tuples(st.just("read"), st.integers(0, 2)), st.tuples(st.just("swap"), st.integers(0, 2), st.integers(0, 2)), st.tuples(st.just("remove"), st.integers(0, 2)), st.tuples(st.just("clear")))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, 2)); ops += [("read", i)] if draw(st.booleans()) else draw(st.lists(op, max_size=2))
        ops += [("write", i, draw(st.integers(0, len(ver) - 1)), draw(st.sampled_from(TIMES)), draw(st.booleans()))] + draw(st.lists(op, max_size=2)) + [("read", i)]
    return {"ver": ver, "ops": [list(o) for o in ops]}

def put(path, text, when, replace):
    """(re)write a file; in place or by renaming a new file over it; with the time stamp asked for"""
    old = os.stat(path) if os.path.exists(path) else None
    os.makedirs(os.path.dirname(path), exist_ok=True)
    p = path + ".new" if replace else path
    with open(p, "w", newline="") as f: f.write(text)
    if when == "keep" and old: os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
    elif when == "old": os.utime(p, (1e9, 1e9))
    elif when == "future": os.utime(p, (4e9, 4e9))
    elif when == "fixed": os.utime(p, (1.5e9, 1.5e9))
    if replace: os.replace(p, path)

def cache_run(case, env):
    env.n += 1; d = env.tmp("t%d" % env.n)
    P = [os.path.join(d, "a", "f.txt"), os.path.join(d, "b", "f.txt"), os.path.join(d, "b", "g.txt")]
    now = [None] * 3; seen = [set(), set(), set()]; interesting = False; labels = set()
    for o in case["ops"]:
        if o[0] == "write": put(P[o[1]], case["ver"][o[2]]["t"], o[3], o[4]); now[o[1]] = o[2]; labels.add(o[3])
        elif o[0] == "remove":
            if now[o[1]] is not None: os.remove(P[o[1]]); now[o[1]] = None
        elif o[0] == "swap":
            i, j = o[1:]
            if i == j or now[i] is None or now[j] is None: continue
            os.rename(P[i], P[i] + ".x"); os.rename(P[j], P[i]); os.rename(P[i] + ".x", P[j]); now[i], now[j] = now[j], now[i]; labels.add("swap")
        elif o[0] == "clear": lib(env).table_clear()
        else:
            i = o[1]; got = call(env, "table_fetch", P[i].encode())
            interesting |= bool(seen[i] - {now[i]}); seen[i].add(now[i])
            if now[i] is None:
                if not got.startswith("error "): fail("a file that does not exist is read as %s", got)
            else: expect_table(got, case["ver"][now[i]]["want"], None, "after %s: %s" % (case["ops"], os.path.relpath(P[i], d)))
    return interesting, sorted(labels)

# ---- cavity and curve files: layout
@st.composite
def curve_el(draw):
    t, k, s = draw(st.sampled_from([("solenoid", "B", 1.0), ("quadrupole", "B2", 0.8)])); n = draw(st.integers(1, 2)); m = draw(st.integers(1, 6))
    e = {"type": t, "L": draw(fl(0.1, 0.5)), "ncurve": float(n), "CurveFile": "c.lat", "Eng_Data_Dir": gencav.TMP}
    for i in range(n): e["scl_fac%d" % i] = draw(fl(0.2, 1.0)) * s
    e["_files"] = {"c.lat": "".join("curve%d = [%s];\n" % (i, ", ".join(repr(gencav.r9(draw(fl(-1, 1)))) for _ in range(m))) for i in range(n))}
    return e

@st.composite
def data_el(draw, g): return draw(gencav.synthetic(g, 0.1, True)) if chance(draw, 0.7) else draw(curve_el())

GTOK = re.compile(r'"[^"]*"|[A-Za-z_][A-Za-z0-9_]*|[-+]?[0-9.]+(?:e[-+]?[0-9]+)?|\S')

def relayout(draw, name, t):
    crlf = draw(st.sampled_from([0, 0, 1, 2]))
    if name.endswith(".lat"):
        out = []
        for w in GTOK.findall(t):
            out.append(w)
            out.append(draw(st.sampled_from(["", "", " ", "  ", "\n", "\t"])) if w in "=[](),:;" else draw(st.sampled_from([" ", "\n", "\t"])))
            if w == ";" and chance(draw, 0.3): out.append("# comment " + draw(st.sampled_from(["", "x = 1;", '"'])) + "\n")
        return "".join(out)                     # the lattice language knows no carriage return
    lines = t.split("\n")
    if "thinlenlon" in name:
        out = []
        for l in lines:
            if chance(draw, 0.15): out.append(draw(st.sampled_from(["", " ", "% note", " % a b c d e", "\t"])))
            if l.strip(): out.append(l if l[0] == "%" else ws(draw, 0) + ws(draw).join(l.split()) + ws(draw, 0))
        return "".join(l + eol(draw, crlf) for l in out)
    rows = [[spell(draw, float(w)) for w in l.split()] for l in lines if l.strip() and l[0] != "%"]; heads = [l[1:].split() for l in lines if l[:1] == "%"]
    return table_text(draw, rows, heads + draw(st.sampled_from([[], [["new", "names"]]])))[0]

def corrupt(draw, name, t):
    """(text, what) that is no longer a well-formed file, or None"""
    lines = [l for l in t.split("\n") if l.strip()]
    if name.endswith(".lat"):
        k = draw(st.integers(0, 4))
        if k == 0: i = draw(st.integers(0, t.count(";") - 1)); p = [m.start() for m in re.finditer(";", t)][i]; return t[:p] + t[p + 1:] + (" x" if i == t.count(";") - 1 else ""), "no semicolon"
        if k == 1: return t.replace("]", "", 1), "no bracket"
        if k == 2: return t.replace("[", "[nosuch, ", 1), "undefined name"
        if k == 3: return t.replace("Ez =", "Ex =") if "Ez" in t else t.replace("curve0", "curve9"), "no field"
        return t + "\nx = 1; x = 2;", "redefinition"
    idx = [i for i, l in enumerate(lines) if l[0] != "%"]; i = draw(st.sampled_from(idx)); w = lines[i].split()
    if "thinlenlon" in name:
        need = 4 if w[0] in ("drift", "AccGap") else 5
        k = draw(st.integers(0, 2))
        if k == 0: w = w[:draw(st.integers(1, need - 1))]; what = "short line"
        elif k == 1: w[draw(st.integers(2, need - 1))] = draw(st.sampled_from(["x", "y1"])); what = "no number"
        else: j = draw(st.integers(2, need - 1)); w[j] = w[j] + draw(st.sampled_from(["x", ",5", ".1.2", "-"])) if "." in w[j] else w[j] + "x"; what = "number with junk"
    elif draw(st.booleans()): w[draw(st.integers(0, len(w) - 1))] = draw(st.sampled_from(["x", "1.5x", "1,5", "--1", "1e"])); what = "no number"
    else: w = w[:-1] if draw(st.booleans()) else w + ["1.0"]; what = "ragged"
    lines[i] = " ".join(w)
    return "\n".join(lines) + "\n", what

@st.composite
def layout_case(draw):
    g = draw(gen.beam(nmax=2, Ek=(1e6, 5e7), spread=0.1)); e = draw(data_el(g))
    if chance(draw, 0.35):
        n = draw(st.sampled_from(sorted(e["_files"]))); t, what = corrupt(draw, n, e["_files"][n])
        return {"g": g, "e": e, "bad": {n: t}, "what": what + " in " + n.rsplit("/")[-1].split("_")[0]}
    return {"g": g, "e": e, "alt": {n: relayout(draw, n, t) for n, t in e["_files"].items()}}

def files(d, fs, when="now", replace=False):
    for n, t in fs.items(): put(os.path.join(d, n), t, when, replace)

def conf(g, e, d): return gen.conf({"g": g, "els": gen.named([{"type": "drift", "L": 0.1}, dict({k: v for k, v in e.items() if k != "_files"}, Eng_Data_Dir=d), {"type": "drift", "L": 0.1}])})

def outcome(M):
    """final state, or the error"""
    try: S = M.allocState(); M.propagate(S)
    except Exception as e: return "error"
    return cmp.snap(S)

def same(a, b, what):
    if isinstance(a, str) or isinstance(b, str):
        if a is not b and a != b: fail("%s: %s, expected %s", what, a if isinstance(a, str) else "a result", b if isinstance(b, str) else "a result")
    else: cmp.same_snap(a, b, what)

def fresh(env, g, e, fs):
    """result of a machine reading the same content from a directory never used before"""
    import flame
    env.n += 1; d = env.tmp("n%d" % env.n); files(d, fs)
    try: return outcome(flame.Machine(conf(g, e, d)))
    except Exception: return "refused"

def layout_run(case, env):
    e = case["e"]; a = fresh(env, case["g"], e, e["_files"])
    if a == "refused": fail("well-formed files are refused")
    if "bad" in case:
        if a == "error": return False, ["no reference"]
        b = fresh(env, case["g"], e, dict(e["_files"], **case["bad"]))
        if not isinstance(b, str): fail("malformed data file is accepted (%s): %s", case["what"], case["bad"])
        return True, [case["what"]]
    same(fresh(env, case["g"], e, case["alt"]), a, "the same data in another layout")
    return case["alt"] != e["_files"], ["layout of " + e.get("cavtype", "curve")]

# ---- histories of files and machines
def vary(draw, t):
    """one digit of one number after the decimal point changed: same length of text"""
    m = [x for x in re.finditer(r"\.[0-9]*[1-8](?=[0-9]*)", t)]
    if not m: return t
    x = draw(st.sampled_from(m)); p = x.end() - 1
    return t[:p] + str(int(t[p]) + 1) + t[p + 1:]

@st.composite
def machine_case(draw):
    g = draw(gen.beam(nmax=2, Ek=(1e6, 5e7), spread=0.1)); e = draw(data_el(g)); ver = [e["_files"]]
    for _ in range(draw(st.integers(1, 3))):
        v = dict(draw(st.sampled_from(ver)))
        for n in draw(st.lists(st.sampled_from(sorted(v)), min_size=1, max_size=3, unique=True)): v[n] = vary(draw, v[n]) if not chance(draw, 0.15) else corrupt(draw, n, v[n])[0]
        ver.append(v)
    d = st.integers(0, 1); k = st.integers(0, len(ver) - 1)
    op = st.one_of(st.tuples(st.just("write"), d, k, st.sampled_from(TIMES), st.booleans()), st.tuples(st.just("build"), d), st.tuples(st.just("build"), d), st.tuples(st.just("reconf"), st.integers(0, 3), d, st.booleans()),
                   st.tuples(st.just("reconf"), st.integers(0, 3), d, st.booleans()), st.tuples(st.just("swap")), st.tuples(st.just("run"), st.integers(0, 3)))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        i = draw(d); ops += [("build", i)] if draw(st.integers(0, 2)) else draw(st.lists(op, max_size=2))
        ops += [("write", i, draw(k), draw(st.sampled_from(TIMES)), draw(st.booleans()))] + draw(st.lists(op, max_size=2))
        ops += [("build", i) if draw(st.booleans()) else ("reconf", draw(st.integers(0, 3)), i, draw(st.booleans()))]
    return {"g": g, "e": {a: b for a, b in e.items() if a != "_files"}, "ver": ver, "start": [draw(k), draw(k)], "ops": [list(o) for o in ops]}

def machine_run(case, env):
    import flame
    g, e, ver = case["g"], case["e"], case["ver"]; env.n += 1; root = env.tmp("m%d" % env.n); D = [os.path.join(root, "one"), os.path.join(root, "two")]
    now = list(case["start"]); good = {}
    for i in range(2): files(D[i], ver[now[i]])
    def expect(k):
        if k not in good: good[k] = fresh(env, g, e, ver[k])
        return good[k]
    ms = []; read = [set(), set()]; interesting = False; labels = []
    # a machine: [Machine, directory, version its element was configured from]
    def compare(m, what):
        if now[m[1]] != m[2] and "CurveFile" in e: return           # read when it is used
        same(outcome(m[0]), expect(m[2]), "%s in %s" % (what, case["ops"]))
    for o in case["ops"]:
        if o[0] == "write":
            if ver[o[2]].keys() != ver[now[o[1]]].keys(): continue
            diff = {n: t for n, t in ver[o[2]].items() if t != ver[now[o[1]]][n]}
            files(D[o[1]], diff, o[3], o[4]); now[o[1]] = o[2]; labels.append(o[3])
        elif o[0] == "swap":
            os.rename(D[0], D[0] + ".x"); os.rename(D[1], D[0]); os.rename(D[0] + ".x", D[1]); now.reverse(); labels.append("swap")
        elif o[0] == "build":
            d = o[1]; k = now[d]; interesting |= bool(read[d] - {k}); read[d].add(k); w = expect(k)
            try: M = flame.Machine(conf(g, e, D[d]))
            except Exception as x:
                if w != "refused": fail("after %s a machine can't be built: %s", case["ops"], x)
                continue
            if w == "refused": fail("after %s a machine is built from a malformed file", case["ops"])
            ms.append([M, d, k]); compare(ms[-1], "a machine built from version %d" % k)
            if len(ms) > 4: ms.pop(0)
        elif o[0] == "reconf" and ms:
            m = ms[o[1] % len(ms)]; d = o[2]; k = now[d]; w = expect(k); interesting |= bool(read[d] - {k}); read[d].add(k)
            c = {"Eng_Data_Dir": D[d]}
            if o[3]: c = {a: b for a, b in conf(g, e, D[d])["elements"][1].items() if a not in ("name", "type")}
            try: m[0].reconfigure(1, c)
            except Exception as x:
                if w != "refused": fail("after %s the machine can't be reconfigured: %s", case["ops"], x)
                labels.append("refused"); continue
            if w == "refused": fail("after %s a machine is reconfigured from a malformed file", case["ops"])
            m[1:] = [d, k]; labels.append("reconfigured"); compare(m, "a machine reconfigured with version %d" % k)
        elif o[0] == "run" and ms: compare(ms[o[1] % len(ms)], "run")
    return interesting, sorted(set(labels)) + [e.get("cavtype", "curve")]

def prepare(bdirs): return {b: build.build_harness("util_ops", b, f, shared=True) for f, b in bdirs.items()}

CHECKS = [Check("table", table_case, table_run, 16000, 400000), Check("cache", cache_case, cache_run, 5000, 100000),
          Check("layout", layout_case, layout_run, 2400, 50000), Check("machines", machine_case, machine_run, 2400, 50000)]
