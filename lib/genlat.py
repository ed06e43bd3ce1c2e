"""Programs of the lattice language: a generator of typed syntax trees, a printer with random layout, and an
independent evaluator (what the documentation says the file means)."""
import math, os, random, re
from hypothesis import strategies as st
from gen import chance

class LatErr(Exception):
    """the program is in error at statement .k (None: no particular one); .names: what the report has to name"""
    def __init__(self, k, why, names=None): super().__init__(why); self.k, self.why, self.names = k, why, names
class Ambiguous(Exception): pass

FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan,
      "arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "deg2rad": lambda v: v * (math.pi / 180.0), "rad2deg": lambda v: v * (180.0 / math.pi)}
PATHFN = ("file", "dir", "h5file")

# ---- evaluator.  values: ("n", v, err) ("v", [(v, err)..]) ("s", str) ("c", config) ("l", [labels])
def fcall(f, x):
    try: return FN[f](x)
    except ValueError: return math.nan
    except OverflowError: return math.inf

def ev(e, env):
    op = e[0]
    if op == "n": return ("n", float(e[1]), 0.0)
    if op == "s": return ("s", e[1])
    if op == "p": return ev(e[1], env)
    if op == "v":
        r = [ev(x, env) for x in e[1]]
        if any(x[0] != "n" for x in r): raise LatErr(env.k, "vector of non-numbers")
        return ("v", [(x[1], x[2]) for x in r])
    if op == "id":
        n = e[1]
        if n in env.var: return env.var[n]
        if n in env.el: return ("l", [n])
        if n in env.line: return ("l", list(env.line[n]))
        if n == "pi": return ("n", math.pi, 0.0)
        raise LatErr(env.k, "undefined name " + n, n)
    if op == "f":
        a = ev(e[2], env)
        if e[1] in FN and a[0] == "n":
            y = fcall(e[1], a[1]); d = 0.0 if math.isnan(y) else 1e-15 * abs(y)
            if a[2]:
                for s in (-1, 1):
                    z = fcall(e[1], a[1] + s * a[2])
                    if math.isnan(z) != math.isnan(y): raise Ambiguous()
                    if not math.isnan(y): d += abs(z - y)
            return ("n", y, d)
        if e[1] in PATHFN and a[0] == "s": return ("s", env.path(e[1], a[1]))
        if e[1] == "parse" and a[0] == "s": return ("c", env.sub(a[1]))
        raise LatErr(env.k, "no function %s of %s" % (e[1], a[0]), e[1])
    if op == "neg":
        a = ev(e[1], env)
        if a[0] == "n": return ("n", -a[1], a[2])
        if a[0] == "l": return ("l", a[1][::-1])
        raise LatErr(env.k, "negated " + a[0], "-")
    a, b = ev(e[1], env), ev(e[2], env)
    if a[0] == "n" and b[0] == "n":
        x, y = a[1], b[1]
        if op == "+": return ("n", x + y, a[2] + b[2])
        if op == "-": return ("n", x - y, a[2] + b[2])
        if op == "*": return ("n", x * y, er(abs(x) * b[2]) + er(abs(y) * a[2]) + a[2] * b[2])
        if (a[2] or b[2]) and (abs(y) <= 2 * b[2] or not math.isfinite(x) or not math.isfinite(y)): raise Ambiguous()
        try: r = x / y
        except ZeroDivisionError: raise LatErr(env.k, "division by zero")
        if not math.isfinite(r): raise LatErr(env.k, "non-finite division")
        return ("n", r, 0.0 if not (a[2] or b[2]) else 2 * (a[2] / abs(y) + abs(r) * b[2] / abs(y)) + 1e-15 * abs(r))
    if op == "*" and sorted((a[0], b[0])) == ["l", "n"]:
        f, l = (a, b) if a[0] == "n" else (b, a)
        if f[2] and abs(f[1] - round(f[1])) <= f[2]: raise Ambiguous()
        if not (0 <= f[1]): raise LatErr(env.k, "line repeated %r times" % f[1])
        if len(l[1]) * int(min(f[1], 10 ** 6)) > 4000: raise Ambiguous()
        return ("l", l[1] * int(f[1]))
    raise LatErr(env.k, "%s %s %s" % (a[0], op, b[0]), op)

def er(x): return 0.0 if math.isnan(x) else x

class Scope:
    def __init__(self, cwd, subs=None, extra=None):
        self.var, self.el, self.line, self.k = {}, {}, {}, None
        self.cwd, self.subs = cwd, subs or {}
        self.order = []
        for n, v in (extra or {}).items(): self.var[n] = ("s", v) if isinstance(v, str) else ("n", float(v), 0.0)
    def path(self, fn, p):
        full = os.path.join(self.cwd, p)
        if fn == "h5file":
            base, rest = full, ""
            cut = p
            while True:
                if cut and os.path.exists(os.path.join(self.cwd, cut)): return os.path.realpath(os.path.join(self.cwd, cut)) + p[len(cut):]
                if "/" not in cut: raise LatErr(self.k, "no such file")
                cut = cut[:cut.rindex("/")]
        if not p or not os.path.exists(full): raise LatErr(self.k, "no such file")
        return os.path.realpath(full)
    def sub(self, p):
        full = os.path.realpath(os.path.join(self.cwd, p))
        if full not in self.subs: raise LatErr(self.k, "no such file")
        try: return evaluate(self.subs[full], os.path.dirname(full), self.subs)
        except LatErr as e: raise LatErr(self.k, "included: " + e.why)

def evaluate(prog, cwd="/", subs=None, extra=None):
    """-> {"vars": {name: value}, "name": line label, "elements": [(label, type, {prop: value})]}; raises LatErr"""
    S = Scope(cwd, subs, extra); use = None
    for k, s in enumerate(prog):
        S.k = k; op = s[0]
        if op == "=":
            v = ev(s[2], S)
            if v[0] == "l": raise LatErr(k, "line assigned to a variable")
            if s[1] in S.var: raise LatErr(k, "redefined variable", s[1])
            S.var[s[1]] = v
        elif op == "el":
            P = {}
            for n, e in s[3]:
                v = ev(e, S)
                P.setdefault(n, v)      # the first of several definitions of a property counts
            if s[1] in S.el: raise LatErr(k, "redefined element", s[1])
            S.el[s[1]] = (s[2], P)
        elif op == "use":
            if use is not None: raise LatErr(k, "second USE", "USE")
            use = s[1]
        elif op == "line":
            L = []
            for e in s[3]:
                v = ev(e, S)
                if v[0] != "l": raise LatErr(k, "line of " + v[0])
                L += v[1]
            if s[2].upper() != "LINE": raise LatErr(k, "not LINE")
            if s[1] in S.line: raise LatErr(k, "redefined line", s[1])
            S.line[s[1]] = L; S.order.append(s[1])
        elif op == "print":
            ev(s[1], S)
        elif op == "cmd":
            if s[1] != "END": raise LatErr(k, "unknown command", s[1])
        elif op == "call":
            ev(s[2], S); raise LatErr(k, "unknown function", s[1])
        elif op == "raw":
            raise LatErr(k, "malformed")
        else: raise AssertionError(op)
    if not S.order: raise LatErr(None, "no lines")
    if use is not None and use not in S.line: raise LatErr(None, "USE of undefined line")
    name = use if use is not None else S.order[-1]
    if not S.line[name]: raise LatErr(None, "empty line")
    if len(S.line[name]) > 20000: raise Ambiguous()
    els = []
    for l in S.line[name]:
        t, P = S.el[l]
        if any(v[0] == "l" for v in P.values()): raise LatErr(None, "line as a property")
        els.append((l, t, P))
    return {"vars": S.var, "name": name, "elements": els}

# ---- printer
LEVEL = {"+": 1, "-": 1, "*": 2, "/": 2, "neg": 3}
def toks(e, lvl, r):
    op = e[0]
    if op == "n": out = [e[1]]
    elif op == "s": out = ['"' + e[1] + '"']
    elif op == "id": out = [e[1]]
    elif op == "p": out = ["("] + toks(e[1], 0, r) + [")"]
    elif op == "f": out = [e[1], "("] + toks(e[2], 0, r) + [")"]
    elif op == "v":
        out = ["["]
        for i, x in enumerate(e[1]): out += ([","] if i else []) + toks(x, 0, r)
        if e[1] and r.random() < 0.2: out.append(",")
        out.append("]")
    else:
        l = LEVEL[op]
        out = ["-"] + toks(e[1], l, r) if op == "neg" else toks(e[1], l, r) + [op] + toks(e[2], l + 1, r)
        if l < lvl: return ["("] + out + [")"]
    if r.random() < 0.04: out = ["("] + out + [")"]
    return out

def stmt_toks(s, r):
    op = s[0]
    if op == "=": return [s[1], "="] + toks(s[2], 0, r) + [";"]
    if op == "el":
        out = [s[1], ":", s[2]]
        for n, e in s[3]: out += [",", n, "="] + toks(e, 0, r)
        return out + [";"]
    if op == "use": return ["USE", ":", s[1], ";"]
    if op == "line":
        out = [s[1], ":", s[2], "=", "("]
        for i, e in enumerate(s[3]): out += ([","] if i else []) + toks(e, 0, r)
        if s[3] and r.random() < 0.15: out.append(",")
        return out + [")", ";"]
    if op == "print": return ["print", "("] + toks(s[1], 0, r) + [")", ";"]
    if op == "cmd": return [s[1], ";"]
    if op == "call": return [s[1], "("] + toks(s[2], 0, r) + [")", ";"]
    if op == "raw": return list(s[1])
    raise AssertionError(op)

COMMENTS = ["#\n", "# comment\n", "# a: drift, L=1;\n", "#\"'$ @ \t é \n", "######\n"]
def layout(prog, seed, plain=False):
    """-> (text, [(line of first token, line of last token, last line of the following statement)])"""
    r = random.Random(seed); style = 0 if plain else r.randint(0, 3)
    out = []; line = 1; spans = []; prev = ""
    def put(t):
        nonlocal line
        out.append(t); line += t.count("\n")
    def ws(need):
        if style == 0: put(" " if need else "")
        elif style == 1: put(" ")
        else:
            n = r.choice((0, 0, 1, 1, 2)) if not need else r.choice((1, 1, 2))
            for _ in range(n):
                x = r.random()
                put(" " if x < 0.6 else "\t" if x < 0.75 else "\n" if x < 0.93 or style == 2 else r.choice(COMMENTS))
    for s in prog:
        T = stmt_toks(s, r); first = None
        for i, t in enumerate(T):
            # ':' glues names together, so that a name must not follow it directly
            need = prev == ":" or (prev and (prev[-1].isalnum() or prev[-1] in "_.") and (t[0].isalnum() or t[0] in "_."))
            if i: ws(need)
            if first is None: first = line
            put(t); prev = t
        spans.append([first, line, None])
        if style == 0: put("\n")
        elif style == 1: put(" " if r.random() < 0.3 else "\n")
        else:
            ws(False); put(r.choice(("\n", "\n\n", " ", "", r.choice(COMMENTS))))
        prev = ""
    for i in range(len(spans)): spans[i][2] = spans[i + 1][1] if i + 1 < len(spans) else line
    return "".join(out), spans

# ---- generator
VARS = ["x", "y", "AMU", "len1", "a:b", "LS1_CA01:CAV1", "foc_x", "pi", "sin", "e", "E1", "LINE", "i0", "zz9", "Frf", "print", "file", "Q", "END", "aper"]
ELS = ["d1", "d2", "S", "q:1", "ql_12", "B", "mark", "FS1:CAV_D12", "c1", "drift", "source", "u", "k", "bpm1", "sol", "long_" * 17 + "1", "long_" * 17 + "2", "el:" * 90 + "x"]
LINES = ["cell", "l1", "L2", "whole", "ring:1", "half", "Z", "line_" * 17 + "1", "line_" * 17 + "2"]
PROPS = ["L", "B", "K1", "aper", "ver", "s", "v:1", "field_1", "note", "x", "phi", "prop_" * 17 + "1", "prop_" * 17 + "2"]
TYPES = ["drift", "marker"]
NUMS = ["0", "1", "2", "3", "10", "007", "1.", "0.5", "1e3", "2E-7", "1.e+05", "0.1", "123456789.123456789", "3.14", "0.0", "1e-310", "4e2", "931.49432e6", "1e200", "0.25", "5", "12.5"]
STRS = ["", "abc", "a b", "1.5", "#no comment", "semi;colon, (x)", "it's", "é", "a=b:c", "[1,2]", "\\", "\\n", "%s %d", "tab\tx"]

class G:
    def __init__(self, draw, files, subs):
        self.d = draw; self.files, self.subs = files, subs
        self.var, self.els, self.lines, self.used = {}, [], [], set()
        self.r = random.Random(draw(st.integers(0, 2 ** 40)))
    def pick(self, L): return self.r.choice(L)
    def num(self, depth=0):
        k = self.r.random()
        nv = [n for n, t in self.var.items() if t == "n"] + (["pi"] if "pi" not in self.var else [])
        if depth > 4 or k < 0.3: return ["n", self.pick(NUMS) if self.r.random() < 0.7 else repr(round(self.r.uniform(0, 100), 3))]
        if k < 0.5: return ["id", self.pick(nv)] if nv else ["n", self.pick(NUMS)]
        if k < 0.6: return ["neg", self.num(depth + 1)]
        if k < 0.68: return ["f", self.pick(sorted(FN)), self.num(depth + 1)]
        if k < 0.72: return ["p", self.num(depth + 1)]
        op = self.pick("++--**/")
        return [op, self.num(depth + 1), self.num(depth + 1)]
    def str(self):
        k = self.r.random(); sv = [n for n, t in self.var.items() if t == "s"]
        if sv and k < 0.25: return ["id", self.pick(sv)]
        if self.files and k < 0.45: return ["f", *self.pick(self.files)]
        return ["s", self.pick(STRS)]
    def vec(self):
        k = self.r.random(); vv = [n for n, t in self.var.items() if t == "v"]
        if vv and k < 0.3: return ["id", self.pick(vv)]
        if k > 0.97: return ["v", [["n", self.pick(NUMS)] for _ in range(self.pick((17, 64, 65, 130)))]]
        return ["v", [self.num(3) for _ in range(self.pick((0, 1, 2, 3, 7)))]]
    def val(self):
        k = self.r.random()
        return (("n", self.num()) if k < 0.6 else ("s", self.str()) if k < 0.8 else ("v", self.vec()))
    def lexp(self, depth=0):
        k = self.r.random()
        if depth > 2 or k < 0.55: return ["id", self.pick(self.els + self.lines)]
        if k < 0.7: return ["neg", self.lexp(depth + 1)]
        f = self.pick((["n", "2"], ["n", "3"], ["n", "1"], ["n", "0"], ["+", ["n", "1"], ["n", "1"]], ["/", ["n", "6"], ["n", "3"]], ["n", "2.0"], ["p", ["-", ["n", "4"], ["n", "2"]]], ["n", "1.75"], ["n", "0.99"], ["/", ["n", "5"], ["n", "2"]]))
        if k < 0.85: return ["*", f, self.lexp(depth + 1)]
        if k < 0.95: return ["*", self.lexp(depth + 1), f]
        return ["p", self.lexp(depth + 1)]
    def fresh(self, L):
        c = [n for n in L if n not in self.used]
        if not c: return None
        n = self.pick(c); self.used.add(n); return n
    def stmt(self):
        k = self.r.random()
        if k < 0.35:
            n = self.fresh(VARS)
            if n is None: return None
            if self.subs and self.r.random() < 0.06:
                self.var[n] = "c"; return ["=", n, ["f", "parse", ["s", self.pick(self.subs)]]]
            cv = [m for m, t in self.var.items() if t == "c"]
            if cv and self.r.random() < 0.3: self.var[n] = "c"; return ["=", n, ["id", self.pick(cv)]]
            t, e = self.val(); self.var[n] = t
            return ["=", n, e]
        if k < 0.7 or not self.els:
            n = self.fresh(ELS)
            if n is None: return None
            P = []
            for _ in range(self.pick((0, 1, 1, 2, 3, 5))):
                p = self.pick(PROPS)
                P.append([p, self.num() if p == "L" else self.val()[1]])
            self.els.append(n)
            return ["el", n, self.pick(TYPES), P]
        if k < 0.92:
            n = self.fresh(LINES)
            if n is None: return None
            L = [self.lexp() for _ in range(self.pick((0, 1, 1, 2, 3, 6)))]
            self.lines.append(n)
            return ["line", n, self.pick(("LINE", "LINE", "line", "Line")), L]
        if k < 0.96: return ["print", self.pick((self.num, self.str, self.vec, self.lexp))()]
        return ["cmd", "END"]

@st.composite
def program(draw, nmax=14, files=(), subs=(), reserve=()):
    n = draw(st.integers(2, nmax))
    g = G(draw, list(files), list(subs)); g.used |= set(reserve)
    prog = []
    for _ in range(n):
        s = g.stmt()
        if s: prog.append(s)
    if not g.els: prog.append(["el", g.fresh(ELS), "marker", []]); g.els.append(prog[-1][1])
    if not g.lines or g.r.random() < 0.9: prog.append(["line", g.fresh(LINES) or "zzz", "LINE", [["id", g.pick(g.els)], g.lexp()]]); g.lines.append(prog[-1][1])
    if g.r.random() < 0.35: prog.insert(g.r.randint(0, len(prog)), ["use", g.pick(g.lines)])
    return prog, g

@st.composite
def broken(draw, g, prog):
    """insert one statement in error; -> (prog, index, kind).  The evaluator decides what is wrong with it."""
    k = draw(st.integers(0, len(prog))); r = g.r
    before = prog[:k]
    V = [s[1] for s in before if s[0] == "="]; E = [s[1] for s in before if s[0] == "el"]; L = [s[1] for s in before if s[0] == "line"]
    later = [s[1] for s in prog[k:] if s[0] in ("=", "el", "line")]
    one, txt, vec = ["n", "1"], ["s", "x"], ["v", [["n", "1"]]]
    lin = ["id", r.choice(E + L)] if E + L else None
    # names close to names that are defined (or built in)
    near = sorted({f(n) for n in V + E + L + ["pi"] for f in (str.swapcase, str.upper, str.capitalize, lambda n: n + "1", lambda n: n + "_", lambda n: n[:-1])} - set(V + E + L + later + ["pi", ""])) 
    near = [n for n in near if re.fullmatch(r"[A-Za-z]([A-Za-z0-9_:]*[A-Za-z0-9_])?", n)]
    near.append("e")
    near = ["PI", "Pi"] * 3 + near if r.random() < 0.3 else near
    near = [n for n in near if n not in V + E + L + later] or ["nowhere"]
    nn = r.choice(near)
    X = [("undef", ["=", "w1", ["id", "nowhere"]]), ("undef", ["=", "w1", ["+", one, ["f", "sin", ["id", "nowhere"]]]]), ("undef", ["=", "w1", ["v", [one, ["id", "nowhere"]]]]),
         ("undef", ["el", "w1", "drift", [["L", ["id", "nowhere"]]]]), ("undef", ["line", "w1", "LINE", [["id", "nowhere"]]]), ("undef", ["print", ["id", "nowhere"]]), ("undef", ["=", "w1", ["id", "w1"]]),
         ("undef", ["=", "w1", ["id", nn]]), ("undef", ["=", "w1", ["*", one, ["id", nn]]]), ("undef", ["line", "w1", "LINE", [["id", nn]]]), ("undef", ["el", "w1", "drift", [["L", ["id", nn]]]]),
         ("type", ["=", "w1", ["+", one, txt]]), ("type", ["=", "w1", ["+", txt, txt]]), ("type", ["=", "w1", ["neg", txt]]), ("type", ["=", "w1", ["*", vec, ["n", "2"]]]), ("type", ["=", "w1", ["-", ["n", "2"], vec]]),
         ("type", ["=", "w1", ["f", "sin", txt]]), ("type", ["=", "w1", ["f", "cos", vec]]), ("type", ["=", "w1", ["f", "file", one]]), ("type", ["=", "w1", ["f", "parse", one]]), ("type", ["=", "w1", ["v", [one, txt]]]),
         ("type", ["=", "w1", ["v", [vec]]]), ("type", ["=", "w1", ["neg", vec]]), ("type", ["line", "w1", "LINE", [one]]), ("type", ["line", "w1", "LINE", [txt]]), ("type", ["line", "w1", "LINE", [vec]]),
         ("func", ["=", "w1", ["f", "foo", one]]), ("func", ["=", "w1", ["f", "SIN", one]]), ("func", ["=", "w1", ["f", "print", one]]), ("func", ["call", "foo", one]), ("func", ["call", "sin", one]), ("func", ["cmd", "FOO"]), ("func", ["cmd", "end"]), ("func", ["cmd", "USE"]),
         ("div", ["=", "w1", ["/", one, ["n", "0"]]]), ("div", ["=", "w1", ["/", ["n", "0"], ["n", "0.0"]]]), ("div", ["el", "w1", "drift", [["L", ["/", ["n", "1e200"], ["n", "1e-200"]]]]]), ("div", ["=", "w1", ["v", [one, ["/", one, ["-", one, one]]]]]),
         ("div", ["=", "w1", ["/", ["*", ["n", "1e200"], ["n", "1e200"]], one]]), ("div", ["print", ["/", one, ["neg", ["n", "0"]]]]),
         ("kw", ["line", "w1", "LIN", []]), ("kw", ["line", "w1", "LINES", []]), ("kw", ["line", "w1", "drift", []]),
         ("file", ["=", "w1", ["f", "file", ["s", "no/such/file"]]]), ("file", ["=", "w1", ["f", "dir", ["s", "./none"]]]), ("file", ["=", "w1", ["f", "h5file", ["s", "none.h5/a/b"]]]), ("file", ["=", "w1", ["f", "h5file", ["s", "/none.h5/a/b"]]]), ("file", ["=", "w1", ["f", "parse", ["s", "none.lat"]]])]
    if lin: X += [("type", ["=", "w1", lin]), ("type", ["line", "w1", "LINE", [["+", lin, lin]]]), ("type", ["line", "w1", "LINE", [["-", lin, lin]]]), ("type", ["line", "w1", "LINE", [["*", lin, lin]]]), ("type", ["line", "w1", "LINE", [["/", lin, ["n", "2"]]]]),
                  ("type", ["=", "w1", ["+", one, lin]]), ("type", ["=", "w1", ["f", "sin", lin]]), ("type", ["=", "w1", ["v", [lin]]]), ("neg", ["line", "w1", "LINE", [["*", ["neg", one], lin]]]), ("neg", ["line", "w1", "LINE", [["*", lin, ["-", one, ["n", "3"]]]]]),
                  ("neg", ["line", "w1", "LINE", [["*", ["f", "asin", ["n", "2"]], lin]]]), ("type", ["line", "w1", "LINE", [["*", txt, lin]]])]
    if V: X += [("redef", ["=", r.choice(V), one]), ("redef", ["=", r.choice(V), txt])] * 2
    if E: X += [("redef", ["el", r.choice(E), "drift", []])] * 3
    if L: X += [("redef", ["line", r.choice(L), "LINE", [["id", r.choice(E)]] if E else []])] * 3
    if later: X += [("forward", ["=", "w1", ["id", r.choice(later)]]), ("forward", ["line", "w1", "LINE", [["id", r.choice(later)]]])] * 2
    raw = lambda *t: ("syntax", ["raw", list(t)])
    X += [raw("w1", "=", "1"), raw("w1", "="), raw("w1", "=", ";"), raw("w1", "1", ";"), raw("=", "1", ";"), raw(";"), raw("w1", "=", "(", "1", ";"), raw("w1", "=", "1", ")", ";"), raw("w1", "=", "[", "1", ";"), raw("w1", "=", "[", ",", "]", ";"),
          raw("w1", "=", "1", "2", ";"), raw("w1", ":", ";"), raw("w1", ":", "drift", "L", "=", "1", ";"), raw("w1", ":", "drift", ",", "L", ";"), raw("w1", ":", "drift", ",", ";"), raw("w1", ":", "drift", ",", "L", "=", ";"), raw("w1", ":", "LINE", "=", ";"),
          raw("w1", ":", "LINE", "(", ")", ";"), raw("w1", ":", "LINE", "=", "(", ")"), raw("w1", ":", "LINE", "=", "(", ",", ")", ";"), raw("w1", "=", "+", "1", ";"), raw("w1", "=", "1", "+", ";"), raw("w1", "=", "1", "*", "*", "2", ";"), raw("w1", "=", "sin", "(", ")", ";"),
          raw("w1", "=", "$", ";"), raw("w1", "=", "1", "@", ";"), raw("w1", "=", "'x'", ";"), raw("w1", "=", ".5", ";"), raw("w1", "=", "1e999", ";"), raw("w1", "=", "1e-999", ";"), raw("w1", "=", '"abc', ";"), raw("w1", "=", '"abc\n"', ";"), raw("w1", "=", "1\r", ";"),
          raw("_w", "=", "1", ";"), raw("w1", ":", "1", ";"), raw("1", "=", "1", ";"), raw("w1", "=", "x:", ";"), raw("w1", "=", "{1}", ";"), raw("w1", "=", "1%2", ";"), raw("w1", "=", "2^2", ";"), raw("print", "(", ")", ";"), raw("w1", "(", "1", ")"), raw("é", "=", "1", ";")]
    kind, s = r.choice([x for x in X if x[0] == r.choice(sorted({x[0] for x in X}))] or X)
    if s == ["raw", ["w1", "="]] and k < len(prog) and prog[k][0] in ("cmd", "call"): s = ["raw", ["w1", "=", ";"]]      # "w1 = END;" may be valid
    return prog[:k] + [s] + prog[k:], k, kind
