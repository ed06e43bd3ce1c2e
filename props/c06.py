import random, math
import numpy as np
from hypothesis import strategies as st
import gen, genlat, c04
from core import Check, fail
from gen import fl, chance

RULE = ("Configurations of 0-8 variables and 1-10 element uses over 1-5 definitions (numbers of any magnitude, sign and exactness incl. denormals and the extremes, strings of any printable or UTF-8 text the language can quote, vectors of 0-300, names "
        "with ':' and '_', names shared between variables, elements, lines and functions) given as dictionary, list of pairs or parsed program are printed, parsed and printed again: names, types, order, kinds and values must be the same up to the "
        "printed digits and the second text identical to the first; non-trivial = more than one element or a variable.")
ASSUMPTIONS = ["what the language cannot write is excluded: non-finite numbers, strings with quotes or line breaks, nested configurations other than the element list, different elements of one name, names that are not words of the language"]
TECHNIQUE = "round-trip property-based testing (Hypothesis)"

WORD = st.from_regex(r"[A-Za-z]([A-Za-z0-9_:]{0,8}[A-Za-z0-9_])?", fullmatch=True) | st.sampled_from(["x", "a", "a:b", "pi", "sin", "LINE", "L", "e", "E1", "file", "print", "drift", "END", "A_B:C_d1", "inf", "nan", "default", "cell"])
NUMS = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.integers(-10 ** 7, 10 ** 7).map(float), st.floats(-1e3, 1e3), st.sampled_from([0.0, -0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1e5, 1e6, 999999.5, 123456789.0, 1e-5, 0.1, 1 / 3, -931494320.0]))
STR = st.text(st.characters(blacklist_characters='"\n\r\0', blacklist_categories=("Cs",)), max_size=12) | st.integers(13, 400).map(lambda n: "long text; " * (n // 11) + "x" * (n % 11)) | st.sampled_from(["", "a b", "# not a comment", "a;b", "\\", "\\n", "1.5", "[1,2]", "é ü", "%s"])
VEC = st.lists(NUMS, max_size=6) | st.integers(0, 50).map(lambda n: [i / 3.0 for i in range(n)]) | st.tuples(st.integers(0, 300), st.integers(-300, 270)).map(lambda a: [(-1) ** i * (i + 1) * 10.0 ** (a[1] + i % 31) / 7 for i in range(a[0])])
VAL = st.one_of(NUMS, STR, VEC)

@st.composite
def strat(draw):
    if chance(draw, 0.25):
        prog, g = draw(genlat.program())
        return {"prog": prog, "seed": draw(st.integers(0, 10 ** 6))}
    top = draw(st.dictionaries(WORD.filter(lambda w: w not in ("elements", "name")), VAL, max_size=8))
    names = draw(st.lists(WORD.filter(lambda w: w not in ("USE",)), min_size=1, max_size=5, unique=True))
    if top and chance(draw, 0.2): names = sorted(set(names[1:]) | {draw(st.sampled_from(sorted(top)))} - {"USE"}) or names
    defs = []
    for n in names:
        d = draw(st.dictionaries(WORD.filter(lambda w: w not in ("name", "type")), VAL, max_size=4)); d["name"] = n; d["type"] = draw(WORD); defs.append(d)
    use = list(range(len(defs))) if draw(st.booleans()) else [draw(st.integers(0, len(defs) - 1)) for _ in range(draw(st.integers(1, 10)))]
    c = {"top": top, "els": [defs[i] for i in use], "shuf": draw(st.integers(0, 10 ** 6)), "form": draw(st.sampled_from(["dict", "list", "both"]))}
    if chance(draw, 0.03): c["els"] = c["els"] * draw(st.integers(10, 40))
    if draw(st.booleans()): c["top"]["name"] = draw(WORD)
    return c

def close(g, w):
    if w == 0: return g == 0
    p = float("%.6g" % w) if abs(w) < 1.79768e308 else float("1.79769e308") * (1 if w > 0 else -1)
    return g == w or abs(g - w) <= abs(p - w) * 1.0000001

def same(got, want, what):
    if isinstance(want, str):
        if not isinstance(got, str) or got != want: fail("%s is %r after printing and parsing, expected %r", what, got, want)
    elif isinstance(want, (list, np.ndarray)):
        if not isinstance(got, np.ndarray) or got.shape != (len(want),): fail("%s is %r after printing and parsing, expected %r", what, got, want)
        for i in range(len(want)):
            if not close(float(got[i]), float(want[i])): fail("%s[%d] is %r after printing and parsing, expected %r", what, i, got[i], want[i])
    else:
        if not isinstance(got, float) or not close(got, want): fail("%s is %r after printing and parsing, expected %r", what, got, want)

def run(case, env):
    import flame
    P = flame.GLPSParser()
    if "prog" in case:
        try: w = genlat.evaluate(case["prog"])
        except (genlat.LatErr, genlat.Ambiguous): return False, ["discarded"]
        conf = P.parse(genlat.layout(case["prog"], case["seed"])[0].encode())
        flat = [v for d in [dict(conf)] + [dict(e) for e in dict(conf)["elements"]] for k, v in d.items() if k != "elements"]
        if any((isinstance(v, float) and not math.isfinite(v)) or (isinstance(v, np.ndarray) and not np.all(np.isfinite(v))) for v in flat): return False, ["discarded"]
        top = {k: v for k, v in conf if k != "elements"}; els = [dict(e) for e in dict(conf)["elements"]]; forms = [conf, dict(conf)]
    else:
        top, els = case["top"], case["els"]; r = random.Random(case["shuf"])
        arr = lambda d: {k: np.array(v, float) if isinstance(v, list) else v for k, v in d.items()}
        d = dict(arr(top), elements=[arr(e) for e in els]); l = list(d.items()); r.shuffle(l)
        l2 = [(k, [list(x.items()) for x in v] if k == "elements" else v) for k, v in l]
        forms = {"dict": [dict(l)], "list": [l2], "both": [d, l2]}[case["form"]]
    texts = [flame.GLPSPrinter(f) for f in forms]
    if any(t != texts[0] for t in texts): fail("the same configuration in two forms prints differently:\n%s\n---\n%s", texts[0], texts[1])
    try: got = P.parse(texts[0].encode())
    except Exception as e: fail("printed text does not parse: %s: %s\n%s", type(e).__name__, e, texts[0])
    g = dict(got); want = dict(top); want.setdefault("name", g.get("name"))
    if set(g) != set(want) | {"elements"}: fail("after printing and parsing there are %s, expected %s\n%s", sorted(g), sorted(want), texts[0])
    for k, v in want.items(): same(g[k], v, k)
    if len(g["elements"]) != len(els): fail("%d elements after printing and parsing, expected %d", len(g["elements"]), len(els))
    for i, (a, b) in enumerate(zip(g["elements"], els)):
        a = dict(a)
        if set(a) != set(b): fail("element %d has %s after printing and parsing, expected %s", i, sorted(a), sorted(b))
        for k, v in b.items(): same(a[k], v, "element %d %s" % (i, k))
    t2 = flame.GLPSPrinter(got)
    if t2 != texts[0] and "name" in top: fail("printing the parsed text gives another text:\n%s\n---\n%s", texts[0], t2)
    t3 = flame.GLPSPrinter(P.parse(t2.encode()))
    if t3 != t2: fail("printing the parsed text gives another text:\n%s\n---\n%s", t2, t3)
    return len(els) > 1 or len(top) > 0, ["program" if "prog" in case else case["form"], "collision" if set(top) & {e["name"] for e in els} else "distinct names"]

CHECKS = [Check("roundtrip", strat, run, 5000, 150000)]
