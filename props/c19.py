"""C19: HDF5 output of states equals the states; HDF5 arrays are loaded as stored."""
import ctypes, os, shutil
from hypothesis import strategies as st
import numpy as np
import build, cmp, gen, gencav, hist
from core import Check, fail
from gen import chance

TECHNIQUE = "model-based stateful property testing (Hypothesis): histories of open/append/attribute/close on H5StateWriter and arrays stored by h5py loaded with H5Loader, compared with states of the Python module and with h5py, in release and AddressSanitizer builds"
RULE = "writer: at least two states were recorded, and several charge states, files or groups occur; loader: the array has at least two elements or must be refused"
ASSUMPTIONS = ["no other process uses the files", "a writer that reported an error is opened again before it is used"]

FILES = ["a.h5", "sub/b.h5", "sub/c.d/c.h5"]
GROUPS = ["", "", "g", "h", "g/k", "new one"]
PFX = ["", "./", "ABS"]

def prepare(bdirs): return {b: build.build_harness("h5_ops", b, f, shared=True) for f, b in bdirs.items()}

def lib(env):
    import flame
    if "h5" not in env.cache:
        L = ctypes.PyDLL(env.extras[env.bdir]); P = ctypes.c_void_p; C = ctypes.c_char_p; Z = ctypes.c_size_t
        for n, a in {"h5_machine": [C, Z, P], "h5_state": [P, P], "h5_prop": [P, P, Z, ctypes.c_int], "h5_new": [C, P], "h5_open": [P, C], "h5_prepare": [P, P], "h5_append": [P, P], "h5_attr": [P, C, C], "h5_close": [P], "h5_load": [C, C, P, P, P]}.items():
            f = getattr(L, n); f.argtypes = a; f.restype = P
        for n in ("h5_free_machine", "h5_free_state", "h5_free_writer", "h5_free"): getattr(L, n).argtypes = [P]; getattr(L, n).restype = None
        L.h5_init(); env.cache["h5"] = L
    return env.cache["h5"]

def call(L, f, *a):
    """None or the error text"""
    p = getattr(L, f)(*a)
    if not p: return None
    s = ctypes.string_at(p).decode("utf-8", "replace"); L.h5_free(p)
    if s == "FOREIGN EXCEPTION": fail("%s%s ends in an exception that is no std::exception", f, a)
    return s

# ---- writer
@st.composite
def writer_case(draw):
    lats = []
    if chance(draw, 0.25): c = draw(hist.linear_lattice(nmax=4)); lats.append({"g": c["g"], "els": c["els"], "sim": c["sim"]})
    else:
        for _ in range(draw(st.integers(1, 2))):
            c = draw(hist.moment_lattice(nmax=3, cav=0.1, broken=0)); els = c["els"]
            if chance(draw, 0.4): els.append(draw(gencav.stripper(c["g"])))
            lats.append({"g": c["g"], "els": gen.named([{k: v for k, v in e.items() if k != "name"} for e in els]), "sim": "MomentMatrix"})
    spec = st.tuples(st.sampled_from(PFX), st.sampled_from(FILES), st.sampled_from(GROUPS))
    step = st.tuples(st.just("append"), st.integers(0, 1), st.sampled_from([1, 1, 1, 0, 2])); re = st.tuples(st.just("restart"), st.integers(0, 1))
    attr = st.tuples(st.just("attr"), st.sampled_from(["sim_type", "x", "a longer name of an attribute"]), st.sampled_from(["", "v", "exactly16 letter", "MomentMatrix", "a text of more than sixteen letters \u00e9"]))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.integers(0, 11)): ops.append(("open", list(draw(spec))))
        if not draw(st.integers(0, 5)): ops.append(("prepare",))
        ops += draw(st.lists(st.one_of(step, step, step, step, step, re, attr), min_size=1, max_size=8))
        ops += draw(st.sampled_from([[], [], [("close",)], [("again",)], [("again",)]]))
    ops = [list(o) for o in ops]
    if chance(draw, 0.05):          # longer than a storage chunk (1024 records)
        k = draw(st.integers(1, len(ops))); ops[k:k] = [["many", draw(st.integers(0, 1)), draw(st.sampled_from([1022, 1024, 1030, 2050]))]]
    return {"lats": lats, "ops": ops, "old": draw(st.booleans()), "ctor": draw(st.booleans())}

class Sim:
    def __init__(self, lat, env, L):
        import flame
        self.L = L; c = gencav.materialize({"g": lat["g"], "els": lat["els"]}, env); t = gen.text(c, lat["sim"]).encode()
        self.M = flame.Machine(t); m = ctypes.c_void_p(); e = call(L, "h5_machine", t, len(t), ctypes.byref(m))
        if e: fail("machine: %s", e)
        self.m = m; self.s = None; self.n = len(self.M)
    def restart(self):
        self.free(); self.S = self.M.allocState(); s = ctypes.c_void_p(); e = call(self.L, "h5_state", self.m, ctypes.byref(s))
        if e: fail("state: %s", e)
        self.s = s; self.at = 0
    def step(self, k):
        err, _ = hist.propagate(self.M, self.S, self.at, k); e = call(self.L, "h5_prop", self.m, self.s, self.at, k)
        if bool(err) != bool(e): fail("propagation: %s and %s", err, e)
        self.at += k; return err
    def free(self):
        if self.s: self.L.h5_free_state(self.s); self.s = None

def specof(sp, root): return {"": "", "./": "./", "ABS": root + "/"}[sp[0]] + sp[1] + ("/" + sp[2] if sp[2] else "")

def check_group(h, rows, attrs, names, what):
    """names: None if nothing was prepared; rows: list of snapshots"""
    import h5py
    for a, v in attrs.items():
        got = h.attrs.get(a)
        if got is None: fail("%s: attribute %s is missing", what, a)
        got = bytes(got) if isinstance(got, (bytes, np.bytes_)) else str(got).encode()
        if got.rstrip(b"\0") != v.encode(): fail("%s: attribute %s is %r, set to %r", what, a, got, v)
    have = sorted(n for n in h if isinstance(h[n], h5py.Dataset))
    if names is None:
        if have: fail("%s: datasets %s although nothing was written", what, have)
        return
    if have != sorted(names): fail("%s: datasets %s, state has %s", what, have, sorted(names))
    for n in have:
        d = h[n]; v = d[()]
        if v.shape[0] != len(rows): fail("%s: %s has %d rows, %d states were recorded", what, n, v.shape[0], len(rows))
        if rows:
            nd = rows[0][n].ndim
            if v.ndim != nd + 1: fail("%s: %s has %d dimensions", what, n, v.ndim)
            want = tuple(max(r[n].shape[k] for r in rows) for k in range(nd))
            if any(x < y for x, y in zip(v.shape[1:], want)): fail("%s: %s has the shape %s, needed are rows of %s", what, n, v.shape, want)
        last = x = None
        for i, r in enumerate(rows):
            if r is not last: last = r; x = np.zeros(v.shape[1:]); x[tuple(slice(0, k) for k in r[n].shape)] = r[n]
            if not np.array_equal(np.asarray(v[i], float), x, equal_nan=True): fail("%s: %s of record %d is\n%s\nthe state had\n%s", what, n, i, v[i], x)

def writer_run(case, env):
    import h5py
    L = lib(env); env.n += 1; root = env.tmp("w%d" % env.n); os.makedirs(root + "/sub/c.d"); os.chdir(root)
    sims = []; w = ctypes.c_void_p()
    try:
        for lat in case["lats"]: sims.append(Sim(lat, env, L)); sims[-1].restart()
    except (RuntimeError, ValueError, KeyError): return False, ["no machine"]
    files = {}            # file -> group -> [rows, attrs, names, doubt]
    if case["old"]:
        with h5py.File(root + "/a.h5", "w") as f:
            f.create_dataset("g/pos", data=np.arange(5.0)); f.create_dataset("g/old", data=np.arange(3.0)); f["other/deep/x"] = np.arange(4.0); f["other"].attrs["y"] = 1.5
    def verify(what):
        if case["old"]:
            with h5py.File(root + "/a.h5", "r") as f:
                if not np.array_equal(f["other/deep/x"][()], np.arange(4.0)) or f["other"].attrs["y"] != 1.5: fail("%s: another group of the file changed", what)
        for fn, gs in files.items():
            with h5py.File(os.path.join(root, fn), "r") as f:
                for g, (rows, attrs, names, doubt) in gs.items():
                    if doubt: continue
                    if g and g not in f: fail("%s: no group %s in %s", what, g, fn)
                    check_group(f[g or "/"], rows, attrs, names, "%s: %s/%s" % (what, fn, g))
    cur = None; opened = False; broken = False; labels = set(); total = 0; interesting = len(case["lats"]) > 1
    def opening(sp, how, what):
        nonlocal cur, broken, opened
        e = how(specof(sp, root).encode()); f, g = sp[1], sp[2]; labels.add("open group" if g else "open file")
        if e:
            if "/" in g and "g" not in files.get(f, {}) and not (case["old"] and f == "a.h5"): cur = None; broken = True; return    # a parent group is missing
            fail("%s: can't open %s: %s", what, specof(sp, root), e)
        old = files.setdefault(f, {}); opened = True
        if g:
            for k in list(old):
                if k == g or k.startswith(g + "/"): del old[k]        # a group that exists is replaced
            cur = old[g] = [[], {}, None, False]
        else: cur = old.setdefault("", [[], {}, None, False])
        broken = g == "" and cur[2] is not None                        # datasets are there already: refused when appending
        return
    try:
        ops = list(case["ops"])
        if case["ctor"] and ops and ops[0][0] == "open":
            sp = ops.pop(0)[1]; opening(sp, lambda s: call(L, "h5_new", s, ctypes.byref(w)), "constructor")
            if not w: return False, ["missing parent"]
        else:
            e = call(L, "h5_new", None, ctypes.byref(w))
            if e: fail("new writer: %s", e)
        closed = cur is None
        for k, o in enumerate(ops):
            what = "operation %d of %s" % (k, ops)
            if o[0] == "open":
                if cur is not None: interesting = True
                opening(o[1], lambda s: call(L, "h5_open", w, s), what); closed = cur is None; continue
            if o[0] == "again":
                # closing and reading in between
                e = call(L, "h5_close", w); closed = True; cur = None
                if e: fail("%s: close: %s", what, e)
                verify(what); labels.add("read after close"); continue
            if o[0] == "close":
                e = call(L, "h5_close", w)
                if e: fail("%s: close: %s", what, e)
                closed = True; cur = None; continue
            if o[0] == "restart": sims[o[1] % len(sims)].restart(); continue
            if o[0] == "attr":
                e = call(L, "h5_attr", w, o[1].encode(), o[2].encode())
                if closed:
                    if not e: fail("%s: attribute accepted without an open file", what)
                elif e: fail("%s: %s", what, e)
                else: cur[1][o[1]] = o[2]
                continue
            s = sims[(o[1] if o[0] in ("append", "many") else 0) % len(sims)]
            if o[0] == "many":
                snap = cmp.snap(s.S); es = {call(L, "h5_append", w, s.s) for _ in range(o[2])}
                if closed or broken:
                    if None in es: fail("%s: states were accepted %s", what, "without an open file" if closed else "although its datasets exist")
                    continue
                if es != {None}: fail("%s: %s", what, es)
                cur[0].extend([snap] * o[2]); cur[2] = sorted(snap); total += o[2]; interesting = True; labels.add("more than 1000 records"); continue
            if o[0] == "prepare":
                if cur is not None and cur[2] is not None: continue
                e = call(L, "h5_prepare", w, s.s)
                if closed:
                    if not e: fail("%s: accepted without an open file", what)
                elif e and not broken: fail("%s: %s", what, e)
                elif not e: cur[2] = list(s.S)
                continue
            if o[2] and s.step(o[2]): s.restart(); continue
            e = call(L, "h5_append", w, s.s)
            if closed or broken:
                if not e: fail("%s: a state was accepted %s", what, "without an open file" if closed else "although its datasets exist")
                labels.add("refused"); continue
            if e: fail("%s: %s", what, e)
            snap = cmp.snap(s.S); cur[0].append(snap); cur[2] = sorted(snap); total += 1
            if len(cur[0]) > 1 and any(a[n].shape != snap[n].shape for a in cur[0] for n in snap): labels.add("charge states change"); interesting = True
            if any(v.ndim and v.shape[-1] > 1 for n, v in snap.items() if n == "IonEk"): interesting = True; labels.add("several charge states")
        e = call(L, "h5_close", w)
        if e: fail("close: %s", e)
        verify("at the end")
    finally:
        if w: L.h5_free_writer(w)
        for s in sims: s.free(); L.h5_free_machine(s.m)
        os.chdir(env.scratch); shutil.rmtree(root, ignore_errors=True)
    return total > 1 and interesting, sorted(labels)

# ---- loader
TYPES = ["<f8", "<f4", ">f8", "<i4", "<i8", "<u2", ">i2", "<u8", "<f2", "S5", "vlen", "compound", "bool", "null"]

@st.composite
def loader_case(draw):
    nd = draw(st.sampled_from([2, 2, 2, 1, 0, 3])); shape = [draw(st.sampled_from([1, 2, 3, 5, 8, 0, 40])) for _ in range(nd)]
    return {"shape": shape, "type": draw(st.sampled_from(TYPES[:4] + TYPES)), "seed": draw(st.integers(0, 10 ** 6)), "chunk": draw(st.sampled_from(["no", "yes", "gzip", "transposed"])),
            "group": draw(st.sampled_from(["", "g", "g/h", "g h"])), "name": draw(st.sampled_from(["d", "sub/d", "a.b", "d\u00e9"])), "pfx": draw(st.sampled_from(PFX)), "file": draw(st.sampled_from(FILES)),
            "ask": draw(st.sampled_from(["ok"] * 8 + ["no set", "no group", "no file", "set as group", "group as set", "not hdf5", "directory", "empty name", "slash"]))}

def loader_run(case, env):
    import h5py
    L = lib(env); env.n += 1; root = env.tmp("l%d" % env.n); os.makedirs(root + "/sub/c.d"); os.chdir(root)
    try:
        r = np.random.RandomState(case["seed"]); sh = tuple(case["shape"]); t = case["type"]; good = len(sh) <= 2
        x = r.randint(0, 60000, sh) if t[1:] in ("u2", "u8") else r.randint(-30000, 30000, sh) if "i" in t and t != "bool" else r.uniform(-1, 1, sh) * 10 ** float(r.randint(-3, 4))
        if t == "bool": x = np.asarray(x) > 0; good = False
        fn = root + "/" + case["file"]; path = (case["group"] + "/" if case["group"] else "") + case["name"]
        with h5py.File(fn, "w") as f:
            kw = {} if case["chunk"] in ("no", "transposed") or not sh or 0 in sh else dict(chunks=True, compression="gzip" if case["chunk"] == "gzip" else None)
            if t == "S5": f.create_dataset(path, data=np.full(sh, b"abc", "S5")); good = False
            elif t == "vlen": f.create_dataset(path, sh, dtype=h5py.string_dtype()); good = False
            elif t == "compound": f.create_dataset(path, sh, dtype=[("a", "f8"), ("b", "i4")]); good = False
            elif t == "null": f.create_dataset(path, data=h5py.Empty("f8")); good = False
            else:
                x = np.asarray(x).astype(t if t != "bool" else bool)
                f.create_dataset(path, data=np.asfortranarray(x) if case["chunk"] == "transposed" else x, **kw)
            f.require_group("empty")
        spec = {"": "", "./": "./", "ABS": root + "/"}[case["pfx"]] + case["file"] + ("/" + case["group"] if case["group"] else ""); name = case["name"]; a = case["ask"]
        if a == "no set": name = "nosuch"
        elif a == "no group": spec += "/nosuch"
        elif a == "no file": spec = spec.replace(".h5", ".no")
        elif a == "set as group": spec += "/" + name; name = "x"
        elif a == "group as set": name = "empty" if not case["group"] else "."
        elif a == "not hdf5": open(fn, "w").write("not hdf5\n" * 100)
        elif a == "directory": spec = case["pfx"].replace("ABS", root + "/") + "sub"
        elif a == "empty name": name = ""
        elif a == "slash" and case["group"]: spec += "/"
        if a not in ("ok", "slash"): good = False
        m, n, d = ctypes.c_size_t(), ctypes.c_size_t(), ctypes.c_void_p()
        e = call(L, "h5_load", spec.encode(), name.encode(), ctypes.byref(m), ctypes.byref(n), ctypes.byref(d)); what = "loading %s from %s (%s)" % (name, spec, case)
        if t == "bool" and len(sh) <= 2 and a in ("ok", "slash"): good = e is None               # an enumeration: either way
        if a == "slash" and e: good = False
        if not good:
            if e is None: fail("%s succeeds with %d x %d", what, m.value, n.value)
            return True, ["refused: " + (a if a != "ok" else t if len(sh) < 3 else "3d")]
        if e: fail("%s: %s", what, e)
        want = np.asarray(x, float).reshape((sh + (1, 1))[:2])
        got = np.array(ctypes.cast(d, ctypes.POINTER(ctypes.c_double))[:m.value * n.value]).reshape(m.value, n.value); L.h5_free(d)
        if got.shape != want.shape: fail("%s: %s, stored %s", what, got.shape, want.shape)
        if not np.array_equal(got, want): fail("%s: values differ: %s, stored %s", what, got, want)
        return want.size > 1, ["%dd" % len(sh), t]
    finally: os.chdir(env.scratch); shutil.rmtree(root, ignore_errors=True)

CHECKS = [Check("writer", writer_case, writer_run, 3000, 60000), Check("writer-asan", writer_case, writer_run, 800, 10000, flavour="asan"), Check("loader", loader_case, loader_run, 3000, 60000, flavour="asan")]
