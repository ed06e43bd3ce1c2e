"""Builds the code under test from /repo's working tree into /verif/build (ignored by git)."""
import fcntl, os, shutil, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/usr/bin/python3"
NJ = os.environ.get("VERIF_JOBS", "8")

TSAN_FLAGS = "-fsanitize=thread -fno-omit-frame-pointer"
ASAN_FLAGS = "-fsanitize=address,undefined -fno-sanitize=vptr,enum,float-divide-by-zero,float-cast-overflow -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS"

class BuildError(Exception):
    pass

def _run(cmd, cwd=None, env=None, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode("utf-8", "replace")[-6000:])
        raise BuildError("%s failed (rc=%d): %s" % (what or "command", p.returncode, cmd))
    return p.stdout.decode("utf-8", "replace")

def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def _mirror():
    """Bring /verif/build/src to the content of /repo's working tree.  Only files whose content differs
    are rewritten, so that the build is incremental yet never trusts /repo's timestamps."""
    dst = os.path.join(BUILD, "src"); want = set()
    for d, subs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        subs[:] = [x for x in subs if x not in (".git", "__pycache__") and not (rel == "." and x == "_build")]
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for n in files:
            r = os.path.normpath(os.path.join(rel, n)); want.add(r)
            a, b = os.path.join(REPO, r), os.path.join(dst, r)
            if os.path.islink(a):
                if not (os.path.islink(b) and os.readlink(a) == os.readlink(b)):
                    if os.path.lexists(b): os.remove(b)
                    os.symlink(os.readlink(a), b)
                continue
            data = open(a, "rb").read()
            if os.path.isfile(b) and not os.path.islink(b) and open(b, "rb").read() == data: continue
            if os.path.lexists(b): os.remove(b)
            with open(b, "wb") as f: f.write(data)
            shutil.copymode(a, b)
    for d, subs, files in os.walk(dst):
        for n in files:
            r = os.path.normpath(os.path.join(os.path.relpath(d, dst), n))
            if r not in want: os.remove(os.path.join(dst, r))
    return dst

def build_flame(flavour="rel"):
    """Configure with the repository's own CMake files and build everything.
    flavour rel : the flags of /opt/vp/build.sh;  asan : with Address/UB sanitizers;
    tsan : the core library with the thread sanitizer."""
    bdir = os.path.join(BUILD, "flame-" + flavour)
    with _lock():
        src = _mirror()
        env = dict(os.environ, CC="gcc", CXX="g++", PYTHONDONTWRITEBYTECODE="1")
        if not os.path.exists(os.path.join(bdir, "build.ninja")):
            shutil.rmtree(bdir, ignore_errors=True)
            extra = []
            btype = "RelWithDebInfo"
            if flavour == "tsan":
                extra = ["-DCMAKE_C_FLAGS=-O1 -g1 " + TSAN_FLAGS, "-DCMAKE_CXX_FLAGS=-O1 -g1 " + TSAN_FLAGS,
                         "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-DNDEBUG", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-DNDEBUG"]
            if flavour == "asan":
                extra = ["-DCMAKE_C_FLAGS=-O1 -g1 " + ASAN_FLAGS, "-DCMAKE_CXX_FLAGS=-O1 -g1 " + ASAN_FLAGS,
                         "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-DNDEBUG", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-DNDEBUG"]
            _run(["cmake", "-S", src, "-B", bdir, "-G", "Ninja", "-Wno-dev",
                  "-DCMAKE_BUILD_TYPE=" + btype, "-DPYTHON_EXECUTABLE=" + PY, "-DNEED_PYTHON=ON",
                  "-DUSE_HDF5=ON", "-DHDF5_CXX_INCLUDE_DIR=/usr/include/hdf5/serial",
                  "-DCMAKE_PROJECT_INCLUDE=/opt/vp/cmake/python-module.cmake"] + extra, env=env, what="cmake")
        if flavour == "asan":
            # importing the instrumented module at build time (if any) needs the runtime
            env["ASAN_OPTIONS"] = "detect_leaks=0"
        # only the core library is used with the thread sanitizer
        _run(["ninja", "-j", NJ, "-C", bdir] + (["flame_core"] if flavour == "tsan" else []), env=env, what="ninja")
    return bdir

def pydir(bdir):
    return os.path.join(bdir, "python")

def cli(bdir):
    for n in ("run_flame", "flame"):
        p = os.path.join(bdir, "tools", n)
        if os.path.exists(p):
            return p
    raise BuildError("no command line tool in " + bdir)

def core_lib(bdir):
    c = glob.glob(os.path.join(bdir, "src", "libflame_core*.so*")) + glob.glob(os.path.join(bdir, "src", "libflame_core.a"))
    if not c:
        raise BuildError("no core library in " + bdir)
    return sorted(c, key=len)[0]

def build_harness(name, bdir, flavour="rel", libs=(), shared=False):
    """Compile /verif/cxx/<name>.cpp against the repository headers and the core library just built."""
    src = os.path.join(VERIF, "cxx", name + ".cpp")
    out = os.path.join(bdir, "verif_" + name + (".so" if shared else ""))
    with _lock():
        flags = ["-std=gnu++14", "-O1", "-g1", "-w", "-DUSE_HDF5", "-DNDEBUG", "-DBOOST_ALLOW_DEPRECATED_HEADERS"]
        if shared:
            flags += ["-shared", "-fPIC"]
        if flavour == "asan":
            flags += ASAN_FLAGS.split()
        if flavour == "tsan":
            flags += TSAN_FLAGS.split()
        _run(["g++"] + flags + ["-I" + os.path.join(BUILD, "src", "src"), "-I" + os.path.join(bdir, "src"),
              "-I/usr/include/hdf5/serial", src, "-o", out, core_lib(bdir), "-Wl,-rpath," + os.path.join(bdir, "src"),
              "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5",
              "-lboost_thread", "-lboost_system", "-lboost_filesystem"] + list(libs), what="harness " + name)
    return out

def asan_preload():
    """libasan, and libstdc++ so that its exception hooks resolve in a C program (python)"""
    f = lambda n: os.path.realpath(subprocess.check_output(["gcc", "-print-file-name=" + n]).decode().strip())
    return f("libasan.so") + " " + f("libstdc++.so.6")
