"""Builds libmpart, the conformance drivers and the TLC float primitives from /repo's working tree.

/repo's sources are first mirrored by content into build/mirror, so a file is recompiled exactly when
its content (or that of something it includes) changed since the last build, whatever its mtime says.
Nothing is written in /repo."""
import fcntl, filecmp, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
MIRROR = os.path.join(BUILD, "mirror")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/mpart-venv/bin/python3"
PYDIR = os.path.join(BUILD, "py")             # on PYTHONPATH: the package mpart, built from /repo/bindings
DEFS = "-DKOKKOS_DEPENDENCE -DMPART_HAS_CEREAL -DMPART_HAS_NLOPT -DNLOPT_DLL -DKOKKOS_ENABLE_CXX17"
LIBS = ("-lnlopt -lkokkoscontainers -lkokkoscore -lhwloc -lmemkind -ldl -lm")


class BuildError(Exception):
    pass


def _mirror(src, dst):
    """Make dst an exact copy of src, touching only files whose content differs."""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if not d.startswith("."))
        rel = os.path.relpath(root, src)
        out = os.path.join(dst, rel) if rel != "." else dst
        os.makedirs(out, exist_ok=True)
        for f in files:
            s, d = os.path.join(root, f), os.path.join(out, f)
            want.add(os.path.abspath(d))
            if os.path.islink(s) and not os.path.exists(s):
                continue
            if not os.path.exists(d) or not filecmp.cmp(s, d, shallow=False):
                shutil.copyfile(s, d)          # mtime is now, so ninja sees the change
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.abspath(os.path.join(root, f))
            if p not in want:
                os.unlink(p)


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(MIRROR, "src")):
        for f in sorted(files):
            if f.endswith(".cpp") and f != "DebugMap.cpp":
                out.append(os.path.join(root, f))
    return sorted(out)


def _write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def _ninja():
    hdir = os.path.join(VERIF, "harness")
    drivers = sorted(f[:-4] for f in os.listdir(hdir) if f.startswith("drv_") and f.endswith(".cpp"))
    n = [
        "builddir = %s" % BUILD,
        "cxx = g++ -std=gnu++17 -fopenmp -fPIC %s -isystem /usr/include/eigen3 -I%s" % (DEFS, MIRROR),
        "rule lib_cc\n  command = $cxx -O1 -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
        "rule drv_cc\n  command = $cxx -O1 -I%s -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % hdir,
        "rule solink\n  command = g++ -fopenmp -shared -Wl,-soname,libmpart.so -o $out $in %s" % LIBS,
        "rule link\n  command = g++ -fopenmp -o $out $in -L%s -lmpart -Wl,-rpath,%s %s" % (BUILD, BUILD, LIBS),
        "rule javac\n  command = mkdir -p %s/java && javac -cp %s -d %s/java $in && touch $out" % (BUILD, JARS, BUILD),
    ]
    objs = []
    for s in _sources():
        o = os.path.join(BUILD, "obj", os.path.relpath(s, MIRROR).replace("/", "_") + ".o")
        objs.append(o)
        n.append("build %s: lib_cc %s" % (o, s))
    lib = os.path.join(BUILD, "libmpart.so")
    n.append("build %s: solink %s" % (lib, " ".join(objs)))
    for d in drivers:
        o = os.path.join(BUILD, "obj", d + ".o")
        n.append("build %s: drv_cc %s" % (o, os.path.join(hdir, d + ".cpp")))
        n.append("build %s: link %s | %s" % (os.path.join(BUILD, d), o, lib))
        n.append("build %s: phony %s" % (d, os.path.join(BUILD, d)))
    bind = os.path.join(MIRROR, "bindings")
    n.append("rule py_cc\n  command = $cxx -O1 -fvisibility=default -I%s/python/include -I%s/common/include -isystem /usr/include/python3.12 -MD -MF $out.d -c $in -o $out\n"
             "  depfile = $out.d\n  deps = gcc" % (bind, bind))
    pobjs = []
    for d in ("python/src", "common/src"):
        for f in sorted(os.listdir(os.path.join(bind, d))):
            if f.endswith(".cpp") and f != "DebugMap.cpp":
                o = os.path.join(BUILD, "obj", "py_" + f + ".o"); pobjs.append(o)
                n.append("build %s: py_cc %s" % (o, os.path.join(bind, d, f)))
    n.append("rule pylink\n  command = g++ -fopenmp -shared -o $out $in -L%s -lmpart -Wl,-rpath,%s %s" % (BUILD, BUILD, LIBS))
    mod = os.path.join(PYDIR, "mpart", "pympart.cpython-312-x86_64-linux-gnu.so")
    n.append("build %s: pylink %s | %s" % (mod, " ".join(pobjs), lib))
    n.append("build pympart: phony %s" % mod)
    n.append("build %s/java.stamp: javac %s" % (BUILD, os.path.join(VERIF, "java/vf/FloatOverrides.java")))
    n.append("build java: phony %s/java.stamp" % BUILD)
    n.append("build all: phony java pympart %s" % " ".join(drivers))
    _write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(n) + "\n")


def _package():
    """The Python files of the package, next to the extension module."""
    src, dst = os.path.join(MIRROR, "bindings", "python", "package"), os.path.join(PYDIR, "mpart")
    os.makedirs(dst, exist_ok=True)
    want = set(f for f in os.listdir(src) if f.endswith(".py"))
    for f in os.listdir(dst):
        if f.endswith(".py") and f not in want:
            os.unlink(os.path.join(dst, f))
    for f in want:
        s, d = os.path.join(src, f), os.path.join(dst, f)
        if not os.path.exists(d) or not filecmp.cmp(s, d, shallow=False):
            shutil.copyfile(s, d)


def build(targets=("all",)):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        for d in ("MParT", "src"):
            _mirror(os.path.join(REPO, d), os.path.join(MIRROR, d))
        for d in ("python/include", "python/src", "common", "python/package"):
            _mirror(os.path.join(REPO, "bindings", d), os.path.join(MIRROR, "bindings", d))
        _ninja()
        env = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
        r = subprocess.run(["ninja", "-C", BUILD, "-j", "8"] + list(targets), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode != 0:
            raise BuildError("build failed\n" + r.stdout[-6000:])
        _package()
        return time.time() - t0


if __name__ == "__main__":
    print("built in %.1f s" % build(sys.argv[1:] or ("all",)))
