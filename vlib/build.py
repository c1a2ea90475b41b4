"""Out-of-tree builds of /repo's *current working tree*.

build(variant) returns the directory that holds an importable `pycold` package:
a copy of the Python sources of /repo/src/python/pycold plus the extension
module compiled from /repo/src/cxx and the .pyx.  Nothing is written in /repo.
Results are cached under /verif/build by a hash over everything that goes in,
so a changed tree always gets a new build.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import time
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
VENV = "/opt/pycold-venv"
EXT = "_colds_cython.cpython-312-x86_64-linux-gnu.so"

BASE = ["-g", "-DNDEBUG", "-fPIC", "-w"]
VARIANTS = {
    # name: (cflags, fflags, linkflags)
    "rel": (["-O2"], ["-O2"], []),
    # automatic variables poisoned: a read of an uninitialised one is visible
    "pattern": (["-O2", "-ftrivial-auto-var-init=pattern"], ["-O2"], []),
    "asan": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
              "-fno-sanitize=alignment,shift,float-cast-overflow,signed-integer-overflow", "-fno-omit-frame-pointer"],
             ["-O1"], ["-fsanitize=address,undefined"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _cxx_sources(cxx):
    """The C sources of the sccd library, from its CMakeLists (first list)."""
    txt = _read(os.path.join(cxx, "CMakeLists.txt")).decode()
    m = re.search(r"list\(APPEND\s+sccd_sources\s+([^)]*)\)", txt)
    if m:
        names = re.findall(r'"([^"]+\.c)"', m.group(1))
    else:
        names = []
    if not names:
        names = ["cold.c", "input.c", "2d_array.c", "utilities.c", "misc.c", "multirobust.c",
                 "output.c", "s_ccd.c", "KFAS.c", "lbfgs.c", "distribution_math.c"]
    return names


def tree_hash(variant, native_only=False):
    h = hashlib.sha256()
    h.update(variant.encode())
    h.update(repr(VARIANTS[variant]).encode())
    dirs = [os.path.join(REPO, "src/cxx")]
    files = []
    for d in dirs:
        for n in sorted(os.listdir(d)):
            if n.endswith((".c", ".h", ".f", ".txt")):
                files.append(os.path.join(d, n))
    pk = os.path.join(REPO, "src/python/pycold")
    for base, sub, names in os.walk(pk):
        sub.sort()
        sub[:] = [s for s in sub if s != "__pycache__"]
        for n in sorted(names):
            p = os.path.join(base, n)
            if native_only and not n.endswith((".pyx", ".pxd")):
                continue
            if n.endswith((".py", ".pyx", ".pxd", ".yaml", ".txt", ".tif")):
                files.append(p)
    for p in files:
        h.update(p.encode())
        h.update(b"\0")
        h.update(_read(p))
        h.update(b"\0")
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _native(variant, out):
    cfl, ffl, lfl = VARIANTS[variant]
    cxx = os.path.join(REPO, "src/cxx")
    pk = os.path.join(REPO, "src/python/pycold")
    obj = os.path.join(out, "obj")
    # same relative depth as in the repository: the .pyx names ../../cxx/*.h
    gen_dir = os.path.join(out, "src/python/pycold")
    os.makedirs(obj)
    os.makedirs(gen_dir)
    os.symlink(cxx, os.path.join(out, "src/cxx"))
    gen = os.path.join(gen_dir, "_colds_cython.c")
    npinc = VENV + "/lib/python3.12/site-packages/numpy/core/include"

    def cc(src):
        o = os.path.join(obj, os.path.basename(src) + ".o")
        _run(["gcc"] + cfl + BASE + ["-c", src, "-o", o])
        return o

    def fc(src):
        o = os.path.join(obj, "GLMnet.o")
        _run(["gfortran"] + ffl + ["-g", "-fPIC", "-w", "-c", src, "-o", o], cwd=obj)
        return o

    def cy():
        # cython picks up common.py etc. only at run time; the .pyx is enough
        _run([VENV + "/bin/cython", os.path.join(pk, "_colds_cython.pyx"), "--output-file", gen])
        o = os.path.join(obj, "cy.o")
        _run(["gcc"] + cfl + BASE + ["-DNPY_NO_DEPRECATED_API", "-I" + npinc,
                                     "-I/usr/include/python3.12", "-I" + pk, "-c", gen, "-o", o])
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(cy)]
        futs += [ex.submit(cc, os.path.join(cxx, n)) for n in _cxx_sources(cxx)]
        futs.append(ex.submit(fc, os.path.join(cxx, "GLMnet.f")))
        objs = [f.result() for f in futs]
    _run(["gcc", "-shared"] + lfl + objs + ["-o", os.path.join(out, EXT), "-Wl,-Bsymbolic",
          "-lgsl", "-lgslcblas", "-lgfortran", "-lquadmath", "-lz", "-lm"])
    shutil.rmtree(obj)
    return objs


def build(variant="rel"):
    """-> path to put on sys.path"""
    os.makedirs(BUILD, exist_ok=True)
    nkey = tree_hash(variant, native_only=True)
    key = tree_hash(variant)
    dest = os.path.join(BUILD, "pkg-%s-%s" % (variant, key))
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            os.utime(dest)
            return dest
        nat = os.path.join(BUILD, "nat-%s-%s" % (variant, nkey))
        if not os.path.exists(os.path.join(nat, "ok")):
            shutil.rmtree(nat, ignore_errors=True)
            os.makedirs(nat)
            _native(variant, nat)
            open(os.path.join(nat, "ok"), "w").close()
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        pk = os.path.join(REPO, "src/python/pycold")
        shutil.copytree(pk, os.path.join(dest, "pycold"),
                        ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.zip"))
        shutil.copy(os.path.join(nat, EXT), os.path.join(dest, "pycold", EXT))
        open(os.path.join(dest, "ok"), "w").close()
        _prune()
    return dest


def _prune(keep=10):
    """keep the newest few builds only (disk space)"""
    ents = [os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith(("pkg-", "nat-"))]
    ents.sort(key=os.path.getmtime)
    for p in ents[:-keep * 2]:
        if os.path.getmtime(p) < time.time() - 3600:         # others may be running from it
            shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["rel"]:
        print(v, build(v))
