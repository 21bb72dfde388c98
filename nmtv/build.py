"""Builds the code under test from /repo's current working tree.

Every check calls build(variant), which compiles src/*.c and the committed
SWIG wrapper into a private directory (never inside /repo) and returns the
directory holding `_nmtlib*.so`.  Directories are keyed by a hash of every
input, so a changed tree is always rebuilt.

Variants
  plain : -O2, libgomp                      (behavioural oracles)
  asan  : AddressSanitizer + UBSan + shim   (memory safety)
  tsan  : ThreadSanitizer + OpenMP shim     (data races)
  shim  : -O2 + OpenMP shim                 (controlled schedules)
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("NMTV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CACHE = os.environ.get("NMTV_CACHE", os.path.join(VERIF, ".cache"))

VARIANTS = {
    "plain": dict(flags=["-O2", "-g1"], link=[], shim=False),
    "shim": dict(flags=["-O2", "-g1"], link=["-lpthread"], shim=True),
    "asan": dict(flags=["-O1", "-g", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined,float-cast-overflow",
                        "-fsanitize-recover=all",
                        "-fno-sanitize=vptr"],
                 link=["-fsanitize=address,undefined", "-lpthread"],
                 shim=True),
    "tsan": dict(flags=["-O1", "-g", "-fno-omit-frame-pointer",
                        "-fsanitize=thread"],
                 link=["-fsanitize=thread", "-lpthread"], shim=True),
}
# Compiled without instrumentation (generated glue, slow to compile)
LIBS = ["-lchealpix", "-lcfitsio", "-lgsl", "-lgslcblas", "-lfftw3_omp",
        "-lfftw3", "-lm"]


class BuildError(Exception):
    pass


def _inputs():
    fs = sorted(glob.glob(os.path.join(REPO, "src", "*.[ch]")))
    fs.append(os.path.join(REPO, "pymaster", "namaster_wrap.c"))
    fs += sorted(glob.glob(os.path.join(REPO, "pymaster", "*.i")))
    fs += sorted(glob.glob(os.path.join(REPO, "pymaster", "*.h")))
    return fs


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(repr(VARIANTS[variant]).encode())
    for f in _inputs() + [os.path.join(VERIF, "nmtv", "gomp_shim.c"),
                          os.path.abspath(__file__)]:
        if os.path.exists(f):
            h.update(os.path.basename(f).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def _pyinfo():
    out = subprocess.run(
        [PY, "-c", "import sysconfig,numpy;"
         "print(sysconfig.get_paths()['include']);"
         "print(numpy.get_include());"
         "print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        capture_output=True, text=True, check=True).stdout.split("\n")
    return out[0], out[1], out[2]


def _prune(keep=16):
    """Old builds are dropped so that the cache stays small."""
    ds = [x for x in glob.glob(os.path.join(CACHE, "*-*"))
          if os.path.isdir(x)]
    ds.sort(key=os.path.getmtime)
    for x in ds[:-keep]:
        shutil.rmtree(x, ignore_errors=True)


def preload(source):
    """Shared object to be preloaded, from a source file beside this one."""
    src = os.path.join(VERIF, "nmtv", source)
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:20]
    so = os.path.join(CACHE, "%s-%s.so" % (source, h))
    if not os.path.exists(so):
        os.makedirs(CACHE, exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        p = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", src, "-o", tmp],
                           capture_output=True, text=True)
        if p.returncode:
            raise BuildError("compile failed: %s" % p.stderr)
        os.rename(tmp, so)
    return so


def build(variant="plain"):
    """Returns the directory with the built extension."""
    v = VARIANTS[variant]
    d = os.path.join(CACHE, "%s-%s" % (variant, tree_hash(variant)))
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return d
    _prune()
    tmp = d + ".tmp%d" % os.getpid()
    if os.path.isdir(tmp):
        shutil.rmtree(tmp)
    os.makedirs(tmp)
    inc_py, inc_np, suffix = _pyinfo()
    with open(os.path.join(tmp, "config.h"), "w") as f:
        f.write("#define HAVE_OMP_H 1\n#define HAVE_COMPLEX_H 1\n"
                "#define HAVE_MATH_H 1\n#define HAVE_STDLIB_H 1\n")
    base = ["gcc", "-fPIC", "-fopenmp", "-w", "-c", "-I" + tmp,
            "-I" + os.path.join(REPO, "src"), "-I" + inc_py, "-I" + inc_np,
            "-I/usr/include"]
    jobs = []
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*.c"))):
        jobs.append((s, base + v["flags"]))
    jobs.append((os.path.join(REPO, "pymaster", "namaster_wrap.c"),
                 base + v["flags"] + (["-O0"] if variant != "plain"
                                      else ["-O1"])))
    if v["shim"]:
        jobs.append((os.path.join(VERIF, "nmtv", "gomp_shim.c"),
                     [a for a in base if a != "-fopenmp"] + v["flags"]))
    objs = []

    def comp(job):
        src, cmd = job
        obj = os.path.join(tmp, os.path.basename(src)[:-2] + ".o")
        p = subprocess.run(cmd + [src, "-o", obj], capture_output=True,
                           text=True)
        if p.returncode:
            raise BuildError("compile failed: %s\n%s" % (src, p.stderr))
        return obj

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, jobs))
    so = os.path.join(tmp, "_nmtlib" + suffix)
    cmd = ["gcc", "-shared", "-Wl,-Bsymbolic", "-o", so] + objs + v["link"] + LIBS
    cmd += [] if v["shim"] else ["-fopenmp", "-lgomp"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("link failed\n%s" % p.stderr)
    for o in objs:
        os.remove(o)
    open(os.path.join(tmp, "done"), "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp)
    return d


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
