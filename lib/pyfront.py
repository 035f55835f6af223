"""The Python frontend of docc, built against the stand-ins for pybind11, SymEngine and isl, with its run-time libraries."""
from vlib import *
import sdfgcheck, glob

PYB = os.path.join(VERIF, "shim", "pybind11")
PYINC = "/usr/include/python3.12"
ROOT = os.path.join(BUILD, "py")


def _link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        os.unlink(dst)
    os.symlink(src, dst)


def build_frontend():
    """Returns the folder to put on PYTHONPATH."""
    # the released packages are built with NDEBUG, which only a few sources look at (they validate after every pass)
    nd = ["-DNDEBUG"]
    flags = sdfgcheck.FLAGS + nd + ["-I" + PYB, "-I" + PYINC, "-I" + repo("rpc/include"), "-I" + repo("python/bindings")]
    srcs = sdfgcheck.library_sources() + [os.path.join(sdfgcheck.SYM, "shim.cpp")]
    rel = [x for x in srcs if "NDEBUG" in open(x, errors="replace").read()]
    objs = compile_many([x for x in srcs if x not in rel], sdfgcheck.FLAGS, "sdfg") + compile_many(rel, sdfgcheck.FLAGS + nd, "py")
    b = []
    for root, _, fs in os.walk(repo("python/bindings")):
        b += [os.path.join(root, f) for f in fs if f.endswith(".cpp")]
    rpc = [os.path.join(r, f) for r, _, fs in os.walk(repo("rpc/src")) for f in fs if f.endswith(".cpp")]
    objs += compile_many(sorted(b + rpc), flags, "py")
    pkg = os.path.join(ROOT, "docc")
    for d in ("sdfg", "lib", "include"):
        os.makedirs(os.path.join(pkg, d), exist_ok=True)
    link(objs, os.path.join(pkg, "sdfg", "_sdfg.so"), sdfgcheck.LIBS + ["-lcurl", "-ldl"], shared=True)
    for d in ("compiler", "python"):
        _link(repo("python/docc/" + d), os.path.join(pkg, d))
    _link(repo("python/docc/sdfg/__init__.py"), os.path.join(pkg, "sdfg", "__init__.py"))
    for d in ("rtl/include", "arg-capture-io/include"):
        for r, _, fs in os.walk(repo(d)):
            t = os.path.join(pkg, "include", os.path.relpath(r, repo(d)))
            os.makedirs(t, exist_ok=True)
            for n in fs:
                _link(os.path.join(r, n), os.path.join(t, n))
    _link(os.path.join(VERIF, "shim", "blas", "cblas.h"), os.path.join(pkg, "include", "cblas.h"))
    lib = os.path.join(pkg, "lib")
    cap = compile_many(sorted(glob.glob(repo("arg-capture-io/src/*.cpp"))), sdfgcheck.FLAGS, "sdfg")
    rtl = compile_many(sorted(glob.glob(repo("rtl/src/*.cpp"))), sdfgcheck.FLAGS + nd + ["-O1"], "py")
    for n, o in (("daisy_rtl", rtl), ("arg_capture_io", cap), ("blas", []), ("omp", [])):
        a = os.path.join(lib, "lib%s.a" % n)
        if os.path.exists(a):
            os.unlink(a)
        r = subprocess.run(["ar", "rcs", a] + o, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("ar: " + r.stderr)
    with open(os.path.join(ROOT, "ml_dtypes.py"), "w") as f:
        f.write("class bfloat16:\n    pass\n")
    return ROOT
