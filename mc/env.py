"""Binding to the code under test: imports uxsim from /repo's working tree and, when the C++
engine is needed, compiles uxsim/trafficpp from that tree and substitutes the result for the
installed extension.  Nothing is written inside /repo."""
import os, sys, hashlib, subprocess, tempfile, shutil, atexit, glob

CWD = os.getcwd()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UXSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

_SITE = "/opt/venv/lib/python3.12/site-packages"


def _src_files():
    d = os.path.join(REPO, "uxsim", "trafficpp")
    return sorted(glob.glob(d + "/*.cpp") + glob.glob(d + "/*.h"))


def cxx_flags(tmp):
    """common compiler flags and the nanobind library (compiled when the prebuilt one is absent)"""
    import sysconfig
    inc = sysconfig.get_paths()["include"]
    if not os.path.exists(os.path.join(inc, "Python.h")):
        inc = "/usr/include/python3.12"
    nb = os.path.join(_SITE, "nanobind")
    flags = ["-DNDEBUG", "-std=gnu++17", "-fPIC", "-fvisibility=hidden", "-fno-stack-protector",
             "-ffunction-sections", "-fdata-sections", "-w",
             "-I" + inc, "-I" + os.path.join(nb, "include")]
    lib = "/opt/uxsim-build/libnanobind-static.a"
    if not os.path.exists(lib):
        lib = os.path.join(tmp, "nb.o")
        subprocess.run(["g++", *flags, "-O1", "-DNB_BUILD", "-DNB_COMPACT_ASSERTIONS", "-fno-strict-aliasing",
                        "-I" + os.path.join(nb, "ext/robin_map/include"), "-c",
                        os.path.join(nb, "src/nb_combined.cpp"), "-o", lib], check=True)
    return flags, lib


def build_ext(extra=(), tag="std"):
    """Compile the extension from the current tree; returns the path of the shared object."""
    h = hashlib.sha256()
    for f in _src_files():
        h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
    for e in extra:
        h.update(str(e).encode())
        if e.startswith("/") and os.path.exists(e):
            h.update(open(e, "rb").read())
    key = h.hexdigest()[:20]
    out_dir = os.path.join(BUILD, f"{tag}-{key}")
    so = os.path.join(out_dir, "uxsim_cpp.so")
    if os.path.exists(so):
        return so
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b", dir=BUILD)
    flags, lib = cxx_flags(tmp)
    flags += ["-O1", "-fopenmp"]
    pre = []
    for e in extra:
        pre += ["-include", e] if e.startswith("/") else [e]
    obj = os.path.join(tmp, "m.o")
    subprocess.run(["g++", *flags, *pre, "-c", os.path.join(REPO, "uxsim/trafficpp/bindings.cpp"), "-o", obj], check=True)
    subprocess.run(["g++", "-shared", "-fopenmp", "-o", os.path.join(tmp, "uxsim_cpp.so"), obj, lib], check=True)
    os.remove(obj)
    try:
        os.rename(tmp, out_dir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


_scratch = None


def scratch():
    """A per-run scratch directory (also the working directory of the check)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="uxmc_")
        pid = os.getpid()

        def _rm(p=_scratch, pid=pid):
            if os.getpid() == pid:
                os.chdir("/")
                shutil.rmtree(p, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


_loaded = {}


def load(cpp=False, so=None):
    """Import uxsim from the working tree. With cpp=True also binds a freshly built extension."""
    os.chdir(scratch())
    # the tree under test is imported as plain source files, not through an editable-install hook
    sys.meta_path[:] = [f for f in sys.meta_path if "Redirecting" not in type(f).__name__ and "editable" not in getattr(f, "__module__", "").lower()]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if cpp and "cpp" not in _loaded:
        import importlib.util, importlib.machinery
        if so is None:
            so = build_ext()
        import uxsim  # package first
        loader = importlib.machinery.ExtensionFileLoader("uxsim.uxsim_cpp", so)
        spec = importlib.util.spec_from_file_location("uxsim.uxsim_cpp", so, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["uxsim.uxsim_cpp"] = mod
        loader.exec_module(mod)
        uxsim.uxsim_cpp = mod
        import uxsim.uxsim_cpp_wrapper as wr
        assert wr.trafficppy is mod, "wrapper bound to a foreign extension"
        _loaded["cpp"] = mod
    import warnings
    warnings.filterwarnings("ignore")
    import uxsim
    assert os.path.realpath(uxsim.__file__).startswith(os.path.realpath(REPO) + "/"), uxsim.__file__
    import uxsim.analyzer as an
    # The font file is not present in this sandbox; only label drawing uses it.
    an.load_font_data = lambda *a, **k: b""
    if "uxsim" not in _loaded:
        _loaded["uxsim"] = uxsim
        import logging
        logging.disable(logging.CRITICAL)
    return uxsim
