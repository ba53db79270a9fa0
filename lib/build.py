"""Builds the library from /repo's current working tree, in scratch directories."""
import atexit, glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = 8


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    """Scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run-", dir=base)
        pid = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def pybind_include():
    for c in glob.glob("/opt/vp/venv/lib/python3*/site-packages/pybind11/include"):
        return c
    raise BuildError("pybind11 headers not found")


def python_include():
    import sysconfig
    for c in (sysconfig.get_path("include"), "/usr/include/python3.12"):
        if os.path.exists(os.path.join(c, "Python.h")):
            return c
    raise BuildError("Python.h not found")


def sources(extra=()):
    """All library sources except the R glue, as setup.py selects them."""
    src = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    return [s for s in src if os.path.basename(s) not in ("RcppExports.cpp", "rcpp_api.cpp")] + list(extra)


def _hash(files, cmdline):
    h = hashlib.sha256(cmdline.encode())
    for pat in ("*.cpp", "*.h", "*.inl", "*.c"):
        for f in sorted(glob.glob(os.path.join(REPO, "src", pat))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in list(files) + sorted(glob.glob(os.path.join(VERIF, "cpp", "*.h"))):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))


def compile_all(name, srcs, flags, link, out, cxx="g++", per_file=None):
    """Compile sources in parallel and link; returns path of out. A content-addressed cache is used only for development (VERIF_CACHE=1)."""
    cmdline = " ".join([cxx, name, out, *flags, *link, repr(per_file)])
    d = os.path.join(scratch(), name)
    if os.environ.get("VERIF_CACHE"):
        d = os.path.join(VERIF, ".cache", name + "-" + _hash(srcs, cmdline))
        if os.path.exists(os.path.join(d, out)):
            return os.path.join(d, out)
    os.makedirs(d, exist_ok=True)
    objs = []

    def one(s):
        o = os.path.join(d, os.path.basename(s) + ".o")
        f = list(flags) + list((per_file or {}).get(os.path.basename(s), ()))
        _run([cxx, *f, "-I" + os.path.join(REPO, "src"), "-c", s, "-o", o], "compilation of " + s)
        return o
    # slowest first
    order = sorted(srcs, key=lambda s: -(10**9 if os.path.basename(s) == "module.cpp" else os.path.getsize(s)))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, order))
    tmp = os.path.join(d, out + ".tmp%d" % os.getpid())
    _run([cxx, *objs, *link, "-o", tmp], "link of " + name)
    os.replace(tmp, os.path.join(d, out))
    for o in objs:
        if not os.environ.get("VERIF_CACHE"):
            os.unlink(o)
    return os.path.join(d, out)


SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def extension(kind):
    """Python extension module; returns the directory to put on sys.path."""
    flags = ["-std=c++20", "-fPIC", "-fvisibility=hidden", "-fno-strict-overflow", "-DNDEBUG", "-DPYTHON_MODULE", "-w",
             "-I" + pybind_include(), "-I" + python_include()]
    link = ["-shared"]
    if kind == "rel":          # as shipped
        flags += ["-O2"]
    elif kind == "dbg":        # optimised, with line numbers
        flags += ["-O1", "-g1"]
    elif kind == "mon":        # as shipped, with the monitoring hooks
        flags += ["-O2", "-DHUMANLEAGUE_MONITOR"]
    elif kind == "san":
        flags += ["-O1", "-g1", "-DHUMANLEAGUE_MONITOR", "-D_GLIBCXX_ASSERTIONS", *SAN]
        link += SAN
    else:
        raise ValueError(kind)
    return os.path.dirname(compile_all("ext-" + kind, sources(), flags, link, "_humanleague.so"))


def libpath(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def san_env(env=None):
    e = dict(os.environ if env is None else env)
    e["LD_PRELOAD"] = libpath("libasan.so") + ":" + libpath("libubsan.so") + ":" + libpath("libstdc++.so.6")
    e["PYTHONMALLOC"] = "malloc"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=8192:allocator_may_return_null=1:handle_segv=1:symbolize=1:malloc_context_size=12"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"
    return e


def program(name, harness, flags, link=(), cxx="g++", extra=(), lib=True):
    """C++ harness linked with the library sources (without the Python module)."""
    fl = ["-std=c++20", "-w", "-I" + os.path.join(VERIF, "cpp"), *flags]
    srcs = [s for s in (sources() if lib else []) if os.path.basename(s) != "module.cpp"]
    return compile_all("prog-" + name, [os.path.join(VERIF, "cpp", harness), *extra, *srcs], fl, list(link), name, cxx=cxx)


def rlib(kind):
    """Shared object with the R API; returns its path (humanleague.so)."""
    rinc = subprocess.run(["R", "CMD", "config", "--cppflags"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    rcpp = subprocess.run(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"))'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    if not rcpp:
        raise BuildError("Rcpp not found")
    flags = ["-std=gnu++17", "-fPIC", "-DNDEBUG", "-w", *rinc, "-I" + rcpp]
    link = ["-shared"]
    if kind == "rel":
        flags += ["-O2"]
    elif kind == "san":
        flags += ["-O1", "-g1", "-DHUMANLEAGUE_MONITOR", "-D_GLIBCXX_ASSERTIONS", *SAN]
        link += SAN
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    return compile_all("r-" + kind, srcs, flags, link, "humanleague.so")
