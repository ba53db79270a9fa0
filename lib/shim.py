"""Fault injection and allocation counting inside a Python or R process (cpp/shim.c, cpp/shimxx.cpp)."""
import ctypes, os, re
from . import build


def library():
    """Builds the preload library; returns its path."""
    d = os.path.join(build.scratch(), "shim")
    os.makedirs(d, exist_ok=True)
    so, c = os.path.join(d, "libshim.so"), os.path.join(build.VERIF, "cpp")
    build._run(["gcc", "-O1", "-g", "-fPIC", "-fno-builtin", "-c", os.path.join(c, "shim.c"), "-o", os.path.join(d, "a.o")], "compilation of the shim")
    build._run(["g++", "-O1", "-g", "-fPIC", "-w", "-c", os.path.join(c, "shimxx.cpp"), "-o", os.path.join(d, "b.o")], "compilation of the shim")
    build._run(["g++", "-shared", os.path.join(d, "a.o"), os.path.join(d, "b.o"), "-o", so], "link of the shim")
    return so


def mapped(*names):
    """Address ranges of the code of loaded objects."""
    out = []
    for l in open("/proc/self/maps"):
        f = l.split()
        if len(f) > 5 and "x" in f[1] and any(n in os.path.basename(f[5]) for n in names):
            a, b = f[0].split("-")
            out.append((int(a, 16), int(b, 16)))
    return out


# the binding library's own bookkeeping, which runs outside its exception handling
BINDING = re.compile(r"init_instance|cpp_function::dispatcher|register_instance|pybind11_object_|pybind11::detail::instance\b|pybind11_type|type_info|make_new_python_type|get_internals")


# likewise in R: Rcpp formats messages within noexcept constructors
R_BINDING = re.compile(r"tinyformat::|tfm::|Rcpp::(internal|exception|index_out_of_bounds|not_compatible|no_such|LongjumpException|String|Vector|Environment|Function|Shield|PreserveStorage|stop|rcpp|RObject|traits)")


def excluded(path, binding=BINDING):
    """Address ranges (relative to the load address) of functions of the binding library, and of those called on behalf of others."""
    import subprocess
    out, std = [], []
    for l in subprocess.run(["nm", "-S", "-C", "--defined-only", path], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
        f = l.split(None, 3)
        if len(f) == 4 and f[2] in "tTwWuV" and binding.search(f[3]) and "{lambda(pybind11::detail::function_call&)" not in f[3]:
            out.append((int(f[0], 16), int(f[0], 16) + int(f[1], 16)))
        elif len(f) == 4 and f[2] in "tTwWuV" and (re.match(r"([\w:<>,*& ]+ )?std::", f[3]) or "pybind11::" in f[3] and "cpp_function::initialize" not in f[3] and "{lambda" not in f[3]):
            std.append((int(f[0], 16), int(f[0], 16) + int(f[1], 16)))
    return out, std


def r_ranges(so, out):
    """Writes the ranges for r/driver.R."""
    ex, std = excluded(so, R_BINDING)
    with open(out, "w") as f:
        for k, l in (("x", ex), ("s", std)):
            f.writelines("%s %d %d\n" % (k, a, b) for a, b in l)
    return out


def base(path):
    for l in open("/proc/self/maps"):
        f = l.split()
        if len(f) > 5 and f[5] == path and f[2] == "00000000":
            return int(f[0].split("-")[0], 16)


class Shim:
    def __init__(self, path, *names, binding=None):
        l = self.lib = ctypes.CDLL(path)
        l.shim_range.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
        l.shim_arm.argtypes = [ctypes.c_int64, ctypes.c_int]
        for f in (l.shim_count, l.shim_failed, l.shim_bytes):
            f.restype = ctypes.c_int64
        l.shim_clear()
        self.ranges = mapped(*names)
        l.shim_runtime.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
        l.shim_runtime(*mapped("libstdc++")[0])
        for a, b in self.ranges:
            l.shim_range(a, b)
        if binding:
            b = base(binding)
            l.shim_exclude.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
            self.excluded, std = excluded(binding)
            for x, y in std:
                l.shim_runtime(b + x, b + y)
            for x, y in self.excluded:
                l.shim_exclude(b + x, b + y)
        self.arm, self.disarm = l.shim_arm, l.shim_disarm

    def run(self, k, persistent, f):
        """Calls f with the k-th allocation failing (0: none): (outcome, value, allocations, failures)."""
        self.arm(k, int(persistent))
        try:
            r = f()
            ok = True
        except Exception as e:
            r, ok = e, False
        finally:
            self.disarm()
        return ok, r, self.lib.shim_count(), self.lib.shim_failed()
