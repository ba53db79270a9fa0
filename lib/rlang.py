"""A persistent R process running the R API built from /repo's working tree."""
import json, os, resource, select, subprocess, time
import numpy as np
from . import build

HANG_CPU_S = 60


class RCrash(Exception):
    pass


class RHang(Exception):
    pass


class RError(Exception):
    pass


def prepare(kind="rel"):
    return {"rso": build.rlib(kind), "rkind": kind}


def num(x, dim=True):
    x = np.asarray(x, float)
    f = np.asfortranarray(x).reshape(-1, order="F")
    d = {"t": "num", "v": [("NaN" if v != v else "Inf" if v == np.inf else "-Inf" if v == -np.inf else float(v).hex()) for v in f.tolist()]}
    if dim and x.ndim > 0 and dim != "no" and (x.ndim > 1 or dim == "force"):
        d["dim"] = list(x.shape)
    return d


def int_(x, dim=True):
    x = np.asarray(x)
    f = np.asfortranarray(x).reshape(-1, order="F")
    d = {"t": "int", "v": [int(v) for v in f.tolist()]}
    if dim and x.ndim > 0 and (x.ndim > 1 or dim == "force"):
        d["dim"] = list(x.shape)
    return d


def lst(xs):
    return {"t": "list", "v": list(xs)}


def chars(xs):
    return {"t": "chr", "v": list(xs)}


NULL = {"t": "null"}


def decode(e):
    t = e["t"]
    if t == "null":
        return None
    if t in ("list", "df"):
        v = [decode(x) for x in e["v"]]
        n = e.get("names")
        if n is None or n == []:
            return v
        return dict(zip([n] if isinstance(n, str) else n, v))
    if "v" not in e:
        return t
    v = e["v"]
    if t == "chr":
        return v
    if t == "lgl":
        a = np.array([{"TRUE": 1, "FALSE": 0}.get(x, -1) for x in v], np.int8)
    elif t == "int":
        a = np.array([-2**31 if x in ("NA", None) else int(x) for x in v], np.int64)
    else:
        a = np.array([np.nan if x in ("NA", "NaN", None) else np.inf if x == "Inf" else -np.inf if x == "-Inf" else float.fromhex(x) for x in v], float)
    if "dim" in e:
        a = a.reshape([int(d) for d in e["dim"]], order="F")
    return a


class R:
    def __init__(self, extra):
        self.so, self.kind, self.preload = extra["rso"], extra["rkind"], extra.get("rpreload")
        self.p = None
        self.calls = 0

    def start(self):
        env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "R_LIBS", "R_LIBS_SITE", "R_LIBS_USER", "R_PROFILE", "R_PROFILE_USER", "PYTHONMALLOC", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
        env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        env["R_LIBS_USER"] = "NULL"
        if self.kind == "san":
            env = build.san_env(env)
            env["ASAN_OPTIONS"] += ":handle_segv=1:detect_stack_use_after_return=0"
        if self.preload:
            env["LD_PRELOAD"] = self.preload
        self.errf = os.path.join(os.getcwd(), "r-%d.err" % os.getpid())
        rhome = subprocess.run(["R", "RHOME"], stdout=subprocess.PIPE, text=True).stdout.strip()
        # the R binary itself, so that LD_PRELOAD does not reach the shell wrappers
        e = dict(env, R_HOME=rhome, LD_LIBRARY_PATH=rhome + "/lib:" + env.get("LD_LIBRARY_PATH", ""))
        for k in ("share", "include", "doc"):
            d = "/usr/share/R/" + k
            if os.path.isdir(d):
                e["R_%s_DIR" % k.upper()] = d
        self.p = subprocess.Popen([rhome + "/bin/exec/R", "--no-echo", "--vanilla", "--no-restore", "--file=" + os.path.join(build.VERIF, "r", "driver.R"), "--args", self.so, os.path.join(build.REPO, "R")],
                                  env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.errf, "ab"),
                                  preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY if self.kind == "san" else resource.getrlimit(resource.RLIMIT_AS)[1],) * 2))
        self.buf = b""
        self.read(300, start=True)

    def cpu(self):
        try:
            s = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return 0.0

    def read(self, limit, start=False):
        c0 = self.cpu()
        t0 = time.time()
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                if line.startswith(b"@@"):
                    return line[2:]
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    rc = self.p.wait()
                    self.p = None
                    raise RCrash("R ended with %s\n%s" % (rc, self.errtail()))
                self.buf += d
            elif self.cpu() - c0 > HANG_CPU_S or time.time() - t0 > 600:
                self.stop()
                raise RHang("no reply within %d s of CPU time" % HANG_CPU_S)

    def errtail(self):
        try:
            s = open(self.errf, "rb").read().decode(errors="replace")
        except OSError:
            return ""
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "HUMANLEAGUE_MONITOR:", "Assertion"):
            k = s.rfind(mark)
            if k >= 0:
                k = s.rfind("\n", 0, k) + 1
                return s[k:k + 6000]
        return s[-3000:]

    def leak(self, fn, args, reps):
        """Repeats a call in windows: {ok, leak, what, growth, reps, blocks}. The heap probe must be preloaded."""
        return self.raw(fn, args, more={"leak": reps})

    def raw(self, fn, args, names=None, gc=False, more=None):
        """Reply of a call: {ok, v|msg, mutated}."""
        if self.p is None:
            self.start()
        req = dict({"fn": fn, "args": args}, **(more or {}))
        if names:
            req["names"] = names
        if gc:
            req["gc"] = True
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            rc = self.p.wait()
            self.p = None
            raise RCrash("R ended with %s\n%s" % (rc, self.errtail()))
        self.calls += 1
        return json.loads(self.read(HANG_CPU_S))

    def __call__(self, fn, *args):
        r = self.raw(fn, list(args))
        if not r["ok"]:
            raise RError(r["msg"])
        if r["mutated"]:
            raise RError("arguments were modified")
        return decode(r["v"])

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
