"""Worker process: runs cases of one check in this process, appending events to a log."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hashlib, importlib, json, resource, traceback
import numpy as np
from lib import rlang, runner


class Fail(Exception):
    def __init__(self, key, msg, inputs=None):
        super().__init__(msg)
        self.key, self.msg, self.inputs = key, msg, inputs


def jsonable(x):
    if isinstance(x, np.ndarray):
        return {"dtype": str(x.dtype), "shape": list(x.shape), "data": x.reshape(-1)[:4000].tolist()}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Ctx:
    def __init__(self, spec, mod):
        self.spec, self.mod = spec, mod
        self.tier, self.seed, self.extra = spec["tier"], spec["seed"], spec["extra"]
        self.log = open(spec["log"], "a")
        self.evals, self.distinct, self.counters, self.samples = 0, set(), {}, []
        self.i = None
        self.last = None

    def event(self, **kw):
        self.log.write(json.dumps(kw) + "\n")
        self.log.flush()

    def begin(self, i):
        self.i = i
        self.last = None
        self.rng = np.random.default_rng([self.seed, i, int.from_bytes(self.mod.ID.encode(), "little")])

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def inputs(self, **kw):
        """Remember the inputs of the current case, for the replay file and the samples."""
        self.last = kw
        return kw

    def observed(self, *parts):
        """One non-trivial observation; distinct by content."""
        self.evals += 1
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(str(p.shape).encode()); h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
        self.distinct.add(h.hexdigest())
        if len(self.samples) < 2 and self.last is not None:
            self.samples.append(jsonable(self.last))

    def trivial(self):
        self.evals += 1

    def fail(self, key, msg, **inputs):
        raise Fail(key, msg, inputs or self.last)

    def check(self, cond, key, msg, **inputs):
        if not cond:
            raise Fail(key, msg() if callable(msg) else msg, inputs or self.last)


def main():
    spec = json.load(open(sys.argv[1]))
    if "asan" not in os.environ.get("LD_PRELOAD", ""):
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module("checks." + spec["id"])
    ctx = Ctx(spec, mod)
    import _humanleague
    ctx.hl = _humanleague
    if "rso" in ctx.extra:
        ctx.R = rlang.R(ctx.extra)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    nv = 0
    for i in spec["cases"]:
        ctx.begin(i)
        ctx.event(e="start", i=i)
        try:
            mod.case(ctx)
        except Fail as f:
            nv += f.key not in spec.get("known", ())
            ctx.event(e="viol", i=i, key=f.key, msg=f.msg, inputs=jsonable(f.inputs))
        except rlang.RCrash as ex:
            nv += 1
            ctx.event(e="viol", i=i, key=runner.crash_key(str(ex), "R"), msg=str(ex), inputs=jsonable(ctx.last))
        except rlang.RHang as ex:
            nv += 1
            ctx.event(e="viol", i=i, key="hang", msg=str(ex), inputs=jsonable(ctx.last))
        except Exception as ex:      # the oracle could not even interpret what the library did
            nv += 1
            ctx.event(e="viol", i=i, key="unexpected:" + type(ex).__name__, msg=traceback.format_exc()[-3000:], inputs=jsonable(ctx.last))
        ctx.event(e="end", i=i)
        if nv >= 3:
            break
    if hasattr(mod, "teardown"):
        mod.teardown(ctx)
    if hasattr(ctx, "R"):
        ctx.count("r_calls", ctx.R.calls)
        ctx.R.stop()
    ctx.event(e="summary", evals=ctx.evals, distinct=sorted(ctx.distinct), counters=ctx.counters, samples=ctx.samples)


if __name__ == "__main__":
    sys.modules["worker"] = sys.modules["__main__"]
    main()
