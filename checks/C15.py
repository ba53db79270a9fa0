"""C15: every function is deterministic and independent of earlier calls."""
import ctypes, gc, hashlib, json, os, subprocess, sys, threading
import numpy as np
from lib import build, gen, hostile, rlang, runner

ID, BUILD = "C15", "rel"
RULE = ("a pool of calls of every function (Python and R, successful and failing) whose outcomes were recorded in separate reference processes - some as the only call of a process - is replayed in random orders, with repetitions, interleaved with unrelated calls, "
        "live generators, garbage collection, allocator churn and freshly allocated memory filled with varying bytes, in processes with different hash seeds; every outcome must be bit-identical to the reference; distinct by item and its predecessor")
QUICK, THOROUGH = 2600, 30000
REQUIRE = {"replayed": 15000, "noise": 5000, "failing": 1500, "siblings": 1000, "fresh_processes": 20, "R_replayed": 300, "big": 200}
POOL = 260
RPOOL = 30


def make(i, seed):
    """Pool item i: (function name, argument tuple)."""
    rng = np.random.default_rng([seed, i, 777])
    c = i % 13
    if i % 5 == 2:          # the previous item with one thing changed
        r = sibling(rng, *make(i - 1, seed))
        if r is not None:
            return r
    if i % 43 == 20:
        return gen.big_call(rng, *((66000, 80000) if i % 86 == 20 else (4200, 9000)))
    if c < 7:
        if rng.random() < 0.25:
            while True:
                kind, p = hostile.malformed(rng, maxpop=60)
                if kind not in ("types", "too_large"):
                    break
        else:
            p = hostile.valid(rng, fn=hostile.FN[c % 3], maxpop=120)
        return p["fn"], tuple(hostile.args(p))
    if c < 9:
        k, shp, sets, ms, a = gen.problem(rng, maxcells=100, maxpop=80)
        if c == 7:
            return "flatten", (a,)
        return "integerise", ((a + a[::-1]) / 2.0,)
    if c == 9:
        p = rng.random(int(rng.integers(1, 40)))
        if i % 39 == 9:         # too small to be represented to full precision
            p = p * 10.0 ** -float(rng.integers(306, 318)) + 5e-324
        return "integerise", (p, int(rng.integers(0, 1000)))
    if c == 10:
        return "sobol", (int(rng.choice([1, 2, 3, 10, 100, 1111])), gen.skips(rng), int(rng.integers(1, 30)))
    if c == 11:      # not converging: many iterations
        shp = (3, 4)
        s = (rng.random(shp) < 0.5).astype(float)
        a = rng.integers(1, 9, shp)
        return "ipf", (s, [[0], [1]], [a.sum(1).astype(float), a.sum(0).astype(float)])
    kind, fn, a = hostile.other_malformed(rng)
    return fn, a


def some(rng, seed, cells=20000):
    """Any item that is not very large."""
    while True:
        item = make(int(rng.integers(1 << 30)), seed)
        if weight(item[1]) <= cells:
            return item


def weight(v):
    return v.size if isinstance(v, np.ndarray) else sum(map(weight, v)) if isinstance(v, (list, tuple)) else 1


def twist(rng, a):
    """Another array of the same shape, type and (mostly) total."""
    b = np.array(a)
    v = b.reshape(-1)
    if v.size < 2 or b.dtype.kind not in "if":
        return None
    c = int(rng.integers(3))
    if c == 0:
        v[:] = v[::-1].copy()
    elif c == 1:
        j = int(rng.integers(v.size - 1))
        v[j], v[j + 1] = v[j + 1], v[j]
    else:
        v[:] = rng.permutation(v)
    return b if b.tobytes() != np.asarray(a).tobytes() else None


def sibling(rng, fn, a):
    """A call that only differs from another in the order of some numbers, the skips or the function; or nothing, if there is no such thing."""
    a = list(a)
    if not a:
        return None
    for _ in range(20):
        c = int(rng.choice(4, p=[.4, .2, .2, .2]))
        if c == 0 and fn in ("ipf", "qisi") and len(a) >= 3 and isinstance(a[0], np.ndarray):
            b = twist(rng, a[0])
            if b is not None:
                return fn, tuple([b] + a[1:])
        elif c == 1 and fn in ("integerise", "flatten") and isinstance(a[0], np.ndarray) and (a[0].dtype.kind == "i" or a[0].ndim == 1):
            b = twist(rng, a[0])
            if b is not None:
                return fn, tuple([b] + a[1:])
        elif c == 2 and fn in ("ipf", "qisi", "qis") and len(a) >= (2 if fn == "qis" else 3):
            k = 1 if fn == "qis" else 2
            if isinstance(a[k], list) and a[k] and isinstance(a[k][0], np.ndarray):
                j = int(rng.integers(len(a[k])))
                b = twist(rng, a[k][j]) if isinstance(a[k][j], np.ndarray) else None
                if b is not None:
                    return fn, tuple(a[:k] + [a[k][:j] + [b] + a[k][j + 1:]] + a[k + 1:])
        elif c == 3 and fn == "qisi" and len(a) == 3:
            return "ipf", (a[0], a[1], [m.astype(float) if isinstance(m, np.ndarray) else m for m in a[2]] if isinstance(a[2], list) else a[2])
        elif c == 3 and fn == "ipf" and len(a) == 3 and isinstance(a[2], list) and all(isinstance(m, np.ndarray) and m.dtype.kind == "f" and (m == np.round(m)).all() and np.abs(m).sum() < 1000 for m in a[2]):
            return "qisi", (a[0], a[1], [m.astype(np.int64) for m in a[2]])
        elif c == 3 and fn == "sobol":
            return fn, (a[0], a[1] + 1 + int(rng.integers(3)), a[2])
    return None


def call(hl, item):
    fn, a = item
    if fn == "sobol":
        g = hl.SobolSequence(a[0], a[1])
        return [next(g) for _ in range(a[2])]
    return getattr(hl, fn)(*[[list(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v for v in a])


def digest(f):
    h = hashlib.blake2b(digest_size=12)

    def put(r):
        if isinstance(r, np.ndarray):
            h.update(repr((r.shape, str(r.dtype))).encode()); h.update(r.tobytes())
        elif isinstance(r, dict):
            for k in sorted(r):
                h.update(k.encode()); put(r[k])
        elif isinstance(r, (tuple, list)):
            h.update(b"%d" % len(r))
            for x in r:
                put(x)
        else:
            h.update(repr(r).encode())
    try:
        with np.errstate(all="ignore"):
            r = f()
    except Exception as e:
        msg = str(e)
        if "0x" in msg:
            msg = ""
        return "!" + type(e).__name__ + ":" + hashlib.blake2b(msg.encode(), digest_size=6).hexdigest()
    put(r)
    return h.hexdigest()


def rmake(i, seed):
    rng = np.random.default_rng([seed, i, 778])
    if i % 7 == 6:           # the previous item with another order of the numbers of one argument
        fn, args = rmake(i - 1, seed)
        k = {"ipf": 0, "qisi": 0, "flatten": 0, "qis": 1}.get(fn)
        if k is not None:
            x = args[k]
            if fn == "qis":
                x = max(x["v"], key=lambda y: len(y["v"]))
            x["v"] = x["v"][::-1]
        else:
            args[2] = rlang.int_(args[2]["v"][0] + 1 if args[2]["v"] else 1)
        return fn, args
    k, shp, sets, ms, a = gen.problem(rng, maxcells=60, maxpop=50, maxdim=4)
    if i % 6 == 5:
        ms = [m + (j == 0) for j, m in enumerate(ms)]
    il = rlang.lst([rlang.int_(np.array(s) + 1) for s in sets])
    ml = rlang.lst([rlang.int_(m, dim="force") for m in ms])
    s = rlang.num(gen.seed(rng, shp)[0], dim="force")
    c = i % 5
    if c == 0:
        return "qis", [il, ml]
    if c == 1:
        return "qisi", [s, il, ml]
    if c == 2:
        return "ipf", [s, il, ml]
    if c == 3:
        return "sobolSequence", [rlang.int_(int(rng.integers(1, 20))), rlang.int_(10), rlang.int_(int(rng.integers(0, 50)))]
    return "flatten", [rlang.int_(a, dim="force"), rlang.chars(["a%d" % d for d in range(a.ndim)])]


def rdigest(R, item):
    return hashlib.blake2b(json.dumps(R.raw(*item), sort_keys=True).encode(), digest_size=12).hexdigest()


REF = """
import sys, json
sys.path.insert(0, %r)
import importlib
m = importlib.import_module("checks.C15")
import _humanleague
out = {}
for i in json.loads(sys.argv[1]):
    out[i] = m.digest(lambda: m.call(_humanleague, m.make(i, int(sys.argv[2]))))
print("@@" + json.dumps(out))
"""


def reference(run, env, items):
    e = dict(env, PYTHONHASHSEED=str(items[0] % 1000), MALLOC_PERTURB_=str(items[0] % 255))
    p = subprocess.run([sys.executable, "-c", REF % build.VERIF, json.dumps(items), str(run.seed)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=build.scratch(), timeout=600)
    for l in p.stdout.splitlines():
        if l.startswith("@@"):
            return {int(k): v for k, v in json.loads(l[2:]).items()}
    raise build.BuildError("reference process failed (%s):\n%s" % (p.returncode, p.stdout[-2000:])) if p.returncode >= 0 else Crash(p)


class Crash(Exception):
    pass


def prepare(run):
    extra = rlang.prepare("rel")
    env = runner.python_env(BUILD, build.extension(BUILD))
    try:
        ref = reference(run, env, list(range(POOL)))
        # each as the only call of its process
        from concurrent.futures import ThreadPoolExecutor
        rng = np.random.default_rng(run.seed)
        lone = [int(x) for x in rng.choice(POOL, 32 if run.tier == "quick" else 200, replace=False)]
        with ThreadPoolExecutor(8) as ex:
            for i, d in zip(lone, ex.map(lambda i: reference(run, env, [i]), lone)):
                run.count("fresh_processes")
                if d[i] != ref[i]:
                    run.violation("fresh", "pool item %d (%s) gives another outcome as the only call of a process than after other calls: %r" % (i, make(i, run.seed)[0], make(i, run.seed)[1]), {"case": None, "item": i})
    except Crash as e:
        p = e.args[0]
        run.violation(runner.crash_key(p.stdout, p.returncode), "reference process ended with %s\n%s" % (p.returncode, p.stdout[-3000:]), {"case": None})
        ref = {}
    extra["ref"] = {str(k): v for k, v in ref.items()}
    R = rlang.R(extra)
    cwd = os.getcwd()
    os.chdir(build.scratch())
    try:
        extra["rref"] = {str(i): rdigest(R, rmake(i, run.seed)) for i in range(RPOOL)}
    finally:
        R.stop()
        os.chdir(cwd)
    return extra


def float_state():
    """Rounding and underflow of the floating point unit, as seen by later code of the process."""
    one, tiny = np.array([1.0]), np.array([3e-310])
    return ((one + 2.0 ** -53).tobytes(), (one + 1.5 * 2.0 ** -53).tobytes(), (-one - 1.5 * 2.0 ** -53).tobytes(), (tiny / 3).tobytes(), (tiny * one).tobytes(), 1e-310 / 2, 0.1 + 0.2, -0.1 - 0.2)


FLOAT = float_state()


def setup(ctx):
    ctx.pool = [make(i, ctx.seed) for i in range(POOL)]
    ctx.alive = []
    ctx.libc = ctypes.CDLL(None)


def noise(ctx, rng):
    hl = ctx.hl
    c = int(rng.integers(7))
    ctx.count("noise")
    try:
        with np.errstate(all="ignore"):
            if c == 0:
                hostile.call(hl, hostile.valid(rng, maxpop=60, maxcells=100))
            elif c == 1:
                hostile.call(hl, hostile.malformed(rng, maxpop=40)[1])
            elif c == 2:
                g = hl.SobolSequence(int(rng.choice([1, 2, 3, 4, 1111])), int(rng.integers(0, 100)))
                for _ in range(int(rng.integers(0, 10))):
                    next(g)
                ctx.alive.append(g)
            elif c == 3 and ctx.alive:
                next(ctx.alive[rng.integers(len(ctx.alive))])
            elif c == 4 and ctx.alive:
                del ctx.alive[:int(rng.integers(1, len(ctx.alive) + 1))]
            elif c == 5:
                k, fn, a = hostile.other_malformed(rng)
                getattr(hl, fn)(*a)
            else:
                ctx.churn = [np.full(int(n), rng.random()) for n in rng.integers(1, 800, 20)]
                if rng.random() < 0.05:
                    gc.collect()
    except Exception:
        pass


def case(ctx):
    rng = ctx.rng
    # fill freshly allocated and freed memory
    ctx.libc.mallopt(-6, int(rng.integers(0, 256)))
    prev = -1
    if rng.random() < 0.2:
        ctx.inputs(R=True)
        for i in rng.integers(0, RPOOL, 3):
            i = int(i)
            fn, a = rmake(i, ctx.seed)
            d = rdigest(ctx.R, (fn, a))
            ctx.check(d == ctx.extra["rref"][str(i)], "R:" + fn, "R: %s gives another result than in another session (pool item %d, after %d)" % (fn, i, prev))
            ctx.count("R_replayed")
            ctx.observed("R", prev, i)
            prev = i
        return
    seq = [int(x) for x in rng.integers(0, POOL, 9)]
    if rng.random() < 0.5:
        seq[4] = seq[3]
    for k in (1, 6):         # neighbours
        if rng.random() < 0.5:
            seq[k] = 5 * int(rng.integers(POOL // 5)) + 1
            seq[k + 1] = seq[k] + 1
            if rng.random() < 0.5:
                seq[k], seq[k + 1] = seq[k + 1], seq[k]
            ctx.count("siblings")
    for i in seq:
        if rng.random() < 0.5:
            for _ in range(int(rng.integers(1, 4))):
                noise(ctx, rng)
        fn = ctx.pool[i][0]
        ctx.inputs(item=i, fn=fn, args=ctx.pool[i][1], before=prev)
        d = digest(lambda: call(ctx.hl, ctx.pool[i]))
        ref = ctx.extra["ref"].get(str(i))
        if ref is None:
            continue
        ctx.check(float_state() == FLOAT, "float-state", "%s left the floating point unit in another state: arithmetic of the calling process changed" % fn)
        ctx.check(d == ref, "differs:" + fn, "%s gives another outcome (%s) than in the reference process (%s), after pool item %d and other calls" % (fn, d, ref, prev))
        ctx.count("replayed"); ctx.count("big", int(i % 43 == 20)); ctx.count("failing", int(d[0] == "!"))
        ctx.observed(prev, i)
        prev = i
