"""C23: repeated use does not leak memory or references."""
import ctypes, gc, os, sys, time
import numpy as np
from lib import build, cpp, gen, hostile, rlang
from checks import C15

ID, BUILD = "C23", "mon"
RULE = ("Python and R: calls of every function (successful, malformed, with arbitrary values) and generators (created, advanced, exhausted, refused, dropped alone or in reference cycles, with points outliving them) are repeated in several windows, and histories of different calls likewise; "
        "bytes in use on the heap, interpreter blocks and reference counts of arguments, data types and results must not grow from window to window; C++: the live blocks of every kind of job (some with failing allocations), of histories of different jobs and of objects created, moved, copied, "
        "resized and destroyed in random orders are counted exactly; distinct by job")
QUICK, THOROUGH = 1600, 20000
CPP = {"quick": 4000, "thorough": 60000}
REQUIRE = {"python_calls": 50000, "python_repeated": 800, "python_failing": 200, "generators": 100, "exhausted": 15, "python_histories": 40, "R_calls": 10000, "R_blocks": 100000, "big": 25, "R_large": 10}
REQUIRE_CPP = {"shape:wide": 20, "shape:large": 5, "repetitions": 20000, "histories": 150, "object_steps": 40000, "failing_jobs": 150, "job:qis": 250, "job:qisi": 250, "job:ipf": 100, "job:sobol": 250, "job:integerise": 80}
ASSUMPTIONS = ["a leak shows as growth in three consecutive windows, and by 16 bytes, an interpreter block or a reference per repetition in two longer ones"]


def prepare(run):
    d = os.path.join(build.scratch(), "heap")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "heap.so")
    build._run(["gcc", "-O1", "-shared", "-fPIC", os.path.join(build.VERIF, "cpp", "heap.c"), "-o", so], "compilation of the heap probe")
    return dict(rlang.prepare("rel"), rpreload=so)


class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def setup(ctx):
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    ctx.mallinfo = libc.mallinfo2
    try:
        ctx.start = ctypes.c_uint32.in_dll(ctypes.CDLL(ctx.hl.__file__), "humanleague_monitor_sobol_start")
    except ValueError:
        ctx.start = None
    for i in range(60):                      # everything that is initialised at first use
        C15.digest(lambda: C15.call(ctx.hl, C15.make(i, 1)))
    gc.collect()
    gc.freeze()


COMMON = [np.dtype(t) for t in (np.int64, np.float64, np.int32, bool)] + [np.ndarray]


def leaves(x, depth=0):
    if isinstance(x, (list, tuple)) and depth < 4:
        return [x] + [z for y in x for z in leaves(y, depth + 1)]
    return [x]


def snapshot(ctx, watched):
    gc.collect()
    m = ctx.mallinfo()
    return m.uordblks + m.hblkhd, sys.getallocatedblocks(), sum(map(sys.getrefcount, watched))


NAMES = ("bytes of heap", "interpreter blocks", "references to arguments and types")


def windows(ctx, f, reps, watched, what, big=False):
    t = time.process_time()
    for _ in range(4):
        f()
    if time.process_time() - t > (2 if big else 0.1):
        ctx.count("slow")
        return
    s = [snapshot(ctx, watched)]
    ns = [reps, reps, reps, reps * 10, max(reps * 50, 1000)] if not big else [reps, reps, reps, reps * 3, reps * 8]
    UNIT = (256, 1, 1) if big else (16, 1, 1)         # the least that the loss of a block, object or reference makes
    for w, n in enumerate(ns):
        for _ in range(n):
            f()
        s.append(snapshot(ctx, watched))
        ctx.count("python_calls", n)
        # caches may fill up at first
        grown = [k for k in range(3) if all(s[i + 1][k] - s[i][k] >= UNIT[k] * ns[i] * (0.25 if i < 3 else 0.9) for i in range(w + 1))]
        if not grown:
            return
    ctx.fail("leak:" + what.split()[0], "%s: %s grow by %r in windows of %r calls" % (what, NAMES[grown[0]], [s[i + 1][grown[0]] - s[i][grown[0]] for i in range(5)], ns))


def job(ctx):
    """(description, thunk, arguments): one call, repeatable."""
    rng, hl = ctx.rng, ctx.hl
    c = rng.random()
    if c < 0.6:
        while True:
            item = C15.some(rng, ctx.seed)
            if item[0] != "sobol":
                break
        return item[0], (lambda: C15.call(hl, item)), item[1]
    if c < 0.72:
        kind, p = hostile.malformed(rng, maxpop=40)
        if kind == "too_large":
            return job(ctx)
        a = hostile.args(p)
        return "%s %s" % (p["fn"], kind), (lambda: getattr(hl, p["fn"])(*a)), a
    if c < 0.8:
        kind, fn, a = hostile.other_malformed(rng)
    else:
        p = hostile.valid(rng, maxpop=40, maxcells=60)
        fn, a = p["fn"], hostile.mutated_call(rng, p)
        kind = "arbitrary"
    if hostile.needs_memory(fn, a, 1 << 22):
        return job(ctx)
    return "%s %s" % (fn, kind), (lambda: getattr(hl, fn)(*a)), a


def swallow(ctx, f):
    def g():
        try:
            f()
            return True
        except Exception:
            return False
    return g


def big(ctx):
    fn, a = gen.big_call(ctx.rng, 4200, 9000)
    ctx.inputs(call=fn, arguments=a)
    if ctx.rng.random() < 0.15 and fn in ("qis", "qisi", "ipf"):
        a[-1][0] = a[-1][0] + 1               # refused
    g = swallow(ctx, lambda: getattr(ctx.hl, fn)(*a))
    g()
    windows(ctx, g, 4, leaves(list(a)) + COMMON, fn, True)
    ctx.count("big")
    ctx.observed(fn, *leaves(list(a[-1] if isinstance(a[-1], list) else a)))


def repeated(ctx):
    what, f, a = job(ctx)
    ctx.inputs(call=what, arguments=a)
    g = swallow(ctx, f)
    t = time.process_time()
    ok = g()
    if time.process_time() - t > 0.02:      # too slow to repeat
        ctx.count("slow")
        return ctx.trivial()
    watched = leaves(list(a)) + COMMON
    windows(ctx, g, 24, watched, what)
    ctx.count("python_repeated"); ctx.count("python_failing", int(not ok)); ctx.count("python:" + what.split()[0])
    r = None
    try:
        r = f()
    except Exception:       # consumed arguments
        pass
    if r is not None:
        parts = [r] if isinstance(r, np.ndarray) else list(r.values()) if isinstance(r, dict) else list(r) if isinstance(r, (list, tuple)) else []
        arrays = [x for x in parts if isinstance(x, np.ndarray)]
        del parts
        counts = [sys.getrefcount(x) for x in arrays]
        held = 2 if isinstance(r, np.ndarray) else 3
        # each array of the result is referred to by: the result, the list here, the loop
        ctx.check(all(c <= held + 2 for c in counts), "result-references", "%s: reference counts of the results are %r" % (what, counts))
    ctx.observed(what, a if all(isinstance(x, np.ndarray) for x in leaves(list(a))) else repr(a)[:2000])


def generators(ctx):
    rng, hl = ctx.rng, ctx.hl
    how = int(rng.integers(9))
    d = int(rng.choice([1, 2, 5, 40, 300, 1111]))
    sk = int(rng.choice([0, 0, 1, 9, 100])) if d > 5 else gen.skips(rng) % 3000
    n = int(rng.integers(1, 12))
    if how == 7 and ctx.start is None:
        how = 0
    ctx.inputs(generator=d, skips=sk, points=n, how=how)

    def f():
        if how == 0:
            g = hl.SobolSequence(d, sk)
        elif how == 1:
            g = hl.SobolSequence(d)
            for _ in range(n):
                next(g)
        elif how == 2:
            g = hl.SobolSequence(d, sk)
            l = [g]; l.append(l)
            next(g)
        elif how == 3:
            g = iter(iter(hl.SobolSequence(d, sk)))
            p = [next(g) for _ in range(n)]
            del g
            p[0] + p[-1]
        elif how == 4:
            for x in (0, -1, 1112, 1 << 40, 2.5, "x", None):
                try:
                    hl.SobolSequence(x, sk)
                except Exception:
                    pass
        elif how == 5:
            for a in ((), (1, 2, 3), (2, -1), (2, 1 << 64), (2, None), (2, 0.5)):
                try:
                    g = hl.SobolSequence(*a)
                    next(g)
                except Exception:
                    pass
        elif how == 6:
            for i, p in zip(range(n), hl.SobolSequence(d, sk)):
                p.sum()
        elif how == 7:
            ctx.start.value = (1 << 32) - 1 - n
            try:
                g = hl.SobolSequence(d)
            finally:
                ctx.start.value = 0
            for i in range(n + 5):
                try:
                    next(g)
                except StopIteration:
                    pass
        else:
            g = hl.SobolSequence(d, sk)
            try:
                g.no_such_thing
            except AttributeError:
                pass
            try:
                g.__init__(0)
            except Exception:
                pass
            g.__init__(d, sk)
            next(g)
    windows(ctx, f, 24, COMMON + [hl.SobolSequence], "generator use %d" % how)
    ctx.count("generators"); ctx.count("exhausted", int(how == 7))
    ctx.observed("generator", d, sk, n, how)


def history(ctx):
    rng = ctx.rng
    jobs = [job(ctx) for _ in range(int(rng.integers(5, 20)))]
    watched = COMMON + [x for j in jobs for x in leaves(list(j[2]))]
    fs = [swallow(ctx, j[1]) for j in jobs]
    order = [int(k) for k in rng.integers(len(fs), size=len(fs) * 2)]
    ctx.inputs(history=[j[0] for j in jobs], order=order)
    t = time.process_time()
    for k in order:
        fs[k]()
    if time.process_time() - t > 0.05:
        ctx.count("slow")
        return ctx.trivial()

    def f():
        for k in order:
            fs[k]()
    windows(ctx, f, 12, watched, "history")
    ctx.count("python_histories")
    ctx.observed("history", [j[0] for j in jobs], order)


def r_arguments(rng, large=False):
    k, shp, sets, ms, a = gen.problem(rng, "partition", shp=gen.big_shape(rng, 4200, 6000), maxpop=12) if large else gen.problem(rng, maxcells=40, maxpop=40)
    il = rlang.lst([rlang.int_(np.array(s) + 1) for s in sets])
    ml = rlang.lst([rlang.num(np.asarray(m), dim="force") for m in ms])
    fn = ["qis", "qisi", "ipf", "integerise", "flatten", "sobolSequence", "prob2IntFreq"][rng.integers(7)]
    args = {"qis": [il, ml], "qisi": [rlang.num(np.ones(shp)), il, ml], "ipf": [rlang.num(np.ones(shp)), il, ml], "integerise": [rlang.num(a.astype(float) if large else (a + a[::-1]) / 2.0, dim="force")],
            "flatten": [rlang.int_(a, dim="force"), rlang.chars(["c%d" % d for d in range(a.ndim)])], "sobolSequence": [rlang.int_(int(rng.integers(0, 50))), rlang.int_(int(rng.integers(4200, 6000) if large else rng.integers(0, 50)))],
            "prob2IntFreq": [rlang.num(np.array([.25, .5, .25]) * float(rng.choice([1, 1, 2]))), rlang.int_(int(rng.integers(-2, 100)))]}[fn]
    return fn, args


def r_calls(ctx):
    from checks import C20
    rng = ctx.rng
    large = rng.random() < 0.1
    if large or rng.random() < 0.5:
        fn, args = r_arguments(rng, large)
        kind = "ordinary"
    else:
        kind, fn, args = C20.malformed(rng)
        if kind in ("too_large", "R_too_many"):
            kind = "ordinary"
            fn, args = "sobolSequence", [rlang.int_(0), rlang.int_(5)]
    ctx.inputs(R=fn, kind=kind, arguments=args)
    r = ctx.R.leak(fn, args, 4 if large else 150)
    ctx.count("R_large", int(large))
    ctx.check(not r["leak"], "R-leak:" + fn, lambda: "R %s (%s): %s grow by %r in windows of %r calls" % (fn, kind, r["what"], r["growth"], r["reps"]))
    ctx.count("R_calls", sum(r["reps"])); ctx.count("R_blocks", int(r.get("blocks", 0))); ctx.count("R:" + fn); ctx.count("R_failing", int(not r["ok"]))
    ctx.observed("R", fn, repr(args)[:3000])


def case(ctx):
    c = ctx.rng.random()
    (big if c < 0.03 else repeated if c < 0.62 else generators if c < 0.8 else history if c < 0.86 else r_calls)(ctx)


def post(run, env, extra, replay=None):
    link = ["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
    exe = cpp.program(run, "c23", "c23.cpp", ["-O2", "-g1", "-DNDEBUG"], link)
    if exe is None:
        return
    cpp.drive(run, exe, CPP[run.tier], replay=replay)
