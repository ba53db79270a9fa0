"""C22: a failing memory allocation raises an error and leaves everything usable."""
import os
import numpy as np
from lib import build, cpp, gen, rlang, shim
from checks import C15, C23

ID, BUILD = "C22", "rel"
RULE = ("C++: jobs of every kind (successful and failing ones) run in a sanitizer build whose allocator fails the k-th allocation, alone or with all later ones, for every k (all of them up to 60, else the first, the last and random ones); each must raise or give its usual result, "
        "release every block, and give the same result when repeated; sequences and arrays that survive a failure must go on as before. Python: the same with the functions and the generator, failing allocations requested from the extension module (directly or by the C++ library) or numpy's core. R: single allocations of the functions fail in turn: an error or the usual result; "
        "distinct by job and failing allocations")
QUICK, THOROUGH = 660, 9000
CPP = {"quick": 2000, "thorough": 40000}
REQUIRE = {"python_failures": 6000, "python_raised": 5000, "python_retries": 300, "R_calls": 80, "R_failures": 1000, "R_raised": 800}
REQUIRE_CPP = {"shape:wide": 15, "shape:large": 4, "failures": 30000, "raised": 30000, "persistent": 10000, "resets": 500, "resizes": 300, "job:qis": 150, "job:qisi": 150, "job:ipf": 80, "job:sobol": 150, "job:integerise": 50}
ASSUMPTIONS = ["Python's own object allocations, and R's, do not fail"]


def prepare(run):
    so = shim.library()
    e = rlang.prepare("rel")
    return dict(e, shim=so, rpreload=so, rexclude=shim.r_ranges(e["rso"], os.path.join(build.scratch(), "r-ranges")))


def setup(ctx):
    hl = ctx.hl
    for i in range(40):                     # everything that is initialised at first use
        C15.digest(lambda: C15.call(hl, C15.make(i, 0)))
    ctx.shim = shim.Shim(ctx.extra["shim"], "_humanleague", "_multiarray_umath", binding=hl.__file__)
    ctx.check(len(ctx.shim.ranges) >= 2, "ranges", "the loaded objects were not found")


def state(x):
    if isinstance(x, (list, tuple)):
        return [state(y) for y in x]
    return (x.shape, str(x.dtype), x.tobytes()) if isinstance(x, np.ndarray) else repr(type(x))


def pick(rng, n, budget):
    if n <= budget:
        return list(range(1, n + 1))
    ks = set(range(1, budget // 3)) | set(range(n + 1 - budget // 3, n + 1)) | {int(k) for k in rng.integers(1, n + 1, budget // 3)}
    return sorted(ks)


def generator(ctx):
    rng, hl, s = ctx.rng, ctx.hl, ctx.shim
    dim, skips = int(rng.integers(1, 30)), int(rng.integers(0, 100))
    ctx.inputs(generator=dim, skips=skips)
    ref = hl.SobolSequence(dim, skips)
    expect = [next(ref).copy() for _ in range(8)]
    ok, g, n, f = s.run(0, False, lambda: hl.SobolSequence(dim, skips))
    for k in range(1, n + 1):
        ok, r, c, f = s.run(k, rng.random() < .4, lambda: hl.SobolSequence(dim, skips))
        ctx.check(not ok or f == 0 or (next(r) == expect[0]).all(), "generator-create", "allocation %d of %d fails" % (k, n))
        ctx.count("python_failures"); ctx.count("python_raised", int(not ok))
    g = hl.SobolSequence(dim, skips)
    i = 0
    for attempt in range(60):
        k = int(rng.integers(1, 4))
        ok, r, c, f = s.run(k, rng.random() < .4, lambda: next(g))
        ctx.count("python_failures", int(f > 0)); ctx.count("python_raised", int(not ok))
        ctx.check(ok or f > 0, "generator-error", "raises %r without a failure" % r)
        if ok:
            ctx.check((r == expect[i]).all(), "generator-next", "point %d is %s instead of %s after failures" % (i, r, expect[i]))
            i += 1
        elif not (next(g) == expect[i]).all():
            # the point may have been consumed by the failed call, but nothing else may have changed
            g = hl.SobolSequence(dim, skips)
            for _ in range(i):
                next(g)
        else:
            i += 1
        if i >= 7:
            break
    ctx.observed("generator", dim, skips)


def r_call(ctx):
    rng = ctx.rng
    fn, args = C23.r_arguments(rng)
    ks = sorted({int(k) for k in rng.integers(2, 12, 6)} | {1}) + [float(x) for x in rng.random(10)] + [1 << 30]
    ctx.inputs(R=fn, arguments=args, failing=ks)
    r = ctx.R.raw(fn, args, more={"fail": ks, "exclude": ctx.extra["rexclude"]})
    if not r["ok"]:
        ctx.check("not repeatable" not in r["msg"] and "not found" not in r["msg"], "R-repeat", "R %s: %s" % (fn, r["msg"]))
        return ctx.trivial()
    ctx.check(not r["bad"], "R-wrong-result:" + fn, lambda: "R %s: a different result is returned if allocation %r of %d fails" % (fn, r["bad"], r["n"]))
    ctx.check(r["after"], "R-retry:" + fn, "R %s gives a different result after failed allocations" % fn)
    ctx.check(not r["mutated"], "R-inputs:" + fn, "R %s: the arguments were changed" % fn)
    ctx.count("R_calls"); ctx.count("R_failures", r["failed"]); ctx.count("R_raised", r["raised"]); ctx.count("R:" + fn, int(r["failed"] > 0))
    ctx.observed("R", fn, repr(args)[:2000], r["n"]) if r["n"] else ctx.trivial()


def case(ctx):
    rng, hl, s = ctx.rng, ctx.hl, ctx.shim
    c = rng.random()
    if c < 0.1:
        return generator(ctx)
    if c < 0.35:
        return r_call(ctx)
    while True:
        item = C15.some(rng, ctx.seed)
        if item[0] != "sobol":
            break
    f = lambda: C15.call(hl, item)
    ctx.inputs(function=item[0], arguments=item[1])
    base = C15.digest(f)
    before = state(item[1])
    ok, r, n, _ = s.run(0, False, f)
    ctx.check(C15.digest(lambda: r) == base if ok else base[0] == "!", "repeat", "the call is not repeatable")
    r = None
    for k in pick(rng, n, 40 if n < 3000 else 12):
        persistent = rng.random() < 0.4
        ok, r, c, failed = s.run(k, persistent, f)
        w = "allocation %d of %d%s fails in %s" % (k, n, " and all later ones" if persistent else "", item[0])
        ctx.check(not ok or C15.digest(lambda: r) == base, "wrong-result", lambda: w + ": the result differs")
        ctx.check(ok or isinstance(r, (MemoryError, Exception)), "raise", w)
        r = None
        ctx.check(state(item[1]) == before, "inputs", lambda: w + ": the arguments were changed")
        ctx.count("python_failures", int(failed > 0)); ctx.count("python_raised", int(not ok)); ctx.count("python_reached", int(failed > 0))
    ctx.check(C15.digest(f) == base, "retry", "%s gives a different result after failed allocations" % item[0])
    ctx.count("python_retries"); ctx.count("python:" + item[0])
    ctx.observed(item[0], base, n) if n else ctx.trivial()


def post(run, env, extra, replay=None):
    link = [*cpp.SAN, "-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"]
    exe = cpp.program(run, "c22", "c22.cpp", cpp.SAN, link)
    if exe is None:
        return
    e = cpp.env()
    e["ASAN_OPTIONS"] += ":alloc_dealloc_mismatch=0"
    cpp.drive(run, exe, CPP[run.tier], e=e, replay=replay)
