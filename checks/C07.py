"""C07: skips, in the sequence, both samplers and both languages."""
import numpy as np
from lib import cpp, gen, ref, rlang
from lib.oracles import call_qis, call_qisi

ID, BUILD = "C07", "rel"
RULE = ("skip counts at, just below and just above powers of two, random ones, and invalid ones; python and R sequences compared with the independent generator at the documented position, qis samples with the "
        "reference sampler, qisi samples between equivalent and inequivalent skips; non-trivial if the skip is positive and the outcome differs from the unskipped one; in C++ (sanitizer build), histories of points, single coordinates, skips and resets of one object compared with a model; distinct by what was computed")
QUICK, THOROUGH = 1600, 12000
CPP = {"quick": 12000, "thorough": 400000}
REQUIRE = {"sequence": 200, "qis": 200, "qisi": 100, "R_sequence": 50, "R_qis": 50, "R_qisi": 30, "rejected": 50, "qisi_sensitive": 20, "deep": 3, "R_deep": 4}
REQUIRE_CPP = {'skips': 25000, 'skips_inside': 9000, 'skips_long': 2500, 'skips_zero': 900, 'resets': 9000, 'points': 40000, 'coordinates': 1500000}
prepare = lambda run: rlang.prepare("rel")

EXTRA = [1, 2, 3, 4, 5]


def a_skip(rng, top=20):
    c = rng.random()
    if c < 0.6:
        k = int(rng.integers(0, top + 1))
        return max(0, (1 << k) + int(rng.choice([-1, 0, 1, 2])))
    if c < 0.7:
        return int(rng.integers(0, 6))
    return int(rng.integers(0, 1 << int(rng.integers(1, top + 1))))


def equivalent(rng, n):
    """Another skip count with the same largest smaller power of two."""
    s = gen.skipped(n)
    if s == 0:
        return 0
    if s == 1:
        return int(rng.choice([1, 2]))
    return int(rng.choice([s + 1, 2 * s, int(rng.integers(s + 1, 2 * s + 1))]))


def case(ctx):
    rng = ctx.rng
    deep = [(1, (1 << 25) - 1), (2, (1 << 24) + 1), (1, 1 << 26), (1, (1 << 26) + 3)]
    if ctx.tier == "thorough":
        deep += [(1, (1 << 31) - 1), (1, 1 << 31), (1, (1 << 31) + 1), (1, (1 << 32) - 1)]
    if ctx.i < len(deep):
        d, n = deep[ctx.i]
        sequence(ctx, d, n)
        ctx.count("deep")
        return
    if ctx.i < len(deep) + 6:
        r_sequence(ctx, 1, [(1 << 25) - 1, (1 << 26) - 1, (1 << 26) + 1, (1 << 24) + 1, (1 << 25) + 2, (1 << 26) - 2][ctx.i - len(deep)])
        ctx.count("R_deep")
        return
    [sequence, sequence, qis, qis, qisi, r_sequence, r_qis, r_qisi, reject][rng.choice(9, p=[.15, .05, .15, .1, .15, .1, .1, .1, .1])](ctx)


def sequence(ctx, d=None, n=None):
    rng = ctx.rng
    d = d or int(rng.choice([1, 2, 3, 7, 40, 1111], p=[.3, .2, .2, .15, .1, .05]))
    n = a_skip(rng, 21 if d < 8 else 13) if n is None else n
    k = int(rng.integers(1, 20))
    ctx.inputs(what="SobolSequence", dim=d, skips=n)
    s = ctx.hl.SobolSequence(d, n)
    got = np.array([next(s) for _ in range(k)])
    exp = ref.sobol(d, gen.skipped(n), k) / 4294967296.0
    ctx.check(np.array_equal(got, exp), "sequence", lambda: "SobolSequence(%d, %d) does not continue from point %d" % (d, n, gen.skipped(n) + 1))
    ctx.count("sequence")
    ctx.observed("s", d, n, got) if n else ctx.trivial()


def problem(rng, n):
    kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][int(rng.random() < .4)], maxcells=100, maxdim=4, maxpop=100)
    return shp, sets, ms


def qis(ctx):
    rng = ctx.rng
    n = a_skip(rng, 18)
    shp, sets, ms = problem(rng, n)
    ctx.inputs(what="qis", skips=n, sets=sets, marginals=ms)
    exp = ref.qis(shp, sets, ms, gen.skipped(n))
    res = call_qis(ctx, sets, ms, n)[0]
    ctx.check(np.array_equal(res, exp), "qis", lambda: "qis with skips=%d is not the sample from point %d" % (n, gen.skipped(n) + 1))
    m = equivalent(rng, n)
    r2 = call_qis(ctx, sets, ms, m)[0]
    ctx.check(np.array_equal(res, r2), "qis-equivalent", lambda: "qis with skips %d and %d differ" % (n, m))
    if n == 0:
        ctx.check(np.array_equal(res, call_qis(ctx, sets, ms)[0]), "qis-default", "qis without skips differs from skips=0")
    ctx.count("qis")
    base = ref.qis(shp, sets, ms, 0)
    ctx.observed("q", n, sets, *ms, res) if not np.array_equal(base, res) else ctx.trivial()


def qisi(ctx):
    rng = ctx.rng
    n = a_skip(rng, 18)
    shp, sets, ms = problem(rng, n)
    seed = rng.random(shp) + 0.1
    ctx.inputs(what="qisi", skips=n, sets=sets, marginals=ms, seed=seed)
    res = call_qisi(ctx, seed, sets, ms, n)[0]
    m = equivalent(rng, n)
    r2 = call_qisi(ctx, seed, sets, ms, m)[0]
    ctx.check(np.array_equal(res, r2), "qisi-equivalent", lambda: "qisi with skips %d and %d differ" % (n, m))
    base = call_qisi(ctx, seed, sets, ms)[0]
    if n == 0:
        ctx.check(np.array_equal(res, base), "qisi-default", "qisi without skips differs from skips=0")
    # two individuals, two equal states per dimension: the first point decides the sample completely
    w = np.full((2,) * 3, 1.0)
    one = [np.array([1, 0]), np.array([1, 1])]
    sets1, ms1 = [[0], [1], [2]], [np.array([1, 1])] * 3
    e = np.zeros((2, 2, 2), np.int64)
    p = ref.sobol_point(3, gen.skipped(n) + 1)
    first = tuple(int(x >> 31) for x in p)
    e[first] = 1
    e[tuple(1 - x for x in first)] = 1
    got = call_qisi(ctx, w, sets1, ms1, n)[0]
    if all(x & 0x7fffffff for x in p.tolist()):      # not at a category boundary
        ctx.check(np.array_equal(got, e), "qisi-position", lambda: "qisi with skips=%d does not start at point %d" % (n, gen.skipped(n) + 1))
        ctx.count("qisi_position")
    ctx.count("qisi")
    if not np.array_equal(base, res):
        ctx.count("qisi_sensitive")
        ctx.observed("i", n, sets, seed, *ms, res)
    else:
        ctx.trivial()


def r_sequence(ctx, d=None, n=None):
    rng = ctx.rng
    d = d or int(rng.choice([1, 2, 3, 9]))
    n = a_skip(rng, 20) if n is None else n
    k = int(rng.integers(1, 10))
    ctx.inputs(what="R sobolSequence", dim=d, skip=n)
    got = ctx.R("sobolSequence", rlang.int_(d), rlang.int_(k), rlang.int_(n)) if n or rng.random() < .5 else ctx.R("sobolSequence", rlang.int_(d), rlang.int_(k))
    exp = ref.sobol(d, gen.skipped(n), k) / 4294967296.0
    ctx.check(np.array_equal(got, exp), "R-sequence", lambda: "sobolSequence(%d, %d, %d) does not continue from point %d" % (d, k, n, gen.skipped(n) + 1))
    ctx.count("R_sequence")
    ctx.observed("rs", d, n, got) if n else ctx.trivial()


def r_qis(ctx):
    rng = ctx.rng
    n = a_skip(rng, 18)
    shp, sets, ms = problem(rng, n)
    ctx.inputs(what="R qis", skips=n, sets=sets, marginals=ms)
    nd = len(shp)
    sets, ms = sets[::-1], ms[::-1]        # R visits marginals from the last to the first
    ctx.inputs(what="R qis", skips=n, sets=sets, marginals=ms)
    args = [rlang.lst([rlang.int_([d + 1 for d in s]) for s in sets]), rlang.lst([rlang.int_(m) for m in ms])]
    res = ctx.R("qis", *args, rlang.int_(n))["result"]
    py = ctx.hl.qis([[nd - 1 - d for d in s] for s in reversed(sets)], list(reversed(ms)), n)[0]
    ctx.check(np.array_equal(res, py.T), "R-qis", lambda: "R qis with skips=%d differs from python" % n)
    m = equivalent(rng, n)
    ctx.check(np.array_equal(res, ctx.R("qis", *args, rlang.int_(m))["result"]), "R-qis-equivalent", lambda: "R qis with skips %d and %d differ" % (n, m))
    if n == 0:
        ctx.check(np.array_equal(res, ctx.R("qis", *args)["result"]), "R-qis-default", "R qis without skips differs from skips=0")
    ctx.count("R_qis")
    ctx.observed("rq", n, sets, *ms, res) if n else ctx.trivial()


def r_qisi(ctx):
    rng = ctx.rng
    n = a_skip(rng, 18)
    shp, sets, ms = problem(rng, n)
    seed = rng.random(shp) + 0.1
    ctx.inputs(what="R qisi", skips=n, sets=sets, marginals=ms, seed=seed)
    nd = len(shp)
    sets, ms = sets[::-1], ms[::-1]
    ctx.inputs(what="R qisi", skips=n, sets=sets, marginals=ms, seed=seed)
    args = [rlang.num(seed), rlang.lst([rlang.int_([d + 1 for d in s]) for s in sets]), rlang.lst([rlang.int_(m) for m in ms])]
    res = ctx.R("qisi", *args, rlang.int_(n))["result"]
    py = ctx.hl.qisi(np.ascontiguousarray(seed.T), [[nd - 1 - d for d in s] for s in reversed(sets)], list(reversed(ms)), n)[0]
    ctx.check(np.array_equal(res, py.T), "R-qisi", lambda: "R qisi with skips=%d differs from python" % n)
    if n == 0:
        ctx.check(np.array_equal(res, ctx.R("qisi", *args)["result"]), "R-qisi-default", "R qisi without skips differs from skips=0")
    ctx.count("R_qisi")
    ctx.observed("ri", n, sets, *ms, res) if n else ctx.trivial()


def reject(ctx):
    rng = ctx.rng
    n = [-1, -2, -(1 << 31), -(1 << 32), -(1 << 63), 1 << 32, (1 << 32) + 1, 1 << 33, (1 << 63) - 1, 1 << 64, int(-rng.integers(1, 1 << 40)), int(rng.integers(1 << 32, 1 << 60))][rng.integers(12)]
    what = int(rng.integers(3))
    ms = [np.array([1, 2]), np.array([2, 1])]
    ctx.inputs(what=["SobolSequence", "qis", "qisi"][what], skips=n)
    f = [lambda: ctx.hl.SobolSequence(2, n), lambda: ctx.hl.qis([[0], [1]], ms, n), lambda: ctx.hl.qisi(np.ones((2, 2)), [[0], [1]], ms, n)][what]
    try:
        f()
    except Exception:
        pass
    else:
        ctx.fail("accepted", "%s accepts skips=%d" % (ctx.last["what"], n))
    if -(1 << 31) < n < 0:
        i, m = rlang.lst([rlang.int_([1]), rlang.int_([2])]), rlang.lst([rlang.int_([1, 2]), rlang.int_([2, 1])])
        for fn, a in (("sobolSequence", [rlang.int_(2), rlang.int_(2)]), ("qis", [i, m]), ("qisi", [rlang.num(np.ones((2, 2))), i, m])):
            ctx.check(not ctx.R.raw(fn, a + [rlang.int_(n)])["ok"], "R-accepted", "R %s accepts skips=%d" % (fn, n))
            ctx.count("R_rejected")
    ctx.count("rejected")
    ctx.observed("reject", what, n)


def post(run, env, extra, replay=None):
    cpp.sequences(run, "skip", CPP[run.tier], replay)
