"""C19: the R functions solve the problem the user states, as Python does."""
import numpy as np
from lib import gen, ref, rlang

ID, BUILD = "C19", "rel"
RULE = ("random problems of 2-6 dimensions (mostly of all different sizes) given to both the R functions, in column-major arrays with 1-based dimensions, and the Python functions, with reversed axes and lists; "
        "the results' orientation, marginal sums in the user's order, flags and statistics are recomputed and the two compared; non-trivial if the problem distinguishes the dimensions; distinct by problem and result")
QUICK, THOROUGH = 2400, 30000
REQUIRE = {"ipf": 300, "qis": 300, "qisi": 300, "integerise": 100, "prob2IntFreq": 80, "sobolSequence": 80, "flatten": 100, "all_sizes_differ": 250, "overlapping": 200, "permuted": 200, "both_refuse": 5, "not_converged": 20, "same_problem_fits": 60, "long_sequence": 15, "large_problem": 40, "large_table": 6, "many_probabilities": 7}
ASSUMPTIONS = ["the R interpreter and Rcpp installed here"]
CASE_CPU_S = 90
prepare = lambda run: rlang.prepare("rel")


def idx(rng, sets):
    e = rlang.int_ if rng.random() < 0.7 else rlang.num
    return rlang.lst([e(np.array(s) + 1) for s in sets])


def arr(rng, m, counts):
    e = rlang.int_ if counts and rng.random() < 0.7 else rlang.num
    return e(np.asarray(m), dim="force" if m.ndim > 1 or rng.random() < 0.5 else True)


def mirrored(nd, sets, ms):
    """The same problem as the library sees it: axes reversed, marginals last to first."""
    return [[nd - 1 - d for d in s] for s in sets[::-1]], [np.array(m) for m in ms[::-1]]


def both(ctx, fn, rargs, py):
    """(R result, Python result), or None if both refuse."""
    try:
        p = py()
    except Exception as e:
        p = e
    r = ctx.R.raw(fn, rargs)
    if isinstance(p, Exception):
        ctx.check(not r["ok"], "R-accepts", lambda: "R %s returns, but Python's raises %r" % (fn, p))
        ctx.count("both_refuse")
        return None
    ctx.check(r["ok"], "R-refuses", lambda: "R %s raises %r, but Python's returns" % (fn, r.get("msg")))
    ctx.check(not r["mutated"], "R-mutates", "R %s modified its arguments" % fn)
    return rlang.decode(r["v"]), p


def scalar(ctx, r, name, exp, rel=0.0):
    ctx.check(name in r, "missing:" + name, lambda: "the R result has no '%s': %r" % (name, list(r)))
    v = np.asarray(r[name], float).reshape(-1)
    ok = v.size == 1 and (v[0] == exp or abs(v[0] - exp) <= rel * max(abs(v[0]), abs(exp)) or (np.isnan(v[0]) and np.isnan(exp)))
    ctx.check(ok, "R-" + name, lambda: "R reports %s = %r, expected %r" % (name, v.tolist(), exp))


def features(ctx, shp, sets):
    for k in gen_features(shp, sets):
        ctx.count(k)


def gen_features(shp, sets):
    from lib.oracles import arrangement
    return arrangement(shp, sets)


def different(rng, **kw):
    """Mostly shapes in which no two dimensions have the same size."""
    if rng.random() < 0.55:
        nd = int(rng.choice([2, 3, 4, 5], p=[.3, .35, .25, .1]))
        return tuple(int(x) for x in rng.permutation(np.arange(2 if nd > 3 else rng.choice([1, 2, 3]), 9))[:nd]) if nd < 5 else tuple(int(x) for x in rng.permutation([1, 2, 3, 4, 5]))
    return gen.shape(rng, maxcells=400, **kw)


def large(rng, cells=20000):
    """Many cells in 2-5 dimensions, mostly of different sizes."""
    nd = int(rng.integers(2, 6))
    while True:
        shp = [max(1, int(round(cells ** w))) for w in rng.dirichlet(np.ones(nd) * 3) * rng.uniform(0.6, 1)]
        if 400 < np.prod(shp) <= cells and min(shp) > 1:
            return tuple(shp)


def case(ctx):
    fn = ["ipf", "qis", "qisi", "integerise", "prob2IntFreq", "sobolSequence", "flatten"][ctx.rng.choice(7, p=[.24, .26, .22, .1, .05, .05, .08])]
    globals()[fn](ctx)


def qis(ctx):
    rng = ctx.rng
    kind, shp, sets, ms, a = gen.problem(rng, shp=different(rng), maxpop=150)
    if rng.random() < 0.06:
        # larger in every respect: cells, categories and people
        kind, shp, sets, ms, a = gen.problem(rng, shp=large(rng), maxpop=int(10.0 ** rng.uniform(2, 4.5)))
        ctx.count("large_problem")
    elif rng.random() < 0.03:
        kind, shp, sets, ms, a = gen.problem(rng, "partition", shp=gen.long_shape(rng, 70000) if rng.random() < 0.4 else gen.many_shape(rng, 9), maxpop=20)
    nd, pop = len(shp), int(a.sum())
    sk = gen.skips(rng)
    ctx.inputs(fn="qis", shape=shp, indices=sets, marginals=ms, skips=sk)
    args = [idx(rng, sets), rlang.lst([arr(rng, m, True) for m in ms])]
    if sk or rng.random() < 0.5:
        args.append(rlang.int_(sk) if rng.random() < 0.7 else rlang.num(float(sk)))
    I, M = mirrored(nd, sets, ms)
    x = both(ctx, "qis", args, lambda: ctx.hl.qis(I, M, sk))
    if x is None:
        return ctx.trivial()
    r, (p, st) = x
    res = r["result"]
    ctx.check(res.shape == shp, "R-orientation", lambda: "R qis returns dimensions %r for a problem of dimensions %r" % (res.shape, shp))
    ctx.check((res >= 0).all() and int(res.sum()) == pop, "R-total", lambda: "R qis returns a population of %d, not %d" % (res.sum(), pop))
    ok = gen.matches(res, sets, ms)
    scalar(ctx, r, "conv", ok); scalar(ctx, r, "pop", pop)
    if kind in ("partition", "decomposable") and gen.is_decomposable(sets[::-1]):
        ctx.check(ok, "R-marginals", lambda: "R qis does not reproduce the marginals of a %s problem" % kind)
    ctx.check(np.array_equal(res, p.T), "R-sample", "R qis differs from Python's qis of the problem with axes and list reversed")
    e = r["expectation"]
    ctx.check(e.shape == shp and np.allclose(e, np.asarray(st["expectation"]).T, rtol=1e-13, atol=0, equal_nan=True), "R-expectation", "R qis expectation is not the transposed Python expectation")
    for k in ("chiSq", "pValue", "degeneracy"):
        scalar(ctx, r, k, st[k], 1e-12)
    done(ctx, "qis", shp, sets, ok, pop, res)


def qisi(ctx):
    rng = ctx.rng
    if rng.random() < 0.8:
        shp, sets, ms, seed, a, style = gen.feasible(rng, shp=different(rng, maxdim=5), integral=True, maxpop=100)
    else:
        kind, shp, sets, ms, a = gen.problem(rng, shp=different(rng, maxdim=4), maxpop=60)
        seed, style = gen.seed(rng, shp)
    if rng.random() < 0.06:
        shp, sets, ms, seed, a, style = gen.feasible(rng, shp=large(rng, 4000), maxcells=4000, integral=True, maxpop=int(10.0 ** rng.uniform(2, 3.8)))
        ctx.count("large_problem")
    elif rng.random() < 0.03:
        kind, shp, sets, ms, a = gen.problem(rng, "partition", shp=gen.long_shape(rng, 40000) if rng.random() < 0.3 else gen.many_shape(rng, 9), maxpop=20)
        seed, style = gen.quick_seed(rng, shp), "positive"
    nd, pop = len(shp), int(ms[0].sum())
    sk = gen.skips(rng)
    ctx.inputs(fn="qisi", seed=seed, indices=sets, marginals=ms, skips=sk)
    args = [rlang.num(seed, dim="force"), idx(rng, sets), rlang.lst([arr(rng, m, True) for m in ms])]
    if sk or rng.random() < 0.5:
        args.append(rlang.int_(sk))
    I, M = mirrored(nd, sets, ms)
    x = both(ctx, "qisi", args, lambda: ctx.hl.qisi(np.ascontiguousarray(seed.T), I, M, sk))
    if x is None:
        return ctx.trivial()
    r, (p, st) = x
    res = r["result"]
    ctx.check(res.shape == shp, "R-orientation", lambda: "R qisi returns dimensions %r for a problem of dimensions %r" % (res.shape, shp))
    ctx.check((res >= 0).all() and int(res.sum()) == pop, "R-total", lambda: "R qisi returns a population of %d, not %d" % (res.sum(), pop))
    ctx.check((res[seed == 0] == 0).all(), "R-impossible", "R qisi populates a state with zero seed")
    ok = gen.matches(res, sets, ms)
    scalar(ctx, r, "conv", ok); scalar(ctx, r, "pop", pop)
    ctx.check(np.array_equal(res, p.T), "R-sample", "R qisi differs from Python's qisi of the problem with axes and list reversed")
    e = r["expectation"]
    ctx.check(e.shape == shp and np.allclose(e, np.asarray(st["expectation"]).T, rtol=1e-12, atol=0, equal_nan=True), "R-expectation", "R qisi expectation is not the transposed Python expectation")
    for k in ("chiSq", "pValue"):
        scalar(ctx, r, k, st[k], 1e-12)
    done(ctx, "qisi", shp, sets, ok, pop, res)


def ipf(ctx):
    rng = ctx.rng
    shp, sets, ms, seed, a, style = gen.feasible(rng, shp=different(rng), maxcells=400)
    if rng.random() < 0.08:
        shp, sets, ms, seed, a, style = gen.feasible(rng, shp=large(rng), maxcells=20000)
        ctx.count("large_problem")
    nd = len(shp)
    unique = style in ("unity", "positive") and len(set(sum(sets, []))) == len(sum(sets, []))
    if rng.random() < 0.15:
        k, shp, sets, ms, a = gen.problem(rng, shp=different(rng), maxpop=60)
        seed, style = gen.seed(rng, shp)
        nd, unique = len(shp), False
    ctx.inputs(fn="ipf", seed=seed, indices=sets, marginals=ms)
    args = [rlang.num(seed, dim="force"), idx(rng, sets), rlang.lst([arr(rng, m, m.dtype.kind == "i") for m in ms])]
    I, M = mirrored(nd, sets, [m.astype(float) for m in ms])
    x = both(ctx, "ipf", args, lambda: ctx.hl.ipf(np.ascontiguousarray(seed.T), I, M))
    if x is None:
        return ctx.trivial()
    r, (p, st) = x
    res = r["result"]
    ctx.check(res.shape == shp, "R-orientation", lambda: "R ipf returns dimensions %r for a problem of dimensions %r" % (res.shape, shp))
    dev = ref.deviations(res, sets, ms)
    scale = max(1.0, max(float(m.max()) for m in ms if m.size))
    scalar(ctx, r, "conv", st["conv"]); scalar(ctx, r, "iterations", st["iterations"])
    scalar(ctx, r, "pop", st["pop"]); scalar(ctx, r, "pop", float(np.sum(ms[0])), (0.5 + 1e-9) / max(1e-3, float(np.sum(ms[0]))) if np.sum(ms[0]) > 1 else np.inf)
    got = float(np.asarray(r["maxError"]).reshape(-1)[0])
    ctx.check(abs(got - dev) <= 1e-9 * scale or not np.isfinite(dev), "R-maxError", lambda: "R ipf reports maxError %r, the largest deviation is %r" % (got, dev))
    if st["conv"]:
        ctx.check(dev <= 1e-8 + 1e-12 * scale * np.prod(shp), "R-marginals", lambda: "R ipf reports convergence, but deviates by %g" % dev)
    ctx.check((res[seed == 0] == 0).all(), "R-zero", "R ipf fills a state with zero seed")
    ctx.check(np.allclose(res, p.T, rtol=1e-12, atol=1e-300, equal_nan=True), "R-fit", "R ipf differs from Python's fit with axes and list reversed")
    if unique and st["conv"]:
        q, st2 = ctx.hl.ipf(np.ascontiguousarray(seed), [list(s) for s in sets], [m.astype(float) for m in ms])
        if st2["conv"]:
            ctx.check(np.allclose(res, q, rtol=1e-6, atol=1e-6 * scale), "R-fit-same", "R ipf differs from Python's fit of the same problem")
            ctx.count("same_problem_fits")
    done(ctx, "ipf", shp, sets, st["conv"], 1, res)


def done(ctx, fn, shp, sets, ok, pop, res):
    ctx.count(fn)
    features(ctx, shp, sets)
    if not ok:
        ctx.count("not_converged")
    ctx.observed(fn, shp, sets, res) if pop > 0 and sum(n > 1 for n in shp) > 1 else ctx.trivial()


def integerise(ctx):
    from checks import C11
    rng = ctx.rng
    if rng.random() < 0.15:
        n = int(rng.integers(1, 20))
        x = rng.dirichlet(np.ones(n)) * int(rng.integers(1, 200))
    else:
        x = C11.array(rng)[1]
        if x.size > 5000:
            return ctx.trivial()
    if rng.random() < 0.1:
        x.reshape(-1)[int(rng.integers(x.size))] += 0.5
    ctx.inputs(fn="integerise", population=x)
    y = both(ctx, "integerise", [rlang.num(x, dim="force")], lambda: ctx.hl.integerise(np.ascontiguousarray(x.T)))
    if y is None:
        return ctx.trivial()
    r, (p, st) = y
    res = r["result"]
    ctx.check(res.shape == x.shape, "R-orientation", lambda: "R integerise returns dimensions %r for %r" % (res.shape, x.shape))
    ctx.check((res >= 0).all() and int(res.sum()) == round(float(x.sum())) and (res[x == 0] == 0).all(), "R-total", "R integerise: total, sign or zeros")
    ok = x.ndim == 1 or all(np.array_equal(gen.marginal(res, [d]), np.round(gen.marginal(x, [d])).astype(np.int64)) for d in range(x.ndim))
    scalar(ctx, r, "conv", ok)
    scalar(ctx, r, "rmse", float(np.sqrt(np.mean((res - x) ** 2))), 1e-9)
    ctx.check(np.array_equal(res, p.T), "R-integerise", "R integerise differs from Python's on the reversed axes")
    ctx.count("integerise")
    ctx.observed("integerise", x, res) if x.ndim > 1 else ctx.trivial()


def prob2IntFreq(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 5, 10, 50, 300]))
    if rng.random() < 0.15:
        n = int(2.0 ** rng.uniform(8, 14.5))
        ctx.count("many_probabilities")
    w = [lambda: rng.random(n), lambda: rng.integers(0, 4, n) + 0.0, lambda: 10.0 ** rng.uniform(-6, 3, n), lambda: np.ones(n)][rng.integers(4)]()
    if w.sum() == 0:
        w[0] = 1
    p = w / w.sum()
    pop = int(rng.choice([0, 1, 7, 100, 12345, 1 << 24, (1 << 31) - 1]))
    ctx.inputs(fn="prob2IntFreq", p=p, pop=pop)
    r = ctx.R("prob2IntFreq", rlang.num(p), rlang.int_(pop))
    f, st = ctx.hl.integerise(p.copy(), pop)
    g = np.asarray(r["freq"], np.int64)
    eps = 4e-15 * pop + 1e-10       # rounding noise in the shares, which decides between equal remainders
    if not np.array_equal(g, f):
        shares = p.astype(np.longdouble) * pop
        err = ref.largest_remainder_ok(g, shares, pop, eps)
        ctx.check(err is None, "R-frequencies", lambda: "R prob2IntFreq differs from Python's integerise: %s" % err)
        ctx.check(np.abs(np.sort((g - shares).astype(float)) - np.sort((f - shares).astype(float))).max() <= 2 * eps, "R-frequencies", "R prob2IntFreq differs from Python's integerise")
        ctx.count("different_ties")
    scalar(ctx, r, "rmse", st["rmse"], eps / max(st["rmse"], eps) + 1e-12)
    ctx.count("prob2IntFreq")
    ctx.observed("p", p, pop)


def sobolSequence(ctx):
    rng = ctx.rng
    d, n = int(rng.choice([1, 2, 3, 8, 40, 1111], p=[.2, .2, .2, .2, .15, .05])), int(rng.integers(1, 60))
    if rng.random() < 0.3:
        d = int(rng.choice([1, 2, 3, 5, 9, 17, 33, 100, 600]))
        n = min(int(2.0 ** rng.uniform(6, 14)), 60000 // d)
        ctx.count("long_sequence")
    sk = gen.skips(rng)
    ctx.inputs(fn="sobolSequence", dim=d, n=n, skip=sk)
    r = ctx.R("sobolSequence", rlang.int_(d), rlang.int_(n), rlang.int_(sk)) if sk or rng.random() < 0.5 else ctx.R("sobolSequence", rlang.int_(d), rlang.int_(n))
    g = ctx.hl.SobolSequence(d, sk)
    p = np.array([next(g) for _ in range(n)])
    ctx.check(r.shape == (n, d), "R-orientation", lambda: "R sobolSequence returns %r" % (r.shape,))
    ctx.check(np.array_equal(r, p), "R-sequence", "R sobolSequence differs from Python's SobolSequence")
    ctx.count("sobolSequence")
    ctx.observed("s", d, n, sk)


def flatten(ctx):
    rng = ctx.rng
    shp = different(rng) if rng.random() < 0.85 else (int(rng.integers(1, 30)),)
    a = gen.population(rng, shp, 120)
    if rng.random() < 0.1:
        shp = [lambda: gen.long_shape(rng, 20000), lambda: gen.many_shape(rng, 9), lambda: different(rng)][rng.integers(3)]()
        a = gen.population(rng, shp, int(10.0 ** rng.uniform(2.5, 4.3)))
        ctx.count("large_table")
    names = ["c%d" % k for k in range(a.ndim + int(rng.integers(3)))]
    ctx.inputs(fn="flatten", array=a)
    r = ctx.R("flatten", arr(rng, a, True), rlang.chars(names))
    ctx.check(list(r) == names[:a.ndim], "R-columns", lambda: "columns %r" % (list(r),))
    t = np.array([r[k] for k in names[:a.ndim]]).T.reshape(-1, a.ndim) - 1
    b = np.zeros(shp, np.int64)
    ctx.check(len(t) == 0 or ((t >= 0).all() and (t < np.array(shp)).all()), "R-rows", "a category out of range")
    np.add.at(b, tuple(t.T), 1)
    ctx.check(np.array_equal(a, b), "R-rows", "the rows of the R table are not the individuals of the array")
    f = np.array(ctx.hl.flatten(a)).T.reshape(-1, a.ndim)
    ctx.check(np.array_equal(t[np.lexsort(t.T)], f[np.lexsort(f.T)]), "R-flatten", "R and Python tables have different rows")
    ctx.count("flatten")
    ctx.observed("f", a) if a.ndim > 1 and a.sum() else ctx.trivial()
