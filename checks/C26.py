"""C26: qisi (and integerise) equal an independent model of seeded sampling, wherever the outcome does not hinge on rounding."""
import numpy as np
from lib import gen, ref
from lib.oracles import call_qisi, arrangement

ID, BUILD = "C26", "rel"
RULE = ("random seeds and consistent integer marginals; the whole sample is compared cell by cell with an independent model (numpy fit, independent Sobol generator); a case counts only if every decision "
        "(category boundaries, sign of an exhausted state) is clear of rounding and convergence tolerance, or (seeds that are solutions made of multiples of 1/8, until the first refit) exact; non-trivial if at least 5 individuals were placed over 2 occupied states; distinct by problem and sample")
QUICK, THOROUGH = 8000, 60000
REQUIRE = {"compared": 800, "refits": 500, "individuals": 10000, "skipped": 200, "integerise": 50, "exact": 100, "zeros": 300, "very_many_dimensions": 80, "many_cells": 10}
ASSUMPTIONS = ["cases in which a decision lies within 1e-6 of a boundary, fits need more than 300 iterations, or the remaining marginals cannot be fitted are not compared (counted as ambiguous)"]

EPS = 1e-6


class Ambiguous(Exception):
    pass


def fit(seed, sets, ms):
    """The library's stopping rule, in numpy."""
    a = seed.astype(float)
    nd = a.ndim
    prep = []
    for s, m in zip(sets, ms):
        rest = tuple(d for d in range(nd) if d not in s)
        prep.append((rest, np.transpose(m, np.argsort(s)).reshape([a.shape[d] if d in s else 1 for d in range(nd)]).astype(float)))
    for it in range(300):
        for rest, m in prep:
            r = a.sum(axis=rest, keepdims=True) if rest else a
            a = a * np.divide(m, r, out=np.zeros(np.broadcast_shapes(m.shape, r.shape)), where=r != 0)
        if max(float(np.abs((a.sum(axis=rest, keepdims=True) if rest else a) - m).max()) for rest, m in prep) < 1e-8:
            return a
    raise Ambiguous("slow")


def pick(w, u, exact):
    tot = w.sum()
    if tot <= 1e-7:
        raise Ambiguous("dead end")
    c = np.cumsum(w)
    r = u * tot
    k = int(np.searchsorted(c, r, side="right"))
    if exact:       # the weights are multiples of 1/8 and not too large: nothing is rounded
        return k
    # a zero weight leaves no room for a boundary, so equal neighbours are harmless
    if k > 0 and r - c[k - 1] < EPS or k < len(c) and c[k] - r < EPS:
        raise Ambiguous("boundary")
    return k


def model(seed, sets, ms, start, count, exact=False):
    nd = seed.ndim
    ms = [np.array(m, np.int64) for m in ms]
    pop = int(ms[0].sum())
    w = fit(seed, sets, ms)
    out = np.zeros(seed.shape, np.int64)
    seq = ref.SobolStream(nd, start)
    for i in range(pop):
        u = seq.next() / 4294967296.0
        sub = w
        idx = [0] * nd
        for d in range(nd - 1, -1, -1):
            m = sub if d == 0 else sub.sum(axis=tuple(range(d)))
            idx[d] = pick(m, float(u[d]), exact)
            sub = sub[..., idx[d]]
        idx = tuple(idx)
        out[idx] += 1
        for s, m in zip(sets, ms):
            m[tuple(idx[d] for d in s)] -= 1
            if m[tuple(idx[d] for d in s)] < 0:
                raise Ambiguous("exceeded")
        w[idx] -= 1
        if i == pop - 1:
            break
        if exact and w[idx] == 0.0:
            count("zeros")
        elif abs(w[idx]) < EPS:
            raise Ambiguous("exhausted")
        if w[idx] < 0:
            w = fit(seed, sets, ms)
            exact = False
            count("refits")
    return out


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.08:
        return integerise(ctx)
    if rng.random() < 0.15:
        return dyadic(ctx)
    c = rng.random()
    kw = dict(maxcells=60 if c < 0.8 else 300, maxdim=5)
    large = rng.random()
    if large < 0.12:
        if large < 0.08:        # more dimensions than usual, of any sizes
            while True:
                shp = tuple(int(x) for x in rng.choice([1, 2, 3, 4], int(rng.integers(6, 13)), p=[.25, .5, .2, .05]))
                if 8 <= np.prod(shp) <= 4096:
                    break
            pop = 60
        elif large < 0.1:
            shp, pop = gen.many_shape(rng), 60
        elif large < 0.118:
            shp, pop = gen.large_shape(rng), 25
        else:                   # many individuals
            shp, pop = gen.shape(rng, maxcells=30, maxdim=4), 4000
        shp = tuple(n for i, n in enumerate(shp) if n > 1 or i < 24)      # the model is limited to 32
        kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][int(rng.random() < 0.4)], shp=shp, maxpop=pop)
        seed, style = gen.quick_seed(rng, shp), "positive"
    elif rng.random() < 0.6:
        kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][int(rng.random() < 0.4)], maxpop=80, **kw)
        seed, style = gen.seed(rng, shp, "positive")
    else:
        shp, sets, ms, seed, a, style = gen.feasible(rng, sets_kind=["partition", "decomposable"][int(rng.random() < 0.4)], integral=True, maxpop=80, **kw)
    if style == "unity":       # ties everywhere
        seed = seed * (0.5 + rng.random(shp))
    sk = gen.skips(rng)
    ctx.inputs(seed=seed, sets=sets, marginals=ms, skips=sk)
    compare(ctx, seed, sets, ms, sk, lambda: call_qisi(ctx, seed, sets, ms, sk)[0], a, shp)


def dyadic(ctx):
    """The seed is a solution made of multiples of 1/2, 1/4 or 1/8: weights are exact, fall on boundaries and reach zero."""
    rng = ctx.rng
    shp = gen.shape(rng, maxcells=40, maxdim=4)
    nd = len(shp)
    q = int(rng.choice([2, 2, 4, 8]))
    a = np.zeros(shp, np.int64)         # in units of 1/q
    for _ in range(int(rng.integers(1, 12))):
        # moves that keep all one-dimensional sums whole: an individual, or parts of individuals exchanged
        i = tuple(int(rng.integers(n)) for n in shp)
        if rng.random() < 0.4:
            a[i] += q
        else:
            j = tuple(int(rng.integers(n)) for n in shp)
            d = int(rng.integers(nd))
            k = int(rng.integers(1, q))
            x, y = list(i), list(j)
            x[d], y[d] = j[d], i[d]
            for cell, n in ((i, k), (j, k), (tuple(x), q - k), (tuple(y), q - k)):
                a[cell] += n
    w = a / q
    sets = [[d] for d in rng.permutation(nd).tolist()]
    ms = [np.rint(gen.marginal(w, s)).astype(np.int64) for s in sets]
    if any((gen.marginal(a, s) % q).any() for s in sets):
        ctx.trivial()
        return
    sk = gen.skips(rng)
    ctx.inputs(seed=w, sets=sets, marginals=ms, skips=sk)
    if compare(ctx, w, sets, ms, sk, lambda: call_qisi(ctx, w, sets, ms, sk)[0], a, shp, exact=True):
        ctx.count("exact")


def compare(ctx, seed, sets, ms, sk, call, a, shp, exact=False):
    counts = {"refits": 0, "zeros": 0}
    def count(k):
        counts[k] += 1
    try:
        exp = model(seed, sets, ms, gen.skipped(sk), count, exact)
    except Ambiguous as e:
        ctx.count("ambiguous_" + str(e).replace(" ", "_")); ctx.trivial()
        return False
    try:
        res = call()
    except Exception as e:
        ctx.fail("refused", "the model can draw this sample but the library raised %r" % e)
    ctx.check(res.shape == exp.shape and np.array_equal(res, exp), "sample", lambda: "sample differs from the model in %d of %d cells (sets %r, skips %d)" % ((res != exp).sum() if res.shape == exp.shape else -1, exp.size, sets, sk))
    ctx.count("compared"); ctx.count("refits", counts["refits"]); ctx.count("zeros", counts["zeros"]); ctx.count("individuals", exp.sum())
    if sk:
        ctx.count("skipped")
    ctx.count("many_dimensions", int(len(shp) > 5)); ctx.count("very_many_dimensions", int(len(shp) > 8)); ctx.count("many_cells", int(exp.size > 4096)); ctx.count("many_individuals", int(exp.sum() > 1000))
    for f in arrangement(shp, sets):
        ctx.count(f)
    ctx.observed(sets, seed, *ms, res) if exp.sum() >= 5 and (exp > 0).sum() > 1 else ctx.trivial()
    return True


def integerise(ctx):
    """The array to be integerised is itself the fit of a random seed to random integer marginals."""
    rng = ctx.rng
    shp = gen.shape(rng, maxcells=60, maxdim=4)
    sets = [[d] for d in range(len(shp))]
    a = gen.population(rng, shp, 60)
    ms = [gen.marginal(a, s) for s in sets]
    seed, _ = gen.seed(rng, shp, "positive")
    w, err, it = ref.ipf(seed, sets, ms, tol=1e-15, maxit=3000)
    ctx.inputs(array=w)
    if compare(ctx, w, sets, ms, 0, lambda: ctx.hl.integerise(w.copy())[0], a, shp):
        ctx.count("integerise")
