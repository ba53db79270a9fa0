"""C05: ipf solutions keep the seed's association structure and equal the true fit."""
import numpy as np
from lib import gen, ref
from lib.oracles import call_ipf, arrangement

ID, BUILD = "C05", "rel"
RULE = ("random feasible fits (marginals of an array with the seed's support), 2-6 dimensions, any index arrangement; structure by a log-linear residual, agreement with an independent numpy fit, "
        "and metamorphic relations (scaled seed, listed order, permuted axes, refit); non-trivial if the fit changed the seed and has at least 4 cells; distinct by problem and result")
QUICK, THOROUGH = 12000, 150000
REQUIRE = {"structure": 500, "reference": 500, "permuted_axes": 100, "refit": 300, "reordered": 100, "scaled_seed": 100, "long_dimension": 5, "very_many_dimensions": 5, "very_many_cells": 12}


def loglinear_residual(seed, res, sets):
    sup = (seed > 0) & (res > 1e-290)
    y = np.log(res[sup]) - np.log(seed[sup])
    idx = np.argwhere(sup)
    cols = []
    for s in sets:
        dims = [seed.shape[d] for d in s]
        code = np.ravel_multi_index([idx[:, d] for d in s], dims)
        m = np.zeros((len(idx), int(np.prod(dims))))
        m[np.arange(len(idx)), code] = 1
        cols.append(m[:, m.any(0)])
    A = np.concatenate(cols, 1)
    x = np.linalg.lstsq(A, y, rcond=None)[0]
    return float(np.abs(A @ x - y).max()), float(np.abs(y).max())


def fit(ctx, seed, sets, ms):
    try:
        return call_ipf(ctx, seed, sets, ms)
    except Exception as e:
        ctx.fail("refused", "well-formed problem raised %r" % e)


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.012:
        many = rng.random() < 0.5
        shp, sets, ms, seed, a, style = gen.feasible(rng, sets_kind=["partition", "decomposable"][rng.integers(2)], shp=gen.many_shape(rng) if many else gen.long_shape(rng, 50000))
        ctx.count("very_many_dimensions" if many else "long_dimension")
    elif rng.random() < 0.003:
        k, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], shp=gen.huge_shape(rng) if rng.random() < 0.5 else gen.big_shape(rng), maxpop=5000)
        seed, style, ms = gen.quick_seed(rng, shp), "positive", [m.astype(float) for m in ms]
        ctx.count("very_many_cells")
    else:
        shp, sets, ms, seed, a, style = gen.feasible(rng, maxcells=200 if rng.random() < 0.8 else 1500)
    ctx.inputs(seed=seed, sets=sets, marginals=ms)
    res, st = fit(ctx, seed, sets, ms)
    ctx.check(res.shape == tuple(shp), "shape", "shape")
    ctx.check((res[seed == 0] == 0).all(), "zeros", "a zero of the seed is not zero in the result")
    scale = max(float(m.max()) for m in ms)
    # result = seed * product of one factor per marginal cell, however far the iteration got (cells where a marginal is zero excluded)
    if seed.size <= 300:
        r, y = loglinear_residual(seed, res, sets)
        ctx.check(r <= 1e-9 * (1 + y), "structure", lambda: "cross-product ratios of the seed changed by a factor of exp(%g) (sets %r)" % (r, sets))
        ctx.count("structure")
    for f in arrangement(shp, sets):
        ctx.count(f)
    if not st["conv"]:
        ctx.count("not_converged")
        ctx.observed(sets, seed, *ms, res)
        return
    # independent fit, converged much further
    b, err, it = ref.ipf(seed, sets, ms, tol=1e-14, maxit=4000)
    n = st["iterations"]
    # with n iterations to get from about 1 to 1e-8, the remaining distance is about 1e-8 / (1 - rate)
    tol = 1e-8 * (50 + 5 * n) + 1e-12 * scale * n
    if err <= 1e-11 * scale or it < 4000:
        d = float(np.abs(res - b).max())
        ctx.check(d <= tol, "reference", lambda: "result differs from the independently computed fit by %g (tolerance %g, %d iterations, sets %r)" % (d, tol, n, sets))
        ctx.count("reference")
    if n > 800:        # others may just fail to converge
        ctx.observed(sets, seed, *ms, res)
        return
    what = rng.integers(4)
    r2, s2 = fit(ctx, res, sets, ms)
    # the L1 error never increases, so a sufficiently exact solution must be recognised at once
    if st["maxError"] * sum(m.size for m in ms) < 5e-9:
        ctx.check(s2["conv"] and s2["iterations"] == 1, "refit", lambda: "refitting the solution took %d iterations" % s2["iterations"])
        ctx.count("refit_exact")
    ctx.check(float(np.abs(r2 - res).max()) <= 1e-8 * (2 + len(sets)) + 1e-13 * scale, "refit", "refitting the solution changed it")
    ctx.count("refit")
    if what == 0:
        k = float(rng.choice([2.0 ** int(rng.integers(-40, 40)), 10.0 ** rng.uniform(-10, 10), 10.0 ** rng.uniform(-280, 280)]))
        r2, s2 = fit(ctx, seed * k, sets, ms)
        d = float(np.abs(r2 - res).max())
        ctx.check(s2["conv"] and d <= tol, "scaled-seed", lambda: "multiplying the seed by %g changed the result by %g" % (k, d))
        ctx.count("scaled_seed")
    elif what == 1:
        o = rng.permutation(len(sets))
        ps, pm = [], []
        for j in o:
            p = rng.permutation(len(sets[j]))
            ps.append([sets[j][x] for x in p]); pm.append(np.ascontiguousarray(np.transpose(ms[j], p)))
        r2, s2 = fit(ctx, seed, ps, pm)
        if s2["conv"]:
            d = float(np.abs(r2 - res).max())
            ctx.check(d <= 2 * tol + 1e-8 * 5 * s2["iterations"], "reordered", lambda: "listing the marginals as %r instead of %r changed the result by %g" % (ps, sets, d))
            ctx.count("reordered")
    elif what == 2:
        p = rng.permutation(len(shp))
        inv = np.argsort(p)
        r2, s2 = fit(ctx, np.ascontiguousarray(np.transpose(seed, p)), [[int(inv[d]) for d in s] for s in sets], ms)
        d = float(np.abs(np.transpose(r2, inv) - res).max())
        ctx.check(s2["conv"] and d <= tol, "axes", lambda: "permuting the axes by %r changed the result by %g" % (p, d))
        ctx.count("permuted_axes")
    else:
        # relabel the categories of one dimension
        d0 = int(rng.integers(len(shp)))
        p = rng.permutation(shp[d0])
        r2, s2 = fit(ctx, np.ascontiguousarray(np.take(seed, p, d0)), sets, [np.ascontiguousarray(np.take(m, p, s.index(d0))) if d0 in s else m for s, m in zip(sets, ms)])
        d = float(np.abs(r2 - np.take(res, p, d0)).max())
        ctx.check(s2["conv"] and d <= tol, "relabel", lambda: "relabelling dimension %d changed the result by %g" % (d0, d))
        ctx.count("relabelled")
    if seed.size >= 4 and not np.allclose(res, seed):
        ctx.observed(sets, seed, *ms, res)
    else:
        ctx.trivial()
