"""C06: qisi samples are valid, honest and confined to possible states."""
import numpy as np
from lib import gen
from lib.oracles import sample, call_qisi, call_ipf, arrangement

ID, BUILD = "C06", "rel"
RULE = ("random seeds (unity, positive, sparse, blocked, badly scaled) with feasible, infeasible and inconsistent integer marginals in any index arrangement, any skips; shape, sign, sum, population, "
        "convergence flag, impossible states and expectation of every sample recomputed; non-trivial if population > 0; distinct by problem and sample")
QUICK, THOROUGH = 5000, 40000
REQUIRE = {"converged": 300, "not_converged": 100, "with_seed_zeros": 300, "long_dimension": 4, "very_many_dimensions": 4, "very_many_cells": 4, "large_population": 4, "millions": 3}


def case(ctx):
    rng = ctx.rng
    c = rng.random()
    big = rng.random() < 0.04
    kw = dict(maxcells=150 if not big else 1500, maxdim=6)
    if c < 0.5:
        shp, sets, ms, seed, a, style = gen.feasible(rng, integral=True, maxpop=150, **kw)
        kind = "feasible"
    else:
        kind, shp, sets, ms, a = gen.problem(rng, maxpop=150 if not big else 60, **kw)
        seed, style = gen.seed(rng, shp)
    if ctx.i % 1000 == 500:
        while True:
            kind, shp, sets, ms, a = gen.problem(rng, "partition", nd=2, maxsize=4, maxcells=12, maxpop=int(2.0 ** rng.uniform(20.5, 21.5)))
            if a.sum() > 1000000:
                break
        seed, style = gen.seed(rng, shp, ["unity", "positive"][rng.integers(2)])
        ctx.count("millions")
    elif rng.random() < 0.02:     # many dimensions
        kind, shp, sets, ms, a = gen.problem(rng, nd=int(rng.integers(7, 10)), maxdim=10, maxsize=2, maxcells=600, maxpop=30)
        seed, style = gen.seed(rng, shp)
    elif rng.random() < 0.02:
        if rng.random() < 0.2:
            kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], maxpop=12, shp=gen.huge_shape(rng))
            seed, style = gen.quick_seed(rng, shp), "positive"
            ctx.count("very_many_cells")
        elif rng.random() < 0.25:
            kind, shp, sets, ms, a = gen.problem(rng, nd=int(rng.integers(2, 4)), maxsize=3, maxcells=12, maxpop=int(rng.choice([5000, 40000, 140000])))
            seed, style = gen.seed(rng, shp)
            ctx.count("large_population")
        elif rng.random() < 0.5:      # quick to fit: the fit is recalculated for every exhausted state
            kind, shp, sets, ms, a = gen.problem(rng, "partition", maxpop=12, shp=gen.long_shape(rng))
            seed, style = gen.seed(rng, shp, "unity")
            ctx.count("long_dimension")
        elif rng.random() < 0.5:
            shp = gen.many_shape(rng)
            ctx.count("very_many_dimensions")
            shp, sets, ms, seed, a, style = gen.feasible(rng, integral=True, maxpop=25, shp=shp)
            kind = "feasible"
        else:
            shp = gen.many_shape(rng)
            ctx.count("very_many_dimensions")
            kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], maxpop=25, shp=shp)
            seed, style = gen.seed(rng, shp, ["unity", "positive"][rng.integers(2)])
    sk = gen.skips(rng)
    ctx.inputs(seed=seed, sets=sets, marginals=ms, skips=sk)
    pop = int(ms[0].sum())
    fit, fst = call_ipf(ctx, seed, sets, ms)
    try:
        res, st = call_qisi(ctx, seed, sets, ms, sk if sk or rng.random() < 0.5 else None)
    except Exception as e:
        # only if no state at all is possible
        ctx.check(pop > 0 and not (fit > 0).any(), "refused", lambda: "raised %r although %d states are possible" % (e, (fit > 0).sum()))
        ctx.count("impossible"); ctx.trivial()
        return
    ok = sample(ctx, res, st, shp, sets, ms, pop, seed)
    ex = st["expectation"]
    ctx.check(isinstance(ex, np.ndarray) and ex.shape == tuple(shp) and ex.dtype == np.float64, "expectation-shape", "expectation has the wrong shape or type")
    ctx.check((res[ex == 0] == 0).all(), "impossible-expectation", "a state with zero expectation is populated")
    # to within what a different but equally valid iteration would give
    tol = 1e-12 * max(1, pop) * (10 + fst["iterations"]) + (1e-8 * (50 + 5 * fst["iterations"]))
    if fst["conv"]:
        d = float(np.abs(ex - fit).max())
        ctx.check(d <= tol, "expectation", lambda: "expectation differs from the fit of the seed by %g" % d)
        ctx.count("expectation_is_fit")
    ctx.count("converged" if ok else "not_converged")
    ctx.count("kind_" + kind); ctx.count("seed_" + style)
    ctx.count("individuals", pop)
    if (seed == 0).any():
        ctx.count("with_seed_zeros")
    for f in arrangement(shp, sets):
        ctx.count(f)
    ctx.observed(sets, seed, *ms, res) if pop else ctx.trivial()
