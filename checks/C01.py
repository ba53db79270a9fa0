"""C01: validity of qis samples and honesty of the convergence flag."""
import numpy as np
from lib import gen
from lib.oracles import sample, call_qis, arrangement

ID, BUILD = "C01", "rel"
RULE = ("random problems (disjoint, decomposable, cyclic and mutually inconsistent index sets in any order, populations 0..~500, some up to 1e5, up to 8 dimensions); "
        "shape, sign, sum, population and convergence flag of every returned sample checked against numpy sums; non-trivial if a sample was returned with population > 0; distinct by problem and sample")
QUICK, THOROUGH = 24000, 300000
REQUIRE = {"converged": 300, "not_converged": 50, "long_dimension": 8, "very_many_dimensions": 20, "very_many_cells": 30, "millions": 20}


def build(ctx):
    rng = ctx.rng
    c = rng.random()
    if ctx.i % 600 == 300:
        while True:
            kind, shp, sets, ms, a = gen.problem(rng, nd=int(rng.integers(2, 5)), maxcells=40, maxpop=int(2.0 ** rng.uniform(20.5, 22)))
            if a.sum() > 1000000:
                break
        ctx.count("millions")
    elif c < 0.02:       # large population, few states
        kind, shp, sets, ms, a = gen.problem(rng, maxcells=60, maxpop=int(rng.choice([20000, 70000, 140000])))
    elif c < 0.06:     # many dimensions
        kind, shp, sets, ms, a = gen.problem(rng, nd=int(rng.integers(7, 11)), maxdim=11, maxsize=3, maxcells=3000, maxpop=60)
    elif c < 0.10:     # long dimensions
        kind, shp, sets, ms, a = gen.problem(rng, nd=2, maxsize=150, maxcells=20000, maxpop=300)
    elif c < 0.105:
        kind, shp, sets, ms, a = gen.problem(rng, shp=gen.long_shape(rng), maxpop=40)
        ctx.count("long_dimension")
    elif c < 0.115:
        kind, shp, sets, ms, a = gen.problem(rng, shp=gen.many_shape(rng), maxpop=60)
        ctx.count("very_many_dimensions")
    elif c < 0.119:
        kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable", "inconsistent"][rng.integers(3)], shp=gen.huge_shape(rng), maxpop=20)
        ctx.count("very_many_cells")
    else:
        kind, shp, sets, ms, a = gen.problem(rng)
    return kind, shp, sets, ms, a


def case(ctx):
    kind, shp, sets, ms, a = build(ctx)
    sk = gen.skips(ctx.rng)
    ctx.inputs(sets=sets, marginals=ms, skips=sk)
    try:
        res, st = call_qis(ctx, sets, ms, sk if sk or ctx.rng.random() < 0.5 else None)
    except RuntimeError as e:
        # sampling can dead-end when overlaps are inconsistent or cyclic; otherwise the problem is well-formed
        ctx.check(kind in ("any", "inconsistent"), "refused", "well-formed problem refused: %s" % e)
        ctx.count("refused"); ctx.trivial()
        return
    ok = sample(ctx, res, st, shp, sets, ms, int(ms[0].sum()))
    ctx.count("converged" if ok else "not_converged")
    ctx.count("kind_" + kind)
    for f in arrangement(shp, sets):
        ctx.count(f)
    ctx.count("individuals", res.sum())
    if res.sum() > 0:
        ctx.observed(sets, *ms, res)
    else:
        ctx.count("empty_population"); ctx.trivial()
