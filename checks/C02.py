"""C02: qis meets the marginals exactly on consistent acyclic problems."""
import numpy as np
from lib import gen
from lib.oracles import call_qis, arrangement

ID, BUILD = "C02", "rel"
RULE = ("random consistent problems whose index sets are listed in running-intersection order (including disjoint ones), any order within sets, zeros, skips, populations to ~500, some to 1e6; "
        "the sample's marginal sums must equal the marginals exactly and conv must be true; non-trivial if population > 0; distinct by problem and sample")
QUICK, THOROUGH = 24000, 300000
REQUIRE = {"overlapping": 500, "large_population": 5, "long_dimension": 8, "very_many_dimensions": 20, "millions": 20}


def case(ctx):
    rng = ctx.rng
    kind = "partition" if rng.random() < 0.35 else "decomposable"
    c = rng.random()
    if ctx.i % 600 == 300:
        while True:
            kind, shp, sets, ms, a = gen.problem(rng, kind, nd=int(rng.integers(2, 5)), maxcells=40, maxpop=int(2.0 ** rng.uniform(20.5, 22)))
            if a.sum() > 1000000:
                break
        ctx.count("millions")
    elif c < 0.02:
        big = 200000 if ctx.tier == "quick" else 1000000
        kind, shp, sets, ms, a = gen.problem(rng, kind, maxcells=60, maxpop=int(rng.choice([70000, 140000, big])))
    elif c < 0.08:
        kind, shp, sets, ms, a = gen.problem(rng, kind, nd=int(rng.integers(7, 11)), maxdim=11, maxsize=3, maxcells=3000, maxpop=60)
    elif c < 0.12:
        kind, shp, sets, ms, a = gen.problem(rng, kind, nd=int(rng.integers(2, 4)), maxsize=120, maxcells=20000, maxpop=300)
    elif c < 0.125:
        kind, shp, sets, ms, a = gen.problem(rng, kind, shp=gen.long_shape(rng), maxpop=40)
        ctx.count("long_dimension")
    elif c < 0.135:
        kind, shp, sets, ms, a = gen.problem(rng, kind, shp=gen.many_shape(rng), maxpop=60)
        ctx.count("very_many_dimensions")
    elif c < 0.139:
        kind, shp, sets, ms, a = gen.problem(rng, kind, shp=gen.huge_shape(rng), maxpop=20)
        ctx.count("very_many_cells")
    else:
        kind, shp, sets, ms, a = gen.problem(rng, kind)
    assert kind == "partition" or gen.is_decomposable(sets)
    sk = gen.skips(rng)
    ctx.inputs(sets=sets, marginals=ms, skips=sk)
    try:
        res, st = call_qis(ctx, sets, ms, sk if sk or rng.random() < 0.5 else None)
    except Exception as e:
        ctx.fail("refused", "consistent acyclic problem raised %r" % e)
    pop = int(ms[0].sum())
    for s, m in zip(sets, ms):
        got = gen.marginal(res, s)
        ctx.check(got.shape == m.shape and np.array_equal(got, m), "marginal", lambda: "marginal %r (of %r): got %r, expected %r" % (s, sets, got.tolist(), m.tolist()))
    ctx.check(st["conv"] is True, "conv", "marginals met but conv is %r" % st["conv"])
    ctx.check((res >= 0).all() and st["pop"] == pop, "valid", "invalid sample or population")
    for f in arrangement(shp, sets):
        ctx.count(f)
    ctx.count("individuals", pop)
    if pop >= 1 << 15:
        ctx.count("large_population")
    if any((m == 0).any() for m in ms):
        ctx.count("with_zero_marginals")
    ctx.observed(sets, *ms, res) if pop else ctx.trivial()
