"""C04: what ipf reports about its result is true."""
import numpy as np
from lib import cpp, gen
from lib.oracles import call_ipf, arrangement

ID, BUILD = "C04", "rel"
RULE = ("random seeds (dense, sparse, blocked, extremely scaled) and real marginals (feasible, infeasible for the seed, mutually inconsistent, scaled by 2^-30..2^45), any index arrangement; "
        "shape, finiteness, sign, population, iteration count, error and convergence flag recomputed with numpy; non-trivial if the population is not zero; distinct by problem and result; in C++ (sanitizer build) also the errors reported per marginal, and objects solved several times")
QUICK, THOROUGH = 10000, 90000
CPP = {"quick": 1500, "thorough": 60000}
REQUIRE_CPP = {"cpp_converged": 1500, "cpp_not_converged": 150, "cpp_refused": 450}
REQUIRE = {"converged": 500, "not_converged": 100, "extreme_seed": 50, "long_or_many_dimensions": 8, "very_many_cells": 12}


def case(ctx):
    rng = ctx.rng
    c = rng.random()
    if c < 0.45:
        shp, sets, ms, seed, a, style = gen.feasible(rng, maxcells=300)
        kind = "feasible"
        if rng.random() < 0.02:
            shp, sets, ms, seed, a, style = gen.feasible(rng, shp=gen.many_shape(rng) if rng.random() < 0.5 else gen.long_shape(rng, 50000))
            ctx.count("long_or_many_dimensions")
        elif rng.random() < 0.008:
            k, shp, sets, ims, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], shp=gen.huge_shape(rng) if rng.random() < 0.6 else gen.big_shape(rng), maxpop=5000)
            seed, style, ms = gen.quick_seed(rng, shp), "positive", [m.astype(float) for m in ims]
            ctx.count("very_many_cells")
    else:
        k, shp, sets, ims, a = gen.problem(rng, None if c < 0.8 else "inconsistent", maxcells=200, maxdim=5)
        seed, style = gen.seed(rng, shp)
        ms = [m.astype(float) for m in ims]
        kind = "unrelated_seed"
    if rng.random() < 0.25:
        f = 2.0 ** int(rng.integers(-30, 46))
        if max(m.sum() for m in ms) * f < 1e18:
            ms = [m * f for m in ms]
            kind += "_scaled"
    if rng.random() < 0.12:       # extremely small, large or mixed seed values (their sum stays representable)
        e = rng.uniform(-320, 295, shp) if rng.random() < 0.5 else np.full(shp, rng.uniform(-320, 295))
        with np.errstate(under="ignore"):
            seed = np.where(seed > 0, 10.0 ** e, 0.0)
        ctx.count("extreme_seed")
    tot = float(ms[0].sum())
    # totals that are a rounding error away from a half could round differently
    if abs(tot - np.floor(tot) - 0.5) < 1e-6 and any(float(m.sum()) != tot for m in ms):
        return ctx.trivial()
    ctx.inputs(seed=seed, sets=sets, marginals=ms)
    try:
        res, st = call_ipf(ctx, seed, sets, ms)
    except Exception as e:
        ctx.fail("refused", "well-formed problem raised %r" % e)
    ctx.check(isinstance(res, np.ndarray) and res.shape == tuple(shp) and res.dtype == np.float64, "shape", "result is not a float array of the seed's shape")
    ctx.check(np.isfinite(res).all(), "finite", "result is not finite")
    ctx.check((res >= 0).all(), "negative", "negative value in result")
    ctx.check(type(st["pop"]) is int and st["pop"] == int(tot + 0.5), "pop", lambda: "population %r, marginals total %r" % (st["pop"], tot))
    ctx.check(type(st["iterations"]) is int and 1 <= st["iterations"] <= 1000, "iterations", lambda: "%r iterations" % st["iterations"])
    ctx.check(type(st["conv"]) is bool, "conv-type", "conv is not a bool")
    me = st["maxError"]
    err, noise = 0.0, 0.0
    for s, m in zip(sets, ms):
        r = gen.marginal(res, s)
        ctx.check(r.shape == m.shape, "shape", "marginal shape")
        err = max(err, float(np.abs(r - m).max()))
        noise = max(noise, float(np.maximum(r, m).max()) * 4e-16 * (res.size / max(1, m.size) + 8))
    ctx.check(abs(me - err) <= noise, "maxError", lambda: "reported maximum error %r, actual %r (noise %g, sets %r)" % (me, err, noise, sets))
    ctx.check(st["conv"] == (me < 1e-8), "conv", lambda: "conv is %r but the maximum error is %r" % (st["conv"], me))
    ctx.check(st["conv"] or st["iterations"] == 1000, "early", lambda: "stopped after %d iterations without convergence" % st["iterations"])
    ctx.count("converged" if st["conv"] else "not_converged")
    ctx.count(kind)
    ctx.count("seed_" + style)
    ctx.count("iterations", st["iterations"])
    for f in arrangement(shp, sets):
        ctx.count(f)
    ctx.observed(sets, seed, *ms, res) if tot > 0 else ctx.trivial()


def post(run, env, extra, replay=None):
    exe = cpp.program(run, "ipf", "ipf.cpp", cpp.SAN, cpp.SAN)
    if exe is not None:
        cpp.drive(run, exe, CPP[run.tier], replay=replay)
