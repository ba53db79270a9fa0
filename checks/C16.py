"""C16: expectation, chi-squared and p-value of the samplers match their definitions."""
import numpy as np
from scipy import stats as st_
from scipy.special import gammaln
from lib import gen, ref
from lib.oracles import call_qis, call_qisi

ID, BUILD = "C16", "rel"
RULE = ("random problems (disjoint, decomposable, cyclic, inconsistent) through qis and qisi; expectation compared with the exact product (disjoint) or an independent unity-seed fit (overlapping) and its marginals; chi-squared recomputed from sample and expectation; "
        "p-value compared with scipy for the documented degrees of freedom; includes atypical samples far in either tail, impossible states, empty populations and single categories; non-trivial if population > 0; distinct by problem and sample")
QUICK, THOROUGH = 5000, 60000
REQUIRE = {"product": 1000, "fit": 800, "chisq": 3500, "pvalue": 3000, "impossible_states": 500, "middle": 800, "lower_tail": 300, "upper_tail": 60, "known_probe": 3, "qisi": 500, "large": 25, "huge_dof": 4, "no_dof_positive": 30}
WORKERS = 8
LOWEST = np.log(1e-37)     # log density below which the known finding applies


def pvalue(ctx, p, chisq, shp, what):
    ctx.check(isinstance(p, float) and np.isfinite(p) and -1e-6 <= p <= 1 + 1e-6, "pvalue-range", lambda: "%s: p-value is %r (chi-squared %r)" % (what, p, chisq))
    dof = int(np.prod([s - 1 for s in shp], dtype=object))
    if dof == 0:        # the distribution is a point mass at 0
        ctx.check(p == 1.0 or p == 0.0 and chisq > 0.0, "pvalue-step", lambda: "%s: p-value is %r for chi-squared %r with no degrees of freedom" % (what, p, chisq))
        ctx.count("no_dof_positive", int(chisq > 1e-3))
        return ctx.count("no_dof")
    want = float(st_.chi2.sf(chisq, dof))
    # the incomplete gamma function is evaluated to 1e-8
    k, h = dof / 2.0, chisq / 2.0
    if p == 1.0 and h > k and k * np.log(h) - h - gammaln(k) < LOWEST + 1e-6:
        ctx.fail("pvalue-underflow", "%s: p-value is 1 for chi-squared %r with %d degrees of freedom, should be %r" % (what, chisq, dof, want))
    ctx.check(abs(p - want) <= 1e-7, "pvalue", lambda: "%s: p-value %r for chi-squared %r with %d degrees of freedom, should be %r" % (what, p, chisq, dof, want))
    ctx.count("pvalue")
    ctx.count("middle" if 0.01 < want < 0.99 else "upper_tail" if want <= 0.01 else "lower_tail")
    if dof > 1000:
        ctx.count("large_dof")
        ctx.count("huge_dof", int(dof > 65535 and chisq > dof / 2))


def chisq(ctx, s, e, stats, conv, what):
    x = stats["chiSq"]
    ctx.check(isinstance(x, float), "chisq-type", "%s: chi-squared is a %s" % (what, type(x)))
    with np.errstate(all="ignore"):
        pos = e > 0
        want = float((((s - e) ** 2)[pos] / e[pos]).sum())
    if (s[~pos] > 0).any():
        ctx.check(not conv, "expectation-support", "%s: converged, but occupied states have no expectation" % what)
        ctx.check(x == np.inf, "chisq", lambda: "%s: chi-squared is %r although impossible states are occupied" % (what, x))
        ctx.count("infinite")
    else:
        ctx.check(np.isfinite(x), "chisq-finite", lambda: "%s: chi-squared is %r, should be %r" % (what, x, want))
        ctx.check(abs(x - want) <= 1e-9 * want + 1e-12, "chisq", lambda: "%s: chi-squared is %r, should be %r" % (what, x, want))
        ctx.count("chisq")
    if conv:
        ctx.check(np.isfinite(x) and np.isfinite(stats["pValue"]), "finite", "%s: converged with chi-squared %r and p-value %r" % (what, x, stats["pValue"]))
    ctx.count("impossible_states", int((~pos).any()))
    return x


def probe(ctx):
    """A sample hugely different from its expectation: perfectly correlated with the quasirandom sequence's structure."""
    n, d = 5, 5
    sk = [0, 1, 1000][ctx.i % 3]
    ms = [np.full(n, n ** d // n) for _ in range(d)]
    ctx.inputs(sets=[[k] for k in range(d)], marginals=ms, skips=sk)
    ctx.count("known_probe")
    r, s = call_qis(ctx, [[k] for k in range(d)], ms, sk)
    x = chisq(ctx, r, s["expectation"], s, s["conv"], "qis")
    pvalue(ctx, s["pValue"], x, r.shape, "qis")
    ctx.observed("probe", r)


def case(ctx):
    rng = ctx.rng
    if ctx.i < 3:
        return probe(ctx)
    c = rng.random()
    if c < 0.15:
        shp, sets, ms, seed, a, style = gen.feasible(rng, integral=True, maxcells=200, maxpop=200)
        ctx.inputs(seed=seed, sets=sets, marginals=ms)
        try:
            r, s = call_qisi(ctx, seed, sets, ms)
        except RuntimeError:
            return ctx.trivial()
        x = chisq(ctx, r, s["expectation"], s, s["conv"], "qisi")
        if np.isfinite(x):
            pvalue(ctx, s["pValue"], x, shp, "qisi")
        else:
            ctx.check(s["pValue"] == 0.0, "pvalue", "qisi: p-value of an infinite statistic is %r" % s["pValue"])
        ctx.count("qisi")
        return ctx.observed("qisi", sets, *ms, r) if ms[0].sum() else ctx.trivial()
    if ctx.i % 100 == 50:       # more degrees of freedom than fit in 16 bits, and other large problems
        shp = [lambda: tuple(int(x) for x in rng.integers(257, 380, 2)), lambda: tuple(int(x) for x in rng.integers(38, 52, 3)), lambda: gen.long_shape(rng), lambda: gen.many_shape(rng)][rng.choice(4, p=[.3, .3, .2, .2])]()
        kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], shp=shp, maxpop=int(rng.choice([20, 1000, 3000])))
        if rng.random() < 0.6 and max(shp) < 400 and len(shp) < 4:      # every category occupied: chi-squared is about the degrees of freedom
            pop = int(rng.integers(2, 6)) * max(shp)
            kind, sets = "partition", [[d] for d in rng.permutation(len(shp)).tolist()]
            ms = [1 + rng.multinomial(pop - shp[d], np.full(shp[d], 1.0 / shp[d])) for d in (s[0] for s in sets)]
        ctx.count("large")
    elif c < 0.2:      # many states
        kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], nd=2 if rng.random() < 0.5 else 3, maxsize=60, maxcells=8000, maxpop=3000)
    elif c < 0.26:   # regular, where quasirandom samples can be far from typical
        n, d = int(rng.integers(2, 6)), int(rng.integers(2, 5))
        shp, sets = (n,) * d, [[k] for k in range(d)]
        ms = [np.full(n, int(rng.choice([n, n * n, 2 ** int(rng.integers(0, 7))]))) for _ in range(1)] * d
        kind = "partition"
    else:
        kind, shp, sets, ms, a = gen.problem(rng, maxcells=500)
    sk = gen.skips(rng)
    ctx.inputs(sets=sets, marginals=ms, skips=sk)
    try:
        r, s = call_qis(ctx, sets, ms, sk)
    except RuntimeError:
        if kind in ("any", "inconsistent"):
            return ctx.trivial()
        raise
    e = s["expectation"]
    pop = int(ms[0].sum())
    ctx.check(isinstance(e, np.ndarray) and e.shape == tuple(shp) and e.dtype == np.float64, "expectation-shape", "expectation has the wrong shape or type")
    ctx.check(np.isfinite(e).all() and (e >= 0).all(), "expectation-finite", "expectation has negative or non-finite values")
    flat = [d for x in sets for d in x]
    if len(flat) == len(set(flat)):
        w = np.ones(shp)
        for x, m in zip(sets, ms):
            w = w * gen_expand(m, x, len(shp)) / (pop or 1)
        w *= pop
        ctx.check(np.allclose(e, w, rtol=1e-11, atol=1e-300), "expectation", lambda: "expectation of disjoint marginals differs from the product by %g" % np.abs(e - w).max())
        ctx.count("product")
    elif gen.consistent(sets, ms):
        if gen.is_decomposable(sets):
            w, err, it = ref.ipf(np.ones(shp), sets, ms, tol=1e-13, maxit=50)
        else:
            w, err, it = ref.ipf(np.ones(shp), sets, ms, tol=1e-13, maxit=400)
        if err <= 1e-12 * max(1, pop):
            d = float(np.abs(e - w).max())
            ctx.check(d <= 1e-8 * (10 + 5 * it) + 1e-12 * pop * (10 + it), "expectation", lambda: "expectation of overlapping marginals differs from the maximum-entropy fit by %g" % d)
            dev = ref.deviations(e, sets, ms)
            ctx.check(dev <= 2e-8 + 1e-12 * pop, "expectation-marginals", lambda: "expectation misses the marginals by %g" % dev)
            ctx.count("fit")
    x = chisq(ctx, r, e, s, s["conv"], "qis")
    if np.isfinite(x):
        pvalue(ctx, s["pValue"], x, shp, "qis")
    else:
        ctx.check(s["pValue"] == 0.0, "pvalue", "p-value of an infinite statistic is %r" % s["pValue"])
    if pop == 0:
        ctx.check(x == 0.0, "chisq", "chi-squared of an empty population is %r" % x)
        ctx.count("empty")
    ctx.observed(sets, *ms, r) if pop else ctx.trivial()


def gen_expand(m, dims, nd):
    order = np.argsort(dims)
    t = np.transpose(m, order)
    shp = [1] * nd
    for k, d in enumerate(sorted(dims)):
        shp[d] = t.shape[k]
    return t.reshape(shp).astype(float)
