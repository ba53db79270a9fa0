"""C10: one-dimensional integerisation is an optimal rounding with the exact total."""
import numpy as np
from lib import ref, rlang

ID, BUILD = "C10", "rel"
RULE = ("random fraction vectors (uniform, heavy-tailed, zeros, ties, near-ties, unnormalised, up to 5000 entries, a few with up to 200,000) and populations 0..2^31-1 through the two-argument form, the one-argument 1-d form and R's prob2IntFreq; "
        "sum, sign, floor/ceiling, largest-remainder optimality and rmse recomputed in extended precision; non-trivial if some share is not an integer; distinct by input and result")
QUICK, THOROUGH = 8000, 120000
REQUIRE = {"two_argument": 1000, "one_argument": 500, "R": 300, "large_population": 200, "ties": 200, "zeros": 300, "almost_probabilities": 500, "extreme_fractions": 60, "very_many": 40}
prepare = lambda run: rlang.prepare("rel")


def fractions(rng):
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 20, 100, 1000, 5000], p=[.04, .12, .16, .16, .14, .14, .12, .08, .03, .01]))
    k = rng.integers(8)
    if k == 0:
        p = rng.random(n)
    elif k == 1:
        p = np.ones(n)
    elif k == 2:
        p = rng.integers(0, 5, n).astype(float)      # ties and zeros
    elif k == 3:
        p = 10.0 ** rng.uniform(-12, 3, n)
    elif k == 4:
        p = rng.dirichlet(np.full(n, 0.3))
    elif k == 5:
        p = rng.random(n) * (rng.random(n) < 0.4)
    elif k == 6:
        p = rng.choice([0.1, 0.2, 0.3, 1 / 3, 0.25], n)
    else:
        p = 1.0 / (1 + np.arange(n))
    if not p.sum() > 0:
        p[rng.integers(n)] = 1.0
    c = rng.random()
    if k != 1 and c < 0.2:
        p = p * 10.0 ** rng.uniform(-8, 8)
    elif c < 0.35:       # probabilities, almost
        p = p / p.sum() * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-16, -2))
    elif c < 0.38:       # extremely small or large, or both
        p = p * 10.0 ** (rng.uniform(-307, 300) if rng.random() < 0.5 else rng.uniform(-322, -290))
        if not p.sum() > 0:
            p[rng.integers(n)] = 5e-324
    return p


def many(rng):
    """Very many entries, of which few are not zero (the time needed grows with the square of those)."""
    n = int(rng.choice([32767, 32769, 65535, 65536, 65537, 70000, 131073, 200000]))
    p = np.zeros(n)
    k = int(rng.integers(1, 60))
    p[rng.integers(n, size=k)] = rng.random(k) + 1e-3
    p[n - 1 - int(rng.integers(0, 3))] = rng.random() * 3
    return p


def population(rng, n):
    k = rng.random()
    if k < 0.06:
        return int(rng.choice([0, 1, 2]))
    if k < 0.6:
        return int(rng.integers(0, 1000))
    if k < 0.8:
        return int(rng.integers(0, 100 * n))
    if k < 0.9:
        return int(rng.integers(0, 1 << 31))
    return int(rng.choice([(1 << 31) - 1, (1 << 31) - 2, 1 << 30, (1 << 24) + 1, 1 << 16, 65535]))


def verdict(ctx, f, rmse, shares, pop, eps, what):
    ctx.check(len(f) == len(shares), "length", "%s: %d frequencies for %d fractions" % (what, len(f), len(shares)))
    bad = ref.largest_remainder_ok(f, shares, pop, eps)
    ctx.check(bad is None, "rounding", lambda: "%s: %s (population %d)" % (what, bad, pop))
    ctx.check((np.asarray(f)[np.asarray(shares, float) == 0] == 0).all(), "zero", "%s: a zero fraction has a positive frequency" % what)
    e = float(np.sqrt(np.mean((np.asarray(f, np.longdouble) - shares) ** 2)))
    ctx.check(abs(rmse - e) <= eps + 1e-9 * e, "rmse", lambda: "%s: reported rmse %r, actual %r" % (what, rmse, e))


def case(ctx):
    rng = ctx.rng
    p = many(rng) if ctx.i % 50 == 25 else fractions(rng)
    n = len(p)
    pop = population(rng, min(n, 5000))
    ctx.count("very_many", int(n > 65536))
    c = rng.random()
    shares = p.astype(np.longdouble) / p.astype(np.longdouble).sum() * pop
    tot = float(p.astype(np.longdouble).sum())
    if 0 < abs(tot - 1) < 1e-2:
        ctx.count("almost_probabilities")
    if tot < 1e-290 or tot > 1e290:
        ctx.count("extreme_fractions")
    eps = 1e-15 * pop * 4 + 1e-10
    what = "two_argument" if c < 0.6 else "one_argument" if c < 0.85 or n > 70000 else "R"
    if what == "two_argument":
        ctx.inputs(frac=p, pop=pop)
        f, st = ctx.hl.integerise(p.copy(), pop)
        ctx.check(isinstance(f, np.ndarray) and f.ndim == 1 and f.dtype.kind == "i", "type", "not an integer vector")
        verdict(ctx, f, st["rmse"], shares, pop, eps, what)
    elif what == "one_argument":
        x = shares.astype(float)
        if rng.random() < 0.2 and pop:
            # the total is integral only to within the tolerance
            x = x * (1 + rng.uniform(-0.5, 0.5) * 1e-4 / pop)
            eps += 2e-4
        ctx.inputs(pop_array=x)
        # (how the total is summed is the library's choice: one that could round out of the tolerance is not tested)
        if abs(float(x.sum()) - pop) + 1.2e-16 * n * pop > 0.9e-4 or eps > 0.1:
            return ctx.trivial()
        f, st = ctx.hl.integerise(x.copy())
        ctx.check(isinstance(f, np.ndarray) and f.shape == (n,) and f.dtype.kind == "i", "type", "not an integer vector")
        ctx.check(st["conv"] is True, "conv", "1-d integerisation did not converge")
        verdict(ctx, f, st["rmse"], shares, pop, eps, what)
    else:
        q = (p / p.sum())
        if abs(float(q.astype(np.longdouble).sum()) - 1) > 1e-13:
            return ctx.trivial()
        ctx.inputs(R="prob2IntFreq", p=q, pop=pop)
        r = ctx.R("prob2IntFreq", rlang.num(q), rlang.int_(pop))
        f = r["freq"]
        verdict(ctx, f, float(r["rmse"][0]), q.astype(np.longdouble) * pop, pop, eps + 1e-12 * pop, what)
        g, st = ctx.hl.integerise(q.copy(), pop)
        ctx.count("R_equal_python", int(np.array_equal(f, g)))
    ctx.count(what)
    if pop >= 1 << 24:
        ctx.count("large_population")
    if (p == 0).any():
        ctx.count("zeros")
    if len(np.unique(p)) < n:
        ctx.count("ties")
    ctx.count("entries", n)
    fr = np.abs(shares - np.round(shares))
    ctx.observed(p, pop, np.asarray(f)) if (fr > 1e-6).any() else ctx.trivial()
