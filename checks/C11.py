"""C11: multidimensional integerisation."""
import numpy as np
from lib import gen, ref

ID, BUILD = "C11", "rel"
RULE = ("random non-negative arrays of 2-6 dimensions with integral axis sums (fits, averages of arrays with equal marginals, random circulations, sparse, already integral, sums off by less than the tolerance) and arrays "
        "violating that; result, convergence flag, zeros and rmse recomputed; non-trivial if the array has fractional entries and a population; distinct by input and result")
QUICK, THOROUGH = 12000, 150000
REQUIRE = {"fractional": 1000, "integral": 150, "almost": 150, "refused": 150, "not_converged": 5, "converged": 500, "zeros": 200, "almost_integral_sums": 25, "large_population": 40, "very_many_cells": 8}


def circulate(rng, a, n):
    """Moves fractions around closed rectangles: axis sums stay the same."""
    a = a.astype(float)
    nd = a.ndim
    for _ in range(n):
        i = tuple(int(rng.integers(s)) for s in a.shape)
        j = tuple(int(rng.integers(s)) for s in a.shape)
        d = int(rng.integers(nd))
        p, q = list(i), list(j)
        p[d], q[d] = j[d], i[d]
        p, q = tuple(p), tuple(q)
        if len({i, j, p, q}) < 4:
            continue
        # i, j lose, p, q gain
        t = min(a[i], a[j]) * rng.random()
        a[i] -= t; a[j] -= t; a[p] += t; a[q] += t
    return np.maximum(a, 0)


def array(rng):
    nd = int(rng.choice([2, 2, 3, 3, 4, 5, 6]))
    shp = gen.shape(rng, nd=nd, maxcells=250, maxdim=6)
    c = rng.random()
    if c < 0.0015:
        a = gen.population(rng, gen.huge_shape(rng) if rng.random() < 0.6 else gen.big_shape(rng), 12).astype(float)
        return "integral", a
    if c < 0.01:       # large numbers, few cells
        shp = gen.shape(rng, nd=int(rng.integers(2, 4)), maxcells=12, maxsize=3)
        a = rng.multinomial(int(rng.choice([3000, 40000, 100000])), rng.dirichlet(np.full(int(np.prod(shp)), rng.choice([0.2, 1.0])))).reshape(shp)
        return "fractional", (a + gen.shuffle_columns(rng, a)) / 2.0 if rng.random() < 0.5 else circulate(rng, a, int(rng.integers(1, 60)))
    if c < 0.02:
        shp = gen.long_shape(rng) if rng.random() < 0.4 else gen.many_shape(rng)
        nd = len(shp)
        return "fractional", circulate(rng, gen.population(rng, shp, 30), 40)
    a = gen.population(rng, shp, 200)
    k = rng.integers(5)
    if k == 0:
        if rng.random() < 0.5:
            return "integral", a.astype(float)
        return "almost", a * (1 + rng.choice([-1, 1]) * rng.choice([2.0 ** -53, 2.0 ** -52, 1e-14, 1e-11, 1e-9, 1e-7]))      # to within rounding errors
    if k == 1:
        return "fractional", (a + gen.shuffle_columns(rng, a)) / 2.0
    if k == 2:
        return "fractional", circulate(rng, a, int(rng.integers(1, 60)))
    if k == 3:
        parts = [a] + [gen.shuffle_columns(rng, a) for _ in range(int(rng.integers(2, 6)))]
        w = rng.dirichlet(np.ones(len(parts)))
        return "fractional", sum(x * y for x, y in zip(parts, w))
    s, _ = gen.seed(rng, shp, "positive")
    f, err, it = ref.ipf(s, [[d] for d in range(nd)], [gen.marginal(a, [d]) for d in range(nd)], tol=1e-14, maxit=3000)
    return "fractional", f


def sums_ok(a, tol):
    return all(np.abs(gen.marginal(a, [d]) - np.round(gen.marginal(a, [d]))).max() <= tol for d in range(a.ndim)) and abs(a.sum() - round(a.sum())) <= tol


def case(ctx):
    rng = ctx.rng
    kind, a = array(rng)
    if rng.random() < 0.1:
        return refuse(ctx, a)
    if rng.random() < 0.08 and kind != "integral":
        # one entry is off by less than the tolerance
        i = tuple(int(rng.integers(s)) for s in a.shape)
        if a[i] > 1e-3:
            a[i] += rng.choice([-1, 1]) * rng.uniform(1e-6, 9e-5)
            ctx.count("almost_integral_sums")
    if not sums_ok(a, 0.99e-4):
        return ctx.trivial()
    ctx.inputs(pop=a)
    try:
        res, st = ctx.hl.integerise(a.copy())
    except Exception as e:
        ctx.fail("refused", "array with integral axis sums raised %r" % e)
    ctx.check(isinstance(res, np.ndarray) and res.shape == a.shape and res.dtype.kind == "i", "shape", "result is not an integer array of the same shape")
    ctx.check((res >= 0).all(), "negative", "negative value")
    pop = int(round(float(a.sum())))
    ctx.check(int(res.sum()) == pop, "total", lambda: "result sums to %d, expected %d" % (res.sum(), pop))
    ctx.check((res[a == 0] == 0).all(), "zero", "a zero state is populated")
    ok = all(np.array_equal(gen.marginal(res, [d]), np.round(gen.marginal(a, [d])).astype(np.int64)) for d in range(a.ndim))
    ctx.check(type(st["conv"]) is bool and st["conv"] == ok, "conv", lambda: "conv is %r but the axis sums are %spreserved" % (st["conv"], "" if ok else "not "))
    e = float(np.sqrt(np.mean((res - a) ** 2)))
    ctx.check(abs(st["rmse"] - e) <= 1e-9 * (1 + e), "rmse", lambda: "reported rmse %r, actual %r" % (st["rmse"], e))
    if kind == "integral":
        ctx.check(np.array_equal(res, a.astype(np.int64)), "integral", "an integral array was changed")
    ctx.count("large_population", int(pop >= 2500)); ctx.count("very_many_cells", int(a.size > 4000 and kind == "integral"))
    ctx.count(kind); ctx.count("converged" if ok else "not_converged")
    if (a == 0).any():
        ctx.count("zeros")
    ctx.observed(a, res) if kind != "integral" and pop > 0 and (np.abs(a - np.round(a)) > 1e-3).any() else ctx.trivial()


def refuse(ctx, a):
    rng = ctx.rng
    k = int(rng.integers(4))
    i = tuple(int(rng.integers(s)) for s in a.shape)
    if k == 0:       # total not integral
        a[i] += float(rng.choice([2e-4, 1e-3, 0.5, 0.25]))
    elif k == 1:     # total integral but not the sums
        d = int(rng.integers(a.ndim))
        if a.shape[d] < 2:
            return ctx.trivial()
        j = list(i); j[d] = (i[d] + 1) % a.shape[d]; j = tuple(j)
        t = float(rng.choice([2e-4, 1e-3, 0.5, 0.3]))
        a[i] += t
        if a[j] < t:
            a[j] += 1 - t
        else:
            a[j] -= t
    elif k == 2:
        a[i] = -float(rng.choice([1, 0.5, 3])) if rng.random() < 0.5 else -1.0
    else:
        a[i] = float(rng.choice([np.nan, np.inf, -np.inf, 1e300]))
    if k < 2 and sums_ok(a, 1.01e-4):
        return ctx.trivial()
    ctx.inputs(pop=a)
    try:
        ctx.hl.integerise(a.copy())
    except Exception:
        pass
    else:
        ctx.fail("accepted", "an array %s is accepted" % ["whose total is not integral", "whose axis sums are not integral", "with a negative value", "with a non-finite or huge value"][k])
    ctx.count("refused")
    ctx.observed("refuse", a)
