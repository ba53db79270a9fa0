"""Problem generators. Everything is derived from a numpy Generator."""
import itertools
import numpy as np


def shape(rng, nd=None, maxcells=2000, maxdim=6, maxsize=8, minsize=1):
    while True:
        d = int(nd if nd is not None else rng.choice([2, 2, 3, 3, 3, 4, 4, 5, 6][: max(1, [2, 2, 3, 3, 3, 4, 4, 5, 6].__len__())]))
        d = min(d, maxdim)
        hi = maxsize if d <= 3 else (5 if d == 4 else 4 if d == 5 else 3)
        s = rng.integers(minsize, hi + 1, d)
        if rng.random() < 0.75:
            s = np.maximum(s, 2)
        if rng.random() < 0.08:
            s[rng.integers(d)] = rng.integers(hi, 4 * hi)
        if np.prod(s) <= maxcells:
            return tuple(int(x) for x in s)


def population(rng, shp, maxpop=500):
    """Integer count array: many styles, from empty to lumpy."""
    n = int(np.prod(shp))
    style = rng.integers(8)
    pop = int(rng.choice([0, 1, 2, 5, 20, 100, maxpop], p=[.02, .04, .06, .13, .25, .25, .25]))
    pop = int(rng.integers(pop // 2, pop + 1)) if pop > 2 else pop
    if style == 0:
        p = np.ones(n)
    elif style == 1:
        p = rng.dirichlet(np.full(n, 0.1))
    elif style == 2:      # independent categories
        p = np.ones(shp)
        for d, s in enumerate(shp):
            q = rng.dirichlet(np.full(s, 0.7))
            p = p * q.reshape([-1 if k == d else 1 for k in range(len(shp))])
        p = p.reshape(-1)
    elif style == 3:      # sparse support
        p = rng.random(n) * (rng.random(n) < rng.choice([0.1, 0.3, 0.6]))
    elif style == 4:      # a whole category is missing
        p = rng.random(shp)
        d = rng.integers(len(shp))
        if shp[d] > 1:
            np.moveaxis(p, d, 0)[rng.integers(shp[d])] = 0
        p = p.reshape(-1)
    elif style == 5:
        p = rng.random(n) ** 4
    elif style == 6:      # single occupied state
        p = np.zeros(n); p[rng.integers(n)] = 1
    else:
        p = rng.random(n)
    if p.sum() <= 0:
        p = np.ones(n)
    return rng.multinomial(pop, p / p.sum()).reshape(shp).astype(np.int64)


def marginal(a, dims):
    """Sum of a over the dimensions not in dims, axes ordered as dims."""
    a = np.asarray(a)
    rest = tuple(d for d in range(a.ndim) if d not in dims)
    m = a.sum(axis=rest) if rest else a
    order = sorted(dims)
    return np.transpose(m, [order.index(d) for d in dims])


def partition(rng, nd):
    """Disjoint index sets covering 0..nd-1, at least two, each in random order, listed in random order."""
    while True:
        perm = rng.permutation(nd)
        k = int(rng.integers(2, nd + 1))
        cuts = np.sort(rng.choice(np.arange(1, nd), k - 1, replace=False))
        parts = [list(map(int, p)) for p in np.split(perm, cuts)]
        if len(parts) >= 2:
            return parts


def decomposable(rng, nd):
    """Index sets in running intersection order: each shares only dimensions that lie within one earlier set."""
    perm = list(map(int, rng.permutation(nd)))
    k0 = int(rng.integers(1, max(2, nd)))
    sets = [perm[:k0]]
    i = k0
    while i < nd or len(sets) < 2:
        base = sets[rng.integers(len(sets))]
        ns = int(rng.integers(0, len(base) + 1))
        shared = list(rng.choice(base, ns, replace=False)) if ns else []
        new = perm[i:i + int(rng.integers(1, 4))] if i < nd else []
        i += len(new)
        s = [int(x) for x in shared] + new
        if not s:
            continue
        s = [int(x) for x in rng.permutation(s)]
        sets.append(s)
        if len(sets) > 8:
            return decomposable(rng, nd)
    # occasionally a redundant extra marginal within an existing one
    if rng.random() < 0.15:
        base = sets[rng.integers(len(sets))]
        sets.append([int(x) for x in rng.permutation(rng.choice(base, int(rng.integers(1, len(base) + 1)), replace=False))])
    if rng.random() < 0.012:         # very many of them
        for _ in range(int(rng.choice([8, 14, 15, 16, 30, 31, 40, 63, 70]))):
            base = sets[rng.integers(len(sets))]
            sets.append([int(x) for x in rng.permutation(rng.choice(base, int(rng.integers(1, len(base) + 1)), replace=False))])
    return sets


def is_decomposable(sets):
    seen = set()
    for j, s in enumerate(sets):
        sh = set(s) & seen
        if j and sh and not any(sh <= set(e) for e in sets[:j]):
            return False
        seen |= set(s)
    return True


def anysets(rng, nd):
    """Arbitrary overlapping index sets covering all dimensions (possibly cyclic)."""
    while True:
        k = int(rng.integers(2, 6))
        sets = []
        for _ in range(k):
            m = int(rng.integers(1, max(2, nd)))
            sets.append([int(x) for x in rng.permutation(nd)[:m]])
        cov = set(itertools.chain(*sets))
        miss = [d for d in range(nd) if d not in cov]
        if miss:
            sets.append([int(x) for x in rng.permutation(miss)])
        if len(sets) >= 2:
            return sets


def shuffle_columns(rng, a, sub=None):
    """Array with the same one-dimensional marginals: the categories of the individuals are permuted per dimension."""
    idx = np.argwhere(a > 0)
    rep = np.repeat(idx, a[a > 0], axis=0)
    b = np.zeros(a.shape, np.int64)
    if len(rep):
        cols = [rng.permutation(rep[:, d]) if sub is None or d in sub else rep[:, d] for d in range(a.ndim)]
        np.add.at(b, tuple(cols), 1)
    return b


def long_shape(rng, maxcells=150000):
    """Two or three dimensions, one of them with more categories than fit in 8 or 16 bits."""
    n = int(rng.choice([255, 256, 257, 300, 1000, 4097, 32768, 32770, 40000, 65536, 65537, 70000]))
    s = [n] + [int(x) for x in rng.integers(1, 4, int(rng.integers(1, 3)))]
    if np.prod(s) > maxcells:
        s = s[:2]
    if np.prod(s) > maxcells:
        s = [min(s[0], 40000), 1]
    return tuple(int(x) for x in rng.permutation(s))


def many_shape(rng, lo=11):
    """Very many dimensions, nearly all with a single category (numpy has at most 64)."""
    nd = int(rng.integers(lo, 31) if rng.random() < 0.6 else rng.choice([31, 32, 33, 34, 40, 63, 64]))
    s = np.ones(nd, int)
    s[rng.permutation(nd)[:int(rng.integers(2, 9))]] = 2
    return tuple(int(x) for x in s)


def big_shape(rng, lo=4200, hi=20000):
    """Two to six dimensions with many cells in all."""
    while True:
        nd = int(rng.integers(2, 7))
        m = (lo * hi) ** (0.5 / nd)
        s = [int(max(1, round(m * rng.uniform(0.5, 1.6)))) for _ in range(nd)]
        if lo <= np.prod(s) <= hi:
            return tuple(s)


def huge_shape(rng):
    """More than 65536 cells."""
    return big_shape(rng, 66000, 140000)


def large_shape(rng):
    """Large in one way or another: cells, categories or dimensions."""
    return [big_shape, huge_shape, many_shape, lambda rng: long_shape(rng, 70000)][rng.choice(4, p=[.4, .1, .3, .2])](rng)


def quick_seed(rng, shp):
    """A seed whose fits converge after few iterations: a product, almost."""
    s = np.ones(shp)
    for d, n in enumerate(shp):
        s = s * (rng.random(n) + 0.2).reshape([-1 if k == d else 1 for k in range(len(shp))])
    return s * (1 + 1e-3 * rng.random(shp))


def big_call(rng, lo=4200, hi=20000):
    """(function name, arguments) of a call with large arguments or results; well-formed."""
    fn = ["qis", "qisi", "ipf", "integerise", "integerise1", "flatten", "flatten_diagonal"][rng.integers(7)]
    shp = big_shape(rng, lo, hi)
    if fn == "ipf":
        sets = partition(rng, len(shp))
        a = rng.integers(1, 5, shp) * 0.125
        return fn, (rng.random(shp) + 0.1, sets, [np.ascontiguousarray(marginal(a, x)) for x in sets])
    if fn == "integerise1":
        return "integerise", (rng.random(int(rng.integers(lo, hi))), int(rng.choice([0, 100, lo, 10 ** 6, 10 ** 9])))
    if fn == "flatten_diagonal":         # all columns the same
        n, nd = int(rng.integers(2, 9)), int(rng.integers(2, 5))
        a = np.zeros((n,) * nd, np.int64)
        for i in range(n):
            a[(i,) * nd] = rng.integers(0, hi // n)
        return "flatten", (a,)
    k, shp, sets, ms, a = problem(rng, ["partition", "decomposable"][rng.integers(2)], shp=shp, maxpop=int(rng.choice([20, lo, hi])) if fn in ("qis", "flatten") else 60)
    if fn == "qis":
        return fn, (sets, ms)
    if fn == "qisi":
        return fn, (rng.random(shp) + 0.1, sets, ms)
    if fn == "integerise":
        return fn, (a.astype(float),)          # otherwise some are extremely slow
    return "flatten", (a,)


def problem(rng, kind=None, maxpop=500, shp=None, **kw):
    """(kind, shape, index sets, integer marginals, source array)."""
    if kind is None:
        kind = ["partition", "decomposable", "any", "inconsistent"][rng.choice(4, p=[.3, .35, .2, .15])]
    shp = shp or shape(rng, **kw)
    nd = len(shp)
    a = population(rng, shp, maxpop)
    if kind == "partition":
        sets = partition(rng, nd)
    elif kind == "decomposable":
        sets = decomposable(rng, nd)
    else:
        sets = anysets(rng, nd)
    if kind == "inconsistent":     # one-dimensional sums agree, joint sums need not
        ms = [marginal(shuffle_columns(rng, a), s) for s in sets]
    else:
        ms = [marginal(a, s) for s in sets]
    return kind, shp, sets, [np.ascontiguousarray(m).astype(np.int64) for m in ms], a


def consistent(sets, ms):
    """Do the marginals agree on all shared dimensions (jointly)?"""
    for i in range(len(sets)):
        for j in range(i):
            sh = [d for d in sets[i] if d in sets[j]]
            x = marginal_of(ms[i], sets[i], sh)
            y = marginal_of(ms[j], sets[j], sh)
            if not np.array_equal(x, y):
                return False
    return True


def marginal_of(m, dims, keep):
    return marginal(m, [dims.index(d) for d in keep]) if keep else np.asarray(m).sum()


def matches(a, sets, ms):
    return all(np.array_equal(marginal(a, s), m) for s, m in zip(sets, ms))


def skips(rng, big=False):
    c = rng.random()
    if c < 0.4:
        return 0
    if c < 0.8:
        return int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025]))
    return int(rng.integers(0, 1 << (20 if big else 13)))


def skipped(n):
    """Number of points documented to be skipped."""
    if n <= 0:
        return 0
    k = 1
    while k * 2 < n:
        k *= 2
    return k


def seed(rng, shp, style=None):
    """Non-negative real seed."""
    style = style or ["unity", "positive", "sparse", "wide", "block"][rng.choice(5, p=[.15, .35, .25, .15, .1])]
    if style == "unity":
        s = np.ones(shp)
    elif style == "positive":
        s = rng.random(shp) + 0.01
    elif style == "sparse":
        s = (rng.random(shp) + 0.01) * (rng.random(shp) < rng.choice([0.3, 0.6, 0.85]))
    elif style == "wide":
        s = 10.0 ** rng.uniform(-6, 6, shp)
    else:
        s = np.ones(shp)
        for d, n in enumerate(shp):
            if n > 1 and rng.random() < 0.5:
                idx = [slice(None)] * len(shp)
                idx[d] = int(rng.integers(n))
                e = int(rng.integers(len(shp)))
                if e != d:
                    idx[e] = slice(0, int(rng.integers(1, shp[e] + 1)))
                s[tuple(idx)] = 0
    if not (s > 0).any():
        s[tuple(int(rng.integers(n)) for n in shp)] = 1.0
    return s, style


def feasible(rng, maxcells=400, maxdim=6, sets_kind=None, integral=False, maxpop=400, shp=None, **kw):
    """A fit that has a solution: (shape, sets, marginals, seed, source array with the seed's support)."""
    shp = shp or shape(rng, maxcells=maxcells, maxdim=maxdim, **kw)
    nd = len(shp)
    k = sets_kind or ["partition", "decomposable", "any"][rng.choice(3, p=[.4, .3, .3])]
    sets = partition(rng, nd) if k == "partition" else decomposable(rng, nd) if k == "decomposable" else anysets(rng, nd)
    s, style = seed(rng, shp)
    sup = s > 0
    if integral:
        p = np.where(sup, rng.random(shp), 0).reshape(-1)
        a = rng.multinomial(int(rng.integers(1, maxpop)), p / p.sum()).reshape(shp).astype(np.int64)
        ms = [np.ascontiguousarray(marginal(a, x)) for x in sets]
    else:
        # multiples of a power of two, so that partial sums are exact and agree exactly
        q = 2.0 ** -int(rng.integers(0, 21))
        a = np.where(sup, np.ceil(rng.random(shp) ** rng.choice([1, 3]) * rng.choice([10, 1000, 100000])), 0) * q
        ms = [np.ascontiguousarray(marginal(a, x)) for x in sets]
    return shp, sets, ms, s, a, style
