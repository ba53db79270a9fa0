"""C12: flattening a population is lossless and ordered."""
import numpy as np
from lib import gen, rlang

ID, BUILD = "C12", "rel"
RULE = ("random count arrays of 1-8 dimensions (sparse, lumpy, empty, single state, a large count, long thin) in random integer or integral floating types and layouts, flattened in Python and R; column count, length, row-major order "
        "and labels compared with an independent expansion and recounted; arrays with a negative count must be refused; non-trivial if there is at least one individual; distinct by array")
QUICK, THOROUGH = 14000, 120000
REQUIRE = {"python": 3000, "R": 300, "refused": 300, "empty": 50, "one_dimension": 300, "many_dimensions": 300, "rows": 100000}
prepare = lambda run: rlang.prepare("rel")


def counts(rng):
    nd = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8], p=[.14, .22, .22, .14, .1, .07, .06, .05]))
    while True:
        hi = [0, 60, 20, 9, 6, 4, 4, 3, 3][nd]
        shp = tuple(int(x) for x in rng.integers(1, hi + 1, nd))
        if np.prod(shp) <= 3000:
            break
    if rng.random() < 0.05:
        s = list(shp); s[rng.integers(nd)] = int(rng.integers(100, 1000))
        if np.prod(s) < 20000:
            shp = tuple(s)
    if rng.random() < 0.02:
        shp = gen.large_shape(rng) if rng.random() < 0.4 else gen.long_shape(rng) if rng.random() < 0.6 else gen.many_shape(rng)
    a = gen.population(rng, shp, int(rng.choice([50, 500, 5000])))
    if rng.random() < 0.03:
        a[tuple(int(rng.integers(s)) for s in shp)] += int(rng.integers(1000, 70000))
    return a


def expand(a, base):
    idx = np.argwhere(a != 0)
    return [np.repeat(idx[:, d], a[a != 0]) + base for d in range(a.ndim)]


def case(ctx):
    rng = ctx.rng
    a = counts(rng)
    if rng.random() < 0.12:
        # a negative count, possibly compensated elsewhere
        b = a.copy()
        p = tuple(int(rng.integers(s)) for s in a.shape)
        n = int(rng.choice([1, 1, 2, 5, 1000, 1 << 31, 1 << 40, (1 << 63) - 1]))
        b[p] = -n
        if rng.random() < 0.6 and b.size > 1:
            while True:
                q = tuple(int(rng.integers(s)) for s in a.shape)
                if q != p:
                    break
            b[q] += min(n, 100000)
        ctx.inputs(array=b, negative=True)
        try:
            r = ctx.hl.flatten(b)
        except Exception:
            r = None
        ctx.check(r is None, "negative", lambda: "an array with a negative count was flattened to %d columns" % len(r))
        if rng.random() < 0.3 and (abs(b) < 2**31).all():
            try:
                ctx.R("flatten", rlang.int_(b, dim="force"), rlang.chars(["c%d" % d for d in range(b.ndim)]))
                ctx.fail("negative", "R: an array with a negative count was flattened")
            except rlang.RError:
                pass
            ctx.count("R_refused")
        ctx.count("refused")
        return ctx.trivial()
    n = int(a.sum())
    if rng.random() < 0.1 and a.ndim <= 6:
        ctx.inputs(array=a, R=True)
        names = ["col%d" % d for d in range(a.ndim)]
        r = ctx.R("flatten", rlang.int_(a, dim="force"), rlang.chars(names))
        # R presents the table as a data frame of its own, whose order of rows follows the same row-major order of the states
        ctx.check(isinstance(r, dict) and list(r) == names, "columns", lambda: "R: columns %r" % (list(r) if isinstance(r, dict) else r))
        cols = [np.asarray(r[k]) for k in names]
        want = expand(a, 1)
        ctx.count("R")
    else:
        b = a
        k = rng.integers(8)
        if k == 0:
            b = np.asfortranarray(a)
        elif k == 1:
            b = a.astype(float)
        elif k == 2 and a.max() < 2**31:
            b = a.astype(np.int32)
        elif k == 3 and a.ndim < 11:
            big = np.zeros([2 * s for s in a.shape], np.int64) - 7
            big[tuple(slice(None, None, 2) for _ in a.shape)] = a
            b = big[tuple(slice(None, None, 2) for _ in a.shape)]
        elif k == 4:
            b = np.ascontiguousarray(a.T).T
        elif k == 5 and a.max() < 65536:
            b = a.astype(">u2")
        ctx.inputs(array=a, dtype=str(b.dtype), strides=b.strides)
        r = ctx.hl.flatten(b)
        ctx.check(type(r) is list, "type", "the table is a %s" % type(r))
        ctx.check(all(type(c) is list for c in r), "type", "a column is not a list")
        ctx.check(all(type(x) is int for c in r for x in c[:3]), "type", "entries are not int")
        cols = [np.array(c, dtype=np.int64) for c in r]
        want = expand(a, 0)
        ctx.count("python")
    ctx.check(len(cols) == a.ndim, "columns", lambda: "%d columns for %d dimensions" % (len(cols), a.ndim))
    ctx.check(all(c.shape == (n,) for c in cols), "rows", lambda: "column lengths %r for a population of %d" % ([len(c) for c in cols], n))
    base = 1 if "R" in ctx.last else 0
    for d, c in enumerate(cols):
        ctx.check(n == 0 or (c.min() >= base and c.max() < a.shape[d] + base), "label", lambda: "labels %d..%d in column %d of size %d" % (c.min(), c.max(), d, a.shape[d]))
    back = np.zeros(a.shape, np.int64)
    np.add.at(back, tuple(c - base for c in cols), 1)
    ctx.check(np.array_equal(back, a), "counts", "counting equal rows does not reproduce the array")
    ctx.check(all(np.array_equal(c, w) for c, w in zip(cols, want)), "order", "rows are not in row-major order of the states")
    ctx.count("rows", n)
    ctx.count("empty", int(n == 0))
    ctx.count("one_dimension", int(a.ndim == 1)); ctx.count("many_dimensions", int(a.ndim >= 6))
    ctx.observed(a, base) if n else ctx.trivial()
