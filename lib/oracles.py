"""Oracles shared by the checks."""
import numpy as np
from . import gen, ref


def as_lists(sets, ms):
    return [list(s) for s in sets], [np.array(m) for m in ms]


def sample(ctx, res, stats, shp, sets, ms, pop, seed=None):
    """Validity and honesty of an integer sample. Returns whether it matches."""
    ctx.check(isinstance(res, np.ndarray) and res.shape == tuple(shp), "shape", lambda: "result has shape %r, expected %r" % (getattr(res, "shape", None), shp))
    ctx.check(res.dtype.kind in "iu", "dtype", lambda: "result is not integral: %r" % res.dtype)
    ctx.check((res >= 0).all(), "negative", lambda: "negative occupancy %d" % res.min())
    ctx.check(type(stats["pop"]) is int and stats["pop"] == pop, "pop", lambda: "reported population %r, marginals total %d" % (stats["pop"], pop))
    ctx.check(int(res.sum()) == pop, "total", lambda: "result sums to %d, population is %d" % (res.sum(), pop))
    ok = gen.matches(res, sets, ms)
    ctx.check(type(stats["conv"]) is bool, "conv-type", "conv is not a bool")
    ctx.check(stats["conv"] == ok, "conv", lambda: "conv is %r but the marginals are %sreproduced (sets %r)" % (stats["conv"], "" if ok else "not ", sets))
    if seed is not None:
        ctx.check((res[np.asarray(seed) == 0] == 0).all(), "impossible", "a state with zero seed is populated")
    return ok


def call_qis(ctx, sets, ms, skips=None):
    il, ml = as_lists(sets, ms)
    return ctx.hl.qis(il, ml) if skips is None else ctx.hl.qis(il, ml, skips)


def call_qisi(ctx, seed, sets, ms, skips=None):
    il, ml = as_lists(sets, ms)
    return ctx.hl.qisi(np.array(seed), il, ml) if skips is None else ctx.hl.qisi(np.array(seed), il, ml, skips)


def call_ipf(ctx, seed, sets, ms):
    il, ml = as_lists(sets, ms)
    return ctx.hl.ipf(np.array(seed), il, [m.astype(float) for m in ml])


def arrangement(shp, sets):
    """Features of a problem, for coverage counters."""
    f = []
    cov = [d for s in sets for d in s]
    if len(cov) != len(set(cov)):
        f.append("overlapping")
    if any(list(s) != sorted(s) for s in sets):
        f.append("permuted")
    if any(len(s) > 1 and max(s) - min(s) >= len(s) for s in sets):
        f.append("nonadjacent")
    if any(x == 1 for x in shp):
        f.append("singleton_dim")
    if len(set(shp)) == len(shp):
        f.append("all_sizes_differ")
    return f
