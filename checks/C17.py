"""C17: malformed problems are refused with an exception and nothing else; well-formed ones are not."""
import time
import numpy as np
from lib import gen, hostile, oracles

ID, BUILD = "C17", "rel"
RULE = ("well-formed problems for qis, qisi and ipf, each corrupted in one of 29 ways (every reason in the property, isolated so that nothing else is wrong), 46 malformed calls of the other functions, and well-formed problems of unusual form; "
        "malformed: an ordinary exception within 20 s of CPU time and 6 GB, then a reference call with unchanged result; well-formed: no exception; non-trivial if it is malformed or unusual; distinct by the call")
QUICK, THOROUGH = 36000, 400000
REQUIRE = dict({"malformed:" + k: 150 for k in hostile.KINDS}, wellformed=5000, other=2500, unusual=2000, large=150, after_wellformed=4000)
LIMIT = 20.0


def refused(ctx, kind, f):
    t = time.process_time()
    try:
        r = f()
    except Exception as e:
        t = time.process_time() - t
        ctx.check(not isinstance(e, SystemError), "systemerror", "%s: %r" % (kind, e))
        ctx.check(t < LIMIT, "slow", "%s: refused only after %.1f s" % (kind, t))
        ctx.check(str(e) != "" or isinstance(e, (MemoryError, StopIteration)), "message", "%s: exception without a message: %r" % (kind, e))
        ctx.count("exception:" + type(e).__name__)
        return
    except BaseException as e:
        ctx.fail("baseexception:" + kind, "%s: raised %r" % (kind, e))
    ctx.fail("accepted:" + kind, "%s: accepted, returned %.300r" % (kind, r))


def setup(ctx):
    ctx.ref = [reference(ctx)]


def reference(ctx):
    a = ctx.hl.qis([[0, 1], [1, 2]], [np.array([[3, 4], [5, 1]]), np.array([[2, 6], [4, 1]])])[0]
    b = ctx.hl.ipf(np.array([[1.0, 2.0], [3.0, 1.0]]), [[0], [1]], [np.array([4.0, 7.0]), np.array([5.0, 6.0])])[0]
    c = ctx.hl.qisi(np.array([[1.0, 2.0], [3.0, 1.0]]), [[0], [1]], [np.array([4, 7]), np.array([5, 6])])[0]
    d = next(ctx.hl.SobolSequence(4, 3))
    e = ctx.hl.integerise(np.array([0.2, 0.3, 0.5]), 11)[0]
    return [x.tolist() for x in (a, b, c, d, e)] + [ctx.hl.flatten(np.array([[1, 2], [0, 3]]))]


def unusual(ctx, rng):
    """Well-formed, but of an uncommon form."""
    hl = ctx.hl
    c = int(rng.integers(14))
    kw = {}
    if c == 0:       # half-integral total, with rounding error
        a = rng.integers(1, 50, gen.shape(rng, maxdim=3, minsize=2)) / 10.0
        sets = gen.partition(rng, a.ndim)
        f = lambda: hl.ipf(np.ones(a.shape), sets, [gen.marginal(a, s) for s in sets])
        ctx.inputs(what="decimals", a=a, sets=sets)
    elif c == 1:     # no population
        shp = gen.shape(rng, maxcells=200)
        sets = gen.anysets(rng, len(shp))
        ms = [np.zeros([shp[d] for d in s], np.int64) for s in sets]
        f = lambda: (hl.qis(sets, ms), hl.qisi(np.ones(shp), sets, ms), hl.ipf(np.ones(shp), sets, [m.astype(float) for m in ms]), hl.integerise(np.zeros(shp)), hl.flatten(np.zeros(shp, np.int64)))
        ctx.inputs(what="empty population", shape=shp, sets=sets)
    elif c == 2:     # dimensions of size one
        shp = tuple(int(x) for x in rng.integers(1, 3, int(rng.integers(2, 6))))
        a = rng.integers(0, 5, shp)
        sets = gen.decomposable(rng, a.ndim) if a.ndim > 1 else [[0], [0]]
        ms = [gen.marginal(a, s) for s in sets]
        f = lambda: (hl.qis(sets, ms), hl.qisi(np.ones(shp), sets, ms), hl.ipf(np.ones(shp), sets, [m.astype(float) for m in ms]))
        ctx.inputs(what="singletons", a=a, sets=sets)
    elif c == 3:     # the same marginal several times, or the complete array
        k, shp, sets, ms, a = gen.problem(rng, "decomposable", maxcells=100, maxpop=50)
        j = int(rng.integers(len(sets)))
        if rng.random() < 0.5:
            sets, ms = sets + [list(sets[j])], ms + [ms[j].copy()]
        else:
            p = [int(x) for x in rng.permutation(a.ndim)]      # listed first, so that every other one lies within it
            sets, ms = [p] + sets, [np.ascontiguousarray(gen.marginal(a, p))] + ms
        f = lambda: (hl.qis(sets, ms), hl.qisi(np.ones(shp), sets, ms), hl.ipf(np.ones(shp), sets, [m.astype(float) for m in ms]))
        ctx.inputs(what="redundant", a=a, sets=sets)
    elif c == 4:     # partial sums that differ by rounding errors only
        a = rng.random(gen.shape(rng, maxdim=4, minsize=2, maxcells=300)) * 10.0 ** rng.uniform(-6, 4)
        sets = gen.anysets(rng, a.ndim)
        f = lambda: hl.ipf(np.ones(a.shape), sets, [gen.marginal(a, s) for s in sets])
        ctx.inputs(what="rounding", a=a, sets=sets)
    elif c == 5:     # partial sums that differ by less than the tolerance
        a = rng.integers(1, 9, (int(rng.integers(2, 5)), 3, 2)) + 0.25
        m = [gen.marginal(a, [0, 1]), gen.marginal(a, [1, 2])]
        m[0][0, 0] += float(rng.choice([-1, 1])) * float(rng.choice([5e-9, 1e-9, 1e-12]))
        f = lambda: hl.ipf(np.ones(a.shape), [[0, 1], [1, 2]], m)
        ctx.inputs(what="tolerance", m=m)
    elif c == 6:     # negative zeros
        f = lambda: hl.ipf(np.array([[1.0, -0.0], [1.0, 1.0]]), [[0], [1]], [np.array([-0.0, 2.0]), np.array([1.0, 1.0])])
        ctx.inputs(what="negative zero")
    elif c == 7:     # many dimensions
        d = int(rng.integers(10, 17))
        ms = [np.array([2, 3]) for _ in range(d)]
        f = lambda: hl.qis([[i] for i in range(d)], ms)
        ctx.inputs(what="many dimensions", d=d)
    elif c == 8:     # a large dimension
        n = int(rng.integers(1000, 20000))
        m = rng.multinomial(30, np.ones(n) / n)
        f = lambda: hl.qis([[0], [1]], [m, np.array([10, 20])])
        ctx.inputs(what="large dimension", m=m)
    elif c == 9:     # extreme seeds
        s = 10.0 ** rng.uniform(-300, 300, (3, 4))
        f = lambda: hl.ipf(s, [[0], [1]], [np.array([1.0, 2.0, 3.0]), np.array([2.0, 1.0, 2.0, 1.0])])
        ctx.inputs(what="extreme seed", seed=s)
    elif c == 10:    # extreme skips
        f = lambda: hl.qis([[0], [1]], [np.array([1, 2]), np.array([2, 1])], int(rng.choice([0, 1, 2, 1 << 16])))
        ctx.inputs(what="skips")
    elif c == 11:    # fractions
        n = int(rng.integers(1, 50))
        p = rng.random(n) * 10.0 ** rng.uniform(-5, 5)
        pop = int(rng.choice([0, 1, 7, 1000, (1 << 31) - 1]))
        f = lambda: hl.integerise(p, pop)
        ctx.inputs(what="fractions", p=p, pop=pop)
    elif c == 12:    # large totals
        v = int(rng.choice([1 << 40, 1 << 52, 1 << 60]))
        m = np.array([float(v), float(v)])
        f = lambda: hl.ipf(np.ones((2, 2)), [[0], [1]], [m, m.copy()])
        ctx.inputs(what="large total", v=v)
    else:            # every dimension count of the generator
        d = int(rng.choice([1, 2, 1110, 1111]))
        f = lambda: (hl.SobolSequence(d), hl.SobolSequence(d, int(rng.choice([0, 1, 1000]))))
        ctx.inputs(what="sobol", d=d)
    try:
        f()
    except Exception as e:
        ctx.fail("refused:" + ctx.last["what"], "a well-formed problem (%s) was refused: %r" % (ctx.last["what"], e))
    ctx.count("unusual"); ctx.count("wellformed")
    ctx.observed(*[v for v in ctx.last.values()])


def case(ctx):
    rng = ctx.rng
    c = rng.random()
    if c < 0.12:
        p = hostile.valid(rng, large=0.03)
        ctx.inputs(**p)
        try:
            hostile.call(ctx.hl, p)
        except Exception as e:
            if p["fn"] == "qis" and not gen.is_decomposable(p["indices"]):
                return ctx.trivial()      # a dead end
            ctx.fail("refused:" + p["fn"], "a well-formed problem was refused: %r" % e)
        ctx.count("wellformed")
        return ctx.trivial()
    if c < 0.22:
        return unusual(ctx, rng)
    if c < 0.34:
        kind, fn, a = hostile.other_malformed(rng)
        ctx.inputs(kind=kind, fn=fn, args=a)
        with np.errstate(all="ignore"):
            refused(ctx, kind, lambda: getattr(ctx.hl, fn)(*a))
        ctx.count("other")
        ctx.observed(kind, fn, *[x if isinstance(x, np.ndarray) else repr(x) for x in a])
    else:
        kind, q, p = hostile.malformed(rng, origin=True, large=0.02) if rng.random() > 0.005 else hostile.long_malformed(rng)
        ctx.count("large", int("large" in p))
        if rng.random() < 0.4:      # straight after the well-formed problem that it almost is
            try:
                hostile.call(ctx.hl, p)
            except Exception as e:
                ctx.check(p["fn"] == "qis" and not gen.is_decomposable(p["indices"]), "refused:" + p["fn"], lambda: "a well-formed problem was refused: %r" % e)
            ctx.count("after_wellformed")
        if rng.random() < 0.1:      # and a second defect
            r = hostile.corrupt(rng, q, ["skips", "seed_value", "all_negative", "negative_dimension"][rng.integers(4)]) if kind in ("total", "partial_sums", "negative", "size_mismatch", "gap") else None
            if r:
                q = r[1]
        ctx.inputs(kind=kind, **q)
        with np.errstate(all="ignore"):
            refused(ctx, kind, lambda: hostile.call(ctx.hl, q))
        ctx.count("malformed:" + kind)
        ctx.observed(kind, q["fn"], repr(q["indices"])[:500], *[m if isinstance(m, np.ndarray) else repr(m)[:50] for m in (q["marginals"] if isinstance(q["marginals"], list) else [])])
    if rng.random() < 0.2:
        ctx.check(reference(ctx) == ctx.ref[0], "reference", "results of well-formed calls changed after %s was refused" % kind)
        ctx.count("reference_calls")
