"""C13: inputs are never modified; results are fresh, writable and independent."""
import copy, gc, weakref
import numpy as np
from lib import gen, hostile, rlang

ID, BUILD = "C13", "rel"
RULE = ("well-formed and malformed calls of every function on views with guard cells into larger buffers, read-only arrays, aliased arguments (one array passed twice, list objects shared) and lists, in several dtypes; buffers, guard cells, lists and flags compared "
        "before and after (Python and R); every returned array checked for ownership, flags and overlap with inputs and all other results, then overwritten, inputs freed, allocator churned, and earlier and later results compared; non-trivial if arrays were passed and returned; distinct by the call")
QUICK, THOROUGH = 6000, 80000
REQUIRE = {"succeeded": 2500, "failed": 800, "readonly": 1500, "guarded": 2500, "direct": 1500, "aliased": 200, "overwritten": 4000, "generators": 200, "R": 150, "converted": 500, "big": 60, "lists": 1000, "large_marginal": 10}
prepare = lambda run: rlang.prepare("rel")


class Watch:
    """Keeps what was passed and compares afterwards."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.items = ctx, rng, []

    def array(self, a, writable=None):
        """The same values as a view into a buffer with guard cells, or a plain array."""
        rng = self.rng
        a = np.asarray(a)
        c = rng.integers(5)
        if c <= 1 and a.dtype.kind in "if":      # contiguous inside a larger buffer
            g = int(rng.integers(1, 9))
            buf = np.full(a.size + 2 * g, 77, a.dtype)
            v = buf[g:g + a.size].reshape(a.shape)
            v[...] = a
            self.ctx.count("guarded"); self.ctx.count("direct")
        elif c == 2 and a.ndim:
            buf = np.full([2 * s + 1 for s in a.shape], 77, a.dtype)
            v = buf[tuple(slice(1, None, 2) for _ in a.shape)]
            v[...] = a
            self.ctx.count("guarded"); self.ctx.count("converted")
        elif c == 3:
            buf = v = a.astype([np.int32, np.float32, np.int64, np.float64, ">i8"][rng.integers(5)]) if np.issubdtype(a.dtype, np.number) and (a.dtype.kind == "i" and a.size and abs(a).max() < 2**20) else np.array(a)
            self.ctx.count("converted")
        else:
            buf = v = np.array(a)
            self.ctx.count("direct")
        if rng.random() < 0.4:
            v.flags.writeable = False
            if buf is not v:
                buf.flags.writeable = False
            self.ctx.count("readonly")
        self.items.append((v, buf, buf.tobytes(), v.flags.writeable, v.shape, v.strides, v.dtype))
        return v

    def list(self, l):
        self.items.append((l, None, list(l), copy.deepcopy(l) if all(isinstance(x, (int, list)) for x in l) else None))
        return l

    def verify(self, what):
        for it in self.items:
            if it[1] is None:
                l, _, ids, deep = it
                self.ctx.check(len(l) == len(ids) and all(x is y for x, y in zip(l, ids)), "list", "%s: a list that was passed has other elements" % what)
                self.ctx.check(deep is None or l == deep, "list", lambda: "%s: a list that was passed changed from %r to %r" % (what, deep, l))
            else:
                v, buf, b, w, shp, st, dt = it
                self.ctx.check(buf.tobytes() == b, "modified", lambda: "%s: an input array was modified: now %r (before: %r)" % (what, buf.reshape(-1)[:50].tolist(), np.frombuffer(b, buf.dtype)[:50].tolist()))
                self.ctx.check(v.flags.writeable == w and v.shape == shp and v.strides == st and v.dtype == dt, "metadata", "%s: flags, shape, strides or type of an input changed" % what)

    def arrays(self):
        return [it[0] for it in self.items if it[1] is not None]


def arrays_in(r):
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, dict):
        return [x for v in r.values() for x in arrays_in(v)]
    if isinstance(r, (tuple, list)) and not (isinstance(r, list) and r and isinstance(r[0], list)):
        return [x for v in r for x in arrays_in(v)]
    return []


def freeze(r):
    if isinstance(r, np.ndarray):
        return (r.shape, str(r.dtype), r.tobytes())
    if isinstance(r, dict):
        return {k: freeze(v) for k, v in r.items()}
    if isinstance(r, (tuple, list)):
        return [freeze(v) for v in r]
    return repr(r)


def build(ctx, w):
    """(name, callable) of a random call."""
    rng, hl = ctx.rng, ctx.hl
    if rng.random() < 0.03:
        fn, a = gen.big_call(rng, *((4200, 9000) if rng.random() < 0.7 else (66000, 90000)))
        if isinstance(a[-1], list) and rng.random() < 0.4:          # a marginal as large as the problem
            shp = gen.big_shape(rng, 66000, 90000) if rng.random() < 0.5 else gen.big_shape(rng, 4200, 9000)
            k, shp, sets, ms, b = gen.problem(rng, "partition", shp=shp + (1,), maxpop=30)
            nd = len(shp)
            o = [int(x) for x in rng.permutation(nd - 1)]
            sets, ms = [o, [nd - 1]], [np.ascontiguousarray(gen.marginal(b, o)), gen.marginal(b, [nd - 1])]
            if fn == "ipf":
                ms = [m.astype(float) for m in ms]
            a = (([] if fn == "qis" else [rng.random(shp) + 0.1]) + [sets, ms])
            ctx.count("large_marginal")
        a = [w.list([w.array(x) if isinstance(x, np.ndarray) else w.list(list(x)) for x in x]) if isinstance(x, list) else w.array(x) if isinstance(x, np.ndarray) else x for x in a]
        ctx.inputs(fn=fn, big=a)
        ctx.count("big")
        return fn, lambda: getattr(hl, fn)(*a)
    c = rng.random()
    if c < 0.55:
        if rng.random() < 0.4:
            kind, p = hostile.malformed(rng, maxpop=40)
            if kind == "too_large":
                kind, p = "valid", hostile.valid(rng, maxpop=40)
        else:
            kind, p = "valid", hostile.valid(rng, maxpop=40)
        ctx.inputs(kind=kind, **p)
        il, ml = p["indices"], p["marginals"]
        if isinstance(il, list):
            il = w.list([w.list(list(s)) if isinstance(s, list) and rng.random() < 0.6 else w.array(np.array(s, np.int64)) if isinstance(s, list) and s and all(type(x) is int for x in s) else s for s in il])
        if isinstance(ml, list):
            ml = w.list([w.array(m) if isinstance(m, np.ndarray) else m for m in ml])
        a = [il, ml]
        if p["fn"] != "qis":
            a.insert(0, w.array(p["seed"]) if isinstance(p["seed"], np.ndarray) else p["seed"])
        if p["skips"] is not None:
            a.append(p["skips"])
        return p["fn"], lambda: getattr(hl, p["fn"])(*a)
    if c < 0.63:      # the same objects in several places
        n = int(rng.integers(2, 5))
        m = w.array(rng.integers(0, 6, n) + 1)
        i = w.array(np.array([0, 1]))
        sq = rng.integers(0, 5, (n, n)); sq = sq + sq.T
        m2 = w.array(sq)
        ctx.inputs(aliased=True, m=m, m2=m2)
        ctx.count("aliased")
        fn = int(rng.integers(5))
        l = w.list([m, m]); ii = w.list([w.list([0]), w.list([1])]); l2 = w.list([m2, m2]); i2 = w.list([i, i])
        s = w.array(sq.astype(float) + 1)
        return "aliased", [lambda: hl.qis(ii, l), lambda: hl.qis(i2, l2), lambda: hl.ipf(m2, i2, l2), lambda: hl.qisi(s, i2, l2) if sq.sum() else hl.qis(i2, l2), lambda: hl.ipf(s, i2, w.list([s, s]))][fn]
    if c < 0.72:
        x = rng.random()
        a = gen.population(rng, gen.shape(rng, maxcells=60), 60) if x < 0.6 else np.array([[1, -1], [2, 0]]) if x < 0.75 else np.diag(rng.integers(0, 6, int(rng.integers(1, 5)))) if x < 0.9 else np.array(rng.integers(0, 4, [1] * int(rng.integers(1, 5))))
        a = w.array(a)
        ctx.inputs(fn="flatten", a=a)
        return "flatten", lambda: hl.flatten(a)
    if c < 0.84:
        p = rng.random(int(rng.integers(1, 20))) if rng.random() < 0.8 else np.array([0.5, -0.5, 1.0])
        a = w.array(p)
        n = int(rng.integers(0, 1000))
        ctx.inputs(fn="integerise", frac=a, pop=n)
        return "integerise1", lambda: hl.integerise(a, n)
    if c < 0.95:
        k, shp, sets, ms, b = gen.problem(rng, maxcells=60, maxpop=40)
        b = b.astype(float) if rng.random() < 0.5 else (b + b[::-1]) / 2.0 if rng.random() < 0.5 else b + 0.25
        a = w.array(b)
        ctx.inputs(fn="integerise", a=a)
        return "integerise", lambda: hl.integerise(a)
    d, sk = int(rng.integers(1, 20)), int(rng.integers(0, 50))
    ctx.inputs(fn="SobolSequence", dim=d, skips=sk)
    ctx.count("generators")

    def f():
        g = hl.SobolSequence(d, sk)
        return [next(g) for _ in range(5)]
    return "sobol", f


def invoke(ctx, f):
    try:
        with np.errstate(all="ignore"):
            return True, f()
    except Exception as e:
        return False, repr(e)


def churn(rng):
    """Reuse freed memory."""
    return [np.full(int(n), -9.0) for n in rng.integers(1, 600, 40)]


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.05:
        return case_R(ctx)
    w = Watch(ctx, rng)
    what, f = build(ctx, w)
    ok, r = invoke(ctx, f)
    w.verify(what)
    ctx.count("succeeded" if ok else "failed")
    ctx.count("fn:" + what)
    first = freeze(r)
    if not ok:
        ok2, r2 = invoke(ctx, f)
        w.verify(what)
        ctx.check(ok2 is False and r2 == r, "repeat", lambda: "%s: failed with %s, then gave %.200r" % (what, r, r2))
        return ctx.observed(what, first, *w.arrays())
    outs = arrays_in(r)
    ins = w.arrays()
    bufs = [it[1] for it in w.items if it[1] is not None]
    for k, a in enumerate(outs):
        ctx.check(a.flags.writeable and a.flags.c_contiguous and a.flags.aligned and a.dtype.isnative, "flags", lambda: "%s: a returned array is not a plain writable array: %r" % (what, a.flags))
        for b in bufs:
            ctx.check(not np.shares_memory(a, b), "shared-input", "%s: a returned array shares memory with an input" % what)
        for b in outs[:k]:
            ctx.check(not np.shares_memory(a, b), "shared-output", "%s: two returned arrays share memory" % what)
    if isinstance(r, list) and all(isinstance(x, list) for x in r):
        ctx.check(len({id(x) for x in r}) == len(r), "shared-output", "%s: two of the returned lists are the same object" % what)
        ctx.count("lists", len(r))
    ok2, r2 = invoke(ctx, f)          # another result of the same call
    w.verify(what)
    ctx.check(ok2 and freeze(r2) == first, "repeat", "%s: a second call gave another result" % what)
    outs2 = arrays_in(r2)
    if isinstance(r, list):
        ctx.check(not any(x is y for x in r for y in r2 if isinstance(x, list)), "shared-calls", "%s: two calls returned the same list object" % what)
    for a in outs:
        for b in outs2:
            ctx.check(not np.shares_memory(a, b), "shared-calls", "%s: results of two calls share memory" % what)
    # overwrite the second result
    for a in outs2:
        a[...] = -123
        ctx.count("overwritten")
    if isinstance(r2, tuple):
        r2[1].clear()
    elif isinstance(r2, list):
        for c in r2:
            if isinstance(c, list):
                c[:] = [5] * 3
    ctx.check(freeze(r) == first, "overwritten", "%s: writing to one result changed another" % what)
    w.verify(what + " after its result was overwritten")
    ok3, r3 = invoke(ctx, f)
    ctx.check(ok3 and freeze(r3) == first, "overwritten-later", "%s: writing to a result changed later results" % what)
    if rng.random() < 0.3:            # other calls in between
        w2 = Watch(ctx, rng)
        _, g = build(ctx, w2)
        invoke(ctx, g)
        w2.verify("another call")
        w.verify(what + " after another call")
        ctx.check(freeze(r) == first, "overwritten", "%s: a later call changed an earlier result" % what)
    # free the inputs, and reuse their memory
    obs = [a.copy() for a in ins]
    del f, r2, r3, outs2, ins, bufs, w
    if rng.random() < 0.2:
        gc.collect()
    x = churn(rng)
    ctx.check(freeze(r) == first, "freed", "%s: the result changed after its inputs were freed" % what)
    for a in outs:
        a[...] = 7
    del x
    ctx.observed(what, first, *obs)


def case_R(ctx):
    rng = ctx.rng
    k, shp, sets, ms, a = gen.problem(rng, maxcells=60, maxpop=40, maxdim=4)
    il = rlang.lst([rlang.int_(np.array(s) + 1) if rng.random() < 0.5 else rlang.num(np.array(s) + 1.0) for s in sets])
    bad = rng.random() < 0.3
    if bad:
        ms = [m + (j == 0) for j, m in enumerate(ms)]
    enc = rlang.int_ if rng.random() < 0.5 else rlang.num
    ml = rlang.lst([enc(m, dim="force") for m in ms])
    seed = rlang.num(gen.seed(rng, shp)[0], dim="force")
    if rng.random() < 0.2:
        seed = rlang.int_(rng.integers(0, 4, shp), dim="force")
    fn = ["qis", "qisi", "ipf", "integerise", "flatten", "prob2IntFreq"][rng.integers(6)]
    args = {"qis": [il, ml], "qisi": [seed, il, ml], "ipf": [seed, il, rlang.lst([rlang.num(m, dim="force") for m in ms])], "integerise": [rlang.num(a + 0.5 * bad, dim="force")],
            "flatten": [rlang.int_(a - bad, dim="force"), rlang.chars(["a%d" % d for d in range(a.ndim)])], "prob2IntFreq": [rlang.num(np.full(7, 1 / 7.0)), rlang.int_(20 - 50 * bad)]}[fn]
    if fn == "integerise" and rng.random() < .5:      # rounding errors and signed zeros
        args = [rlang.num(np.where(rng.random(shp) < .5, a, a + rng.choice([1e-17, 1e-14, 5e-324, -0.0], shp)) if rng.random() < .6 else np.where(a == 0, -0.0, a), dim="force")]
    if fn == "prob2IntFreq" and rng.random() < .5:
        args = [rlang.num([0.5, 1e-17, 0.5, -0.0, 5e-324, 0.0]), rlang.int_(20)]
    if fn == "ipf" and rng.random() < .5:
        args[2] = rlang.lst([rlang.num(np.where(m == 0, -0.0, m), dim="force") for m in ms])
    ctx.inputs(R=fn, sets=sets, marginals=ms)
    r = ctx.R.raw(fn, args)
    ctx.check(not r["mutated"], "R-modified", "R: %s modified its arguments (%s)" % (fn, "returned" if r["ok"] else r["msg"]))
    ctx.count("R"); ctx.count("R_failed", int(not r["ok"]))
    r2 = ctx.R.raw(fn, args)
    ctx.check(r2 == r, "R-repeat", "R: %s gave another result for the same arguments" % fn)
    ctx.observed(fn, sets, *ms)
