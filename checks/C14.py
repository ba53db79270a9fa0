"""C14: results depend on the values passed only, not on their representation."""
import array, collections
import numpy as np
from lib import gen, hostile, rlang

ID, BUILD = "C14", "rel"
RULE = ("well-formed and value-malformed calls of every function, each repeated with arguments in random other representations of the same values (22 array forms: lists, tuples, nested, all integer and floating types and byte orders, Fortran, transposed, reversed, "
        "strided, broadcast, unaligned, read-only, subclasses, memory maps, buffers; 4 container types); result and statistics, or exception type, must be identical; in R integer versus double storage; non-trivial if some representation differs from plain; distinct by values and forms")
QUICK, THOROUGH = 5000, 60000
REQUIRE = {"succeeded": 2500, "failed": 400, "R": 100, "big": 40}
prepare = lambda run: rlang.prepare("rel")
NVAR = 4


class Sub(np.ndarray):
    pass


class Seq(collections.abc.Sequence):
    def __init__(self, l):
        self.l = list(l)

    def __len__(self):
        return len(self.l)

    def __getitem__(self, i):
        return self.l[i]


def nested(a, f):
    return f(nested(x, f) for x in a) if a.ndim > 1 else f(a.tolist())


def exact(a, dt):
    """Can every value be represented in dt?"""
    a = np.asarray(a)
    dt = np.dtype(dt)
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        if dt.kind in "iub":
            if a.dtype.kind == "f" and not (np.isfinite(a).all() and (a == np.floor(a)).all() and (abs(a) < 2.0**62).all()):
                return False
            i = np.iinfo(dt) if dt.kind != "b" else None
            lo, hi = (i.min, i.max) if i else (0, 1)
            if a.dtype.kind == "f" and (np.signbit(a) & (a == 0)).any():
                return False
            return bool(int(a.min()) >= lo and int(a.max()) <= hi)
        if a.dtype.kind == "f":
            b = a.astype(dt)
            return bool(((b.astype(a.dtype) == a) | np.isnan(a)).all())
        return bool(int(abs(a.astype(object)).max()) <= 2 ** {2: 11, 4: 24}.get(dt.itemsize, 53)) if dt.kind == "f" else False


TYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "g", "?", ">i2", ">i4", ">u4", ">i8", ">u8", ">f4", ">f8"]


def typed(rng, a):
    for _ in range(6):
        t = TYPES[rng.integers(len(TYPES))]
        if exact(a, t):
            return a.astype(t), t + ":"
    return a, a.dtype.str + ":"


def form(rng, a, tmp):
    """(representation of a, description)."""
    a = np.asarray(a)
    t = ""
    if rng.random() < 0.6 and a.dtype.kind in "iuf":
        a, t = typed(rng, a)
    c = int(rng.integers(16))
    nd = a.ndim
    if c == 0:
        return a.copy(), t + "plain"
    if c == 1 and nd and a.dtype.kind != "g" and a.size < 2000:
        return nested(a, list), "list"
    if c == 2 and nd and a.size < 2000:
        return nested(a, tuple), "tuple"
    if c == 3:
        return np.asfortranarray(a), t + "fortran"
    if c == 4:
        p = rng.permutation(nd)
        return np.transpose(np.ascontiguousarray(np.transpose(a, p)), np.argsort(p)), t + "transposed"
    if c == 5 and nd:
        rev = tuple(slice(None, None, -1) if rng.random() < 0.6 else slice(None) for _ in range(nd))
        return np.ascontiguousarray(a[rev])[rev], t + "reversed"
    if c == 6 and nd:
        st = [int(rng.integers(1, 4)) for _ in range(nd)]
        off = [int(rng.integers(0, k)) for k in st]
        buf = np.full([s * k for s, k in zip(a.shape, st)], 1, a.dtype)
        v = buf[tuple(slice(o, None, k) for o, k in zip(off, st))]
        v[...] = a
        return v, t + "strided"
    if c == 7:
        raw = bytearray(a.nbytes + 64)
        o = int(rng.integers(1, 16))
        v = np.frombuffer(raw, np.uint8)[o:o + a.nbytes].view(a.dtype).reshape(a.shape) if a.size else a
        if a.size:
            v[...] = a
        return v, t + "unaligned"
    if c == 8:
        v = a.copy(); v.flags.writeable = False
        return v, t + "readonly"
    if c == 9 and a.size:
        for ax in range(nd):
            if a.shape[ax] > 1 and (a == np.take(a, [0], ax)).all():
                return np.broadcast_to(np.take(a, [0], ax), a.shape), t + "broadcast"
        if a.dtype.kind != "g":
            return a[np.newaxis][0], t + "view"
    if c == 10:
        return a.copy().view(Sub), t + "subclass"
    if c == 11 and nd == 1 and a.dtype.str[1:] in ("i8", "f8", "i4", "u2") and a.dtype.isnative:
        return array.array({"i8": "q", "f8": "d", "i4": "i", "u2": "H"}[a.dtype.str[1:]], a.tolist()), "array.array"
    if c == 12 and a.dtype.isnative and a.dtype.kind in "if" and a.dtype.itemsize < 16 and a.size:
        return memoryview(np.ascontiguousarray(a)), t + "memoryview"
    if c == 13 and a.dtype.kind in "iuf" and a.dtype.itemsize < 16:
        r = np.zeros(a.shape, [("x", "i1"), ("v", a.dtype), ("y", "f4")])
        r["v"] = a
        return r["v"], t + "field"
    if c == 14 and nd:
        return [np.array(x) for x in a] if a.size < 500 else a.copy(), t + "list of arrays"
    if c == 15 and a.dtype.kind in "iuf":
        return a.astype(object) if a.size < 500 and rng.random() < 0.3 and a.dtype.kind != "f" else a[..., np.newaxis][..., 0], t + "object/view"
    return a.copy(), t + "plain"


def index_form(rng, s, tmp):
    c = int(rng.integers(6))
    if c == 0:
        return list(s), "list"
    if c == 1:
        return tuple(s), "tuple"
    if c == 2 and len(s) > 1 and all(s[i + 1] == s[i] + 1 for i in range(len(s) - 1)):
        return range(s[0], s[-1] + 1), "range"
    if c == 3:
        return [np.int32(x) for x in s] if all(abs(x) < 2**31 for x in s) else list(s), "numpy scalars"
    return form(rng, np.array(s, np.int64), tmp)


def outer(rng, l):
    c = int(rng.integers(6))
    if c <= 2:
        return list(l), "list"
    if c == 3:
        return tuple(l), "tuple"
    if c == 4:
        return Seq(l), "sequence"
    return collections.UserList(l), "UserList"


def freeze(r):
    if isinstance(r, np.ndarray):
        return (r.shape, str(r.dtype), r.tobytes())
    if isinstance(r, dict):
        return {k: freeze(v) for k, v in r.items()}
    if isinstance(r, (tuple, list)):
        return [freeze(v) for v in r]
    return (type(r).__name__, repr(r))


def outcome(f):
    try:
        with np.errstate(all="ignore"):
            return "returned", freeze(f())
    except Exception as e:
        return "raised", type(e).__name__


# corruptions by value, which every representation can express
VALUE_KINDS = ["fewer_indices", "fewer_marginals", "index_too_long", "index_too_short", "repeated_dimension", "repeated_within", "negative_dimension", "one_based", "size_mismatch", "total", "partial_sums", "negative", "all_negative", "seed_value", "gap"]


def gen_shape(a):
    d = {k: n for s, m in zip(a[-2], a[-1]) for k, n in zip(s, np.shape(m))}
    return tuple(d[k] for k in range(len(d)))


def case(ctx):
    rng, hl = ctx.rng, ctx.hl
    c = rng.random()
    if c < 0.03:
        return case_R(ctx)
    if c < 0.68:
        kind = "valid"
        big = rng.random() < 0.03
        while True:
            p = hostile.valid(rng, maxpop=60, maxcells=120)
            if big:
                bf, ba = gen.big_call(rng, *((4200, 7000) if rng.random() < 0.85 else (66000, 80000)))
                if bf not in ("qis", "qisi", "ipf"):
                    continue
                p = {"fn": bf, "indices": ba[-2], "marginals": ba[-1], "seed": ba[0] if bf != "qis" else None, "skips": None, "shape": gen_shape(ba)}
                ctx.count("big")
                break
            if rng.random() < 0.4:       # values that small types hold exactly
                if p["seed"] is not None:
                    p["seed"] = np.where(p["seed"] > 0, rng.integers(1, 8, p["shape"]) * (0.5 if rng.random() < 0.5 else 1), 0).astype(float)
            if rng.random() < 0.18:
                r = hostile.corrupt(rng, p, VALUE_KINDS[rng.integers(len(VALUE_KINDS))])
                if not r:
                    continue
                kind, p = r
            break
        fn = p["fn"]
        base = outcome(lambda: hostile.call(hl, p))
        ctx.inputs(kind=kind, **p)

        def variant():
            il = [index_form(rng, s, ctx) for s in p["indices"]]
            ml = [form(rng, m, ctx) for m in p["marginals"]]
            o1, o2 = outer(rng, [x[0] for x in il]), outer(rng, [x[0] for x in ml])
            d = [x[1] for x in il] + [x[1] for x in ml] + [o1[1], o2[1]]
            a = [o1[0], o2[0]]
            if fn != "qis":
                s = form(rng, p["seed"], ctx)
                a.insert(0, s[0]); d.append("seed " + s[1])
            sk = p["skips"]
            if sk is not None:
                a.append(np.int64(sk) if rng.random() < 0.3 else sk)
            if rng.random() < 0.2:
                names = {"qis": ["indices", "marginals", "skips"]}.get(fn, ["seed", "indices", "marginals", "skips"])
                kw = dict(zip(names, a))
                return d + ["keywords"], lambda: getattr(hl, fn)(**kw)
            return d, lambda: getattr(hl, fn)(*a)
        values = [repr(p["indices"])] + p["marginals"]
    elif c < 0.8:
        fn = "flatten"
        x = gen.population(rng, gen.shape(rng, maxcells=60) if rng.random() < 0.97 else gen.big_shape(rng), 60)
        if rng.random() < 0.15:
            x[(0,) * x.ndim] = -1
        ctx.inputs(fn=fn, pop=x)
        base = outcome(lambda: hl.flatten(x.copy()))

        def variant():
            f, d = form(rng, x, ctx)
            return [d], lambda: hl.flatten(f)
        values = [x]
    elif c < 0.9:
        fn = "integerise1d"
        x = rng.integers(0, 9, int(rng.integers(1, 30))) * (1.0 if rng.random() < 0.7 else 0.25)
        if rng.random() < 0.15:
            x[0] = -1
        pop = int(rng.integers(0, 100))
        ctx.inputs(fn=fn, frac=x, pop=pop)
        base = outcome(lambda: hl.integerise(x.copy(), pop))

        def variant():
            f, d = form(rng, x, ctx)
            return [d], lambda: hl.integerise(f, pop)
        values = [x, pop]
    else:
        fn = "integerise"
        large = rng.random() < 0.03
        b = gen.population(rng, gen.big_shape(rng) if large else gen.shape(rng, maxcells=60), 60)
        x = (b + b[::-1]) / 2.0 if rng.random() < 0.4 and not large else b.astype(float)
        ctx.inputs(fn=fn, pop=x)
        base = outcome(lambda: hl.integerise(x.copy()))

        def variant():
            f, d = form(rng, x, ctx)
            return [d], lambda: hl.integerise(f)
        values = [x]
    forms = []
    for _ in range(NVAR):
        d, f = variant()
        o = outcome(f)
        ctx.check(o == base, "differs:" + fn, lambda: "%s with arguments as %r %s, but plain arrays %s" % (fn, d, o if o[0] == "raised" else o[0], base if base[0] == "raised" else base[0] + (" another result" if o[0] == "returned" else "")))
        forms.append(d)
        for name in d:
            ctx.count("form:" + name.replace("seed ", "").split(":")[-1])
        ctx.count("calls")
    ctx.count("succeeded" if base[0] == "returned" else "failed")
    ctx.observed(fn, forms, *values)


def case_R(ctx):
    rng = ctx.rng
    k, shp, sets, ms, a = gen.problem(rng, maxcells=60, maxpop=40, maxdim=4)
    out = []
    seed = rng.integers(0, 4, shp) + 1
    fn = ["qis", "qisi", "ipf"][rng.integers(3)]
    ctx.inputs(R=fn, sets=sets, marginals=ms)
    for v in range(3):
        ii = rlang.int_ if rng.random() < 0.5 else rlang.num
        mm = rlang.int_ if rng.random() < 0.5 else rlang.num
        ss = rlang.int_ if rng.random() < 0.5 else rlang.num
        il = rlang.lst([ii(np.array(s) + 1) for s in sets])
        # a one-dimensional marginal may or may not have a dim attribute
        ml = rlang.lst([mm(m, dim="force" if rng.random() < 0.5 else True) for m in ms])
        r = ctx.R.raw(fn, ([] if fn == "qis" else [ss(seed, dim="force")]) + [il, ml])
        out.append(r)
    ctx.check(all(o == out[0] for o in out), "R", "R: %s gives different results for different storage of the same values" % fn)
    ctx.count("R")
    ctx.observed(fn, sets, *ms)
