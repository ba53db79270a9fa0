"""Malformed calls of the Python API. Each is malformed for exactly one reason, stated in its kind."""
import numpy as np
from . import gen

FN = ("qis", "qisi", "ipf")


def valid(rng, fn=None, maxpop=80, maxcells=300, large=0.0, **kw):
    """A well-formed problem as a dict: fn, indices, marginals, seed, skips. A fraction is large."""
    fn = fn or FN[rng.integers(3)]
    p = {"fn": fn, "seed": None, "skips": None}
    if large and rng.random() < large:
        k, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], shp=gen.large_shape(rng), maxpop=min(maxpop, 20))
        p.update(shape=shp, indices=sets, marginals=ms, large=True)
        if fn != "qis":
            p["seed"] = gen.quick_seed(rng, shp)
        if fn == "ipf":
            p["marginals"] = [m.astype(float) for m in ms]
    elif fn == "ipf":
        shp, sets, ms, s, a, style = gen.feasible(rng, maxcells=maxcells, maxdim=4, maxpop=maxpop)
        p.update(shape=shp, indices=sets, marginals=[np.asarray(m, float) for m in ms], seed=s)
    elif fn == "qisi":
        shp, sets, ms, s, a, style = gen.feasible(rng, maxcells=maxcells, maxdim=4, integral=True, maxpop=maxpop)
        p.update(shape=shp, indices=sets, marginals=[np.asarray(m, np.int64) for m in ms], seed=s)
    else:
        k, shp, sets, ms, a = gen.problem(rng, "decomposable" if rng.random() < 0.6 else "any", maxpop=maxpop, maxcells=maxcells, maxdim=4)
        p.update(shape=shp, indices=sets, marginals=ms)
    if fn != "ipf" and rng.random() < 0.5:
        p["skips"] = int(rng.integers(0, 300))
    return p


def args(p, copy=True):
    il = [list(s) if isinstance(s, list) else s for s in p["indices"]] if isinstance(p["indices"], list) else p["indices"]
    ml = [np.array(m) if isinstance(m, np.ndarray) and copy else m for m in p["marginals"]] if isinstance(p["marginals"], list) else p["marginals"]
    a = [il, ml]
    if p["fn"] != "qis":
        a.insert(0, np.array(p["seed"]) if copy and isinstance(p["seed"], np.ndarray) else p["seed"])
    if p["skips"] is not None:
        a.append(p["skips"])
    return a


def call(hl, p):
    return getattr(hl, p["fn"])(*args(p))


def _shared(sets):
    """(k, axis, dim) of dimensions in more than one marginal."""
    n = {}
    for k, s in enumerate(sets):
        for j, d in enumerate(s):
            n.setdefault(d, []).append((k, j))
    return [(k, j, d) for d, l in n.items() if len(l) > 1 for k, j in l]


def _resized(m, axis, n):
    out = np.zeros([n if i == axis else s for i, s in enumerate(m.shape)], m.dtype)
    k = min(n, m.shape[axis])
    sl = tuple(slice(0, k) if i == axis else slice(None) for i in range(m.ndim))
    out[sl] = m[sl]
    return out


def corrupt(rng, p, kind=None):
    """(kind, malformed problem), or None if that kind does not apply to this problem."""
    q = dict(p, indices=[list(s) for s in p["indices"]], marginals=[np.array(m) for m in p["marginals"]])
    I, M = q["indices"], q["marginals"]
    n = len(I)
    nd = len(p["shape"])
    kind = kind or KINDS[rng.integers(len(KINDS))]
    k = int(rng.integers(n))
    pos = lambda m: tuple(int(rng.integers(s)) for s in m.shape)
    if kind == "fewer_indices":
        del I[k]
    elif kind == "fewer_marginals":
        del M[k]
    elif kind == "one_marginal":
        q["indices"], q["marginals"] = [list(range(nd))], [gen.marginal(np.ones(p["shape"], M[0].dtype), list(range(nd)))]
    elif kind == "no_marginals":
        q["indices"], q["marginals"] = [], []
    elif kind == "one_dimension":
        m = np.ones(p["shape"][0], M[0].dtype)
        q["indices"], q["marginals"] = [[0], [0]], [m, m.copy()]
        if q["seed"] is not None:
            q["seed"] = np.ones(p["shape"][0])
    elif kind == "index_too_long":
        free = [d for d in range(nd + 1) if d not in I[k]]
        I[k].append(int(rng.choice(free)))
    elif kind == "index_too_short":
        I[k].pop(int(rng.integers(len(I[k]))))
    elif kind == "repeated_dimension":
        d = I[k][0]
        s = p["shape"][d]
        if s > 1000:
            return None
        m = np.zeros((s, s), M[k].dtype)
        m[np.arange(s), np.arange(s)] = gen.marginal(M[k], [0])
        I.append([d, d]); M.append(m)
    elif kind == "repeated_within":
        c = [k for k in range(n) if len(I[k]) > 1]
        c = [(k, i, j) for k in c for i in range(len(I[k])) for j in range(len(I[k])) if i != j]
        if not c:
            return None
        k, i, j = c[rng.integers(len(c))]
        I[k][j] = I[k][i]
    elif kind == "gap":
        d = int(rng.integers(nd))
        t = int(rng.choice([nd, nd + 1, nd + 7, 1000, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + d, (1 << 62), (1 << 63) - 1]))
        q["indices"] = [[t if x == d else x for x in s] for s in I]
        if t == nd and d == nd - 1 and False:
            return None
    elif kind == "negative_dimension":
        d = int(rng.integers(nd))
        t = int(rng.choice([-1, -1, -2, -nd, d - nd if d < nd else -1, -(1 << 31), -(1 << 63)]))
        q["indices"] = [[t if x == d else x for x in s] for s in I]
    elif kind == "one_based":
        q["indices"] = [[x + 1 for x in s] for s in I]
    elif kind == "size_mismatch":
        c = _shared(I)
        if not c:
            return None
        k, j, d = c[rng.integers(len(c))]
        M[k] = _resized(M[k], j, M[k].shape[j] + int(rng.choice([1, 1, 2])))      # extra empty categories: the sums still agree
    elif kind == "total":
        v = int(rng.choice([1, 1, 2, 10, 1000]))
        c = [k for k in range(n)]
        i = pos(M[k])
        M[k][i] += v
    elif kind == "partial_sums":
        c = [(k, j, d) for k, j, d in _shared(I) if p["shape"][d] > 1]
        if not c:
            return None
        k, j, d = c[rng.integers(len(c))]
        i = np.argwhere(M[k] >= (1 if M[k].dtype.kind == "i" else 1e-3))
        if not len(i):
            return None
        i = tuple(i[rng.integers(len(i))])
        to = list(i)
        to[j] = (i[j] + int(rng.integers(1, M[k].shape[j]))) % M[k].shape[j]
        v = 1 if M[k].dtype.kind == "i" else float(rng.choice([1e-3, 1e-5, 1e-6])) if rng.random() < 0.5 else M[k][i]
        M[k][i] -= v; M[k][tuple(to)] += v
        if p["fn"] == "ipf" and not abs(gen.marginal(M[k], [j]) - gen.marginal(p["marginals"][k], [j])).max() > 1e-7:
            return None
    elif kind == "negative":
        # consistent in every other respect
        if M[k].size < 2:
            return None
        i, j = pos(M[k]), pos(M[k])
        shared = {d for _, _, d in _shared(I)}
        for ax, d in enumerate(I[k]):
            if d in shared and i[ax] != j[ax]:
                j = j[:ax] + (i[ax],) + j[ax + 1:]
        if i == j:
            return None
        v = M[k][i] + (int(rng.choice([1, 1, 2, 1000])) if M[k].dtype.kind == "i" else float(rng.choice([1e-3, 0.5, 1.0, 1000.0])))
        M[k][i] -= v; M[k][j] += v
    elif kind == "all_negative":
        if all((m == 0).all() for m in M):
            return None
        q["marginals"] = [-m for m in M]
    elif kind == "not_finite":
        bad = float(rng.choice([np.nan, np.inf, -np.inf]))
        if rng.random() < 0.5:
            M[k] = M[k].astype(float); M[k][pos(M[k])] = bad
        else:      # the same in every marginal
            q["marginals"] = [m.astype(float) for m in M]
            for m in q["marginals"]:
                m[(0,) * m.ndim] = bad
    elif kind == "overflow":
        v = [1 << 62, (1 << 63) - 1][rng.integers(2)]
        if p["fn"] == "ipf":
            q["marginals"] = [np.full(m.shape, float(rng.choice([1e19, 1e300]))) for m in M]
        else:
            q["marginals"] = [np.full(m.shape, v, np.int64) for m in M]
            if any(m.size < 4 for m in M):
                return None
    elif kind == "large_unsigned":
        if p["fn"] == "ipf":
            return None
        M[k] = M[k].astype(np.uint64); M[k][pos(M[k])] = (1 << 64) - int(rng.integers(1, 1 << 40))
    elif kind in ("seed_shape", "seed_value"):
        s = q["seed"]
        if s is None:
            return None
        if kind == "seed_shape":
            c = int(rng.integers(6))
            ax = int(rng.integers(nd))
            if c == 0:
                s = _resized(s, ax, s.shape[ax] + 1)
            elif c == 1:
                if s.shape[ax] < 2:
                    return None
                s = _resized(s, ax, s.shape[ax] - 1)
            elif c == 2:
                s = s[np.newaxis]
            elif c == 3:
                s = s.reshape(-1)
            elif c == 4:
                s = np.ascontiguousarray(s.T)
                if s.shape == q["seed"].shape:
                    return None
            else:
                s = np.ascontiguousarray(np.take(s, 0, ax))
            q["seed"] = s
        else:
            s = np.array(s, float)
            i = pos(s)
            s[i] = [-1.0, -1e-300, -1e300, np.nan, np.inf, -np.inf][rng.integers(6)]
            q["seed"] = s
    elif kind == "empty_marginal":
        c = int(rng.integers(3))
        if c == 0:
            M[k] = np.zeros(0, M[k].dtype)
        elif c == 1:
            M[k] = np.zeros([0 if i == 0 else s for i, s in enumerate(M[k].shape)], M[k].dtype)
        else:
            # one dimension is consistently empty, and so is the population
            d = int(rng.integers(nd))
            q["marginals"] = [np.zeros([0 if x == d else s for x, s in zip(i, m.shape)], m.dtype) for i, m in zip(I, M)]
            if q["seed"] is not None:
                q["seed"] = np.zeros([0 if x == d else s for x, s in enumerate(p["shape"])])
    elif kind == "empty_index":
        I[k] = []
        if rng.random() < 0.5:
            M[k] = np.array(M[k].sum())      # no dimensions
    elif kind == "extra_scalar":
        I.append([]); M.append(np.array(M[0].sum()))
    elif kind == "too_large":
        # too many states to represent, or to store
        size, dims = [(1000, 7), (1000, 4), (100000, 4), (1 << 16, 4), (1 << 20, 3), (3, 41), (2, 64), (2, 63), (2, 65)][rng.integers(9)]
        q["indices"] = [[d] for d in range(dims)]
        m = np.zeros(size, M[0].dtype); m[0] = 1
        q["marginals"] = [m.copy() for _ in range(dims)]
        if q["seed"] is not None:
            if rng.random() < 0.5 or dims > 30:
                q["seed"] = np.ones(p["shape"])
            else:
                q["seed"] = np.broadcast_to(np.ones(()), (size,) * dims) if size ** dims < 1 << 50 else np.ones(p["shape"])
    elif kind == "skips":
        if p["fn"] == "ipf":
            return None
        q["skips"] = [-1, -2, -(1 << 31), -(1 << 32), -(1 << 63), 1 << 32, (1 << 32) + 1, 1 << 33, (1 << 63) - 1, 1 << 63, 1 << 64, -(1 << 64), 1.5, "1", None, [1], np.nan][rng.integers(17)]
        if q["skips"] is None:
            q["skips"] = b"0"
    elif kind == "types":
        what = [None, 1, 1.5, "ab", b"ab", {}, {0: 1}, set(), object(), iter([]), len][rng.integers(11)]
        c = int(rng.integers(5))
        if c == 0:
            q["indices"] = what
        elif c == 1:
            q["marginals"] = what
        elif c == 2:
            I[k] = what
        elif c == 3:
            M[k] = what if what != 1 and what != 1.5 else np.array("x")
        else:
            if p["fn"] == "qis":
                return None
            q["seed"] = what
    elif kind == "index_types":
        I[k] = [["a"] * len(I[k]), [None] * len(I[k]), [[x] for x in I[k]], [I[k]], [I[k], I[k]], np.array(I[k])[:, None], [I[k], 1], [1j] * len(I[k])][rng.integers(8)]
        if isinstance(I[k], list) and I[k] and isinstance(I[k][0], complex):
            return None
    else:
        raise ValueError(kind)
    return kind, q


KINDS = ["fewer_indices", "fewer_marginals", "one_marginal", "no_marginals", "one_dimension", "index_too_long", "index_too_short", "repeated_dimension", "repeated_within", "gap", "negative_dimension", "one_based",
         "size_mismatch", "total", "partial_sums", "negative", "all_negative", "not_finite", "overflow", "large_unsigned", "seed_shape", "seed_value", "empty_marginal", "empty_index", "extra_scalar", "too_large", "skips",
         "types", "index_types"]


def long_malformed(rng):
    """A dimension with very many categories, in which two marginals disagree: refused with a long message."""
    fn = FN[rng.integers(3)]
    while True:
        n = int(rng.choice([100, 300, 1000, 3000, 10000, 40000, 70000]))
        rest = [int(rng.integers(1, 3)) for _ in range(int(rng.integers(1, 3)))]
        order = rng.permutation(len(rest) + 1).tolist()
        shp = tuple((rest + [n])[i] for i in order)
        d = order.index(len(rest))
        a = gen.population(rng, shp, int(rng.choice([20, 500])))
        other = [i for i in range(len(shp)) if i != d]
        sets = [[d] + other[:1], other[1:] + [d]]
        ms = [np.ascontiguousarray(gen.marginal(a, s)) for s in sets]
        p = {"fn": fn, "seed": None, "skips": None, "shape": shp, "indices": sets, "marginals": ms}
        if fn != "qis":
            p["seed"] = gen.quick_seed(rng, shp)
        if fn == "ipf":
            p["marginals"] = [m.astype(float) for m in ms]
        r = corrupt(rng, p, ["partial_sums", "partial_sums", "partial_sums", "size_mismatch", "seed_shape", "total"][rng.integers(6)])
        if r:
            return r + (p,)


def malformed(rng, fn=None, origin=False, **kw):
    while True:
        p = valid(rng, fn, **kw)
        r = corrupt(rng, p)
        if r:
            return r + (p,) if origin else r


def other_malformed(rng):
    """(kind, function name, args, kwargs) for the remaining functions."""
    nan, inf = np.nan, np.inf
    c = [
        ("frac_negative", "integerise", (np.array([0.5, -0.1, 0.6]), 10)),
        ("frac_nan", "integerise", (np.array([0.5, nan]), 10)),
        ("frac_inf", "integerise", (np.array([0.5, inf]), 10)),
        ("frac_zero", "integerise", (np.zeros(3), 5)),
        ("frac_cancel", "integerise", (np.array([1.0, -1.0]), 5)),
        ("frac_empty", "integerise", (np.zeros(0), 5)),
        ("frac_2d", "integerise", (np.ones((2, 2)), 4)),
        ("frac_0d", "integerise", (np.array(1.0), 4)),
        ("frac_pop_negative", "integerise", (np.ones(3), -int(rng.integers(1, 1 << 31)))),
        ("frac_pop_large", "integerise", (np.ones(3), int(rng.choice([1 << 31, 1 << 32, (1 << 32) + 3, 1 << 63, 1 << 64])))),
        ("frac_pop_float", "integerise", (np.ones(3), 2.5)),
        ("frac_pop_type", "integerise", (np.ones(3), "3")),
        ("pop_total", "integerise", (np.array([[1.0, 2.0], [0.3, 0.3]]),)),
        ("pop_slices", "integerise", (np.array([[0.3, 0.3], [0.7, 0.7]]),)),
        ("pop_slices3", "integerise", (np.full((2, 2, 3), 1 / 3.0),)),
        ("pop_1d_total", "integerise", (np.array([0.3, 0.3]),)),
        ("pop_1d_negative", "integerise", (np.array([2.0, -1.0, 1.0]),)),
        ("pop_1d_large", "integerise", (np.array([float(1 << 31), 1.0]),)),
        ("pop_negative", "integerise", (np.array([[2.0, -1.0], [-1.0, 2.0]]),)),
        ("pop_all_negative", "integerise", (-np.ones((2, 2)),)),
        ("pop_nan", "integerise", (np.array([[nan, 1.0], [1.0, 1.0]]),)),
        ("pop_inf", "integerise", (np.array([[inf, 1.0], [1.0, 1.0]]),)),
        ("pop_1d_nan", "integerise", (np.array([nan, 1.0]),)),
        ("pop_huge", "integerise", (np.full((2, 2), 1e300),)),
        ("pop_too_large", "integerise", (np.full((2, 2), 5e18),)),
        ("pop_0d", "integerise", (np.array(3.0),)),
        ("pop_empty", "integerise", (np.zeros((0,)),)),
        ("pop_empty2", "integerise", (np.zeros((2, 0)),)),
        ("pop_type", "integerise", ("abc",)),
        ("pop_none", "integerise", (None,)),
        ("flatten_negative", "flatten", (np.array([[1, -1], [2, 3]]),)),
        ("flatten_0d", "flatten", (np.array(3),)),
        ("flatten_empty", "flatten", (np.zeros((0,), np.int64),)),
        ("flatten_empty2", "flatten", (np.zeros((3, 0), np.int64),)),
        ("flatten_huge", "flatten", (np.array([(1 << 63) - 1, 1]),)),
        ("flatten_huge2", "flatten", (np.array([1 << 62] * 4),)),
        ("flatten_huge3", "flatten", (np.array([[1 << 45, 1], [0, 2]]),)),
        ("flatten_nan", "flatten", (np.array([1.0, nan]),)),
        ("flatten_type", "flatten", ("abc",)),
        ("sobol_zero", "SobolSequence", (0,)),
        ("sobol_dim", "SobolSequence", (int(rng.choice([1112, 2000, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 64) - 1, 1 << 64, -1])),)),
        ("sobol_dim_float", "SobolSequence", (2.5,)),
        ("sobol_dim_type", "SobolSequence", ("2",)),
        ("sobol_skips", "SobolSequence", (2, int(rng.choice([-1, 1 << 32, 1 << 40, 1 << 64])) if rng.random() < 0.7 else 1.5)),
        ("no_args", ["qis", "qisi", "ipf", "flatten", "integerise", "SobolSequence"][rng.integers(6)], ()),
        ("many_args", ["qis", "qisi", "ipf", "flatten", "integerise", "SobolSequence"][rng.integers(6)], (1, 2, 3, 4, 5, 6)),
    ]
    return c[rng.integers(len(c))]


# ---- arbitrary objects, for memory safety only: any outcome but damage is acceptable

class _Seq:
    """A sequence that lies about its length, or fails in the middle."""
    def __init__(self, items, n, fail):
        self.items, self.n, self.fail = items, n, fail

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if self.fail is not None and i >= self.fail:
            raise ValueError("no")
        if not isinstance(i, int) or i >= len(self.items):
            raise IndexError(i)
        return self.items[i]


class _Arr:
    """Converts to an array on demand, possibly with side effects."""
    def __init__(self, a, action=None):
        self.a, self.action = a, action

    def __array__(self, dtype=None, copy=None):
        if self.action:
            self.action()
        return np.array(self.a, dtype=dtype)


class _Shrinking(list):
    """A list that loses its elements while it is read."""
    def __getitem__(self, i):
        x = list.__getitem__(self, i)
        if len(self) > 1:
            list.pop(self)
        return x


def weird_array(rng, shp=None):
    shp = tuple(shp) if shp is not None else tuple(int(x) for x in rng.integers(0, 4, int(rng.integers(0, 5))))
    n = int(np.prod(shp))
    c = int(rng.integers(16))
    base = rng.integers(-2, 9, shp)
    if c == 0:
        return base.astype([np.int8, np.uint8, np.int16, np.float16, np.float32, np.longdouble, np.complex128, bool, object, ">i8", ">f4", "S3", "U2", "m8[s]", "M8[D]"][rng.integers(15)])
    if c == 1:
        return np.broadcast_to(np.array(rng.integers(0, 5)), shp)
    if c == 2:
        return base[tuple(slice(None, None, -1) for _ in shp)]
    if c == 3:
        return np.asfortranarray(base)
    if c == 4:
        a = np.zeros(n * 8 + 9, np.uint8)[int(rng.integers(1, 8)):]
        return a[:n * 8].view(np.int64).reshape(shp)
    if c == 5:
        x = base.astype(float); x.flags.writeable = False
        return x
    if c == 6:
        return np.zeros((0,) * max(1, len(shp)))
    if c == 7:
        return np.zeros((1,) * int(rng.integers(20, 33)))
    if c == 8:
        x = base.astype(float)
        x.reshape(-1)[:1] = rng.choice([np.nan, np.inf, -np.inf, 1e308, -1e308, 5e-324, 9.3e18, 1.9e19])
        return x
    if c == 9:
        return np.ma.masked_array(base, mask=base < 2)
    if c == 10:
        return np.zeros(shp, [("a", int), ("b", float)])
    if c == 11:
        return np.array([[1, 2], [3]], dtype=object) if rng.random() < 0.5 else np.array([None] * max(n, 1), dtype=object)
    if c == 12:
        return np.full(shp, rng.choice(np.array([(1 << 63) - 1, -(1 << 63), 1 << 62, 1 << 31, (1 << 32) + 1], np.int64)))
    if c == 13:
        return np.matrix(np.ones((2, 2)))
    if c == 14:
        return memoryview(np.ascontiguousarray(base.astype(float)))
    return base.astype(float) * float(rng.choice([1e-300, 1e-9, 0.1, 1.0, 1e15, 1e18]))


def garbage(rng, depth=0):
    c = int(rng.integers(24 if depth < 3 else 16))
    if c < 6:
        return [0, 1, -1, 2, 3, 7, 1 << 31, 1 << 32, 1 << 63, 1 << 64, -(1 << 63), 2.5, 0.0, float("nan"), float("inf"), True][rng.integers(16)]
    if c < 10:
        return weird_array(rng)
    if c < 13:
        return [None, "", "abc", b"", b"abc\0", 1j, ..., object(), len, int, Exception("x"), {}, {"a": 1}, set(), frozenset([1]), range(3), range(0), slice(0, 2), bytearray(8), memoryview(b"12345678")][rng.integers(20)]
    if c < 16:
        return [int(x) for x in rng.integers(-1, 5, int(rng.integers(0, 5)))]
    n = int(rng.integers(0, 5))
    items = [garbage(rng, depth + 1) for _ in range(n)]
    if c < 19:
        return items
    if c == 19:
        return tuple(items)
    if c == 20:
        return _Seq(items, int(rng.choice([n, n + 1, max(0, n - 1), 3])), None if rng.random() < 0.6 else int(rng.integers(0, 3)))
    if c == 21:
        return _Shrinking(items)
    if c == 22:
        def fail():
            raise KeyError("no")
        return _Arr(rng.random(int(rng.integers(1, 4))), fail if rng.random() < 0.4 else None)
    return iter(items)


def mutated_call(rng, p):
    """Arguments of a well-formed call with one part replaced by something arbitrary."""
    a = args(p)
    n = len(a)
    for _ in range(int(rng.choice([1, 1, 1, 2]))):
        i = int(rng.integers(n))
        x = a[i]
        if type(x) is list and x and rng.random() < 0.75:
            j = int(rng.integers(len(x)))
            c = rng.random()
            if c < 0.35 and isinstance(x[j], np.ndarray):
                x[j] = weird_array(rng, x[j].shape)
            elif c < 0.5 and isinstance(x[j], list) and x[j]:
                x[j] = list(x[j]); x[j][int(rng.integers(len(x[j])))] = [-1, 0, 1, 5, 1 << 31, 1 << 62, (1 << 63) - 1, -(1 << 63), 1.5, None][rng.integers(10)]
            elif c < 0.6:
                x.append(x[j])
            elif c < 0.7:
                del x[j]
            elif c < 0.8 and isinstance(x[j], np.ndarray):
                x[j] = _Arr(x[j], x.clear if rng.random() < 0.5 else None)
            else:
                x[j] = garbage(rng)
        elif isinstance(x, list) and rng.random() < 0.4:
            a[i] = [_Shrinking(x), _Seq(x, len(x) + int(rng.integers(-1, 3)) if x else 1, None), tuple(x), _Seq(x, len(x), 1)][rng.integers(4)]
        elif isinstance(x, np.ndarray) and rng.random() < 0.6:
            a[i] = weird_array(rng, x.shape)
        else:
            a[i] = garbage(rng)
    return a


def needs_memory(fn, a, limit=1 << 27):
    """Would the call legitimately ask for a lot of memory (or time)? Best effort, from the arguments."""
    try:
        if fn in ("qis", "qisi") and isinstance(a[-1], (int, np.integer)) and 1 << 20 < a[-1] < 1 << 32:
            return True
        if fn in ("qis", "qisi", "ipf"):
            ms = a[-2:] if isinstance(a[-1], (list, tuple, _Seq)) else a[-3:-1]
            I, M = (a[0], a[1]) if fn == "qis" else (a[1], a[2])
            size = {}
            pop = 0
            for s, m in zip(list(I) if not isinstance(I, _Seq) else I.items, list(M) if not isinstance(M, _Seq) else M.items):
                m = m.a if isinstance(m, _Arr) else m
                with np.errstate(all="ignore"):
                    v = np.asarray(m, float)
                if fn != "ipf":
                    pop = max(pop, float(np.nansum(np.abs(v))))
                for d, n in zip(np.asarray(s).reshape(-1).tolist(), v.shape):
                    size[d] = max(size.get(d, 0), n)
            cells = 1.0
            for n in size.values():
                cells *= n
            return 2e6 < cells < 2.0 ** 63 / 8 or 1e5 < pop < 9.3e18 or cells * max(pop, 1) > 3e7 and cells < 2.0 ** 60
        if fn == "flatten":
            v = np.asarray(a[0], float)
            return float(np.nansum(np.abs(v))) * max(1, v.ndim) > 1e6
        if fn == "integerise":
            v = np.asarray(a[0], float)
            return len(a) == 1 and 1e5 < float(np.nansum(np.abs(v))) or len(a) > 1 and 1e5 < float(a[1])
        if fn == "SobolSequence" and len(a) > 1:
            return float(a[1]) > 1e6
    except Exception:
        pass
    return False
