"""C20: malformed R calls raise R errors and never damage the session."""
import numpy as np
from lib import gen, hostile, rlang

ID, BUILD = "C20", "rel"
RULE = ("R sessions in a build with AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and an index monitor: well-formed problems, every corruption that R can express, R-specific ones (NA, missing dim attributes, factors, strings, "
        "environments, wrong counts), and arbitrary R values in every argument; malformed calls have to raise an R error, arbitrary ones have to return or raise one; then reference calls with unchanged results; non-trivial if not well-formed; distinct by call")
QUICK, THOROUGH = 1500, 20000
REQUIRE = {"calls": 15000, "malformed": 6000, "arbitrary": 5000, "wellformed": 1500, "reference": 1000, "r_calls": 20000, "returned": 2500, "raised": 8000}
ASSUMPTIONS = ["R itself is not instrumented, only the library"]
CASE_CPU_S = 120
prepare = lambda run: rlang.prepare("san")

KINDS = [k for k in hostile.KINDS if k not in ("large_unsigned", "types", "index_types", "overflow", "skips")] + ["R_overflow", "R_na_index", "R_na_marginal", "R_skips", "R_types", "R_seed_dim", "R_zero_based", "R_too_many", "R_index_huge"]


def clip(v):
    """Index values as R can store them."""
    v = np.asarray(v)
    return rlang.int_(v) if v.size == 0 or (np.abs(v.astype(float)) < 2 ** 31).all() else rlang.num(v.astype(float))


def encode(rng, q):
    il = rlang.lst([clip(np.array([int(x) + 1 for x in s], dtype=np.int64 if all(abs(int(x)) < 1 << 62 for x in s) else float)) if len(s) else rlang.int_([]) for s in q["indices"]])
    ml = rlang.lst([(rlang.int_ if m.dtype.kind == "i" and m.size and np.abs(m).max() < 2 ** 31 and rng.random() < 0.5 else rlang.num)(m, dim="force" if m.ndim > 1 or rng.random() < 0.5 else True) for m in map(np.asarray, q["marginals"])])
    a = [il, ml]
    if q["fn"] != "qis":
        a.insert(0, rlang.num(np.asarray(q["seed"]), dim="force"))
    if q["skips"] is not None:
        a.append(rlang.int_(q["skips"]))
    return a


def malformed(rng):
    """(kind, function, encoded arguments)."""
    while True:
        p = hostile.valid(rng, maxpop=40, maxcells=60)
        kind = KINDS[rng.integers(len(KINDS))]
        if not kind.startswith("R_"):
            r = hostile.corrupt(rng, p, kind)
            if r is None:
                continue
            q = r[1]
            if kind == "too_large" and q["seed"] is not None:
                q["seed"] = p["seed"]
            if kind == "too_large":       # more than 2^63 states, with short marginals
                size, dims = [(3, 45), (2, 64), (2048, 6), (256, 8), (1000, 7)][rng.integers(5)]
                q["marginals"] = [(np.arange(size) == 0).astype(m.dtype) for _ in range(dims) for m in q["marginals"][:1]]
                q["indices"] = [[d] for d in range(dims)]
            if kind == "seed_shape" and np.ndim(q["seed"]) == 0:
                continue
            if kind in ("negative", "partial_sums") and any((m != np.round(m)).any() for m in map(np.asarray, q["marginals"])) and q["fn"] != "ipf":
                continue
            return kind, p["fn"], encode(rng, q)
        a = encode(rng, p)
        off = 0 if p["fn"] == "qis" else 1
        I, M = a[off]["v"], a[off + 1]["v"]
        k = int(rng.integers(len(I)))
        if kind == "R_overflow":
            if p["fn"] == "ipf":
                continue
            M[k] = rlang.num(np.full(np.shape(p["marginals"][k]), float(rng.choice([2147483648.0, 1e10, 1e19, 1e300]))), dim="force")
        elif kind == "R_na_index":
            I[k]["v"] = list(I[k]["v"]); I[k]["v"][0] = -2 ** 31 if I[k]["t"] == "int" else "NaN"
            if I[k]["t"] == "int":
                I[k] = {"t": "num", "v": ["NaN" if j == 0 else float(x).hex() for j, x in enumerate(I[k]["v"])]}
        elif kind == "R_na_marginal":
            m = np.asarray(p["marginals"][k], float).copy()
            m.reshape(-1)[int(rng.integers(m.size))] = np.nan
            M[k] = rlang.num(m, dim="force")
        elif kind == "R_skips":
            if p["fn"] == "ipf":
                continue
            a = a[:off + 2] + [[rlang.int_(-1), rlang.int_(-2147483647), rlang.num(-5.0), rlang.num(np.nan), rlang.num(1e10), rlang.chars(["x"]), rlang.NULL, rlang.int_([1, 2]), rlang.int_([])][rng.integers(9)]]
        elif kind == "R_types":
            bad = [rlang.NULL, rlang.chars(["a", "b"]), {"t": "env"}, {"t": "fun"}, rlang.lst([rlang.lst([])])][rng.integers(5)]
            c = int(rng.integers(4))
            if c == 0:
                a[off] = bad
            elif c == 1:
                a[off + 1] = bad
            elif c == 2:
                I[k] = bad
            else:
                M[k] = bad
        elif kind == "R_seed_dim":      # no dim attribute, or a wrong one
            if not off:
                continue
            s = np.asarray(p["seed"])
            a[0] = rlang.num(s.reshape(-1), dim="no") if rng.random() < 0.5 else rlang.num(s[np.newaxis], dim="force")
        elif kind == "R_zero_based":
            if all(len(s) == 0 for s in p["indices"]):
                continue
            for i in I:
                i["v"] = [int(x) - 1 for x in i["v"]]
        elif kind == "R_too_many":
            a = a + [rlang.int_(1), rlang.int_(1), rlang.int_(1)]
        elif kind == "R_index_huge":
            I[k] = rlang.num(np.array([float(rng.choice([1e10, 2147483648.0, -1e10, np.inf]))] + [float(x) for x in I[k]["v"][1:]]))
        return kind, p["fn"], a


def other(rng):
    n = int(rng.integers(1, 6))
    c = [
        ("integerise", [rlang.num([0.5, 0.5], dim="no")]), ("integerise", [rlang.num(np.array([[0.3, 0.3], [0.7, 0.7]]))]), ("integerise", [rlang.num(np.array([[2.0, -1.0], [-1.0, 2.0]]))]),
        ("integerise", [rlang.num(np.array([[np.nan, 1.0], [1.0, 1.0]]))]), ("integerise", [rlang.num(np.array([[np.inf, 1.0], [1.0, 1.0]]))]), ("integerise", [rlang.num(np.full((2, 2), 1e300))]),
        ("integerise", [rlang.num(np.zeros((2, 0)), dim="force")]), ("integerise", [rlang.chars(["a"])]), ("integerise", [rlang.NULL]), ("integerise", []),
        ("prob2IntFreq", [rlang.num([0.5, 0.6]), rlang.int_(10)]), ("prob2IntFreq", [rlang.num([0.5, 0.5]), rlang.int_(-1)]), ("prob2IntFreq", [rlang.num([0.5, np.nan]), rlang.int_(10)]),
        ("prob2IntFreq", [rlang.num([1.5, -0.5]), rlang.int_(10)]), ("prob2IntFreq", [rlang.num([]), rlang.int_(10)]), ("prob2IntFreq", [rlang.num([np.inf, 0.5]), rlang.int_(10)]),
        ("prob2IntFreq", [rlang.num([0.5, 0.5]), rlang.num(np.nan)]), ("prob2IntFreq", [rlang.num([0.5, 0.5]), rlang.num(1e10)]), ("prob2IntFreq", [rlang.num([0.5, 0.5]), rlang.chars(["x"])]), ("prob2IntFreq", [rlang.num([0.5, 0.5])]),
        ("sobolSequence", [rlang.int_(0), rlang.int_(3)]), ("sobolSequence", [rlang.int_(-1), rlang.int_(3)]), ("sobolSequence", [rlang.int_(int(rng.choice([1112, 5000, 100000]))), rlang.int_(3)]), ("sobolSequence", [rlang.int_(2), rlang.int_(-1)]),
        ("sobolSequence", [rlang.int_(2), rlang.int_(3), rlang.int_(-1)]), ("sobolSequence", [rlang.num(np.nan), rlang.int_(3)]), ("sobolSequence", [rlang.int_(2), rlang.num(np.nan)]), ("sobolSequence", [rlang.int_(2), rlang.int_(2), rlang.num(np.nan)]),
        ("sobolSequence", [rlang.int_(2), rlang.chars(["a"])]), ("sobolSequence", [rlang.int_([1, 2]), rlang.int_(2)]),
        ("flatten", [rlang.int_(np.ones((2, 2), int)), rlang.chars(["a"])]), ("flatten", [rlang.int_(np.ones((2, 2), int)), rlang.chars([])]), ("flatten", [rlang.int_(np.array([[1, -1], [2, 3]])), rlang.chars(["a", "b"])]),
        ("flatten", [rlang.num(np.array([[1.0, np.nan], [2, 3]])), rlang.chars(["a", "b"])]), ("flatten", [rlang.int_(np.zeros((3, 0), int), dim="force"), rlang.chars(["a", "b"])]), ("flatten", [rlang.int_([]), rlang.chars(["a"])]),
        ("flatten", [rlang.NULL, rlang.chars(["a"])]), ("flatten", [rlang.chars(["x"]), rlang.chars(["a"])]), ("flatten", [rlang.int_(np.ones((2, 2), int))]), ("flatten", [rlang.int_(np.ones((2, 2), int)), {"t": "env"}]),
        ("qis", []), ("qisi", []), ("ipf", []), ("ipf", [rlang.num(np.ones((2, 2)))]), ("qis", [rlang.lst([]), rlang.lst([])]), ("ipf", [rlang.num([]), rlang.lst([]), rlang.lst([])]), ("qisi", [rlang.num(np.ones((2, 2))), rlang.lst([]), rlang.lst([])]),
    ]
    f, a = c[rng.integers(len(c))]
    return "other_" + f, f, a


def plain(rng):
    """A well-formed call of one of the other functions, or with tiny values and signed zeros."""
    k, shp, sets, ms, a = gen.problem(rng, "partition", maxcells=60, maxpop=40, maxdim=4)
    c = int(rng.integers(5))
    if c == 0:
        return "sobolSequence", [rlang.int_(int(rng.integers(1, 30))), rlang.int_(int(rng.integers(1, 20))), rlang.int_(int(rng.integers(0, 100)))]
    if c == 1:
        p = rng.random(int(rng.integers(2, 9))) * (rng.random() < .9)
        p[0] = 1.0
        p[-1] = rng.choice([0.0, -0.0, 1e-17, 5e-324, 1.0])
        return "prob2IntFreq", [rlang.num(p / p.sum()), rlang.int_(int(rng.integers(0, 50)))]
    if c == 2:
        return "flatten", [rlang.int_(a, dim="force") if rng.random() < .7 else rlang.num(a, dim="force"), rlang.chars(["a%d" % d for d in range(a.ndim)])]
    tiny = rng.choice([-0.0, 1e-17, 1e-14, 5e-324, 1e-310], shp)
    if c == 3:
        return "integerise", [rlang.num(a + tiny * (rng.random(shp) < .4) if rng.random() < .6 else np.where(a == 0, -0.0, a), dim="force")]
    s = np.where(rng.random(shp) < .3, np.abs(tiny), 0) + rng.random(shp) + 0.1
    ms = [m.astype(float) if rng.random() < .5 else np.where(m == 0, -0.0, m) for m in ms]
    return "ipf", [rlang.num(s, dim="force"), rlang.lst([rlang.int_(np.array(x) + 1) for x in sets]), rlang.lst([rlang.num(m, dim="force") for m in ms])]


def garbage(rng, depth=0):
    """Arbitrary R value."""
    c = int(rng.integers(16 if depth < 3 else 12))
    if c == 0:
        return rlang.NULL
    if c == 1:
        return rlang.chars(["a", "", "xyz"][:int(rng.integers(0, 4))])
    if c == 2:
        return {"t": ["env", "fun", "cplx", "raw", "factor", "df"][rng.integers(6)]}
    if c == 3:
        return {"t": "lgl", "v": [True, False, True][:int(rng.integers(0, 4))]}
    if c in (4, 5):
        return rlang.int_([int(x) for x in rng.choice([0, 1, 2, 3, 4, -1, 7, 2147483647, -2147483647], int(rng.integers(0, 5)))])
    if c in (6, 7):
        return rlang.num(rng.choice([0.0, 1.0, 2.0, 0.5, -1.0, np.nan, np.inf, -np.inf, 1e300, 5e-324, 2147483648.0, 1e10], int(rng.integers(0, 5))))
    if c in (8, 9):
        shp = tuple(int(x) for x in rng.integers(0, 4, int(rng.integers(1, 6))))
        x = rng.integers(0, 3, shp)
        return rlang.int_(x, dim="force") if rng.random() < 0.5 else rlang.num(x * 0.5, dim="force")
    if c == 10:
        return rlang.num(np.zeros((1,) * int(rng.integers(10, 40)))) if rng.random() < 0.5 else rlang.int_(int(rng.integers(0, 4)))
    if c == 11:
        x = rlang.num(rng.random(int(rng.integers(1, 5)))); x["baddim"] = True
        return x
    return rlang.lst([garbage(rng, depth + 1) for _ in range(int(rng.integers(0, 5)))])


def reworked(rng, e):
    """The same vector with other values, another order, other dimensions or another type."""
    v = [float.fromhex(x) if isinstance(x, str) and x[0] not in "NI-" else float("nan") if isinstance(x, str) and x[0] == "N" else float(x) if not isinstance(x, str) else 0.0 for x in e["v"]]
    d = list(e["dim"]) if "dim" in e else None
    c = int(rng.integers(7))
    v = np.array(v)
    if c == 0:
        v = v[rng.permutation(v.size)]
    elif c == 1:
        v[int(rng.integers(v.size))] = rng.choice([0, 1, -1, 1e9, 2147483648.0, np.nan, np.inf, 0.5, 5e-324])
    elif c == 2:
        v = v * float(rng.choice([0, 0.5, 2, -1, 1e-300]))
    elif c == 3 and d:
        d = d[::-1]
    elif c == 4 and d:
        d = [1] + d if rng.random() < 0.5 else [v.size]
    elif c == 5 and d:
        d = None
    else:
        return {"t": "lgl", "v": [bool(x) for x in v.tolist()], **({"dim": d} if d else {})} if rng.random() < 0.5 else dict(e, t="chr", v=[str(x) for x in v.tolist()])
    r = rlang.num(v)
    if d:
        r["dim"] = d
    return r


def arbitrary(rng):
    fn = ["qis", "qisi", "ipf", "integerise", "prob2IntFreq", "flatten", "sobolSequence"][rng.choice(7, p=[.25, .25, .25, .08, .06, .06, .05])]
    if fn in hostile.FN and rng.random() < 0.75:
        p = hostile.valid(rng, fn, maxpop=30, maxcells=40)
        a = encode(rng, p)
        for _ in range(int(rng.choice([1, 1, 2]))):
            i = int(rng.integers(len(a)))
            if a[i]["t"] == "list" and a[i]["v"] and rng.random() < 0.75:
                l = a[i]["v"]
                c = rng.random()
                j = int(rng.integers(len(l)))
                if c < 0.45 and l[j].get("v") and l[j]["t"] in ("int", "num"):
                    l[j] = reworked(rng, l[j])
                elif c < 0.55:
                    l.append(l[int(rng.integers(len(l)))])
                elif c < 0.65:
                    del l[int(rng.integers(len(l)))]
                else:
                    l[int(rng.integers(len(l)))] = garbage(rng)
            elif a[i]["t"] in ("int", "num") and a[i]["v"] and rng.random() < 0.6:
                a[i] = reworked(rng, a[i])
            else:
                a[i] = garbage(rng)
    else:
        a = [garbage(rng) for _ in range(int(rng.choice([1, 2, 2, 3, 3, 4])))]
    return fn, a if not too_big(fn, a) else []


def flat(e):
    if e["t"] == "list":
        return max([flat(x) for x in e["v"]], default=0.0)
    if e["t"] in ("int", "num"):
        v = [abs(float.fromhex(x)) if isinstance(x, str) and x[0] not in "NI-" else 0.0 if isinstance(x, str) and x[0] in "NI" else abs(float.fromhex(x)) if isinstance(x, str) else abs(float(x)) for x in e["v"]]
        return float(sum(x for x in v if x < 2147483648.0 and x == x))
    return 0.0


def too_big(fn, a):
    """Would a call with these arguments legitimately take long?"""
    if fn in ("flatten", "sobolSequence", "prob2IntFreq"):
        return any(flat(x) > 10 ** 6 for x in a)
    if fn == "integerise":
        return any(10 ** 6 < flat(x) for x in a)
    m = a[1:2] if fn == "qis" else a[2:3]
    s = a[2:] if fn == "qis" else a[3:]
    return any(flat(x) > 10 ** 6 for x in s + ([] if fn == "ipf" else m))


def reference(ctx):
    R = ctx.R
    I = rlang.lst([rlang.int_([1, 2]), rlang.int_([2, 3])])
    M = rlang.lst([rlang.int_(np.array([[3, 4], [5, 1]])), rlang.int_(np.array([[2, 6], [4, 1]]))])
    s = rlang.num(np.arange(1.0, 9).reshape(2, 2, 2))
    out = [R.raw("qis", [I, M]), R.raw("qisi", [s, I, M, rlang.int_(5)]), R.raw("ipf", [s, I, M]), R.raw("sobolSequence", [rlang.int_(3), rlang.int_(4), rlang.int_(9)]),
           R.raw("prob2IntFreq", [rlang.num([0.25, 0.5, 0.25]), rlang.int_(11)]), R.raw("integerise", [rlang.num(np.array([[0.5, 0.5], [1.5, 0.5]]))]),
           R.raw("flatten", [rlang.int_(np.array([[1, 2], [0, 3]])), rlang.chars(["a", "b"])])]
    ctx.count("reference", len(out) and 1)
    return out


def setup(ctx):
    ctx.ref = None


def case(ctx):
    rng = ctx.rng
    if ctx.ref is None:
        ctx.ref = reference(ctx)
        ctx.check(all(r["ok"] for r in ctx.ref), "reference", lambda: "a well-formed reference call raises: %r" % ctx.ref)
    distinct = []
    for j in range(14):
        c = rng.random()
        if c < 0.04:
            (fn, a), kind = plain(rng), "wellformed"
        elif c < 0.14:
            p = hostile.valid(rng, ["qis", "qisi", "ipf"][rng.integers(3)], maxpop=40, maxcells=60)
            kind, fn, a = "wellformed", p["fn"], encode(rng, p)
        elif c < 0.5:
            kind, fn, a = malformed(rng)
        elif c < 0.6:
            kind, fn, a = other(rng)
        else:
            fn, a = arbitrary(rng)
            kind = "arbitrary"
        ctx.inputs(kind=kind, fn=fn, args=a)
        r = ctx.R.raw(fn, a, gc=rng.random() < 0.1)
        ctx.count("calls"); ctx.count("returned" if r["ok"] else "raised")
        if kind in ("wellformed", "arbitrary"):
            ctx.count(kind)
        else:
            ctx.count("malformed"); ctx.count("malformed:" + kind)
        if kind == "wellformed":
            if not r["ok"] and fn == "qis":
                pass          # a dead end of overlapping marginals
            else:
                ctx.check(r["ok"], "refused", lambda: "a well-formed %s is refused: %r" % (fn, r["msg"]))
        elif kind != "arbitrary":
            ctx.check(not r["ok"], "accepted:" + kind, lambda: "%s (%s) is accepted by R %s: %.500r" % (kind, "malformed", fn, r.get("v")))
        if not r["ok"]:
            ctx.check(isinstance(r["msg"], str) and r["msg"] != "", "message", "R error without a message")
        ctx.check("outside" not in r, "outside", lambda: "R %s accesses an element outside a vector: %s" % (fn, r["outside"]))
        ctx.check(not r["mutated"], "mutated", "R %s modified its arguments" % fn)
        distinct.append((kind, fn, a))
    got = reference(ctx)
    ctx.check(got == ctx.ref, "session", "reference calls give other results after malformed calls")
    ctx.observed(repr(distinct))
