"""C03: qis equals an independent exact-integer model, individual by individual."""
import ctypes, os
import numpy as np
from lib import build, gen, ref
from lib.oracles import call_qis, arrangement

ID, BUILD = "C03", "rel"
RULE = ("random problems with consistent overlaps; the whole sample is compared cell by cell with an independent model that draws each individual in exact integer arithmetic from an independent "
        "Sobol generator; large problems (hundreds of thousands of individuals, thousands of categories, after up to 2^31 skipped points) use the same model in C, which is compared with the other one on small problems; non-trivial if at least 2 individuals were drawn over at least 2 occupied states; distinct by problem and sample")
QUICK, THOROUGH = 8000, 60000
REQUIRE = {"individuals": 50000, "overlapping": 300, "skipped": 300, "long_dimension": 6, "very_many_dimensions": 12, "large": 12, "models_agree": 100}
ASSUMPTIONS = ["populations below 2^21, for which the library's double arithmetic is exact"]


def prepare(run):
    d = os.path.join(build.scratch(), "qismodel")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "qismodel.so")
    build._run(["gcc", "-O3", "-shared", "-fPIC", os.path.join(build.VERIF, "cpp", "qismodel.c"), "-o", so], "compilation of the model")
    return {"qismodel": so}


def setup(ctx):
    ctx.model = ctypes.CDLL(ctx.extra["qismodel"]).qis_model


def large_model(ctx, shp, sets, ms, start):
    """ref.qis in C."""
    nd = len(shp)
    V = np.ascontiguousarray(ref.directions()[:, :nd].astype(np.uint32))
    x = (ref.sobol_point(nd, start) if start else np.zeros(nd, np.uint32)).astype(np.uint32)
    S = np.concatenate([np.asarray(s, np.int64) for s in sets])
    ns = np.array([len(s) for s in sets], np.int64)
    m = np.concatenate([np.asarray(a, np.int64).reshape(-1) for a in ms])
    out = np.zeros(shp, np.int64)
    p = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    shape = np.array(shp, np.int64)
    bad = ctx.model(nd, p(shape), p(V), p(x), ctypes.c_uint64(start), len(sets), p(S), p(ns), p(m), ctypes.c_int64(int(np.sum(ms[0]))), p(out))
    return None if bad else out


LARGE = [(1 << 24) + 5, (1 << 25) + 1, (1 << 26) + 7, 0, (1 << 31) + 1, (1 << 25) + 3, (1 << 24) + 1, (1 << 27) + 1]


def large(ctx):
    """Many individuals among many categories, late in the sequence: boundaries come as close to coordinates as they can."""
    rng = ctx.rng
    sk = LARGE[ctx.i % len(LARGE)]
    pop = int(10 ** rng.uniform(4.7, 5.5))
    if ctx.i % 3 == 2:
        shp = (int(rng.integers(20, 60)), int(rng.integers(20, 60)), int(rng.integers(20, 60)))
        sets = [[1, 0], [2, 1]] if rng.random() < 0.5 else [[0, 2], [1, 0]]
        pop //= 4
        a = rng.multinomial(pop, rng.dirichlet(np.full(int(np.prod(shp)), 0.5))).reshape(shp)
        ms = [np.ascontiguousarray(np.transpose(a.sum(axis=[d for d in range(3) if d not in s][0]), np.argsort(np.argsort(s)))) for s in sets]
    else:
        n = 2 if sk > 1 << 30 else int(rng.integers(2, 4))
        shp = (int(rng.integers(500, 3000)),) + (int(rng.integers(2, 6)),) * (n - 1)
        sets = [[d] for d in rng.permutation(n).tolist()]
        if n == 2 and rng.random() < 0.5:
            shp = shp[::-1]
        ms = [rng.multinomial(pop, rng.dirichlet(np.full(shp[s[0]], 1.0))) for s in sets]
    ctx.inputs(sets=sets, marginals=ms, skips=sk)
    exp = large_model(ctx, shp, sets, ms, gen.skipped(sk))
    res, st = call_qis(ctx, sets, ms, sk)
    ctx.check(exp is not None and res.shape == exp.shape and np.array_equal(res, exp), "sample", lambda: "sample of %d differs from the model in %d of %d cells (sets %r, skips %d)" % (pop, (res != exp).sum() if exp is not None and res.shape == exp.shape else -1, res.size, sets, sk))
    ctx.count("large"); ctx.count("large_individuals", pop)
    ctx.observed("large", sets, *ms, res)


def case(ctx):
    rng = ctx.rng
    if ctx.i < (16 if ctx.tier == "quick" else 400):
        return large(ctx)
    kind = ["partition", "decomposable", "any"][rng.choice(3, p=[.35, .45, .2])]
    c = rng.random()
    if c < 0.01:
        kind, shp, sets, ms, a = gen.problem(rng, kind, maxcells=60, maxpop=int(rng.choice([5000, 20000, 70000 if ctx.tier == "thorough" else 30000])))
    elif c < 0.06:
        kind, shp, sets, ms, a = gen.problem(rng, kind, nd=int(rng.integers(7, 11)), maxdim=11, maxsize=3, maxcells=3000, maxpop=60)
    elif c < 0.10:
        kind, shp, sets, ms, a = gen.problem(rng, kind, nd=int(rng.integers(2, 4)), maxsize=120, maxcells=20000, maxpop=200)
    elif c < 0.107:
        kind, shp, sets, ms, a = gen.problem(rng, kind, shp=gen.long_shape(rng), maxpop=40)
        ctx.count("long_dimension")
    elif c < 0.12:
        kind, shp, sets, ms, a = gen.problem(rng, kind, shp=gen.many_shape(rng), maxpop=60)
        ctx.count("very_many_dimensions")
    elif c < 0.124:
        kind, shp, sets, ms, a = gen.problem(rng, ["partition", "decomposable"][rng.integers(2)], shp=gen.huge_shape(rng), maxpop=20)
        ctx.count("very_many_cells")
    else:
        kind, shp, sets, ms, a = gen.problem(rng, kind, maxpop=300)
    sk = gen.skips(rng)
    ctx.inputs(sets=sets, marginals=ms, skips=sk)
    exp = ref.qis(shp, sets, ms, gen.skipped(sk))
    if len(shp) < 60 and rng.random() < 0.2:
        alt = large_model(ctx, shp, sets, ms, gen.skipped(sk))
        if (alt is None) != (exp is None) or alt is not None and not np.array_equal(alt, exp):
            raise AssertionError("the two models of sampling disagree")
        ctx.count("models_agree")
    try:
        res, st = call_qis(ctx, sets, ms, sk)
    except RuntimeError as e:
        ctx.check(exp is None, "refused", "the model can draw this sample but the library raised %s" % e)
        ctx.count("dead_ends"); ctx.trivial()
        return
    if exp is None:
        ctx.count("model_dead_ends"); ctx.trivial()
        return
    ctx.check(res.shape == exp.shape and np.array_equal(res, exp), "sample", lambda: "sample differs from the model in %d of %d cells (sets %r, skips %d)" % ((res != exp).sum() if res.shape == exp.shape else -1, exp.size, sets, sk))
    for f in arrangement(shp, sets):
        ctx.count(f)
    ctx.count("individuals", res.sum())
    if sk:
        ctx.count("skipped")
    ctx.observed(sets, *ms, res) if (res > 0).sum() > 1 else ctx.trivial()
