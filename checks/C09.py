"""C09: sequence objects do not influence each other, end cleanly and refuse invalid dimensions."""
import copy, ctypes, gc, itertools
import numpy as np
from lib import cpp, gen, ref

ID, BUILD = "C09", "mon"
RULE = ("random histories of creating, advancing (next, for, zip, islice, list comprehensions), dropping and collecting up to 12 generators, interleaved with calls of every other function (valid and failing); every point "
        "is compared with the model of its own generator when delivered and again, unchanged, at the end; end of sequence reached by starting the point counter near 2^32; non-trivial history: at least 3 generators alive "
        "at once and 30 points; the same histories for up to 8 C++ objects, with single coordinates, skips and resets, in a sanitizer build; distinct by the sequence of operations")
QUICK, THOROUGH = 700, 12000
CPP = {"quick": 12000, "thorough": 400000}
REQUIRE = {"points": 20000, "histories": 300, "exhausted": 50, "refused_dimension": 50, "other_calls": 1000, "switches": 5000}
REQUIRE_CPP = {'near_end': 15000, 'ended': 30000, 'many_alive': 200000, 'refused': 15000, 'resets': 25000, 'resets_inside': 7000, 'skips': 70000, 'coordinates': 3000000}
ASSUMPTIONS = ["the point counter hook (HUMANLEAGUE_MONITOR) only changes where the counter starts"]


def setup(ctx):
    lib = ctypes.CDLL(ctx.hl.__file__)
    try:
        ctx.start = ctypes.c_uint32.in_dll(lib, "humanleague_monitor_sobol_start")
    except ValueError:
        ctx.start = None


class Gen:
    def __init__(self, ctx, dim, skip):
        self.dim, self.skip = dim, skip
        self.it = ctx.hl.SobolSequence(dim, skip) if skip or ctx.rng.random() < 0.5 else ctx.hl.SobolSequence(dim)
        self.model = ref.SobolStream(dim, gen.skipped(skip))


def other_call(ctx):
    hl, rng = ctx.hl, ctx.rng
    k = rng.integers(8)
    ms = [np.array([2, 1]), np.array([1, 1, 1])]
    try:
        if k == 0:
            hl.qis([[0], [1]], ms, int(rng.integers(0, 50)))
        elif k == 1:
            hl.qisi(np.ones((2, 3)), [[0], [1]], ms)
        elif k == 2:
            hl.ipf(np.ones((2, 3)), [[0], [1]], [m.astype(float) for m in ms])
        elif k == 3:
            hl.integerise(np.array([.2, .3, .5]), 17)
        elif k == 4:
            hl.flatten(np.array([[1, 0], [2, 3]]))
        elif k == 5:
            hl.qis([[0], [1]], [ms[0], ms[0]])
            hl.qis([[0], [1]], [ms[0]])
        elif k == 6:
            hl.SobolSequence(int(rng.choice([0, 1112])))
        else:
            hl.integerise(np.array([[1.5, .5], [.5, 1.5]]))
    except (RuntimeError, ValueError, IndexError, TypeError):
        pass
    ctx.count("other_calls")


def case(ctx):
    rng = ctx.rng
    c = rng.random()
    if c < 0.15:
        return dimension(ctx)
    if c < 0.3:
        return exhaustion(ctx)
    if c < 0.34:
        return failed_init(ctx)
    alive, kept, ops, n, most, last = [], [], [], 0, 0, None

    def deliver(g, p):
        nonlocal n, last
        e = g.model.next() / 4294967296.0
        ctx.check(p.shape == (g.dim,) and np.array_equal(p, e), "point", lambda: "generator of dimension %d (skips %d, %d others alive) delivered the wrong point %d: %r" % (g.dim, g.skip, len(alive) - 1, g.model.n, p[:8]))
        kept.append((p, e))
        n += 1
        if last is not None and last is not g:
            ctx.count("switches")
        last = g
    for _ in range(int(rng.integers(30, 200))):
        k = rng.random()
        if not alive or k < 0.12 and len(alive) < 12:
            same = alive and rng.random() < 0.4       # often the same dimension and skips as an existing one
            d = alive[-1].dim if same else int(rng.choice([1, 2, 3, 5, 12, 40, 300, 1111], p=[.1, .2, .2, .2, .1, .1, .05, .05]))
            s = alive[-1].skip if same and rng.random() < 0.5 else gen.skips(rng) % 2000
            alive.append(Gen(ctx, d, s))
            ops.append(("new", d, s))
        elif k < 0.17:
            i = int(rng.integers(len(alive)))
            del alive[i]
            if rng.random() < 0.5:
                gc.collect()
            ops.append(("drop", i))
        elif k < 0.27:
            other_call(ctx)
            ops.append("call")
        elif k < 0.33 and len(alive) > 1:
            i, j = rng.choice(len(alive), 2, replace=False)
            a, b = alive[i], alive[j]
            for p, q in itertools.islice(zip(a.it, b.it), int(rng.integers(1, 8))):
                deliver(a, p); deliver(b, q)
            # zip takes one more from neither: islice stops first
            ops.append(("zip", i, j))
        elif k < 0.38:
            g = alive[rng.integers(len(alive))]
            m = int(rng.integers(1, 12))
            for p in g.it:
                deliver(g, p)
                m -= 1
                if not m:
                    break
            ops.append(("for", g.dim))
        elif k < 0.42:
            g = alive[rng.integers(len(alive))]
            ctx.check(iter(g.it) is g.it, "iter", "iter(generator) is not the generator")
            for p in list(itertools.islice(g.it, int(rng.integers(1, 6)))):
                deliver(g, p)
            ops.append(("islice", g.dim))
        elif k < 0.45 and kept:
            # scribbling over a returned point must not reach the generator
            p, e = kept.pop()
            p[:] = rng.random()
            ops.append("write")
        elif k < 0.47:
            # generators that the constructor refuses
            try:
                ctx.hl.SobolSequence(int(rng.choice([0, 1112, 5000])))
            except Exception:
                pass
        else:
            i = int(rng.integers(len(alive)))
            deliver(alive[i], next(alive[i].it))
            ops.append(("next", i))
        most = max(most, len(alive))
    ctx.inputs(operations=ops)
    alive.clear()
    gc.collect()
    for p, e in kept:
        ctx.check(np.array_equal(p, e), "changed", "a point changed after it was delivered")
    ctx.count("points", n); ctx.count("histories")
    ctx.observed(ops) if most >= 3 and n >= 30 else ctx.trivial()


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def dimension(ctx):
    rng = ctx.rng
    bad = [0, 1112, 1113, -1, -1111, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 1111, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, -(1 << 32) + 1,
           int(rng.integers(1112, 1 << 32)), int(rng.integers(1, 1112)) + (int(rng.integers(1, 1 << 20)) << 32)]
    d = bad[rng.integers(len(bad))]
    ctx.inputs(dim=d)
    ctx.check(refused(lambda: ctx.hl.SobolSequence(d)), "dimension", "SobolSequence(%d) is accepted" % d)
    ctx.check(refused(lambda: ctx.hl.SobolSequence(d, 5)), "dimension", "SobolSequence(%d, 5) is accepted" % d)
    g = ctx.hl.SobolSequence(1111)
    ctx.check(len(next(g)) == 1111, "dimension", "SobolSequence(1111)")
    ctx.count("refused_dimension")
    ctx.observed("dim", d)


def failed_init(ctx):
    """Copies, and objects whose constructor was refused or not run, must not crash."""
    hl = ctx.hl

    class Sub(hl.SobolSequence):
        def __init__(self):
            pass

    class Bad(hl.SobolSequence):
        def __init__(self, d):
            try:
                super().__init__(d)
            except Exception:
                pass
    for f in (lambda: next(copy.copy(hl.SobolSequence(2))), lambda: next(copy.deepcopy(hl.SobolSequence(2))), lambda: next(Sub()), lambda: next(Bad(0)), lambda: next(Bad(5000))):
        try:
            f()
        except Exception:
            pass
    g = hl.SobolSequence(3)
    ctx.check((next(g) == 0.5).all(), "point", "wrong first point")
    ctx.count("uninitialised"); ctx.trivial()


def exhaustion(ctx):
    if ctx.start is None:
        ctx.count("hook_missing"); ctx.trivial()
        return
    rng = ctx.rng
    d = int(rng.choice([1, 2, 3, 17, 1111]))
    k = int(rng.integers(0, 40))
    skip = 0
    if rng.random() < 0.4:       # part of what is left is skipped
        skip = int(rng.integers(1, 64))
    other = ctx.hl.SobolSequence(2)
    model = ref.SobolStream(2)
    ctx.inputs(dim=d, left=k, skips=skip)
    ctx.start.value = (1 << 32) - 1 - k
    try:
        g = ctx.hl.SobolSequence(d, skip) if skip else ctx.hl.SobolSequence(d)
    finally:
        ctx.start.value = 0
    left = max(0, k - gen.skipped(skip))
    ctx.check(np.array_equal(next(other), model.next() / 4294967296.0), "point", "other generator disturbed")
    got = 0
    style = int(rng.integers(3))
    if style == 0:
        for p in g:
            got += 1
            if got > left + 5:
                break
    elif style == 1:
        got = len(list(itertools.islice(g, left + 5)))
    else:
        while got <= left + 5:
            try:
                next(g)
            except StopIteration:
                break
            got += 1
    ctx.check(got == left, "exhaustion", lambda: "%d points were delivered although %d were left" % (got, left))
    for _ in range(5):
        try:
            p = next(g)
        except StopIteration:
            continue
        except Exception as e:
            ctx.fail("exhaustion", "after the end of the sequence: %r instead of StopIteration" % e)
        ctx.fail("exhaustion", "a point was delivered after the end of the sequence")
    ctx.check(list(g) == [] and next(g, None) is None, "exhaustion", "an exhausted generator continues")
    ctx.check(np.array_equal(next(other), model.next() / 4294967296.0), "point", "other generator disturbed")
    h = ctx.hl.SobolSequence(d)
    ctx.check((next(h) == 0.5).all(), "point", "new generator disturbed")
    ctx.count("exhausted")
    ctx.observed("end", d, k, skip)


def post(run, env, extra, replay=None):
    cpp.sequences(run, "life", CPP[run.tier], replay)
