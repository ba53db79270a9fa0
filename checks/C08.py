"""C08: Sobol points equal an independently generated Joe-Kuo sequence (validated direction number table)."""
import ctypes
import numpy as np
from lib import gen, ref

ID, BUILD = "C08", "mon"
RULE = ("case = (dimension count, skip count, number of points), every dimension count 1..1111 is covered in each run; every coordinate of every point "
        "compared bit for bit with an independent generator; every direction number of every dimension is observed on its own by starting the point counter at 2^c-1 (hook), and their combinations from random starting points; non-trivial if at least one point was compared; distinct by the bits observed")
QUICK, THOROUGH = 900, 4000
REQUIRE = {"points": 10000, "dimension_counts": 1111, "late_points": 1, "direction_numbers": 32 * 1111, "hooked_points": 1000}
ASSUMPTIONS = ["the committed copy of the Joe-Kuo table is right: it is validated by tools/golden.py (primitive polynomials, odd initial numbers, Property A up to 1111 dimensions)", "the point counter hook (HUMANLEAGUE_MONITOR) only changes where the counter starts"]

DEEP = [(2, (1 << 32) - 1), (1, (1 << 31) + 1), (1, 1 << 24), (2, (1 << 25) + 1), (1, (1 << 26) + 12345), (3, (1 << 22) + 1), (5, 1 << 21), (17, (1 << 18) + 1), (1111, 4000), (40, 1 << 17), (1111, 1 << 17)]
DEEP_T = [(1, (1 << 31) - 1), (1, (1 << 31) + 1), (1, (1 << 32) - 1), (2, (1 << 30) + 7), (8, (1 << 27) + 1), (111, 1 << 24), (1111, 1 << 19), (4, (1 << 31) + 99)]


HOOKED = 700        # cases from here on use the hook


def compare(ctx, dim, skip, n):
    ctx.inputs(dim=dim, skips=skip, points=n)
    s = ctx.hl.SobolSequence(dim, skip) if skip else ctx.hl.SobolSequence(dim)
    start = gen.skipped(skip)
    st = ref.SobolStream(dim, start)
    got = np.empty((n, dim))
    for k in range(n):
        p = next(s)
        ctx.check(isinstance(p, np.ndarray) and p.shape == (dim,) and p.dtype == np.float64, "shape", "point is not a float array of length %d: %r" % (dim, p))
        got[k] = p
    exp = np.empty((n, dim), np.uint32)
    for k in range(n):
        exp[k] = st.next()
    e = exp / 4294967296.0
    if not np.array_equal(got, e):
        k, d = np.argwhere(got != e)[0]
        ctx.fail("points", "dim %d skips %d: point %d (index %d) coordinate %d is %r, expected %r" % (dim, skip, k, start + k + 1, d, got[k, d], e[k, d]))
    ctx.check((got > 0).all() and (got < 1).all(), "range", "coordinate outside (0,1)")
    if start == 0:
        ctx.check((got[0] == 0.5).all(), "first", "first point is %r" % got[0])
    ctx.count("points", n); ctx.count("coordinates", n * dim)
    if start >= 1 << 20:
        ctx.count("late_points", n)
    ctx.observed(dim, got)


def setup(ctx):
    try:
        ctx.start = ctypes.c_uint32.in_dll(ctypes.CDLL(ctx.hl.__file__), "humanleague_monitor_sobol_start")
    except ValueError:
        ctx.start = None


def hooked(ctx, dim, start, n):
    """Points of a generator that has made none, but whose counter starts late: the direction numbers used from there on, combined."""
    ctx.inputs(dim=dim, counter=start, points=n)
    V = ref.directions()[:, :dim]
    ctx.start.value = start
    try:
        s = ctx.hl.SobolSequence(dim)
        got = [next(s) for _ in range(n)]
    finally:
        ctx.start.value = 0
    x = np.zeros(dim, np.uint32)
    for k in range(n):
        c = (~(start + k) & (start + k + 1)).bit_length() - 1
        x = x ^ V[c]
        if not np.array_equal(got[k], x / 4294967296.0):
            d = int(np.argwhere(got[k] != x / 4294967296.0)[0][0])
            ctx.fail("direction", "dim %d: point %d from a counter of %d: coordinate %d is %r, expected %r (direction number %d)" % (dim, k, start, d, got[k][d], x[d] / 4294967296.0, c))
    ctx.count("hooked_points", n)
    ctx.observed("hook", dim, start, got[-1])


def case(ctx):
    rng = ctx.rng
    if HOOKED <= ctx.i < HOOKED + 200 or ctx.i >= HOOKED + 200 and rng.random() < 0.3:
        if ctx.start is None:
            return
        c = ctx.i - HOOKED
        if c < 32:
            hooked(ctx, 1111, 2**c - 1, 1)
            ctx.count("direction_numbers", 1111)
            return hooked(ctx, int(rng.integers(1, 1112)), 2**c - 1, 1 if c == 31 else 40)
        return hooked(ctx, int(rng.integers(1, 1112)), int(2**rng.uniform(0, 32)) % (2**32 - 500), int(rng.integers(1, 200)))
    if ctx.i < len(DEEP):
        dim, skip = DEEP[ctx.i]
        return compare(ctx, dim, skip, 64)
    if ctx.tier == "thorough" and ctx.i < len(DEEP) + len(DEEP_T):
        dim, skip = DEEP_T[ctx.i - len(DEEP)]
        return compare(ctx, dim, skip, 64)
    # every dimension count, twice over (first few points); then random ones
    k = ctx.i - len(DEEP) - (len(DEEP_T) if ctx.tier == "thorough" else 0)
    dims = range(2 * k + 1, min(2 * k + 3, 1112))
    for dim in dims:
        compare(ctx, dim, 0, int(rng.integers(4, 20)))
        ctx.count("dimension_counts")
    if not dims:
        if rng.random() < 0.5:      # long runs: direction numbers of higher order come into play
            dim = int(rng.integers(1, 64))
            compare(ctx, dim, 0 if rng.random() < 0.5 else int(rng.integers(1, 1 << 16)), int(rng.integers(500, 5000)))
        else:
            dim = int(rng.integers(1, 1112))
            compare(ctx, dim, int(rng.integers(1, 1 << 13)), int(rng.integers(10, 300)))


CASE_CPU_S = 200
