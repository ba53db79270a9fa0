"""C18: no Python call has a memory error or undefined behaviour (sanitizer build with index monitor; valgrind)."""
import ctypes, gc, glob, os, re, subprocess, sys
import numpy as np
from lib import build, gen, hostile
from lib import hostile as H

ID, BUILD = "C18", "san"
RULE = ("sessions of about a dozen calls (well-formed problems of all arrangements, long and many-dimensional ones, every listed corruption, arguments replaced by arbitrary objects, hostile sequences and array-likes, representation forms, "
        "interleaved generators, threads and garbage collection) in a build with AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and an index monitor that checks every component of every array access; "
        "plus sessions of the optimised build under valgrind memcheck, with every result inspected, for uninitialised values; non-trivial if at least one call returned and one raised; distinct by call outcomes")
QUICK, THOROUGH = 1300, 22000
SHAPES = 5                  # one case in so many
REQUIRE = {"calls": 10000, "returned": 4000, "raised": 3000, "accesses": 1000000, "valgrind_calls": 150, "kind:garbage": 500, "kind:mutated": 1000, "kind:valid": 1500, "shape_calls": 12000, "large": 10, "kind:long_malformed": 15}
ASSUMPTIONS = ["gcc's AddressSanitizer, UndefinedBehaviorSanitizer and valgrind detect the errors they are documented to detect", "inputs that legitimately need more than about a gigabyte are left to C17 and C22"]
CASE_CPU_S = 100


def inspect(x):
    """Reads everything that was returned, branching on it."""
    n = 0
    if isinstance(x, np.ndarray):
        n += int((x.reshape(-1) > 0.5).sum()) if x.dtype.kind in "fiu" else 0
        n += hash(x.tobytes()) & 1
    elif isinstance(x, dict):
        n += sum(inspect(v) for v in x.values())
    elif isinstance(x, (list, tuple)):
        n += sum(inspect(v) for v in x)
    elif isinstance(x, (int, float)):
        n += 1 if x > 0.5 else 0
        n += len(repr(x))
    return n


def one(rng, hl, gens, count, size=1.0):
    """One call: (kind, callable)."""
    c = rng.random()
    if c < 0.22:
        d = rng.random()
        if d < 0.03:
            k, shp, sets, ms, a = gen.problem(rng, shp=gen.many_shape(rng), maxpop=20)
            return "valid", lambda: hl.qis([list(s) for s in sets], ms)
        if d < 0.05 and size == 1.0:
            k, shp, sets, ms, a = gen.problem(rng, "partition", shp=gen.long_shape(rng, 40000), maxpop=6)
            return "valid", lambda: hl.qis([list(s) for s in sets], ms)
        p = H.valid(rng, maxpop=int(60 * size), maxcells=int(120 * size), large=0.01 * (size == 1.0))
        if "large" in p:
            count("large")
        return "valid", lambda: H.call(hl, p)
    if c < 0.36:
        d = rng.random()
        if d < 0.02 * size:
            kind, p, _ = H.long_malformed(rng)
            return "long_malformed", lambda: H.call(hl, p)
        kind, p = H.malformed(rng, maxpop=30, maxcells=60, large=0.02 * (size == 1.0))
        if kind == "too_large" and (p["seed"] is not None and p["seed"].size > 1e6 or H.needs_memory(p["fn"], H.args(p))):
            kind, p = "valid", H.valid(rng, maxpop=30, maxcells=60)
        return "malformed", lambda: H.call(hl, p)
    if c < 0.44:
        kind, fn, a = H.other_malformed(rng)
        if kind == "flatten_huge3":
            a = (np.array([[5, 1], [0, 2]]),)
        return "other_malformed", lambda: getattr(hl, fn)(*a)
    if c < 0.64:
        while True:
            p = H.valid(rng, maxpop=30, maxcells=60)
            a = H.mutated_call(rng, p)
            if not H.needs_memory(p["fn"], a):
                break
        return "mutated", lambda: getattr(hl, p["fn"])(*a)
    if c < 0.74:
        fn = ["qis", "qisi", "ipf", "flatten", "integerise", "SobolSequence"][rng.integers(6)]
        while True:
            a = [H.garbage(rng) for _ in range(int(rng.choice([1, 1, 2, 2, 3, 3, 4])))]
            if not H.needs_memory(fn, a):
                break
        return "garbage", lambda: getattr(hl, fn)(*a)
    if c < 0.80:
        x = gen.population(rng, gen.shape(rng, maxcells=100), 60)
        y = H.weird_array(rng, x.shape) if rng.random() < 0.4 else x
        if H.needs_memory("flatten", [y]):
            y = x
        return "flatten", lambda: hl.flatten(y)
    if c < 0.86:
        k = rng.integers(3)
        if k == 0:
            x, pop = rng.random(int(rng.integers(1, 40))), int(rng.integers(0, 1000))
            return "integerise", lambda: hl.integerise(x, pop)
        b = gen.population(rng, gen.shape(rng, maxcells=60), 60)
        x = (b + gen.shuffle_columns(rng, b)) / 2.0 if k == 1 else b.astype(float)
        return "integerise", lambda: hl.integerise(x)
    # generators
    k = rng.integers(6)
    if k <= 1 or not gens:
        dim = int(rng.choice([1, 2, 3, 7, 20, 40, 300, 1000, 1110, 1111], p=[.2, .2, .2, .1, .1, .05, .04, .04, .03, .04]))
        sk = int(rng.choice([0, 1, 2, 3, 5, 8, 64, 1000]))

        def f():
            g = hl.SobolSequence(dim, sk) if sk else hl.SobolSequence(dim)
            gens.append(g)
            return next(g)
        return "generator", f
    if k == 5:
        del gens[int(rng.integers(len(gens)))]
        return "generator", lambda: gc.collect() and None
    g = gens[int(rng.integers(len(gens)))]
    n = int(rng.integers(1, 40))
    return "generator", lambda: [next(g) for _ in range(n)][-1]


def exhaust(ctx):
    """A generator at the end of its sequence (reached through the monitoring hook)."""
    lib = ctx.lib
    start = ctypes.c_uint32.in_dll(lib, "humanleague_monitor_sobol_start")
    start.value = 4294967295 - int(ctx.rng.integers(0, 40))
    try:
        g = ctx.hl.SobolSequence(int(ctx.rng.integers(1, 30)))
        n = sum(1 for _ in g)
        for _ in range(3):
            try:
                next(g)
            except StopIteration:
                pass
        return n
    finally:
        start.value = 0


def setup(ctx):
    ctx.lib = ctypes.CDLL(ctx.hl.__file__)
    ctx.acc = ctypes.c_uint64.in_dll(ctx.lib, "humanleague_monitor_accesses")
    ctx.gens = []


STRUCTURE = ["index_too_long", "index_too_short", "repeated_dimension", "repeated_within", "gap", "negative_dimension", "one_based", "size_mismatch", "seed_shape", "empty_marginal", "empty_index", "extra_scalar", "total", "partial_sums"]


def shapes(ctx):
    """Many small calls with one, two or three corruptions of the sizes and indices, and seeds of any shape."""
    rng, hl = ctx.rng, ctx.hl
    out = []
    for j in range(70):
        p = H.valid(rng, maxpop=12, maxcells=30)
        kinds = []
        for _ in range(int(rng.choice([0, 1, 2, 3], p=[.25, .5, .15, .1]))):
            try:
                r = H.corrupt(rng, p, STRUCTURE[rng.integers(len(STRUCTURE))])
            except Exception:         # not applicable to what is already corrupt
                r = None
            if r:
                kinds.append(r[0]); p = r[1]
        if p["seed"] is not None and (not kinds or rng.random() < 0.2):
            shp = list(p["shape"])
            for _ in range(int(rng.integers(1, 3))):
                shp[int(rng.integers(len(shp)))] = int(rng.choice([0, 1, 2, 3, 7, 40, 1000]))
            if rng.random() < 0.1:
                shp = shp[:-1] if rng.random() < 0.5 else shp + [int(rng.integers(1, 5))]
            if np.prod(shp) <= 5000:
                p["seed"] = rng.random(shp) + 0.1; kinds.append("seed_any_shape")
        ctx.inputs(kinds=kinds, **p)
        a = H.args(p)
        if H.needs_memory(p["fn"], a, 1 << 22):
            continue
        try:
            with np.errstate(all="ignore"):
                out.append((kinds, inspect(getattr(hl, p["fn"])(*a))))
            ctx.count("returned")
        except Exception as e:
            out.append((kinds, type(e).__name__))
            ctx.count("raised")
        ctx.count("shape_calls"); ctx.count("calls")
    ctx.count("accesses", ctx.acc.value); ctx.acc.value = 0
    ctx.observed(out)


def case(ctx):
    if ctx.i % SHAPES == 0:
        return shapes(ctx)
    rng, hl = ctx.rng, ctx.hl
    ctx.gens = []
    out = []
    ctx.inputs(session=ctx.i)
    for j in range(12):
        kind, f = one(rng, hl, ctx.gens, ctx.count)
        ctx.count("calls"); ctx.count("kind:" + kind)
        try:
            with np.errstate(all="ignore"):
                r = f()
            out.append((kind, inspect(r)))
            ctx.count("returned")
        except Exception as e:
            out.append((kind, type(e).__name__))
            ctx.count("raised")
        except RecursionError:
            pass
        f = r = None
    if rng.random() < 0.1:
        exhaust(ctx); ctx.count("exhausted")
    ctx.count("accesses", ctx.acc.value); ctx.acc.value = 0
    ctx.observed(out)


def teardown(ctx):
    ctx.gens.clear()
    gc.collect()


def post(run, env, extra):
    """Optimised build under valgrind: uninitialised values."""
    path = build.extension("dbg")
    n, per = (8, 45) if run.tier == "quick" else (24, 150)
    e = {k: v for k, v in env.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
    e["PYTHONPATH"] = path + os.pathsep + build.VERIF
    e["PYTHONMALLOC"] = "malloc"
    todo, running, done = list(range(n)), [], 0
    while todo or running:
        while todo and len(running) < 8:
            k = todo.pop(0)
            base = os.path.join(build.scratch(), "vg%d" % k)
            p = subprocess.Popen(["valgrind", "--track-origins=yes", "--num-callers=14", "--log-file=%s.log" % base, "--error-limit=no", sys.executable, "-c",
                                  "import sys; from checks import C18; C18.valgrind_session(%d, %d, %d, %r)" % (run.seed, k, per, base + ".out")],
                                 env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(base + ".err", "wb"), cwd=build.scratch())
            running.append((k, base, p))
        k, base, p = running.pop(0)
        try:
            rc = p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            run.notes.append("valgrind session %d did not finish" % k)
            continue
        log = open(base + ".log", errors="replace").read() if os.path.exists(base + ".log") else ""
        got = open(base + ".out").read().split() if os.path.exists(base + ".out") else []
        run.count("valgrind_calls", len(got))
        for block in re.split(r"\n==\d+== \n", log):
            if "_humanleague" in block and re.search(r"(uninitialised|Invalid (read|write|free)|Mismatched free|overlap|jump)", block):
                m = re.search(r"(uninitialised|Invalid \w+|Mismatched free|overlap|jump)", block).group(1).replace(" ", "_")
                f = re.search(r"\((\w+\.(?:cpp|h)):\d+\)", block)
                run.violation("valgrind:%s:%s" % (m, f.group(1) if f else "?"), "valgrind session %d:\n%s" % (k, re.sub(r"==\d+== ?", "", block)[:3000]), {"case": None, "valgrind_session": k})
        if rc not in (0,) and len(got) < per and not run.violations:
            err = open(base + ".err", errors="replace").read()[-1500:]
            if rc < 0 or rc > 128:
                run.violation("valgrind:died", "the process died with %s under valgrind after %d calls\n%s\n%s" % (rc, len(got), log[-1500:], err), {"case": None, "valgrind_session": k})
            else:
                run.notes.append("valgrind session %d: exit %d %s" % (k, rc, err))
    run.count("valgrind_sessions", n)


def valgrind_session(seed, k, n, out):
    import _humanleague as hl
    rng = np.random.default_rng([seed, k, 1800])
    gens = []
    with open(out, "w") as f:
        for i in range(n):
            kind, g = one(rng, hl, gens, None, 0.5)
            try:
                with np.errstate(all="ignore"):
                    inspect(g())
                f.write("returned\n")
            except Exception:
                f.write("raised\n")
            f.flush()
