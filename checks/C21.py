"""C21: independent computations run concurrently, without data races and with unchanged results."""
import os, sys, threading
import numpy as np
from lib import build, cpp, gen
from checks import C15

ID, BUILD = "C21", "rel"
RULE = ("C++: in a ThreadSanitizer build, 2-16 threads start together and each runs jobs of every kind (sequences, qis, qisi, ipf, integerisation, rounding, arrays, statistics, and failing ones) on objects of its own, often the same job in several threads, "
        "with pseudo-random yields, plus sequences stepped by one thread and then another; any reported race, and any result other than the job's own serial result, is a violation. Python: 2-12 threads call the functions on the same argument objects with a very "
        "short switch interval; distinct by the jobs and the observed order of their completion")
QUICK, THOROUGH = 300, 6000
CPP = {"quick": 480, "thorough": 40000}
REQUIRE = {"python_calls": 8000}
REQUIRE_CPP = {"shape:wide": 150, "shape:large": 40, "jobs": 10000, "switches": 4000, "many_threads": 120, "parallel_first": 240, "qis": 1500, "qisi": 1500, "ipf": 700, "integerise": 500, "sobol": 1500, "stat": 700, "array": 700, "errors": 1200}
ASSUMPTIONS = ["ThreadSanitizer detects the races of the executions observed", "lgamma's write of the C library's own signgam, which nothing reads, is not counted as a race of this library"]
FLAGS = ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-fno-omit-frame-pointer"]


def case(ctx):
    rng, hl = ctx.rng, ctx.hl
    n = int(rng.integers(2, 13))
    items = [C15.some(rng, ctx.seed) for _ in range(int(rng.integers(1, 8)))]
    ctx.inputs(threads=n, functions=[f for f, a in items])
    alone = [C15.digest(lambda: C15.call(hl, it)) for it in items]
    plans = [[int(k) for k in rng.integers(0, len(items), 4)] for _ in range(n)]
    order, bad = [], []
    start = threading.Barrier(n)
    old = sys.getswitchinterval()

    def work(t):
        g = hl.SobolSequence(3, t)
        start.wait()
        for k in plans[t]:
            d = C15.digest(lambda: C15.call(hl, items[k]))
            order.append((t, k))
            next(g)
            if d != alone[k]:
                bad.append((t, k, d))
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.check(not bad, "python-result", lambda: "%s in thread %d of %d: %s instead of %s" % (items[bad[0][1]][0], bad[0][0], n, bad[0][2], alone[bad[0][1]]))
    ctx.check(len(order) == 4 * n, "python-incomplete", "a thread ended early")
    for k, it in enumerate(items):
        ctx.check(C15.digest(lambda: C15.call(hl, it)) == alone[k], "python-after", "%s differs after the threads" % it[0])
    ctx.count("python_calls", 4 * n + 2 * len(items))
    ctx.observed(alone, order) if len({t for t, k in order[:len(order) // 2]}) > 1 else ctx.trivial()


def post(run, env, extra, replay=None):
    exe = cpp.program(run, "c21", "c21.cpp", FLAGS, ["-fsanitize=thread", "-pthread"])
    if exe is None:
        return
    s = os.path.join(build.scratch(), "tsan.supp")
    with open(s, "w") as f:
        f.write("race:lgamma\n")
    e = cpp.env()
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=5:second_deadlock_stack=1:suppressions=" + s
    cpp.drive(run, exe, CPP[run.tier], shards=10, cpu_limit=1200, e=e, replay=replay)
