"""Drives C++ harnesses (see cpp/harness.h): shards in parallel, crashes and hangs attributed to the case."""
import os, subprocess, time
from . import build, runner

SAN = ["-O1", "-g1", "-DHUMANLEAGUE_MONITOR", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", *build.SAN]


def program(run, name, harness, flags, link=(), **kw):
    """Path of the program, or None if the harness does not fit the library's interface any more."""
    try:
        return build.program(name, harness, flags, link, **kw)
    except build.BuildError as e:
        if ("/cpp/" + harness) not in str(e).split("\n")[0]:
            raise
        run.notes.append("%s could not be compiled against this tree and was not run: %s" % (harness, str(e)[-1500:]))
        run.count("not_compiled")
        return None


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD",)}
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=1:detect_stack_use_after_return=1:max_allocation_size_mb=8192:allocator_may_return_null=0:malloc_context_size=16"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:history_size=4"
    e["LSAN_OPTIONS"] = "exitcode=23"
    return e


class Shard:
    n = 0

    def __init__(self, exe, args, e):
        Shard.n += 1
        self.out = os.path.join(build.scratch(), "cpp%d.out" % Shard.n)
        self.err = os.path.join(build.scratch(), "cpp%d.err" % Shard.n)
        self.p = subprocess.Popen([exe] + [str(a) for a in args], stdin=subprocess.DEVNULL, stdout=open(self.out, "wb"), stderr=open(self.err, "wb"), env=e, cwd=build.scratch(), start_new_session=True)
        self.pos, self.buf, self.current, self.cpu0, self.finished, self.done = 0, b"", None, 0.0, 0, False

    def poll(self, run):
        with open(self.out, "rb") as f:
            f.seek(self.pos); d = f.read()
        self.pos += len(d)
        self.buf += d
        *lines, self.buf = self.buf.split(b"\n")
        for l in lines:
            l = l.decode(errors="replace")
            k, _, v = l.partition(" ")
            if k == "S":
                self.current = int(v); self.cpu0 = runner.cpu_time(self.p.pid) or 0.0
            elif k == "E":
                self.current = None; self.finished += 1; run.evals += 1
            elif k == "V":
                i, key, msg, inp = (v.split("\t") + ["", "", ""])[:4]
                run.violation(key, msg + ("\n" + inp[:800] if inp else ""), {"harness": True, "case": int(i), "inputs": inp})
            elif k == "C":
                n, c = v.rsplit(" ", 1)
                run.count(n, int(c))
            elif k == "D":
                run.distinct.add(v)
            elif k == "X":
                if len(run.samples) < 5:
                    run.samples.append(v)
            elif k == "F":
                self.done = True
        return self.p.poll()

    def tail(self, n=5000):
        s = open(self.err, "rb").read().decode(errors="replace")
        for mark in ("ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "HUMANLEAGUE_MONITOR:", "Assertion"):
            k = s.find(mark)
            if k >= 0:
                k = s.rfind("\n", 0, k) + 1
                return s[k:k + n]
        return s[-n:]

    def kill(self):
        self.p.kill(); self.p.wait()


def drive(run, exe, ncases, extra=(), cpu_limit=100, shards=8, e=None, replay=None):
    e = e or env()
    if replay and replay.get("case") is not None:
        todo = [Shard(exe, [run.seed, 0, 1, ncases, 0, replay["case"], *extra], e)]
    else:
        todo = [Shard(exe, [run.seed, k, shards, ncases, 0, -1, *extra], e) for k in range(shards)]
    meta = {id(s): k for k, s in enumerate(todo)}
    crashes = 0
    while todo:
        time.sleep(0.05)
        for s in list(todo):
            rc = s.poll(run)
            k = meta[id(s)]
            if rc is not None:
                s.poll(run)
                todo.remove(s)
                if rc == 0 and s.done:
                    continue
                t = s.tail()
                crashes += 1
                if s.current is None and not s.done:
                    raise build.BuildError("harness failed outside any case (%s):\n%s" % (rc, t))
                run.violation(runner.crash_key(t, rc) + (":exit" if s.done else ""), "harness ended with %s %s\n%s" % (rc, "at exit" if s.done else "in case %d" % s.current, t), {"harness": True, "case": s.current})
                if not s.done and crashes < 6 and not replay:
                    n = Shard(exe, [run.seed, k, shards, ncases, s.current + 1, -1, *extra], e)
                    meta[id(n)] = k
                    todo.append(n)
            elif s.current is not None and (runner.cpu_time(s.p.pid) or 0.0) - s.cpu0 > cpu_limit:
                run.violation("hang", "case %d did not finish within %d s of CPU time" % (s.current, cpu_limit), {"harness": True, "case": s.current})
                for o in todo:
                    o.kill()
                run.ndistinct_extra += 1
                return
        if len(run.violations) >= runner.MAX_VIOLATIONS:
            for o in todo:
                o.kill()
            return


def sequences(run, mode, cases, replay):
    """Histories of the C++ sequence class (cpp/sobol.cpp)."""
    from . import ref
    exe = program(run, "sobol", "sobol.cpp", SAN, SAN)
    if exe is None:
        return
    p = os.path.join(build.scratch(), "directions.bin")
    ref.directions()[:, :1111].astype("<u4").tofile(p)
    drive(run, exe, cases, extra=(p, mode), replay=replay)
