"""Runs a check: builds, drives worker processes over the cases, attributes crashes and hangs, writes evidence, prints the verdict."""
import hashlib, importlib, json, os, signal, subprocess, sys, time, traceback

from . import build

VERIF = build.VERIF
PY = sys.executable
WORKERS = 8
CASE_CPU_S = 60        # a case normally takes well under a second
RERUN_CPU_S = 150
MAX_VIOLATIONS = 4


class Run:
    def __init__(self, mod, tier, seed):
        self.mod, self.id, self.tier, self.seed = mod, mod.ID, tier, seed
        self.t0 = time.time()
        self.violations = []      # (key, msg, replay path)
        self.known = []
        self.evals = 0
        self.distinct = set()
        self.ndistinct_extra = 0
        self.counters = {}
        self.samples = []
        self.notes = []
        self.findings = load_findings(self.id)

    # -- results
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, msg, replay):
        for f in self.findings:
            if f["key"] == key:
                if key not in [k for k, _ in self.known]:
                    self.known.append((key, f["text"]))
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.id, hashlib.sha256(key.encode()).hexdigest()[:8], len(self.violations)))
        replay = dict(replay)
        replay.update(property=self.id, key=key, message=msg, tier=self.tier, seed=self.seed)
        with open(p, "w") as f:
            json.dump(replay, f, indent=1, default=str)
        self.violations.append((key, msg, p))

    def finish(self):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct) + self.ndistinct_extra,
               "rule": self.mod.RULE, "samples": self.samples[:5], "observed": self.counters}
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": getattr(self.mod, "LEVEL", "exploration"),
              "coverage": cov, "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.known:
            cov["known_findings"] = [k for k, _ in self.known]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.id + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.id + ".json"))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (
            self.id, self.tier, self.seed, self.evals, cov["distinct_nontrivial"], len(self.violations), ev["wall_s"]))
        print("observed: " + json.dumps(self.counters, default=str))
        for k, t in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, t))
        for k, m, p in self.violations[:MAX_VIOLATIONS]:
            print("VIOLATION property=%s replay=%s" % (self.id, p))
            print("  [%s] %s" % (k, m[:2000]))
        sys.stdout.flush()
        if self.violations:
            return 1
        if cov["distinct_nontrivial"] == 0:
            print("ERROR: nothing was observed")
            return 2
        # what the check must have observed at least, or it is inconclusive
        least = dict(getattr(self.mod, "REQUIRE", {}))
        if not self.counters.get("not_compiled"):       # the rest of the check stands without its C++ part
            least.update(getattr(self.mod, "REQUIRE_CPP", {}))
        for name, least in least.items():
            if self.counters.get(name, 0) < least:
                print("ERROR: inconclusive, only %d of %s observed" % (self.counters.get(name, 0), name))
                return 2
        return 0


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line.split(None, 3)       # finding: property=.. key=.. text
            if parts[1] == "property=" + pid:
                out.append({"key": parts[2][len("key="):], "text": parts[3]})
    return out


def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


class Worker:
    """One worker process going through a list of cases; events are appended to a log file."""
    n = 0

    def __init__(self, run, cases, env, extra):
        Worker.n += 1
        self.run, self.cases = run, cases
        base = os.path.join(build.scratch(), "w%d" % Worker.n)
        self.log, self.err = base + ".log", base + ".err"
        spec = {"id": run.id, "tier": run.tier, "seed": run.seed, "cases": cases, "log": self.log, "extra": extra, "known": [f["key"] for f in run.findings]}
        with open(base + ".spec", "w") as f:
            json.dump(spec, f)
        open(self.log, "w").close()
        self.p = subprocess.Popen([PY, "-X", "faulthandler", os.path.join(VERIF, "lib", "worker.py"), base + ".spec"], env=env,
                                  stdin=subprocess.DEVNULL, stdout=open(self.err, "ab"), stderr=subprocess.STDOUT, cwd=build.scratch(), start_new_session=True)
        self.pos = 0
        self.buf = b""
        self.current = None
        self.cpu0 = 0.0
        self.done = False
        self.finished = 0

    def poll(self):
        with open(self.log, "rb") as f:
            f.seek(self.pos)
            data = f.read()
        self.pos += len(data)
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        for l in lines:
            if not l:
                continue
            e = json.loads(l)
            r = self.run
            if e["e"] == "start":
                self.current = e["i"]
                self.cpu0 = cpu_time(self.p.pid) or 0.0
            elif e["e"] == "end":
                self.finished += 1
                self.current = None
            elif e["e"] == "viol":
                r.violation(e["key"], e["msg"], {"case": e["i"], "inputs": e.get("inputs")})
            elif e["e"] == "summary":
                self.done = True
                r.evals += e["evals"]
                r.distinct.update(e["distinct"])
                r.ndistinct_extra += e.get("extra_distinct", 0)
                for k, v in e["counters"].items():
                    r.count(k, v)
                if len(r.samples) < 5:
                    r.samples.extend(e["samples"][:2])
        return self.p.poll()

    def over(self, limit):
        if self.current is None:
            return False
        c = cpu_time(self.p.pid)
        return c is not None and c - self.cpu0 > limit

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def tail(self, n=6000):
        try:
            with open(self.err, "rb") as f:
                s = f.read().decode(errors="replace")
        except OSError:
            return ""
        for mark in ("ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "HUMANLEAGUE_MONITOR:", "Assertion"):
            k = s.find(mark)
            if k >= 0:
                k = s.rfind("\n", 0, k) + 1
                return s[k:k + n]
        return s[-n:]


def crash_key(text, rc):
    """Stable key of a crash: kind plus innermost library frame."""
    import re
    kind = "exit%s" % rc
    m = re.search(r"AddressSanitizer: ([\w-]+)", text) or re.search(r"(ThreadSanitizer|LeakSanitizer)", text) or re.search(r"runtime error: ([\w' -]{5,40})", text) or re.search(r"(HUMANLEAGUE_MONITOR)", text)
    if m:
        kind = m.group(1).strip().replace(" ", "_")
    m = re.search(r"/repo/src/([\w.]+)", text)
    return "crash:" + kind + (":" + m.group(1) if m else "")


def drive(run, ncases, env, extra, budget_s=None):
    """Runs cases 0..ncases-1 over parallel workers."""
    cases = list(range(ncases))
    nw = getattr(run.mod, "WORKERS", WORKERS)
    todo = [cases[w::nw] for w in range(nw)]
    workers = [Worker(run, c, env, extra) for c in todo if c]
    crashes = 0
    while workers:
        time.sleep(0.05)
        for w in list(workers):
            rc = w.poll()
            if rc is not None:
                w.poll()
                workers.remove(w)
                if w.done and rc == 0:
                    continue
                if w.current is None:
                    if w.done:       # died after reporting: e.g. at interpreter exit
                        t = w.tail()
                        run.violation(crash_key(t, rc) + ":exit", "worker failed at exit (%s)\n%s" % (rc, t), {"case": None})
                        continue
                    raise build.BuildError("worker failed outside any case (%s):\n%s" % (rc, w.tail()))
                t = w.tail()
                crashes += 1
                run.count("crashes")
                run.violation(crash_key(t, rc), "process ended with %s in case %d\n%s" % (rc, w.current, t), {"case": w.current})
                rest = w.cases[w.cases.index(w.current) + 1:]
                if rest and crashes < 6:
                    workers.append(Worker(run, rest, env, extra))
            elif w.over(getattr(run.mod, "CASE_CPU_S", CASE_CPU_S)):
                case = w.current
                w.poll()
                if w.current != case:
                    continue
                w.kill()
                workers.remove(w)
                hang = rerun(run, case, env, extra)
                if hang:
                    run.violation("hang", "case %d did not finish within %d s of CPU time, twice" % (case, RERUN_CPU_S), {"case": case})
                    for o in workers:
                        o.kill()
                    run.evals += sum(o.finished for o in workers) + w.finished
                    run.ndistinct_extra += 1
                    return
                rest = w.cases[w.cases.index(case) + 1:]
                run.evals += w.finished
                if rest:
                    workers.append(Worker(run, rest, env, extra))
        if len(run.violations) >= MAX_VIOLATIONS:
            for o in workers:
                o.kill()
                run.evals += o.finished
            return


def rerun(run, case, env, extra):
    w = Worker(run, [case], env, extra)
    while True:
        time.sleep(0.1)
        rc = w.poll()
        if rc is not None:
            w.poll()
            if w.current is not None:
                t = w.tail()
                run.violation(crash_key(t, rc), "process ended with %s in case %d\n%s" % (rc, case, t), {"case": case})
            return False
        if w.over(RERUN_CPU_S):
            w.kill()
            return True


def python_env(kind, path):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "LD_PRELOAD"):
        env.pop(k, None)
    if kind == "san":
        env = build.san_env(env)
    env["PYTHONPATH"] = path + os.pathsep + VERIF
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    return env


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid)
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
        tier, seed = replay["tier"], replay["seed"]
    run = Run(mod, tier, seed)
    try:
        if hasattr(mod, "main"):
            mod.main(run, replay)
        else:
            path = build.extension(mod.BUILD)
            env = python_env(mod.BUILD, path)
            extra = mod.prepare(run) if hasattr(mod, "prepare") else {}
            if "shim" in extra:
                env["LD_PRELOAD"] = extra["shim"]
            n = mod.QUICK if tier == "quick" else mod.THOROUGH
            if replay and replay.get("harness"):
                mod.post(run, env, extra, replay)
            elif replay and replay.get("case") is not None:
                w = Worker(run, [replay["case"]], env, extra)
                while w.poll() is None:
                    time.sleep(0.05)
                w.poll()
                if w.current is not None:
                    run.violation(crash_key(w.tail(), w.p.returncode), w.tail(), {"case": replay["case"]})
            else:
                drive(run, n, env, extra)
                if hasattr(mod, "post"):
                    mod.post(run, env, extra)
    except build.BuildError as e:
        print("ERROR: " + str(e))
        if run.violations:
            return run.finish()
        return 3
    return run.finish()
