"""Runner of the property checks.

  python harness/run.py C01                 run the check of property C01
  python harness/run.py C01 --replay FILE   run one saved case, without hypothesis
  python harness/run.py C01 --case TEST JSON

Each check is a module checks/<id>.py with PROPERTY, RULE, ASSUMPTIONS and TESTS.
A test is a hypothesis strategy that draws a JSON case and a function that
judges the case with an explicit oracle. Workers run the tests with seeds
derived from VERIF_SEED; a failure is shrunk and written to replays/.

Exit: 0 held on everything explored, 1 violation, 2 error of the check.
"""
import hashlib
import importlib
import io
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import bootstrap  # noqa: E402

VERIF = bootstrap.VERIF
sys.path.insert(1, VERIF)

if os.environ.get("OMP_NUM_THREADS") != "1" or os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, bootstrap.reexec_env())

HANG_CPU_S = 120  # one case that uses this much CPU (usual: < 2 s) does not terminate


class Rec:
    """What a case did; filled by the check, read by the runner."""

    def __init__(self):
        self.events = []
        self.nt = False
        self.excluded = False

    def event(self, *names):
        self.events.extend(names)

    def nontrivial(self, yes=True):
        self.nt = self.nt or bool(yes)

    def exclude(self, name):
        """A confirmed known finding: counted, not judged."""
        self.excluded = True
        self.events.append("excluded:" + name)


def to_json(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class quiet:
    """Silence what the code under test prints, with Python's usual recursion
    limit (which hypothesis raises)."""

    def __enter__(self):
        self.out = sys.stdout
        sys.stdout = io.StringIO()
        self.limit = sys.getrecursionlimit()
        depth, f = 0, sys._getframe()
        while f is not None:
            depth, f = depth + 1, f.f_back
        sys.setrecursionlimit(depth + 1000)

    def __exit__(self, *a):
        sys.stdout = self.out
        sys.setrecursionlimit(self.limit)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    return "%s: %s [%s]" % (type(exc).__name__, str(exc)[:1500], " < ".join(reversed(where)))


def run_case(test, case, rec):
    """Raises on a violation: AssertionError from the oracle, or whatever the
    code under test raised on an input of the domain."""
    with quiet():
        test.check(case, rec)


class OutOfTime(BaseException):
    """Ends the search of a test (hypothesis lets it through)."""


class Worker:
    def __init__(self, module, idx, n, seed, tier, budget, outdir):
        self.outdir = outdir
        self.m, self.idx, self.n, self.tier = module, idx, n, tier
        self.seed, self.budget = seed, budget
        self.out = os.path.join(outdir, "w%d.json" % idx)
        self.cur = os.path.join(outdir, "w%d.case" % idx)
        self.st = {"evaluations": 0, "cut": 0, "classes": {}, "per_test": {},
                   "hashes": [], "samples": [], "failure": None, "error": None}
        self.seen = set()

    def save(self):
        tmp = self.out + ".tmp"
        self.st["hashes"] = sorted(self.seen)
        with open(tmp, "w") as f:
            json.dump(self.st, f)
        os.replace(tmp, self.out)

    def main(self):
        os.chdir(self.outdir)     # files that the code writes where it runs
        try:
            total = sum(t.weight for t in self.m.TESTS)
            for t in self.m.TESTS:
                self.run_test(t, self.budget * t.weight / total)
                if self.st["failure"]:
                    break
        except BaseException as e:  # harness error
            self.st["error"] = traceback.format_exc()
        self.save()

    def run_test(self, test, budget):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as eng
        eng.MAX_SHRINKING_SECONDS = 45
        n = test.quick if self.tier == "quick" else test.thorough
        n = max(1, -(-n // self.n))
        if test.max_workers is not None and self.idx >= test.max_workers:
            return
        t0 = time.time()
        state = {"fail": None, "count": 0, "tfail": None}
        curf = open(self.cur, "w")

        def body(case):
            if state["fail"] is None and time.time() - t0 > budget:
                raise OutOfTime()
            s = to_json(case)
            curf.seek(0)
            curf.truncate()
            curf.write(json.dumps({"test": test.name}) + "\n" + s)
            curf.flush()
            rec = Rec()
            try:
                run_case(test, json.loads(s), rec)
            except (hypothesis.errors.HypothesisException, MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                state["fail"] = (s, describe(e))
                raise
            finally:
                if state["fail"] is None:
                    self.account(test, s, rec)
                    state["count"] += 1

        wrapped = given(test.strategy())(body)
        wrapped = settings(max_examples=n, deadline=None, database=None,
                           derandomize=False, report_multiple_bugs=False,
                           print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                           phases=[Phase.explicit, Phase.generate] if os.environ.get("VERIF_FAST") else [
                               Phase.explicit, Phase.generate, Phase.shrink],
                           suppress_health_check=[HealthCheck.too_slow,
                                                  HealthCheck.data_too_large,
                                                  HealthCheck.large_base_example,
                                                  HealthCheck.differing_executors])(wrapped)
        name = "%s/%d" % (test.name, self.idx)
        salt = int(hashlib.sha256(name.encode()).hexdigest()[:8], 16)
        wrapped = hypothesis.seed(self.seed * 1000003 + salt)(wrapped)
        try:
            wrapped()
        except OutOfTime:
            self.st["cut"] += n - state["count"]
        except BaseException:
            if state["fail"] is None:
                raise
        finally:
            curf.close()
            try:
                os.unlink(self.cur)
            except OSError:
                pass
        if state["fail"] is not None:
            s, msg = state["fail"]
            again = None
            try:
                run_case(test, json.loads(s), Rec())
                again = "did not fail again on its own: it depends on earlier calls in the process"
            except Exception as e:
                again = describe(e)
            self.st["failure"] = {"test": test.name, "case": json.loads(s), "message": msg,
                                  "replayed": again}

    def account(self, test, s, rec):
        st = self.st
        st["evaluations"] += 1
        st["per_test"][test.name] = st["per_test"].get(test.name, 0) + 1
        for e in rec.events:
            k = test.name + ":" + e
            st["classes"][k] = st["classes"].get(k, 0) + 1
        if rec.nt and not rec.excluded:
            h = hashlib.sha1((test.name + s).encode()).hexdigest()[:14]
            if h not in self.seen:
                self.seen.add(h)
                k = test.name + ":nontrivial"
                st["classes"][k] = st["classes"].get(k, 0) + 1
                if st["classes"][k] in (3, 11) and len(st["samples"]) < 8:
                    st["samples"].append({"test": test.name, "case": shorten(s),
                                          "events": rec.events[:12]})


def shorten(s):
    return s if len(s) < 700 else s[:700] + "...(%d chars)" % len(s)


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


def read_current(path):
    try:
        with open(path) as f:
            head = json.loads(f.readline())
            return {"test": head["test"], "case": json.loads(f.read())}
    except Exception:
        return None


def write_replay(prop, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(failure, property=prop)
    h = hashlib.sha1(to_json([failure["test"], failure["case"]]).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return p


def isolated(module, test, case):
    """Run one case in a forked child; returns None, or a message."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            resource.setrlimit(resource.RLIMIT_CPU, (HANG_CPU_S, HANG_CPU_S + 5))
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            try:
                run_case(test, case, Rec())
            except Exception as e:
                os.write(w, describe(e).encode()[:60000])
                code = 1
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    with os.fdopen(r, "rb") as f:
        out = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        return "no answer after %d s of CPU" % HANG_CPU_S
    if os.WIFSIGNALED(status):
        return "the process died with signal %d" % os.WTERMSIG(status)
    if out:
        return out.decode(errors="replace")
    if os.WEXITSTATUS(status):
        return "the process exited with status %d" % os.WEXITSTATUS(status)
    return None


def load_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in argv:
        tier = "thorough"
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    bootstrap.ensure_deps()
    bootstrap.load_repo()
    bootstrap.preload()
    module = importlib.import_module("checks." + prop)
    assert module.PROPERTY == prop
    tests = {t.name: t for t in module.TESTS}

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            d = json.load(f)
        msg = isolated(module, tests[d["test"]], d["case"])
        print("test:", d["test"])
        print("holds" if msg is None else "VIOLATED: " + msg)
        return 1 if msg else 0

    violation = None
    # 1. regressions: the shrunk inputs of repaired defects, and known findings
    regress = 0
    for d in load_findings(prop):
        seen = False
        for c in d.get("cases", []):
            msg = isolated(module, tests[c["test"]], c["case"])
            regress += 1
            if d["status"] == "known":
                if msg is not None and not seen:
                    seen = True
                    print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
                elif msg is None:
                    print("note: listed finding no longer fails: %s" % d["what"])
            elif msg is not None and violation is None:
                violation = {"test": c["test"], "case": c["case"], "message": msg,
                             "replayed": "regression of: " + d["what"]}
    # 2. search
    n = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
    budget = float(os.environ.get("VERIF_BUDGET_S")
                   or (module.BUDGET if tier == "quick" else getattr(module, "THOROUGH_BUDGET", 1500)))
    outdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    pids = {}
    errors = []
    results = {}
    try:
        if violation is None:
            only = argv[argv.index("--only") + 1] if "--only" in argv else None
            if only:
                module.TESTS = [t for t in module.TESTS if t.name == only]
            sys.stdout.flush()
            for i in range(n):
                w = Worker(module, i, n, seed, tier, budget, outdir)
                pid = os.fork()
                if pid == 0:
                    try:
                        w.main()
                    finally:
                        os._exit(0)
                pids[pid] = w
            last = {}
            while pids and violation is None:
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    time.sleep(0.1)
                    for p, w in list(pids.items()):
                        try:
                            m = os.stat(w.cur).st_mtime_ns
                        except OSError:
                            last.pop(p, None)
                            continue
                        c = cpu_of(p)
                        if p not in last or last[p][0] != m:
                            last[p] = (m, c)
                        elif c - last[p][1] > HANG_CPU_S:
                            cur = read_current(w.cur)
                            os.kill(p, signal.SIGKILL)
                            os.waitpid(p, 0)
                            del pids[p]
                            if cur:
                                violation = dict(cur, message="no answer after %d s of CPU" % HANG_CPU_S,
                                                 replayed="")
                    continue
                w = pids.pop(pid, None)
                if w is None:
                    continue
                if os.WIFSIGNALED(status):
                    sig = os.WTERMSIG(status)
                    cur = read_current(w.cur)
                    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                               signal.SIGILL) and cur:
                        violation = dict(cur, message="the process died with signal %d" % sig, replayed="")
                    else:
                        errors.append("worker %d died with signal %d" % (w.idx, sig))
                    continue
                try:
                    with open(w.out) as f:
                        r = json.load(f)
                except Exception as e:
                    errors.append("worker %d left no result: %r" % (w.idx, e))
                    continue
                results[w.idx] = r
                if r["failure"]:
                    violation = r["failure"]
                elif r["error"]:
                    errors.append(r["error"])
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except Exception:
                pass
        import shutil
        shutil.rmtree(outdir, ignore_errors=True)

    # 3. evidence
    hashes, classes, per_test, samples = set(), {}, {}, []
    ev = cut = 0
    for i in sorted(results):
        r = results[i]
        ev += r["evaluations"]
        cut += r["cut"]
        hashes.update(r["hashes"])
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in r["per_test"].items():
            per_test[k] = per_test.get(k, 0) + v
        samples.extend(r["samples"])
    by_test = {}
    for s in samples:
        by_test.setdefault(s["test"], []).append(s)
    samples = [s for v in by_test.values() for s in v[:3]][:12]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev + regress, "distinct_nontrivial": len(hashes),
            "rule": module.RULE, "samples": samples or [{"note": "stopped before any sample"}],
            "cases_per_test": per_test, "classes": dict(sorted(classes.items())),
            "regression_cases": regress, "not_run_time_budget": cut,
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violation:
        p = write_replay(prop, violation)
        print("%s [%s] %s" % (prop, violation["test"], violation["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, VERIF)))
        return 1
    if errors:
        print("\n".join(errors[:3]))
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s%s" % (
        prop, ev + regress, len(hashes), time.time() - t0,
        ", %d not run (time budget)" % cut if cut else ""))
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
