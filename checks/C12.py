"""Memory safety of the extension module, under AddressSanitizer and UBSan."""
import atexit
import json
import os
import select
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

import bootstrap
from core import Test, need
from gen import fx

PROPERTY = "C12"
BUDGET = 40
RULE = ("Histories of 1 to 12 operations on up to 3 tracers: create from arrays of 0x0 to 20x20 points (any dtype, "
        "layout, NaN, infinite or huge values, ties, saddles, masks, wrong shapes and types), use without initialising, "
        "initialise again, trace one or two levels "
        "with any chunk size, drop the inputs, read the cell codes, delete, create and trace while one allocation fails. Each history runs in a process with "
        "the extension built with AddressSanitizer and UBSan, and in one without. Non-trivial: a trace of two "
        "levels or a mask, after which something else happens. leak: the same use repeated 300 times.")
ASSUMPTIONS = ["gcc's AddressSanitizer and UBSan see the errors (every allocation goes through malloc)",
               "TypeError and ValueError are the ways to reject an input"]


class Child:
    def __init__(self, variant):
        so = bootstrap.build_cntr("asan" if variant == "asan" else "plain")
        env = dict(os.environ, PYTHONMALLOC="malloc", OMP_NUM_THREADS="1")
        if variant == "asan":
            libs = [subprocess.check_output(["gcc", "-print-file-name=" + l], text=True).strip()
                    for l in ("libasan.so", "libubsan.so")]
            env.update(LD_PRELOAD=" ".join(libs), UBSAN_OPTIONS="print_stacktrace=0",
                       ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1"
                                    ":detect_stack_use_after_return=1")
        self.err = tempfile.TemporaryFile("w+")
        here = os.path.dirname(os.path.abspath(bootstrap.__file__))
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(here, "cntr_child.py"), so],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  text=True, env=env)
        atexit.register(self.close)

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        if not select.select([self.p.stdout], [], [], 120)[0]:
            self.close()
            return None, "no answer after 120 s"
        line = self.p.stdout.readline()
        if line:
            return json.loads(line), None
        self.p.wait()
        self.err.seek(0)
        text = self.err.read()
        keep = [l for l in text.splitlines() if "ERROR" in l or "runtime error" in l or "SUMMARY" in l
                or "cntr.c" in l or "Error" in l][:8]
        return None, "the process ended with status %s: %s" % (self.p.returncode, " | ".join(keep)[:1500])

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


CH = {}


def ask(variant, req):
    key = (os.getpid(), variant)
    if key not in CH:
        CH[key] = Child(variant)
    r, err = CH[key].ask(req)
    if err:
        CH.pop(key).close()
    return r, err


def arrays(draw):
    ny, nx = draw(st.one_of(st.tuples(st.integers(2, 20), st.integers(2, 20)),
                            st.tuples(st.integers(2, 6), st.integers(2, 6)),
                            st.tuples(st.integers(0, 3), st.integers(0, 3))))
    seed = draw(st.integers(0, 10 ** 6))
    zk = draw(st.sampled_from(["bits", "ints", "ints", "noise", "noise", "nan", "inf", "big", "const"]))
    out = [dict(kind="x", shape=[ny, nx], seed=0), dict(kind="y", shape=[ny, nx], seed=0),
           dict(kind=zk, shape=[ny, nx], seed=seed)]
    if draw(st.booleans()):
        out.append(dict(kind="mask", shape=[ny, nx], seed=seed, p=draw(st.sampled_from([0, 0.05, 0.3, 0.9, 1]))))
    for a in out:
        if draw(st.integers(0, 5)) == 0:
            a["layout"] = draw(st.sampled_from(["F", "strided", "reversed", "readonly"]))
        if draw(st.integers(0, 7)) == 0:
            a["dtype"] = draw(st.sampled_from(["f4", "i4", "i8", "u1", "?", "f2", ">f8", "c16"]))
    if draw(st.integers(0, 9)) == 0:   # something wrong
        k = draw(st.integers(0, len(out) - 1))
        out[k] = draw(st.sampled_from([dict(kind="none"), dict(kind="list"), dict(kind="str"),
                                       dict(kind="ints", shape=[nx, ny + 1], seed=1),
                                       dict(kind="ints", shape=[max(0, ny - 1), nx], seed=1),
                                       dict(kind="ints", shape=[nx], seed=1),
                                       dict(kind="ints", shape=[2, ny, nx], seed=1),
                                       dict(kind="ints", shape=[], seed=1)]))
    return out


def good(draw):
    ny, nx = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    seed = draw(st.integers(0, 10 ** 6))
    out = [dict(kind=k, shape=[ny, nx], seed=seed) for k in ("x", "y", draw(st.sampled_from(["bits", "ints", "noise"])))]
    return out + [dict(kind="mask", shape=[ny, nx], seed=seed, p=0.2)] if draw(st.booleans()) else out


LEVEL = st.one_of(st.sampled_from([-2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3, 1e308, -1e100, float("1e-300"), float("inf"), float("nan")]), fx(-3, 3, 0.01))


def histories():
    @st.composite
    def strat(draw):
        ops = [["new", "a", arrays(draw)]]
        for _ in range(draw(st.integers(1, 11))):
            k = draw(st.sampled_from(["trace", "trace", "trace", "trace2", "trace2", "chunk", "new", "init", "blank", "nomem", "forget", "data", "del"]))
            o = draw(st.sampled_from(["a", "a", "a", "b", "c"]))
            if k in ("new", "init"):
                ops.append([k, o, arrays(draw)])
            elif k == "nomem":
                ops.append([k, good(draw), draw(st.sampled_from([[0.5], [0.5, 1.5]])), draw(st.integers(0, 40))])
            elif k == "trace":
                ops.append(["trace", o, [draw(LEVEL)], []])
            elif k == "trace2":
                ops.append(["trace", o, [draw(LEVEL), draw(LEVEL)], []])
            elif k == "chunk":
                ops.append(["trace", o, [draw(LEVEL), draw(LEVEL)], [draw(st.sampled_from([0, 1, 2, 3, 7, 100]))]])
            else:
                ops.append([k, o])
        return {"ops": ops}
    return strat()


def check_history(c, rec):
    ops = c["ops"]
    rec.nontrivial(any(o[0] == "trace" and len(o[2]) == 2 for o in ops[:-1])
                   or any(o[0] == "new" and len(o[2]) == 4 for o in ops[:-1]))
    r, err = ask("asan", ops)
    need(err is None, "%s", err)
    p, err = ask("plain", ops)
    need(err is None, "%s", err)
    need("INPUT MODIFIED" not in r and "INPUT MODIFIED" not in p, "an input array was modified")
    need(r == p, "the result depends on the build: %s %s", r, p)
    rec.event(*{x if isinstance(x, str) else "traced" for x in r})
    # the same without the rest of the history
    last, traced = {}, {}
    for o, a in zip(ops, p):
        if o[0] in ("new", "blank") or o[0] == "init" and a == "init":
            last[o[1]] = ["new"] + o[1:] if o[0] == "init" else o
            traced.pop(o[1], None)
        elif o[0] == "nomem":
            need(a == "nomem", "%s: %s", a, o)
        elif o[0] in ("trace", "data") and isinstance(a, list) and o[1] in last:
            alone, err = ask("plain", [last[o[1]]] + ([traced[o[1]]] if o[0] == "data" and o[1] in traced else []) + [o])
            if o[0] == "trace":
                traced[o[1]] = o
            need(err is None, "%s", err)
            need(alone[-1] == a, "trace %s gives %s after a history, %s alone", o, a, alone[-1])


def leaks():
    @st.composite
    def strat(draw):
        ny, nx = draw(st.integers(2, 20)), draw(st.integers(2, 20))
        seed = draw(st.integers(0, 10 ** 6))
        a = [dict(kind="x", shape=[ny, nx], seed=0), dict(kind="y", shape=[ny, nx], seed=0),
             dict(kind=draw(st.sampled_from(["bits", "ints", "noise"])), shape=[ny, nx], seed=seed)]
        if draw(st.booleans()):
            a.append(dict(kind="mask", shape=[ny, nx], seed=seed, p=0.1))
        for x in a:
            if draw(st.integers(0, 4)) == 0:
                x["layout"] = "F"
        return {"arrays": a, "n": 150, "again": draw(st.booleans()), "codes": draw(st.booleans()), "levels": draw(st.lists(st.sampled_from([[0.5], [0.0], [0.5, 1.5], [-0.7, 0.4, 3]]),
                                                               min_size=1, max_size=3))}
    return strat()


def check_leak(c, rec):
    rec.nontrivial(True)
    r, err = ask("plain", {k: c.get(k) for k in ("arrays", "n", "levels", "again", "codes")})
    need(err is None, "%s", err)
    need(not any(r["refs"]), "references to the inputs change by %s in %d uses", r["refs"], c["n"])
    need(r["grown"] < 12 * c["n"], "%d uses always leave %d bytes allocated", c["n"], r["grown"])


TESTS = [Test("history", histories, check_history, 12000, 400000, 3),
         Test("leak", leaks, check_leak, 300, 4000, 1)]
