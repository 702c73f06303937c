"""Writes seeded/<id>/ from tools/bugs.py: the patch against /repo's HEAD, demo.sh, demo.py, meta.json.

  plant.py write [ID...]      write the folders
  plant.py confirm [ID...]    in scratch copies: demo 0 unchanged, nonzero patched, stable tests pass
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS  # noqa: E402

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore -B "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    sh(["cp", "-a", "/repo/.", d], "/")
    sh(["git", "update-index", "-q", "--refresh"], d)
    return d


def write(b):
    d = copy()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        assert diff, b["id"]
    finally:
        shutil.rmtree(d)
    out = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)


def confirm(b):
    d = copy()
    sd = os.path.join(VERIF, "seeded", b["id"])
    env = dict(ENV, PYTHONPATH=d)
    msg = []
    try:
        r = sh(["bash", os.path.join(sd, "demo.sh")], d, timeout=300)
        msg.append("demo clean %d" % r.returncode)
        ok = r.returncode == 0
        if not ok:
            msg.append(r.stdout[-800:])
        r = sh(["git", "apply", os.path.join(sd, "patch.diff")], d)
        ok &= r.returncode == 0
        if "cntr.c" in open(os.path.join(sd, "patch.diff")).read():
            r = sh("rm -f trackeddy/_cntr*.so; %s setup.py -q build_ext --inplace --force" % PY, d, shell=True)
            if r.returncode:
                ok = False
                msg.append(r.stdout[-500:])
        r = sh(["bash", os.path.join(sd, "demo.sh")], d, timeout=300)
        msg.append("demo patched %d: %s" % (r.returncode, (r.stdout.strip().splitlines() or [""])[-1][:200]))
        ok &= r.returncode != 0
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=300", "-p", "randomly",
                "--randomly-seed=0", "--randomly-dont-reorganize"], d, env=env)
        last = [l for l in r.stdout.splitlines() if "passed" in l or "failed" in l or "error" in l][-1:]
        msg.append("tests: %s" % last)
        ok &= bool(last) and "16 passed" in last[0]
    except Exception as e:
        ok = False
        msg.append(repr(e))
    finally:
        shutil.rmtree(d)
    print("OK " if ok else "BAD", b["id"], b["property"], "; ".join(msg), flush=True)
    return ok


if __name__ == "__main__":
    ids = sys.argv[2:]
    todo = [b for b in BUGS if not ids or b["id"] in ids]
    if sys.argv[1] == "write":
        for b in todo:
            write(b)
    else:
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(confirm, todo))
