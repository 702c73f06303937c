"""Make the code of /repo importable, with its C extension compiled from the
current working tree, without writing anything under /repo.

 * ``_cntr`` is compiled from /repo/trackeddy/src/cntr.c into
   /verif/.build/<sha of source>/ and preloaded as ``trackeddy._cntr``;
 * hypothesis is made importable from .deps/ (links into the tool venv, or an
   unpacked wheel), without exposing the rest of that venv.
"""
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
DEPS = os.path.join(VERIF, ".deps")
VENV_SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"

ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
}


class BuildError(Exception):
    pass


def ensure_deps():
    """A directory that holds hypothesis and its dependencies and nothing else."""
    names = ["hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
             "sortedcontainers", "attr", "attrs"]
    os.makedirs(DEPS, exist_ok=True)
    if not os.path.exists(os.path.join(DEPS, "hypothesis", "__init__.py")):
        if os.path.exists(os.path.join(VENV_SP, "hypothesis", "__init__.py")):
            for n in names:
                src, dst = os.path.join(VENV_SP, n), os.path.join(DEPS, n)
                if os.path.exists(src) and not os.path.lexists(dst):
                    try:
                        os.symlink(src, dst)
                    except FileExistsError:
                        pass
        else:
            subprocess.check_call(
                [sys.executable, "-m", "pip", "install", "-q", "--no-index",
                 "--find-links", WHEELS, "--target", DEPS, "hypothesis"],
                stdout=subprocess.DEVNULL)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


def _compile(source, out, flags):
    import numpy
    inc = sysconfig.get_paths()["include"]
    cc = os.environ.get("CC", "gcc")
    tmp = tempfile.mktemp(suffix=".so", dir=os.path.dirname(out))
    cmd = [cc, "-shared", "-fPIC", "-w", *flags, "-I", inc, "-I",
           numpy.get_include(), source, "-o", tmp]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("cannot compile %s\n%s" % (source, p.stderr))
    os.replace(tmp, out)


def build_cntr(variant="plain"):
    source = os.path.join(REPO, "trackeddy", "src", "cntr.c")
    flags = {"plain": ["-O2"],
             "asan": ["-O1", "-g", "-fno-omit-frame-pointer",
                      "-fsanitize=address,undefined",
                      "-fno-sanitize-recover=undefined",
                      # libm style float divisions by zero give inf, as intended
                      "-fno-sanitize=float-divide-by-zero",
                      "-fno-sanitize=shift,pointer-overflow"]}[variant]
    with open(source, "rb") as f:
        h = hashlib.sha256(f.read() + repr((flags, sys.version)).encode())
    d = os.path.join(BUILD, variant + "-" + h.hexdigest()[:16])
    out = os.path.join(d, "_cntr.so")
    if not os.path.exists(out):
        os.makedirs(d, exist_ok=True)
        _compile(source, out, flags)
    return out


def load_repo(variant="plain"):
    """Import trackeddy from the working tree, with a fresh C extension."""
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    so = build_cntr(variant)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy  # noqa: F401  (before the extension, which imports its C API)
    import trackeddy
    if os.path.dirname(os.path.abspath(trackeddy.__file__)) != os.path.join(REPO, "trackeddy"):
        raise BuildError("trackeddy imported from %s" % trackeddy.__file__)
    spec = importlib.util.spec_from_file_location("trackeddy._cntr", so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules["trackeddy._cntr"] = mod
    trackeddy._cntr = mod
    return trackeddy


def preload():
    """Slow imports, before the workers fork. What fails here fails in the cases."""
    import importlib
    for name in ("hypothesis", "contourpy", "matplotlib.path", "scipy.ndimage", "xarray", "pandas",
                 "trackeddy.trackeddy", "trackeddy.generator.field_generator"):
        try:
            importlib.import_module(name)
        except Exception:
            pass
    # What the libraries import at their first use (fresh processes of C04 are
    # forks of this one); none of the code of /repo runs.
    try:
        import numpy as np
        import pandas as pd
        import xarray as xr
        from astropy import convolution
        from scipy.optimize import least_squares
        from sklearn.neighbors import BallTree
        a = np.arange(30.0).reshape(2, 3, 5)
        d = xr.Dataset({"v": (("time", "lat", "lon"), a)}, {"lat": np.arange(3.0), "lon": np.arange(5.0)})["v"]
        s = d.isel(time=0).squeeze()
        s = (s - s.mean("lon")).where(np.ones((3, 5), bool), np.nan).load().fillna(0).copy().transpose(..., "lat", "lon")
        s - convolution.convolve(s, kernel=np.ones((3, 3)))
        int((1 * s).argmax()), s.max()
        BallTree(a[0].T).query(a[0].T[:2])
        least_squares(lambda p: p.sum(), np.ones(2), bounds=([0, 0], [2, 2]))
        t = pd.DataFrame({"a": [1.0, 2], "b": [0, 1], "c": [0, 0]}).set_index(["b", "c"])
        t = pd.concat([t, t]).reset_index().set_index(["b", "c"]).sort_index(level=["b"])
        t.groupby(["b", "c"]).last(), t.xs(0, level="c")
    except Exception:
        pass


def reexec_env():
    """Environment of check processes: single threaded, fixed hash seed."""
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    return env


if __name__ == "__main__":  # setup_cmd
    ensure_deps()
    import hypothesis
    print("hypothesis", hypothesis.__version__)
    print(build_cntr())
    print(build_cntr("asan"))
