"""Arrays built from small JSON descriptions (numpy only)."""
import numpy as np


def build(a):
    kind = a["kind"]
    if kind == "none":
        return None
    if kind == "list":
        return [[1.0, 2.0], [3.0, 4.0]]
    if kind == "str":
        return "x"
    shape = tuple(a["shape"])
    r = np.random.default_rng(a["seed"])
    if kind == "x":
        v = np.broadcast_to(np.arange(shape[-1] if shape else 1, dtype=float), shape).copy()
    elif kind == "y":
        v = np.zeros(shape)
        if len(shape) == 2:
            v += np.arange(shape[0])[:, None]
    elif kind == "bits":
        v = r.integers(0, 2, shape).astype(float)
    elif kind == "ints":
        v = r.integers(-2, 3, shape).astype(float)
    elif kind == "mask":
        v = (r.random(shape) < a["p"])
    elif kind == "nan":
        v = r.normal(size=shape)
        v[r.random(shape) < 0.1] = np.nan
    elif kind == "inf":
        v = r.normal(size=shape)
        v[r.random(shape) < 0.1] = np.inf
        v[r.random(shape) < 0.1] = -np.inf
    elif kind == "big":
        v = r.normal(size=shape) * 1e308
    elif kind == "const":
        v = np.ones(shape)
    else:
        v = r.normal(size=shape)
    dt = a.get("dtype")
    if dt:
        with np.errstate(all="ignore"):
            v = np.nan_to_num(v).astype(dt) if "i" in dt or "u" in dt or dt == "?" else v.astype(dt)
    lay = a.get("layout")
    if lay == "F":
        v = np.asfortranarray(v)
    elif lay == "strided" and v.ndim == 2:
        w = np.zeros((v.shape[0] * 2, v.shape[1] * 2), v.dtype)
        w[::2, ::2] = v
        v = w[::2, ::2]
    elif lay == "reversed":
        v = v[::-1].copy()[::-1]
    elif lay == "readonly":
        v.flags.writeable = False
    return v
