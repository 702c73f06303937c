"""Generated grids and values for the contour tracer."""
import numpy as np
from hypothesis import strategies as st

from gen import fx


def grid_case(max_n=24, two=False):
    @st.composite
    def strat(draw):
        nx, ny = draw(st.integers(2, max_n)), draw(st.integers(2, max_n))
        kind = draw(st.sampled_from(["ints", "ints", "bits", "noise", "bumps", "checker", "steps", "plateau"]))
        c = {"nx": nx, "ny": ny, "kind": kind, "seed": draw(st.integers(0, 2 ** 31)),
             "amp": draw(st.sampled_from([0, 0, 0, 0, -12, -3, 3, 12])),
             "x0": draw(fx(-360, 360, 0.5)), "y0": draw(fx(-90, 90, 0.5)),
             "dx": draw(st.sampled_from([1, 0.25, 0.1, 10, 0.001, 1000, -0.5])),
             "dy": draw(st.sampled_from([1, 0.25, 0.1, 10, 0.001, 1000, -0.5])),
             "warp": draw(st.sampled_from(["no", "no", "stretch", "shear", "rotate"])),
             "k": draw(st.integers(-30, 30)),
             "at": draw(st.one_of(st.sampled_from(["value", "half", "quarter"]), fx(-0.1, 1.1)))}
        if nx * ny <= 30 and draw(st.booleans()):
            c["kind"] = "list"
            c["values"] = draw(st.lists(st.integers(0, 3), min_size=nx * ny, max_size=nx * ny))
        if two:
            c["at2"] = draw(fx(0.001, 0.9))
            c["nchunk"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8, 30]))
        X, Y, z = grid_xyz(c)
        lo, hi = float(z.min()), float(z.max())
        s = 10.0 ** c["amp"]
        at = c["at"]
        if at == "value":
            level = float(np.sort(z.ravel())[c["seed"] % z.size])
        elif at == "half":
            level = float(np.floor(z.ravel()[c["seed"] % z.size] / s) + 0.5) * s
        elif at == "quarter":
            level = float(np.floor(z.ravel()[c["seed"] % z.size] / s) + 0.25) * s
        else:
            level = lo + at * (hi - lo)
        c["level"] = level
        if two:
            c["level1"] = level + (c["at2"] * ((hi - lo) or s) if c["seed"] % 3 else s)
        return c
    return strat()


def grid_xyz(c):
    nx, ny, kind = c["nx"], c["ny"], c["kind"]
    r = np.random.default_rng(c["seed"])
    i, j = np.meshgrid(np.arange(nx), np.arange(ny))
    if kind == "list":
        z = np.array(c["values"], float).reshape(ny, nx)
    elif kind == "ints":
        z = r.integers(-2, 4, (ny, nx)).astype(float)
    elif kind == "bits":
        z = r.integers(0, 2, (ny, nx)).astype(float)
    elif kind == "checker":
        z = ((i + j) % 2) * 2.0 - 1 + 0.3 * r.normal(size=(ny, nx))
    elif kind == "steps":
        z = np.round(np.hypot(i - nx * r.random(), j - ny * r.random()) * r.uniform(0.3, 1.5))
    elif kind == "plateau":
        z = np.clip(r.integers(-4, 6, (ny, nx)), 0, 2).astype(float)
    elif kind == "noise":
        z = r.normal(size=(ny, nx))
    else:
        z = np.zeros((ny, nx))
        for _ in range(r.integers(1, 6)):
            z += r.choice([-1, 1]) * np.exp(-((i - nx * r.random()) ** 2 + (j - ny * r.random()) ** 2)
                                            / (2 * r.uniform(1, 5) ** 2))
    z = z * 10.0 ** c["amp"]
    u, v = i.astype(float), j.astype(float)
    if c["warp"] == "stretch":
        u, v = u ** 1.3, v + 0.02 * v ** 2
    elif c["warp"] == "shear":
        u = u + 0.4 * v
    elif c["warp"] == "rotate":
        u, v = 0.8 * u - 0.6 * v, 0.6 * u + 0.8 * v
    return c["x0"] + c["dx"] * u, c["y0"] + c["dy"] * v, z
