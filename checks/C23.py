"""Generated fields are the sum of the eddies that the generator says they have."""
import itertools
import math
import random

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx, logx
from sut import gauss2d

PROPERTY = "C23"
BUDGET = 30
RULE = ("fields: 0 to 5 eddies of any size and shape on square and other grids, any coordinates, steps and margin, fixed, not "
        "interacting and interacting ones, any seed. kernels: single and moving Gaussians. walks: random walks of any step. "
        "Non-trivial: at least one eddy (kernels, walks: every case).")
ASSUMPTIONS = ["not interacting eddies: the placement ends only if there is enough space, so the grid is at least 8 separations long",
               "the angle of a generated eddy is clockwise, as in the generator's formula"]


def fields():
    @st.composite
    def strat(draw):
        opt = draw(st.sampled_from(["", "Nint", "Nint", "no_interaction", "int", "interaction"]))
        far = opt in ("Nint", "no_interaction")
        nx, ny = draw(st.integers(2, 40)), draw(st.integers(2, 40))
        d = draw(st.sampled_from([1.0, 0.1, 0.25, 0.013, 3.0]))
        d2 = d * draw(st.sampled_from([1, 1, 0.5, 2]))
        c = {"opt": opt, "n": draw(st.integers(0, 5)), "nx": nx, "ny": ny, "dx": d, "dy": d2, "x0": draw(fx(-180, 180, 0.5)),
             "y0": draw(fx(-60, 60, 0.5)), "N": draw(st.integers(1, 4)), "margin": draw(st.sampled_from([0, 0, 1, 5, 13])), "seed": draw(st.integers(0, 10 ** 9))}
        span = min(nx * d, ny * d2)
        if far:
            # room for every eddy, also with the largest axes and the margin's shorter steps
            c["n"] = min(c["n"], 4)
            top = span / (5 * 1.1) / 4 * min(nx, ny) / (min(nx, ny) + 2 * c["margin"])
        else:
            top = span
        c["a"] = round(top * draw(fx(0.05, 1)), 6)
        c["b"] = round(top * draw(fx(0.05, 1)), 6)
        if far and min(nx, ny) < 12:
            c["n"] = min(c["n"], 1)
        return c
    return strat()


def crowded():
    @st.composite
    def strat(draw):
        c = draw(fields())
        c.update(opt=draw(st.sampled_from(["Nint", "no_interaction"])), n=draw(st.integers(1, 3)), room=False, N=1,
                 nx=draw(st.integers(2, 6)), ny=draw(st.integers(2, 6)), margin=draw(st.sampled_from([0, 0, 2])))
        span = max(c["nx"] * c["dx"], c["ny"] * c["dy"])
        c["a"], c["b"] = [round(span * draw(fx(0.1, 1)), 6) for _ in "ab"]
        return c
    return strat()


def total(g, eddies, X, Y, xs, ys, m):
    z = np.zeros(X.shape)
    for e in eddies.values():
        i, j = e["loc"][0]
        z += gauss2d(X, Y, e["amp"], xs[i + m], ys[j + m], e["radius"][0], e["radius"][1], -e["angle"])
    return z


def places(z, eddies, X, Y, xs, ys, m, tol):
    """Grid points (i, j) at which the given one or two eddies add up to the field, or None."""
    E = list(eddies.values())

    def at(e, i, j):
        return gauss2d(X, Y, e["amp"], xs[i], ys[j], *e["radius"], -e["angle"])

    def peak(e, w):
        j, i = np.unravel_index(np.argmax(np.sign(e["amp"]) * w), w.shape)
        ok = m <= i < len(xs) - m and m <= j < len(ys) - m
        return (i, j) if ok and np.allclose(w, at(e, i, j), rtol=0, atol=tol) else None
    if len(E) == 1:
        p = peak(E[0], z)
        return p and [p]
    for i in range(m, len(xs) - m):
        for j in range(m, len(ys) - m):
            p = peak(E[1], z - at(E[0], i, j))
            if p:
                return [(i, j), p]
    return None


def check_fields(c, rec):
    from trackeddy.generator.field_generator import Generate_field
    x = c["x0"] + c["dx"] * np.arange(c["nx"])
    y = c["y0"] + c["dy"] * np.arange(c["ny"])
    x_, y_ = x.copy(), y.copy()
    m, N, n = c["margin"], c["N"], c["n"]
    state = random.getstate()
    try:
        random.seed(c["seed"])
        g = Generate_field(c["a"], c["b"], n, x, y, c["opt"])
        first = {k: dict(v) for k, v in g.eddies.items()}
        data = g.assemble_field(N, margin=m)
        eddies = {k: dict(v) for k, v in g.eddies.items()}
        back = g.reconstruct_field()
        random.seed(c["seed"])
        h = Generate_field(c["a"], c["b"], n, x.copy(), y.copy(), c["opt"])
        data2 = h.assemble_field(N, margin=m)
    finally:
        random.setstate(state)
    rec.nontrivial(n)
    rec.event(c["opt"] or "fixed", "margin" if m else "no margin", "square" if c["nx"] == c["ny"] else "oblong")
    need((x == x_).all() and (y == y_).all(), "the coordinates were modified")
    need(data.shape == (N, c["ny"] + 2 * m, c["nx"] + 2 * m), "shape %s", data.shape)
    need((data == data2).all(), "the same seed gives other fields")
    need(len(eddies) == n, "%d eddies of %d", len(eddies), n)
    for e in eddies.values():
        need(all(0.9 * w - 1e-12 <= r <= 1.1 * w + 1e-12 for w, r in zip((c["a"], c["b"]), e["radius"])), "radius %s of %r %r", e["radius"], c["a"], c["b"])
        need(0.7 <= abs(e["amp"]) <= 1.3 and 0 <= e["angle"] <= 2 * math.pi, "amplitude %r, angle %r", e["amp"], e["angle"])
        i, j = e["loc"][0]
        need(0 <= i < c["nx"] and 0 <= j < c["ny"], "location %s", e["loc"])
    need(len({tuple(e["radius"]) for e in eddies.values()}) <= 1, "eddies of several sizes")
    # the grid with its margin covers the same range
    xs, ys = np.linspace(x[0], x[-1], c["nx"] + 2 * m), np.linspace(y[0], y[-1], c["ny"] + 2 * m)
    X, Y = np.meshgrid(xs, ys)
    tol = 1e-9 * max(1, n)
    steep = max(np.ptp(x), np.ptp(y)) / min([c["a"], c["b"]])
    tol *= max(1, steep ** 2 * 1e-3 * (1 + np.abs(x).max() + np.abs(y).max()))
    if c["opt"] == "":
        for t in range(N):
            need(np.allclose(data[t], total(g, first, X, Y, xs, ys, m), rtol=0, atol=tol), "field %d is not the sum of its eddies", t)
        need({k: (v["loc"], v["angle"], v["amp"]) for k, v in eddies.items()} == {k: (v["loc"], v["angle"], v["amp"]) for k, v in first.items()}, "fixed eddies moved")
    elif c["opt"] in ("Nint", "no_interaction"):
        need(np.allclose(data[-1], total(g, eddies, X, Y, xs, ys, m), rtol=0, atol=tol), "the last field is not the sum of its eddies")
        sep = 5 * max(eddies["eddy_n0"]["radius"]) if n else 0
        for p, q in itertools.combinations(eddies.values(), 2) if c.get("room", True) else []:
            (i, j), (k, l) = p["loc"][-1], q["loc"][-1]
            d = math.hypot(c["dx"] * (i - k), c["dy"] * (j - l))
            need(d >= sep * (1 - 1e-9), "not interacting eddies at %r, separation %r", d, sep)
    # every field of one or two eddies, wherever these are at that time
    if n in (1, 2) and c["opt"] != "" and (n == 1 or c["nx"] * c["ny"] <= 200):
        rec.event("placed")
        for t in range(N):
            p = places(data[t], eddies, X, Y, xs, ys, m, tol)
            need(p, "field %d is not the sum of its %d eddies, wherever they are", t, n)
            if n == 2 and c["opt"] in ("Nint", "no_interaction") and c.get("room", True):
                (i, j), (k, l) = p
                d = math.hypot(c["dx"] * (i - k), c["dy"] * (j - l)) if m == 0 else np.inf
                need(d >= sep * (1 - 1e-9), "not interacting eddies at %r, separation %r, in field %d", d, sep, t)
    if c["opt"] in ("int", "interaction"):
        for t in range(N):
            if n == 1:
                e = eddies["eddy_n0"]
                j, i = np.unravel_index(np.argmax(np.abs(data[t])), data[t].shape)
                need(m <= i < m + c["nx"] and m <= j < m + c["ny"], "eddy centred at (%d, %d), within the margin %d", i, j, m)
                need(np.allclose(data[t], gauss2d(X, Y, e["amp"], xs[i], ys[j], *e["radius"], -e["angle"]), rtol=0, atol=tol),
                     "field %d is not its eddy", t)
            need(np.abs(data[t]).max(initial=0) <= sum(abs(e["amp"]) for e in eddies.values()) + 1e-12, "larger than all eddies together")
    # on the grid of the field
    need(back.shape == (c["ny"], c["nx"]), "shape %s of the reconstruction", back.shape)
    if c["opt"] not in ("int", "interaction"):
        X0, Y0 = np.meshgrid(x, y)
        need(np.allclose(back, total(g, eddies, X0, Y0, x, y, 0), rtol=0, atol=tol), "the reconstruction is not the sum of the eddies")
        if m == 0:
            need(np.allclose(back, data[-1], rtol=0, atol=tol), "the reconstruction differs from the field")


def kernels():
    return st.fixed_dictionaries(dict(size=st.integers(2, 60), fwhm=logx(0.5, 100), centre=st.booleans(),
                                      path=st.lists(st.tuples(fx(-10, 70, 0.25), fx(-10, 70, 0.25)), min_size=1, max_size=4)))


def check_kernels(c, rec):
    from trackeddy.generator.gaussian_field_functions import makeGaussian, moveGaussian
    n, w = c["size"], c["fwhm"]
    J, I = np.mgrid[0:n, 0:n].astype(float)

    def ref(cx, cy):
        # half of the maximum at half of the width
        return 0.5 ** ((np.hypot(I - cx, J - cy) / (w / 2)) ** 2)
    rec.nontrivial(True)
    cx, cy = c["path"][0]
    z = makeGaussian(n, w, (cx, cy)) if c["centre"] else makeGaussian(n, w)
    if not c["centre"]:
        cx = cy = n // 2
    need(z.shape == (n, n), "shape %s", z.shape)
    need(np.allclose(z, ref(cx, cy), rtol=1e-9, atol=1e-12), "not a Gaussian of width %r at (%r, %r)", w, cx, cy)
    zz = moveGaussian(n, w, np.array(c["path"]), len(c["path"]))
    need(zz.shape == (len(c["path"]), n, n), "shape %s", zz.shape)
    for z, (cx, cy) in zip(zz, c["path"]):
        need(np.allclose(z, ref(cx, cy), rtol=1e-9, atol=1e-12), "not a Gaussian of width %r at (%r, %r)", w, cx, cy)


def walks():
    return st.fixed_dictionaries(dict(i=st.integers(-50, 50), j=st.integers(-50, 50), step=st.integers(0, 9), seed=st.integers(0, 10 ** 6)))


def check_walks(c, rec):
    from trackeddy.generator.field_generator import Generate_field
    state = random.getstate()
    try:
        random.seed(c["seed"])
        g = Generate_field(1.0, 1.0, 1, np.arange(10.0), np.arange(10.0))
        s = c["step"]
        want = {"right": [0, s], "upright": [s, s], "up": [s, 0], "upleft": [s, -s], "left": [0, -s], "downleft": [-s, -s], "down": [-s, 0], "downright": [-s, s]}
        for k, v in want.items():
            need(list(getattr(g, "go_" + k)([c["i"], c["j"]], s)) == v, "one step of %d %s is %s", s, k, getattr(g, "go_" + k)([c["i"], c["j"]], s))
        seen = set()
        for _ in range(12):
            a, b = g.make_random_walk([c["i"], c["j"]], s)
            d = [a - c["i"], b - c["j"]]
            need(d in want.values(), "a random step of %d goes to %s", s, d)
            seen.add(tuple(d))
        need(s == 0 or len(seen) > 1, "12 random steps in one direction")
    finally:
        random.setstate(state)
    rec.nontrivial(True)


TESTS = [Test("fields", fields, check_fields, 12000, 300000, weight=2), Test("crowded", crowded, check_fields, 24, 2000, weight=0.7), Test("kernels", kernels, check_kernels, 4000, 60000, weight=0.5),
         Test("walks", walks, check_walks, 300, 3000, weight=0.2)]
