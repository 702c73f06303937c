"""What is found depends on the surroundings only, not on the rest of the domain."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from scenes import likely, over_ocean, scene, scene_xyz, sla
from sut import GAUSS, SCALARS, dataset, detect, gauss2d, inside, path_key

PROPERTY = "C09"
BUDGET = 40
RULE = ("Fields of 1 to 3 Gaussians, once as they are and once as part of a domain that is 1 to 25 points larger on any side, "
        "with other eddies, noise or missing values outside of the original domain, or cropped. The eddies "
        "away from the seam must be the same bit by bit. outside: the field of C01 with the values outside of the contour of an eddy "
        "(and of the cells that it crosses) replaced by missing values, noise, constants or strong eddies. Non-trivial: at least one eddy compared and something else outside.")
ASSUMPTIONS = ["surroundings: the bounding box of the contour enlarged by half its largest side, at least 3 points, "
               "plus 2 points (the documented window of the Gaussian fit)",
               "the steps of the grid are exact in binary, so that the coordinates do not change"]


def cases():
    pad = st.one_of(st.just(0), st.integers(1, 25))
    return st.fixed_dictionaries(dict(
        scene=likely(), f=fx(0.2, 0.8), pads=st.tuples(pad, pad, pad, pad), outside=st.sampled_from(["zero", "eddies", "noise", "nan", "level"]),
        oseed=st.integers(0, 10 ** 6), crit=st.sampled_from([{}, {"ellipse_fit": 1.0}]), skip=st.booleans()))


def check(c, rec):
    sc = dict(c["scene"], dx=0.25, dy=0.25 if c["scene"]["dy"] > 0 else -0.25)
    sc["lon0"] = round(sc["lon0"] * 8) / 8
    sc["lat0"] = round(sc["lat0"] * 8) / 8
    x, y, z = scene_xyz(sc)
    level = c["f"] * sc["unit"] * (1 if (sc["peaks"][0][0] > 0 if sc["peaks"] else c["oseed"] % 2) else -1)
    w, e_, s_, n_ = c["pads"]
    ny, nx = z.shape
    X = x[0] + sc["dx"] * (np.arange(nx + w + e_) - w)
    Y = y[0] + sc["dy"] * (np.arange(ny + s_ + n_) - s_)
    r = np.random.default_rng(c["oseed"])
    Z = np.zeros((len(Y), len(X)))
    I, J = np.meshgrid(np.arange(len(X)), np.arange(len(Y)))
    if c["outside"] == "eddies":
        for _ in range(2):
            Z += gauss2d(I, J, r.choice([-1, 1]) * r.uniform(0.5, 3), len(X) * r.random(), len(Y) * r.random(),
                         r.uniform(2, 5), r.uniform(2, 5), 0)
    elif c["outside"] == "noise":
        Z = 0.12 * r.normal(size=Z.shape)
    elif c["outside"] == "nan":
        Z[:] = np.nan
    elif c["outside"] == "level":
        Z[:] = c["f"]
    Z = Z * sc["unit"]
    if sc.get("real") and c["outside"] == "zero":
        # the rest of the ocean
        j, i, top, fill = sc["real"]
        B = np.pad(sla(), 30, constant_values=np.nan)
        Z = B[30 + j - s_:30 + j + ny + n_, 30 + i - w:30 + i + nx + e_] / top * sc["unit"]
    Z[s_:s_ + ny, w:w + nx] = z
    a, da = detect(dataset(x, y, [z]), level, criteria=c["crit"], skip=c["skip"])
    b, db = detect(dataset(X, Y, [Z]), level, criteria=c["crit"], skip=c["skip"])
    kb = {path_key(q["path"]): q for q in b}
    rec.event(c["outside"], "skip" if c["skip"] else "fit")
    n = 0
    seen = set()
    for p in a:
        k = path_key(p["path"])
        fi = (p["path"][:, 0] - x[0]) / sc["dx"]
        fj = (p["path"][:, 1] - y[0]) / sc["dy"]
        m = max(3, int(0.5 * max(np.ptp(fi), np.ptp(fj)) + 1)) + 2
        # room on every side that is padded
        if ((w and fi.min() < m) or (e_ and fi.max() > nx - 1 - m) or (s_ and fj.min() < m)
                or (n_ and fj.max() > ny - 1 - m)):
            rec.event("near the seam")
            continue
        q = kb.get(k)
        need(q is not None, "the eddy at (%r, %r) is lost in the larger domain, discarded there: %s", p["maxima_x"],
             p["maxima_y"], [str(v) for v in db.reason])
        n += 1
        seen.add(k)
        for s in SCALARS + GAUSS:
            if s in p:
                need(s in q and (p[s] == q[s] or (np.isnan(p[s]) and np.isnan(q[s]))),
                     "%s is %r, in the larger domain %r", s, p[s], q.get(s))
        need((p["path"] == q["path"]).all(), "the contour changes")
    rec.nontrivial(n and any(c["pads"]) and (c["outside"] != "zero" or sc.get("real")))
    rec.event(*["compared"] * n)
    # nothing new well inside of the original domain
    for k, q in kb.items():
        fi = (q["path"][:, 0] - x[0]) / sc["dx"]
        fj = (q["path"][:, 1] - y[0]) / sc["dy"]
        m = max(3, int(0.5 * max(np.ptp(fi), np.ptp(fj)) + 1)) + 2
        if fi.min() > m and fi.max() < nx - 1 - m and fj.min() > m and fj.max() < ny - 1 - m:
            need(k in {path_key(p["path"]) for p in a}, "a new eddy at (%r, %r) in the larger domain, discarded before: %s",
                 q["maxima_x"], q["maxima_y"], [str(v) for v in da.reason])


def around():
    return st.fixed_dictionaries(dict(
        scene=st.one_of(likely(), scene(nan=False)), f=fx(0.15, 0.8), pick=st.integers(0, 5),
        how=st.sampled_from(["nan", "noise", "high", "low", "eddy", "zero"]), where=st.sampled_from(["all", "all", "side", "points"]),
        oseed=st.integers(0, 10 ** 6), crit=st.sampled_from([{}, {"ellipse_fit": 1.0}, {"ellipse_fit": 1.0, "gaussian_fit": 0.0}]), skip=st.booleans()))


def touched(p, x, y):
    """Grid points inside of a contour or at the corners of cells that it crosses."""
    X, Y = np.meshgrid(x, y)
    near = inside(p, X.ravel(), Y.ravel()).reshape(X.shape)
    dx, dy = abs(x[1] - x[0]), abs(y[1] - y[0])
    for u, v in p:
        ii = np.where(np.abs(x - u) < dx * (1 + 1e-6))[0]
        jj = np.where(np.abs(y - v) < dy * (1 + 1e-6))[0]
        near[np.ix_(jj, ii)] = True
    return near


def check_around(c, rec):
    sc = c["scene"]
    x, y, z = scene_xyz(sc)
    level = c["f"] * sc["unit"] * (1 if not sc["peaks"] or sc["peaks"][0][0] > 0 else -1)
    a, _ = detect(dataset(x, y, [z]), level, criteria=c["crit"], skip=c["skip"])
    rec.event("%d eddies" % min(len(a), 3))
    if not a:
        return
    p = a[c["pick"] % len(a)]
    free = ~touched(p["path"], x, y)
    r = np.random.default_rng(c["oseed"])
    I, J = np.meshgrid(np.arange(len(x)), np.arange(len(y)))
    if c["where"] == "side":
        t = r.uniform(0, 2 * np.pi)
        ci = (p["contour_x"] - x[0]) / (x[1] - x[0])
        cj = (p["contour_y"] - y[0]) / (y[1] - y[0])
        free &= (I - ci) * np.cos(t) + (J - cj) * np.sin(t) > 0
    elif c["where"] == "points":
        free &= r.random(free.shape) < 0.2
    top = max(np.abs(z).max(), abs(level))
    k = r.choice([1, 30, 1000])
    other = {"nan": np.full(z.shape, np.nan), "noise": k * top * r.normal(size=z.shape), "high": np.full(z.shape, k * top),
             "low": np.full(z.shape, -k * top), "zero": np.zeros(z.shape),
             "eddy": z - k * np.sign(level) * gauss2d(I, J, top, len(x) * r.random(), len(y) * r.random(), 3, 3, 0)}[c["how"]]
    Z = np.where(free, other, z)
    b, d = detect(dataset(x, y, [Z]), level, criteria=c["crit"], skip=c["skip"])
    rec.nontrivial(free.any())
    rec.event(c["how"], "skip" if c["skip"] else "fit")
    q = {path_key(q["path"]): q for q in b}.get(path_key(p["path"]))
    need(q is not None, "the eddy at (%r, %r) is lost if the field outside of its contour is changed, discarded then: %s",
         p["maxima_x"], p["maxima_y"], [str(v) for v in d.reason])
    need((p["path"] == q["path"]).all(), "the contour changes")
    for s in SCALARS + GAUSS:
        if s in p:
            need(s in q and (p[s] == q[s] or (np.isnan(p[s]) and np.isnan(q[s]))),
                 "%s is %r, with another field outside of the contour %r", s, p[s], q.get(s))


TESTS = [Test("padding", cases, check, 1500, 100000, weight=1), Test("outside", around, check_around, 1500, 100000, weight=1),
         Test("ocean padding", over_ocean(cases), check, 500, 30000, weight=0.7),
         Test("ocean outside", over_ocean(around, nan=False), check_around, 400, 30000, weight=0.5)]
