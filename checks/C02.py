"""Isolated Gaussian eddies are found where they are, with the size they have."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx, logx, sign
from sut import GAUSS, area_ref, axes, dataset, detect, ellipse_points, field, rossby_ref

PROPERTY = "C02"
BUDGET = 40
RULE = ("one: a Gaussian of either sign, amplitude 1e-3 to 1e3, axis ratio 0.6 to 1, any tilt and place, on a grid where "
        "the smaller semi axis of the contour has 3 to 10 steps; the level 0.12 to 0.85 of the amplitude. many: 2 to 6 of "
        "them far from each other, of both signs. Non-trivial: tilted and not round (one), both signs (many).")
ASSUMPTIONS = ["the domain where a Gaussian is resolved was calibrated (DESIGN.md): smaller semi axis at least 3 steps",
               "ellipse_fit = 1, so that the similarity criterion (known finding of C08) does not discard",
               "max_area large, except where the limit itself is varied"]
CRIT = {"ellipse_fit": 1.0, "max_area": 1e4, "eccentricity": 0.9}


def wrap(t):
    return (t + math.pi / 2) % math.pi - math.pi / 2


def one():
    return st.fixed_dictionaries(dict(
        A=st.tuples(sign(), logx(1e-3, 1e3)).map(lambda t: t[0] * t[1]), f=fx(0.12, 0.85), b=fx(3, 8, 0.01),
        q=fx(0.6, 1), th=fx(-1.57, 1.57), ox=fx(-0.5, 0.5), oy=fx(-0.5, 0.5), d=st.sampled_from([0.05, 0.1, 0.25, 0.125, 0.5, 1.0]),
        lon=st.one_of(fx(-180, 360, 0.1), st.sampled_from([0.0, 180.0])), lat=st.one_of(fx(-60, 60, 0.1), st.just(0.0)),
        extra=st.integers(0, 12), skip=st.booleans()))


def shape(f, b, q):
    """deviations (steps) of a Gaussian whose contour at fraction f has the smaller semi axis b."""
    s = math.sqrt(2 * math.log(1 / f))
    return b / q / s, b / s


def judge(r, A, cx, cy, d, f, b, q, th, skip, tail=0):
    lvl = f * A
    need(r["eddy_sign"] == np.sign(A), "sign %r of a Gaussian of amplitude %r", r["eddy_sign"], A)
    need(abs(r["maxima_x"] - cx) <= 0.75 * d and abs(r["maxima_y"] - cy) <= 0.75 * d,
         "extremum at (%r, %r), centre of the Gaussian (%r, %r), step %r", r["maxima_x"], r["maxima_y"], cx, cy, d)
    need(abs(r["maxima"]) <= abs(A) * (1 + 1e-9) + 6 * tail and r["maxima"] / A > 0.9 * max(f, 0.75),
         "extremum %r of a Gaussian of amplitude %r", r["maxima"], A)
    need(abs(r["contour_x"] - cx) <= d and abs(r["contour_y"] - cy) <= d,
         "centre (%r, %r), of the Gaussian (%r, %r), step %r", r["contour_x"], r["contour_y"], cx, cy, d)
    a = b / q
    for k, v in (("ellipse_params_a", a * d), ("ellipse_params_b", b * d)):
        need(abs(r[k] / v - 1) < 0.08, "%s %r, semi axis of the contour %r", k, r[k], v)
    ref = area_ref(ellipse_points((cx, cy), a * d, b * d, th))
    need(abs(r["area_eddy"] / ref - 1) < 0.1, "area %r km2, of the ellipse %r", r["area_eddy"], ref)
    ecc = math.sqrt(1 - q * q)
    need(abs(r["ellipse_eccen"] - ecc) < (0.1 if q < 0.9 else 0.5), "eccentricity %r, expected %r", r["ellipse_eccen"], ecc)
    if q <= 0.85:
        need(abs(wrap(r["ellipse_params_theta"] - th)) < 0.12, "orientation %r, expected %r", r["ellipse_params_theta"], th)
    if not skip:
        sx, sy = shape(f, b, q)
        lo, hi = (0.9, 1.1) if f <= 0.75 else (0.7, 1.15)
        g = [r[k] for k in GAUSS]
        need(lo < g[2] / (sx * d) < hi and lo < g[3] / (sy * d) < hi, "deviations %r %r, expected %r %r",
             g[2], g[3], sx * d, sy * d)
        need(abs(g[0] - cx) <= 0.75 * d and abs(g[1] - cy) <= 0.75 * d, "Gaussian at (%r, %r), expected (%r, %r)",
             g[0], g[1], cx, cy)
        if q <= 0.85:
            need(abs(wrap(g[4] - th)) < 0.15, "orientation %r of the Gaussian, expected %r", g[4], th)
        need(r["contour_gaussian_error"] >= 0.8, "contour_gaussian_error %r", r["contour_gaussian_error"])


def check_one(c, rec):
    A, f, b, q, th, d = (c[k] for k in ("A", "f", "b", "q", "th", "d"))
    sx, sy = shape(f, b, q)
    if d >= 0.5:      # away from the poles
        c = dict(c, lat=c["lat"] * 0.5)
    half = int(math.ceil(b / q * 1.6 + 4 + c["extra"]))
    n = 2 * half + 1
    x, y = axes(c["lon"] - half * d, c["lat"] - half * d, d, d, n, n)
    cx, cy = c["lon"] + c["ox"] * d, c["lat"] + c["oy"] * d
    ds = dataset(x, y, [field(x, y, [(A, cx, cy, sx * d, sy * d, th)])])
    rec.nontrivial(q < 0.95 and 0.05 < abs(th) < 1.52)
    rec.event("f%.1f" % f, "skip" if c["skip"] else "fit", "negative" if A < 0 else "positive")
    e, dd = detect(ds, f * A, criteria=CRIT, skip=c["skip"])
    need(len(e) == 1, "%d eddies, discarded: %s", len(e), [str(v) for v in dd.reason])
    judge(e[0], A, cx, cy, d, f, b, q, th, c["skip"])
    if c["extra"] % 3 == 0:
        for l in (1.01 * A, -f * A):
            e, dd = detect(ds, l, criteria=CRIT, skip=c["skip"])
            need(len(e) == 0, "%d eddies at %r in a field from 0 to %r", len(e), l, A)


def many():
    eddy = st.fixed_dictionaries(dict(A=st.tuples(sign(), fx(0.7, 1.4)).map(lambda t: t[0] * t[1]), b=fx(3.2, 4.5, 0.01),
                                      q=fx(0.65, 1), th=fx(-1.57, 1.57), ox=fx(-0.5, 0.5), oy=fx(-0.5, 0.5)))
    return st.fixed_dictionaries(dict(
        eddies=st.lists(eddy, min_size=2, max_size=6), cols=st.integers(1, 3), level=fx(0.25, 0.5),
        d=st.sampled_from([0.1, 0.25]), lon=fx(-180, 340, 0.1), lat=fx(-50, 35, 0.1), unit=st.sampled_from([1, 0.01, 100.0])))


def check_many(c, rec):
    d, cell = c["d"], 26
    es, cols = c["eddies"], min(c["cols"], len(c["eddies"]))
    rows = -(-len(es) // cols)
    x, y = axes(c["lon"], c["lat"], d, d, cell * cols, cell * rows)
    peaks = []
    for k, e in enumerate(es):
        f = c["level"] / abs(e["A"])
        sx, sy = shape(f, e["b"], e["q"])
        cx = c["lon"] + (cell * (k % cols) + cell / 2 + e["ox"]) * d
        cy = c["lat"] + (cell * (k // cols) + cell / 2 + e["oy"]) * d
        peaks.append((e["A"], cx, cy, sx * d, sy * d, e["th"]))
    u = c["unit"]
    # the tail of a neighbour, 26 steps away
    tail = max(abs(p[0]) * math.exp(-0.5 * (20 * d / p[3]) ** 2) for p in peaks)
    if tail > 0.002:
        rec.event("neighbours too close")
        return
    ds = dataset(x, y, [field(x, y, [(p[0] * u,) + p[1:] for p in peaks])])
    rec.nontrivial(len({np.sign(p[0]) for p in peaks}) == 2)
    for s in (1, -1):
        want = [(p, e) for p, e in zip(peaks, es) if np.sign(p[0]) == s]
        e, dd = detect(ds, s * c["level"] * u, criteria=CRIT)
        need(len(e) == len(want), "%d eddies at level %r, %d Gaussians, discarded: %s", len(e), s * c["level"] * u,
             len(want), [str(v) for v in dd.reason])
        for p, q in want:
            r = min(e, key=lambda r: math.hypot(r["maxima_x"] - p[1], r["maxima_y"] - p[2]))
            judge(r, p[0] * u, p[1], p[2], d, c["level"] / abs(p[0]), q["b"], q["q"], p[5], False, tail * u)


TESTS = [Test("one", one, check_one, 4000, 150000, 2), Test("many", many, check_many, 700, 30000, 1)]
