"""Areas on the sphere."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx, logx
from sut import area_ref

PROPERTY = "C14"
BUDGET = 30
RULE = ("Star shaped closed polygons (24 to 400 vertices, 0.02 to 15 degrees, harmonic wobble, any "
        "longitude including the 0 and 180 meridians, any latitude below 80). Non-trivial: more "
        "than 12 distinct vertices and wobble or anisotropy, so that it is not a circle.")
ASSUMPTIONS = ["reference: exact line integral of sin(lat) d(lon) along the sides",
               "tolerance 10/n^2 (80/n^2 within 1.5 radii of 0E,0N and 180E,0N), n the number of vertices"]


def poly(c):
    n = c["n"]
    t = np.linspace(0, 2 * np.pi, n + 1)[:-1]
    w = 1 + c["wob"] * np.cos(c["k"] * t + c["ph"])
    x = c["lon"] + c["r"] * w * np.cos(t)
    y = c["lat"] + c["r"] * c["q"] * w * np.sin(t)
    p = np.column_stack([x, y])
    return np.vstack([p, p[:1]])


def polygons():
    base = dict(n=st.integers(24, 400), r=logx(0.02, 15), q=fx(0.4, 1), wob=fx(0, 0.4),
                k=st.integers(1, 4), ph=fx(0, 6.28))
    away = st.fixed_dictionaries(dict(base, lon=fx(-360, 400, 0.01), lat=fx(-60, 60, 0.01)))
    # around the points where the formula is singular, in units of the radius
    near = st.fixed_dictionaries(dict(base, pole=st.sampled_from([0, 180, -180, 360]),
                                      fx=fx(-2, 2), fy=fx(-2, 2))).map(
        lambda c: dict({k: v for k, v in c.items() if k not in ("pole", "fx", "fy")},
                       lon=round(c["pole"] + c["fx"] * c["r"], 5), lat=round(c["fy"] * c["r"], 5)))
    return st.one_of(away, near).map(lambda c: dict(c, r=min(c["r"], 0.3 * (85 - abs(c["lat"])))))


def tol(c):
    lonw = (c["lon"] + 180) % 360 - 180
    d = min(math.hypot(lonw, c["lat"]), math.hypot(c["lon"] % 360 - 180, c["lat"]))
    far = d > 1.5 * c["r"] * 1.4 * 1.3
    return (10 if far else 80) / c["n"] ** 2 + 1e-6, far


def sut(p):
    from trackeddy.geometry import area_latlon_polygon
    a = area_latlon_polygon(p)
    need(np.shape(a) == (), "area is not a scalar: %r", a)
    return float(a)


def check_area(c, rec):
    p = poly(c)
    t, far = tol(c)
    ref = area_ref(p)
    a = sut(p)
    rec.event("far" if far else "near_singular_point", "wraps" if c["lon"] > 180 or c["lon"] < -180 else "plain")
    rec.nontrivial(c["wob"] > 0.02 or c["q"] < 0.98)
    need(a > 0, "area %r", a)
    need(abs(a / ref - 1) <= t, "area %.9g km2, reference %.9g km2 (relative %.3g, tolerance %.3g)",
         a, ref, a / ref - 1, t)
    # start vertex, orientation
    s = c["n"] // 3
    q = np.vstack([p[s:-1], p[:s + 1]])
    need(abs(sut(q) / a - 1) < 1e-5, "area depends on the first vertex: %r %r", sut(q), a)
    need(abs(sut(p[::-1]) / a - 1) < 1e-5, "area depends on the orientation")
    # mirror images (a side through the singular point may fall on either side of it)
    m = 1e-4 if far else 2 * t
    need(abs(sut(p * [1, -1]) / a - 1) < m, "area differs in the other hemisphere")
    need(abs(sut(p * [-1, 1]) / a - 1) < m, "area differs for mirrored longitudes")
    # a whole turn in longitude
    need(abs(sut(p + [360, 0]) / a - 1) < m, "area differs 360 degrees away")


def check_split(c, rec):
    """A chord splits a polygon into two that add up to it."""
    p = poly(c)
    n = c["n"]
    i, j = 0, n // 2
    m = max(4, n // 3)
    chord = np.column_stack([np.linspace(p[i, 0], p[j, 0], m), np.linspace(p[i, 1], p[j, 1], m)])
    A = np.vstack([p[i:j + 1], chord[::-1][1:]])
    B = np.vstack([p[j:n + 1], chord[1:]])
    t, far = tol(dict(c, r=c["r"] * 1.3, n=m))
    rec.event("far" if far else "near")
    rec.nontrivial(c["wob"] > 0.02 or c["q"] < 0.98)
    a, b, ab = sut(A), sut(B), sut(p)
    need(abs((a + b) / ab - 1) <= 3 * t, "parts %r + %r, whole %r", a, b, ab)


TESTS = [Test("area", polygons, check_area, 24000, 600000, 2),
         Test("split", polygons, check_split, 8000, 200000, 1)]
