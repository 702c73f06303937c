"""Ellipse fit and eccentricity."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx, logx
from sut import conic_fit

PROPERTY = "C15"
BUDGET = 30
RULE = ("Points on (or within 12% of) an ellipse: centre within +-400, semi-axes 0.01 to 20, axis "
        "ratio 0.3 to 1, any tilt including 0, 45 and 90 degrees, 8 to 300 unevenly spaced points, "
        "any start, either direction, closed as a contour. lattice: points with rational coordinates on circles and upright ellipses. Non-trivial: axis ratio below 0.95 and "
        "tilt more than 2 degrees off the axes.")
ASSUMPTIONS = ["reference for noisy points: least squares conic by numpy.linalg.lstsq in scaled "
               "coordinates, only where it is an ellipse and well conditioned",
               "tolerance 1e-3 of the axes where the cross term is below the documented orientation "
               "tolerance (1e-3), 1e-5 elsewhere"]


def ang(a, b):
    """Difference of two directions of an axis."""
    return abs((a - b + math.pi / 2) % math.pi - math.pi / 2)


def points(c):
    n = c["n"]
    t = np.linspace(0, 2 * np.pi, n + 1)[:-1]
    t = t + c["uneven"] * np.sin(t + c["t0"]) + c["t0"]
    if c["rev"]:
        t = -t
    u, v = c["a"] * np.cos(t), c["a"] * c["q"] * np.sin(t)
    w = 1 + c["noise"] * np.cos(c["k"] * t + c["ph"])
    cs, sn = math.cos(c["th"]), math.sin(c["th"])
    p = np.column_stack([c["x"] + (cs * u - sn * v) * w, c["y"] + (sn * u + cs * v) * w])
    return np.vstack([p, p[:1]]) if c["closed"] else p


def ellipses(noise):
    th = st.one_of(fx(-3.142, 3.142), fx(-3.142, 3.142), fx(-0.01, 0.01, 0.0001),
                   st.sampled_from([0, math.pi / 2, math.pi / 4, -math.pi / 4, math.pi, -math.pi / 2]))
    return st.fixed_dictionaries(dict(
        n=st.integers(8, 300), a=logx(0.01, 20), q=st.one_of(fx(0.3, 1), fx(0.3, 0.94)), th=th,
        x=fx(-400, 400), y=fx(-90, 90), t0=fx(0, 6.28), uneven=fx(0, 0.6), rev=st.booleans(),
        closed=st.sampled_from([True, True, False]),
        noise=fx(0.005, 0.12) if noise else st.just(0.0), k=st.integers(3, 8), ph=fx(0, 6.28)))


def fit(p):
    from trackeddy.geometry import fit_ellipse
    curve, par = fit_ellipse(p[:, 0], p[:, 1])
    need(np.shape(par) == (3,), "parameters %r", par)
    need(np.shape(curve) == p.shape, "ellipse of shape %s for %s points", np.shape(curve), p.shape)
    need(np.isfinite(par).all() and np.isfinite(curve).all(), "not finite: %r", par)
    return np.asarray(curve), [float(v) for v in par]


def judge(c, p, centre, a, b, th, tol, rec):
    curve, (A, B, T) = fit(p)
    scale = max(abs(p).max() / b, 1)  # cancellation of coordinates far from 0
    # the documented orientation tolerance: a relative cross term below 1e-3
    untilted = abs(math.sin(2 * th)) * (1 - (b / a) ** 2) < 2.5e-3
    t = max(tol, 2.5e-3 if untilted else 0, 1e-13 * scale ** 2)
    need(A >= B > 0, "semi-axes are not ordered: %r %r", A, B)
    need(abs(A / a - 1) <= t, "semi-major axis %.9g, expected %.9g (tolerance %.2g)", A, a, t)
    need(abs(B / b - 1) <= t, "semi-minor axis %.9g, expected %.9g (tolerance %.2g)", B, b, t)
    aniso = 1 - b / a
    if aniso > 0.02 and not untilted:
        need(ang(T, th) <= max(50 * t, 1e-4) / aniso, "orientation %.7g, expected %.7g", T, th)
    elif aniso > 0.05:
        need(ang(T, th) <= 0.05, "orientation %.7g, expected %.7g", T, th)
    # the curve is that ellipse, closed, and goes once around it
    d = curve - centre
    cs, sn = math.cos(th), math.sin(th)
    u, v = (cs * d[:, 0] + sn * d[:, 1]) / a, (-sn * d[:, 0] + cs * d[:, 1]) / b
    off = np.abs(u * u + v * v - 1).max()
    tc = max(3 * t * a / b, 1e-6, 1e-12 * scale ** 2)
    need(off <= max(tc, 0.01 if untilted else 0), "ellipse curve is off the ellipse by %.3g", off)
    need(np.allclose(curve[0], curve[-1], rtol=1e-9, atol=1e-9), "ellipse curve is not closed")
    turn = np.diff(np.unwrap(np.arctan2(v, u)))
    need(abs(abs(turn.sum()) - 2 * np.pi) < 1e-6 * scale + 0.02, "the curve turns %.5g", turn.sum())
    need((np.sign(turn) == np.sign(turn.sum())).all(), "the curve goes back and forth")


def check_exact(c, rec):
    p = points(c)
    th = c["th"]
    rec.nontrivial(c["q"] < 0.95 and min(ang(th, 0), ang(th, math.pi / 2)) > 0.035)
    rec.event("closed" if c["closed"] else "open", "circle" if c["q"] > 0.98 else "ellipse")
    judge(c, p, np.array([c["x"], c["y"]]), c["a"], c["a"] * c["q"], th, 1e-6, rec)


def lattice():
    return st.fixed_dictionaries(dict(
        r=st.sampled_from([5, 25, 65, 85, 325]), kx=st.sampled_from([1, 1, 2, 3, 4]), ky=st.sampled_from([1, 1, 2, 3]), unit=st.sampled_from([1, 0.5, 2 ** -8, 4]), exact=st.booleans(),
        x=st.integers(-300, 300), y=st.integers(-80, 80), start=st.integers(0, 40), rev=st.booleans(), closed=st.booleans(),
        drop=st.one_of(st.just(0), st.integers(2, 3))))


def check_lattice(c, rec):
    """Points with integer coordinates on circles and upright ellipses: the fit meets exact zeros and ties."""
    r = c["r"]
    if c["exact"]:      # integers, so that the sums cancel exactly
        c = dict(c, unit=r * 2.0 ** -4)
    pts = [(i, j) for i in range(-r, r + 1) for j in range(-r, r + 1) if i * i + j * j == r * r]
    pts.sort(key=lambda p: math.atan2(p[1], p[0]))
    k = c["start"] % len(pts)
    pts = pts[k:] + pts[:k]
    if c["drop"] and len(pts) // c["drop"] >= 8:
        pts = pts[::c["drop"]]
    p = np.array(pts[::-1] if c["rev"] else pts, float) * [c["kx"], c["ky"]] * (c["unit"] / r) + [c["x"], c["y"]]
    if c["closed"]:
        p = np.vstack([p, p[:1]])
    a, b = c["kx"] * c["unit"], c["ky"] * c["unit"]
    th = 0.0
    if b > a:
        a, b, th = b, a, math.pi / 2
    if b / a < 0.3:
        rec.event("too flat")
        return
    rec.nontrivial(a != b)
    rec.event("circle" if a == b else "upright" if th else "flat")
    judge(c, p, np.array([c["x"], c["y"]], float), a, b, th, 1e-6, rec)


def check_noisy(c, rec):
    p = points(c)
    ref = conic_fit(p)
    if ref is None or ref["cond"] > 1e4 or ref["b"] / ref["a"] < 0.15:
        rec.event("reference is not a good ellipse")
        return
    rec.event("judged")
    rec.nontrivial(ref["b"] / ref["a"] < 0.95)
    judge(c, p, ref["centre"], ref["a"], ref["b"], ref["theta"], 1e-6 * ref["cond"], rec)


def check_ecc(c, rec):
    from trackeddy.geometry import eccentricity
    a, b = c["a"], c["a"] * c["q"]
    e = float(eccentricity(a, b))
    rec.nontrivial(c["q"] < 1)
    need(abs(e - math.sqrt(max(0, 1 - (b / a) ** 2))) < 1e-7, "eccentricity(%r, %r) = %r", a, b, e)
    need(0 <= e < 1, "eccentricity %r out of [0, 1)", e)
    k = c["k"]
    need(abs(float(eccentricity(k * a, k * b)) - e) < 1e-6, "eccentricity depends on the scale")
    if c["q2"] < c["q"] - 1e-9:
        need(float(eccentricity(a, a * c["q2"])) > e, "eccentricity is not monotone")


def eccs():
    return st.fixed_dictionaries(dict(a=logx(1e-4, 1e4), q=fx(0.001, 1), q2=fx(0.001, 1), k=logx(1e-3, 1e3)))


TESTS = [Test("exact", lambda: ellipses(False), check_exact, 16000, 300000, 3),
         Test("noisy", lambda: ellipses(True), check_noisy, 12000, 200000, 3),
         Test("lattice", lattice, check_lattice, 2000, 40000, 0.5),
         Test("eccentricity", eccs, check_ecc, 4000, 50000, 1)]
