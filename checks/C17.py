"""Gaussian surface and its fit."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx, logx, sign
from sut import gauss2d

PROPERTY = "C17"
BUDGET = 35
RULE = ("surface: any grid, centre, deviations 0.05 to 10, tilt and amplitude of either sign. fit: a "
        "sampled Gaussian (deviation 2 to 9 grid steps, ratio 0.5 to 1, amplitude 1e-3 to 1e3 of either "
        "sign, centre anywhere in the cell, any coordinates offset), all of it or only its core inside an "
        "ellipse (NaN outside), with a first guess 0.7 to 1.5 times too large, 5% out of proportion and 10% off in tilt, "
        "as the ellipse of a contour is. contour: the core within any contour (0.11 to 0.84 of the amplitude) with its ellipse as first guess. Non-trivial: anisotropic and tilted.")
ASSUMPTIONS = ["reference surface: rotation into the principal axes",
               "recovered to 12% of the amplitude (measured: 4%) when the data is the core of the eddy, as it "
               "is in detection; 40% for a whole bell, where the optimiser rarely stalls"]


def surfaces():
    return st.fixed_dictionaries(dict(
        A=logx(1e-3, 1e3), s=sign(), x=fx(-5, 5), y=fx(-5, 5), sx=logx(0.05, 10), sy=logx(0.05, 10),
        th=fx(-7, 7), nx=st.integers(1, 12), ny=st.integers(1, 12), d=fx(0.05, 1), ox=fx(-6, 6), oy=fx(-6, 6)))


def grid(c):
    x = c["ox"] + c["d"] * np.arange(c["nx"])
    y = c["oy"] + c["d"] * np.arange(c["ny"])
    return np.meshgrid(x, y)


def check_surface(c, rec):
    from trackeddy.geometry import gaussian
    X, Y = grid(c)
    A = c["A"] * c["s"]
    rec.nontrivial(abs(c["sx"] / c["sy"] - 1) > 0.05 and abs(math.sin(2 * c["th"])) > 0.05)
    g = np.asarray(gaussian((X, Y, A), c["x"], c["y"], c["sx"], c["sy"], c["th"]))
    need(g.shape == (X.size,), "shape %s for a %s grid", g.shape, X.shape)
    ref = gauss2d(X, Y, A, c["x"], c["y"], c["sx"], c["sy"], c["th"]).ravel()
    need(np.allclose(g, ref, rtol=1e-6, atol=1e-9 * abs(A)), "surface differs by %r", np.abs(g - ref).max())
    h = np.asarray(gaussian((X, Y, A), c["x"], c["y"], c["sy"], c["sx"], c["th"] + math.pi / 2))
    need(np.allclose(g, h, rtol=1e-6, atol=1e-9 * abs(A)), "swapping the axes and turning by 90 degrees changes it")
    k = np.asarray(gaussian((X, Y, -A), c["x"], c["y"], c["sx"], c["sy"], c["th"] + math.pi))
    need(np.allclose(g, -k, rtol=1e-6, atol=1e-9 * abs(A)), "it is not odd in the amplitude, or not periodic in the tilt")


def fits():
    return st.fixed_dictionaries(dict(
        A=logx(1e-3, 1e3), s=sign(), d=fx(0.02, 0.5), sx=fx(2, 9), q=fx(0.5, 1), th=fx(-1.57, 1.57),
        fx=fx(-0.5, 0.5), fy=fx(-0.5, 0.5), lon=fx(-180, 360, 0.1), lat=fx(-60, 60, 0.1),
        ga=fx(0.7, 1.5), gb=fx(0.95, 1.05), gth=fx(0.9, 1.1), core=st.one_of(st.none(), fx(1.2, 2)), flip=st.sampled_from([0, 0, 0, 1, 2, 3])))


def contours():
    """The core within a contour of smaller semi axis b, and its ellipse as the first guess."""
    def make(t):
        c, k, g, b = t
        return dict(c, core=k, ga=round(k * g, 4), sx=round(b / k / c["q"], 4), tight=True)
    return st.tuples(fits(), fx(0.6, 2.1), fx(0.95, 1.05), fx(3, 6)).map(make)


def check_fit(c, rec):
    from trackeddy.eddy import Eddy
    from trackeddy.geometry import Fit_Surface
    d, sx, sy = c["d"], c["sx"] * c["d"], c["sx"] * c["q"] * c["d"]
    h = int(2.2 * c["sx"]) + 2
    x = c["lon"] + d * np.arange(-h, h + 1)
    y = c["lat"] + d * np.arange(-h, h + 1)
    # coordinates can be stored from the last to the first
    x, y = x[::-1] if c.get("flip", 0) & 1 else x, y[::-1] if c.get("flip", 0) & 2 else y
    X, Y = np.meshgrid(x, y)
    cx, cy = c["lon"] + c["fx"] * d, c["lat"] + c["fy"] * d
    A = c["A"] * c["s"]
    z = gauss2d(X, Y, A, cx, cy, sx, sy, c["th"])
    data = z
    if c["core"]:
        data = np.where(np.abs(z) >= abs(A) * math.exp(-0.5 * c["core"] ** 2), z, np.nan)
    rec.nontrivial(c["q"] < 0.95 and abs(math.sin(2 * c["th"])) > 0.05)
    rec.event("core" if c["core"] else "whole")
    e = Eddy(None, A * 0.5)
    e.eddy_maxima = [A, c["lat"], c["lon"]]
    guess = (sx * c["ga"], sy * c["ga"] * c["gb"], c["th"] * c["gth"])
    e.ellipse_params = guess
    before = data.copy()
    surf, par = Fit_Surface(e, data, X, Y)._fitting()
    need(np.array_equal(before, data, equal_nan=True), "the fit modified the data")
    par = np.asarray(par, float)
    need(par.shape == (5,) and np.isfinite(par).all(), "parameters %r", par)
    need(np.shape(surf) == X.shape, "surface of shape %s on a %s grid", np.shape(surf), X.shape)
    # the surface returned is the Gaussian of the parameters returned
    need(np.allclose(surf, gauss2d(X, Y, A, *par), rtol=1e-6, atol=1e-9 * abs(A)),
         "the fitted surface is not the Gaussian of the fitted parameters")
    # bounds of the fit: one grid step, 70% of the first guess
    need(abs(par[0] - c["lon"]) <= d * 1.0001 and abs(par[1] - c["lat"]) <= d * 1.0001,
         "centre moved more than a grid step: %r", par[:2] - [c["lon"], c["lat"]])
    for g, p in zip(guess, par[2:]):
        lim = 0.7 * abs(g) if g else 1e-4
        need(abs(p - g) <= lim * 1.0001 + 1e-12, "parameter %r left the bounds around %r", p, g)
    # never worse than the first guess
    def misfit(f):
        m = np.abs(data - f)
        return float(np.nanstd(m) * np.nanmean(m)) / A ** 2
    first = gauss2d(X, Y, A, c["lon"], c["lat"], *guess)
    need(misfit(surf) <= misfit(first) * 1.001 + 1e-7, "the fit (%.3g) is worse than the first guess (%.3g)",
         misfit(surf), misfit(first))
    # it recovers the Gaussian
    err = np.nanmax(np.abs(surf - z) * np.isfinite(data)) / abs(A)
    rec.event("err<1e-3" if err < 1e-3 else "err<1e-2" if err < 1e-2 else "err<0.05" if err < 0.05 else "err>0.05")
    if c.get("tight"):
        # measured: at most 0.03, and 9% or 3% in the deviations
        need(err < 0.06, "fitted surface differs by %.3g of the amplitude", err)
        lim = 0.2 if c["core"] < 0.85 else 0.1
        need(abs(par[2] / sx - 1) < lim and abs(par[3] / sy - 1) < lim, "deviations %r %r, true ones %r %r", par[2], par[3], sx, sy)
        return
    # (with the whole bell the search stalls at up to 0.2 in one of 10^4 cases)
    need(err < (0.12 if c["core"] else 0.4), "fitted surface differs by %.3g of the amplitude", err)


TESTS = [Test("surface", surfaces, check_surface, 6000, 100000, 1),
         Test("fit", fits, check_fit, 2000, 60000, 3),
         Test("contour", contours, check_fit, 2000, 60000, 3)]
