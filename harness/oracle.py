"""What a detected eddy must satisfy, recomputed from the field."""
import math

import numpy as np

from core import need
from sut import GAUSS, arc, area_ref, conic_fit, frechet_dp, gauss2d, inside, rossby_ref

DEFAULT = {"ellipse_fit": 0.85, "eccentricity": 0.85, "gaussian_fit": 0.8, "max_area": 2 * np.pi}


def area_tol(path):
    """Tolerance of the documented area of a polygon (see C14)."""
    lon = (path[:, 0].mean() + 180) % 360 - 180
    r = max(np.ptp(path[:, 0]), np.ptp(path[:, 1])) / 2
    d = min(math.hypot(lon, path[:, 1].mean()), math.hypot(path[:, 0].mean() % 360 - 180, path[:, 1].mean()))
    # the longest side in units of the radius decides
    s = np.sqrt((np.diff(path, axis=0) ** 2).sum(1)).max() / max(r, 1e-12)
    return min(0.9, (10 if d > 2.8 * r else 80) * (s / (2 * np.pi)) ** 2 + 1e-5)


def similarity_ref(P, Q):
    g = math.sqrt(arc(P) * arc(Q))
    return max(1 - frechet_dp(P, Q) / (g / math.sqrt(2)), 0.0)


def index_of(g, u):
    """Places on an axis, as (fractional) indices."""
    k = np.arange(len(g), dtype=float)
    return np.interp(u, g, k) if g[-1] > g[0] else np.interp(u, g[::-1], k[::-1])


def on_edges(path, x, y, z, level):
    """Every vertex lies on a grid line, where the linear interpolation of the
    field along that edge is the level."""
    eps = 1e-6
    for k, g in ((0, x), (1, y)):
        t = eps * np.abs(np.diff(g)).max()
        need(path[:, k].min() > g.min() - t and path[:, k].max() < g.max() + t, "the contour leaves the grid")
    fi, fj = index_of(x, path[:, 0]), index_of(y, path[:, 1])
    need((fi > -eps).all() and (fi < len(x) - 1 + eps).all() and (fj > -eps).all()
         and (fj < len(y) - 1 + eps).all(), "the contour leaves the grid")
    for u, v in zip(fi, fj):
        ri, rj = round(u), round(v)
        on_i, on_j = abs(u - ri) < eps, abs(v - rj) < eps
        need(on_i or on_j, "vertex (%r, %r) is on no grid line", u, v)
        if on_i and on_j:
            # at or next to a grid point: the level is the value there, to the precision of eps
            k = z[max(rj - 1, 0):rj + 2, max(ri - 1, 0):ri + 2]
            ok = abs(z[rj, ri] - level) <= 10 * eps * np.nanmax(np.abs(k - z[rj, ri])) + 1e-12 * abs(level)
            need(ok, "the field is %r at vertex (%r, %r), level %r", z[rj, ri], u, v, level)
            continue
        if on_i:
            j = min(max(int(math.floor(v)), 0), len(y) - 2)
            a, b, w = z[j, ri], z[j + 1, ri], v - j
        else:
            i = min(max(int(math.floor(u)), 0), len(x) - 2)
            a, b, w = z[rj, i], z[rj, i + 1], u - i
        val = a + w * (b - a)
        need(abs(val - level) <= 2e-6 * abs(b - a) + 1e-12 * abs(level),
             "the field is %r on the grid line at vertex (%r, %r), level %r", val, u, v, level)


def next_to(x, u):
    """Indices of the grid lines at u, or on either side."""
    d = (x - u) * (1 if x[-1] > x[0] else -1)
    at = np.abs(d) <= 1e-9 * np.abs(np.diff(x)).min()
    if at.any():
        return np.where(at)[0]
    k = int((d < 0).sum())
    return [i for i in (k - 1, k) if 0 <= i < len(x)]


def judge(r, x, y, z, level, crit, skip=False, rec=None):
    """r: record of one eddy; 1-D axes."""
    p = r["path"]
    c = dict(DEFAULT, **crit)
    need(np.isfinite(p).all(), "the contour has missing values")
    need(len(p) >= 4 and (p[0] == p[-1]).all(), "the contour is not closed: %s ... %s", p[0], p[-1])
    need(r["level"] == level, "level %r of an eddy detected at %r", r["level"], level)
    on_edges(p, x, y, z, level)
    # size
    ref, tol = area_ref(p), area_tol(p)
    need(r["area_eddy"] > 0 and abs(r["area_eddy"] / ref - 1) <= tol,
         "area %r km2, reference %r (tolerance %.3g)", r["area_eddy"], ref, tol)
    need(abs(r["radius_eddy"] / math.sqrt(r["area_eddy"] / math.pi) - 1) < 1e-9,
         "radius %r km of area %r", r["radius_eddy"], r["area_eddy"])
    need(abs(r["contour_x"] - p[:, 0].mean()) <= 1e-9 * (1 + np.abs(p[:, 0]).max())
         and abs(r["contour_y"] - p[:, 1].mean()) <= 1e-9 * (1 + np.abs(p[:, 1]).max()),
         "centre (%r, %r) of the contour, mean of its vertices %s", r["contour_x"], r["contour_y"], p.mean(0))
    need(r["radius_eddy"] <= c["max_area"] * rossby_ref(r["contour_y"]) * (1 + 1e-9),
         "radius %r km, limit %r", r["radius_eddy"], c["max_area"] * rossby_ref(r["contour_y"]))
    # ellipse
    a, b, th = r["ellipse_params_a"], r["ellipse_params_b"], r["ellipse_params_theta"]
    need(a >= b > 0, "semi axes %r %r", a, b)
    need(abs(r["ellipse_eccen"] - math.sqrt(max(0, 1 - (b / a) ** 2))) < 1e-6, "eccentricity %r of axes %r %r",
         r["ellipse_eccen"], a, b)
    need(r["ellipse_eccen"] <= c["eccentricity"], "eccentricity %r", r["ellipse_eccen"])
    fit = conic_fit(p)
    if fit is not None and fit["cond"] < 300:
        # an orientation tolerance of 1e-3 is part of the method
        need(abs(a / fit["a"] - 1) < 5e-3 and abs(b / fit["b"] - 1) < 5e-3,
             "semi axes %r %r, least squares ellipse %r %r", a, b, fit["a"], fit["b"])
        if b / a < 0.95:
            dth = (th - fit["theta"] + math.pi / 2) % math.pi - math.pi / 2
            need(abs(dth) < 0.02, "orientation %r, least squares ellipse %r", th, fit["theta"])
        t = np.linspace(0, 2 * np.pi, len(p))
        E = np.column_stack([fit["centre"][0] + fit["a"] * np.cos(t) * math.cos(fit["theta"])
                             - fit["b"] * np.sin(t) * math.sin(fit["theta"]),
                             fit["centre"][1] + fit["a"] * np.cos(t) * math.sin(fit["theta"])
                             + fit["b"] * np.sin(t) * math.cos(fit["theta"])])
        ea = area_ref(E)
        need(abs(ref / ea - 1) <= 0.1 * c["ellipse_fit"] + 2 * tol + 2 * area_tol(E) + 0.02,
             "area %r km2 of the contour, of its ellipse %r", ref, ea)
    need(0 <= r["contour_ellipse_error"] <= c["ellipse_fit"], "contour_ellipse_error %r, limit %r",
         r["contour_ellipse_error"], c["ellipse_fit"])
    from trackeddy.geometry import fit_ellipse
    e = similarity_ref(p, fit_ellipse(p[:, 0], p[:, 1])[0]) if len(p) <= 300 else None
    need(e is None or abs(e - r["contour_ellipse_error"]) <= 1.01e-4, "contour_ellipse_error %r, recomputed %r",
         r["contour_ellipse_error"], e)
    # extremum
    s, m = r["eddy_sign"], r["maxima"]
    i, j = np.argmin(np.abs(x - r["maxima_x"])), np.argmin(np.abs(y - r["maxima_y"]))
    need(x[i] == r["maxima_x"] and y[j] == r["maxima_y"], "extremum at (%r, %r), not a grid point",
         r["maxima_x"], r["maxima_y"])
    need(z[j, i] == m, "extremum %r, the field is %r there", m, z[j, i])
    need(m != 0, "extremum 0")
    X, Y = np.meshgrid(x, y)
    ins = inside(p, X.ravel(), Y.ravel()).reshape(X.shape)
    # points of the cells that the contour crosses
    dx, dy = np.abs(np.diff(x)).max(), np.abs(np.diff(y)).max()
    near = ins.copy()
    for u, v in p:
        near[np.ix_(next_to(y, v), next_to(x, u))] = True
    need(near[j, i], "extremum (%r, %r) outside of the contour", r["maxima_x"], r["maxima_y"])
    zi = z[ins & np.isfinite(z)]
    # the level set itself may pass through grid points: strictly inside only
    zi = zi[np.abs(zi - level) > 1e-9 * np.abs(zi).max()] if len(zi) else zi
    need(s in (1, -1), "sign %r", s)
    if len(zi):
        need((s * zi <= s * m * (1 if s * m > 0 else 1)).all(),
             "extremum %r of sign %r, the field is %r inside of the contour", m, s, s * (s * zi).max())
    zn = z[near & np.isfinite(z)]
    if len(zn) and ((zn > 0).all() or (zn < 0).all()):
        need(s == np.sign(zn[0]), "sign %r of an eddy where the field is %s", s, "positive" if zn[0] > 0 else "negative")
    else:
        # the mean over the points inside, and any of those next to the contour
        sure, maybe = z[ins & np.isfinite(z)], z[near & ~ins & np.isfinite(z)]
        lo, hi = sure.sum() + maybe[maybe < 0].sum(), sure.sum() + maybe[maybe > 0].sum()
        if len(sure) and (lo > 0 or hi < 0):
            need(s == np.sign(lo + hi), "sign %r of an eddy where the mean is %s", s, "positive" if lo > 0 else "negative")
            if rec is not None:
                rec.event("sign of the mean")
    # Gaussian
    if skip:
        need("gaussian_params_x" not in r or np.isnan(r["gaussian_params_x"]), "a Gaussian was fitted")
        return
    need(r["contour_gaussian_error"] >= c["gaussian_fit"] - 1e-9 and r["contour_gaussian_error"] <= 1,
         "contour_gaussian_error %r, limit %r", r["contour_gaussian_error"], c["gaussian_fit"])
    g = [r[k] for k in GAUSS]
    need(np.isfinite(g).all(), "Gaussian %s", g)
    need(abs(g[0] - r["maxima_x"]) <= dx * (1 + 1e-6) and abs(g[1] - r["maxima_y"]) <= dy * (1 + 1e-6),
         "Gaussian centred at (%r, %r), extremum at (%r, %r)", g[0], g[1], r["maxima_x"], r["maxima_y"])
    need(0.3 * a * (1 - 1e-6) <= g[2] <= 1.7 * a * (1 + 1e-6) and 0.3 * b * (1 - 1e-6) <= g[3] <= 1.7 * b * (1 + 1e-6),
         "deviations %r %r of the Gaussian, semi axes %r %r", g[2], g[3], a, b)
    # the line of the fitted Gaussian at the level is as similar as reported
    import contourpy
    G = gauss2d(X, Y, m, g[0], g[1], g[2], g[3], g[4])
    gl = contourpy.contour_generator(X, Y, G, name="mpl2005").lines(level)[0]
    if len(gl) == 1 and (gl[0][0] == gl[0][-1]).all() and len(p) <= 300 and len(gl[0]) <= 300:
        lo, hi = p.min(0), p.max(0)
        glo, ghi = gl[0].min(0), gl[0].max(0)
        m2 = 2 * np.array([dx, dy])
        if (glo >= lo - m2).all() and (ghi <= hi + m2).all():
            k = int(np.argmin(((gl[0][:-1] - p[0]) ** 2).sum(1)))
            e = similarity_ref(p, np.vstack([gl[0][k:-1], gl[0][:k + 1]]))
            if rec is not None:
                rec.event("gaussian recomputed")
            need(abs(e - r["contour_gaussian_error"]) <= 1.01e-4, "contour_gaussian_error %r, recomputed %r",
                 r["contour_gaussian_error"], e)
        elif rec is not None:
            rec.event("gaussian beyond the window")
