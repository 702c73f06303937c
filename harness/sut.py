"""Access to the code under test and independent reference computations.

Only names that the documentation, the example notebooks or the tests use are
called (TrackEddy and its _filter_data_, _detect_one_level, _detect_snapshot and
time_tracking, and the module level functions of geometry, physics, eddy, utils
and the generators).
"""
import math

import numpy as np
import pandas as pd
import xarray as xr

from core import need

SCALARS = ["level", "area_eddy", "radius_eddy", "ellipse_params_a", "ellipse_params_b",
           "ellipse_params_theta", "contour_ellipse_error", "ellipse_eccen", "contour_x",
           "contour_y", "eddy_sign", "maxima", "maxima_y", "maxima_x",
           "contour_gaussian_error"]
GAUSS = ["gaussian_params_x", "gaussian_params_y", "gaussian_params_sigma_x",
         "gaussian_params_sigma_y", "gaussian_params_theta"]


# ---------------------------------------------------------------- fields
def gauss2d(X, Y, A, cx, cy, sx, sy, th):
    """Independent anisotropic Gaussian: rotate into the principal axes."""
    c, s = math.cos(th), math.sin(th)
    u = c * (X - cx) + s * (Y - cy)
    v = -s * (X - cx) + c * (Y - cy)
    return A * np.exp(-0.5 * ((u / sx) ** 2 + (v / sy) ** 2))


def axes(lon0, lat0, dx, dy, nx, ny):
    return lon0 + dx * np.arange(nx), lat0 + dy * np.arange(ny)


def dataset(x, y, snapshots, time=True):
    data = np.asarray(snapshots, float)
    if time:
        return xr.Dataset({"ssh": (["time", "lat", "lon"], data)},
                          coords={"lon": x, "lat": y})
    return xr.Dataset({"ssh": (["lat", "lon"], data)}, coords={"lon": x, "lat": y})


def field(x, y, peaks):
    X, Y = np.meshgrid(x, y)
    z = np.zeros(X.shape)
    for p in peaks:
        z = z + gauss2d(X, Y, *p)
    return z


# ---------------------------------------------------------------- running
def tracker(ds, var="ssh", criteria=None, skip=False, nan_treatment=False, filt=None,
            kernel=None, filter_type=None, **xr_options):
    from trackeddy.trackeddy import TrackEddy
    te = TrackEddy(ds, var, nan_treatment=nan_treatment, **xr_options)
    te.filter = filt
    for k, v in (criteria or {}).items():
        te.identification_criteria[k] = v
    if skip:  # the defaults of the package are not set
        te.skip_gaussian_fit = True
    if kernel is not None:
        te.S_filter_setup["kernel"] = kernel
    if filter_type is not None:
        te.S_filter_setup = {"filter_type": filter_type}
    return te


def set_snapshot(te, ds, var="ssh", time=0, filt=None):
    da = ds[var]
    if "time" in da.dims:
        da = da.isel(time=time)
    te._filter_data_(da.squeeze(), filter=filt)


def detect(ds, level, time=0, filt=None, **kw):
    """One level of one snapshot: (list of eddies, discarded table)."""
    te = tracker(ds, filt=filt, **kw)
    set_snapshot(te, ds, time=time, filt=filt)
    e, d = te._detect_one_level(level)
    return parse(e), discarded(d)


def discarded(d):
    if isinstance(d, pd.DataFrame):
        return d
    need(len(d) == 0, "the discarded output is neither a table nor empty: %r", type(d))
    return pd.DataFrame({"reason": []})


def parse(table):
    """Table of eddies -> list of records {column: scalar, path: (n, 2)}."""
    if len(table) == 0:
        return []
    need(list(table.index.names)[0] == "identifier" and table.index.names[-1] == "index",
         "index of the table is %s", table.index.names)
    need(not table.index.duplicated().any(), "duplicated rows in the table: %s",
         table.index[table.index.duplicated()][:3].tolist())
    t = table.reset_index()
    keys = [k for k in ("identifier", "time") if k in t.columns]
    out = []
    for key, g in t.groupby(keys, sort=True):
        rec = {k: int(v) for k, v in zip(keys, key)}
        g = g.sort_values("index")
        need((g["index"].values == np.arange(len(g))).all(),
             "rows of eddy %s are not numbered from 0", key)
        for c in SCALARS + GAUSS:
            if c not in g.columns:
                if c in GAUSS:
                    continue
                need(False, "column %s is missing", c)
            v = g[c].values.astype(float)
            need(((v == v[0]) | (np.isnan(v) & np.isnan(v[0]))).all(),
                 "column %s is not constant for eddy %s", c, key)
            rec[c] = float(v[0])
        rec["path"] = np.column_stack([g["contour_path_x"].values.astype(float),
                                       g["contour_path_y"].values.astype(float)])
        rec["n"] = len(g)
        out.append(rec)
    return out


def path_key(path):
    """A contour as a set of vertices: independent of start and direction."""
    p = np.round(np.asarray(path, float), 9) + 0.0
    return tuple(sorted(set(map(tuple, p.tolist()))))


# ---------------------------------------------------------------- references
R_AREA = 6378.137  # km, radius that the areas are documented with (6378137 m)


def area_ref(path):
    """Area (km2) of a closed polygon whose sides are straight in (lon, lat):
    the exact line integral of sin(lat) d(lon)."""
    lon = np.deg2rad(path[:, 0])
    lat = np.deg2rad(path[:, 1])
    d = np.diff(lon)
    a, b = lat[:-1], lat[1:]
    mid, half = (a + b) / 2, (b - a) / 2
    # mean of sin between a and b is sin(mid) * sinc(half)
    mean = np.sin(mid) * np.sinc(half / np.pi)
    return abs(np.sum(d * mean)) * R_AREA ** 2


def conic_fit(path):
    """Least squares conic a x2 + b xy + c y2 + d x + e y = 1 about the mean of
    the points, returned as (centre, semi axes major, minor, angle of the major
    axis) or None if it is not an ellipse."""
    m = path.mean(0)
    x, y = (path - m).T
    s = max(np.abs(x).max(), np.abs(y).max())
    x, y = x / s, y / s
    M = np.column_stack([x * x, x * y, y * y, x, y])
    p, res, rank, sv = np.linalg.lstsq(M, np.ones(len(x)), rcond=None)
    if rank < 5:
        return None
    A, B, C, D, E = p
    Q = np.array([[A, B / 2], [B / 2, C]])
    w, V = np.linalg.eigh(Q)
    if w[0] * w[1] <= 0:
        return None
    c = -0.5 * np.linalg.solve(Q, [D, E])
    F = 1 + c @ Q @ c
    r2 = F / w
    if (r2 <= 0).any():
        return None
    r = np.sqrt(r2) * s
    i = int(np.argmax(r))
    v = V[:, i]
    return {"centre": m + c * s, "a": r[i], "b": r[1 - i],
            "theta": math.atan2(v[1], v[0]), "cond": sv[0] / sv[-1]}


def ellipse_points(centre, a, b, theta, n=400):
    t = np.linspace(0, 2 * np.pi, n)
    c, s = math.cos(theta), math.sin(theta)
    u, v = a * np.cos(t), b * np.sin(t)
    return np.column_stack([centre[0] + c * u - s * v, centre[1] + s * u + c * v])


def rossby_ref(lat):
    return 200 * math.exp(-(lat ** 2) / 2 * 0.15 ** 2) + 60 * math.exp(-(lat ** 2) / 40 * 0.15 ** 2)


def haversine(lat1, lon1, lat2, lon2, R=6371.0):
    p1, p2 = math.radians(lat1), math.radians(lat2)
    h = (math.sin((p2 - p1) / 2) ** 2
         + math.cos(p1) * math.cos(p2) * math.sin(math.radians(lon2 - lon1) / 2) ** 2)
    return 2 * R * math.asin(min(1.0, math.sqrt(h)))


def inside(path, px, py):
    """Points strictly inside a closed polygon (even-odd)."""
    from matplotlib.path import Path
    return Path(path).contains_points(np.column_stack([px, py]))


def frechet_ref(P, Q):
    """Discrete Frechet distance, by its definition as the smallest r for which
    a monotone coupling with all distances <= r exists (reachability)."""
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    D = np.sqrt(((P[:, None, :] - Q[None, :, :]) ** 2).sum(-1))
    cand = np.unique(D)
    lo, hi = 0, len(cand) - 1

    def ok(r):
        free = D <= r
        n, m = free.shape
        reach = np.zeros((n, m), bool)
        for i in range(n):
            for j in range(m):
                if free[i, j]:
                    reach[i, j] = (i == 0 and j == 0) or (i and reach[i - 1, j]) or (
                        j and reach[i, j - 1]) or (i and j and reach[i - 1, j - 1])
        return reach[-1, -1]

    while lo < hi:
        mid = (lo + hi) // 2
        if ok(cand[mid]):
            hi = mid
        else:
            lo = mid + 1
    return float(cand[lo])


def frechet_dp(P, Q):
    """Same, by dynamic programming with numpy rows (for long curves)."""
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    D = np.sqrt(((P[:, None, :] - Q[None, :, :]) ** 2).sum(-1))
    row = np.maximum.accumulate(D[0]).tolist()
    for i in range(1, len(P)):
        d = D[i].tolist()
        new = [max(row[0], d[0])]
        for j in range(1, len(d)):
            new.append(max(min(row[j], row[j - 1], new[-1]), d[j]))
        row = new
    return row[-1]


def arc(P):
    P = np.asarray(P, float)
    return float(np.sqrt((np.diff(P, axis=0) ** 2).sum(1)).sum())


def contours_ref(X, Y, z, level):
    """Contours by matplotlib's reference tracer (contourpy, mpl2005)."""
    import contourpy
    g = contourpy.contour_generator(X, Y, np.ma.masked_invalid(z), name="mpl2005")
    return g.lines(level)[0]
