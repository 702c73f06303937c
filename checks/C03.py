"""Symmetries of the detection."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from scenes import likely, over_ocean, scene, scene_xyz
from sut import GAUSS, SCALARS, dataset, detect, parse, path_key, rossby_ref, tracker

PROPERTY = "C03"
BUDGET = 45
RULE = ("The fields of C01. units: multiplied by a power of 2 from 2^-60 to 2^60 (bit for bit the same eddies, default and "
        "other criteria); series: the same through several levels, filters and the tracking. negation, mirror (latitude, longitude), storage (latitudes or longitudes from the last to the first) and shift (along the parallel, by any multiple of a quarter "
        "degree, also across 0 and 180, or whole turns): the same eddies, with lenient and with the default (default) criteria. ocean: the same over windows of the sea level anomaly in the repository. Non-trivial: at least one eddy.")
ASSUMPTIONS = ["default: cases where a contour is discarded for its similarity are counted and not judged (known finding)",
               "negation, mirror and shift: ellipse_fit = 1 and a field without ties; contours within 3% of the "
               "limit of a criterion are not compared, as areas depend slightly on the longitude (C14)",
               "fitted Gaussians are compared on isolated eddies, as the minimization amplifies rounding errors elsewhere"]


def units():
    return st.fixed_dictionaries(dict(scene=st.one_of(likely(stretch=True), likely(), scene(stretch=True)), f=fx(0.15, 0.85), side=st.booleans(),
                                      k=st.integers(-60, 60), skip=st.sampled_from([False, False, True]),
                                      crit=st.sampled_from([{}, {"ellipse_fit": 1.0}, {"gaussian_fit": 0.0}])))


def lev(c, z):
    s = 1 if not c["scene"]["peaks"] or c["scene"]["peaks"][0][0] > 0 else -1
    return c["f"] * c["scene"]["unit"] * (s if c["side"] else -s)


def check_units(c, rec):
    x, y, z = scene_xyz(c["scene"])
    l = lev(c, z)
    s = 2.0 ** c["k"]
    e, d = detect(dataset(x, y, [z]), l, criteria=c["crit"], skip=c["skip"])
    e2, d2 = detect(dataset(x, y, [z * s]), l * s, criteria=c["crit"], skip=c["skip"])
    rec.nontrivial(len(e))
    need([str(v) for v in d.reason] == [str(v) for v in d2.reason] and len(e) == len(e2),
         "units of %r: %d eddies and %s, with units of 1: %d and %s", s, len(e2), [str(v) for v in d2.reason], len(e),
         [str(v) for v in d.reason])
    for a, b in zip(e, e2):
        need(a["n"] == b["n"] and (a["path"] == b["path"]).all(), "the contour depends on the units")
        for k in SCALARS + GAUSS:
            if k not in a:
                continue
            want = a[k] * s if k in ("level", "maxima") else a[k]
            need(b[k] == want or (np.isnan(b[k]) and np.isnan(want)),
                 "%s is %r in units of %r and %r in units of 1", k, b[k], s, a[k])


def series():
    return st.fixed_dictionaries(dict(
        scenes=st.lists(likely(maxpeaks=2, nmax=26), min_size=1, max_size=2), k=st.integers(-60, 60),
        levels=st.lists(st.one_of(fx(0.15, 0.85), fx(-0.85, -0.15)), min_size=1, max_size=3, unique=True),
        skip=st.sampled_from([True, True, False]), crit=st.sampled_from([{"ellipse_fit": 1.0}, {}, {"ellipse_fit": 1.0, "max_area": 1e4}]),
        filt=st.sampled_from([None, None, "convolution", "zonal", "meridional"]), track=st.booleans()))


def check_series(c, rec):
    """The same through the levels of a snapshot, the filters and the tracking."""
    sc = c["scenes"]
    g = {k: sc[0][k] for k in ("nx", "ny", "dx", "dy", "lon0", "lat0", "unit")}
    zs = []
    for q in sc:
        x, y, z = scene_xyz(dict(q, **g))
        zs.append(z)
    out = []
    for s in (1.0, 2.0 ** c["k"]):
        te = tracker(dataset(x, y, [z * s for z in zs]), criteria=c["crit"], skip=c["skip"], filt=c["filt"] and "space")
        if c["filt"]:
            te.S_filter_setup = {"filter_type": c["filt"], "kernel": 9} if c["filt"] == "convolution" else {"filter_type": c["filt"]}
        levels = np.array(c["levels"]) * g["unit"] * s
        t = te.time_tracking(lin_levels=levels) if c["track"] else te._detect_snapshot(0, levels)
        out.append(parse(t) if len(t) else [])
    a, b = out
    rec.nontrivial(len(a))
    rec.event("tracked" if c["track"] else "snapshot", str(c["filt"]))
    need(len(a) == len(b), "%d eddies in units of %r, %d in units of 1", len(b), 2.0 ** c["k"], len(a))
    for p, q in zip(a, b):
        for k in p:
            if isinstance(p[k], np.ndarray):
                need(np.array_equal(p[k], q[k]), "%s depends on the units", k)
                continue
            want = p[k] * 2.0 ** c["k"] if k in ("level", "maxima") else p[k]
            need(q[k] == want or (want != want and q[k] != q[k]), "%s is %r in units of %r, expected %r", k, q[k], 2.0 ** c["k"], want)


OPS = ["negation", "latitude", "longitude", "rows", "columns", "shift", "shift", "turn"]


def moved():
    return st.fixed_dictionaries(dict(scene=st.one_of(likely(stretch=True), likely(), scene(nan=False, stretch=True)), f=fx(0.15, 0.85),
                                      side=st.booleans(), op=st.sampled_from(OPS), by=st.integers(-1440, 1440),
                                      skip=st.sampled_from([False, True, True])))


CRIT = {"ellipse_fit": 1.0, "max_area": 1e4, "gaussian_fit": 0.0}


def borderline(r, path, crit):
    from trackeddy.geometry import area_latlon_polygon, eccentricity, fit_ellipse
    try:
        E, par = fit_ellipse(path[:, 0], path[:, 1])
    except np.linalg.LinAlgError:
        return True
    a, b = float(area_latlon_polygon(path)), float(area_latlon_polygon(E))
    size = math.sqrt(a / math.pi) / rossby_ref(path[:, 1].mean()) / crit.get("max_area", 2)
    return (abs(abs(a - b) / b - 0.1 * crit.get("ellipse_fit", 0.85)) < 0.05 or abs(float(eccentricity(*par[:2])) - 0.85) < 0.02
            or len(path) < 12 or abs(size - 1) < 0.05)


def default():
    """Default criteria. The similarity criterion follows the contour from the vertex where
    its tracing starts, so that it may discard the negated eddy (known finding): such cases
    are counted, not judged."""
    return moved().map(lambda c: dict(c, crit={}, skip=True))


def check_moved(c, rec):
    crit = c.get("crit", CRIT)
    sc = c["scene"]
    if c["op"] in ("shift", "turn"):
        sc = dict(sc, lon0=round(sc["lon0"] * 4) / 4, stretch=None)
    x, y, z = scene_xyz(sc)
    l = lev(c, z)
    if (z == l).any():
        rec.event("tie")
        return
    op = c["op"]
    fx_, fy_, dx_, sg = 1, 1, 0.0, 1
    x2, y2, z2, l2 = x, y, z, l
    if op == "negation":
        z2, l2, sg = -z, -l, -1
    elif op == "latitude":
        y2, z2, fy_ = -y[::-1], z[::-1].copy(), -1
    elif op == "longitude":
        x2, z2, fx_ = -x[::-1], z[:, ::-1].copy(), -1
    elif op == "rows":
        y2, z2 = y[::-1].copy(), z[::-1].copy()
    elif op == "columns":
        x2, z2 = x[::-1].copy(), z[:, ::-1].copy()
    else:
        dx_ = c["by"] * 0.25 if op == "shift" else (360.0 if c["by"] > 0 else -360.0)
        x2 = x + dx_
    rec.event(op, "skip" if c["skip"] else "fit")
    e, d = detect(dataset(x, y, [z]), l, criteria=crit, skip=c["skip"])
    e2, d2 = detect(dataset(x2, y2, [z2]), l2, criteria=crit, skip=c["skip"])
    rec.nontrivial(len(e))
    clean = not sc["noise"] and not sc["step"] and len(sc["peaks"]) == 1
    back = []
    for b in e2:
        p = b["path"] * [fx_, fy_] - [fx_ * dx_, 0]
        back.append((p, b))

    def partner(path, pool):
        m = path.mean(0)
        best = [q for q in pool if np.abs(q[0].mean(0) - m).max() < np.ptp(path, axis=0).max()
                and abs(len(q[0]) - len(path)) <= 1
                and max(np.abs(q[0].min(0) - path.min(0)).max(), np.abs(q[0].max(0) - path.max(0)).max()) < 1e-6]
        return best[0] if best else None
    fwd = [(a["path"], a) for a in e]
    for path, a in fwd:
        q = partner(path, back)
        if q is None:
            if "crit" in c and "similarity" in [str(v) for v in d2.reason] and not c.get("strict"):
                rec.exclude("similarity")
                continue
            need(borderline(a, path, crit), "%s: the eddy at (%r, %r) is lost; discarded now: %s", op, a["maxima_x"],
                 a["maxima_y"], [str(v) for v in d2.reason])
            rec.event("borderline")
    for path, b in back:
        a = partner(path, fwd)
        if a is None:
            if "crit" in c and "similarity" in [str(v) for v in d.reason] and not c.get("strict"):
                rec.exclude("similarity")
                continue
            need(borderline(b, b["path"], crit), "%s: a new eddy at (%r, %r); discarded before: %s", op, b["maxima_x"],
                 b["maxima_y"], [str(v) for v in d.reason])
            rec.event("borderline")
            continue
        pa, a = a
        need(len(set(path_key(pa)) ^ set(path_key(path))) == 0 or same_points(pa, path, 1e-7),
             "%s: other vertices", op)
        need(b["eddy_sign"] == sg * a["eddy_sign"], "%s: sign %r, before %r", op, b["eddy_sign"], a["eddy_sign"])
        need(b["maxima"] == sg * a["maxima"], "%s: extremum %r, before %r", op, b["maxima"], a["maxima"])
        # equal extremes may be at several points
        ma = (a["maxima_x"] * fx_ + dx_, a["maxima_y"] * fy_)
        if (z == a["maxima"]).sum() == 1:
            need(abs(ma[0] - b["maxima_x"]) < 1e-8 and abs(ma[1] - b["maxima_y"]) < 1e-8,
                 "%s: extremum at (%r, %r), expected %s", op, b["maxima_x"], b["maxima_y"], ma)
        t = 1e-6 if op == "negation" else 0.03 if clean and a["n"] > 20 else 0.5
        need(abs(b["area_eddy"] / a["area_eddy"] - 1) < t, "%s: area %r, before %r", op, b["area_eddy"], a["area_eddy"])
        if sc["noise"] or sc["step"] or a["n"] < 16:
            continue
        for k in ("ellipse_params_a", "ellipse_params_b"):
            # the first vertex counts twice in the fit
            need(abs(b[k] / a[k] - 1) < 5e-3 + 0.8 / a["n"], "%s: %s %r, before %r", op, k, b[k], a[k])
        ecc = 2e-2 + 0.5 / a["n"] if a["ellipse_eccen"] > 0.3 else 0.2
        need(abs(b["ellipse_eccen"] - a["ellipse_eccen"]) < ecc, "%s: eccentricity %r, before %r", op,
             b["ellipse_eccen"], a["ellipse_eccen"])
        if a["ellipse_eccen"] > 0.5:
            w = a["ellipse_params_theta"] * fx_ * fy_ - b["ellipse_params_theta"]
            need(abs((w + math.pi / 2) % math.pi - math.pi / 2) < 0.02 + 1.0 / a["n"], "%s: orientation %r, before %r", op,
                 b["ellipse_params_theta"], a["ellipse_params_theta"])
        if clean and not c["skip"] and a["n"] >= 24 and 0.15 <= abs(l / sc["peaks"][0][0] / sc["unit"]) <= 0.7:
            rec.event("gaussian compared")
            for k in GAUSS[2:4]:
                need(abs(b[k] / a[k] - 1) < 0.12, "%s: %s %r, before %r", op, k, b[k], a[k])
            for k, v in (("gaussian_params_x", a[GAUSS[0]] * fx_ + dx_), ("gaussian_params_y", a[GAUSS[1]] * fy_)):
                need(abs(b[k] - v) < 1.2 * np.abs(np.diff(x if k[-1] == "x" else y)).max(), "%s: %s %r, expected %r", op, k, b[k], v)


def same_points(p, q, tol):
    if len(np.unique(np.round(p, 7), axis=0)) != len(np.unique(np.round(q, 7), axis=0)):
        return False
    D = np.abs(p[:, None] - q[None]).max(-1)
    return D.min(0).max() < tol and D.min(1).max() < tol


TESTS = [Test("units", units, check_units, 1500, 80000, 1), Test("series", series, check_series, 500, 40000, 0.5), Test("moved", moved, check_moved, 2400, 120000, 1),
         Test("default", default, check_moved, 900, 60000, 0.5),
         Test("ocean", over_ocean(moved, nan=False), check_moved, 600, 30000, 0.4), Test("ocean units", over_ocean(units), check_units, 300, 20000, 0.3)]
