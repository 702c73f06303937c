"""Every contour is either reported or discarded once, for the first criterion that it fails."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from oracle import DEFAULT, similarity_ref
from scenes import likely, over_ocean, scene, scene_ds
from sut import contours_ref, detect, rossby_ref
from checks.C01 import criteria

PROPERTY = "C08"
BUDGET = 45
RULE = ("Any field: the fields of C01, constant fields, plateaus of small integers, white noise, missing values "
        "anywhere, with and without nan treatment, levels on a value, default or other criteria. ocean: windows of the sea level anomaly in the repository. Non-trivial: at "
        "least two contours with two different outcomes.")
ASSUMPTIONS = ["the contours are those of contourpy's mpl2005 (of the extension itself if values are missing)",
               "a value within 1e-6 of its limit may fall on either side"]

REASONS = ["open_contour", "area", "ellipse_fit_failed", "ellipse_area", "eccentricity", "similarity",
           "eddy_is_island", "gaussian_fit_failed", "gaussian_check"]


def wild():
    return st.fixed_dictionaries(dict(nx=st.integers(3, 24), ny=st.integers(3, 24), dx=st.sampled_from([0.25, 0.1, 1.0]),
                                      lon0=fx(-180, 360, 0.5), lat0=fx(-60, 60, 0.5),
                                      kind=st.sampled_from(["const", "zero", "ints", "bits", "white", "smooth", "ring"]),
                                      wseed=st.integers(0, 10 ** 6), pnan=st.sampled_from([0, 0, 0, 0.02, 0.2, 1.0]),
                                      unit=st.sampled_from([1.0, 1.0, 1e-3, 1e3])))


def wild_ds(c):
    from sut import axes, dataset
    x, y = axes(c["lon0"], c["lat0"], c["dx"], c["dx"], c["nx"], c["ny"])
    r = np.random.default_rng(c["wseed"])
    sh = (c["ny"], c["nx"])
    k = c["kind"]
    if k == "const":
        z = np.full(sh, 0.5)
    elif k == "zero":
        z = np.zeros(sh)
    elif k == "ints":
        z = r.integers(-2, 3, sh).astype(float)
    elif k == "bits":
        z = r.integers(0, 2, sh).astype(float)
    elif k == "white":
        z = r.normal(size=sh)
    elif k == "ring":
        I, J = np.meshgrid(np.arange(sh[1]), np.arange(sh[0]))
        z = np.cos(np.hypot(I - sh[1] * r.random(), J - sh[0] * r.random()) * r.uniform(0.3, 1))
    else:
        from scipy import ndimage
        z = ndimage.gaussian_filter(r.normal(size=sh), 1.5)
        z /= z.std()
    z = z * c["unit"]
    if c["pnan"]:
        z[r.random(sh) < c["pnan"]] = np.nan
    return x, y, z, dataset(x, y, [z])


def cases():
    return st.fixed_dictionaries(dict(
        scene=st.one_of(wild(), likely(stretch=True), scene(island=True, stretch=True)), crit=criteria(),
        f=st.one_of(st.sampled_from([0.5, 1.0, -1.0, 0.25]), fx(-1.5, 1.5)),
        skip=st.sampled_from([False, False, True]), nan_treatment=st.booleans()))


def centre_key(p):
    return (round(float(np.nanmean(p[:, 0])), 7) + 0.0, round(float(np.nanmean(p[:, 1])), 7) + 0.0)


def allowed(p, crit, skip):
    """(outcomes that are right, values expected in the table)"""
    from trackeddy.geometry import area_latlon_polygon, eccentricity, fit_ellipse
    c = dict(DEFAULT, **crit)
    out = set()
    vals = {}
    if not np.isfinite(p).all():
        return set(REASONS), vals
    vals["area_eddy"] = float(area_latlon_polygon(p))
    vals["radius_eddy"] = math.sqrt(vals["area_eddy"] / math.pi)
    if not (p[0] == p[-1]).all():
        return {"open_contour"}, vals

    def gate(name, bad_by):
        """bad_by > 0: fails. Returns True if the next gate cannot be reached."""
        if bad_by > -1e-6:
            out.add(name)
        return bad_by > 1e-6

    lim = c["max_area"] * rossby_ref(float(np.mean(p[:, 1])))
    if gate("area", vals["radius_eddy"] / lim - 1):
        return out, vals
    try:
        E, par = fit_ellipse(p[:, 0], p[:, 1])
    except np.linalg.LinAlgError:
        return {"ellipse_fit_failed"} | out, vals
    if len({tuple(np.round(v, 9)) for v in p}) < 7:
        out.add("ellipse_fit_failed")     # singular up to rounding
    ea = float(area_latlon_polygon(E))
    rt = 0.1 * c["ellipse_fit"]
    bad = abs(vals["area_eddy"] - ea) / ea - rt if ea > 0 and np.isfinite(ea) else 1.0
    # numpy's isclose also allows 1e-8 km2
    if gate("ellipse_area", bad):
        return out, vals
    ecc = float(eccentricity(*par[:2]))
    vals["ellipse_eccen"] = ecc
    if gate("eccentricity", ecc - c["eccentricity"]):
        return out, vals
    if len(p) <= 300:
        sim = similarity_ref(p, E)
        vals["contour_ellipse_error"] = sim
        if abs(sim - c["ellipse_fit"]) < 2e-4:
            out.add("similarity")
        elif gate("similarity", sim - c["ellipse_fit"]):
            return out, vals
    else:
        out.add("similarity")
    out |= {"eddy_is_island", "reported"}
    if not skip:
        out |= {"gaussian_fit_failed", "gaussian_check"}
    return out, vals


def check(c, rec):
    sc = c["scene"]
    x, y, z, ds = wild_ds(sc) if "kind" in sc else scene_ds(sc)
    level = c["f"] * sc["unit"]
    if level == 0:
        level = 0.1 * sc["unit"]
    crit = c["crit"]
    e, d = detect(ds, level, criteria=crit, skip=c["skip"], nan_treatment=c["nan_treatment"])
    zz = np.where(np.isnan(z), 0, z) if c["nan_treatment"] else z
    X, Y = np.meshgrid(x, y)
    if np.isfinite(zz).all():
        lines = contours_ref(X, Y, zz, level)
    else:
        from trackeddy.geometry import extract_contours
        lines = extract_contours(X, Y, zz, level)[0]
        rec.event("missing values")
    lines = [np.asarray(p) for p in lines]
    # contours that are a point are not counted
    tiny = [p for p in lines if np.allclose(np.mean(p, 0), p[0], equal_nan=True)]
    real = [p for p in lines if not np.allclose(np.mean(p, 0), p[0], equal_nan=True)]
    by, tk = {}, {centre_key(p) for p in tiny}
    for p in real:
        by.setdefault(centre_key(p), []).append(p)
    got = {}
    for r in e:
        need(np.isfinite(r["path"]).all(), "an eddy with missing values in its contour")
        got.setdefault((round(r["contour_x"], 7) + 0.0, round(r["contour_y"], 7) + 0.0), []).append(("reported", r))
    need(list(d.index) == list(range(len(d))), "the discarded table is not numbered from 0: %s", list(d.index))
    for _, r in d.iterrows():
        r = r.to_dict()
        r["reason"] = str(r["reason"])
        need(r["reason"] in REASONS, "unknown reason %r", r["reason"])
        got.setdefault((round(float(r["contour_x"]), 7) + 0.0, round(float(r["contour_y"]), 7) + 0.0), []).append((r["reason"], r))
    need(len(e) + len(d) >= len(real) and len(e) + len(d) <= len(lines),
         "%d contours, %d reported, %d discarded", len(real), len(e), len(d))

    def find(table, k):
        for dx in (0, 1e-7, -1e-7):
            for dy in (0, 1e-7, -1e-7):
                q = (round(k[0] + dx, 7) + 0.0, round(k[1] + dy, 7) + 0.0)
                if q in table:
                    return table[q]
        return []
    for k, ps in by.items():
        g = find(got, k)
        need(len(g) >= len(ps) or len(by) == 0, "%d contours centred at %s, %d outcomes", len(ps), k, len(g))
        if len(ps) != 1 or len(g) != 1:
            rec.event("shared centre")
            continue
        p = ps[0]
        reason, r = g[0]
        rec.event(reason)
        ok, vals = allowed(p, crit, c["skip"])
        need(reason in ok, "the contour centred at %s is %s, expected %s", k, reason, sorted(ok))
        need(float(r["level"]) == level, "level %r", r["level"])
        for n in ("area_eddy", "radius_eddy") + (("ellipse_eccen",) if REASONS_AT[reason] >= 4 else ()) + (
                ("contour_ellipse_error",) if REASONS_AT[reason] >= 5 else ()):
            if n in vals:
                need(abs(float(r[n]) - vals[n]) <= 1e-6 * abs(vals[n]) + (1.01e-4 if n == "contour_ellipse_error" else 1e-7),
                     "%s is %r in the table, expected %r", n, r[n], vals[n])
        gf = dict(DEFAULT, **crit)["gaussian_fit"]
        if reason == "gaussian_check":
            need(float(r["contour_gaussian_error"]) < gf, "discarded with contour_gaussian_error %r, limit %r",
                 r["contour_gaussian_error"], gf)
        if reason == "eddy_is_island":
            need(float(r["maxima"]) == 0, "an island with extremum %r", r["maxima"])
    rec.nontrivial(len({o for v in got.values() for o, _ in v}) > 1)


REASONS_AT = {"open_contour": 0, "area": 1, "ellipse_fit_failed": 2, "ellipse_area": 3, "eccentricity": 4,
              "similarity": 5, "eddy_is_island": 6, "gaussian_fit_failed": 7, "gaussian_check": 8, "reported": 9}

TESTS = [Test("accounting", cases, check, 5000, 200000, weight=3), Test("ocean", over_ocean(cases), check, 1000, 40000, weight=1)]
