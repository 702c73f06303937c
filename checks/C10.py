"""The criteria are independent filters."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from oracle import DEFAULT
from scenes import likely, over_ocean, scene, scene_ds
from sut import GAUSS, SCALARS, detect, path_key, rossby_ref

PROPERTY = "C10"
BUDGET = 40
RULE = ("The fields of C01, detected with lenient criteria and again with any others (each between its extremes, or "
        "at a value that an eddy has, or a little off), with and without the Gaussian fit. Non-trivial: the criteria keep "
        "some eddies and discard others, or one is at or near the value of an eddy.")
ASSUMPTIONS = ["the area of the fitted ellipse is computed with the repository's functions (judged by C14 and C15)"]
LOOSE = {"ellipse_fit": 1.0, "eccentricity": 1.0, "gaussian_fit": 0.0, "max_area": 1e6}


def cases():
    return st.fixed_dictionaries(dict(
        scene=st.one_of(likely(stretch=True), likely(q=0.4), scene(island=True, stretch=True)), f=st.one_of(fx(0.1, 0.9), fx(0.01, 0.5)), side=st.booleans(),
        ellipse_fit=st.one_of(st.just(1.0), fx(0.3, 1)), eccentricity=st.one_of(st.just(1.0), fx(0, 1)),
        gaussian_fit=st.one_of(st.just(0.0), fx(0, 1)), max_area=st.one_of(st.just(1e6), fx(0.02, 7)),
        at=st.sampled_from([None, "eccentricity", "gaussian_fit", "max_area"]), off=st.sampled_from([0, 0, 1e-3, -1e-3, 0.05, -0.05]), pick=st.integers(0, 3),
        skip=st.sampled_from([False, False, True])))


def rows(e):
    return {path_key(r["path"]): r for r in e}


def check(c, rec):
    sc = c["scene"]
    x, y, z, ds = scene_ds(sc)
    s = 1 if not sc["peaks"] or sc["peaks"][0][0] > 0 else -1
    level = c["f"] * sc["unit"] * (s if c["side"] else -s)
    base = rows(detect(ds, level, criteria=LOOSE)[0])
    crit = {k: c[k] for k in LOOSE}
    if c["at"] and base:
        r = list(base.values())[c["pick"] % len(base)]
        crit[c["at"]] = {"eccentricity": r["ellipse_eccen"], "gaussian_fit": r["contour_gaussian_error"],
                         "max_area": r["radius_eddy"] / rossby_ref(r["contour_y"])}[c["at"]] + c["off"]
        crit[c["at"]] = max(crit[c["at"]], 0.0)
        for k in LOOSE:      # one at a time
            if k != c["at"] and c["pick"] > 0:
                crit[k] = LOOSE[k]
    from trackeddy.geometry import area_latlon_polygon, fit_ellipse
    keep, either = set(), set()
    nog = detect(ds, level, criteria=LOOSE, skip=True)[0]
    need(set(base) <= set(rows(nog)), "the Gaussian fit adds eddies")
    for k, r in rows(nog).items():
        if c["skip"] is False and k not in base:
            continue
        v = []
        v.append(crit["max_area"] * rossby_ref(r["contour_y"]) / r["radius_eddy"] - 1)
        E, par = fit_ellipse(r["path"][:, 0], r["path"][:, 1])
        ea = float(area_latlon_polygon(E))
        v.append(0.1 * crit["ellipse_fit"] - abs(r["area_eddy"] - ea) / ea)
        v.append(crit["eccentricity"] - r["ellipse_eccen"])
        v.append(crit["ellipse_fit"] - r["contour_ellipse_error"])
        if not c["skip"]:
            v.append(base[k]["contour_gaussian_error"] - crit["gaussian_fit"])
        if all(abs(t) > 1e-9 or i in (2, 3, 4) for i, t in enumerate(v)):
            # a value equal to its limit is accepted
            if min(v) >= 0:
                keep.add(k)
        else:
            either.add(k)
    e, d = detect(ds, level, criteria=crit, skip=c["skip"])
    got = rows(e)
    allk = rows(nog) if c["skip"] else base
    for r in list(nog) + list(e):
        need(r["maxima"] != 0, "an island is reported as an eddy")
    rec.nontrivial(0 < len(keep) < len(allk) or (c["at"] and allk))
    rec.event("skip" if c["skip"] else "fit", *["kept"] * len(keep), *["dropped"] * (len(allk) - len(keep)))
    need(set(got) - either <= keep, "an eddy is reported that fails the criteria %s", crit)
    need(keep <= set(got), "an eddy that meets the criteria %s is not reported, discarded: %s", crit,
         [str(v) for v in d.reason])
    for k, r in got.items():
        ref = allk[k]
        for n in SCALARS + GAUSS:
            if n in ref or n in r:
                need(n in ref and n in r and (r[n] == ref[n] or (np.isnan(r[n]) and np.isnan(ref[n]))),
                     "%s is %r with criteria %s and %r without", n, r.get(n), crit, ref.get(n))
    # skipping the fit changes nothing else
    for k, r in base.items():
        o = rows(nog)[k]
        for n in SCALARS:
            if n != "contour_gaussian_error":
                need(r[n] == o[n], "%s is %r with the Gaussian fit and %r without", n, r[n], o[n])


TESTS = [Test("filters", cases, check, 1800, 100000, weight=3), Test("ocean", over_ocean(cases), check, 300, 30000, weight=1)]
