"""Every reported eddy is one."""
import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from oracle import judge
from scenes import likely, over_ocean, scene, scene_ds, wide
from sut import detect, path_key

PROPERTY = "C01"
BUDGET = 55
RULE = ("Fields of 14x14 to 40x40 points: up to 6 Gaussians of either sign anywhere (also cut by the border, overlapping), "
        "noise of several scales, plateaus, missing values, units 1e-3 to 1e3, unequal or descending steps, any place "
        "on Earth; any level; default or other criteria. large: contours of up to 290 vertices on grids of up to 112x112 points. opposite: eddies in a field of the other sign, at a level of that sign. ocean: windows of the sea level anomaly in the repository (with land). Non-trivial: at least one eddy was reported.")
ASSUMPTIONS = ["areas are judged with the tolerance of C14, least squares ellipses against an independent fit",
               "the similarity with the fitted ellipse and Gaussian is recomputed with an independent Frechet distance"]


def criteria():
    return st.one_of(st.just({}), st.just({}), st.fixed_dictionaries({
        "ellipse_fit": st.sampled_from([0.85, 1.0, 0.8, 0.6]),
        "eccentricity": st.sampled_from([0.85, 0.6, 0.95, 1.0]),
        "gaussian_fit": st.sampled_from([0.8, 0.5, 0.0, 0.9]),
        "max_area": st.sampled_from([2 * np.pi, 1.0, 100.0])}))


def cases():
    return st.fixed_dictionaries(dict(side=st.sampled_from([True, True, False]), scene=st.one_of(likely(stretch=True), likely(stretch=True), scene(island=True, stretch=True)), f=st.one_of(fx(0.15, 0.8), fx(-0.8, -0.15), fx(-1.6, 1.6)),
                                      crit=criteria(), skip=st.sampled_from([False, False, False, True])))


def check(c, rec):
    x, y, z, ds = scene_ds(c["scene"])
    level = (c["f"] or 0.01) * c["scene"]["unit"]
    if c["side"] and c["scene"]["peaks"]:
        level = abs(level) * (1 if c["scene"]["peaks"][0][0] > 0 else -1)
    e, d = detect(ds, level, criteria=c["crit"], skip=c["skip"])
    rec.nontrivial(len(e))
    rec.event("skip" if c["skip"] else "fit", *["eddy %+d" % r["eddy_sign"] for r in e])
    need([r["identifier"] for r in e] == list(range(len(e))), "identifiers %s", [r["identifier"] for r in e])
    keys = [path_key(r["path"]) for r in e]
    need(len(set(keys)) == len(keys), "the same contour is reported twice")
    for r in e:
        judge(r, x, y, z, level, c["crit"], c["skip"], rec)


def opposite():
    """Eddies in a field of the other sign, at levels of that sign."""
    def make(v):
        c, o, f = v
        s = 1 if c["scene"]["peaks"][0][0] > 0 else -1
        c["scene"]["offset"] = round(-s * o, 6)
        c["f"] = round(-s * o * f, 6) or -0.01 * s
        return c
    return st.tuples(st.fixed_dictionaries(dict(side=st.just(False), scene=likely(maxpeaks=2), f=st.just(0.0), crit=criteria(), skip=st.sampled_from([True, True, True, False]))),
                     fx(0.05, 0.5), fx(0.05, 0.85)).map(make)


def large():
    """Contours of many vertices."""
    return st.fixed_dictionaries(dict(side=st.just(True), scene=wide(), f=fx(0.15, 0.85), skip=st.sampled_from([False, False, True]),
                                      crit=st.one_of(criteria(), st.just({"ellipse_fit": 1.0, "gaussian_fit": 0.5}))))


TESTS = [Test("sound", cases, check, 4000, 150000, weight=3), Test("opposite", opposite, check, 400, 20000, weight=0.5),
         Test("ocean", over_ocean(cases), check, 800, 40000, weight=1), Test("large", large, check, 240, 12000, weight=1)]
