"""Detections over several levels merge into one list of eddies."""
import numpy as np
from hypothesis import strategies as st

import tables
from core import Test, need
from gen import fx
from scenes import likely, over_ocean, scene, scene_ds
from sut import detect, haversine, parse, tracker

PROPERTY = "C05"
BUDGET = 45
RULE = ("merge: up to 6 levels with up to 6 eddies each, placed at random around a few centres, with random radii and "
        "fit qualities, answered by a stand-in for the detection of one level. fields: the fields of C01 at 1 to 5 real "
        "levels of both signs. Non-trivial: two levels whose eddies share a location, or at least two levels with eddies.")
ASSUMPTIONS = ["merge: eddies whose order of distance, or whose distance and radius, differ by less than 1e-7 are not judged"]
EPS = 1e-7


class Ambiguous(Exception):
    pass


def merge_ref(per_level):
    """The rule: an eddy of the next level whose extremum is within its radius of the
    nearest extremum of the list so far is the same feature; it replaces it if both its
    ellipse and its Gaussian fit are better, and is dropped otherwise. Others are added."""
    J = []
    for N in per_level:
        if not N:
            continue
        if not J:
            J = list(N)
            continue
        keep, claims = [], []
        for n in N:
            ds = [haversine(p["maxima_y"], p["maxima_x"], n["maxima_y"], n["maxima_x"]) for p in J]
            k = int(np.argmin(ds))
            near = [i for i, d in enumerate(ds) if d <= ds[k] + EPS]
            d, r = ds[k], n["radius_eddy"]
            if abs(d - r) < EPS * r:
                raise Ambiguous()
            if d < r:
                better = [J[i]["contour_ellipse_error"] > n["contour_ellipse_error"]
                          and J[i]["contour_gaussian_error"] < n["contour_gaussian_error"] for i in near]
                if len(set(better)) > 1 or (better[0] and len(near) > 1):
                    raise Ambiguous()
                if better[0]:
                    keep.append(n)
                    claims.append(k)
            else:
                keep.append(n)
        J = [p for i, p in enumerate(J) if i not in claims] + keep
    return J


def judge(got, per_level, rec):
    """got: table of the merged eddies."""
    rows = parse(got)
    ids = [r["identifier"] for r in rows]
    need(ids == list(range(len(ids))), "identifiers %s", ids)
    try:
        ref = merge_ref(per_level)
    except Ambiguous:
        rec.event("ambiguous")
        return
    a = sorted(tables.fingerprint(r) for r in rows)
    b = sorted(tables.fingerprint(r) for r in ref)

    def brief(s):
        return [(q["level"], q["maxima_x"], q["maxima_y"], q["contour_ellipse_error"], q["contour_gaussian_error"]) for q in s]
    need(a == b, "merged (level, x, y, ellipse, Gaussian) %s, expected %s, from %s", brief(rows), brief(ref),
         [brief(p) for p in per_level])
    n = sum(map(len, per_level))
    rec.event("merged" if len(rows) < n else "nothing to merge")
    if sum(1 for p in per_level if p) > 1:
        rec.nontrivial(True)


def merges():
    @st.composite
    def strat(draw):
        lon, lat = draw(fx(-170, 350, 0.25)), draw(fx(-55, 55, 0.25))
        centres = [[lon + draw(fx(-3, 3)), lat + draw(fx(-3, 3))] for _ in range(draw(st.integers(1, 3)))]
        c = {"levels": []}
        for i in range(draw(st.integers(2, 6))):
            es = []
            for _ in range(draw(st.integers(0, 6 if i == 0 else 4))):
                k = draw(st.integers(0, 2)) % len(centres)
                off = draw(st.sampled_from([0.02, 0.3, 0.8, 2.0]))
                es.append({"lon": round(centres[k][0] + off * draw(fx(-1, 1)), 6),
                           "lat": round(centres[k][1] + off * draw(fx(-1, 1)), 6),
                           "radius": draw(fx(5, 120)), "ee": draw(fx(0.1, 0.9)), "ge": draw(st.one_of(fx(0.8, 1), fx(0.8, 1), st.just(0.0))),
                           "n": draw(st.integers(0, 3)), "sign": draw(st.sampled_from([1, -1]))})
            c["levels"].append(es)
        return c
    return strat()


def stub(per_level):
    """A tracker whose detection of one level is answered from a list."""
    from trackeddy.trackeddy import TrackEddy

    class Stub(TrackEddy):
        calls = 0

        def _detect_one_level(self, level):
            self.calls += 1
            return tables.table([dict(e, level=float(level)) for e in per_level[round(float(level) * 10) - 1]]), []
    sc = {"nx": 6, "ny": 5, "lon0": 0.0, "lat0": 0.0, "dx": 1.0, "dy": 1.0, "peaks": [], "noise": None, "nan": None,
          "unit": 1.0, "step": 0}
    te = Stub(scene_ds(sc)[3], "ssh")
    te.filter = None
    return te


def check_merge(c, rec):
    per = c["levels"]
    te = stub(per)
    levels = [(i + 1) / 10 for i in range(len(per))]
    got = te._detect_snapshot(0, np.array(levels))
    if te.calls != len(per):
        rec.event("stand-in not used")
        return
    judge(got, [parse(tables.table([dict(e, level=l) for e in es])) for es, l in zip(per, levels)], rec)


def fields():
    return st.fixed_dictionaries(dict(
        scene=st.one_of(likely(nmin=22, nmax=26, maxpeaks=2, stretch=True), likely(nmin=22, nmax=26, maxpeaks=2), scene(nmax=26, maxpeaks=4, stretch=True)),
        levels=st.lists(st.one_of(fx(0.15, 0.9, 0.01), fx(-0.9, -0.15, 0.01), st.just(0.0)), min_size=1, max_size=4, unique=True),
        order=st.sampled_from(["up", "down", "any"]), form=st.sampled_from(["array", "array", "list", "tuple"]),
        loose=st.booleans(), skip=st.sampled_from([False, False, False, True])))


def check_fields(c, rec):
    sc = c["scene"]
    x, y, z, ds = scene_ds(sc)
    u = sc["unit"]
    levels = [l * u for l in c["levels"]]
    if c["order"] != "any":
        levels.sort(reverse=c["order"] == "down")
    crit = {"ellipse_fit": 1.0, "gaussian_fit": 0.6} if c["loose"] else {}
    per = [detect(ds, l, criteria=crit, skip=c["skip"])[0] for l in levels if l != 0]
    te = tracker(ds, criteria=crit, skip=c["skip"])
    arg = {"array": np.array, "list": list, "tuple": tuple}[c["form"]](levels)
    got = te._detect_snapshot(0, arg)
    rec.event(c["form"], *(["zero level"] if 0 in levels else []))
    if not any(per):
        need(len(got) == 0, "%d rows from levels without eddies", len(got))
        return
    judge(got, per, rec)
    rec.event("%d levels with eddies" % sum(1 for p in per if p))


TESTS = [Test("merge", merges, check_merge, 4000, 400000, weight=2), Test("fields", fields, check_fields, 700, 40000, weight=3),
         Test("ocean", over_ocean(fields, nmax=32), check_fields, 300, 20000, weight=1)]
