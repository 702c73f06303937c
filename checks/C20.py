"""An eddy keeps its identity while it can be followed, and no longer."""
import math

import numpy as np
from hypothesis import strategies as st

import tracks
from core import Test, need
from gen import fx, sign
from sut import axes, dataset, field, haversine, parse, tracker

PROPERTY = "C20"
BUDGET = 55
RULE = ("histories: those of C19 (with longitudes up to 360 or within [-180, 180)), the whole partition into tracks against a reference of the "
        "linking rule. window: eddies that vanish for about the number of snapshots of the limit, 5 by default. edge: eddies that move by their radius, but for 0.03 to 10 %. moving: 1 to 3 Gaussians that move at a constant speed and vanish once, at real levels, with an expected "
        "identity from their known paths. Non-trivial: a track of two snapshots or more, and (moving) a gap or two Gaussians.")
ASSUMPTIONS = ["histories: ties of distance within 1e-7 km are not judged",
               "moving: steps and radii that differ by less than 25 % are not judged"]


def hist():
    return st.tuples(tracks.histories(), st.booleans()).map(lambda v: dict(v[0], wrap=v[1]))


def window():
    return st.tuples(tracks.gaps(), st.booleans()).map(lambda v: dict(v[0], wrap=v[1]))


def edge():
    return st.tuples(tracks.edges(), st.booleans()).map(lambda v: dict(v[0], wrap=v[1]))


def check_hist(c, rec):
    snaps = tracks.wrap_lon(c["snaps"]) if c["wrap"] else c["snaps"]
    te = tracks.stub(snaps)
    got = te.time_tracking(lin_levels=[0.5], **tracks.window(c))
    if not te.calls:
        rec.event("stand-in not used")
        return
    per = [tracks.recs(s) for s in snaps]
    tr = tracks.structure(got, per)
    if tracks.judge_links(tr, per, c["ntimes"], rec=rec):
        linked = [v for v in tr.values() if len(v) > 1]
        rec.nontrivial(linked)
        gaps = [b[0] - a[0] - 1 for v in linked for a, b in zip(v, v[1:])]
        rec.event(*["gap bridged" for g in gaps if g][:1], "linked" if linked else "single")


def moving():
    one = st.fixed_dictionaries(dict(A=sign(), amp=fx(0.8, 1.6, 0.1), s=fx(2.6, 3.4, 0.1), q=fx(0.8, 1, 0.01), th=fx(-1.5, 1.5, 0.1),
                                     v=st.one_of(fx(-0.9, 0.9, 0.05), fx(-0.9, 0.9, 0.05), st.sampled_from([8.0, -8.0, 2.0, -2.0])), off=fx(-1, 1, 0.1), gap=st.sampled_from([0, 0, 1, 2, 3]), at=st.integers(1, 4)))
    return st.fixed_dictionaries(dict(
        g=st.lists(one, min_size=1, max_size=3), nt=st.integers(3, 8), lat0=fx(-50, 50, 0.5), lon0=st.one_of(fx(-180, 350, 0.5), st.sampled_from([175.0, 355.0, -3.0])),
        d=st.sampled_from([0.25, 0.1]), ntimes=st.sampled_from([0, 1, 2, 3, 5]), f=fx(0.3, 0.6), vertical=st.booleans(), fit=st.sampled_from([False, False, False, True])))


def check_moving(c, rec):
    d, n = c["d"], c["nt"]
    L, W = 20 + int(max(abs(g["v"]) for g in c["g"]) * n), 17 * len(c["g"])
    nx, ny = (W, L) if c["vertical"] else (L, W)
    x, y = axes(c["lon0"], c["lat0"], d, d, nx, ny)
    zs, where = [], []
    for t in range(n):
        peaks, pos = [], []
        for k, g in enumerate(c["g"]):
            a = L / 2 + (t - n / 2) * g["v"]
            b = 17 * k + 8 + g["off"]
            i, j = (b, a) if c["vertical"] else (a, b)
            gone = g["gap"] and g["at"] <= t < g["at"] + g["gap"]
            pos.append(None if gone else (x[0] + d * i, y[0] + d * j))
            if not gone:
                peaks.append([g["A"] * g["amp"], x[0] + d * i, y[0] + d * j, g["s"] * d, g["s"] * g["q"] * d, g["th"]])
        zs.append(field(x, y, peaks))
        where.append(pos)
    lev = c["f"] * 0.8
    te = tracker(dataset(x, y, zs), criteria={"ellipse_fit": 1.0, "gaussian_fit": 0.5, "max_area": 1e6}, skip=not c["fit"])
    got = te.time_tracking(lin_levels=np.array([-lev, lev]), **tracks.window(c))
    rows = parse(got) if len(got) else []
    # identity of each Gaussian at each time
    ids = [[None] * n for _ in c["g"]]
    radius = [[None] * n for _ in c["g"]]
    for r in rows:
        t = r["time"]
        near = [k for k, p in enumerate(where[t]) if p and abs(p[0] - r["maxima_x"]) <= 1.5 * d and abs(p[1] - r["maxima_y"]) <= 1.5 * d]
        need(len(near) == 1, "an eddy at (%r, %r), time %d, the Gaussians are at %s", r["maxima_x"], r["maxima_y"], t, where[t])
        k = near[0]
        need(ids[k][t] is None, "two eddies of one Gaussian at time %d", t)
        ids[k][t], radius[k][t] = r["identifier"], r["radius_eddy"]
        need(r["eddy_sign"] == c["g"][k]["A"], "sign %r of Gaussian %s", r["eddy_sign"], c["g"][k]["A"])
    sep = 17 * d * 111.2 * (math.cos(math.radians(min(89, abs(c["lat0"]) + d * ny))) if c["vertical"] else 1)
    some = 0
    for k, g in enumerate(c["g"]):
        for t in range(n):
            need(where[t][k] is None or ids[k][t] is not None, "Gaussian %d is not detected at time %d", k, t)
        ts = [t for t in range(n) if ids[k][t] is not None]
        for a, b in zip(ts, ts[1:]):
            dist = haversine(where[a][k][1], where[a][k][0], where[b][k][1], where[b][k][0])
            slack = 1.5 * d * 111.2       # extrema are on grid points
            gap = b - a - 1
            rad = radius[k][b]
            one = ids[k][a] == ids[k][b]
            if sep < 1.5 * (rad + slack):
                rec.event("crowded")
                continue
            if gap > c["ntimes"]:
                need(not one, "Gaussian %d has one identifier over %d missing snapshots, ntimes %d", k, gap, c["ntimes"])
                rec.event("gap too long")
            elif dist + slack < rad / 1.25:
                need(one, "Gaussian %d has identifiers %d and %d at times %d and %d, %.1f km apart, radius %.1f km", k, ids[k][a], ids[k][b], a, b, dist, rad)
                rec.event("followed over a gap" if gap else "followed")
            elif dist - slack > 1.25 * rad:
                need(not one, "Gaussian %d has one identifier at times %d and %d, %.1f km apart, radius %.1f km", k, a, b, dist, rad)
                rec.event("too far")
            some += 1
        mine = {ids[k][t] for t in ts}
        for o in range(k):
            oth = {v for v in ids[o] if v is not None}
            if sep > 1.5 * max(r for q in (k, o) for r in radius[q] if r):
                need(not (mine & oth), "Gaussians %d and %d share identifiers %s", o, k, mine & oth)
    rec.nontrivial(some and (len(c["g"]) > 1 or any(g["gap"] for g in c["g"])))


TESTS = [Test("histories", hist, check_hist, 2500, 150000, weight=2), Test("window", window, check_hist, 800, 50000, weight=1), Test("edge", edge, check_hist, 800, 50000, weight=1), Test("moving", moving, check_moving, 800, 50000, weight=2)]
