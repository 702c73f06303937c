"""Tracking in time neither loses, invents, duplicates nor changes an eddy."""
import numpy as np
from hypothesis import strategies as st

import tracks
from core import Test, need
from gen import fx, sign
from scenes import likely, scene_xyz
from sut import dataset, parse, tracker

PROPERTY = "C19"
BUDGET = 45
RULE = ("histories: 2 to 9 snapshots of up to 5 eddies that drift, vanish, meet, jump or flip their sign, anywhere on "
        "the globe, answered by a stand-in for the detection of a snapshot; any window t0..tf and gap. fields: 2 to 4 real "
        "snapshots and 1 to 3 levels, against the detection of each snapshot on its own. Non-trivial: at least two "
        "snapshots with eddies.")
ASSUMPTIONS = []


def hist():
    return st.tuples(tracks.histories(), st.integers(0, 4), st.integers(0, 9), st.booleans()).map(
        lambda v: dict(v[0], t0=v[1] if v[3] else 0, tf=v[2] if v[3] else None))


def window(c, n):
    t0 = min(c["t0"], n - 1)
    tf = c["tf"]
    if tf and tf != t0:
        tf = max(t0 + 1, min(tf, n))
    return t0, tf


def check_hist(c, rec):
    snaps = c["snaps"]
    te = tracks.stub(snaps)
    t0, tf = window(c, len(snaps))
    got = te.time_tracking(t0=t0, tf=tf, lin_levels=[0.5], **tracks.window(c))
    per = [tracks.recs(s) for s in snaps[t0:tf]]
    if not te.calls and per:
        rec.event("stand-in not used")
        return
    if not per:
        rec.event("empty window")
    tr = tracks.structure(got, per, t0)
    rec.nontrivial(sum(1 for p in per if p) > 1)
    rec.event("%d tracks" % min(len(tr), 6), "window" if tf or t0 else "all", *(["empty snapshot"] if not all(per) else []))


def fields():
    return st.fixed_dictionaries(dict(
        scenes=st.lists(likely(nmin=18, nmax=22, maxpeaks=2), min_size=2, max_size=4), gap=st.sampled_from([None, None, 0, 1, 2]),
        levels=st.lists(fx(0.2, 0.7, 0.05), min_size=1, max_size=2, unique=True).flatmap(
            lambda v: st.sampled_from([[-q for q in v] + v, [-v[0], v[0]], v])),
        ntimes=st.sampled_from([1, 3, 5]), skip=st.sampled_from([True, False]), filt=st.sampled_from([None, None, "space"])))


def check_fields(c, rec):
    sc = c["scenes"]
    g = {k: sc[0][k] for k in ("nx", "ny", "dx", "dy", "lon0", "lat0", "unit")}
    zs = []
    for i, s in enumerate(sc):
        x, y, z = scene_xyz(dict(s, **g))
        zs.append(z * (i != c["gap"]))
    ds = dataset(x, y, zs)
    levels = np.array(sorted(c["levels"])) * sc[0]["unit"]
    kw = dict(criteria={"ellipse_fit": 1.0, "gaussian_fit": 0.6}, skip=c["skip"], filt=c["filt"], kernel=21)
    got = tracker(ds, **kw).time_tracking(lin_levels=levels, **tracks.window(c))
    per = []
    for t in range(len(zs)):
        per.append(parse(tracker(dataset(x, y, [zs[t]]), **kw)._detect_snapshot(0, levels)))
    tr = tracks.structure(got, per)
    rec.nontrivial(sum(1 for p in per if p) > 1)
    rec.event(*(["empty snapshot"] if not all(per) else []))


TESTS = [Test("histories", hist, check_hist, 2500, 150000, weight=2), Test("fields", fields, check_fields, 400, 30000, weight=1.5)]
