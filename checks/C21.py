"""The past of a tracking does not depend on the future, nor on the window beyond it."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import tables
import tracks
from core import Test, need
from gen import fx
from scenes import likely, scene_xyz
from sut import dataset, parse, tracker

PROPERTY = "C21"
BUDGET = 45
RULE = ("histories: the histories of C19 and those of C20 with gaps, tracked to the end and again with the snapshots after some time k removed or replaced by "
        "others; tracked from t0, against the shifted tracking of the snapshots from t0; with more missing snapshots allowed "
        "than there are. fields: the same with real snapshots. Non-trivial: eddies before and after k.")
ASSUMPTIONS = []


def hist():
    return st.tuples(st.one_of(tracks.histories(nt=(2, 8)), tracks.gaps()), tracks.histories(nt=(2, 8), npart=3), st.integers(1, 10), st.sampled_from(["cut", "cut", "replace", "start", "gap"]), st.booleans()).map(
        lambda v: dict(v[0], other=v[1]["snaps"], k=v[2], how=v[3], at=v[4]))


def view(table, upto=None, shift=0):
    """{(id, time): fingerprint} of rows with time < upto."""
    if len(table) == 0:
        return {}
    out = {}
    for r in parse(table):
        if upto is None or r["time"] < upto:
            out[(r["identifier"], r["time"] - shift)] = tables.fingerprint(r)
    return out


def brief(v):
    return sorted(v)[:12]


def same(a, b, what):
    need(a == b, "%s: (identifier, time) %s, expected %s", what, brief({k for k in a if b.get(k) != a[k]}),
         brief({k for k in b if a.get(k) != b[k]}))


def check_hist(c, rec):
    snaps = c["snaps"]
    n = len(snaps)
    k = min(c["k"], n - 1)
    # right after an eddy appears or comes back
    new = [t + 1 for t in range(1, n - 1) if len(snaps[t]) > len(snaps[t - 1])]
    if c["at"] and new:
        k = new[c["k"] % len(new)]

    def run(s, nt=None, **kw):
        te = tracks.stub(s)
        out = te.time_tracking(lin_levels=[0.5], ntimes=c["ntimes"] if nt is None else nt, **kw)
        run.calls = te.calls
        return out
    rec.event(c["how"])
    if c["how"] == "start":
        a, b = view(run(snaps, t0=k), shift=k), view(run(snaps[k:]))
        same(a, b, "from time %d on, and on its own" % k)
        rec.nontrivial(len({t for _, t in a}) > 1)
        return
    full = run(snaps)
    if not run.calls:
        rec.event("stand-in not used")
        return
    if c["how"] == "cut":
        a = view(run(snaps, tf=k))
        same(view(full, k), a, "tracking to time %d of %d, and to time %d only" % (k, n, k))
    elif c["how"] == "replace":
        a = view(run(snaps[:k] + c["other"]), k)
        same(view(full, k), a, "tracking with other snapshots from time %d on" % k)
    else:
        big = max(c["ntimes"], n)
        a = view(run(snaps, nt=big))
        same(a, view(run(snaps, nt=big + 7)), "tracking with ntimes %d and %d" % (big, big + 7))
    rec.nontrivial(a and any(snaps[k:]))


def fields():
    return st.fixed_dictionaries(dict(
        scenes=st.lists(likely(nmin=18, nmax=22, maxpeaks=2), min_size=2, max_size=4), k=st.integers(1, 3), f=fx(0.25, 0.6, 0.05),
        ntimes=st.sampled_from([1, 3, 5]), how=st.sampled_from(["cut", "replace", "start"]), skip=st.sampled_from([True, True, False]), filt=st.sampled_from([None, "convolution", "zonal", "meridional"]),
        nan=st.sampled_from([False, False, True])))


def check_fields(c, rec):
    sc = c["scenes"]
    g = {k: sc[0][k] for k in ("nx", "ny", "dx", "dy", "lon0", "lat0", "unit")}
    zs = []
    for s in sc:
        x, y, z = scene_xyz(dict(s, **g))
        zs.append(z)
    k = min(c["k"], len(zs) - 1)
    levels = np.array([-c["f"], c["f"]]) * g["unit"]

    def run(z, **kw):
        te = tracker(dataset(x, y, z), criteria={"ellipse_fit": 1.0, "gaussian_fit": 0.5}, skip=c["skip"],
                     filt=c["filt"] and "space", kernel=21, nan_treatment=c["nan"])
        if c["filt"]:
            te.S_filter_setup = {"filter_type": c["filt"], "kernel": 21} if c["filt"] == "convolution" else {"filter_type": c["filt"]}
        return te.time_tracking(lin_levels=levels, ntimes=c["ntimes"], **kw)
    rec.event(c["how"])
    if c["how"] == "start":
        a, b = view(run(zs, t0=k), shift=k), view(run(zs[k:]))
        same(a, b, "from time %d on, and on its own" % k)
    elif c["how"] == "cut":
        a, b = view(run(zs), k), view(run(zs, tf=k))
        same(a, b, "tracking all and to time %d only" % k)
    else:
        a, b = view(run(zs), k), view(run(zs[:k] + [1.1 * z[::-1] for z in zs[k:]]), k)
        same(a, b, "tracking with other snapshots from time %d on" % k)
    rec.nontrivial(len(a))


TESTS = [Test("histories", hist, check_hist, 2000, 150000, weight=2), Test("fields", fields, check_fields, 300, 20000, weight=1)]
