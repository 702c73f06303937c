"""A result depends on its inputs only, whatever was run before."""
import copy
import hashlib
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from scenes import likely, scene_xyz
from sut import dataset, tracker
from zygote import Zygote

PROPERTY = "C04"
BUDGET = 70
RULE = ("Histories of 2 to 9 calls on up to 3 trackers over 2 data sets of 2 or 3 snapshots: choose a snapshot and filter, detect "
        "one level, detect a snapshot over levels, track in time, change a setting, and calls that fail (unknown filter, variable, "
        "coordinates, levels, a detection interrupted by an error) or use eddy records on their own. Some data sets have snapshots of the same values at other places. Each result is compared, bit by bit, with that of the "
        "same call alone in a fresh process. Non-trivial: at least two compared results with eddies and a failed or "
        "different call between them.")
ASSUMPTIONS = ["the fresh process is a fork made before any call"]

CHANGES = [["filter", "space"], ["filter", "space"], ["filter", None], ["kernel", 5], ["kernel", 6], ["kernel", 9], ["kernel", 21], ["setup", "zonal"], ["setup", "meridional"],
           ["skip", True], ["skip", False], ["nan", True], ["nan", False], ["ellipse_fit", 1.0], ["ellipse_fit", 0.85], ["gaussian_fit", 0.95],
           ["gaussian_fit", 0.5], ["eccentricity", 0.5], ["max_area", 0.5]]
BAD = ["filter", "variable", "coords", "levels", "interrupt", "eddy", "eddy2", "kernel"]


def histories():
    lv = fx(0.25, 0.7, 0.05)

    @st.composite
    def strat(draw):
        c = {"sets": [[draw(likely(maxpeaks=2, nmin=20, nmax=24)) for _ in range(draw(st.integers(2, 3)))] for _ in range(2)],
             "nan": [draw(st.sampled_from([False, False, True])) for _ in range(2)],
             "like": [draw(st.sampled_from([None, "flipx", "flipy", "turn", "roll", "neg", "ends", "part", "part"])) for _ in range(2)], "ops": []}
        pool = [draw(st.sampled_from([1, -1])) * draw(lv)] if draw(st.booleans()) else []
        for _ in range(draw(st.integers(2, 9))):
            k = 0 if pool and draw(st.booleans()) else draw(st.sampled_from([0, 0, 0, 1, 2]))
            op = draw(st.sampled_from(["set", "level", "level", "level", "snapshot", "snapshot", "track", "bad", "bad", "new", "change", "change"]))
            if op == "set":
                c["ops"].append([op, k, draw(st.integers(0, 2)), draw(st.sampled_from([None, None, "space"]))])
            elif op == "new":
                c["ops"].append([op, k, draw(st.integers(0, 1)), draw(st.sampled_from([{}, {}, {"ellipse_fit": 1.0}, {"gaussian_fit": 0.99}, {"max_area": 0.1}, {"eccentricity": 0.0}])),
                                 draw(st.booleans()), draw(st.sampled_from([None, None, "space"])), draw(st.sampled_from([None, 5, 7]))])
            elif op == "change":
                c["ops"].append([op, k, *draw(st.sampled_from(CHANGES))])
            elif op == "level":
                c["ops"].append([op, k, pool[0] if pool else draw(st.sampled_from([1, -1])) * draw(lv)])
            elif op == "bad":
                c["ops"].append([op, k, draw(st.sampled_from(BAD))])
            else:
                ls = pool if pool and draw(st.booleans()) else sorted({s * draw(lv) for s in draw(st.sampled_from([[1], [-1, 1], [1, 1]]))})
                if op == "snapshot":
                    c["ops"].append([op, k, draw(st.integers(0, 2)), ls])
                else:
                    c["ops"].append([op, k, ls, draw(st.sampled_from([1, 5]))])
            if op in ("snapshot", "track") and draw(st.booleans()):     # the same again after a change
                use = c["ops"].pop()
                if draw(st.booleans()):
                    c["ops"].append(["change", k, "filter", "space"])
                c["ops"] += [use, ["change", k, *draw(st.sampled_from(CHANGES))], use]
        return c
    return strat()


def make_ds(c, i):
    sc = c["sets"][i]
    zs = []
    for s in sc:
        x, y, z = scene_xyz(dict(s, nx=sc[0]["nx"], ny=sc[0]["ny"], lon0=sc[0]["lon0"], lat0=sc[0]["lat0"],
                                 dx=sc[0]["dx"], dy=sc[0]["dy"], unit=1.0))
        zs.append(z)
    like = c.get("like", [None, None])[i]
    if like:
        # snapshots alike: the same values at other places, so that their sums, extremes or ends do not differ
        a = np.round(zs[0] * 2 ** 16) / 2 ** 16
        zs = [a]
        for t in range(1, len(sc)):
            if like == "ends":
                b = np.round(scene_xyz(dict(sc[t], nx=sc[0]["nx"], ny=sc[0]["ny"], lon0=sc[0]["lon0"], lat0=sc[0]["lat0"], dx=sc[0]["dx"], dy=sc[0]["dy"], unit=1.0))[2] * 2 ** 16) / 2 ** 16
                b[0], b[-1], b[:, 0], b[:, -1] = a[0], a[-1], a[:, 0], a[:, -1]
            elif like == "part":     # a little stronger in one part of the domain only
                b = zs[-1].copy()
                n, m = b.shape
                k = int(round(abs(sc[t]["peaks"][0][1]) * n)) % n
                b[k:] *= 1 + 0.03 * np.minimum(np.arange(n - k), 6)[:, None] / 6
            else:
                b = {"flipx": lambda v: v[:, ::-1], "flipy": lambda v: v[::-1], "turn": lambda v: v[::-1, ::-1], "neg": lambda v: -v,
                     "roll": lambda v: np.roll(v, (3, 5), (0, 1))}[like](zs[-1]).copy()
            zs.append(b)
    if c["nan"][i]:
        zs[0][2, 3] = np.nan
    return dataset(x, y, zs)


def digest(t):
    if not isinstance(t, pd.DataFrame):
        return repr(t)[:80]
    h = hashlib.sha1(repr((list(t.columns), list(t.index.names), [str(d) for d in t.dtypes])).encode())
    h.update(repr(t.index.tolist()).encode())
    for col in t.columns:
        v = t[col]
        h.update(repr([str(q) for q in v]).encode() if v.dtype == object else np.ascontiguousarray(v.values).tobytes())
    return "%d rows %s" % (len(t), h.hexdigest()[:16])


def field(te):
    v = np.ascontiguousarray(te.data2track.values)
    return "%s %s %s" % (v.dtype, v.shape, hashlib.sha1(v.tobytes()).hexdigest()[:16])


def settings(te):
    return copy.deepcopy([te.identification_criteria, te.S_filter_setup, te.skip_gaussian_fit, te.nan_treatment, te.filter])


class World:
    def __init__(self, c):
        self.c = c
        self.ds = [make_ds(c, i) for i in range(2)]
        self.te = {}
        self.kept = {}
        self.spec = {}

    def new(self, k, i, crit, skip, filt, kernel=None):
        self.te[k] = tracker(self.ds[i], criteria=crit, skip=skip, filt=filt, kernel=kernel)
        self.kept[k] = settings(self.te[k])
        self.spec[k] = {"ds": i, "crit": dict(crit), "skip": skip, "filt": filt, "nan": False,
                        "setup": copy.deepcopy(self.te[k].S_filter_setup), "set": None}

    def get(self, k):
        if k not in self.te:
            self.new(k, k % 2, {}, k != 1, "space" if k == 2 else None, 9 if k == 2 else None)
        return self.te[k]

    def set(self, k, t, filt):
        te = self.get(k)
        t = t % te.rawdata.sizes["time"]
        te._filter_data_(te.rawdata.isel(time=t).squeeze(), filter=filt)
        self.spec[k]["set"] = [t, filt, copy.deepcopy(te.S_filter_setup), te.nan_treatment]

    def change(self, k, what, value):
        te, s = self.te[k], self.spec[k]
        if what == "filter":
            te.filter = s["filt"] = value
        elif what == "kernel":
            te.S_filter_setup = {"filter_type": "convolution", "mode": "uniform", "kernel": value}
        elif what == "setup":
            te.S_filter_setup = {"filter_type": value}
        elif what == "skip":
            te.skip_gaussian_fit = s["skip"] = value
        elif what == "nan":
            te.nan_treatment = s["nan"] = value
        else:
            te.identification_criteria[what] = s["crit"][what] = value
        s["setup"] = copy.deepcopy(te.S_filter_setup)
        self.kept[k] = settings(te)

    def level(self, k, level):
        e, d = self.te[k]._detect_one_level(level)
        return [digest(e), digest(d), field(self.te[k])], 0 if e.empty else 1

    def snapshot(self, k, t, levels):
        te = self.te[k]
        r = te._detect_snapshot(t % te.rawdata.sizes["time"], np.array(levels))
        return [digest(r), field(te)], 0 if r.empty else 1

    def track(self, k, levels, ntimes):
        te = self.te[k]
        r = te.time_tracking(tf=te.rawdata.sizes["time"], lin_levels=np.array(levels), ntimes=ntimes)
        return [digest(r), field(te)], 0 if r.empty else 1


def alone(req):
    """In the fresh process."""
    import io
    import sys
    sys.stdout = io.StringIO()
    w = World(req["c"])
    s = req["spec"]
    w.new(0, s["ds"], s["crit"], s["skip"], s["filt"])
    te = w.te[0]
    if s["set"]:
        te.S_filter_setup, te.nan_treatment = s["set"][2:]
        w.set(0, *s["set"][:2])
    te.S_filter_setup, te.nan_treatment = s["setup"], s["nan"]
    op = req["op"]
    return getattr(w, op[0])(0, *op[2:])[0]


ZY = {}


def zygote():
    if os.getpid() not in ZY:
        ZY[os.getpid()] = Zygote(alone)
    return ZY[os.getpid()]


class Stop(Exception):
    pass


def bad(w, k, kind):
    """Calls that fail, and eddy records used on their own."""
    from trackeddy.eddy import Eddy
    from trackeddy.trackeddy import TrackEddy
    te = w.get(k)
    try:
        if kind == "filter":
            old = te.S_filter_setup
            te.S_filter_setup = {"filter_type": "none of them"}
            try:
                te._filter_data_(te.rawdata.isel(time=0), filter="space")
            finally:
                te.S_filter_setup = old
        elif kind == "variable":
            TrackEddy(w.ds[0], "sst")
        elif kind == "coords":
            TrackEddy(w.ds[0].rename({"lon": "p", "lat": "q"}), "ssh")
        elif kind == "levels":
            te._detect_snapshot(0, np.array(["a"]))
        elif kind == "kernel":
            te.S_filter_setup["kernel"], old = "x", te.S_filter_setup["kernel"]
            try:
                te._filter_data_(te.rawdata.isel(time=0), filter="space")
            finally:
                te.S_filter_setup["kernel"] = old
        elif kind == "interrupt":
            # the second contour of a detection raises
            t2 = tracker(w.ds[k % 2])
            t2._filter_data_(t2.rawdata.isel(time=0), filter=None)

            class Crit(dict):
                n = 0

                def __getitem__(self, key):
                    if key == "gaussian_fit":
                        self.n += 1
                        if self.n > 1:
                            raise Stop()
                    return dict.__getitem__(self, key)
            t2.identification_criteria = Crit(t2.identification_criteria)
            for l in (0.4, -0.4, 0.3, -0.3):
                t2._detect_one_level(l)
        elif kind == "eddy":
            p = np.array([[0, 0], [1, 0], [1, 1], [0, 0.]])
            e = Eddy(p, 0.5)
            e.contour_center = p.mean(0)
            e.eddy_maxima = np.array([1., 2, 3])
            e.ellipse_params = np.array([1., 2, 3])
            e.gaussian_params = np.arange(5.)
            e.store()
            e.discarded("other")
        else:
            Eddy(None, 0.1).to_dict(["nothing"])
    except Exception as ex:
        return type(ex).__name__
    return "no error"


def check(c, rec):
    zy = zygote()
    w = World(c)
    before = [d.copy(deep=True) for d in w.ds]
    compared = between = 0
    last = None
    for op in c["ops"]:
        name, k = op[0], op[1]
        w.get(k)
        spec = w.spec[k]
        if name == "bad":
            rec.event("%s: %s" % (op[2], bad(w, k, op[2])))
            if op[2] in ("filter", "kernel", "levels"):
                # the snapshot chosen before, or the one that could not be filtered
                t = spec["set"]
                w.set(k, *(t or [0, None])[:2])
            between += compared > 0
            continue
        if name == "set":
            w.set(k, op[2], op[3])
            continue
        if name == "change":
            w.change(k, *op[2:])
            rec.event("change")
            continue
        if name == "new":
            w.new(k, *op[2:])
            continue
        if name == "level" and not spec["set"]:
            w.set(k, 0, None)
        lv = op[-1] if name == "snapshot" else None
        got, some = getattr(w, name)(k, *op[2:])
        ref = zy.ask({"c": c, "spec": w.spec[k], "op": op})
        need(isinstance(ref, list), "%s", ref)
        need(settings(w.te[k]) == w.kept[k], "%s changes the settings of the tracker from %s to %s", op, w.kept[k], settings(w.te[k]))
        need(got == ref, "%s on tracker %d gives %s, alone %s", op, k, got, ref)
        if name == "level":
            again, _ = w.level(k, op[2])
            need(again == ref, "%s a second time gives %s, first %s", op, again, ref)
        if name in ("snapshot", "track"):
            spec["set"] = None     # they choose the snapshot on their own
        compared += some
        rec.event(name)
        if last is not None and last != op and some:
            between += 1
        last = op
    for i, (a, b) in enumerate(zip(w.ds, before)):
        need(a.identical(b), "data set %d was modified", i)
    rec.nontrivial(compared >= 2 and between)


TESTS = [Test("history", histories, check, 1600, 100000)]
