"""The plots show every eddy and every discarded contour."""
import warnings

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from scenes import likely, over_ocean, scene, scene_ds
from sut import tracker

PROPERTY = "C25"
BUDGET = 50
RULE = ("Detections in the fields of C01 and C08 and windows of the ocean, of one level (also without eddies or without discarded contours, "
        "and a selection of the eddies) and of 1 to 6 levels; lines and markers of the figure are read back. Non-trivial: at least "
        "one eddy and (one level) one discarded contour or (several levels) two levels with eddies.")
ASSUMPTIONS = ["colours are compared with those of the legend"]

LABELS = {"eccentricity": "Fail eccentricity", "area": "Area fail", "similarity": "Contour != ellipse", "ellipse_area": "Ellipse area fail",
          "eddy_is_island": "Eddy is island", "gaussian_fit_failed": "Gaussian fit failed", "gaussian_check": "Contour != Gaussian"}


def plt():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as p
    return p


def rgba(line):
    from matplotlib.colors import to_rgb
    return tuple(np.round(to_rgb(line.get_color()), 6))


def lines(ax):
    return [(np.column_stack([np.asarray(v, float) for v in l.get_data()]), l) for l in ax.get_lines()]


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def field(ax, te, what):
    m = [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
    need(len(m) == 1, "%d fields in the %s plot", len(m), what)
    got = np.ma.filled(np.ma.asarray(m[0].get_array(), float), np.nan).ravel()
    want = np.asarray(te.data2track, float).squeeze().ravel()
    need(np.array_equal(got, want, equal_nan=True), "the field of the %s plot is another", what)


def legend(ax):
    h, l = ax.get_legend_handles_labels()
    return {k: rgba(v) for v, k in zip(h, l)}


def prepare(c):
    x, y, z, ds = scene_ds(c["scene"])
    te = tracker(ds, criteria=c["crit"], skip=c["skip"])
    return te, c["scene"]["unit"]


CRIT = st.sampled_from([{}] + [{"ellipse_fit": 1.0, "max_area": 100.0}, {"ellipse_fit": 1.0, "max_area": 100.0, "eccentricity": 0.8}] * 3)


def busy():
    """Well separated peaks of several sizes, elongated ones and weak noise."""
    @st.composite
    def strat(draw):
        c = draw(likely(maxpeaks=4, q=0.8))
        top = c["peaks"][0][0]
        for p in c["peaks"][1:]:
            if draw(st.integers(0, 3)):
                p[0] = round(top * draw(st.sampled_from([1, 0.9, 0.5, 0.3, -1, -0.5])), 4)
            if draw(st.integers(0, 2)) == 0:
                p[4] = round(p[4] * 0.4, 4)
        if draw(st.integers(0, 2)) == 0:
            c["noise"] = [draw(st.sampled_from([0.02, 0.05])), draw(st.sampled_from([0.7, 1.5])), draw(st.integers(0, 10 ** 6))]
        return c
    return strat()


def one():
    return st.fixed_dictionaries(dict(scene=st.one_of(busy(), busy(), busy(), busy(), scene(), scene(island=True)), f=fx(0.15, 0.8), skip=st.booleans(),
                                      crit=CRIT, part=st.booleans(), args=st.booleans()))


def check_one(c, rec):
    te, u = prepare(c)
    te._filter_data_(te.rawdata.isel(time=0).squeeze(), filter=None)
    top = c["scene"]["peaks"][0][0] if c["scene"]["peaks"] else 1
    e, d = te._detect_one_level(c["f"] * top * u)
    if c["part"] and len(e):
        e = e[e["maxima_x"] > e["maxima_x"].min()]      # a selection of the table
        if not len(e):
            return
    before = (e.copy(deep=True), None if isinstance(d, list) else d.copy(deep=True), te.data2track.copy(deep=True))
    p = plt()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            te.plot_eddy_detection_in_level(e, d, **({"markersize": 3} if c["args"] else {}))
        need(len(p.get_fignums()) == 1, "%d figures", len(p.get_fignums()))
        ax = p.gcf().axes
        need(len(ax) >= 2, "%d panels", len(ax))
        left, right = ax[:2]
        for a, w in ((left, "left"), (right, "right")):
            field(a, te, w)
        ids = list(e.index.unique(level=0)) if len(e) else []
        L = lines(left)
        paths = [v for v, _ in L if len(np.unique(v, axis=0)) > 1]
        need(len(paths) == len(ids), "%d contours are drawn, of %d eddies", len(paths), len(ids))
        for i in ids:
            t = e.loc[i]
            q = np.column_stack([t["contour_path_x"].values.astype(float), t["contour_path_y"].values.astype(float)])
            need(any(same(q, v) for v in paths), "the contour of eddy %s is not drawn", i)
            m = np.array([float(t["contour_x"].iloc[0]), float(t["contour_y"].iloc[0])])
            need(any(len(np.unique(v, axis=0)) == 1 and same(v[0], m) for v, _ in L), "the centre of eddy %s is not marked", i)
        n = 0 if isinstance(d, list) else len(d)
        leg = legend(right)
        R = [(v, l) for v, l in lines(right) if not l.get_label() or l.get_label().startswith("_")]
        need(len(R) == n, "%d markers, of %d discarded contours", len(R), n)
        for k in range(n):
            r = d.iloc[k]
            m = np.array([[float(r["contour_x"]), float(r["contour_y"])]])
            at = [l for v, l in R if same(v, m)]
            need(at, "the discarded contour centred at %s is not marked", m[0])
            name = LABELS.get(str(r["reason"]))
            if name:
                need(name in leg, "%r is not in the legend %s", name, sorted(leg))
                need(any(rgba(l) == leg[name] for l in at), "the contour discarded for %s is marked %s, legend %s", r["reason"], rgba(at[0]), leg[name])
            else:
                known = {leg[v] for v in LABELS.values() if v in leg}
                need(any(rgba(l) not in known for l in at), "the contour discarded for %s is marked as for another reason", r["reason"])
        need(before[0].equals(e) and before[2].identical(te.data2track) and (before[1] is None or before[1].equals(d)), "the plot changes its input")
        rec.nontrivial(ids and n)
        rec.event("eddies" if ids else "no eddies", "discarded" if n else "nothing discarded")
    finally:
        p.close("all")


def many():
    return st.fixed_dictionaries(dict(scene=st.one_of(busy(), busy(), busy(), scene()), skip=st.sampled_from([True, True, False]), levels=st.lists(st.one_of(fx(0.2, 0.7, 0.05), fx(0.2, 0.7, 0.05), fx(0.2, 0.7, 0.05), fx(-0.9, 0.9, 0.05)), min_size=3, max_size=6),
                                      crit=CRIT))


def check_many(c, rec):
    te, u = prepare(c)
    peaks = [p[0] for p in c["scene"]["peaks"]] or [1]
    levels = np.unique(np.round([l * u * peaks[i % len(peaks)] for i, l in enumerate(c["levels"])], 9))
    t = te._detect_snapshot(0, levels)
    before = (t.copy(deep=True), te.data2track.copy(deep=True))
    p = plt()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            te.plot_eddy_detection_multilevel(t)
        need(len(p.get_fignums()) == 1 and len(p.gcf().axes) >= 1, "%d figures", len(p.get_fignums()))
        ax = p.gcf().axes[0]
        field(ax, te, "multilevel")
        ids = list(t.index.unique(level=0)) if len(t) else []
        L = [(v, l) for v, l in lines(ax) if len(np.unique(v, axis=0)) > 1]
        col = {}
        for i in ids:
            g = t.loc[i]
            q = np.column_stack([g["contour_path_x"].values.astype(float), g["contour_path_y"].values.astype(float)])
            at = {rgba(l) for v, l in L if same(q, v)}
            need(len(at) == 1, "the contour of eddy %s is drawn in %d colours", i, len(at))
            col.setdefault(float(g["level"].iloc[0]), set()).update(at)
        need(len({v.tobytes() for v, _ in L}) == len(ids), "%d contours are drawn, of %d eddies", len({v.tobytes() for v, _ in L}), len(ids))
        for l, v in col.items():
            need(len(v) == 1, "eddies of level %r are drawn in %d colours", l, len(v))
        need(len(set.union(set(), *col.values())) == len(col), "%d colours for %d levels", len(set.union(set(), *col.values())), len(col))
        leg = legend(ax)
        if 0 < len(col) < 5:
            need(len(leg) == len(col), "legend %s, levels %s", sorted(leg), sorted(col))
        for k, v in leg.items():
            l = min(col, key=lambda w: abs(w - float(k)))
            need(abs(l - float(k)) <= 1e-3 * abs(l), "the legend has the level %s, levels %s", k, sorted(col))
            need(v in col[l], "level %s is %s in the legend, drawn in %s", k, v, col[l])
        need(before[0].equals(t) and before[1].identical(te.data2track), "the plot changes its input")
        rec.nontrivial(len(col) > 1)
        rec.event("%d levels" % len(col))
    finally:
        p.close("all")


TESTS = [Test("one_level", one, check_one, 500, 20000, 2), Test("several_levels", many, check_many, 300, 20000, 1.5),
         Test("ocean", over_ocean(one), check_one, 100, 5000, 0.5)]
