"""Eddy records: what is stored is what the eddy has, numbered in order, and reset on exit."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from core import Test, need
from gen import fx

PROPERTY = "C24"
BUDGET = 30
RULE = ("Histories of 1 to 12 operations: store or discard eddies with any values (contours of 2 to 9 vertices, missing "
        "values, arrays, scalars or lists as attributes), leave, or ask for a selection of properties, among them ones that "
        "do not exist, against a model of the two tables. Non-trivial: at least two records and another operation.")
ASSUMPTIONS = ["contours have a shape other than 2x2 (which is ambiguous), or are 2x2 in (x, y) order"]

ALL = ["identifier", "contour", "level", "area_eddy", "radius_eddy", "ellipse_params", "contour_ellipse_error", "ellipse_eccen",
       "contour_center", "eddy_sign", "eddy_maxima", "gaussian_params", "contour_gaussian_error"]
NAMES = {"contour": ["contour_path_x", "contour_path_y"], "ellipse_params": ["ellipse_params_a", "ellipse_params_b", "ellipse_params_theta"],
         "contour_center": ["contour_x", "contour_y"], "eddy_maxima": ["maxima", "maxima_y", "maxima_x"],
         "gaussian_params": ["gaussian_params_" + k for k in ("x", "y", "sigma_x", "sigma_y", "theta")]}
MISSING = ["nothing", "area", "countour", "_level", "gaussian_params_x"]
DISCARDED = ["reason", "level", "area_eddy", "radius_eddy", "contour_ellipse_error", "contour_center", "ellipse_eccen", "eddy_sign", "eddy_maxima",
             "contour_gaussian_error"]


def val():
    return st.one_of(fx(-1000, 1000), fx(-1, 1, 1e-6), st.just(None))


def ops():
    eddy = st.fixed_dictionaries(dict(
        n=st.integers(2, 9), contour=st.lists(fx(-360, 360), min_size=18, max_size=18), level=fx(-2, 2), area=val(), radius=val(), ee=val(), ecc=val(),
        ge=val(), sign=st.sampled_from([1, -1]), ell=st.lists(fx(-9, 9), min_size=3, max_size=3), centre=st.lists(fx(-360, 360), min_size=2, max_size=2),
        maxima=st.lists(fx(-360, 360), min_size=3, max_size=3), gauss=st.one_of(st.none(), st.lists(fx(-360, 360), min_size=5, max_size=5)),
        form=st.sampled_from(["array", "list", "column"])))
    op = st.one_of(st.tuples(st.just("store"), eddy), st.tuples(st.just("discard"), eddy, st.sampled_from(["area", "eccentricity", "other", "gaussian_check"])),
                   st.tuples(st.just("store"), eddy), st.tuples(st.just("exit"), st.booleans()),
                   st.tuples(st.just("select"), eddy, st.lists(st.sampled_from(ALL[1:]), min_size=1, max_size=5, unique=True), st.sampled_from([None] * 8 + MISSING),
                             st.integers(0, 5), st.booleans()))
    return st.lists(op, min_size=1, max_size=12).map(lambda v: {"ops": [list(o) for o in v]})


def nan(v):
    return np.nan if v is None else v


def make(e):
    from trackeddy.eddy import Eddy
    p = np.array(e["contour"][:2 * e["n"]]).reshape(-1, 2)
    q = Eddy(p, e["level"])
    shape = {"array": np.array, "list": list, "column": lambda v: np.array(v)[:, None]}[e["form"]]
    q.area_eddy, q.radius_eddy = nan(e["area"]), np.array(nan(e["radius"]))
    q.contour_ellipse_error, q.ellipse_eccen, q.contour_gaussian_error = nan(e["ee"]), np.float64(nan(e["ecc"])), [nan(e["ge"])]
    q.eddy_sign = np.array(e["sign"])
    q.ellipse_params, q.contour_center, q.eddy_maxima = shape(e["ell"]), np.array(e["centre"]), shape(e["maxima"])
    q.gaussian_params = None if e["gauss"] is None else np.array(e["gauss"])
    want = {"contour": p.T.tolist(), "level": [e["level"]], "area_eddy": [nan(e["area"])], "radius_eddy": [nan(e["radius"])], "ellipse_params": e["ell"],
            "contour_ellipse_error": [nan(e["ee"])], "ellipse_eccen": [nan(e["ecc"])], "contour_center": e["centre"], "eddy_sign": [e["sign"]],
            "eddy_maxima": e["maxima"], "gaussian_params": e["gauss"] or [None], "contour_gaussian_error": [nan(e["ge"])]}
    return q, want


def flat(want, keys):
    out = {}
    for k in keys:
        names = NAMES.get(k, [k])
        v = want[k]
        if len(v) != len(names):
            names = [k]      # a property without values
        out.update(zip(names, v))
    return out


def equal(a, b):
    if b is None:
        return a is None or a is pd.NaT or (np.ndim(a) == 0 and pd.isna(np.asarray(a).item()))
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == "O":
        a = a.astype(float)
    return a.shape == b.shape and bool(((a == b) | (pd.isna(a) & pd.isna(b))).all())


def check(c, rec):
    from trackeddy.eddy import Eddy
    make({"n": 3, "contour": [0.0] * 18, "level": 0.0, "area": 0, "radius": 0, "ee": 0, "ecc": 0, "ge": 0, "sign": 1, "ell": [0, 0, 0],
          "centre": [0, 0], "maxima": [0, 0, 0], "gauss": None, "form": "array"})[0].exit()
    stored, dropped, kinds = [], [], []
    total = 0
    for op in c["ops"]:
        kinds.append(op[0])
        if op[0] == "exit":
            # of any eddy, also one without values
            (Eddy(None, 0.0) if op[1] else Eddy(np.zeros((3, 2)), 1.0)).exit()
            stored, dropped = [], []
            continue
        q, want = make(op[1])
        n = op[1]["n"]
        if op[0] == "store":
            want["identifier"] = [len(stored)]
            total += 1
            t = q.store()
            stored.append((n, flat(want, ALL)))
            need(isinstance(t, pd.DataFrame) and len(t) == sum(k for k, _ in stored), "%d rows of %d eddies with %d vertices", len(t), len(stored), sum(k for k, _ in stored))
            at = 0
            for i, (k, w) in enumerate(stored):
                g = t.iloc[at:at + k]
                at += k
                need(list(g["index"]) == list(range(k)), "rows of eddy %d are numbered %s", i, list(g["index"]))
                for name, v in w.items():
                    need(name in g, "column %s is missing", name)
                    ref = v if name.startswith("contour_path") else [v] * k
                    for a, b in zip(g[name], ref):
                        need(equal(a, b), "%s of eddy %d is %s, expected %s", name, i, list(g[name]), v)
        elif op[0] == "discard":
            total += 1
            t = q.discarded(op[2])
            dropped.append(dict(flat(want, DISCARDED[1:]), reason=op[2]))
            need(isinstance(t, pd.DataFrame) and list(t.index) == list(range(len(dropped))), "discarded table numbered %s", list(t.index))
            for i, w in enumerate(dropped):
                for name, v in w.items():
                    need(name in t, "column %s is missing", name)
                    a = t[name].iloc[i]
                    need((str(a) == v) if name == "reason" else equal(a, v), "%s of discarded eddy %d is %s, expected %s", name, i, a, v)
        else:
            keys, odd = list(op[2]), op[3]
            if odd:
                keys.insert(op[4] % (len(keys) + 1), odd)
            try:
                d = q.to_table(keys) if op[5] and "contour" in keys else q.to_dict(keys)
            except ValueError:
                need(odd, "properties %s of an eddy: ValueError", keys)
                rec.event("no such property")
                continue
            need(not odd, "property %s does not exist and was returned", odd)
            w = flat(want, keys)
            need(set(d) - {"index"} == set(w), "properties %s, asked for %s", list(d), keys)
            for name, v in w.items():
                if isinstance(d, pd.DataFrame):
                    ref = v if name.startswith("contour_path") else [v] * n
                    need(len(d) == n and all(equal(a, b) for a, b in zip(d[name], ref)), "%s is %s, expected %s", name, list(d[name]), v)
                else:
                    need(equal(d[name], v), "%s is %s, expected %s", name, d[name], v)
    Eddy(None, 0.0).exit()
    rec.nontrivial(total >= 2 and len(set(kinds)) > 1)
    rec.event(*sorted(set(kinds)))


TESTS = [Test("records", ops, check, 3000, 150000)]
