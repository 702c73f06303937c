"""What is tracked is the chosen anomaly of the raw data."""
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from scenes import likely
from sut import axes, dataset, parse, set_snapshot, tracker
from checks.C06 import same

PROPERTY = "C07"
BUDGET = 35
RULE = ("filters: fields of 3x3 to 26x22 points (noise, trends, integers, constants, missing values, any unit), no filter, convolution "
        "with kernels of 1 to 25 points, meridional, zonal, default or explicit settings, with and without nan treatment, also changed from call to call of one tracker, against a "
        "brute force reference. detection: the fields of C01 detected with a filter, against the filtered field "
        "detected without. invalid: unknown filters. chosen_time: the snapshot chosen by its index (integers of Python and NumPy) or its date. Non-trivial: the anomaly differs from the data.")
ASSUMPTIONS = ["the time filter and the Gaussian mode of the convolution are not implemented in the repository",
               "filter: the mean over the kernel, odd in size (even sizes are enlarged by one), missing values left out, zero beyond the border"]


FILTERS = [None, "convolution", "convolution", "convolution", "default", "meridional", "zonal"]
HOW = ["call", "snapshot", "track"]


def filters():
    return st.fixed_dictionaries(dict(
        then=st.one_of(st.just([]), st.just([]), st.lists(st.fixed_dictionaries(dict(
            filt=st.sampled_from(FILTERS), kernel=st.integers(1, 25), nan=st.booleans(), t=st.integers(0, 2), how=st.sampled_from(HOW),
            edit=st.booleans())), max_size=3)),
        nx=st.integers(3, 26), ny=st.integers(3, 22), kind=st.sampled_from(["noise", "trend", "ints", "const", "bump"]),
        seed=st.integers(0, 10 ** 6), unit=st.sampled_from([1.0, 1e-3, 1e4]), offset=st.sampled_from([0.0, 0.0, 10.0, -3.0]),
        pnan=st.sampled_from([0, 0, 0.02, 0.3, 0.9, "row", "column"]), nan=st.booleans(),
        filt=st.sampled_from(FILTERS), kernel=st.integers(1, 25), nt=st.integers(1, 3), t=st.integers(0, 2), time=st.booleans(), how=st.sampled_from(HOW)))


def make(c):
    r = np.random.default_rng(c["seed"])
    sh = (c["nt"], c["ny"], c["nx"])
    t, j, i = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
    k = c["kind"]
    if k == "noise":
        z = r.normal(size=sh)
    elif k == "trend":
        z = 0.1 * i - 0.2 * j + 0.05 * t + 0.1 * np.sin(i)
    elif k == "ints":
        z = r.integers(-3, 4, sh).astype(float)
    elif k == "const":
        z = np.ones(sh)
    else:
        z = np.exp(-((i - sh[2] / 2) ** 2 + (j - sh[1] / 3) ** 2) / 18.0) + 0.1 * t
    z = (z + c["offset"]) * c["unit"]
    if c["pnan"] == "row":
        z[:, r.integers(sh[1])] = np.nan
    elif c["pnan"] == "column":
        z[:, :, r.integers(sh[2])] = np.nan
    elif c["pnan"]:
        z[r.random(sh) < c["pnan"]] = np.nan
    return z


def box_ref(z, k):
    """Mean over a k x k window, zeros beyond the border, missing values left out."""
    h = k // 2
    p = np.zeros((z.shape[0] + 2 * h, z.shape[1] + 2 * h))
    p[h:h + z.shape[0], h:h + z.shape[1]] = z
    out = np.full(z.shape, np.nan)
    for j in range(z.shape[0]):
        for i in range(z.shape[1]):
            w = p[j:j + k, i:i + k]
            w = w[np.isfinite(w)]
            if len(w):
                out[j, i] = w.sum() / len(w)
    return out


def anomaly_ref(z, filt, kernel, nan):
    z = np.where(np.isnan(z), 0.0, z) if nan else z
    if filt is None:
        return z
    if filt in ("convolution", "default"):
        k = kernel if filt == "convolution" else 10
        return z - box_ref(z, k + 1 if k % 2 == 0 else k)
    ax = 1 if filt == "meridional" else 0
    n = np.isfinite(z).sum(ax, keepdims=True)
    with np.errstate(all="ignore"):
        m = np.nansum(z, ax, keepdims=True) / n
    return z - m


def check_filters(c, rec):
    from trackeddy.trackeddy import TrackEddy
    zs = make(c)
    if not c["time"]:
        zs = zs[:1]
    x, y = axes(10.0, 5.0, 0.25, 0.25, c["nx"], c["ny"])
    ds = dataset(x, y, zs if c["time"] else zs[0], time=c["time"])
    before = ds.copy(deep=True)
    te = TrackEddy(ds, "ssh", nan_treatment=c["nan"])
    te.skip_gaussian_fit = True
    # the settings at first, and then others of the same tracker
    for n, q in enumerate([c] + c.get("then", [])):
        t = q["t"] % len(zs)
        te.filter = "space" if q["filt"] else None
        te.nan_treatment = q["nan"]
        if q["filt"] == "convolution":
            if q.get("edit", True) and te.S_filter_setup["filter_type"] == "convolution":
                te.S_filter_setup["kernel"] = q["kernel"]
            else:
                te.S_filter_setup = {"filter_type": "convolution", "kernel": q["kernel"]}
        elif q["filt"] == "default":
            if n:
                te.S_filter_setup = {"filter_type": "convolution"}
        elif q["filt"]:
            te.S_filter_setup = {"filter_type": q["filt"]}
        if q["how"] == "call":
            da = te.rawdata.isel(time=t) if c["time"] else te.rawdata
            te._filter_data_(da.squeeze(), filter=te.filter)
        elif q["how"] == "snapshot":
            te._detect_snapshot(t, np.array([1e9]))
        else:
            te.time_tracking(t0=t, tf=t + 1, lin_levels=np.array([1e9]))
        got = np.asarray(te.data2track.values, float)
        ref = anomaly_ref(zs[t], q["filt"], q["kernel"], q["nan"])
        rec.event(str(q["filt"]), q["how"], "nan" if np.isnan(zs[t]).any() else "complete", "treated" if q["nan"] else "untreated",
                  *(["again"] if n else []))
        rec.nontrivial(q["filt"] is not None or (q["nan"] and np.isnan(zs[t]).any()))
        need(got.shape == ref.shape, "shape %s, reference %s", got.shape, ref.shape)
        s = np.nanmax(np.abs(zs[t]), initial=0) or 1.0
        bad = ~((np.abs(got - ref) <= 1e-9 * s) | (np.isnan(got) & np.isnan(ref)))
        # where everything but zeros beyond the border is missing, the mean is of zeros
        need(not bad.any(), "the anomaly (%d) differs at %s: %s, reference %s", n, np.argwhere(bad)[:2].tolist(), got[bad][:2], ref[bad][:2])
    need(ds.identical(before) and te.rawdata.identical(before["ssh"]), "the raw data was modified")


def detections():
    return st.fixed_dictionaries(dict(scene=likely(nmin=20, nmax=30, maxpeaks=2), f=fx(0.2, 0.6), filt=st.sampled_from(["convolution", "meridional", "zonal"]),
                                      kernel=st.integers(15, 40), offset=st.sampled_from([0.0, 2.0, -1.0]), pnan=st.sampled_from([0, 0, 0.02]), nan=st.booleans(),
                                      seed=st.integers(0, 10 ** 6)))


def check_detections(c, rec):
    from scenes import scene_xyz
    sc = c["scene"]
    x, y, z = scene_xyz(sc)
    z = z + c["offset"] * sc["unit"]
    z[np.random.default_rng(c["seed"]).random(z.shape) < c["pnan"]] = np.nan
    ref = anomaly_ref(z, c["filt"], c["kernel"], c["nan"])
    level = c["f"] * sc["unit"] * (1 if sc["peaks"][0][0] > 0 else -1)
    te = tracker(dataset(x, y, [z]), nan_treatment=c["nan"], filt="space", kernel=c["kernel"] if c["filt"] == "convolution" else None,
                 filter_type=None if c["filt"] == "convolution" else c["filt"])
    a = te._detect_snapshot(0, np.array([level]))
    f = np.asarray(te.data2track.values, float)
    need(np.allclose(f, ref, rtol=0, atol=1e-9 * np.nanmax(np.abs(z)), equal_nan=True), "the anomaly differs from the reference")
    t2 = tracker(dataset(x, y, [f]))
    b = t2._detect_snapshot(0, np.array([level]))
    rec.event(c["filt"])
    rec.nontrivial(len(b))
    same(a, b, "eddies of the anomaly (%s)" % c["filt"])


def invalid():
    return st.fixed_dictionaries(dict(nx=st.integers(3, 6), ny=st.integers(3, 6), name=st.sampled_from(["", "box", "Convolution", "meridional ", "gauss"]),
                                      how=st.sampled_from(["call", "snapshot", "track"])))


def check_invalid(c, rec):
    x, y = axes(10.0, 5.0, 0.25, 0.25, c["nx"], c["ny"])
    ds = dataset(x, y, np.random.default_rng(1).normal(size=(2, c["ny"], c["nx"])))
    te = tracker(ds, filt="space", filter_type=c["name"])
    rec.nontrivial(True)
    try:
        if c["how"] == "call":
            te._filter_data_(te.rawdata.isel(time=0), filter="space")
        elif c["how"] == "snapshot":
            te._detect_snapshot(0, np.array([0.5]))
        else:
            te.time_tracking(lin_levels=np.array([0.5]))
    except ValueError:
        return
    need(False, "the filter type %r was accepted", c["name"])


def choices():
    return st.fixed_dictionaries(dict(nx=st.integers(3, 8), ny=st.integers(3, 8), seed=st.integers(0, 10 ** 6), nt=st.integers(1, 12), t=st.integers(0, 11),
                                      first=st.sampled_from(["2016-09-01", "1999-12-30", "2020-02-27"]), step=st.sampled_from([1, 1, 5, 30]), axis=st.booleans(),
                                      how=st.sampled_from(["int", "int64", "int32", "intp", "negative", "date", "date"]), filt=st.sampled_from([None, "zonal"])))


def check_choices(c, rec):
    x, y = axes(10.0, 5.0, 0.25, 0.25, c["nx"], c["ny"])
    zs = np.random.default_rng(c["seed"]).normal(size=(c["nt"], c["ny"], c["nx"]))
    days = np.datetime64(c["first"]) + np.arange(c["nt"]) * np.timedelta64(c["step"], "D")
    ds = dataset(x, y, zs)
    how = c["how"]
    if c["axis"] or how == "date":
        ds = ds.assign_coords(time=days.astype("datetime64[ns]"))
    t = c["t"] % c["nt"]
    v = {"int": t, "negative": t - c["nt"], "date": str(days[t])}.get(how)
    if v is None:
        v = np.dtype(how).type(t)
    te = tracker(ds, filt=None if c["filt"] is None else "space", filter_type=c["filt"])
    te._detect_snapshot(v, np.array([1e9]))
    got, ref = np.asarray(te.data2track.values, float), anomaly_ref(zs[t], c["filt"], 1, False)
    rec.event(how)
    rec.nontrivial(c["nt"] > 1)
    need(got.shape == ref.shape and np.allclose(got, ref, rtol=0, atol=1e-9), "time %r of %d: another field than snapshot %d", v, c["nt"], t)


TESTS = [Test("filters", filters, check_filters, 3000, 150000, weight=2), Test("detection", detections, check_detections, 500, 30000, weight=2),
         Test("invalid", invalid, check_invalid, 100, 1000, weight=0.2),
         Test("chosen_time", choices, check_choices, 500, 20000, weight=0.5)]
