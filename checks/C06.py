"""The result does not depend on how the coordinates are named and stored."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

from core import Test, need
from gen import fx, sign
from oracle import area_tol
from scenes import likely, scene_xyz
from sut import area_ref, conic_fit, contours_ref, dataset, detect, gauss2d, inside, parse, path_key, tracker

PROPERTY = "C06"
BUDGET = 40
RULE = ("names: the fields of C01 in data sets with other names, order, number and storage of dimensions, coordinates as dimensions or as "
        "2-D variables or coordinates, bounds and other variables, in memory, chunked, or in a file or one for each time, stored with other number types, against the plain (time, lat, lon) "
        "data set, identical results required. curvilinear: Gaussians on rotated, sheared and stretched grids with 2-D "
        "coordinates against their truth. errors: data sets without usable coordinates. Non-trivial: at least one "
        "eddy (errors: every case).")
ASSUMPTIONS = ["dimensions of the data are named as documented in the code: time or t, lon or x, lat or y, alone or (time, lon, lat) within a longer name",
               "2-D coordinates are data variables or coordinates of the data, named like lon and lat"]

TIMES = ["time", "t", "time_counter", "ocean_time"]
XS = ["lon", "longitude", "x", "nlon", "xlon"]
YS = ["lat", "latitude", "y", "nlat", "grid_lat"]


def names():
    return st.fixed_dictionaries(dict(
        scene=likely(nmin=18, nmax=26, maxpeaks=2, stretch=True), other=likely(nmin=18, nmax=26, maxpeaks=1), f=fx(0.2, 0.7),
        time=st.sampled_from([None] + TIMES), x=st.sampled_from(XS), y=st.sampled_from(YS), at=st.integers(0, 2),
        order=st.permutations([0, 1, 2]), depth=st.booleans(), grid=st.sampled_from(["dims", "dims", "2d", "2d and dims"]),
        vx=st.sampled_from(["lon", "nav_lon", "longitude", "lon_rho"]), vy=st.sampled_from(["lat", "nav_lat", "latitude", "lat_rho"]),
        types=st.one_of(st.just(("f8", "f8")), st.tuples(st.sampled_from(["f8", "f4", ">f8", ">f4", "i4", "i2", "i8"]), st.sampled_from(["f8", "f4", ">f8", ">f4", "i4", "i2"]))),
        coords=st.booleans(), last=st.booleans(), bounds=st.booleans(), more=st.booleans(), store=st.sampled_from(["memory", "memory", "chunks", "file", "files"]),
        var=st.sampled_from(["ssh", "sla", "zos", "adt", "relative_vorticity"]), square=st.booleans(), how=st.sampled_from(["level", "snapshot", "track"])))


def build(c, x, y, zs):
    dims = [c["time"], c["y"], c["x"]]
    data = np.stack(zs)
    if c["time"] is None:
        dims, data = dims[1:], data[0]
    perm = [i for i in c["order"] if i < len(dims)]
    data = data.transpose(perm)
    dims = [dims[i] for i in perm]
    if c["depth"]:
        dims, data = ["depth"] + dims, data[None]
    coords = {}
    v = {c["var"]: (dims, data)}
    if c["grid"] != "2d":
        coords = {c["x"]: x, c["y"]: y} if c["grid"] == "dims" else {c["x"]: np.arange(len(x)), c["y"]: np.arange(len(y))}
    if c["grid"] != "dims":
        X, Y = np.meshgrid(x, y)
        d2 = [c["y"], c["x"]]
        if perm.index(len(perm) - 1) < perm.index(len(perm) - 2):
            X, Y, d2 = X.T, Y.T, d2[::-1]
        # a dimension and a variable cannot share a name
        vx = c["vx"] if c["vx"] != c["x"] else "nav_lon2"
        vy = c["vy"] if c["vy"] != c["y"] else "nav_lat2"
        (coords if c.get("coords") else v).update({vx: (d2, X), vy: (d2, Y)})
    if c["bounds"]:
        v["lon_bnds"] = ([c["x"], "bnds"], np.column_stack([x, x]))
        v["lat_bnds"] = ([c["y"], "bnds"], np.column_stack([y, y]))
    if c["more"]:
        v["mask"] = (dims, (data > 0) * 1)
        v["crs"] = ([], 4326)
        if c["time"]:
            v["time_bnds"] = ([c["time"], "bnds"], np.zeros((len(zs), 2)))
    if c.get("last"):
        v = dict(list(v.items())[1:] + list(v.items())[:1])
    return xr.Dataset(v, coords=coords)


def same(a, b, what, exact=True):
    if len(a) == 0 or len(b) == 0:
        need(len(a) == len(b), "%s: %d rows, reference %d", what, len(a), len(b))
        return
    a = a.drop(columns=[k for k in ("",) if k in a])
    b = b.drop(columns=[k for k in ("",) if k in b])
    need(list(a.columns) == list(b.columns) and a.index.equals(b.index), "%s: other columns or rows: %d, %d", what, len(a), len(b))
    for k in a.columns:
        p, q = a[k].values.astype(float), b[k].values.astype(float)
        tol = 0 if exact else 1e-2 if "gauss" in k else 1e-5
        need(((abs(p - q) <= tol * (1 + abs(q))) | (np.isnan(p) & np.isnan(q))).all(), "%s: %s differs: %s, reference %s", what, k, p[p != q][:2], q[p != q][:2])


def run(ds, var, c, level, t, **xr_options):
    te = tracker(ds, var, **xr_options)
    if c["how"] == "level":
        da = te.rawdata
        if te.coords["time"]:
            da = da.isel({te.coords["time"]: t})
        te._filter_data_(da.squeeze(), filter=None)
        return te._detect_one_level(level)[0]
    if c["how"] == "snapshot":
        return te._detect_snapshot(t, np.array([level]))
    n = te.rawdata.sizes[te.coords["time"]] if te.coords["time"] else 1
    return te.time_tracking(tf=n, lin_levels=np.array([level]))


def check_names(c, rec):
    sc = dict(c["scene"])
    if c["square"]:
        sc["ny"] = sc["nx"]
    same_grid = {k: sc[k] for k in ("nx", "ny", "dx", "dy", "lon0", "lat0", "unit")}
    x, y, z0 = scene_xyz(sc)
    z1 = scene_xyz(dict(c["other"], **same_grid))[2]
    zs = [z0, z1] if c["time"] else [z0]
    level = c["f"] * sc["unit"] * (1 if sc["peaks"][0][0] > 0 else -1)
    # the types in which the same numbers are stored
    ct, zt = c.get("types", ("f8", "f8"))
    if np.dtype(zt).kind == "i":
        zs, level = [np.round(z / sc["unit"] * 1000) for z in zs], level / sc["unit"] * 1000
    if np.dtype(ct).kind == "i":
        x, y = np.round(x[0]) + np.arange(len(x)), np.round(min(y[0], 20.0)) + np.arange(len(y))
    x, y, zs = x.astype(ct), y.astype(ct), [z.astype(zt) for z in zs]
    ds = build(c, x, y, zs)
    ref_ds = dataset(x.astype(float), y.astype(float), zs)
    t = c["at"] % len(zs)
    ref = run(ref_ds, "ssh", c, level, t)
    tmp, opt = None, {}
    try:
        arg = ds
        if c["store"] == "chunks":
            arg = ds.chunk({c["x"]: 7})
        elif c["store"] == "file" or c["store"] == "files" and not c["time"]:
            tmp = tempfile.mkdtemp(prefix="verif-C06-")
            arg = os.path.join(tmp, "f.nc")
            ds.to_netcdf(arg)
        elif c["store"] == "files":
            # one for each time
            tmp = tempfile.mkdtemp(prefix="verif-C06-")
            arg = os.path.join(tmp, "f*.nc")
            # variables without time are the same in all files
            opt = {"data_vars": "minimal"}
            ds = ds.assign_coords({c["time"]: np.arange(len(zs)) * 1.0})
            for i in range(len(zs)):
                ds.isel({c["time"]: [i]}).to_netcdf(os.path.join(tmp, "f%d.nc" % i))
        got = run(arg, c["var"], c, level, t, **opt)
    finally:
        if tmp:
            shutil.rmtree(tmp)
    rec.nontrivial(len(ref))
    rec.event(c["grid"], c["store"], c["how"], "time" if c["time"] else "no time", *(["bounds"] if c["bounds"] else []))
    what = "%s named %s %s %s, order %s, coordinates %s, %s" % (c["var"], c["time"], c["y"], c["x"], c["order"], c["grid"], c["store"])
    same(got, ref, what + ", types %s and %s" % (ct, zt), exact=(ct, zt) == ("f8", "f8"))


def curvi():
    return st.fixed_dictionaries(dict(
        nx=st.integers(24, 40), ny=st.integers(24, 40), d=st.sampled_from([0.05, 0.1, 0.25]),
        lon0=fx(-170, 340, 0.5), lat0=fx(-50, 50, 0.5), rot=st.one_of(fx(-3.1, 3.1, 0.01), fx(-3.1, 3.1, 0.01), st.sampled_from(["turn", "turn back", "swap", "half"])), shear=st.sampled_from([0.0, 0.0, 0.2, -0.3]),
        stretch=st.sampled_from([0.0, 0.0, 0.01, 0.02]), bend=st.sampled_from([0.0, 0.0, 0.004]), A=sign(), amp=fx(0.5, 2, 0.1), s=fx(4, 6, 0.1), q=fx(0.65, 1, 0.01),
        th=fx(-1.5, 1.5, 0.01), f=fx(0.2, 0.8), ox=fx(-3, 3, 0.1), oy=fx(-3, 3, 0.1), skip=st.booleans(), coords=st.booleans()))


def check_curvi(c, rec):
    i, j = np.meshgrid(np.arange(c["nx"]) - c["nx"] / 2, np.arange(c["ny"]) - c["ny"] / 2)
    u = i + c["stretch"] * i ** 2 / 2 * np.sign(i) + c["shear"] * j + c["bend"] * j ** 2
    v = j + c["stretch"] * j ** 2 / 2 * np.sign(j)
    # exact for the grids along the meridians
    co, si = {"turn": (0, 1), "turn back": (0, -1), "swap": (0, 1), "half": (-1, 0)}.get(c["rot"]) or (np.cos(c["rot"]), np.sin(c["rot"]))
    if c["rot"] == "swap":
        v = -v
    X = c["lon0"] + c["d"] * (co * u - si * v)
    Y = c["lat0"] + c["d"] * (si * u + co * v)
    cx, cy = c["lon0"] + c["d"] * c["ox"], c["lat0"] + c["d"] * c["oy"]
    s = c["s"] * c["d"]
    A = c["A"] * c["amp"]
    z = gauss2d(X, Y, A, cx, cy, s, s * c["q"], c["th"])
    level = c["f"] * A
    ds = xr.Dataset({"ssh": (["y", "x"], z), "lon": (["y", "x"], X), "lat": (["y", "x"], Y)})
    if c.get("coords"):
        ds = ds.set_coords(["lon", "lat"])
    te = tracker(ds, criteria={"ellipse_fit": 1.0, "max_area": 1e6}, skip=c["skip"])
    te._filter_data_(te.rawdata, filter=None)
    t, d = te._detect_one_level(level)
    e = parse(t)
    lines = contours_ref(X, Y, z, level)
    closed = [l for l in lines if (l[0] == l[-1]).all()]
    k = np.sqrt(2 * np.log(1 / c["f"]))
    a, b = s * k, s * c["q"] * k
    # at least three steps in each direction, and closed
    # and not next to the border, where that of the fitted Gaussian may be open
    ring = np.ones(z.shape, bool)
    ring[2:-2, 2:-2] = False
    if len(closed) != 1 or not (z[ring] / level < 1).all() or min(a, b) < 3.5 * c["d"] * (1 + abs(c["shear"])) or len(lines) != 1:
        rec.event("open or small")
        return
    need(len(e) == 1, "%d eddies of one Gaussian, discarded %s", len(e), [str(q) for q in d.reason] if len(d) else [])
    r = e[0]
    rec.nontrivial(True)
    need(path_key(r["path"]) == path_key(closed[0]), "the contour differs from the reference")
    need(abs(r["area_eddy"] / area_ref(closed[0]) - 1) <= area_tol(closed[0]), "area %r, reference %r", r["area_eddy"], area_ref(closed[0]))
    fit = conic_fit(closed[0])
    need(abs(r["ellipse_params_a"] / a - 1) < 0.08 and abs(r["ellipse_params_b"] / b - 1) < 0.08,
         "semi axes %r %r, of the Gaussian %r %r", r["ellipse_params_a"], r["ellipse_params_b"], a, b)
    # extremum: the extreme grid point inside of the contour
    ins = inside(closed[0], X.ravel(), Y.ravel()).reshape(X.shape)
    zz = np.where(ins, z * c["A"], -np.inf)
    jj, ii = np.unravel_index(np.argmax(zz), zz.shape)
    need(r["maxima"] == z[jj, ii] and r["maxima_x"] == X[jj, ii] and r["maxima_y"] == Y[jj, ii],
         "extremum %r at (%r, %r), the largest value inside is %r at (%r, %r)", r["maxima"], r["maxima_x"], r["maxima_y"],
         z[jj, ii], X[jj, ii], Y[jj, ii])
    need(r["eddy_sign"] == c["A"], "sign %r", r["eddy_sign"])
    if not c["skip"]:
        need(np.hypot(r["gaussian_params_x"] - cx, r["gaussian_params_y"] - cy) < 1.5 * c["d"] * (1 + abs(c["shear"]) + 15 * c["stretch"]),
             "Gaussian at (%r, %r), truth (%r, %r)", r["gaussian_params_x"], r["gaussian_params_y"], cx, cy)
        need(abs(r["gaussian_params_sigma_x"] / s - 1) < 0.15 and abs(r["gaussian_params_sigma_y"] / (s * c["q"]) - 1) < 0.15,
             "deviations %r %r of the Gaussian, truth %r %r", r["gaussian_params_sigma_x"], r["gaussian_params_sigma_y"], s, s * c["q"])


def bad():
    return st.fixed_dictionaries(dict(nx=st.integers(2, 6), ny=st.integers(2, 6), kind=st.sampled_from(
        ["no x", "no y", "neither", "mixed", "3d"]), x=st.sampled_from(XS), y=st.sampled_from(YS),
        odd=st.sampled_from(["i", "cell", "col", "p"]), time=st.booleans()))


def check_bad(c, rec):
    from trackeddy.trackeddy import TrackEddy
    nx, ny = c["nx"], c["ny"]
    X, Y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    dx, dy = c["x"], c["y"]
    if c["kind"] in ("no x", "neither"):
        dx = c["odd"]
    if c["kind"] in ("no y", "neither"):
        dy = c["odd"] + "2"
    dims = (["time"] if c["time"] else []) + [dy, dx]
    z = np.zeros([1] * c["time"] + [ny, nx])
    v = {"ssh": (dims, z)}
    if c["kind"] == "mixed":
        v["nav_lon_"], v["nav_lat_"] = ([dy, dx], X), ([dy], Y[:, 0])
    elif c["kind"] == "3d":
        dims = ["time", dy, dx]
        v = {"ssh": (dims, np.zeros([2, ny, nx])), "nav_lon_": (dims, np.stack([X, X])), "nav_lat_": (dims, np.stack([Y, Y]))}
    ds = xr.Dataset(v)
    rec.nontrivial(True)
    rec.event(c["kind"])
    try:
        TrackEddy(ds, "ssh")
    except ValueError:
        return
    need(False, "a data set with %s coordinates was accepted", c["kind"])


TESTS = [Test("names", names, check_names, 1500, 60000, weight=3), Test("curvilinear", curvi, check_curvi, 500, 30000, weight=2),
         Test("errors", bad, check_bad, 300, 3000, weight=0.3)]
