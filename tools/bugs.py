"""Bugs planted from the text of the properties. Each: edits (file, old, new) of
original lines, and a demonstration that fails with the change."""

PRE = '''
import os, sys, math, tempfile
import numpy as np, xarray as xr, pandas as pd

def gauss(x, y, peaks):
    X, Y = np.meshgrid(x, y)
    z = np.zeros(X.shape)
    for A, cx, cy, sx, sy, th in peaks:
        u = (X - cx) * np.cos(th) + (Y - cy) * np.sin(th)
        v = -(X - cx) * np.sin(th) + (Y - cy) * np.cos(th)
        z += A * np.exp(-0.5 * ((u / sx) ** 2 + (v / sy) ** 2))
    return z

def tracker(x, y, z, **kw):
    from trackeddy.trackeddy import TrackEddy
    z = np.asarray(z)
    z = z if z.ndim == 3 else z[None]
    ds = xr.Dataset({"ssh": (["time", "lat", "lon"], z)}, coords={"lon": x, "lat": y})
    te = TrackEddy(ds, "ssh", **kw)
    te.filter = None
    te.identification_criteria.update(ellipse_fit=1.0, max_area=1e4)
    return te

def level(te, lev):
    te._filter_data_(te.rawdata.isel(time=0).squeeze(), filter=None)
    return te._detect_one_level(lev)

def heads(t):
    return [] if len(t) == 0 else [g.iloc[0] for _, g in t.reset_index().groupby("identifier")]
'''

BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what_it_breaks=what, demo=PRE + demo))


T, G, U = "trackeddy/trackeddy.py", "trackeddy/geometry.py", "trackeddy/utils.py"

bug("clamp-border", "C01", [(T, "            BL_corner[index_min] = 0\n", "            BL_corner[index_min] = 1\n")],
    "an eddy whose contour comes nearest to the first row or column of the grid",
    "the crop of the grid starts one row late, so the extremum is searched in the wrong points",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
te = tracker(x, y, gauss(x, y, [(1, 22.0, 10.46, 0.4, 0.4, 0)]))
te.skip_gaussian_fit = True
e, d = level(te, 0.55)
h = heads(e)
assert len(h) == 1, len(h)
assert abs(h[0].maxima_x - 22.0) < 0.1 and abs(h[0].maxima_y - 10.46) < 0.1, (h[0].maxima_x, h[0].maxima_y)
''')

bug("extremum-abs", "C01", [(U, "eddy_argmaxima = (eddy_sign * data_inside_contour).argmax()", "eddy_argmaxima = abs(data_inside_contour).argmax()")],
    "an eddy that encloses a smaller region of opposite sign, deeper than its own extremum",
    "the place of the extremum is that of the enclosed region",
    '''
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
z = gauss(x, y, [(1, 23.0, 13.0, 1.2, 1.2, 0), (-3.5, 23.3, 13.0, 0.12, 0.12, 0)])
te = tracker(x, y, z)
te.skip_gaussian_fit = True
e, d = level(te, 0.4)
big = max(heads(e), key=lambda r: r.area_eddy)
i, j = np.abs(y - big.maxima_y).argmin(), np.abs(x - big.maxima_x).argmin()
assert big.area_eddy > 20000
assert z[i, j] == big.maxima, (z[i, j], big.maxima)
''')

bug("tiny-units", "C03", [(T, "if eddy.eddy_maxima[0] == 0:", "if np.isclose(eddy.eddy_maxima[0], 0):")],
    "data in a unit where the anomalies are below 1e-8",
    "eddies of a field in small units are discarded as islands",
    '''
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
z = gauss(x, y, [(1, 23.0, 13.0, 0.6, 0.5, 0.3)])
n = []
for u in (1.0, 2.0 ** -40):
    e, d = level(tracker(x, y, z * u), 0.4 * u)
    n.append(len(heads(e)))
assert n == [1, 1], n
''')

bug("filter-in-place", "C04", [(T, "                tmp_data = data2track.squeeze().copy()\n                if kernel", "                tmp_data = data2track.squeeze()\n                if kernel"),
                               (T, "                tmp_data = tmp_data - convolved_data\n", "                tmp_data -= convolved_data\n"),
                               (T, "            data2track = data_snapshot.copy()\n", "            data2track = data_snapshot\n")],
    "the space filter on data in memory without nan treatment, and a second use of the snapshot (two changes that are harmless alone)",
    "the filter subtracts its mean from the data of the user, the next detection of the snapshot differs",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
z = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
te = tracker(x, y, z)
before = te.Dataset.ssh.values.copy()
te.filter = "space"
te.S_filter_setup["kernel"] = 31
a = te._detect_snapshot(0, [0.3])
b = te._detect_snapshot(0, [0.3])
assert (te.Dataset.ssh.values == before).all(), "the data was modified"
assert len(a) == len(b) and (a.maxima.values == b.maxima.values).all()
''')

bug("previous-radius", "C20", [(U, '''    eddy_radius_n = eddy_info_n_level["radius_eddy"].values
''', '''    eddy_radius_p = eddy_info_p_level["radius_eddy"].values
'''), (U, "    distance_between_nearest = (distance * 6371) - np.expand_dims(eddy_radius_n, 1)\n",
       "    distance_between_nearest = (distance * 6371) - eddy_radius_p[index]\n")],
    "an eddy whose displacement is between its radius and that of its predecessor (eddies that grow or shrink)",
    "eddies are linked by the radius of the previous eddy instead of their own",
    '''
x = 20 + 0.1 * np.arange(120); y = 10 + 0.1 * np.arange(60)
a = gauss(x, y, [(1, 23.0, 13.0, 1.0, 1.0, 0)])
b = gauss(x, y, [(1, 23.9, 13.0, 0.5, 0.5, 0)])
te = tracker(x, y, [a, b])
t = te.time_tracking(lin_levels=[0.5])
ids = sorted(set(t.index.get_level_values("identifier")))
assert ids == [0, 1], ids     # 98 km apart, radius of the new eddy about 65 km
''')

bug("previous-radius-levels", "C05", [(U, "    eddy_coords_n = eddy_info_n_level[[\"maxima_y\", \"maxima_x\"]].values\n",
                                       "    eddy_coords_n = eddy_info_n_level[[\"contour_y\", \"contour_x\"]].values\n")],
    "an asymmetric eddy, whose centre is farther from an earlier extremum than its extremum, over two levels",
    "the distance to the eddies of earlier levels is taken from the centre of the contour instead of the extremum",
    '''
from trackeddy.utils import _detect_nearest
def table(mx, cx, r):
    d = dict(identifier=0, index=[0, 1], maxima_x=mx, maxima_y=5.0, contour_x=cx, contour_y=5.0, radius_eddy=r)
    return pd.DataFrame(d).set_index(["identifier", "index"])
index, nearest = _detect_nearest(table(10.0, 10.0, 60.0), table(10.1, 10.7, 60.0))
assert list(nearest) == [0], nearest
index, nearest = _detect_nearest(table(10.0, 10.0, 60.0), table(10.7, 10.1, 60.0))
assert list(nearest) == [], nearest
''')

bug("grid-crossed", "C06", [(T, "eddy_maxima[2] = x_near_c[Y_coord, X_coord]", "eddy_maxima[2] = x_near_c[0, X_coord]"),
                            (T, "eddy_maxima[1] = y_near_c[Y_coord, X_coord]", "eddy_maxima[1] = y_near_c[Y_coord, 0]")],
    "two dimensional coordinates that are not the product of one dimensional ones",
    "on rotated or sheared grids the place of the extremum is that of other grid points",
    '''
from trackeddy.trackeddy import TrackEddy
i, j = np.meshgrid(np.arange(50), np.arange(50))
lon = 20 + 0.1 * i + 0.04 * j; lat = 10 + 0.1 * j - 0.03 * i
cx, cy = lon[25, 25], lat[25, 25]
z = np.exp(-0.5 * (((lon - cx) / 0.5) ** 2 + ((lat - cy) / 0.5) ** 2))
ds = xr.Dataset({"ssh": (["time", "y", "x"], z[None]), "lon": (["y", "x"], lon), "lat": (["y", "x"], lat)})
te = TrackEddy(ds, "ssh"); te.filter = None
te.identification_criteria.update(ellipse_fit=1.0, max_area=1e4); te.skip_gaussian_fit = True
e, d = level(te, 0.4)
h = heads(e)
assert len(h) == 1 and abs(h[0].maxima_x - cx) < 1e-9 and abs(h[0].maxima_y - cy) < 1e-9, [(r.maxima_x, r.maxima_y) for r in h]
''')

bug("dims-prefix", "C06", [(T, '''        elif "lon" in dim_name or dim_name == "x":''', '''        elif dim_name.startswith("lon") or dim_name == "x":''')],
    "a longitude dimension whose name only contains lon (nlon, xlon)",
    "the dimension is not recognised",
    '''
from trackeddy.trackeddy import TrackEddy
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
z = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
ds = xr.Dataset({"ssh": (["time", "nlat", "nlon"], z[None])}, coords={"nlon": x, "nlat": y})
te = TrackEddy(ds, "ssh"); te.filter = None
te.identification_criteria.update(ellipse_fit=1.0, max_area=1e4)
assert len(heads(level(te, 0.4)[0])) == 1
''')

bug("filter-nan", "C07", [(T, "convolved_data = convolution.convolve(tmp_data, kernel=ker)", "convolved_data = convolution.convolve(\n                    tmp_data, kernel=ker, nan_treatment=\"fill\"\n                )")],
    "missing values in the data, the convolution filter and no nan treatment",
    "missing values count as zeros in the mean of the window",
    '''
x = 20 + 0.1 * np.arange(30); y = 10 + 0.1 * np.arange(30)
z = np.full((30, 30), 5.0); z[12:15, 12:15] = np.nan
te = tracker(x, y, z)
te.S_filter_setup["kernel"] = 7
te._filter_data_(te.rawdata.isel(time=0).squeeze(), filter="space")
v = te.data2track.values[11, 11]
assert abs(v) < 1e-9, v
''')

bug("small-dropped", "C08", [(T, "            if np.allclose(np.mean(contour, axis=0), contour[0], equal_nan=True):", "            if np.allclose(np.mean(contour, axis=0), contour[0], 1e-3, equal_nan=True):")],
    "a contour that is small compared with its coordinates",
    "small contours are neither reported nor listed as discarded",
    '''
x = 200 + 0.1 * np.arange(12); y = 50 + 0.1 * np.arange(12)
z = np.zeros((12, 12)); z[6, 6] = 1.0
te = tracker(x, y, z)
te.skip_gaussian_fit = True
e, d = level(te, 0.7)
assert len(heads(e)) + len(d) == 1, (len(heads(e)), len(d))
''')

bug("sign-of-window", "C09", [(U, "    mean_value_inside_contour = data_inside_contour.mean()\n", "    mean_value_inside_contour = data_near_contour.mean()\n")],
    "a strong eddy of the other sign next to the eddy",
    "the sign of the eddy is that of the box around it",
    '''
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
p = (1, 23.0, 13.0, 0.5, 0.5, 0)
te = tracker(x, y, gauss(x, y, [p, (-30, 25.2, 13.0, 0.5, 0.5, 0)]))
te.skip_gaussian_fit = True
e, d = level(te, 0.4)
h = heads(e)
assert len(h) == 1 and h[0].eddy_sign == 1 and abs(h[0].maxima_x - 23) < 0.06, [(r.eddy_sign, r.maxima_x) for r in h]
''')

bug("island-after-skip", "C10", [(T, '''            if eddy.eddy_maxima[0] == 0:
                discarded = eddy.discarded(reason="eddy_is_island")
                continue

            # Ignore gaussian fitting, if user changes parameter.
            if self.skip_gaussian_fit:
                eddy_info = eddy.store()
                continue
''', '''            # Ignore gaussian fitting, if user changes parameter.
            if self.skip_gaussian_fit:
                eddy_info = eddy.store()
                continue

            if eddy.eddy_maxima[0] == 0:
                discarded = eddy.discarded(reason="eddy_is_island")
                continue
''')],
    "an island (zeros) inside a high, with the Gaussian fit skipped",
    "islands are reported as eddies if the Gaussian fit is skipped",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
X, Y = np.meshgrid(x, y)
z = np.where((X - 22) ** 2 + (Y - 12) ** 2 < 0.6 ** 2, 0.0, 1.0)
X0 = z.copy()
n = []
for skip in (False, True):
    te = tracker(x, y, z)
    te.skip_gaussian_fit = skip
    e, d = level(te, 0.01)
    n.append(len(heads(e)))
assert n == [0, 0], n
''')

bug("float-vertices", "C11", [("trackeddy/src/cntr.c", "            double zcp = (zlevel - z[p0]) / (z[p1] - z[p0]);", "            float zcp = (zlevel - z[p0]) / (z[p1] - z[p0]);")],
    "coordinates or levels where single precision shows",
    "the vertices of the contours are off the interpolated place by the rounding of single precision",
    '''
from trackeddy.geometry import extract_contours
x, y = np.meshgrid(np.arange(5.0), np.arange(4.0))
z = x * 1.0
c, _ = extract_contours(x, y, z, 2.1)
assert np.abs(c[0][:, 0] - 2.1).max() < 1e-12, np.abs(c[0][:, 0] - 2.1).max()
''')

bug("stale-saddle", "C12", [("trackeddy/src/cntr.c", "        for (i = 0; i < ijmax; ++i) site->saddle[i] = 0;\n", "        for (i = 0; i < ijmax; ++i) site->saddle[i] &= ~SADDLE_SET;\n"),
                            ("trackeddy/src/cntr.c", "                if (!(saddle[zone] & SADDLE_SET))\n                {\n                    double zcentre;\n                    saddle[zone] = SADDLE_SET;\n",
                             "                if (!(saddle[zone] & SADDLE_SET))\n                {\n                    double zcentre;\n                    saddle[zone] |= SADDLE_SET;\n")],
    "two traces of one tracer at different levels of a field with saddles (two changes that look fine alone)",
    "the decision at a saddle of an earlier level is kept for the next",
    '''
from trackeddy import _cntr
x, y = np.meshgrid(np.arange(30.0), np.arange(30.0))
i, j = np.meshgrid(np.arange(30), np.arange(30))
z = ((i + j) % 2).astype(float) + 0.3 * np.sin(i * 1.3) * np.cos(j * 0.7)
def lines(c, l):
    r = c.trace(l)
    return sorted((len(v), round(float(v.sum()), 9)) for v in r[:len(r) // 2])
a = _cntr.Cntr(x, y, z); a.trace(0.2); one = lines(a, 0.6)
two = lines(_cntr.Cntr(x, y, z), 0.6)
junk = [_cntr.Cntr(x, y, z) for _ in range(5)]
assert one == two, (len(one), len(two))
''')

bug("mask-corner", "C13", [("trackeddy/src/cntr.c", "                reg[ij + iMax] = 0;\n", "")],
    "a mask",
    "one of the four cells around a masked point is not removed",
    '''
from trackeddy import _cntr
x, y = np.meshgrid(np.arange(5.0), np.arange(5.0))
z = np.zeros((5, 5)); m = np.zeros((5, 5), dtype=np.int8); m[2, 2] = 1
r = _cntr.Cntr(x, y, z, m).trace(-1.0, 1.0)
A = 0
for v in r[:len(r) // 2]:
    A += 0.5 * np.sum(v[:-1, 0] * v[1:, 1] - v[1:, 0] * v[:-1, 1])
assert abs(abs(A) - 12) < 1e-9, A
''')

bug("area-meridian", "C14", [(G, "    daz = (daz + np.pi) % (2 * np.pi) - np.pi\n", "    daz = np.where(daz > np.pi, daz - 2 * np.pi, daz)\n")],
    "a contour that crosses the meridian of longitude 0 in one direction",
    "the area of contours across the Greenwich meridian in the northern hemisphere is wrong",
    '''
from trackeddy.geometry import area_latlon_polygon
t = np.linspace(0, 2 * np.pi, 200)
A = [float(area_latlon_polygon(np.c_[lon + np.cos(t), 40 + np.sin(t)])) for lon in (0.0, 20.0, 180.0)]
assert max(A) / min(A) < 1.01, A
''')

bug("tilt-tolerance", "C15", [(G, "    orientation_tolerance = 1e-3\n", "    orientation_tolerance = 5e-2\n")],
    "an ellipse with a small tilt",
    "the fitted axes and outline of slightly tilted ellipses are those without tilt",
    '''
from trackeddy.geometry import fit_ellipse
t = np.linspace(0, 2 * np.pi, 60)[:-1]
th = 0.02
u, v = 3 * np.cos(t), 1 * np.sin(t)
x, y = 5 + u * np.cos(th) - v * np.sin(th), 7 + u * np.sin(th) + v * np.cos(th)
E, p = fit_ellipse(x, y)
X, Y = E[:, 0] - 5, E[:, 1] - 7
r = ((X * np.cos(th) + Y * np.sin(th)) / 3) ** 2 + (-X * np.sin(th) + Y * np.cos(th)) ** 2
assert np.abs(r - 1).max() < 1e-6, np.abs(r - 1).max()
''')

bug("thinning", "C16", [(G, "    while len_p > 300 and len_q > 300:\n", "    while len_p > 300 or len_q > 300:\n")],
    "curves of which only one has more than 300 points",
    "the distance of a long and a short curve is computed on thinned curves",
    '''
from trackeddy.geometry import frdist
P = np.c_[np.arange(310) * 1.0, np.zeros(310)]
Q = np.c_[np.arange(20) * 1.0, np.zeros(20)]; Q[19] = [19.0, 400.0]
d = frdist(P, Q)
t = np.c_[np.linspace(0, 1, 310), np.zeros(310)]; s = np.c_[np.linspace(0, 1, 11), np.zeros(11)]; s[1, 1] = 5.0
want = 5.0 + 0
got = frdist(t, s)
assert abs(got - 5.0) < 0.01, got
''')

bug("narrow-bounds", "C17", [(G, "                [init - 0.7 * init] if init != 0 else [-1e-4]", "                [init - 0.45 * init] if init != 0 else [-1e-4]")],
    "a level low on the Gaussian, whose contour is much larger than its deviations",
    "the fitted deviations cannot be less than 55 percent of the axes of the ellipse",
    '''
x = 20 + 0.1 * np.arange(70); y = 10 + 0.1 * np.arange(70)
te = tracker(x, y, gauss(x, y, [(1, 23.5, 13.5, 0.5, 0.4, 0.4)]))
te.identification_criteria["gaussian_fit"] = 0.0
e, d = level(te, 0.122)
h = heads(e)
assert len(h) == 1 and abs(h[0].gaussian_params_sigma_x / 0.5 - 1) < 0.1, [r.gaussian_params_sigma_x for r in h]
''')

bug("size-first-vertex", "C18", [(T, "            Rd = approx_RD_lat(eddy.contour_center[1])\n", "            Rd = approx_RD_lat(eddy.contour[0, 1])\n")],
    "an eddy near its size limit where the limit changes with latitude",
    "the size limit is that of the first vertex of the contour instead of its centre",
    '''
from trackeddy.physics import approx_RD_lat
x = 20 + 0.1 * np.arange(60); y = 9 + 0.1 * np.arange(60)
for s in (1, -1):
    te = tracker(x, s * y if s > 0 else -y[::-1], gauss(x, s * y if s > 0 else -y[::-1], [(s, 23.0, s * 12.0, 1.0, 1.0, 0)]))
    te.skip_gaussian_fit = True
    e, d = level(te, 0.5 * s)
    r = heads(e)[0]
    for f, want in ((1.02, 1), (0.98, 0)):
        te.identification_criteria["max_area"] = f * r.radius_eddy / approx_RD_lat(r.contour_y)
        n = len(heads(level(te, 0.5 * s)[0]))
        assert n == want, (s, f, n)
''')

bug("stop-when-empty", "C19", [(T, '''            if current_time.empty:
                continue
''', '''            if current_time.empty:
                break
''')],
    "a snapshot without eddies before others with eddies",
    "the eddies after a snapshot without eddies are lost",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
te = tracker(x, y, [a, a * 0, a])
t = te.time_tracking(lin_levels=[0.4])
times = sorted(set(t.index.get_level_values("time")))
assert times == [0, 2], times
''')

bug("gap-off-by-one", "C20", [(U, "    for prev_time in np.arange(time - ntimes, time):\n", "    for prev_time in np.arange(time - ntimes + 1, time):\n")],
    "an eddy that is missing for exactly ntimes snapshots",
    "eddies are followed over one snapshot less than chosen",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)]); b = gauss(x, y, [(1, 24.0, 14.0, 0.3, 0.3, 0)])
te = tracker(x, y, [a + b, b, b, a + b, b, b, b, a + b])
t = te.time_tracking(lin_levels=[0.4], ntimes=2)
h = t.xs(0, level="index").reset_index()
far = h[h.maxima_x < 23]
ids = list(far.sort_values("time").identifier)
assert len(ids) == 3 and ids[0] == ids[1] != ids[2], ids
''')

bug("mean-of-all-times", "C21", [(T, """            data2track = data2track - data2track.mean(self.coords["y"])
""", """            mean_dims = [dim for dim in self.rawdata.dims if dim != self.coords["x"]]
            data2track = data2track - self.rawdata.mean(mean_dims)
""")],
    "the zonal filter and several snapshots",
    "the anomaly of a snapshot depends on all the other snapshots",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
def first(zs):
    te = tracker(x, y, zs)
    te.filter = "space"; te.S_filter_setup["filter_type"] = "zonal"
    t = te.time_tracking(lin_levels=[0.4])
    h = t.xs(0, level="index").reset_index()
    return list(h[h.time == 0].maxima)
assert first([a, a]) == first([a, 3 * a + 1]), (first([a, a]), first([a, 3 * a]))
''')

bug("append-csv", "C22", [(U, "            track_in_time.to_csv(out_path, **kwargs)\n", "            track_in_time.to_csv(out_path, mode=\"a\", **kwargs)\n")],
    "a second run into the same directory",
    "the files of an earlier run are extended instead of replaced",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
te = tracker(x, y, [a])
with tempfile.TemporaryDirectory() as d:
    te.out_path = d
    n = []
    for _ in range(2):
        te.time_tracking(lin_levels=[0.4], online_track=False)
        n.append(sum(len(open(os.path.join(d, f)).readlines()) for f in os.listdir(d)))
assert n[0] == n[1] > 5, n
''')

bug("separation-a-only", "C23", [("trackeddy/generator/field_generator.py", '''                checker = (distance < away_val * self.a).any() or (
                    distance < away_val * self.b
                ).any()
''', '''                checker = (distance < away_val * self.a).any()
''')],
    "eddies that do not interact with the second radius larger than the first",
    "eddies are placed closer than five of their larger radii",
    '''
import random
from trackeddy.generator.field_generator import Generate_field
bad = 0
for s in range(12):
    random.seed(s)
    x = np.linspace(0, 10, 120); y = np.linspace(0, 10, 120)
    g = Generate_field(0.1, 0.5, 5, x, y, "Nint")
    g.assemble_field(1, 0)
    P = [(g.x[e["loc"][0][0]], g.y[e["loc"][0][1]]) for e in g.eddies.values()]
    m = min(math.hypot(p[0] - q[0], p[1] - q[1]) for k, p in enumerate(P) for q in P[:k])
    bad += m < 5 * g.b - 1e-9
assert bad == 0, bad
''')

bug("counter-kept", "C24", [("trackeddy/decorators.py", "            wrapped.calls = 0\n            wrapped.df_store", "            wrapped.calls = 0 if f.__name__ == \"store\" else wrapped.calls\n            wrapped.df_store")],
    "discarded contours before and after a reset",
    "the numbers of discarded contours go on after a reset",
    '''
from trackeddy.eddy import Eddy
def some():
    for k in range(2):
        e = Eddy(np.array([[0, 0], [1, 0], [1, 1], [0, 0.0]]), 0.5)
        e.contour_center = np.array([0.5, 0.5]); e.eddy_maxima = np.array([1.0, 0.5, 0.5])
        d = e.discarded("area")
    e.exit()
    return list(d.index)
some()
assert some() == [0, 1], some()
''')

bug("criteria-shared", "C04", [(T, '''        self.identification_criteria = {
            "ellipse_fit": 0.85,
            "eccentricity": 0.85,
            "gaussian_fit": 0.8,
            "max_area": 2 * np.pi,
        }
''', '''        self.identification_criteria = TrackEddy.criteria
'''), (T, "class TrackEddy:\n", '''class TrackEddy:
    criteria = {
        "ellipse_fit": 0.85,
        "eccentricity": 0.85,
        "gaussian_fit": 0.8,
        "max_area": 2 * np.pi,
    }

''')],
    "two trackers in one process, one of which changes a criterion in place",
    "the criteria set on one tracker apply to every other one",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
z = gauss(x, y, [(1, 22.0, 12.0, 0.4, 0.25, 0)])
a, b = tracker(x, y, z), tracker(x, y, z)
n = len(heads(level(a, 0.5)[0]))
b.identification_criteria["eccentricity"] = 0.1
assert len(heads(level(a, 0.5)[0])) == n == 1
''')

bug("json-options", "C22", [(U, "            track_in_time.to_json(out_path, **kwargs)\n", "            track_in_time.to_json(out_path)\n")],
    "snapshots stored as json with options of the format",
    "the options are ignored",
    '''
import json
from trackeddy.utils import store_snapshot
t = pd.DataFrame({"identifier": [0, 0], "time": [3, 3], "index": [0, 1], "level": [0.5, 0.5]}).set_index(["identifier", "time", "index"])
with tempfile.TemporaryDirectory() as d:
    store_snapshot(t, d, 3, format="json", orient="split")
    f, = os.listdir(d)
    assert sorted(json.load(open(os.path.join(d, f)))) == ["columns", "data", "index"]
''')

bug("level-order", "C25", [(T, "            inx = np.where(df_eddy_multilevel_store.loc[eddy].level[0] == levels)[0][0]\n",
     "            inx = np.searchsorted(\n                np.sort(levels), df_eddy_multilevel_store.loc[eddy].level[0]\n            )\n")],
    "eddies of several levels, the first of which is not the lowest",
    "contours are drawn in the colour of another level",
    '''
import warnings; warnings.simplefilter("ignore")
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
z = gauss(x, y, [(1, 21.5, 11.5, 0.4, 0.4, 0), (-1, 24.3, 14.3, 0.4, 0.4, 0)])
te = tracker(x, y, z); te.skip_gaussian_fit = True
t = te._detect_snapshot(0, np.array([0.5, -0.5]))
te.plot_eddy_detection_multilevel(t)
h, l = plt.gca().get_legend_handles_labels()
leg = {round(float(k), 6): to_rgb(v.get_color()) for v, k in zip(h, l)}
n = 0
for i, g in t.groupby(level=0):
    p = np.column_stack([g.contour_path_x, g.contour_path_y])
    for line in plt.gca().get_lines():
        q = np.column_stack(line.get_data())
        if q.shape == p.shape and np.allclose(q, p):
            n += 1
            assert to_rgb(line.get_color()) == leg[round(float(g.level.iloc[0]), 6)], (i, leg)
assert n == 2, n
''')

bug("bounds-axis", "C17", [("trackeddy/geometry.py", "        bounds.sort(axis=0)\n", "        bounds[:, 2:].sort(axis=0)\n")],
    "a field whose longitudes or latitudes descend",
    "the bounds of the centre are crossed and the fit fails",
    '''
x = 20 + 0.1 * np.arange(40); y = (10 + 0.1 * np.arange(40))[::-1].copy()
te = tracker(x, y, gauss(x, y, [(1, 22.0, 12.0, 0.4, 0.3, 0.4)]))
assert len(heads(level(te, 0.5)[0])) == 1
''')

bug("stored-since-start", "C22", [(T, '''                store_snapshot(
                    current_time, self.out_path, time, format=self.out_format
                )
''', '''                store_snapshot(
                    current_time, self.out_path, time - t0, format=self.out_format
                )
''')],
    "offline tracking of a window that does not start with the first snapshot",
    "the files after the first one are named after the time since the start",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
z = gauss(x, y, [(1, 22.0, 12.0, 0.4, 0.3, 0.4)])
te = tracker(x, y, [z] * 4)
with tempfile.TemporaryDirectory() as d:
    te.out_path = d
    te.time_tracking(t0=1, tf=4, lin_levels=np.array([0.5]), online_track=False)
    f = sorted(os.listdir(d))
    assert f == ["identified_eddies_%05d.csv" % k for k in (1, 2, 3)], f
''')

bug("grid-steps", "C01", [(T, "        x = self.X[Xmask * Ymask]\n", "        x = self.X[0, 0] + (self.X[0, 1] - self.X[0, 0]) * mask_ind[:, 1]\n")],
    "a grid whose longitudes are not evenly spaced",
    "the points of the grid near the contour are searched where they would be on an even grid",
    '''
i = np.arange(50)
x = 20 + 0.1 * i + 0.0015 * i ** 2; y = 10 + 0.1 * i
te = tracker(x, y, gauss(x, y, [(1, x[30], y[25], 0.6, 0.6, 0)]))
te.skip_gaussian_fit = True
h = heads(level(te, 0.5)[0])
assert len(h) == 1, len(h)
assert abs(h[0].maxima_x - x[30]) < 1e-9 and abs(h[0].maxima_y - y[25]) < 1e-9, (h[0].maxima_x, x[30], h[0].maxima_y)
''')

bug("tiny-levels", "C03", [(T, "        levels = levels[levels != 0]\n", "        levels = levels[abs(levels) > 1e-4]\n")],
    "a field in units in which the levels are small, e.g. vorticity",
    "small levels are ignored as if they were zero",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
z = gauss(x, y, [(1, 22.0, 12.0, 0.4, 0.4, 0)])
n = []
for u in (1.0, 1e-5):
    te = tracker(x, y, u * z)
    n.append(len(heads(te._detect_snapshot(0, np.array([0.5 * u])))))
assert n == [1, 1], n
''')

bug("same-snapshot", "C04", [(T, "        self._filter_data_(data_snapshot, filter=self.filter)\n",
     "        if time != getattr(self, \"last_time\", None):\n            self._filter_data_(data_snapshot, filter=self.filter)\n            self.last_time = time\n")],
    "the same snapshot again with one tracker, after its filter was changed",
    "the field of the earlier filter is searched",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
z = gauss(x, y, [(1, 22.0, 12.0, 0.4, 0.4, 0)])
def run(te, f):
    te.filter = f; te.S_filter_setup = {"filter_type": "zonal"}
    t = te._detect_snapshot(0, np.array([0.4]))
    return [round(float(h.maxima), 9) for h in heads(t)]
one = tracker(x, y, z); a = [run(one, None), run(one, "space")]
b = [run(tracker(x, y, z), None), run(tracker(x, y, z), "space")]
assert a == b, (a, b)
''')

bug("kernel-kept", "C07", [(T, "                convolved_data = convolution.convolve(tmp_data, kernel=ker)\n",
     "                if not hasattr(self, \"ker\"):\n                    self.ker = ker\n                convolved_data = convolution.convolve(tmp_data, kernel=self.ker)\n")],
    "a tracker used with one size of the filter and then another",
    "the field is filtered with the first size",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
z = gauss(x, y, [(1, 22.0, 12.0, 0.4, 0.4, 0)])
def field(te, k):
    te.S_filter_setup["kernel"] = k
    te._filter_data_(te.rawdata.isel(time=0), filter="space")
    return np.asarray(te.data2track).copy()
te = tracker(x, y, z)
field(te, 11)
assert np.allclose(field(te, 5), field(tracker(x, y, z), 5))
''')

bug("reason-order", "C08", [(T, """            # Check eccentricity of ellipse.
            eddy.ellipse_eccen = eccentricity(*eddy.ellipse_params[0:2])
            if eddy.ellipse_eccen > self.identification_criteria["eccentricity"]:
                discarded = eddy.discarded(reason="eccentricity")
                continue

            eddy.contour_ellipse_error = compute_similarity(eddy.contour, eddy.ellipse)
""", """            eddy.ellipse_eccen = eccentricity(*eddy.ellipse_params[0:2])
            eddy.contour_ellipse_error = compute_similarity(eddy.contour, eddy.ellipse)
"""), (T, """                discarded = eddy.discarded(reason="similarity")
                continue
""", """                discarded = eddy.discarded(reason="similarity")
                continue

            # Check eccentricity of ellipse.
            if eddy.ellipse_eccen > self.identification_criteria["eccentricity"]:
                discarded = eddy.discarded(reason="eccentricity")
                continue
""")],
    "a contour that fails both the eccentricity and the similarity criterion",
    "the contour is listed under the later of the two criteria",
    '''
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
te = tracker(x, y, gauss(x, y, [(1, 23.0, 13.0, 0.8, 0.4, 0.3)]))
te.identification_criteria.update(ellipse_fit=0.5, eccentricity=0.6)
e, d = level(te, 0.4)
assert list(d.reason.astype(str)) == ["eccentricity"], list(d.reason)
''')

bug("fit-unmasked", "C09", [(U, "    return data_inside_contour, eddy_sign, eddy_maxima_loc, inside_contour\n",
     "    return data_near_contour, eddy_sign, eddy_maxima_loc, inside_contour\n")],
    "another feature beside the eddy, outside its contour",
    "the Gaussian is fitted to what lies around the eddy as well",
    '''
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
z = gauss(x, y, [(1, 23.0, 13.0, 0.5, 0.5, 0)])
X, Y = np.meshgrid(x, y)
w = z.copy(); w[z < 0.35] *= 0.3
def par(z):
    te = tracker(x, y, z); te.identification_criteria["gaussian_fit"] = 0.0
    h = heads(level(te, 0.5)[0])
    assert len(h) == 1
    return [round(float(h[0][k]), 6) for k in ("maxima", "gaussian_params_sigma_x", "gaussian_params_sigma_y")]
assert par(z) == par(w), (par(z), par(w))
''')

bug("wrong-tolerance", "C10", [(T, 'rtol=0.1 * self.identification_criteria["ellipse_fit"],', 'rtol=0.1 * self.identification_criteria["eccentricity"],')],
    "a criterion of eccentricity other than that of the ellipse fit (the defaults are the same number)",
    "the eccentricity criterion also discards contours by the area of their ellipse",
    '''
x = 20 + 0.1 * np.arange(40); y = 10 + 0.1 * np.arange(40)
X, Y = np.meshgrid(x, y)
z = np.exp(-(((X - 22) / 0.9) ** 4 + ((Y - 12) / 0.9) ** 4))
n = []
for e in (1.0, 0.3):
    te = tracker(x, y, z); te.skip_gaussian_fit = True
    te.identification_criteria["eccentricity"] = e
    h = heads(level(te, 0.4)[0])
    n.append([float(k.ellipse_eccen) < 0.2 for k in h])
assert n == [[True], [True]], n
''')

bug("read-past-end", "C12", [("trackeddy/src/cntr.c", "            if (ij < ijmax - 1 && z[ij + 1] > zlev0)", "            if (z[ij + 1] > zlev0)")],
    "a field that lies at the end of a block of memory",
    "one value past the end of the field is read",
    '''
import ctypes, mmap
from trackeddy import _cntr
P = mmap.PAGESIZE
libc = ctypes.CDLL(None, use_errno=True)
m = mmap.mmap(-1, 2 * P)
addr = ctypes.addressof(ctypes.c_char.from_buffer(m))
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
assert libc.mprotect(addr + P, P, 0) == 0
ny, nx = 5, 6
buf = (ctypes.c_double * (nx * ny)).from_address(addr + P - 8 * nx * ny)
z = np.frombuffer(buf, dtype=float).reshape(ny, nx)
z[:] = np.random.default_rng(0).random((ny, nx))
x, y = np.meshgrid(np.arange(6.0), np.arange(5.0))
r = _cntr.Cntr(x, y, z).trace(0.5)
sys.stdout.flush()
os._exit(0 if len(r) else 3)
''')

bug("segment-limit", "C13", [("trackeddy/src/cntr.c", "    int maxnsegs = npts/2 + 1;", "    int maxnsegs = npts/5 + 1;")],
    "a filled region with several small holes",
    "the region is not returned, an error without a reason is raised",
    '''
from trackeddy import _cntr
x, y = np.meshgrid(np.arange(20.0), np.arange(20.0))
z = np.zeros((20, 20)); z[2:18:2, 2:18:2] = 1.0
r = _cntr.Cntr(x, y, z).trace(-1.0, 0.5)
A = 0
for v in r[:len(r) // 2]:
    A += len(v)
assert A > 64 * 4, A
''')

bug("left-rule", "C14", [(G, "    colat = colat[0:-1] + deltas\n", "    colat = colat[0:-1]\n")],
    "a contour of few vertices",
    "the area is integrated from one end of each segment instead of its middle",
    '''
from trackeddy.geometry import area_latlon_polygon
p = np.array([[0, 0], [1.0, 0.2], [1.5, 1.4], [0.2, 1.0], [0, 0]]) + [20, 30]
a, b = float(area_latlon_polygon(p)), float(area_latlon_polygon(p[::-1]))
assert abs(a / b - 1) < 1e-6, (a, b)
''')

bug("polar-floor", "C18", [(T, '            max_size = self.identification_criteria["max_area"] * Rd\n', '            max_size = self.identification_criteria["max_area"] * max(Rd, 2)\n')],
    "an eddy at latitudes beyond 78 degrees",
    "eddies near the poles may be larger than the criterion",
    '''
from trackeddy.physics import approx_RD_lat
x = 20 + 0.2 * np.arange(60); y = 83 + 0.02 * np.arange(60)
te = tracker(x, y, gauss(x, y, [(1, 26.0, 83.6, 1.0, 0.12, 0)])); te.skip_gaussian_fit = True
te.identification_criteria["eccentricity"] = 1.0
r = float(heads(level(te, 0.5)[0])[0].radius_eddy)
te.identification_criteria["max_area"] = 0.9 * r / approx_RD_lat(83.6)
assert 0.9 * r < r
assert len(heads(level(te, 0.5)[0])) == 0
''')

bug("time-from-start", "C19", [(T, '            current_time["time"] = time\n', '            current_time["time"] = time - t0\n')],
    "a tracking that does not start with the first snapshot",
    "the times of the tracks are counted from the start of the tracking",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
t = tracker(x, y, [a, a, a]).time_tracking(t0=1, lin_levels=[0.4])
assert sorted(set(t.index.get_level_values("time"))) == [1, 2], t.index[:3]
''')

bug("window-zero", "C20", [(U, "    for prev_time in np.arange(time - ntimes, time):\n", "    for prev_time in np.arange(max(time - ntimes, 1), time):\n")],
    "an eddy of the first snapshot that is missing in the second",
    "the track of the first snapshot is not continued",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)]); b = gauss(x, y, [(1, 24.0, 14.0, 0.3, 0.3, 0)])
t = tracker(x, y, [a + b, b, a + b]).time_tracking(lin_levels=[0.4])
assert sorted(set(t.index.get_level_values("identifier"))) == [0, 1], set(t.index.get_level_values("identifier"))
''')

bug("window-at-end", "C21", [(T, "                track_in_time = track_online(track_in_time, current_time, time, ntimes)\n",
     "                track_in_time = track_online(\n                    track_in_time, current_time, time, min(ntimes, tf - time)\n                )\n")],
    "an eddy that is missing for some snapshots shortly before the end",
    "whether the eddy is followed depends on how many snapshots are still to come",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)]); b = gauss(x, y, [(1, 24.0, 14.0, 0.3, 0.3, 0)])
zs = [a + b, b, b, b, a + b, b, b, b]
def ids(zs):
    t = tracker(x, y, zs).time_tracking(lin_levels=[0.4])
    h = t.xs(0, level="index").reset_index()
    return sorted(h[h.time == 4].identifier)
assert ids(zs) == ids(zs[:5]), (ids(zs), ids(zs[:5]))
''')

bug("complete-rows", "C22", [(T, '''                store_snapshot(
                    current_time, self.out_path, time, format=self.out_format
                )
''', '''                store_snapshot(
                    current_time.dropna(), self.out_path, time, format=self.out_format
                )
''')],
    "offline tracking without the Gaussian fit",
    "the files after the first one have no eddies",
    '''
x = 20 + 0.1 * np.arange(50); y = 10 + 0.1 * np.arange(50)
a = gauss(x, y, [(1, 22.5, 12.5, 0.4, 0.4, 0)])
te = tracker(x, y, [a, a]); te.skip_gaussian_fit = True
with tempfile.TemporaryDirectory() as d:
    te.out_path = d
    te.time_tracking(lin_levels=[0.4], online_track=False)
    n = [len(open(os.path.join(d, f)).readlines()) for f in sorted(os.listdir(d))]
assert len(n) == 2 and n[0] == n[1], n
''')

bug("option-name", "C23", [("trackeddy/generator/field_generator.py", '            if self.opt == "no_interaction" or self.opt == "Nint":\n',
     '            if self.opt in ("no-interaction", "Nint"):\n')],
    "the option against interaction written out",
    "the option is ignored and eddies may overlap",
    '''
import random
from trackeddy.generator.field_generator import Generate_field
x = np.linspace(10, 50, 200); y = np.linspace(10, 50, 200)
for s in range(20):
    random.seed(s)
    g = Generate_field(1.0, 1.0, 8, x.copy(), y.copy(), "no_interaction")
    g.assemble_field(2, margin=0)
    p = [(x[e["loc"][0][0]], y[e["loc"][0][1]]) for e in g.eddies.values()]
    d = min(np.hypot(a[0] - b[0], a[1] - b[1]) for i, a in enumerate(p) for b in p[:i])
    assert d >= 5 * max(g.a, g.b) - 1e-9, (s, d)
''')

bug("level-single", "C24", [("trackeddy/eddy.py", "        self.level = np.array(level)\n", "        self.level = np.array(level, dtype=np.float32)\n")],
    "a level that single precision cannot hold",
    "the level in the tables is not the one that was searched",
    '''
from trackeddy.eddy import Eddy
e = Eddy(np.array([[0, 0], [1, 0], [1, 1], [0, 0.0]]), 0.1)
assert float(e.to_dict(["level"])["level"]) == 0.1, e.level
''')

bug("colour-of-another", "C25", [(T, '                    ax[1].plot(x_cont, y_cont, ".m", **plot_args)\n', '                    ax[1].plot(x_cont, y_cont, ".c", **plot_args)\n')],
    "a contour discarded for the area of its ellipse",
    "it is drawn as one that differs from its ellipse",
    '''
import warnings; warnings.simplefilter("ignore")
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb
x = 20 + 0.1 * np.arange(60); y = 10 + 0.1 * np.arange(60)
X, Y = np.meshgrid(x, y)
z = np.exp(-(((X - 23) / 0.9) ** 8 + ((Y - 13) / 0.9) ** 8))
te = tracker(x, y, z); te.identification_criteria["ellipse_fit"] = 0.05
e, d = level(te, 0.4)
assert list(d.reason.astype(str)) == ["ellipse_area"], list(d.reason)
te.plot_eddy_detection_in_level(e, d)
ax = plt.gcf().axes[1]
leg = {l: to_rgb(h.get_color()) for h, l in zip(*ax.get_legend_handles_labels())}
p = [l for l in ax.get_lines() if np.allclose(np.ravel(l.get_data()), [float(d.contour_x.iloc[0]), float(d.contour_y.iloc[0])])]
assert len(p) == 1 and to_rgb(p[0].get_color()) == leg["Ellipse area fail"], [l.get_color() for l in p]
''')
