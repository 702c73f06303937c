"""Generated fields to detect eddies in."""
import numpy as np
from hypothesis import strategies as st

from gen import fx, sign
from sut import axes, dataset, gauss2d


SLA = {}


def sla():
    """Sea level anomaly (m) of one day, from the altimetry that the repository contains; missing on land."""
    if not SLA:
        import os

        import xarray as xr
        with xr.open_dataset(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "input", "dt_global_allsat_phy_l4_20160901.nc")) as ds:
            SLA["z"] = ds["sla"].isel(time=0).transpose("latitude", "longitude").values.astype(float)
    return SLA["z"]


def real(nan=True, nmin=14, nmax=48):
    """A window of the ocean, as a scene, with an extremum that is 1 or -1."""
    @st.composite
    def strat(draw):
        nx, ny = draw(st.integers(nmin, nmax)), draw(st.integers(nmin, nmax))
        at = draw(st.integers(0, len(extrema()) - 1))
        q, p = (int(v) for v in extrema()[at])
        j = min(max(q - draw(st.integers(5, ny - 6)), 0), 720 - ny)
        i = min(max(p - draw(st.integers(5, nx - 6)), 0), 1440 - nx)
        v = float(sla()[q, p])
        return {"nx": nx, "ny": ny, "dx": 0.25, "dy": 0.25, "lon0": 0.125 + 0.25 * i, "lat0": -89.875 + 0.25 * j,
                "peaks": [[1 if v > 0 else -1]], "noise": "ocean", "nan": None, "unit": draw(st.sampled_from([1.0, 1.0, 0.25])), "step": 0,
                "real": [j, i, abs(v), nan or draw(st.sampled_from([0.0, 1.0]))]}
    return strat()


def extrema():
    """The most extreme points of the ocean within 2.5 degrees, away from the poles."""
    if "at" not in SLA:
        from scipy import ndimage
        z = np.nan_to_num(np.abs(sla()))
        top = (z == ndimage.maximum_filter(z, 21)) & (z > 0.03)
        top[:100] = top[-140:] = False
        SLA["at"] = np.argwhere(top)
    return SLA["at"]


def scene(nan=True, nmin=14, nmax=40, noise=True, lat=55, tilt=True, maxpeaks=6, descending=True, island=False, stretch=False):
    @st.composite
    def strat(draw):
        nx, ny = draw(st.integers(nmin, nmax)), draw(st.integers(nmin, nmax))
        d = draw(st.sampled_from([0.25, 0.1, 0.05, 0.5, 1 / 3, 1.0]))
        c = {"nx": nx, "ny": ny, "dx": d, "dy": d,
             "lon0": draw(st.one_of(fx(-180, 360, 0.25), st.sampled_from([-4.0, 177.0, 0.0]))),
             "lat0": draw(st.one_of(fx(-lat, lat, 0.25), st.sampled_from([-4.0, 0.0]))),
             "peaks": [], "noise": None, "nan": None, "unit": 1.0, "step": 0}
        if draw(st.integers(0, 3)) == 0:
            c["dy"] = d * draw(st.sampled_from([0.5, 0.7, 1.4, 2]))
        if descending and draw(st.integers(0, 7)) == 0:
            c["lat0"], c["dy"] = round(c["lat0"] + c["dy"] * ny, 6), -c["dy"]
        if d == 1.0:      # away from the poles
            c["lat0"] = round(c["lat0"] * 0.5 - 0.5 * c["dy"] * ny, 6)
        for _ in range(draw(st.integers(0 if noise else 1, maxpeaks))):
            s = draw(fx(1.5, 7, 0.1))
            q = draw(fx(0.4, 1, 0.01))
            c["peaks"].append([draw(sign()) * draw(fx(0.4, 2, 0.01)), draw(fx(-0.05, 1.05)), draw(fx(-0.05, 1.05)),
                               s, round(s * q, 4), draw(fx(-1.57, 1.57, 0.01)) if tilt else 0.0])
        if noise and draw(st.integers(0, 2)) == 0:
            c["noise"] = [draw(st.sampled_from([0.05, 0.3, 1.0])), draw(st.sampled_from([0, 0.7, 1.0, 2.0, 3.0])),
                          draw(st.integers(0, 10 ** 6))]
        if nan and draw(st.integers(0, 4)) == 0:
            c["nan"] = [draw(st.sampled_from(["points", "block", "coast"])), draw(st.integers(0, 10 ** 6))]
        if draw(st.integers(0, 3)) == 0:
            c["unit"] = draw(st.sampled_from([1e-3, 100.0, 1e3, 0.01]))
        if noise and draw(st.integers(0, 5)) == 0:
            c["step"] = 0.25
        if island and draw(st.integers(0, 5)) == 0:
            # zeros, as of land, in a plateau
            c["island"] = [draw(sign()), draw(fx(0.1, 0.9)), draw(fx(0.1, 0.9)), draw(fx(1, 8, 0.1)), draw(fx(0.5, 1, 0.1))]
            if draw(st.booleans()):
                c["peaks"], c["noise"] = [], None
        if stretch and d < 1 and draw(st.integers(0, 3)) == 0:
            c["stretch"] = [draw(st.sampled_from([0, 0.3, -0.3])), draw(st.sampled_from([0.3, -0.3, 0.15]))]
        return c
    return strat()


def scene_xyz(c):
    x, y = axes(c["lon0"], c["lat0"], c["dx"], c["dy"], c["nx"], c["ny"])
    if c.get("stretch"):     # steps that grow or shrink by this part from one end to the other
        i, j = np.arange(c["nx"]), np.arange(c["ny"])
        x = c["lon0"] + c["dx"] * np.round((i + c["stretch"][0] * i * i / (2 * c["nx"])) * 1024) / 1024
        y = c["lat0"] + c["dy"] * np.round((j + c["stretch"][1] * j * j / (2 * c["ny"])) * 1024) / 1024
    I, J = np.meshgrid(np.arange(c["nx"], dtype=float), np.arange(c["ny"], dtype=float))
    z = np.zeros(I.shape)
    if c.get("real"):
        j, i, top, fill = c["real"]
        z = sla()[j:j + c["ny"], i:i + c["nx"]] / top * c["unit"]
        return x, y, z if fill is True else np.where(np.isnan(z), fill * c["unit"], z)
    for A, fxx, fyy, sx, sy, th in c["peaks"]:
        z += gauss2d(I, J, A, fxx * (c["nx"] - 1), fyy * (c["ny"] - 1), sx, sy, th)
    if c["noise"]:
        from scipy import ndimage
        amp, sc, seed = c["noise"]
        w = np.random.default_rng(seed).normal(size=z.shape)
        if sc:
            w = ndimage.gaussian_filter(w, sc)
        z += amp * w / w.std()
    if c["step"]:
        z = np.round(z / c["step"]) * c["step"]
    if c.get("island"):
        s, fxx, fyy, r, q = c["island"]
        z = z + s
        z[(I - fxx * (c["nx"] - 1)) ** 2 + ((J - fyy * (c["ny"] - 1)) / q) ** 2 < r * r] = 0
    z = (z + c.get("offset", 0)) * c["unit"]
    if c["nan"]:
        kind, seed = c["nan"]
        r = np.random.default_rng(seed)
        if kind == "points":
            z[r.random(z.shape) < 0.03] = np.nan
        elif kind == "block":
            j, i = r.integers(0, c["ny"]), r.integers(0, c["nx"])
            z[j:j + r.integers(1, 8), i:i + r.integers(1, 8)] = np.nan
        else:
            z[:, :r.integers(1, max(2, c["nx"] // 3))] = np.nan
    return x, y, z


def scene_ds(c, time=True):
    x, y, z = scene_xyz(c)
    return x, y, z, dataset(x, y, [z] if time else z, time=time)


def level_for(c, f):
    """A level as a fraction of the largest peak's amplitude (or of 1)."""
    return round(f, 6) * c["unit"]


def likely(maxpeaks=3, lat=55, nmin=26, nmax=34, q=0.65, stretch=False):
    """Scenes of well separated peaks, away from the border, without noise."""
    @st.composite
    def strat(draw):
        c = draw(scene(nan=False, noise=False, nmin=nmin, nmax=nmax, lat=lat, maxpeaks=1, stretch=stretch))
        n = draw(st.integers(1, maxpeaks))
        spots = draw(st.permutations([(0.25, 0.25), (0.72, 0.3), (0.3, 0.75), (0.75, 0.72), (0.5, 0.5)]))
        if n > 1:
            spots = [s for s in spots if s != (0.5, 0.5)]
        c["peaks"] = []
        for i in range(n):
            s = draw(fx(2.4, 3.6 if n > 1 else 5, 0.1))
            c["peaks"].append([draw(sign()) * draw(fx(0.6, 1.6, 0.01)),
                               round(spots[i][0] + draw(fx(-0.04, 0.04)), 4), round(spots[i][1] + draw(fx(-0.04, 0.04)), 4),
                               s, round(s * draw(fx(q, 1, 0.01)), 4), draw(fx(-1.57, 1.57, 0.01))])
        return c
    return strat()


def wide(lat=55):
    """One eddy of many grid points, whose contours have 60 to 290 vertices, with others within or next to it."""
    @st.composite
    def strat(draw):
        n = draw(st.integers(56, 104))
        s = draw(fx(7, 20, 0.1))
        s = min(s, round(n / 4.6, 1))
        d = draw(st.sampled_from([0.02, 0.05, 0.1]))
        c = {"nx": n, "ny": n + draw(st.integers(-8, 8)), "dx": d, "dy": d, "lon0": draw(st.one_of(fx(-180, 360, 0.25), st.sampled_from([-2.0, 178.0]))),
             "lat0": draw(st.one_of(fx(-lat, lat, 0.25), st.just(-2.0))), "noise": None, "nan": None, "unit": 1.0, "step": 0,
             "peaks": [[draw(sign()) * draw(fx(0.6, 1.6, 0.01)), draw(fx(0.45, 0.55)), draw(fx(0.45, 0.55)), s, round(s * draw(fx(0.6, 1, 0.01)), 4),
                        draw(fx(-1.57, 1.57, 0.01))]]}
        for _ in range(draw(st.integers(0, 3))):
            t = draw(fx(1, 6, 0.1))
            c["peaks"].append([draw(sign()) * draw(fx(0.05, 0.6, 0.01)), draw(fx(0, 1)), draw(fx(0, 1)), t, round(t * draw(fx(0.5, 1, 0.01)), 4), draw(fx(-1.57, 1.57, 0.01))])
        if draw(st.integers(0, 2)) == 0:
            c["noise"] = [draw(st.sampled_from([0.02, 0.05])), draw(st.sampled_from([2, 5])), draw(st.integers(0, 10 ** 6))]
        return c
    return strat()


def over_ocean(cases, **kw):
    """The cases of a test, over windows of the ocean."""
    def make(v):
        c, s, f, k = v
        c = dict(c, scene=s)
        if f and "f" in c:
            c["f"] = f
            if "crit" in c and k:
                c["crit"] = {"ellipse_fit": 1.0, "eccentricity": 0.95, "gaussian_fit": 0.5}
        return c
    return lambda: st.tuples(cases(), real(**kw), st.one_of(st.none(), fx(0.3, 0.95), fx(0.3, 0.95)), st.booleans()).map(make)
