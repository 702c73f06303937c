"""Rossby radius that limits the size of an eddy."""
import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from sut import axes, dataset, detect, field, rossby_ref

PROPERTY = "C18"
BUDGET = 35
RULE = ("radius: any latitude in [-90, 90] to 1e-4, alone and in arrays. limit: an isolated round Gaussian "
        "at any latitude up to 88 whose contour radius is 0.3 to 3 times the limit (not within 4% of it). "
        "Non-trivial: latitude not 0; for limit, ratio within a factor 1.6 of the limit.")
ASSUMPTIONS = ["the documented approximation: 200 exp(-lat^2/2 0.15^2) + 60 exp(-lat^2/40 0.15^2) km"]


def check_radius(c, rec):
    from trackeddy.physics import approx_RD_lat
    lat, l2 = c["lat"], c["lat2"]
    rec.nontrivial(lat != 0)
    r = float(approx_RD_lat(lat))
    need(abs(r / rossby_ref(lat) - 1) < 1e-9, "radius at %r is %r km, expected %r", lat, r, rossby_ref(lat))
    need(float(approx_RD_lat(-lat)) == r, "not symmetric about the equator at %r", lat)
    need(0 < r <= 260, "radius %r", r)
    if abs(l2) > abs(lat) + 1e-6:
        need(float(approx_RD_lat(l2)) < r, "radius does not decrease polewards: %r %r", lat, l2)
    arr = np.asarray(approx_RD_lat(np.array([lat, l2, -lat])))
    need(arr.shape == (3,) and abs(arr[0] - r) < 1e-9 * r and abs(arr[2] - r) < 1e-9 * r,
         "arrays give other values than numbers: %r", arr)


def limits():
    return st.fixed_dictionaries(dict(lat=st.one_of(fx(-75, 75, 0.1), fx(-88, 88, 0.1), fx(70, 88, 0.1), fx(-88, -70, 0.1)), ratio=st.one_of(fx(0.3, 3), fx(0.7, 1.4)),
                                      crit=st.sampled_from([6.283185307179586, 1.0, 2.0, 4.0]),
                                      neg=st.booleans(), fx=fx(-0.5, 0.5), fy=fx(-0.5, 0.5)))


def check_limit(c, rec):
    """An eddy is discarded because of its size exactly if its radius exceeds
    the factor times the Rossby radius at its centre."""
    lim = c["crit"] * rossby_ref(c["lat"])
    R = c["ratio"] * lim                      # km, wanted radius of the contour
    km = 6378.137 * np.pi / 180
    ry = min(R / km, 14)
    coslat = np.cos(np.deg2rad(c["lat"]))
    # an ellipse in degrees that is a circle at the centre latitude
    rx = ry / coslat
    # near the poles only if it is small enough there to stay round
    if rx > 60 or abs(c["lat"]) + 2.2 * ry > 89 or ((abs(c["lat"]) + 2.2 * ry > 84 or coslat < 0.55)
                                                   and np.deg2rad(ry) * abs(np.tan(np.deg2rad(c["lat"]))) > 0.1):
        rec.event("too large for the hemisphere")
        return
    f = 0.5
    sig = 1 / np.sqrt(2 * np.log(1 / f))
    n = 41
    x = np.linspace(100 - 2.6 * rx, 100 + 2.6 * rx, n)
    y = np.linspace(c["lat"] - 2.2 * ry, c["lat"] + 2.2 * ry, n)
    A = -1.0 if c["neg"] else 1.0
    ds = dataset(x, y, [field(x, y, [[A, 100 + c["fx"] * (x[1] - x[0]), c["lat"] + c["fy"] * (y[1] - y[0]),
                                      rx * sig, ry * sig, 0.0]])])
    eddies, disc = detect(ds, A * f, criteria={"max_area": c["crit"], "ellipse_fit": 1.0, "eccentricity": 1.0}, skip=True)
    need(len(eddies) + len(disc) == 1, "%d eddies and %d discarded for one contour", len(eddies), len(disc))
    rec_ = eddies[0] if eddies else disc.iloc[0]
    radius = float(rec_["radius_eddy"])
    limit = c["crit"] * rossby_ref(float(rec_["contour_y"]))
    rec.event("above" if radius > limit else "below")
    if abs(radius / limit - 1) < 1e-6:
        return
    rec.nontrivial(0.6 < radius / limit < 1.6)
    if radius > limit:
        need(not eddies and str(rec_["reason"]) == "area", "radius %.6g km above the limit %.6g km, but %s", radius,
             limit, "reported" if eddies else rec_["reason"])
    else:
        need(bool(eddies), "radius %.6g km below the limit %.6g km, but discarded as %s", radius, limit,
             None if eddies else rec_["reason"])


TESTS = [Test("radius", lambda: st.fixed_dictionaries(dict(lat=fx(-90, 90, 0.0001), lat2=fx(-90, 90, 0.0001))),
              check_radius, 6000, 100000, 1),
         Test("limit", limits, check_limit, 6000, 100000, 4)]
