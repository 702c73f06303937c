"""Regions between two levels, and masked grids, of the extension module."""
import contourpy
import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from grids import grid_case, grid_xyz
from checks.C11 import canon

PROPERTY = "C13"
BUDGET = 35
RULE = ("The grids of C11 with two levels, an optional mask (single points, blocks, dense noise) and an optional "
        "chunk size. Non-trivial: the region between the levels is neither empty nor everything, or the "
        "mask cuts a line.")
ASSUMPTIONS = ["reference 1: areas add up (signed shoelace area of the polygons), over levels and over the whole grid",
               "reference 2: contourpy's mpl2005 algorithm", "finite data on at least 2x2 points"]


def cntr(X, Y, z, mask=None):
    from trackeddy import _cntr
    return _cntr.Cntr(X, Y, z) if mask is None else _cntr.Cntr(X, Y, z, mask)


def trace(*a):
    g, args = a[0], a[1:]
    res = g.trace(*args)
    n = len(res) // 2
    need(len(res) == 2 * n, "odd number of arrays")
    for p, k in zip(res[:n], res[n:]):
        need(p.ndim == 2 and p.shape[1] == 2 and len(p) == len(k) and len(p), "arrays %s %s", p.shape, k.shape)
    return res[:n], res[n:]


def pieces(p, k):
    """Polygons of one part: a new one starts at each code 1."""
    st_ = [i for i in range(len(k)) if k[i] == 1] + [len(k)]
    need(k[0] == 1, "the part does not start with a move")
    return [p[a:b] for a, b in zip(st_[:-1], st_[1:])]


def area(polys, codes):
    """Signed area of the parts: holes count with the other sign."""
    tot = 0.0
    for p, k in zip(polys, codes):
        for q in pieces(p, k):
            q = q - q[0]
            tot += 0.5 * np.sum(q[:-1, 0] * q[1:, 1] - q[1:, 0] * q[:-1, 1])
    return tot


def masked_case():
    return st.tuples(grid_case(two=True), st.sampled_from(["no", "no", "points", "block", "dense"]),
                     st.integers(0, 10 ** 6)).map(lambda t: dict(t[0], mask=t[1], mseed=t[2]))


def the_mask(c):
    if c["mask"] == "no":
        return None
    r = np.random.default_rng(c["mseed"])
    m = np.zeros((c["ny"], c["nx"]), bool)
    if c["mask"] == "points":
        m = r.random(m.shape) < 0.06
    elif c["mask"] == "dense":
        m = r.random(m.shape) < 0.35
    else:
        j, i = r.integers(0, c["ny"]), r.integers(0, c["nx"])
        m[j:j + r.integers(1, 5), i:i + r.integers(1, 5)] = True
    return m


def check_reference(c, rec):
    X, Y, z = grid_xyz(c)
    m = the_mask(c)
    l0, l1 = c["level"], c["level1"]
    g = cntr(X, Y, z, m)
    zr = z if m is None else np.ma.array(z, mask=m)
    ref = contourpy.contour_generator(X, Y, zr, name="mpl2005")
    a, ka = trace(g, l0)
    b, kb = ref.lines(l0)
    rec.event("mask " + c["mask"])
    need(sorted(map(canon, a)) == sorted(map(canon, b)), "lines at %r: %d, reference %d", l0, len(a), len(b))
    if not l1 > l0:
        return
    a, ka = trace(g, l0, l1)
    b, kb = ref.filled(l0, l1)
    rec.nontrivial(len(a) and ((z <= l0) | (z > l1)).any())
    same = len(a) == len(b) and all(p.shape == q.shape and (p == q).all() and (s == t).all()
                                    for p, q, s, t in zip(a, b, ka, kb))
    if not same:
        # same regions, in any order and with any slit
        sa = sorted((round(x, 9) for x in (abs(area([p], [k])) for p, k in zip(a, ka))))
        sb = sorted((round(x, 9) for x in (abs(area([p], [k])) for p, k in zip(b, kb))))
        need(len(sa) == len(sb) and np.allclose(sa, sb, rtol=1e-9, atol=1e-9 * (max(sb) if sb else 1)),
             "areas of the regions between %r and %r: %s, reference %s", l0, l1, sa[:6], sb[:6])
        va, vb = (np.unique(np.vstack([np.zeros((0, 2))] + list(v)), axis=0) for v in (a, b))
        need(va.shape == vb.shape and (va == vb).all(), "the regions have other vertices than the reference")


def check_areas(c, rec):
    """Regions between consecutive levels tile the grid, in chunks or not."""
    X, Y, z = grid_xyz(c)
    m = the_mask(c)
    lo, hi = float(z.min()), float(z.max())
    s = (hi - lo) or 1.0
    ls = sorted({lo - s, c["level"], c["level1"], hi + s})
    ls = [l for i, l in enumerate(ls) if i == 0 or l - ls[i - 1] > 1e-9 * s]
    # the two ways to connect a saddle whose centre is at the level are both right
    zc = (z[:-1, :-1] + z[1:, :-1] + z[:-1, 1:] + z[1:, 1:]) / 4
    ls = [l for l in ls if np.abs(zc - l).min() > 1e-9 * s]
    if len(ls) < 2:
        rec.event("ambiguous")
        return
    g = cntr(X, Y, z, m)
    # region of the zones whose four corners are all valid
    ok = np.ones(z.shape, bool) if m is None else ~m
    zone = ok[:-1, :-1] & ok[1:, :-1] & ok[:-1, 1:] & ok[1:, 1:]

    def quad(F):
        return F[:-1, :-1], F[:-1, 1:], F[1:, 1:], F[1:, :-1]
    qx, qy = quad(X), quad(Y)
    cellarea = 0.5 * abs((qx[2] - qx[0]) * (qy[3] - qy[1]) - (qx[3] - qx[1]) * (qy[2] - qy[0]))
    whole = float((cellarea * zone).sum())
    tol = 1e-9 * float(cellarea.sum()) + 1e-300
    chunk = c["nchunk"]
    rec.event("chunk %d" % chunk, "mask " + c["mask"])
    parts = [abs(area(*trace(g, a, b))) for a, b in zip(ls[:-1], ls[1:])]
    rec.nontrivial(len(parts) > 1)
    one = abs(area(*trace(g, ls[0], ls[-1])))
    if c["warp"] != "stretch":
        need(abs(one - whole) <= tol, "region of all values: area %r, zones %r", one, whole)
    need(abs(sum(parts) - one) <= tol, "areas of the regions between %s add up to %r, whole %r", ls, sum(parts), one)
    for (a, b), p in zip(zip(ls[:-1], ls[1:]), parts):
        q = abs(area(*trace(g, a, b, chunk)))
        need(abs(p - q) <= tol, "area between %r and %r is %r with chunks of %d, %r without", a, b, q, chunk, p)
        need(abs(abs(area(*trace(g, a, b))) - p) <= tol, "a second trace gives another area")


TESTS = [Test("reference", masked_case, check_reference, 16000, 600000, 1),
         Test("areas", masked_case, check_areas, 8000, 300000, 1)]
