"""Contour lines of the extension module."""
import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx
from grids import grid_case, grid_xyz
from sut import contours_ref

PROPERTY = "C11"
BUDGET = 35
RULE = ("Grids of 2x2 to 24x24 points (regular, stretched, sheared or rotated, up to 1e-3..1e3 degrees per "
        "step, either direction), values of small integers with ties at the level, plateaus, "
        "checkerboards of saddles, noise, smooth bumps, or magnitudes 1e-12..1e12; the level anywhere or exactly on a value. large: up to 520x520 or 90000x6 points, lines of up to 200000 vertices. "
        "Non-trivial: at least one contour line.")
ASSUMPTIONS = ["reference 1: the edge by edge definition of a contour line (interpolated crossings, each "
               "crossed edge once, consecutive vertices on the same cell, ends only on the boundary)",
               "reference 2: contourpy's mpl2005 algorithm",
               "finite data on at least 2x2 points"]


def lines_of(X, Y, z, level):
    from trackeddy.geometry import extract_contours
    segs, codes = extract_contours(X, Y, z, level)
    need(len(segs) == len(codes), "%d lines, %d code arrays", len(segs), len(codes))
    out = []
    for s, k in zip(segs, codes):
        s = np.asarray(s)
        need(s.ndim == 2 and s.shape[1] == 2 and len(s) >= 2, "line of shape %s", s.shape)
        need(len(k) == len(s), "%d vertices, %d codes", len(s), len(k))
        out.append(s)
    return out


def canon(s):
    """A line, whatever its first vertex (if closed) and direction."""
    t = [tuple(v) for v in np.asarray(s).tolist()]
    if t[0] == t[-1] and len(t) > 2:
        t = t[:-1]
        best = None
        m = min(t)
        for seq in (t, t[::-1]):
            for i in range(len(seq)):
                if seq[i] == m:
                    r = tuple(seq[i:] + seq[:i])
                    best = r if best is None or r < best else best
        return ("closed",) + best
    return ("open",) + min(tuple(t), tuple(t[::-1]))


def check_lines(c, rec):
    X, Y, z = grid_xyz(c)
    level = c["level"]
    lines = lines_of(X, Y, z, level)
    ref = contours_ref(X, Y, z, level)
    rec.nontrivial(len(lines))
    rec.event("saddles" if saddles(z, level) else "no saddle",
              "tie" if (z == level).any() else "no tie",
              *{"closed" if (s[0] == s[-1]).all() else "open" for s in lines})
    a, b = sorted(map(canon, lines)), sorted(map(canon, ref))
    need(a == b, "the lines at %r differ from the reference: %d lines, reference %d; first difference %s / %s",
         level, len(a), len(b), *next(([p, q] for p, q in zip(a + [None], b + [None]) if p != q), [None, None]))


def saddles(z, level):
    h = z > level
    return int(((h[:-1, :-1] == h[1:, 1:]) & (h[1:, :-1] == h[:-1, 1:]) & (h[:-1, :-1] != h[1:, :-1])).sum())


def crossings(X, Y, z, level):
    """(edge -> interpolated point) of all edges with one end above the level.
    Edge keys: ('i', j, i) along a row from (j,i) to (j,i+1), ('j', j, i) along a column."""
    hi = z > level
    out = {}
    for kind, dj, di in (("i", 0, 1), ("j", 1, 0)):
        ny, nx = z.shape
        for j in range(ny - dj):
            for i in range(nx - di):
                if hi[j, i] != hi[j + dj, i + di]:
                    z0, z1 = z[j, i], z[j + dj, i + di]
                    w = (level - z0) / (z1 - z0)
                    out[(kind, j, i)] = (X[j, i] + w * (X[j + dj, i + di] - X[j, i]),
                                         Y[j, i] + w * (Y[j + dj, i + di] - Y[j, i]))
    return out


def check_definition(c, rec):
    """Against the definition, without ties: each vertex belongs to one edge."""
    X, Y, z = grid_xyz(c)
    level = c["level"]
    if (z == level).any():
        level = level + 1e-3 * float(np.ptp(z))
    if (z == level).any():
        rec.event("tie")
        return
    ny, nx = z.shape
    lines = lines_of(X, Y, z, level)
    cr = crossings(X, Y, z, level)
    rec.nontrivial(len(cr))
    pts = np.array(list(cr.values())).reshape(-1, 2)
    keys = list(cr)
    sx = max(np.ptp(X), np.abs(X).max() * 1e-9, 1e-300)
    sy = max(np.ptp(Y), np.abs(Y).max() * 1e-9, 1e-300)
    d = np.array([1 / sx, 1 / sy])
    if len(pts) > 1:
        # crossings too close to tell apart
        D = np.abs((pts[:, None] - pts[None]) * d).max(-1) + 10 * np.eye(len(pts))
        if D.min() < 1e-9:
            rec.event("indistinct")
            return
    used = {}
    for s in lines:
        es = []
        closed = len(s) > 2 and (s[0] == s[-1]).all()
        for v in s[:-1] if closed else s:
            need(len(pts), "a line where no edge crosses the level")
            k = int(np.argmin(np.abs((pts - v) * d).max(-1)))
            need(np.abs((pts[k] - v) * d).max() < 1e-10 + 1e-13 * max(np.abs(X).max() / sx, np.abs(Y).max() / sy),
                 "vertex %s is not on a crossing edge", v)
            used[keys[k]] = used.get(keys[k], 0) + 1
            es.append(keys[k])
        pairs = list(zip(es[:-1], es[1:])) + ([(es[-1], es[0])] if closed else [])
        for a, b in pairs:
            need(cells(a, nx, ny) & cells(b, nx, ny), "vertices %s and %s are not on one cell", a, b)
        if not closed:
            for e in (es[0], es[-1]):
                need(len(cells(e, nx, ny)) == 1, "the line ends on the inner edge %s", e)
    need(set(used) == set(keys), "%d crossed edges without a line", len(set(keys) - set(used)))
    need(all(v == 1 for v in used.values()), "an edge is crossed by two lines")


def cells(e, nx, ny):
    kind, j, i = e
    c = [(j, i), (j - 1, i)] if kind == "i" else [(j, i), (j, i - 1)]
    return {(a, b) for a, b in c if 0 <= a < ny - 1 and 0 <= b < nx - 1}


def check_values(c, rec):
    """Exact consequences: negation, scaling by powers of 2, transposition."""
    X, Y, z = grid_xyz(c)
    level = c["level"]
    if (z == level).any():
        level = level + 1e-3 * float(np.ptp(z))
    if (z == level).any():
        return
    a = sorted(map(canon, lines_of(X, Y, z, level)))
    rec.nontrivial(len(a))
    s = 2.0 ** c["k"]
    b = sorted(map(canon, lines_of(X * 4, Y * 0.5, z * s, level * s)))
    b0 = sorted(canon(np.array(q[1:] + ((q[1],) if q[0] == "closed" else ())) * [4, .5]) for q in a)
    need(b0 == b, "scaling by powers of 2 changes the lines")
    if not saddles(z, level):
        n = [np.array(q[1:]) for q in a]
        for name, l2 in (("negation", lines_of(X, Y, -z, -level)),
                         ("transposition", lines_of(X.T.copy(), Y.T.copy(), z.T.copy(), level))):
            m = sorted(map(canon, l2))
            need(len(m) == len(a), "%s changes the number of lines", name)
            pa = np.array(sorted(map(tuple, np.vstack(n).tolist()))) if n else np.zeros((0, 2))
            pm = np.array(sorted(tuple(v) for q in m for v in q[1:])) if m else np.zeros((0, 2))
            need(pa.shape == pm.shape and np.allclose(pa[:, 0], pm[:, 0], rtol=1e-9, atol=1e-9 * np.ptp(X)),
                 "%s changes the vertices", name)


def large():
    return st.fixed_dictionaries(dict(
        shape=st.one_of(st.tuples(st.integers(150, 520), st.integers(150, 520)), st.tuples(st.integers(2, 6), st.integers(9000, 90000)),
                        st.tuples(st.integers(9000, 90000), st.integers(2, 6))),
        kind=st.sampled_from(["comb", "comb", "noise", "zigzag", "round"]), seed=st.integers(0, 2 ** 31), level=fx(0.05, 0.95), T=st.booleans()))


def check_large(c, rec):
    """Long lines, many lines: as many vertices as crossed edges, those of the reference."""
    ny, nx = c["shape"]
    r = np.random.default_rng(c["seed"])
    i, j = np.meshgrid(np.arange(nx), np.arange(ny))
    if c["kind"] == "comb":
        # one line that goes along every row
        z = np.where((j % 2 == 1) & (j < ny - 1) & (i > 0) & (i < nx - 1), 1.0, 0.0)
        z[1:ny - 1, 1 if nx > 2 else 0] = 1.0
    elif c["kind"] == "zigzag":
        z = np.where((i + j) % 2 == 0, 0.45, 0.55) * (j < ny / 2) + 1.0 * (j >= ny / 2)
    elif c["kind"] == "round":
        z = np.exp(-((i - nx / 2) / (0.3 * nx)) ** 2 - ((j - ny / 2) / (0.3 * ny)) ** 2)
    else:
        z = r.random((ny, nx))
    if c["kind"] != "noise":
        z = z + 0.01 * r.random((ny, nx))
    X, Y = 20 + 0.01 * i, 10 + 0.01 * j
    if c["T"]:
        X, Y, z = X.T.copy(), Y.T.copy(), z.T.copy()
    level = c["level"]
    if (z == level).any():
        return
    lines = lines_of(X, Y, z, level)
    h = z > level
    n = int((h[:, 1:] != h[:, :-1]).sum() + (h[1:] != h[:-1]).sum())
    closed = [(s[0] == s[-1]).all() and len(s) > 2 for s in lines]
    need(sum(len(s) - k for s, k in zip(lines, closed)) == n, "%d vertices in %d lines, %d edges are crossed",
         sum(len(s) - k for s, k in zip(lines, closed)), len(lines), n)
    ref = [np.asarray(s) for s in contours_ref(X, Y, z, level)]
    need(sorted(map(len, lines)) == sorted(map(len, ref)), "lines of other lengths than the reference")

    def points(ls):
        p = np.vstack([s[:-1] if (s[0] == s[-1]).all() and len(s) > 2 else s for s in ls]) if ls else np.zeros((0, 2))
        return p[np.lexsort(p.T)]
    need(np.array_equal(points(lines), points(ref)), "other vertices than the reference")
    # a cell is at most two steps of a line, each within the cell
    for s in lines:
        need((np.abs(np.diff(s, axis=0)).max(0) <= 0.01 + 1e-9).all(), "a step of a line leaves its cell")
    longest = max(map(len, lines), default=0)
    rec.nontrivial(longest > 1000)
    rec.event("over 32767 vertices" if longest > 32767 else "over 1000 vertices" if longest > 1000 else "short",
              "over 65535 lines" if len(lines) > 65535 else "over 32767 lines" if len(lines) > 32767 else "fewer lines")


TESTS = [Test("large", large, check_large, 240, 8000, 1), Test("lines", grid_case, check_lines, 24000, 1000000, 2),
         Test("definition", lambda: grid_case(max_n=14), check_definition, 8000, 300000, 2),
         Test("values", grid_case, check_values, 8000, 200000, 1)]
