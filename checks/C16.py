"""Discrete Frechet distance and curve similarity."""
import math

import numpy as np
from hypothesis import strategies as st

from core import Test, need
from gen import fx, logx
from sut import arc, frechet_dp, frechet_ref

PROPERTY = "C16"
BUDGET = 45
RULE = ("uneven: a curve of 400 to 3000 points and one of up to 300. Small curves: 1 to 9 integer points each (ties, repeats, backtracking). Long curves: closed "
        "wobbly loops of 20 to 1500 points with different sampling, start and direction. Non-trivial: "
        "curves that are different and of at least two points.")
ASSUMPTIONS = ["reference for small curves: reachability over couplings, i.e. the definition; for long "
               "ones: an independent dynamic program",
               "where both curves have more than 300 points they may be thinned: checked within the "
               "arc length that thinning can skip"]


def fr(p, q):
    from trackeddy.geometry import frdist
    return float(frdist(p, q))


def sim(p, q):
    from trackeddy.geometry import compute_similarity
    s = compute_similarity(p, q)
    return float(s)


def small():
    pt = st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(list)
    return st.fixed_dictionaries(dict(p=st.lists(pt, min_size=1, max_size=9),
                                      q=st.lists(pt, min_size=1, max_size=9),
                                      k=logx(0.01, 100), dx=st.integers(-50, 50), aslist=st.booleans()))


def check_small(c, rec):
    p, q = np.array(c["p"], float), np.array(c["q"], float)
    rec.nontrivial(len(p) > 1 and len(q) > 1 and c["p"] != c["q"])
    ref = frechet_ref(p, q)
    a = fr(c["p"], c["q"]) if c["aslist"] else fr(p, q)
    need(abs(a - ref) < 1e-9, "distance %r, by the definition %r", a, ref)
    need(abs(fr(q, p) - a) < 1e-9, "distance is not symmetric")
    need(abs(fr(p[::-1], q[::-1]) - a) < 1e-9, "distance changes when both curves are reversed")
    need(abs(fr(p, p)) < 1e-12, "distance of a curve to itself")
    need(abs(fr(p * c["k"], q * c["k"]) - a * c["k"]) < 1e-9 * (1 + a * c["k"]), "distance does not scale")
    need(abs(fr(p + c["dx"], q + c["dx"]) - a) < 1e-9, "distance changes with a shift of both curves")
    need((np.array(c["p"], float) == p).all(), "input modified")
    L = math.sqrt(arc(p) * arc(q))
    if L > 0:
        s = sim(p, q)
        need(abs(s - max(0, 1 - ref / (L / math.sqrt(2)))) < 6e-5, "similarity %r, distance %r, length %r", s, ref, L)
        need(0 <= s <= 1 and abs(sim(q, p) - s) < 1e-9, "similarity %r, swapped %r", s, sim(q, p))
        need(sim(p, p) == 1, "similarity of a curve with itself")


def loops():
    one = st.fixed_dictionaries(dict(n=st.one_of(st.integers(4, 120), st.integers(100, 320)), r=fx(0.2, 3), q=fx(0.5, 1), t0=fx(0, 6.28),
                                     rev=st.booleans(), wob=fx(0, 0.3), k=st.integers(1, 7)))
    return st.fixed_dictionaries(dict(a=one, b=one, dx=fx(-1, 1), dy=fx(-1, 1)))


def big_loops():
    one = st.fixed_dictionaries(dict(n=st.integers(301, 1500), r=fx(0.5, 3), q=fx(0.5, 1), t0=fx(0, 6.28),
                                     rev=st.booleans(), wob=fx(0, 0.2), k=st.integers(1, 4)))
    return st.fixed_dictionaries(dict(a=one, b=one, dx=fx(-1, 1), dy=fx(-1, 1)))


def loop(c, dx=0, dy=0):
    t = np.linspace(0, 2 * np.pi, c["n"]) * (-1 if c["rev"] else 1) + c["t0"]
    w = c["r"] * (1 + c["wob"] * np.cos(c["k"] * t))
    p = np.column_stack([dx + w * np.cos(t), dy + w * c["q"] * np.sin(t)])
    p[-1] = p[0]
    return p


def check_long(c, rec):
    p, q = loop(c["a"]), loop(c["b"], c["dx"], c["dy"])
    rec.nontrivial()
    rec.event("one above 300" if max(len(p), len(q)) > 300 else "below 300")
    ref = frechet_dp(p, q)
    a = fr(p, q)
    if min(len(p), len(q)) > 300:
        return check_big(c, rec)
    need(abs(a - ref) < 1e-9, "distance %r, reference %r (%d and %d points)", a, ref, len(p), len(q))
    s = sim(p, q)
    L = math.sqrt(arc(p) * arc(q))
    need(abs(s - max(0, 1 - ref / (L / math.sqrt(2)))) < 6e-5, "similarity %r, expected %r", s,
         1 - ref / (L / math.sqrt(2)))
    rec.event("similar" if s > 0.5 else "different")


def skipped(p, w):
    d = np.r_[0, np.cumsum(np.sqrt((np.diff(p, axis=0) ** 2).sum(1)))]
    w = min(w, len(d) - 1)
    return float((d[w:] - d[:-w]).max())


def check_big(c, rec):
    p, q = loop(c["a"]), loop(c["b"], c["dx"], c["dy"])
    rec.nontrivial()
    a = fr(p, q)
    D = frechet_dp(p[::3], q[::3])
    slack = sum(skipped(v, len(v) // 60 + 1) + skipped(v, 3) for v in (p, q))
    need(abs(a - D) <= slack + 1e-9, "distance %r, thinned reference %r (slack %r)", a, D, slack)
    need(abs(fr(q, p) - a) <= 1e-9 + slack, "not symmetric")
    need(fr(p, p) < 1e-12 and sim(p, p) == 1, "a curve differs from itself")
    need(0 <= sim(p, q) <= 1, "similarity out of [0, 1]")


def uneven():
    return st.fixed_dictionaries(dict(a=st.builds(dict, n=st.one_of(st.integers(400, 3000), st.integers(300, 320)), r=fx(0.5, 3), q=fx(0.5, 1), t0=fx(0, 6.28), rev=st.booleans(),
                                                  wob=fx(0, 0.2), k=st.integers(1, 4)),
                                      b=st.builds(dict, n=st.one_of(st.integers(2, 300), st.sampled_from([299, 300])), r=fx(0.5, 3), q=fx(0.5, 1), t0=fx(0, 6.28), rev=st.booleans(),
                                                  wob=fx(0, 0.2), k=st.integers(1, 4)), dx=fx(-1, 1), dy=fx(-1, 1), swap=st.booleans()))


def check_uneven(c, rec):
    """One of the curves has at most 300 points: nothing is thinned."""
    p, q = loop(c["a"]), loop(c["b"], c["dx"], c["dy"])
    if c["swap"]:
        p, q = q, p
    rec.nontrivial()
    ref = frechet_dp(p, q)
    a = fr(p, q)
    need(abs(a - ref) < 1e-9, "distance %r, reference %r (%d and %d points)", a, ref, len(p), len(q))


TESTS = [Test("uneven", uneven, check_uneven, 250, 8000, 3),
         Test("definition", small, check_small, 8000, 200000, 3),
         Test("long", loops, check_long, 1400, 30000, 4),
         Test("very_long", big_loops, check_big, 32, 1500, 4)]
