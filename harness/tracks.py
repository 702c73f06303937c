"""Histories of eddies, and the reference of their tracking in time."""
import numpy as np
from hypothesis import strategies as st

import tables
from core import need
from gen import fx
from scenes import scene_ds
from sut import GAUSS, SCALARS, haversine, parse

EPS = 1e-7


class Ambiguous(Exception):
    pass


def histories(nt=(2, 9), npart=5, chaos=True):
    """Particles that drift, vanish for some time, meet, and noise; as lists of
    eddies per time."""
    @st.composite
    def strat(draw):
        lon, lat = draw(st.one_of(fx(-180, 360, 0.25), st.sampled_from([179.5, -179.5, 0.0, 359.5]))), draw(st.one_of(fx(-60, 60, 0.25), st.just(0.0)))
        n = draw(st.integers(*nt))
        snaps = [[] for _ in range(n)]
        for p in range(draw(st.integers(1, npart))):
            a, b = draw(fx(-3, 3)), draw(fx(-3, 3))
            r = draw(fx(20, 150))
            sp = draw(st.sampled_from([0.05, 0.3, 0.6, 0.95, 1.05, 2.0])) * r / 111.2
            th = draw(fx(-3.14, 3.14, 0.01))
            t0 = draw(st.integers(0, n - 1)) if draw(st.booleans()) else 0
            t1 = draw(st.integers(t0, n - 1)) if draw(st.integers(0, 2)) == 0 else n - 1
            seen = [True] * n
            k = draw(st.sampled_from([0, 0, 1, 2]))
            for _ in range(k):
                g0 = draw(st.integers(0, n - 1))
                for t in range(g0, min(n, g0 + draw(st.integers(1, 8)))):
                    seen[t] = False
            s = draw(st.sampled_from([1, -1]))
            for t in range(n):
                if t > t0:
                    a += sp * np.cos(th)
                    b += sp * np.sin(th)
                    if chaos and draw(st.integers(0, 3)) == 0:
                        th = draw(fx(-3.14, 3.14, 0.01))
                if t0 <= t <= t1 and seen[t]:
                    snaps[t].append({"lon": round(lon + a, 6), "lat": round(lat + b, 6), "radius": r, "n": draw(st.integers(0, 2)) if p == 0 else 0,
                                     "sign": s if draw(st.integers(0, 9)) else -s, "maxima": round(1 + 0.01 * p + 0.001 * t, 4)})
        for t in range(n):
            if draw(st.integers(0, 2)) == 0 and len(snaps[t]) > 1:
                snaps[t] = draw(st.permutations(snaps[t]))
        return {"snaps": snaps, "ntimes": draw(st.sampled_from([0, 1, 1, 2, 3, 5, 5, 30]))}
    return strat()


def gaps():
    """Few eddies, far apart, that vanish for about the number of snapshots over which
    they may be linked."""
    @st.composite
    def strat(draw):
        nt = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 5, 5]))
        lon, lat = draw(fx(-180, 360, 0.25)), draw(fx(-50, 50, 0.25))
        n = nt + draw(st.integers(3, 8))
        snaps = [[] for _ in range(n)]
        for p in range(draw(st.integers(1, 3))):
            g = max(0, nt + draw(st.sampled_from([-1, 0, 1, 1, 2])))
            a = draw(st.integers(0, max(0, n - g - 2)))
            first = draw(st.integers(0, a))
            r, sp = draw(fx(40, 100)), draw(st.sampled_from([0.0, 0.02, 0.5]))
            for t in range(n):
                if t < first or a < t <= a + g:
                    continue
                k = t - first if t <= a else t - first - g
                snaps[t].append({"lon": round(lon + 8 * p + k * sp * r / 111.2, 6), "lat": lat, "radius": r, "n": 0, "sign": 1,
                                 "maxima": round(1 + 0.01 * p + 0.001 * t, 4)})
        return {"snaps": snaps, "ntimes": nt}
    return strat()


def edges():
    """Eddies whose radius is a little more or less than the distance to where they were."""
    @st.composite
    def strat(draw):
        lon, lat = draw(st.one_of(fx(-180, 360, 0.25), st.sampled_from([179.5, 359.5]))), draw(fx(-75, 75, 0.25))
        n = draw(st.integers(2, 6))
        snaps = [[] for _ in range(n)]
        for p in range(draw(st.integers(1, 3))):
            a, b = lon + 40 * p, lat
            step, th = draw(fx(5, 300)), draw(fx(-3.14, 3.14, 0.01))
            seen = None
            for t in range(n):
                if t:
                    b = max(-89, min(89, b + step / 111.2 * np.sin(th)))
                    a += step / 111.2 * np.cos(th) / np.cos(np.radians(b))
                    if draw(st.integers(0, 2)) == 0:
                        th = draw(fx(-3.14, 3.14, 0.01))
                r = 60.0
                a, b = round(a, 6), round(b, 6)
                if seen:
                    r = haversine(seen[1], seen[0], b, a) * (1 + draw(st.sampled_from([1, -1])) * draw(st.sampled_from([3e-4, 3e-4, 1e-3, 3e-3, 1e-2, 0.1])))
                if seen and draw(st.integers(0, 7)) == 0:
                    continue
                snaps[t].append({"lon": a, "lat": b, "radius": r, "n": 0, "sign": 1, "maxima": round(1 + 0.01 * p + 0.001 * t, 4)})
                seen = (a, b)
        return {"snaps": snaps, "ntimes": draw(st.sampled_from([0, 1, 5, 5]))}
    return strat()


def wrap_lon(snaps):
    """Same positions with longitudes in [-180, 180)."""
    return [[dict(e, lon=round((e["lon"] + 180) % 360 - 180, 6)) for e in s] for s in snaps]


def stub(snaps, first=0):
    """A tracker whose detection of a snapshot is answered from a list, whose first element is at time first."""
    from trackeddy.trackeddy import TrackEddy

    class Stub(TrackEddy):
        calls = 0

        def _detect_snapshot(self, time, levels):
            self.calls += 1
            return tables.table(snaps[time - first])
    sc = {"nx": 4, "ny": 3, "lon0": 0.0, "lat0": 0.0, "dx": 1.0, "dy": 1.0, "peaks": [], "noise": None, "nan": None,
          "unit": 1.0, "step": 0}
    ds = scene_ds(sc)[3]
    import xarray as xr
    te = Stub(xr.concat([ds] * len(snaps), "time") if first == 0 else ds.isel(time=np.zeros(first + len(snaps), int)), "ssh")
    te.filter = None
    return te


def recs(snap):
    """Records of one detected snapshot, in order."""
    return parse(tables.table(snap))


def window(c):
    # 5 is the default of time_tracking
    return {} if c["ntimes"] == 5 else {"ntimes": c["ntimes"]}


def link_ref(per_time, ntimes, t0=0):
    """per_time: records of each time. Returns the tracks: lists of (time, position in the
    snapshot), in order of appearance.

    An eddy continues the track whose last known extremum is nearest, among the tracks
    seen at most ntimes snapshots before the previous one, if that is closer than the
    radius of the eddy. The closest of several eddies takes the track."""
    T = []
    for t, N in enumerate(per_time):
        t += t0
        elig = [k for k, tr in enumerate(T) if tr[-1][0] >= t - 1 - ntimes]
        claims = {}
        fresh = []
        for i, n in enumerate(N):
            if not elig:
                fresh.append(i)
                continue
            d = [haversine(T[k][-1][2]["maxima_y"], T[k][-1][2]["maxima_x"], n["maxima_y"], n["maxima_x"]) for k in elig]
            o = np.argsort(d)
            best = d[o[0]]
            if abs(best - n["radius_eddy"]) < EPS * n["radius_eddy"] or (len(d) > 1 and d[o[1]] - best < EPS and best < n["radius_eddy"]):
                raise Ambiguous()
            if best < n["radius_eddy"]:
                claims.setdefault(elig[o[0]], []).append((best, i))
            else:
                fresh.append(i)
        for k, c in claims.items():
            c.sort()
            if len(c) > 1 and c[1][0] - c[0][0] < EPS:
                raise Ambiguous()
            T[k].append((t, c[0][1], N[c[0][1]]))
            fresh.extend(i for _, i in c[1:])
        for i in sorted(fresh):
            T.append([(t, i, N[i])])
    return T


def structure(table, per_time, t0=0):
    """The result of a tracking as {identifier: [(time, position in the snapshot), ...]},
    after the checks that hold for any tracking."""
    if len(table) == 0:
        n = sum(map(len, per_time))
        need(n == 0, "no tracks of %d eddies", n)
        return {}
    need(list(table.index.names) == ["identifier", "time", "index"], "index of the tracks is %s", table.index.names)
    need(table.index.is_monotonic_increasing, "the index of the tracks is not sorted")
    rows = parse(table)
    ids = sorted({r["identifier"] for r in rows})
    need(ids == list(range(len(ids))), "identifiers %s", ids)
    out = {}
    for t, N in enumerate(per_time):
        t += t0
        at = [r for r in rows if r["time"] == t]
        left = {}
        for i, n in enumerate(N):
            left.setdefault(tables.fingerprint(n), []).append(i)
        for r in at:
            f = tables.fingerprint(r)
            need(left.get(f), "eddy %d at time %d is not one of the %d of the snapshot: %s", r["identifier"], t, len(N),
                 {k: r[k] for k in ("maxima_x", "maxima_y", "radius_eddy")})
            out.setdefault(r["identifier"], []).append((t, left[f].pop(0)))
        miss = [i for v in left.values() for i in v]
        need(not miss, "eddies %s of the snapshot at time %d are not in the tracks (%d of %d are)", miss, t, len(at), len(N))
    need(sum(map(len, out.values())) == len(rows), "%d eddies at times without detections",
         len(rows) - sum(map(len, out.values())))
    for k, v in out.items():
        ts = [t for t, _ in v]
        need(len(set(ts)) == len(ts), "track %d has two eddies at one time: %s", k, ts)
    return out


def judge_links(tracks, per_time, ntimes, t0=0, rec=None):
    try:
        ref = link_ref(per_time, ntimes, t0)
    except Ambiguous:
        if rec is not None:
            rec.event("ambiguous")
        return False
    a = sorted(tuple(v) for v in tracks.values())
    b = sorted(tuple((t, i) for t, i, _ in v) for v in ref)
    need(a == b, "tracks as (time, eddy): %s, expected %s", [v for v in a if v not in b][:4], [v for v in b if v not in a][:4])
    # older tracks have smaller identifiers
    first = [tracks[k][0][0] for k in sorted(tracks)]
    need(first == sorted(first), "first times of the tracks in order of identifier: %s", first)
    return True
