"""Offline tracking stores every snapshot, and the files give it back."""
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import tables
import tracks
from core import Test, need
from gen import fx
from scenes import likely, scene_xyz
from sut import dataset, parse, tracker

PROPERTY = "C22"
BUDGET = 40
RULE = ("histories: those of C19 with a stand-in for the detection of a snapshot, stored to csv and json over any window, into an empty directory or one with "
        "files of an earlier run. fields: real snapshots and levels. store: any table stored by itself, with options. "
        "Every file is read back and compared. Non-trivial: at least two files (store: every case).")
ASSUMPTIONS = ["csv is read with pandas' round trip parser, and compared to 1e-15; json (10 decimals) to 1e-9",
               "the hd5 format needs an optional package that is not installed"]


def hist():
    return st.tuples(tracks.histories(nt=(2, 7), npart=4), st.sampled_from(["csv", "csv", "json", None]), st.booleans(), st.integers(0, 3), st.integers(0, 9), st.booleans(),
                     st.sampled_from([0, 0, 0, 8, 97, 9997, 99998, 123456])).map(
        lambda v: dict(v[0], fmt=v[1], old=v[2], t0=v[3] if v[5] else 0, tf=v[4] if v[5] else None, base=v[6]))


def read(path, fmt):
    """Records of one stored snapshot."""
    if fmt == "csv":
        t = pd.read_csv(path, float_precision="round_trip")
        need({"identifier", "time", "index"} <= set(t.columns), "columns of %s: %s", os.path.basename(path), list(t.columns))
        return parse(t.set_index(["identifier", "time", "index"]))
    with open(path) as f:
        d = json.load(f)
    cols = {}
    keys = None
    for k, v in d.items():
        ks = sorted(tuple(int(q) for q in i.strip("()").split(",")) for i in v)
        keys = keys or ks
        need(ks == keys, "columns of %s have other rows", os.path.basename(path))
        cols[k] = {tuple(int(q) for q in i.strip("()").split(",")): w for i, w in v.items()}
    t = pd.DataFrame({k: [np.nan if v[i] is None else v[i] for i in keys] for k, v in cols.items()},
                     index=pd.MultiIndex.from_tuples(keys, names=["identifier", "time", "index"]))
    return parse(t)


def same(a, b, what, tol):
    need(len(a) == len(b), "%s: %d eddies, expected %d", what, len(a), len(b))
    a = sorted(a, key=lambda r: (r["maxima_x"], r["maxima_y"], r["level"], r["area_eddy"]))
    b = sorted(b, key=lambda r: (r["maxima_x"], r["maxima_y"], r["level"], r["area_eddy"]))
    for r, s in zip(a, b):
        need({k for k in r if k != "time"} == {k for k in s if k != "time"}, "%s: columns %s, expected %s", what, sorted(r), sorted(s))
        for k in s:
            if k in ("identifier", "time"):
                continue
            p, q = np.asarray(r[k], float), np.asarray(s[k], float)
            need(p.shape == q.shape and np.allclose(p, q, rtol=tol, atol=tol if tol > 1e-12 else 0, equal_nan=True), "%s: %s is %s, expected %s", what, k,
                 p.ravel()[:3], q.ravel()[:3])


def check_dir(d, before, per, t0, fmt):
    """per: records of each snapshot from time t0 on."""
    want = {"identified_eddies_%05d.%s" % (t0 + i, fmt): i for i, p in enumerate(per) if p}
    got = set(os.listdir(d)) - before
    need(got | (before & set(want)) == set(want), "files %s, expected %s", sorted(got), sorted(set(want) - before))
    for f, i in want.items():
        rs = read(os.path.join(d, f), fmt)
        need({r["time"] for r in rs} <= {t0 + i}, "%s has times %s", f, {r["time"] for r in rs})
        ids = sorted(r["identifier"] for r in rs)
        need(ids == sorted(set(ids)), "%s has identifiers %s", f, ids)
        same(rs, per[i], f, 1e-15 if fmt == "csv" else 1e-9)
    return len(want)


def check_hist(c, rec):
    snaps = c["snaps"]
    n = len(snaps)
    t0 = min(c["t0"], n - 1)
    tf = None if not c["tf"] else max(t0 + 1, min(c["tf"], n))
    # long series: the time has more digits
    base = c.get("base", 0)
    if base:
        tf = tf or n
    te = tracks.stub(snaps, base)
    d = tempfile.mkdtemp(prefix="verif-C22-")
    try:
        te.out_path = d
        if c["fmt"]:
            te.out_format = c["fmt"]
        before = set()
        if c["old"]:
            before = {"notes.txt", "identified_eddies_00001.csv", "identified_eddies_00001.json"}
            for b in before:
                with open(os.path.join(d, b), "w") as f:
                    f.write("old\n" * 1000)
        te.time_tracking(t0=base + t0, tf=tf and base + tf, lin_levels=[0.5], ntimes=c["ntimes"], online_track=False)
        if not te.calls:
            rec.event("stand-in not used")
            return
        k = check_dir(d, before, [tracks.recs(s) for s in snaps[t0:tf]], base + t0, c["fmt"] or "csv")
        if c["old"]:
            with open(os.path.join(d, "notes.txt")) as f:
                need(f.read() == "old\n" * 1000, "another file was changed")
        rec.nontrivial(k > 1)
        rec.event(str(c["fmt"]), "old files" if c["old"] else "empty")
    finally:
        shutil.rmtree(d)


def fields():
    return st.fixed_dictionaries(dict(
        scenes=st.lists(likely(nmin=18, nmax=22, maxpeaks=2), min_size=1, max_size=3), f=st.lists(fx(0.25, 0.6, 0.05), min_size=1, max_size=2, unique=True),
        fmt=st.sampled_from(["csv", "json"]), skip=st.sampled_from([True, False]), gap=st.sampled_from([None, None, 0, 1])))


def check_fields(c, rec):
    sc = c["scenes"]
    g = {k: sc[0][k] for k in ("nx", "ny", "dx", "dy", "lon0", "lat0")}
    zs = []
    for i, s in enumerate(sc):
        x, y, z = scene_xyz(dict(s, unit=1.0, **g))
        zs.append(z * (i != c["gap"]))
    levels = np.array(sorted([-f for f in c["f"]] + c["f"]))
    kw = dict(criteria={"ellipse_fit": 1.0, "gaussian_fit": 0.6}, skip=c["skip"])
    d = tempfile.mkdtemp(prefix="verif-C22-")
    try:
        te = tracker(dataset(x, y, zs), **kw)
        te.out_path, te.out_format = d, c["fmt"]
        te.time_tracking(lin_levels=levels, online_track=False)
        per = [parse(tracker(dataset(x, y, [z]), **kw)._detect_snapshot(0, levels)) for z in zs]
        k = check_dir(d, set(), per, 0, c["fmt"])
        rec.nontrivial(k > 1)
        rec.event(c["fmt"])
    finally:
        shutil.rmtree(d)


def stores():
    return st.fixed_dictionaries(dict(
        cols=st.lists(st.tuples(st.sampled_from("abcdefg"), st.sampled_from(["float", "int", "text"])), min_size=1, max_size=4, unique_by=lambda v: v[0]),
        n=st.integers(1, 6), seed=st.integers(0, 10 ** 6), time=st.integers(0, 123456), fmt=st.sampled_from(["csv", "json"]),
        opt=st.sampled_from([None, "sep", "index", "orient"])))


def check_store(c, rec):
    from trackeddy.utils import store_snapshot
    r = np.random.default_rng(c["seed"])
    t = pd.DataFrame({k: {"float": lambda: r.normal(size=c["n"]) * 10.0 ** r.integers(-6, 7), "int": lambda: r.integers(-5, 9, c["n"]),
                          "text": lambda: np.array(["a,b", 'q"', "x"])[r.integers(0, 3, c["n"])]}[kind]() for k, kind in c["cols"]})
    t.index.name = "id"
    d = tempfile.mkdtemp(prefix="verif-C22-")
    try:
        kw = {}
        if c["opt"] == "sep" and c["fmt"] == "csv":
            kw = {"sep": ";"}
        elif c["opt"] == "index" and c["fmt"] == "csv":
            kw = {"index": False}
        elif c["opt"] == "orient" and c["fmt"] == "json":
            kw = {"orient": "records"}
        store_snapshot(t, d, c["time"], format=c["fmt"], **kw)
        name = "identified_eddies_%05d.%s" % (c["time"], c["fmt"])
        need(os.listdir(d) == [name], "files %s, expected %s", os.listdir(d), name)
        p = os.path.join(d, name)
        if c["fmt"] == "csv":
            got = pd.read_csv(p, sep=kw.get("sep", ","), float_precision="round_trip")
            want = t if kw.get("index") is False else t.reset_index()
        else:
            with open(p) as f:
                need(isinstance(json.load(f), list) == (kw.get("orient") == "records"), "the options %s are not passed on", kw)
            got = pd.read_json(p, precise_float=True)
            want = t
        need(list(got.columns) == list(want.columns) and len(got) == len(want), "columns %s, %d rows", list(got.columns), len(got))
        for k in want:
            a, b = got[k].values, want[k].values
            ok = (np.allclose(a.astype(float), b.astype(float), rtol=0 if c["fmt"] == "csv" else 1e-9, atol=0 if c["fmt"] == "csv" else 1e-9)
                  if b.dtype.kind in "if" else (a == b).all())
            need(ok, "column %s is %s, stored %s", k, a, b)
        rec.nontrivial(True)
        rec.event(c["fmt"], *kw)
    finally:
        shutil.rmtree(d)


TESTS = [Test("histories", hist, check_hist, 2000, 100000, weight=2), Test("fields", fields, check_fields, 250, 20000, weight=1),
         Test("store", stores, check_store, 500, 20000, weight=0.3)]
