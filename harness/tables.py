"""Synthetic detections: tables as a detection returns them, to drive the merge of
levels and the tracking in time with histories that fields cannot reach cheaply."""
import numpy as np
import pandas as pd

from sut import GAUSS, SCALARS

COLUMNS = ["contour_path_x", "contour_path_y"] + SCALARS[:15] + GAUSS


def empty():
    return pd.DataFrame({"": []})


def table(eddies):
    """eddies: list of dicts with at least lon, lat, radius; the other columns
    are derived, all different, so that a mix up of eddies is visible."""
    if not eddies:
        return empty()
    parts = []
    for i, e in enumerate(eddies):
        n = 3 + int(e.get("n", 0))
        t = np.linspace(0, 2 * np.pi, n + 1)
        r = e["radius"] / 111.0
        v = {"identifier": i, "contour_path_x": e["lon"] + r * np.cos(t), "contour_path_y": e["lat"] + r * np.sin(t),
             "level": e.get("level", 0.5), "area_eddy": np.pi * e["radius"] ** 2, "radius_eddy": e["radius"],
             "ellipse_params_a": r * 1.1, "ellipse_params_b": r * 0.9, "ellipse_params_theta": 0.1 * i,
             "contour_ellipse_error": e.get("ee", 0.5), "ellipse_eccen": 0.3, "contour_x": e["lon"] + 0.001,
             "contour_y": e["lat"] - 0.001, "eddy_sign": float(e.get("sign", 1)), "maxima": e.get("maxima", 1.0),
             "maxima_y": e["lat"], "maxima_x": e["lon"], "gaussian_params_x": e["lon"], "gaussian_params_y": e["lat"],
             "gaussian_params_sigma_x": r, "gaussian_params_sigma_y": r * 0.8, "gaussian_params_theta": 0.2,
             "contour_gaussian_error": e.get("ge", 0.9)}
        parts.append(pd.DataFrame(v).reset_index())
    return pd.concat(parts).set_index(["identifier", "index"])


def fingerprint(r):
    """What identifies an eddy, without its label."""
    return tuple(sorted((k, repr(v)) for k, v in r.items() if k not in ("identifier", "time", "path"))) + (
        tuple(map(tuple, r["path"].tolist())),)
