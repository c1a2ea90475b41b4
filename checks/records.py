"""Synthetic COLD records: disjoint segments in time order per pixel."""
import numpy as np
from hypothesis import strategies as st

from checks import grid as G


@st.composite
def st_plot(draw, start=(723800, 734000), maxseg=5):
    t = draw(st.integers(*start))
    segs = []
    for _ in range(draw(st.integers(1, maxseg))):
        ln = draw(st.integers(0, 2500))
        gap = draw(st.sampled_from([1, 8, 16, 100, 400, 900]))
        segs.append([t, t + ln, gap, draw(st.sampled_from(["conf", "conf", "conf", "part", "none"]))])
        t += ln + gap + draw(st.sampled_from([0, 8, 50, 400]))
    return segs


def fill(plot, pos, r, mag=400, ends=True):
    from pycold.common import reccg_dt
    a = np.zeros(len(plot), reccg_dt)
    for i, (s, e, gap, kind) in enumerate(plot):
        last = i == len(plot) - 1
        if ends and not last:
            kind = "conf"           # only the last record may end without a confirmed change
        a[i]["t_start"], a[i]["t_end"], a[i]["pos"] = s, e, pos
        a[i]["t_break"] = e + min(gap, 16) if kind != "none" else 0
        a[i]["change_prob"] = {"conf": 100, "part": int(r.integers(1, 100)), "none": 0}[kind]
        a[i]["num_obs"], a[i]["category"] = 24, 8
    a["coefs"] = r.normal(0, 300, a["coefs"].shape)
    a["coefs"][:, :, 1] = r.normal(0, 100, a["coefs"][:, :, 1].shape)
    a["coefs"][:, :, 0] = r.normal(2000, 500, a["coefs"][:, :, 0].shape)
    k = r.random(a["coefs"].shape[:2]) < 0.2        # trends steep enough to tell one day from the next
    a["coefs"][k, 1] *= 100
    a["coefs"][k, 0] = 0
    a["rmse"] = r.uniform(10, 400, a["rmse"].shape)
    a["magnitude"] = r.normal(0, mag, a["magnitude"].shape)
    return a


NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]


def feature(rec, band, day, name):
    """-> (value, tolerance)"""
    if name == "rmse":
        v, tol = float(rec["rmse"][band]), 0
    else:
        c = rec["coefs"][band].astype(float)
        if name == "a0":
            v = c[0] + c[1] * day / 10000.0
            tol = abs(c[0]) + abs(c[1]) * day / 10000.0
        elif name == "c1":
            v, tol = c[1] / 10000.0, 0
        else:
            v, tol = c[{"a1": 2, "b1": 3, "a2": 4, "b2": 5, "a3": 6, "b3": 7}[name]], 0
    if np.isnan(v):
        return 0.0, 0.0
    return v, 4e-7 * (abs(v) + tol)        # single precision, far less than a day's change of a steep trend


def in_force(plot, day):
    """the segment that describes `day`: it holds until the next one starts, the last one until it ends"""
    for i in range(len(plot)):
        end = plot[i + 1]["t_start"] if i + 1 < len(plot) else plot[i]["t_end"]
        if plot[i]["t_start"] <= day < end:
            return plot[i]
    return None
