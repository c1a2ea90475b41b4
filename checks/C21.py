"""C21: classification features describe the segment in force."""
import datetime
import logging

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import grid as G, records as R

NAN = -9999
st_names = st.one_of(st.just(["a0", "a1", "b1"]), st.permutations(R.NAMES), st.lists(st.sampled_from(R.NAMES), min_size=1, max_size=9, unique=True))


@st.composite
def st_extract(draw):
    plot = draw(R.st_plot())
    edges = sorted({x + k for s in plot for x in (s[0], s[1]) for k in (-1, 0, 1)})
    days = draw(st.lists(st.one_of(st.sampled_from(edges), st.integers(plot[0][0] - 800, plot[-1][1] + 800)), min_size=1, max_size=12))
    return dict(plot=plot, days=days, names=draw(st.one_of(st.none(), st_names)), band=draw(st.integers(0, 6)), nan=draw(st.sampled_from([-9999, 0, 255])), seed=draw(st.integers(0, 2**31)),
                holes=draw(st.sampled_from([0, 0, 0.3])))


def check(got, rec, band, day, name, nan, what):
    if rec is None:
        require(got == nan, "%s: %s without a segment in force, expected the no-data value %s", what, got, nan)
    else:
        v, tol = R.feature(rec, band, day, name)
        require(abs(float(got) - v) <= tol + 1e-12, "%s: %r, expected %r (segment %d to %d)", what, float(got), v, rec["t_start"], rec["t_end"])


def run_extract(case):
    from pycold.pyclassifier import extract_features
    r = G.rng(case["seed"])
    a = R.fill(case["plot"], 7, r, ends=False)
    if case["holes"]:
        k = r.random(a["coefs"].shape) < case["holes"]
        a["coefs"][k] = np.nan
        a["rmse"][r.random(a["rmse"].shape) < case["holes"]] = np.nan
    kw = dict(feature_outputs=list(case["names"])) if case["names"] else {}
    names = case["names"] or ["a0", "a1", "b1"]
    b = a.copy()
    got = extract_features(a, case["band"], case["days"], case["nan"], **kw)
    require(a.tobytes() == b.tobytes(), "extract_features modified the records")
    require(len(got) == len(names) and all(len(x) == len(case["days"]) for x in got), "features of shape %s", [len(x) for x in got])
    hit = 0
    for k, day in enumerate(case["days"]):
        rec = R.in_force(a, day)
        hit += rec is not None
        for n, name in enumerate(names):
            check(got[n][k], rec, case["band"], day, name, case["nan"], "%s of day %d (segments %s)" % (name, day, [(int(x["t_start"]), int(x["t_end"])) for x in a]))
    return dict(nt=hit > 1 and len(a) > 1, labels=["hit" if hit else "miss", "gap%d" % any(a[i]["t_end"] < d < a[i + 1]["t_start"] for d in case["days"] for i in range(len(a) - 1))])


@st.composite
def st_block(draw):
    g = draw(G.st_grid(3, 4))
    nb = g["nbx"] * g["nby"]
    plots = draw(st.lists(R.st_plot(), min_size=1, max_size=4))
    y0 = draw(st.integers(1980, 2010))
    for plot in plots:      # boundaries on the very day that stands for a year
        if draw(st.integers(0, 3)) == 0:
            d = datetime.date(draw(st.integers(y0, y0 + 5)), 7, 1).toordinal() - plot[draw(st.integers(0, len(plot) - 1))][draw(st.integers(0, 1))] + draw(st.integers(-1, 1))
            for s in plot:
                s[0], s[1] = s[0] + d, s[1] + d
    years = draw(st.one_of(st.just(list(range(y0, y0 + 6))), st.lists(st.integers(1980, 2025), min_size=1, max_size=6, unique=True)))
    return dict(g=g, block=draw(st.integers(1, nb)), plots=plots, years=years, names=draw(st.one_of(st.none(), st_names)), bands=draw(st.sampled_from([7, 7, 6, 1])), have=draw(st.sampled_from([0, 0.5, 1])),
                shuffle=draw(st.booleans()), seed=draw(st.integers(0, 2**31)))


def block_records(case, r):
    """records of the pixels of one block, pixel after pixel; -> (records or [], {index in block: plot})"""
    g = case["g"]
    _, x, y, rs, cs = list(G.blocks(g))[case["block"] - 1]
    cols = G.shape(g)[1]
    per = {}
    for i in range(rs.start, rs.stop):
        for j in range(cs.start, cs.stop):
            if r.random() < case["have"]:
                per[(i - rs.start) * g["bw"] + j - cs.start] = R.fill(case["plots"][r.integers(len(case["plots"]))], cols * i + j + 1, r, ends=False)
    order = sorted(per)
    if case.get("shuffle"):
        order = [order[k] for k in r.permutation(len(order))]
    return (np.hstack([per[k] for k in order]) if per else []), per


def run_block(case):
    from pycold.pyclassifier import PyClassifier
    logging.disable(logging.CRITICAL)
    r = G.rng(case["seed"])
    g = case["g"]
    rec, per = block_records(case, r)
    kw = dict(feature_outputs=list(case["names"])) if case["names"] else {}
    names = case["names"] or ["a0", "a1", "b1"]
    p = PyClassifier(G.info(g), band_num=case["bands"], **kw)
    got = p.predict_features(case["block"], rec, case["years"])
    px = g["bw"] * g["bh"]
    require(got.shape == (len(case["years"]), px, case["bands"] * len(names)), "features of shape %s, expected %s", got.shape, (len(case["years"]), px, case["bands"] * len(names)))
    hit = 0
    for n, year in enumerate(case["years"]):
        day = datetime.date(year, 7, 1).toordinal()
        for i in range(px):
            if i not in per:
                require((got[n, i] == NAN).all(), "pixel %d of block %d without records has features %s", i, case["block"], got[n, i])
                continue
            s = R.in_force(per[i], day)
            hit += s is not None
            for b in range(case["bands"]):
                for k, name in enumerate(names):
                    check(got[n, i, b * len(names) + k], s, b, day, name, NAN, "year %d pixel %d of block %d of %s, band %d %s" % (year, i, case["block"], g, b, name))
    return dict(nt=hit > 0 and len(per) > 1 and G.nontrivial(g), labels=G.labels(g) + ["records%d" % bool(per)])


ASSUMPTIONS = ["records of one pixel are contiguous and in time order, as COLD writes them"]
TESTS = [
    Test("extract", lambda tier: st_extract(), run_extract, 1800, 4000, "two or more segments and days"),
    Test("block", lambda tier: st_block(), run_block, 900, 2000, "several pixels with records in a grid of several non-square blocks"),
]
