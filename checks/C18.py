"""C18: segmentation of change-magnitude maps."""
import numpy as np
from hypothesis import strategies as st

from vlib.prop import Inconclusive, Test, require
from checks import grid as G, objref as R

NA = -9999


@st.composite
def st_scene(draw, methods, prob=False):
    n, m = draw(st.sampled_from([(1, 1), (1, 7), (6, 1), (5, 9), (12, 12), (16, 30), (24, 24), (40, 36)]))
    blobs = []
    for _ in range(draw(st.integers(0, 7))):
        blobs.append([draw(st.integers(0, n - 1)), draw(st.integers(0, m - 1)), draw(st.sampled_from([0.5, 1, 1.5, 2.5, 4, 7])),
                      draw(st.sampled_from([7, 9, 10, 11.5, 14, 16, 20, 28, 60, 300])), draw(st.sampled_from([0, 5, 30, 59, 60, 61, 90, 200]))])
    return dict(n=n, m=m, blobs=blobs, bg=draw(st.sampled_from([None, None, 2, 5, 8, 12])), noise=draw(st.sampled_from([0, 0.5, 2, 6])), dnoise=draw(st.sampled_from([0, 0, 3, 40])),
                holes=draw(st.sampled_from([0, 0, 0.1, 0.4])), l1=draw(st.sampled_from(["none", "none", "all", "sparse", "cm"])), seed=draw(st.integers(0, 2**31)),
                ratio=draw(st.sampled_from([None, None, 0.1, 0.25, 0.4, 0.7])), interval=draw(st.sampled_from([None, None, 0, 10, 60, 120])), peak=draw(st.sampled_from([None, None, None, 12.0])),
                method=draw(st.sampled_from(methods)), prob=prob, low=draw(st.sampled_from([None, None, 4.0, 9.0])))


def one(case, r, shift):
    n, m = case["n"], case["m"]
    i, j = np.mgrid[:n, :m]
    v = np.full((n, m), NA, float) if case["bg"] is None else np.abs(case["bg"] + r.normal(0, 1, (n, m)) * case["noise"])
    d = np.full((n, m), 730000 + shift, np.int64)
    for a, b, rad, mag, dd in case["blobs"]:
        k = (i - a) ** 2 + (j - b) ** 2 <= rad ** 2
        v[k] = np.abs(mag + r.normal(0, 1, (n, m))[k] * case["noise"])
        d[k] = 730000 + shift + dd
    d = d + np.rint(r.normal(0, 1, (n, m)) * case["dnoise"]).astype(np.int64)
    v[r.random((n, m)) < case["holes"]] = NA
    v = np.where(v == NA, NA, np.clip(np.rint(v * 100), 0, 32767))
    return v.astype(np.int16), np.where(v == NA, NA, d).astype(np.int32)


def arrays(case):
    r = G.rng(case["seed"])
    cm, date = one(case, r, 60)
    if case["l1"] == "none":
        cm1 = date1 = None
    else:
        c = dict(case)
        if case["l1"] == "sparse":
            c.update(blobs=case["blobs"][:1], bg=None)
        cm1, date1 = one(c, r, 0)
        if case["l1"] == "cm":
            date1 = None
    if case["prob"]:
        # off the thresholds, which single and double precision round differently
        cm = np.where(cm <= 0, 0, (cm + 0.37) / 3301.0).clip(0, 1).astype(np.float32)
        cm1 = None if cm1 is None else np.where(cm1 <= 0, 0, (cm1 + 0.37) / 3301.0).clip(0, 1).astype(np.float32)
    return cm, date, cm1, date1


def fill_map(case, low):
    cm, date, cm1, date1 = arrays(case)
    flood = case["method"] == "floodfill"
    peak = case["peak"] if flood and case["peak"] and not case["prob"] else (0.5 if case["prob"] else R.CHI90)
    ratio = 0.4 if case["ratio"] is None else case["ratio"]
    if flood:
        low = peak * (1 - ratio)
    v, d = R.merge(cm, date, cm1, date1, case["prob"], (peak if case["prob"] else R.CHI90 * 100) if flood else -1e9)
    if not case["prob"]:
        v = v / 100.0
    return (cm, date, cm1, date1), np.where(v < low, np.nan, v), d, peak, ratio, low


def info_of(s1, lab, s):
    require(list(s1["label"]) == sorted(set(np.unique(lab).tolist())), "object table lists %s, the map holds %s", list(s1["label"]), np.unique(lab))
    for l, v in zip(s1["label"], s1["mean_intensity"]):
        if l == 0:
            require(v == NA, "mean of the background is %s", v)
        else:
            w = float(np.mean(s[lab == l]))
            require(abs(float(v) - w) <= 1e-4 * (1 + abs(w)), "object %d has mean magnitude %s, expected %s", l, v, w)


def run(case):
    from pycold import ob_analyst as ob
    f = {"floodfill": ob.segmentation_floodfill, "slic": ob.segmentation_slic, "watershed": ob.segmentation_watershed}[case["method"]]
    low = case["low"] or R.CHI70
    (cm, date, cm1, date1), v, d, peak, ratio, low = fill_map(case, low)
    kw = {}
    if case["method"] == "floodfill":
        if case["ratio"] is not None:
            kw["floodfill_ratio"] = case["ratio"]
        if case["interval"] is not None:
            kw["date_interval"] = case["interval"]
        if case["prob"]:
            kw["b_dist_prob_map"] = True
        elif case["peak"]:
            kw["peak_threshold"] = case["peak"]
    elif case["low"]:
        kw["low_bound"] = case["low"]
    cp = lambda a: None if a is None else a.copy()
    if case["method"] == "watershed" and (min(v.shape) < 5 or case["noise"] == 0):
        return dict(nt=False, labels=["flat"])      # a flat map has no basin
    o1, dates, o2, s1 = f(cp(cm), cp(date), cp(cm1), cp(date1), **kw)
    o1, o2, dates = np.asarray(o1), np.asarray(o2), np.asarray(dates)
    require(o1.shape == v.shape and o2.shape == v.shape and dates.shape == v.shape, "maps of shape %s, %s, %s", o1.shape, o2.shape, dates.shape)
    require(np.array_equal(dates, d), "change dates differ from the current ones with gaps filled from the previous map: %s", np.argwhere(dates != d)[:3].tolist())
    s = R.smooth(v)
    require((o1 >= 0).all() and not o1[np.isnan(v)].any(), "a no-data pixel belongs to an object")
    if not np.array_equal(R.canon(o2), R.canon(R.components(o1 > 0))):
        require(False, "patches are not the connected groups of the object pixels:\n%s\nobjects\n%s", o2, o1)
    nseed = 0
    if case["method"] == "floodfill":
        interval = 60 if case["interval"] is None else case["interval"]
        want, nseed = R.grow(s, d, peak, ratio, interval)
        want = R.canon(want)
        got = R.canon(o1)
        if not np.array_equal(got, want):
            r = G.rng(1)
            for k in range(40):
                alt = R.canon(R.grow(s * (1 + (1e-6 if k == 0 else -1e-6 if k == 1 else r.uniform(-1e-6, 1e-6, s.shape))), d, peak, ratio, interval)[0])
                if not np.array_equal(alt, want):
                    raise Inconclusive("segmentation depends on rounding")
            i = tuple(np.argwhere(got != want)[0])
            require(False, "object map differs at %s: %d, expected %d (up to renaming)\n%s\nexpected\n%s\nsmoothed\n%s", i, got[i], want[i], got, want, np.round(s, 3))
    else:
        sure, never = s > low * (1 + 1e-9), np.isnan(s) | (s < low * (1 - 1e-9))
        lost = case["method"] == "slic" and sure.sum() <= 25      # one superpixel: skimage returns none
        require((lost or (o1[sure] > 0).all()) and not o1[never].any(), "object pixels are not those above the bound: %s", np.argwhere((o1 > 0) != sure)[:3].tolist())
        if case["method"] == "watershed":
            for l in np.unique(o1[o1 > 0]):
                require(R.components(o1 == l).max() == 1, "basin %d is not connected", l)
    info_of(s1, o1, s)
    k = len(np.unique(o1)) - 1
    return dict(nt=k > 1, labels=[case["method"], "prob%d" % case["prob"], "objects%d" % min(k, 5), "l1" + case["l1"]] + (["seeds>255"] if nseed > 255 else []) + (["seeds>65535"] if nseed > 65535 else []))


LARGE = dict(n=290, m=330, blobs=[[40, 50, 7, 60, 0], [200, 250, 7, 300, 90]], bg=14, noise=9, dnoise=40, holes=0.05, l1="none", seed=5, ratio=0.1, interval=30, peak=None, method="floodfill", prob=False, low=None)


TESTS = [
    Test("large", lambda tier: st.fixed_dictionaries({k: st.just(v) if k != "seed" else st.integers(0, 10**6) for k, v in LARGE.items()}), run, 1, 8, "more than one object", shards=1),
    Test("floodfill", lambda tier: st_scene(["floodfill"]), run, 240, 2500, "more than one object"),
    Test("probability", lambda tier: st_scene(["floodfill"], True), run, 100, 1000, "more than one object"),
    Test("other", lambda tier: st_scene(["watershed", "slic"]), run, 120, 1200, "more than one object"),
]
