"""C19: object-level decision on kept changes."""
import datetime
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Inconclusive, Test, require
from checks import C16, C18, grid as G, objref as R

NA = -9999


@st.composite
def st_objects(draw):
    n, m = draw(st.sampled_from([(1, 6), (4, 4), (8, 13), (20, 20), (30, 45)]))
    params = None
    if draw(st.booleans()):
        t = st.sampled_from([4.0, 9.0, 11.07, 15.086, 20.0])
        s = st.sampled_from(draw(st.sampled_from([[0, 0.05, 0.1, 0.3, 0.7], [0.7, 1.5]])))
        params = {str(c): [draw(t), draw(s)] for c in range(1, 9)}
        params["255"] = [draw(t), draw(s)]
    return dict(n=n, m=m, k=draw(st.integers(0, 9)), rad=draw(st.sampled_from([1, 2, 4, 8])), ids=draw(st.sampled_from(["dense", "sparse", "large"])), cover=draw(st.sampled_from(["part", "part", "all"])),
                cls=draw(st.sampled_from(["none", "map", "map", "noise", "one"])), ncls=draw(st.one_of(st.integers(1, 8), st.sampled_from([1, 8]))), na=draw(st.sampled_from([0, 0, 0.3, 1])), dt=draw(st.sampled_from(["uint8", "int16", "int64", "float64"])),
                spread=draw(st.sampled_from([0, 0.02, 0.2, 3])), uniform=draw(st.sampled_from([None, None, None, None, [11.0, 0.1], [15.0, 0.0], [8.0, 0.6]])), params=params, seed=draw(st.integers(0, 2**31)))


def scene(case):
    """object map with distinct ids, patches, mean magnitudes near the thresholds, class map"""
    r = G.rng(case["seed"])
    n, m = case["n"], case["m"]
    i, j = np.mgrid[:n, :m]
    lab = np.zeros((n, m), int)
    if case["cover"] == "all":
        lab[:] = 1
    for k in range(case["k"]):
        a, b = r.integers(0, n), r.integers(0, m)
        lab[((i - a) ** 2 + (j - b) ** 2 <= case["rad"] ** 2 * r.uniform(0.1, 1)) & (r.random((n, m)) < 0.9)] = k + 2
    # an object lies inside one patch
    lab = np.unique(np.stack([lab, np.where(lab > 0, R.components(lab > 0), 0)], 0).reshape(2, -1), axis=1, return_inverse=True)[1].reshape(n, m) + (0 if (lab == 0).any() else 1)
    u = [x for x in np.unique(lab) if x]
    names = np.arange(1, len(u) + 1) if case["ids"] == "dense" else np.sort(r.choice(np.arange(1, 2000), len(u), replace=False))
    if case["ids"] == "large":             # a tile has many more objects than a byte or two can number
        names = names * r.choice([100, 256, 65536]) + r.integers(0, 100)
    perm = r.permutation(len(u))
    o1 = np.zeros((n, m), np.int32)
    for x, k in zip(u, perm):
        o1[lab == x] = names[k]
    o2 = R.components(o1 > 0)
    if case["cls"] == "none":
        cls = None
    else:
        if case["cls"] == "map":
            cls = (i // 3 * 5 + j // 4) % case["ncls"] + 1
        elif case["cls"] == "one":
            cls = np.full((n, m), case["ncls"])
        else:
            cls = r.integers(1, case["ncls"], (n, m), endpoint=True)
        cls = np.where(r.random((n, m)) < case["na"], 255, cls).astype(case["dt"])
    return o1, o2, cls, r


def rule_of(case):
    p = case["params"]
    return R.RULE if p is None else {int(k): tuple(v) for k, v in p.items()}


def to_params(p):
    if p is None:
        return None
    d = dict(cm_scale=100, gate_probability=0.7, floodfill_thres=0.4, default_threshold=p["255"][0], default_sizeslope=p["255"][1])
    for k, (t, s) in p.items():
        if k != "255":
            d["C%s_threshold" % k], d["C%s_sizeslope" % k] = t, s
    return d


def expected(o1, o2, means, cls, rule, uniform):
    """kept objects; undecided when a tie of classes or a rounding of the mean could turn the decision"""
    keep, unsure = set(), set()
    for l, mean in means.items():
        size = int((o2 == o2[o1 == l][0]).sum())
        if cls is None:
            opts = [R.decide(mean, size, None, rule)]
        elif uniform:
            opts = [R.decide(mean, size, 255, {255: tuple(uniform)})]
        else:
            u, c = np.unique(np.asarray(cls[o1 == l]).astype(int), return_counts=True)
            opts = [R.decide(mean, size, int(x), rule) for x in u[c == c.max()]]
        res = {a > b for a, b in opts}
        # a mean that equals the threshold exactly, with the factor at its cap of 2, involves no rounding
        if len(res) > 1 or any(abs(a - b) < 1e-6 * b and not (a == b == 2 * mean) for a, b in opts):
            unsure.add(l)
        elif res == {True}:
            keep.add(l)
    return keep, unsure


def run_objects(case):
    import pandas as pd
    from pycold import ob_analyst as ob
    o1, o2, cls, r = scene(case)
    rule = rule_of(case)
    means = {}
    for l in np.unique(o1[o1 > 0]):
        size = int((o2 == o2[o1 == l][0]).sum())
        c = 255 if cls is None else int(cls[o1 == l][0])
        t, s = tuple(case["uniform"]) if case["uniform"] and cls is not None else rule[c]
        means[int(l)] = float(t / min(2.0, 0.95 + s * np.log10(size)) * (1 + r.normal(0, 1) * case["spread"]))
    rows = ([(0, float(NA))] if (o1 == 0).any() else []) + sorted(means.items())
    s1 = pd.DataFrame({"label": [a for a, _ in rows], "mean_intensity": [b for _, b in rows]})
    kw = {}
    uniform = case["uniform"] if cls is not None else None
    if uniform:
        kw.update(uniform_threshold=uniform[0], uniform_sizeslope=uniform[1])
    if case["params"]:
        kw["parameters"] = to_params(case["params"])
    c1, c2, cc, t = o1.copy(), o2.copy(), None if cls is None else cls.copy(), s1.copy()
    got = np.asarray(ob.object_analysis(c1, c2, t, classification_map=cc, **kw))
    require(np.array_equal(c1, o1) and np.array_equal(c2, o2) and t.equals(s1) and (cls is None or np.array_equal(cls, cc)), "an input of object_analysis was modified")
    require(got.shape == o1.shape and set(np.unique(got)) <= {0, 1}, "change map of shape %s with values %s", got.shape, np.unique(got))
    keep, unsure = expected(o1, o2, means, cls, rule, uniform)
    require(not got[o1 == 0].any(), "a pixel outside every object is marked as changed")
    for l in means:
        v = np.unique(got[o1 == l])
        require(len(v) == 1, "object %d is kept in part", l)
        if l in unsure:
            continue
        size = int((o2 == o2[o1 == l][0]).sum())
        require(bool(v[0]) == (l in keep), "object %d (mean %.6f, patch of %d pixels, classes %s) is %s, the rule says %s", l, means[l], size,
                None if cls is None else dict(zip(*[x.tolist() for x in np.unique(cls[o1 == l], return_counts=True)])), "kept" if v[0] else "dropped", "kept" if l in keep else "dropped")
    return dict(nt=0 < len(keep) < len(means), labels=[case["cls"], "uniform%d" % bool(uniform), "params%d" % bool(case["params"])])


# ---------------------------------------------------------------- the snapshot pipeline
@st.composite
def st_exec(draw):
    s = draw(C18.st_scene(["floodfill", "floodfill", "watershed", "slic"]))
    s.update(n=draw(st.sampled_from([4, 12, 24])), m=draw(st.sampled_from([6, 12, 30])), l1=draw(st.sampled_from(["all", "sparse"])), interval=None, peak=None, low=None,
             ratio=draw(st.sampled_from([None, 0.1, 0.25, 0.6])))
    start = draw(st.sampled_from([727928, 730120, 730400, 731582]))
    step = draw(st.sampled_from([32, 60, 90]))
    k = draw(st.integers(0, 14))
    edge = draw(st.sampled_from([None, None, (2000, 12, 31), (2004, 12, 31), (2001, 12, 31), (2002, 1, 1), (2001, 1, 1)]))
    if edge and k:                     # a snapshot on the last or first day of a year
        start = datetime.date(*edge).toordinal() - k * step
    return dict(scene=s, start=start, step=step, k=k, thematic=draw(st.booleans()), ncls=draw(st.integers(1, 8)), uniform=draw(st.sampled_from([None, None, None, None, [11.0, 0.1]])), gx=draw(st.sampled_from([1, 2, 3])), gy=draw(st.sampled_from([1, 2])), paths=draw(st.booleans()))


def run_exec(case):
    from pycold import ob_analyst as ob
    from pycold.common import DatasetInfo
    c = case["scene"]
    n, m, step = c["n"], c["m"], case["step"]
    date = case["start"] + case["k"] * step
    info = DatasetInfo(n_rows=n, n_cols=m, n_block_x=case["gx"], n_block_y=case["gy"])
    cm, d, cm1, d1 = C18.arrays(c)
    shift = date - 730000
    launch = 723742
    day = lambda a: np.where(a == NA, NA, a + shift)          # ordinal dates of this snapshot
    d, d1 = day(d), day(d1)
    off = lambda a: np.where(a == NA, NA, a - launch).astype(np.int32)
    r = G.rng(c["seed"] + 1)
    first = datetime.date.fromordinal(case["start"]).year
    with tempfile.TemporaryDirectory(prefix="c19") as t:
        res = os.path.join(t, "res")
        os.makedirs(res)
        kw = {}
        cmp_, obia = os.path.join(res, "cm_maps"), os.path.join(res, "OBIAresults")
        if case["paths"]:
            cmp_, obia = os.path.join(t, "maps"), os.path.join(t, "results")
            kw.update(cmmap_path=cmp_, obia_path=obia, obcold_recg_path=os.path.join(t, "rec"))
        maps = {}
        if case["thematic"]:
            th = os.path.join(t, "thematic")
            os.makedirs(th)
            for y in range(first - 1, first + 8):
                maps[y] = r.integers(1, case["ncls"], (n, m), endpoint=True).astype(np.uint8)
                if r.random() < 0.7:
                    maps[y][:] = r.integers(1, 9)
                np.save(os.path.join(th, "yearlyclassification_%d.npy" % y), maps[y])
            kw["thematic_path"] = th
        o = ob.ObjectAnalystHPC(info, stack_path=t, result_path=res, starting_date=case["start"], **kw)
        o.hpc_preparation()
        o.hpc_preparation()
        for w, x, z in (("CM_maps", cm, cm1), ("CM_date_maps", off(d), off(d1))):
            np.save(os.path.join(cmp_, "%s_%s.npy" % (w, C16.doy_name(date))), x)
            np.save(os.path.join(cmp_, "%s_%s.npy" % (w, C16.doy_name(date - step))), z)
            for k in (-2, 1):
                np.save(os.path.join(cmp_, "%s_%s.npy" % (w, C16.doy_name(date + k * step))), np.full((n, m), 9000))
        before = {f: open(os.path.join(cmp_, f), "rb").read() for f in os.listdir(cmp_)}
        a = dict(method=c["method"], cm_output_interval=step)
        if c["ratio"] is not None and c["method"] == "floodfill":
            a["floodfill_ratio"] = c["ratio"]
        if case["uniform"] and case["thematic"]:
            a.update(uniform_threshold=case["uniform"][0], uniform_sizeslope=case["uniform"][1])
        require(not o.is_finished_object_analysis([date]), "snapshot counts as finished before it was run")
        o.obia_execute(date, **a)
        require(o.is_finished_object_analysis([date]) and not o.is_finished_object_analysis([date, date + step]), "finished snapshots are not recognised")
        require({f: open(os.path.join(cmp_, f), "rb").read() for f in os.listdir(cmp_)} == before, "obia_execute changed the change-magnitude maps")
        name = "obiaresult_" + C16.doy_name(date)
        want_files = {"%s_x%d_y%d.npy" % (name, x + 1, y + 1) for x in range(case["gx"]) for y in range(case["gy"])} | {"tmp_OBIA_%d_finished.txt" % date}
        require(set(os.listdir(obia)) == want_files, "files written: %s, expected %s", sorted(os.listdir(obia)), sorted(want_files))
        bh, bw = n // case["gy"], m // case["gx"]
        got = np.zeros((n, m), np.int64)
        for x in range(case["gx"]):
            for y in range(case["gy"]):
                b = np.load(os.path.join(obia, "%s_x%d_y%d.npy" % (name, x + 1, y + 1)))
                require(b.shape == (bh, bw), "block file of shape %s, expected %s", b.shape, (bh, bw))
                got[y * bh:(y + 1) * bh, x * bw:(x + 1) * bw] = b
    lab = [c["method"], "thematic%d" % case["thematic"], "k%d" % min(case["k"], 2), "ratio%s" % c["ratio"]]
    if case["k"] == 0:
        require(not got.any(), "the first snapshot has no predecessor, yet reports changes")
        return dict(nt=False, labels=lab)
    f = {"floodfill": ob.segmentation_floodfill, "slic": ob.segmentation_slic, "watershed": ob.segmentation_watershed}[c["method"]]
    skw = dict(floodfill_ratio=c["ratio"]) if c["method"] == "floodfill" else {}
    o1, dates, o2, s1 = f(cm.copy(), d.copy(), cm1.copy(), d1.copy(), **skw)
    cls = None
    if case["thematic"]:
        cls = maps[max(first, datetime.date.fromordinal(date).year - 1)]
    means = {int(l): float(v) for l, v in zip(s1["label"], s1["mean_intensity"]) if l}
    keep, unsure = expected(np.asarray(o1), np.asarray(o2), means, cls, R.RULE, case["uniform"] if case["thematic"] else None)
    o1 = np.asarray(o1)
    for l in means:
        if l in unsure:
            got[o1 == l] = 0
    fill = np.where(d == NA, d1, d)
    want = np.where(np.isin(o1, sorted(keep)) & (fill > 0), fill, 0)
    if not np.array_equal(got, want):
        i = tuple(np.argwhere(got != want)[0])
        require(False, "result at row %d column %d is %d, expected %d (object %d, kept objects %s)", i[0], i[1], got[i], want[i], o1[i], sorted(keep))
    return dict(nt=0 < len(keep) < len(means) or (bool(keep) and case["gx"] * case["gy"] > 1), labels=lab)


ASSUMPTIONS = ["class maps hold 1-8 or 255", "a uniform threshold is only given together with class maps", "objects lie inside one patch, as the segmentations produce them"]
TESTS = [
    Test("objects", lambda tier: st_objects(), run_objects, 900, 6000, "some objects kept and some dropped"),
    Test("execute", lambda tier: st_exec(), run_exec, 150, 1000, "some objects kept and some dropped, or kept objects in a tile of several blocks"),
]
