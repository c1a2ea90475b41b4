"""C22: classification of a tile does not depend on its partition or on the schedule of the workers."""
import datetime
import logging
import os
import shutil
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from vlib import coop
from vlib.prop import Test, Violation, require
from checks import grid as G, records as R

NAN = -9999
YEARS = (1990, 2012)


@st.composite
def st_pipe(draw):
    g = draw(st.one_of(*[st.fixed_dictionaries(dict(nbx=st.integers(1, 3), nby=st.integers(1, 3), bw=st.integers(1, 5), bh=st.integers(1, 5)))] * 3,
                       G.st_grid(2, 2), st.fixed_dictionaries(dict(nbx=st.integers(3, 6), nby=st.integers(4, 4), bw=st.integers(1, 2), bh=st.integers(1, 3)))))
    nb = g["nbx"] * g["nby"]
    y0 = draw(st.integers(*YEARS))
    years = draw(st.one_of(st.just([y0, y0 + 1, y0 + 2]), st.lists(st.integers(*YEARS), min_size=1, max_size=4, unique=True)))
    ids = list(range(1, nb + 1))
    return dict(
        g=g, years=years, train=draw(st.sampled_from(years + [2001] * (3 if 2001 in years else 0))), classes=draw(st.integers(2, 8)), seed=draw(st.integers(0, 2**31)),
        plots=draw(st.lists(R.st_plot((726000, 730000), 4), min_size=1, max_size=4)), have=draw(st.sampled_from([1, 0.8, 0.5])),
        unlabelled=draw(st.sampled_from([0, 0, 0.2])), odd=draw(st.sampled_from([0, 255, 9])), missing=draw(st.lists(st.sampled_from(ids), max_size=1)) if nb > 1 else [],
        names=draw(st.sampled_from([None, None, ["a0", "rmse"], ["a1"], list(R.NAMES)])), separable=draw(st.booleans()),
        order1=draw(st.permutations(ids)), order3=draw(st.permutations(ids)),
        # when the later steps are started: number of finished operations before them
        early=draw(st.integers(0, 2 * nb)), early3=draw(st.integers(0, nb)), again1=draw(st.lists(st.sampled_from(ids), max_size=2)), again3=draw(st.lists(st.sampled_from(ids), max_size=2)),
        kill1=draw(st.lists(st.sampled_from(ids), max_size=2, unique=True)), kill3=draw(st.lists(st.sampled_from(ids), max_size=2, unique=True)), killn=draw(st.integers(0, 3)), torn=draw(st.booleans()),
        again4=draw(st.booleans()), now=draw(st.sampled_from([None, 0, 1, 2])), choices=draw(st.lists(st.integers(0, 3), max_size=12)), clean=draw(st.booleans()), out=draw(st.booleans()), tmp=draw(st.booleans()), other=draw(st.booleans()))


class Killed(Exception):
    pass


class Dying:
    """np.save of the worker that dies: it dies at its n-th file, which may be torn"""
    def __init__(self):
        self.save, self.at = np.save, {}

    def __enter__(self):
        np.save = mine = self._save
        self.undo = coop.rebind([(self.save, mine)])
        return self

    def __exit__(self, *a):
        np.save = self.save
        coop.restore(self.undo)

    def _save(self, f, a, **kw):
        me = threading.get_ident()
        n = self.at.get(me)
        if n is not None:
            if n[0] == 0:
                del self.at[me]
                if n[1]:
                    coop.torn(f)
                raise Killed()
            n[0] -= 1
        self.save(f, a, **kw)


def records(case):
    """per pixel records and, per record, the class its coefficients stand for"""
    g, r = case["g"], G.rng(case["seed"])
    rows, cols = G.shape(g)
    per, cls = {}, {}
    for i in range(rows):
        for j in range(cols):
            if r.random() >= case["have"]:
                continue
            a = R.fill(case["plots"][r.integers(len(case["plots"]))], cols * i + j + 1, r)
            k = r.integers(1, case["classes"] + 1, len(a))
            if case["separable"]:
                for n in range(len(a)):
                    a[n]["coefs"] = k[n] * 1000 + r.uniform(0, 1, a[n]["coefs"].shape)
                    a[n]["coefs"][:, 1] = 0
                    a[n]["rmse"] = k[n] * 1000 + r.uniform(0, 1, 7)
            per[(i, j)], cls[(i, j)] = a, k
    return per, cls


def write(g, per, folder, missing=()):
    for b, x, y, rs, cs in G.blocks(g):
        if b in missing:
            continue
        rec = [per[(i, j)] for i in range(rs.start, rs.stop) for j in range(cs.start, cs.stop) if (i, j) in per]
        from pycold.common import reccg_dt
        np.save(os.path.join(folder, "record_change_x%d_y%d_cold.npy" % (x, y)), np.hstack(rec) if rec else np.zeros(0, reccg_dt))


def seedmap(case, per, cls, r):
    rows, cols = G.shape(case["g"])
    day = datetime.date(case["train"], 7, 1).toordinal()
    lab = r.integers(1, case["classes"] + 1, (rows, cols))
    for (i, j), a in per.items():
        n = [k for k in range(len(a)) if R.in_force(a[k:k + 1] if k + 1 == len(a) else a[k:k + 2], day) is not None and a[k]["t_start"] <= day < (a[k + 1]["t_start"] if k + 1 < len(a) else a[k]["t_end"])]
        if case["separable"]:
            lab[i, j] = cls[(i, j)][n[0]] if n else case["odd"]      # pixels without a model are not labelled
    if case["separable"]:
        for i in range(rows):
            for j in range(cols):
                if (i, j) not in per:
                    lab[i, j] = case["odd"]
    lab[r.random(lab.shape) < case["unlabelled"]] = case["odd"]
    return lab.astype(np.uint8)


def save_tif(f, a):
    from osgeo import gdal, gdal_array
    d = gdal.GetDriverByName("GTiff").Create(f, a.shape[1], a.shape[0], 1, gdal.GDT_Byte)
    d.GetRasterBand(1).WriteArray(a)
    d = None


def predicted(model, per, names, year, rows, cols):
    """-> (label per pixel or 255, set of labels within rounding of the features)"""
    day = datetime.date(year, 7, 1).toordinal()
    f, tol, has = np.full((rows * cols, 7 * len(names)), NAN, float), np.zeros((rows * cols, 7 * len(names))), np.zeros(rows * cols, bool)
    for (i, j), a in per.items():
        s = R.in_force(a, day)
        if s is None:
            continue
        has[i * cols + j] = True
        for b in range(7):
            for n, name in enumerate(names):
                f[i * cols + j, b * len(names) + n], tol[i * cols + j, b * len(names) + n] = R.feature(s, b, day, name)
    out = [set(x) for x in zip(*[model.predict((f + d * tol).astype(np.float32)) for d in (0, 1, -1)])]
    return [out[k] if has[k] else {255} for k in range(rows * cols)], has


def run_pipe(case):
    import joblib
    from pycold.pyclassifier import PyClassifierHPC
    logging.disable(logging.CRITICAL)
    g = case["g"]
    rows, cols = G.shape(g)
    per, cls = records(case)
    gone = set()
    for b, x, y, rs, cs in G.blocks(g):
        if b in case["missing"]:
            gone |= {(i, j) for i in range(rs.start, rs.stop) for j in range(cs.start, cs.stop)}
    per = {k: v for k, v in per.items() if k not in gone}
    lab = seedmap(case, per, cls, G.rng(case["seed"] + 1))
    if not ((lab >= 1) & (lab <= 8)).any():
        return dict(nt=False, labels=["unlabelled"])
    names = case["names"] or ["a0", "a1", "b1"]
    kw = dict(feature_outputs=list(case["names"])) if case["names"] else {}
    root = tempfile.mkdtemp(prefix="c22_")
    old = os.getcwd()
    try:
        os.chdir(root)
        results = []
        for part, grid in enumerate([g] + ([dict(nbx=1, nby=1, bw=cols, bh=rows)] if case["other"] else [])):
            folder = os.path.join(root, "rec%d" % part)
            os.mkdir(folder)
            write(grid, per, folder, case["missing"] if part == 0 else ())
            save_tif(os.path.join(folder, "seed.tif"), lab)
            tmp, out = (os.path.join(root, "tmp%d" % part) if case["tmp"] else None), (os.path.join(root, "out%d" % part) if case["out"] else None)

            def worker():
                return PyClassifierHPC(G.info(grid), record_path=folder, year_list_to_predict=list(case["years"]), tmp_path=tmp, output_path=out, seedmap_path=os.path.join(folder, "seed.tif"), **kw)

            ids = [b for b, *_ in G.blocks(grid)]
            odd = part == 0
            choices = iter(case["choices"])
            with Dying() as w, coop.Schedule(lambda n: next(choices, 0) % (n + 1)) as sched:
                worker().hpc_preparation()

                def do(step, *a, kill=False, **k):
                    def f():
                        if kill:                # a worker that dies is followed by one that does its work again
                            w.at[threading.get_ident()] = [case["killn"], case["torn"]]
                            try:
                                getattr(worker(), step)(*a, **k)
                            except Killed:
                                pass
                            w.at.pop(threading.get_ident(), None)
                        getattr(worker(), step)(*a, **k)
                    return f
                one, three = "step1_feature_generation", "step3_classification"
                q1 = [do(one, b, kill=b in case["kill1"]) for b in case["order1"]] + [do(one, b) for b in case["again1"] if b not in case["kill1"]] if odd else [do(one, b) for b in ids]
                q3 = [do(three, b, kill=b in case["kill3"]) for b in case["order3"]] + [do(three, b) for b in case["again3"] if b not in case["kill3"]] if odd else [do(three, b) for b in ids]
                # workers may come to a later step while others still do earlier ones
                k, k3 = (case["early"], case["early3"]) if odd else (len(q1), 0)
                four = [do("step4_assemble", clean=False)]
                q = q1[:k] + q3[:k3] + [do("step2_train_rf", *([] if case["train"] == 2001 and case["seed"] % 2 else [case["train"]]))] + q1[k:] + (four if odd and case["again4"] else []) + q3[k3:] + ([] if odd and case["again4"] else four)
                try:
                    sched.run(q)
                    first = {y: np.load(os.path.join(out or os.path.join(folder, "feature_maps"), "yearlyclassification_%d.npy" % y)) for y in case["years"]}
                    now = case["years"][case["now"] % len(case["years"])] if odd and case["now"] is not None else None
                    if now is not None:         # S-CCD: the features of one date, classified with the model at hand
                        have, t2, o2 = tmp or os.path.join(folder, "feature_maps"), os.path.join(root, "tmpn"), os.path.join(root, "outn")
                        os.mkdir(t2), os.mkdir(o2)
                        for b in ids:
                            shutil.copy(os.path.join(have, "tmp_feature_year%d_block%d.npy" % (now, b)), os.path.join(t2, "tmp_feature_now_block%d.npy" % b))

                        def sccd(step, *a, **k):
                            rf = os.path.join(out or os.path.join(folder, "feature_maps"), "rf.model")
                            return lambda: getattr(PyClassifierHPC(G.info(grid), record_path=folder, tmp_path=t2, output_path=o2, rf_path=rf, **kw), step)(*a, **k)
                        q = [sccd("step3_classification_sccd", b) for b in case["order3"] + case["again3"]]
                        q.insert(min(case["early3"], len(q)), sccd("step4_assemble_sccd", clean=False))
                        sched.run(q)
                        first["now"] = np.load(os.path.join(o2, "yearlyclassification_now.npy"))
                        sched.run([sccd("step4_assemble_sccd", clean=case["clean"])])
                        require((np.load(os.path.join(o2, "yearlyclassification_now.npy")) == first["now"]).all(), "assembling twice gives different S-CCD maps")
                        require(first["now"].shape == (rows, cols) and (first["now"] == first[now]).all(), "the S-CCD map (grid %s) differs from the map of %d made from the same features", g, now)
                        require(bool([f for f in os.listdir(t2) if f.startswith("tmp_")]) != case["clean"], "clean=%s leaves %s", case["clean"], os.listdir(t2)[:3])
                    sched.run([do("step4_assemble", clean=case["clean"])])
                except coop.Stuck:
                    raise Violation("a worker of grid %s waits although every block is finished" % grid)
            w = worker()
            require(w.is_finished_step4_assemble(), "the finished classification is not reported as finished")
            dest = out or os.path.join(folder, "feature_maps")
            maps = {}
            for y in case["years"]:
                f = os.path.join(dest, "yearlyclassification_%d.npy" % y)
                require(os.path.isfile(f), "no map for %d in the output folder (%s)", y, sorted(os.listdir(dest)))
                maps[y] = np.load(f)
                require(maps[y].shape == (rows, cols), "map of %d has shape %s, the tile %s", y, maps[y].shape, (rows, cols))
                require((maps[y] == first[y]).all(), "assembling twice gives different maps for %d", y)
            left = [f for f in os.listdir(tmp or os.path.join(folder, "feature_maps")) if f.startswith("tmp_")]
            require(bool(left) != case["clean"], "clean=%s leaves %s", case["clean"], left[:3])
            results.append((maps, joblib.load(os.path.join(dest, "rf.model"))))
        maps, model = results[0]
        seen = 0
        for y in case["years"]:
            want, has = predicted(model, per, names, y, rows, cols)
            seen += has.sum()
            got = maps[y].ravel()
            for k in range(rows * cols):
                require(int(got[k]) in want[k], "year %d, row %d column %d of grid %s: class %s, the model predicts %s for the pixel's own features", y, k // cols, k % cols, g, got[k], sorted(want[k]))
            if len(results) > 1:
                d = np.argwhere(maps[y] != results[1][0][y])
                require(len(d) == 0, "year %d: the grid %s and a single block give different classes at (row, column) %s", y, g, d[:3].tolist())
        if case["separable"]:
            # classes that can be told apart by every feature and have enough samples are reproduced everywhere
            n = {c: int((lab == c).sum()) for c in range(1, 9)}
            if all(v == 0 or v >= 8 for v in n.values()):
                for y in case["years"]:
                    day = datetime.date(y, 7, 1).toordinal()
                    for (i, j), a in per.items():
                        for k in range(len(a)):
                            if R.in_force(a, day) is not None and R.in_force(a, day)["t_start"] == a[k]["t_start"] and n[int(cls[(i, j)][k])]:
                                require(int(maps[y][i, j]) == cls[(i, j)][k], "year %d row %d column %d: class %d, trained on pixels of class %d with the same features", y, i, j, maps[y][i, j], cls[(i, j)][k])
        return dict(nt=bool(seen) and G.nontrivial(g), labels=G.labels(g) + ["default%d" % (case["train"] == 2001 and case["seed"] % 2), "separable%d" % case["separable"], "kill%d" % bool(case["kill1"] or case["kill3"]), "out%d" % case["out"], "early%d" % (case["early"] < len(case["order1"]))])
    finally:
        os.chdir(old)
        shutil.rmtree(root)


@st.composite
def st_sample(draw):
    return dict(counts=draw(st.lists(st.one_of(st.just(0), st.integers(0, 50), st.integers(0, 3000), st.integers(0, 40000)), min_size=10, max_size=10)), seed=draw(st.integers(0, 2**31)),
                par=dict(total_samples=draw(st.sampled_from([20000, 100, 1000])), max_category_samples=draw(st.sampled_from([8000, 60, 500])), min_category_samples=draw(st.sampled_from([600, 5, 20])), total_landcover_category=8))


def run_sample(case):
    from pycold.pyclassifier import generate_sample_num
    n = dict(zip(list(range(1, 9)) + [0, 255], case["counts"]))
    tot = sum(n[k] for k in range(1, 9))
    if not tot:
        return dict(nt=False, labels=["none"])
    lab = np.concatenate([np.full(v, k) for k, v in n.items()]).astype(np.uint8)
    G.rng(case["seed"]).shuffle(lab)
    p = case["par"]
    got = generate_sample_num(lab.reshape(1, -1), p)
    require(len(got) == 8, "sample numbers of %d classes", len(got))
    for c in range(1, 9):
        share = n[c] * p["total_samples"] / tot
        ok = {min(n[c], max(p["min_category_samples"], min(p["max_category_samples"], x))) for x in (int(np.floor(share + 0.5)), int(np.ceil(share - 0.5)))}
        require(int(got[c - 1]) in ok, "class %d: %d samples, expected %s of %d pixels (share %.2f, %s)", c, got[c - 1], sorted(ok), n[c], share, p)
    return dict(nt=sum(n[k] > 0 for k in range(1, 9)) > 1, labels=["zero%d" % bool(n[0])])


ASSUMPTIONS = ["a worker is an own PyClassifierHPC object; workers are interleaved at the points where they wait, inside one process",
               "a worker that dies leaves whole files or one torn file and is run again before the next step is finished"]
TESTS = [
    Test("pipeline", lambda tier: st_pipe(), run_pipe, 24, 400, "records in a grid of several non-square blocks"),
    Test("samples", lambda tier: st_sample(), run_sample, 81, 1500, "two or more classes"),
]
