"""C16: block results assembled into tile maps."""
import datetime
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import grid as G

NAN = -9999


@st.composite
def st_maps(draw):
    g = draw(G.st_grid())
    n = g["nbx"] * g["nby"]
    miss = draw(st.one_of(st.just([]), st.lists(st.integers(1, n), max_size=n, unique=True)))
    return dict(g=g, n_cm=draw(st.integers(1, 6)), start=draw(st.one_of(st.integers(723742, 740000), st.sampled_from([730120, 730485, 729755]))),
                step=draw(st.sampled_from([1, 16, 32, 60, 90, 365])), prefix=draw(st.sampled_from(["CM", "CM_date", "CM", "CM_date", "CM_direction"])), clean=draw(st.sampled_from([None, True, False])),
                missing=sorted(miss), seed=draw(st.integers(0, 2**31)), dt=draw(st.sampled_from(["int16", "int64"])), stale=draw(st.booleans()))


def doy_name(o):
    d = datetime.date.fromordinal(o)
    return "%d_%d%03d" % (o, d.year, d.timetuple().tm_yday)


def run_maps(case):
    from pycold import utils as u
    g, n_cm, pre = case["g"], case["n_cm"], case["prefix"]
    r = G.rng(case["seed"])
    rows, cols = G.shape(g)
    other = "CM_date" if pre == "CM" else "CM"
    want = np.full((n_cm, rows, cols), NAN, np.int64)
    lo, hi = dict(CM=(0, 32767), CM_date=(0, 16000), CM_direction=(0, 240))[pre]
    with tempfile.TemporaryDirectory(prefix="c16") as d:
        res, out = os.path.join(d, "res"), os.path.join(d, "maps")
        os.makedirs(res)
        os.makedirs(out)
        keep = set()
        for k, x, y, rs, cs in G.blocks(g):
            v = r.integers(lo, hi, (g["bh"], g["bw"], n_cm), endpoint=True)
            if pre != "CM_direction":
                v[r.random(v.shape) < 0.3] = NAN
            w = r.integers(lo, hi, v.size)
            np.save(os.path.join(res, "%s_x%d_y%d.npy" % (other, x, y)), w.astype(np.int16))
            keep.add("%s_x%d_y%d.npy" % (other, x, y))
            np.save(os.path.join(res, "record_change_x%d_y%d_cold.npy" % (x, y)), w)
            keep.add("record_change_x%d_y%d_cold.npy" % (x, y))
            if k in case["missing"]:
                continue
            # a block file holds the intervals of pixel after pixel, as the tile loop collects them
            np.save(os.path.join(res, "%s_x%d_y%d.npy" % (pre, x, y)), v.reshape(-1).astype(case["dt"]))
            want[:, rs, cs] = np.moveaxis(v, 2, 0)
        before = {f: open(os.path.join(res, f), "rb").read() for f in os.listdir(res)}
        if case["stale"]:
            np.save(os.path.join(out, "%s_maps_%s.npy" % (pre, doy_name(case["start"]))), np.zeros((1, 1)))
        kw = {} if case["clean"] is None else dict(clean=case["clean"])
        u.assemble_cmmaps(G.info(g), res, out, case["start"], n_cm, pre, case["step"], **kw)
        names = ["%s_maps_%s.npy" % (pre, doy_name(case["start"] + k * case["step"])) for k in range(n_cm)]
        require(sorted(os.listdir(out)) == sorted(names), "maps written: %s, expected %s", sorted(os.listdir(out)), sorted(names))
        for k, f in enumerate(names):
            a = np.load(os.path.join(out, f))
            require(a.shape == (rows, cols), "%s of grid %s has shape %s", f, g, a.shape)
            if pre == "CM_direction":              # a byte: its no-data value is not judged
                a = np.where(want[k] == NAN, NAN, a)
            if not np.array_equal(a, want[k]):
                bad = np.argwhere(a != want[k])[0]
                require(False, "%s (grid %s, missing blocks %s): %d at row %d column %d, expected %d", f, g, case["missing"], a[tuple(bad)], bad[0], bad[1], want[k][tuple(bad)])
        left = {f: open(os.path.join(res, f), "rb").read() for f in os.listdir(res)}
        if case["clean"] is False:
            require(left == before, "block files changed although no cleaning was asked for: %s", sorted(set(before) ^ set(left)))
        else:
            require(left == {f: before[f] for f in keep}, "after cleaning the folder holds %s, expected %s", sorted(left), sorted(keep))
    return dict(nt=G.nontrivial(g), labels=G.labels(g) + [pre, "missing" if case["missing"] else "complete", "clean%s" % case["clean"]])


@st.composite
def st_array(draw):
    return dict(g=draw(G.st_grid(5, 4)), nf=draw(st.integers(0, 5)), dt=draw(st.sampled_from(["float32", "int64", "uint8"])), seed=draw(st.integers(0, 2**31)))


def run_array(case):
    from pycold import utils as u
    g, nf = case["g"], case["nf"]
    rows, cols = G.shape(g)
    a = G.rng(case["seed"]).integers(0, 250, (rows, cols, nf) if nf else (rows, cols)).astype(case["dt"])
    got = u.assemble_array([a[rs, cs].copy() for _, _, _, rs, cs in G.blocks(g)], g["nbx"])
    require(got.shape == a.shape, "blocks of grid %s assemble to shape %s, expected %s", g, got.shape, a.shape)
    if not np.array_equal(got, a):
        bad = np.argwhere((got != a).reshape(rows, cols, -1).any(axis=2))[0]
        require(False, "grid %s: row %d column %d holds %s, expected %s", g, bad[0], bad[1], got[tuple(bad)], a[tuple(bad)])
    return dict(nt=G.nontrivial(g), labels=G.labels(g))


ASSUMPTIONS = ["block counts divide the rows and columns of the tile", "the output folder exists"]
TESTS = [
    Test("maps", lambda tier: st_maps(), run_maps, 200, 1200, "several blocks in a non-square grid or with non-square blocks"),
    Test("array", lambda tier: st_array(), run_array, 400, 3000, "several blocks in a non-square grid or with non-square blocks"),
]
