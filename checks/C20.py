"""C20: object results saved per block, reloaded, and used for reconstruction."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import C16, calls, grid as G, stackgen as S


@st.composite
def st_round(draw):
    n = draw(st.integers(1, 6))
    start = draw(st.integers(723800, 738000))
    step = draw(st.sampled_from([1, 16, 32, 60, 90, 365]))
    ks = draw(st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True))
    return dict(g=draw(st.one_of(G.st_grid(4, 4), G.st_grid(12, 1))), dates=[start + k * step for k in ks], seed=draw(st.integers(0, 2**31)), dens=draw(st.sampled_from([0.1, 0.5, 1])), na=draw(st.sampled_from([0, 0.3])),
                dt=draw(st.sampled_from(["uint8", "int8", "int64"])), rerun=draw(st.booleans()))


def analyst(g, t, start, **kw):
    from pycold.ob_analyst import ObjectAnalystHPC
    o = ObjectAnalystHPC(G.info(g), stack_path=os.path.join(t, "stack"), result_path=t, starting_date=start, **kw)
    o.hpc_preparation()
    return o


def run_round(case):
    g = case["g"]
    rows, cols = G.shape(g)
    r = G.rng(case["seed"])
    want = {}
    with tempfile.TemporaryDirectory(prefix="c20") as t:
        o = analyst(g, t, min(case["dates"]))
        for d in case["dates"]:
            for k in range(2 if case["rerun"] else 1):
                cm = (r.random((rows, cols)) < case["dens"]).astype(case["dt"])
                da = r.integers(d - 200, d + 200, (rows, cols)).astype(np.int32)
                da[r.random((rows, cols)) < case["na"]] = -9999
                want[d] = np.where((cm == 1) & (da > 0), da, 0)
                o.save_obiaresult(d, cm, da.copy())
        name = "obiaresult_" + C16.doy_name(case["dates"][0])
        with open(os.path.join(o.obia_path, "notes_%s_x1_y1.npy" % name), "w") as h:
            h.write("x")
        seen = np.zeros((rows, cols), bool)
        for b, x, y, rs, cs in G.blocks(g):
            a = o.get_allobiaresult_asarray(x, y)
            ref = np.stack([want[d][rs, cs].reshape(-1) for d in sorted(case["dates"])])
            require(a.shape == ref.shape, "block (%d,%d) of %s: breaks of shape %s, expected %s", x, y, g, a.shape, ref.shape)
            require(np.array_equal(a, ref), "block (%d,%d) of %s: breaks\n%s\nexpected\n%s", x, y, g, a, ref)
            seen[rs, cs] = True
        require(seen.all(), "blocks do not cover the tile")
        no = min(case["dates"]) - 1
        require(o.is_finished_object_analysis(case["dates"]) and not o.is_finished_object_analysis(case["dates"] + [no]) and not o.is_finished_object_analysis([no] + case["dates"]), "finished snapshots are not recognised")
    return dict(nt=G.nontrivial(g) and len(case["dates"]) > 1, labels=G.labels(g))


@st.composite
def st_rebuild(draw):
    t = draw(S.st_tile(3, 3, (2, 7)))
    nb = t["g"]["nbx"] * t["g"]["nby"]
    return dict(t=t, block=draw(st.integers(1, nb)), given=draw(st.booleans()), conse=draw(st.sampled_from([None, 3, 6, 8])), c2=draw(st.sampled_from([None, True, False])), seed=draw(st.integers(0, 2**31)), nmap=draw(st.integers(1, 4)), dens=draw(st.sampled_from([0, 0.3, 0.8])))


def run_rebuild(case):
    import logging
    import pycold
    logging.disable(logging.CRITICAL)
    c, g = case["t"], case["t"]["g"]
    rows, cols = G.shape(g)
    d, data = S.tile(c)
    r = G.rng(case["seed"])
    step = int(c["years"] * 365.25) // case["nmap"]
    with tempfile.TemporaryDirectory(prefix="c20") as t:
        os.makedirs(os.path.join(t, "stack"))
        order = S.write(c, d, data, os.path.join(t, "stack"))
        o = analyst(g, t, int(d.min()))
        br = np.zeros((case["nmap"], rows, cols), np.int64)
        for k in range(case["nmap"]):
            lo = int(d.min()) + k * step
            hit = r.random((rows, cols)) < case["dens"]
            br[k] = np.where(hit, r.integers(lo, lo + step, (rows, cols)), 0)
            o.save_obiaresult(lo, hit.astype(np.uint8), np.where(hit, br[k], -9999).astype(np.int32))
        b, x, y, rs, cs = list(G.blocks(g))[case["block"] - 1]
        kw = {}
        if case["conse"]:
            kw["conse"] = case["conse"]
        if case["c2"] is not None:
            kw["b_c2"] = case["c2"]
        px = g["bw"] * g["bh"]
        if case["given"]:
            kw.update(img_stack=data[rs, cs].reshape(px, 8, -1)[:, :, order], img_dates_sorted=d[order])
        got = o.reconstruct_reccg(b, **kw)
        want = []
        for i in range(rs.start, rs.stop):
            for j in range(cs.start, cs.stop):
                v = data[i, j][:, order].astype(np.int64)
                try:
                    want.append(pycold.obcold_reconstruct(d[order], *v, br[:, i, j], pos=cols * i + j + 1, conse=case["conse"] or 6, b_c2=bool(case["c2"])))
                except Exception as e:
                    if "no change records" not in str(e):
                        raise
        require(got is not None and len(got) == len(want), "block %d of %s: records of %s pixels, expected %d", b, g, None if got is None else len(got), len(want))
        for k, (a, z) in enumerate(zip(got, want)):
            require(calls.canon(a) == calls.canon(z), "block %d of %s: records of pixel %d differ\n%s\nexpected\n%s", b, g, z[0]["pos"], a, z)
        if len(got):
            o.save_obcoldrecords(b, got)
            f = os.path.join(o.obcold_recg_path, "record_change_x%d_y%d_obcold.npy" % (x, y))
            require(os.listdir(o.obcold_recg_path) == [os.path.basename(f)], "record file written: %s", os.listdir(o.obcold_recg_path))
            require(calls.canon(np.load(f)) == calls.canon(np.hstack(want)), "saved records differ")
        else:
            o.save_obcoldrecords(b, got)
            require(os.listdir(o.obcold_recg_path) == [], "a block without records left %s", os.listdir(o.obcold_recg_path))
    more = sum(len(z) > 1 for z in want)
    return dict(nt=more > 0 and g["nbx"] * g["nby"] > 1, labels=["given%d" % case["given"], "records%d" % bool(want)])


ASSUMPTIONS = ["block counts divide the rows and columns of the tile", "snapshot dates have six digits (years 274 to 2737)"]
TESTS = [
    Test("roundtrip", lambda tier: st_round(), run_round, 180, 1500, "two or more snapshots and several blocks in a non-square grid or with non-square blocks"),
    Test("reconstruct", lambda tier: st_rebuild(), run_rebuild, 100, 600, "several blocks and a pixel with more than one segment"),
]
