"""C13: stored packs come back unchanged and continue identically; utilities do not touch their argument."""
import os
import pickle
import shutil
import tempfile

import numpy as np

from vlib import gen
from vlib.prop import Test, require
from checks import C12, calls, hist as H

HOWS = ["index", "pickle", "plain", "disk-npy"]


def kinds(x):
    """every field and value, with dtypes and shapes"""
    return calls.canon(tuple(x))


def pack_equal(a, z, what):
    require(type(z).__name__ == "SccdOutput" and z._fields == a._fields, "%s: result is not an SccdOutput: %r", what, type(z))
    for f in a._fields:
        x, y = getattr(a, f), getattr(z, f)
        if f in ("rec_cg", "nrt_model", "nrt_queue"):
            require(len(x) == len(y), "%s: %s has %d entries, %d before", what, f, len(y), len(x))
            if len(x):
                x, y = np.asarray(x), np.asarray(y)
                require(x.dtype == y.dtype, "%s: %s has dtype %s, %s before", what, f, y.dtype, x.dtype)
                for n in x.dtype.names:
                    require(x[n].tobytes() == y[n].tobytes(), "%s: field %s.%s differs: %r, %r before", what, f, n, y[n].tolist(), x[n].tolist())
            else:
                require(isinstance(y, np.ndarray) or y == [], "%s: empty %s became %r", what, f, y)
        elif f == "min_rmse":
            require(np.array_equal(np.asarray(x), np.asarray(y)), "%s: min_rmse %s, %s before", what, y, x)
        else:
            require(int(x) == int(y), "%s: %s %r, %r before", what, f, y, x)


def restore(pack, how):
    from pycold.utils import index_sccdpack, unindex_sccdpack
    if how == "disk-npy":
        # the tile workflow pickles many packs to one file
        fd, f = tempfile.mkstemp(prefix="pack")
        with os.fdopen(fd, "wb") as h:
            for _ in range(3):
                pickle.dump(unindex_sccdpack(pack), h, protocol=4)
        with open(f, "rb") as h:
            pickle.load(h)
            r = pickle.load(h)
        os.unlink(f)
        return index_sccdpack(r)
    return H.restore(pack, how)


def files(pack, data):
    """the pack written as plain files (save_nrtfiles): every file holds exactly that part of the pack"""
    import pandas as pd
    from pycold import common
    from pycold.utils import save_nrtfiles
    kind = dict(rec_cg=common.sccd_dt, nrt_model=common.nrtmodel_dt, nrt_queue=common.nrtqueue_dt, min_rmse=np.int16)
    before = kinds(pack)
    top = tempfile.mkdtemp(prefix="c13_")
    try:
        save_nrtfiles(top, "p_7", pack, pd.DataFrame(data))
        require(kinds(pack) == before, "save_nrtfiles changed the pack passed in")
        for f, t in kind.items():
            x = np.asarray(getattr(pack, f))
            y = np.fromfile(os.path.join(top, "sccd_packp_7_" + f), dtype=t)
            require(len(y) == len(x), "file of %s: %d entries, the pack has %d", f, len(y), len(x))
            for n in (t.names if f != "min_rmse" else ()):
                require(not len(x) or x[n].tobytes() == y[n].tobytes(), "file of %s: field %s differs", f, n)
            require(f != "min_rmse" or np.array_equal(x, y), "file of min_rmse: %s, the pack has %s", y, x)
        mode = np.fromfile(os.path.join(top, "sccd_packp_7_nrt_mode"), dtype=np.asarray(pack.nrt_mode).dtype)
        require(mode.tolist() == [int(pack.nrt_mode)], "file of the mode: %s, the pack has %d", mode, pack.nrt_mode)
        got = pd.read_csv(os.path.join(top, "spectral_p_7_extension.csv"), header=None).to_numpy() if len(data) else data
        require(np.array_equal(got, data), "the observations were not written as they are")
    finally:
        shutil.rmtree(top)


def run(case):
    from pycold.utils import index_sccdpack, unindex_sccdpack
    import pycold
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) < 3:
        return dict(nt=False, labels=["empty"])
    k, pack = C12.start(case, d, b, q, p)
    if pack is None:
        return dict(nt=False, labels=["short"])
    kept, n, modes = pack, len(d), set()
    cuts = sorted(set([k + (n - k) * c // 1000 for c in case["cuts"]] + [n]))
    for step, j in enumerate([k] + [c for c in cuts if c > k]):
        if j > k:
            old, b4, keptb4 = (pack, kept), kinds(pack), kinds(kept)
            pack = H.update(pack, *H.cut(d, b, q, k, j), p)
            kept = H.update(kept, *H.cut(d, b, q, k, j), p)
            require(kinds(old[0]) == b4 and kinds(old[1]) == keptb4, "sccd_update changed the pack passed in (mode %d)", old[0].nrt_mode)
            f = H.same(pack, kept)
            require(f is None, "%s differs when detection continues from a restored pack (mode %d)", f, pack.nrt_mode)
            k = j
        how = case["hows"][step % len(case["hows"])]
        if case["ident"] and step == case["ident"]:
            old, b4 = pack, kinds(pack)
            pack = pycold.sccd_identify(pack, dist_conse=1, t_cg_scale100=1)[0]
            require(kinds(old) == b4, "sccd_identify changed the pack passed in (mode %d)", old.nrt_mode)
            kept = pycold.sccd_identify(kept, dist_conse=1, t_cg_scale100=1)[0]
        before = kinds(pack)
        bare = unindex_sccdpack(pack)
        require(kinds(pack) == before, "unindex_sccdpack changed the pack passed in")
        require(type(bare) is list and len(bare) == 6, "unindex_sccdpack returned %r", type(bare))
        require(not any(isinstance(x, np.ndarray) and x.dtype.names for x in bare), "an index was left in the bare pack")
        flat = pickle.dumps(bare)
        index_sccdpack(bare)
        require(pickle.dumps(bare) == flat, "index_sccdpack changed the list passed in")
        again = restore(pack, how)
        require(kinds(pack) == before, "storing changed the pack")
        pack_equal(pack, again, "%s, mode %d" % (how, pack.nrt_mode))
        kept = restore(kept, how)
        modes.add(int(pack.nrt_mode))
        if step < 2:
            files(pack, np.column_stack([d[:k]] + [x[:k] for x in b] + [q[:k]])[-7:])
        for bad in (bare[:5], bare + [0], [], bare[:case["bad"] % 6]):
            try:
                r = index_sccdpack(bad)
            except Exception:
                continue
            require(False, "a list of %d items was accepted: %r", len(bad), r)
    return dict(nt=bool(modes - {0}), labels=["mode%d" % m for m in sorted(modes)] + ["rec%d" % min(2, len(pack.rec_cg))] + ["many records"] * (len(pack.rec_cg) > 8) + ["over 16 records"] * (len(pack.rec_cg) > 16))


def strat(tier, snow=False):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=H.st_hist(st, tier, snow), p=H.st_p(st), at=st.integers(50, 900), cuts=st.lists(st.integers(0, 1000), min_size=0, max_size=10),
        hows=st.lists(st.sampled_from(HOWS), min_size=1, max_size=4), bad=st.integers(0, 5), ident=st.integers(0, 3)))


def st_long(tier):
    """packs with many records"""
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=gen.st_many(st, 40, 16), p=H.st_p(st), at=st.integers(50, 900), cuts=st.lists(st.integers(0, 1000), min_size=0, max_size=4),
        hows=st.lists(st.sampled_from(HOWS), min_size=1, max_size=4), bad=st.integers(0, 5), ident=st.integers(0, 3)))


TESTS = [Test("roundtrip", strat, run, 350, 8000, "a model or a queue was stored", minimise=gen.minimise_series("s")),
         Test("snow", lambda t: strat(t, True), run, 84, 2000, "a model or a queue was stored", minimise=gen.minimise_series("s")),
         Test("many", st_long, run, 14, 600, "a model or a queue was stored", minimise=gen.minimise_series("s"))]
