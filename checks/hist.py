"""Histories of S-CCD calls on one pixel: detect, update (new, stale, cloudy, empty batches), identify, store and restore."""
import copy
import os
import pickle
import tempfile

import numpy as np

from vlib import gen
from vlib.prop import Inconclusive, Violation, require
from checks import C11 as D, common as K, sccdcmp as S, calls

LAUNCH = S.LAUNCH


def update(pack, d, b, q, p):
    import pycold
    return pycold.sccd_update(pack, d, *b, q, t_cg=p["tcg"], pos=p["pos"], conse=p["conse"], b_c2=p["c2"], gate_tcg=p["gate"],
                              predictability_tcg=p["pred"])


def bytes_of(pack):
    return calls.canon(tuple(pack))


def same(a, z, skip=("position",)):
    """-> name of the first field in which two packs differ, or None"""
    for f in a._fields:
        if f in skip:
            continue
        x, y = getattr(a, f), getattr(z, f)
        if f == "nrt_mode":
            if int(x) != int(y):
                return f
        elif len(x) != len(y) or (len(x) and calls.canon(np.asarray(x)) != calls.canon(np.asarray(y))):
            return f
    return None


def cut(d, b, q, i, j):
    return d[i:j].copy(), [x[i:j].copy() for x in b], q[i:j].copy()


def first_batch(d, at):
    """end index of the initial series: per mille `at`, but at least a year"""
    n = len(d)
    k = max(2, n * at // 1000)
    while k < n and d[k - 1] - d[0] < 365.25:
        k += 1
    return k


def newest(pack):
    if len(pack.nrt_queue):
        return int(pack.nrt_queue["clrx_since1982"][-1]) + LAUNCH
    if len(pack.nrt_model):
        return int(max(pack.nrt_model[0]["obs_date_since1982"])) + LAUNCH
    return -1


def appended(before, after, what):
    n = len(before.rec_cg)
    require(len(after.rec_cg) >= n, "%s: %d historical records became %d", what, n, len(after.rec_cg))
    if n:
        require(calls.canon(np.asarray(after.rec_cg[:n])) == calls.canon(np.asarray(before.rec_cg)), "%s: a historical record changed", what)


def restore(pack, how):
    from pycold.utils import index_sccdpack, unindex_sccdpack
    if how == "index":
        return index_sccdpack(unindex_sccdpack(pack))
    if how == "pickle":
        fd, f = tempfile.mkstemp(prefix="pack")
        with os.fdopen(fd, "wb") as h:
            pickle.dump(unindex_sccdpack(pack), h)
        with open(f, "rb") as h:
            r = index_sccdpack(pickle.load(h))
        os.unlink(f)
        return r
    if how == "deep":
        return copy.deepcopy(pack)
    return index_sccdpack(list(pack))


def st_hist(st, tier, snow=False):
    s = gen.st_series(st, max_years=14 if tier == "quick" else 28, min_years=2,
                      allow=("breaks", "gaps", "outliers", "cloud", "snow", "fill", "dup", "range"))
    if snow:
        s = st.tuples(s, st.sampled_from([0.8, 0.95, 1.0])).map(lambda t: dict(t[0], snow=t[1], cloud=0.0))
    return s


def st_p(st):
    return st.fixed_dictionaries(dict(
        tcg=gen.st_tcg(st),
        conse=st.sampled_from([6, 6, 6, 3, 4, 5, 8, 7, 2, 1]), c2=st.booleans(), gate=st.sampled_from([9.236, 9.236, 5.0, 15.0863]) | st.floats(2, 30).map(lambda x: round(x, 2)),
        pred=st.sampled_from([9.236, 15.0863, 2.0]) | st.floats(1, 30).map(lambda x: round(x, 2)), pos=st.sampled_from([1, 77, 24999999]) | st.integers(1, 2**31 - 1)))


def st_ops(st, ident=True):
    op = st.one_of(
        st.tuples(st.just("new"), st.integers(1, 400)), st.tuples(st.just("new"), st.integers(1, 30)), st.tuples(st.just("one"), st.just(0)),
        st.tuples(st.sampled_from(["stale", "overlap", "cloud", "empty", "range", "index", "pickle", "plain", "longer"]), st.integers(1, 60)),
        *([st.tuples(st.just("ident"), st.integers(0, 3))] if ident else []),
        st.tuples(st.just("doubt"), st.integers(0, 9)), st.tuples(st.just("param"), st.integers(0, 10)))
    return st.lists(op.map(list), min_size=1, max_size=14)
