"""COLD records: invariants over every accepted series and parameter set."""
import numpy as np

from vlib import gen
from vlib.prop import Test, require
from checks import common as K


def run(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    rec = K.run_cold(d, b, q, p, pos=case["pos"])
    if rec is None:
        return dict(nt=False, labels=["none"])
    n = len(rec)
    require(n >= 1, "empty record array returned")
    u = d[K.usable_mask(d, b, q, p["c2"])]
    us = set(int(x) for x in u)
    alld = set(int(x) for x in d)
    for k, r in enumerate(rec):
        ts, te, tb, no, cat, pr = (int(r[f]) for f in ("t_start", "t_end", "t_break", "num_obs", "category", "change_prob"))
        w = "record %d of %d %s: " % (k, n, (ts, te, tb, no, cat, pr))
        require(int(r["pos"]) == case["pos"], w + "pos %s, passed %s", r["pos"], case["pos"])
        require(cat in (4, 6, 8, 14, 24, 44, 54), w + "undocumented category")
        pool = us if cat < 40 else alld
        require(ts in pool and te in pool and (tb == 0 or tb in pool), w + "a date is not that of a usable observation")
        require(ts <= te, w + "ends before it starts")
        require(0 <= pr <= 100, w + "change probability outside 0..100")
        require((tb > 0) == (pr > 0), w + "break date and change probability disagree")
        if tb:
            require(tb > te, w + "break not after the end")
        if k < n - 1:
            require(tb > 0 and pr == 100, w + "not closed by a confirmed change although another record follows")
            require(int(rec[k + 1]["t_start"]) >= tb, w + "next record starts at %d, before the break", rec[k + 1]["t_start"])
        if cat < 40:
            inside = int(((u >= ts) & (u <= te)).sum())
            require(6 <= no <= inside, w + "num_obs not within 6..%d usable observations spanned", inside)
            lo = 24 if cat == 8 else 18 if cat == 6 else 12 if cat == 4 else 6
            require(no >= lo, w + "fewer observations than its category needs")
            require(cat != 4 or no < 18, w + "category 4 with 18 or more observations")
            require(cat != 6 or no < 24, w + "category 6 with 24 or more observations")
        else:
            require(n == 1 and tb == 0, w + "fallback record is not alone")
        for f in ("coefs", "rmse", "magnitude"):
            v = np.asarray(r[f], float)
            require(np.isfinite(v).all(), w + "%s not finite: %s", f, v.tolist())
        require((np.asarray(r["rmse"], float) >= 0).all(), w + "negative rmse")
        if tb == 0:
            require((np.asarray(r["magnitude"], float) == 0).all(), w + "magnitude without a break")
        nz = {4: 4, 6: 6, 8: 8, 14: 4, 24: 4, 44: 4, 54: 4}[cat]
        require((np.asarray(r["coefs"])[:, nz:] == 0).all(), w + "more coefficients than the category has")
    return dict(nt=len(u) >= 24, labels=["n%d" % min(n, 6)] + K.cats(rec))


def strat(tier):
    from hypothesis import strategies as st
    p = st.one_of(gen.st_params(st), st.fixed_dictionaries(dict(
        tcg=st.floats(0.05, 300), conse=st.integers(1, 11), c2=st.booleans(),
        gap=st.one_of(st.floats(0, 2000), st.integers(0, 2000)))))
    pos = st.one_of(st.integers(1, 10**4), st.integers(1, 2**31 - 1))
    return st.fixed_dictionaries(dict(s=gen.st_series(st, max_years=20, min_years=1), p=p, pos=pos))


def strat_many(tier):
    """many changes: low thresholds and short windows on noisy data"""
    from hypothesis import strategies as st
    p = st.fixed_dictionaries(dict(tcg=st.floats(0.05, 9), conse=st.integers(1, 4), c2=st.booleans(),
                                   gap=st.sampled_from([365.25, 1500])))
    return st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=30, min_years=8, max_breaks=12), p=p, pos=st.integers(1, 10**6)))


TESTS = [
    Test("invariants", strat, run, 700, 14000, "24 or more usable observations and a record",
         minimise=gen.minimise_series("s")),
    Test("many_changes", strat_many, run, 120, 6000, "24 or more usable observations and a record",
         minimise=gen.minimise_series("s")),
]
