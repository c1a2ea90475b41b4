"""COLD against the independent reference implementation (model/refcold.cpp)."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, Violation
from checks import common as K


def prepare():
    model.build_lib("refcold")


def diff(rec, ref, d, b, q, p):
    got = [] if rec is None else rec
    if K.keys(got) != K.keys(ref["rec"], "prob"):
        return "records (start, end, break, num_obs, category, prob) differ\n got  %s\n want %s" % (
            K.keys(got), K.keys(ref["rec"], "prob"))
    return K.compare_values(got, ref["rec"])


def compare(d, b, q, p, rec, extra=None):
    a = (d, b, q, p["tcg"], p["conse"], p["c2"], p["gap"])
    ref = model.ref_cold(*a)
    if ref["flags"] & 1:        # too few clear observations: C08
        return ref
    if ref["flags"] & 8:
        raise Inconclusive("zero scale in a band")
    msg = diff(rec, ref, d, b, q, p)
    if msg:
        K.settle(msg, rec, ref, lambda js, eps: model.ref_cold(*a, jseed=js, jeps=eps), lambda r, alt: diff(r, alt, d, b, q, p))
    return ref


def run(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    rec = K.run_cold(d, b, q, p)
    ref = compare(d, b, q, p, rec)
    if ref["flags"] & 1:
        return dict(nt=False, labels=["sparse"])
    r = ref["rec"]
    nb = int((r["prob"] == 100).sum())
    return dict(nt=len(r) > 0 and ref["nclear"] >= 24,
                labels=["breaks%d" % (nb if nb < 6 else 6 if nb < 10 else 10), "partial" if len(r) and 0 < r[-1]["prob"] < 100 else "closed",
                        "conse%d" % p["conse"]] + K.cats(r))


def strat(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=gen.st_series(st, max_years=16 if tier == "quick" else 34), p=gen.st_params(st)))


def strat_rich(tier):
    """dense records with few masked observations: long monitoring, many refits, outliers"""
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=12, min_years=4, allow=("breaks", "outliers", "cloud"), max_breaks=3),
        p=gen.st_params(st)))


def strat_many(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=gen.st_many(st, 40, 16), p=gen.st_params(st)))


TESTS = [
    Test("model", strat, run, 840, 12000,
         "standard procedure used and at least one record", minimise=gen.minimise_series("s")),
    Test("model_dense", strat_rich, run, 560, 6000,
         "standard procedure used and at least one record", minimise=gen.minimise_series("s")),
    Test("many_changes", strat_many, run, 84, 1500, "standard procedure used and at least one record", minimise=gen.minimise_series("s")),
]
ASSUMPTIONS = ["bands with zero scale (no variation at all) and cases where a jittered rule (<=0.2 %) reproduces the "
               "output are counted as inconclusive"]
