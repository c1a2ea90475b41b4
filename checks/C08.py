"""Pixels with fewer than 24 clear observations: fallback segment against an independent model."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, Violation, require
from checks import common as K


def prepare():
    model.build_lib("refcold")


def run(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    nc = K.nclear(q)
    ref = model.ref_cold(d, b, q, p["tcg"], p["conse"], p["c2"], p["gap"])
    rec = K.run_cold(d, b, q, p, pos=case["pos"])
    if nc >= 24:
        if rec is not None:
            require(all(int(c) < 40 for c in rec["category"]), "%d clear observations but a fallback category %s", nc,
                    rec["category"].tolist())
        return dict(nt=False, labels=["standard"])
    require(ref["flags"] & 1 == 1, "model disagrees on the procedure")
    got = [] if rec is None else rec
    require(len(got) <= 1, "more than one fallback segment")
    if K.keys(got) != K.keys(ref["rec"], "prob"):
        raise Violation("fallback record differs\n got  %s\n want %s" % (K.keys(got), K.keys(ref["rec"], "prob")))
    want = ref["rec"].copy()
    if len(want) and want[0]["category"] == 54:     # thermal without enough values: only finiteness is required
        m = np.isnan(want["coefs"][0]).any(axis=1)
        want["coefs"][0][m] = np.asarray(got[0]["coefs"], float)[m]
        want["rmse"][0][m] = np.asarray(got[0]["rmse"], float)[m]
    if len(got):
        require(int(got[0]["pos"]) == case["pos"], "position id not echoed")
    msg = K.compare_values(got, want, "fallback")
    if msg:
        raise Violation(msg)
    return dict(nt=len(want) > 0, labels=["nclear%d" % (nc // 6 * 6)] + (K.cats(want) if len(want) else ["none"]))


def st_s(st, draw):
    c = dict(seed=draw(st.integers(0, 2**31 - 1)), cover=draw(st.sampled_from(sorted(gen.BASES))),
             start=draw(st.integers(723800, 738000)), years=draw(st.integers(2, 48)) / 4.0,
             cadence=draw(st.sampled_from(["16", "8", "irr", "32"])), noise=draw(st.sampled_from([15, 40, 80, 300])),
             amp=draw(st.sampled_from([0.0, 1.0, 1.5])), trend=draw(st.sampled_from([0, 0, 40, -60])), harm=0.0,
             breaks=[], gaps=[], out=draw(st.sampled_from([0.0, 0.1])))
    kind = draw(st.sampled_from(["cloudy", "snow", "snow", "short", "mixed"]))
    c["cloud"] = {"cloudy": 0.9, "snow": draw(st.sampled_from([0.0, 0.3])), "short": 0.2, "mixed": 0.6}[kind]
    c["snow"] = {"cloudy": 0.0, "snow": draw(st.sampled_from([0.9, 0.97, 1.0, 0.75])), "short": 0.0,
                 "mixed": draw(st.sampled_from([0.5, 0.8, 0.9]))}[kind]
    c["fill"] = draw(st.sampled_from([0.0, 0.05, 0.3]))
    c["dup"] = draw(st.sampled_from([0.0, 0.0, 0.2]))
    c["range"] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.4]))
    if kind == "short":
        c["years"] = draw(st.integers(1, 5)) / 4.0
    return c


def strat(tier):
    from hypothesis import strategies as st
    s = st.composite(lambda draw: st_s(st, draw))()
    return st.fixed_dictionaries(dict(s=s, p=gen.st_params(st), pos=st.integers(1, 10**7)))


TESTS = [Test("fallback", strat, run, 1800, 40000, "fewer than 24 clear observations and a fallback record expected",
              minimise=gen.minimise_series("s"))]
