"""Reconstruction from given break dates against the reference partition (model/refcold.cpp ref_obcold)."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, Violation, require
from checks import common as K


def prepare():
    model.build_lib("refcold")


def breaks(case, d, u):
    """[kind, per mille, shift] -> dates"""
    if len(d) == 0:
        return np.zeros(1, np.int64)
    out = []
    ud = d[u] if u.any() else d
    for kind, at, sh in case["bk"]:
        if kind == "obs":
            out.append(int(ud[min(len(ud) - 1, at * len(ud) // 1000)]) + sh)
        elif kind == "date":
            out.append(int(d[0]) + (int(d[-1]) - int(d[0])) * at // 1000 + sh)
        elif kind == "year" and out:
            out.append(out[-1] + 365 + sh)
        elif kind == "mid":
            k = min(max(len(ud) - 2, 0), at * len(ud) // 1000)
            out.append((int(ud[k]) + int(ud[min(k + 1, len(ud) - 1)])) // 2 + sh)
        elif kind == "before":
            out.append(int(d[0]) - at)
        elif kind == "after":
            out.append(int(d[-1]) + at)
        else:
            out.append(0)
    return np.array(out, dtype=np.int64)


def call(d, b, q, bk, p):
    import pycold
    try:
        return pycold.obcold_reconstruct(d, *b, q, bk, pos=p.get("pos", 1), conse=p["conse"], b_c2=p["c2"])
    except Exception as e:
        if K.NO_RECORD in str(e):
            return None
        raise


def fillzero(got, r):
    got = got.copy()
    got["coefs"][:, 6], got["rmse"][:, 6], got["magnitude"][:, 6] = r["coefs"][:, 6, :], r["rmse"][:, 6], r["mag"][:, 6]
    return got


def diff(rec, ref, c2zero=False):
    got = [] if rec is None else rec
    if K.keys(got) != K.keys(ref["rec"], "prob"):
        return "segments (start, end, break, num_obs, category, prob) differ\n got  %s\n want %s" % (
            K.keys(got), K.keys(ref["rec"], "prob"))
    if rec is None:
        return None
    r = ref["rec"]
    if c2zero:
        got = fillzero(got, r)
    return K.compare_values(got, r)


def run(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    u = K.usable_mask(d, b, q, p["c2"])
    bk = breaks(case, d, u)
    given = bk.copy()
    rec = call(d, b, q, bk, p)
    require(np.array_equal(bk, given), "the break dates passed in were modified")
    # invariants
    if rec is not None:
        ud = d[u]
        if K.nclear(q) >= 24 and len(rec) and rec[0]["category"] < 40:
            s = np.sort(given[given > 0])
            for k, r in enumerate(rec):
                last = k == len(rec) - 1
                require(int(r["pos"]) == p.get("pos", 1), "position id %d", int(r["pos"]))
                require((int(r["t_break"]) == 0) == last, "record %d of %d has break date %d", k, len(rec), r["t_break"])
                if not last:
                    g = int(r["t_break"])
                    require(g in set(int(x) for x in ud), "break %d is not on a usable observation", g)
                    near = [x for x in s if int(ud[np.argmin(np.abs(ud - x))]) == g]
                    require(near, "break %d matches none of the given dates %s", g, s.tolist())
                    require(rec[k]["t_end"] < g <= rec[k + 1]["t_start"], "record %d is not split at its break", k)
                require(r["num_obs"] <= int(((ud >= r["t_start"]) & (ud <= r["t_end"])).sum()), "observation count too high")
    ref = model.ref_obcold(d, b, q, bk, p["conse"], p["c2"])
    if ref["flags"] & 8:
        raise Inconclusive("zero scale")
    zt = bool((b[6][u] == 0).any())
    msg = diff(rec, ref, zt)
    if msg:
        K.settle(msg, rec, ref, lambda js, eps: model.ref_obcold(d, b, q, bk, p["conse"], p["c2"], jseed=js, jeps=eps), lambda r, alt: diff(r, alt, zt),
                 lambda r, alt: fillzero(r, alt["rec"]) if zt else r)
    nseg = len(ref["rec"])
    return dict(nt=nseg >= 2, labels=["seg%d" % min(nseg, 6), "sparse" if ref["flags"] & 1 else "dense",
                                      "nbk%d" % min(6, len(bk))] + K.cats(ref["rec"]))


def st_breaks(st):
    one = st.tuples(st.sampled_from(["obs", "obs", "date", "date", "year", "mid", "before", "after", "zero"]),
                    st.integers(0, 1000), st.sampled_from([0, 0, 0, 1, -1, 2, -40, 40])).map(list)
    return st.lists(one, min_size=1, max_size=9)


def strat(tier):
    from hypothesis import strategies as st
    p = st.fixed_dictionaries(dict(conse=st.sampled_from([6, 6, 6, 6]) | st.integers(1, 11), c2=st.booleans(), pos=st.integers(1, 25000000)))
    return st.fixed_dictionaries(dict(s=gen.st_series(st, max_years=20), p=p, bk=st_breaks(st)))


def strat_many(tier):
    """many yearly breaks, as the object-based analysis passes them (one slot per year, 0 = none)"""
    from hypothesis import strategies as st
    p = st.fixed_dictionaries(dict(conse=st.just(6), c2=st.booleans(), pos=st.just(7)))
    bk = st.lists(st.tuples(st.sampled_from(["year", "year", "zero"]), st.just(0), st.integers(0, 400)).map(list),
                  min_size=10, max_size=60)
    return st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=30, min_years=8, allow=("breaks", "cloud", "gaps", "outliers")), p=p,
        bk=bk.map(lambda l: [["date", 30, 0]] + l)))


TESTS = [
    Test("model", strat, run, 2200, 30000, "two or more segments reconstructed", minimise=gen.minimise_series("s")),
    Test("yearly", strat_many, run, 700, 9000, "two or more segments reconstructed", minimise=gen.minimise_series("s")),
]
ASSUMPTIONS = ["the thermal band is not compared when a zero thermal value is among the usable observations",
               "given dates less than 365.25 days after the previous kept one are not used; each used date is moved to the "
               "nearest usable observation"]
