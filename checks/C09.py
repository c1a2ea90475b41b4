"""Metamorphic relations of COLD: blue/thermal values, four-year shifts, position id."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, Violation, require
from checks import common as K


def prepare():
    model.build_lib("refcold")


def run_bands(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    a = K.run_cold(d, b, q, p)
    if a is None:
        return dict(nt=False, labels=["none"])
    u = K.usable_mask(d, b, q, p["c2"])
    r = np.random.RandomState(case["seed"])
    b2 = [x.copy() for x in b]
    m = u & (r.rand(len(d)) < case["frac"])
    if case["which"] in ("blue", "both"):
        b2[0][m] = r.randint(1, 9999, m.sum())
    if case["which"] in ("thermal", "both"):
        b2[6][m] = r.randint(1801, 3438, m.sum())
    c = K.run_cold(d, b2, q, p, pos=case["pos"])
    require(c is not None and K.keys(a) == K.keys(c), "records changed with the %s band values:\n %s\n %s", case["which"],
            K.keys(a), None if c is None else K.keys(c))
    require((np.asarray(c["pos"]) == case["pos"]).all(), "pos not echoed")
    for f in ("coefs", "rmse", "magnitude"):
        require(np.array_equal(a[f][:, 1:6], c[f][:, 1:6]), "%s of another band changed with the %s values", f, case["which"])
        if case["which"] == "blue":
            require(np.array_equal(a[f][:, 6], c[f][:, 6]), "thermal %s changed with the blue values", f)
        if case["which"] == "thermal":
            require(np.array_equal(a[f][:, 0], c[f][:, 0]), "blue %s changed with the thermal values", f)
    return dict(nt=m.sum() > 5 and K.nclear(q) >= 24, labels=[case["which"], "breaks" if (a["t_break"] > 0).any() else "stable"])


def run_shift(case):
    try:
        return _run_shift(case)
    except Violation:
        d, b, q = gen.series(case["s"])
        p = case["p"]
        for dd in (d, d + case["k"] * 1461):
            if model.ref_cold(dd, b, q, p["tcg"], p["conse"], p["c2"], p["gap"])["flags"] & 2:
                raise Inconclusive("robust screening over less than a year: rank-deficient design")
        raise


def _run_shift(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    k = case["k"] * 1461
    a = K.run_cold(d, b, q, p)
    c = K.run_cold(d + k, b, q, p)
    if a is None or c is None:
        require(a is None and c is None, "a record only %s the shift", "before" if a is not None else "after")
        return dict(nt=False, labels=["none"])
    ka = [(x[0] + k, x[1] + k, x[2] + k if x[2] else 0) + x[3:] for x in K.keys(a)]
    kc = K.keys(c)
    if ka != kc:
        if K.tie(d, b, q, p, [(x[0] - k, x[1] - k, x[2] - k if x[2] else 0) + x[3:] for x in kc]) or \
                K.tie(d + k, b, q, p, ka):
            raise Inconclusive("numerical tie")
        raise Violation("shift by %d days: records %s became %s" % (k, ka, kc))
    bad = []
    for n, (x, y) in enumerate(zip(a, c)):
        for j in range(7):
            rm = float(x["rmse"][j])
            t = np.linspace(int(x["t_start"]), int(x["t_end"]), 20)
            e = np.abs(model.curve(x["coefs"][j], t) - model.curve(y["coefs"][j], t + k)).max()
            if not abs(float(y["rmse"][j]) - rm) <= 3 + 0.02 * rm:
                bad.append((n, j, "record %d band %d: rmse %s became %s" % (n, j, rm, y["rmse"][j])))
            elif not abs(float(y["magnitude"][j]) - float(x["magnitude"][j])) <= 8 + 0.05 * rm + 0.01 * abs(float(x["magnitude"][j])):
                bad.append((n, j, "record %d band %d: magnitude %s became %s" % (n, j, x["magnitude"][j], y["magnitude"][j])))
            elif not e <= 8 + 0.05 * rm:
                bad.append((n, j, "record %d band %d: fitted curve moved by %.1f" % (n, j, e)))
    if bad:         # fits that a tiny change of the stopping rule moves as much are not judged
        unstable = set()
        for dd, z in ((d, K.keys(a)), (d + k, kc)):
            same = []
            for js, eps in [(0, 0.0)] + K.JITTER:
                r = model.ref_cold(dd, b, q, p["tcg"], p["conse"], p["c2"], p["gap"], jseed=js, jeps=eps)
                if K.keys(r["rec"], "prob") == z:
                    same.append(r["rec"])
            for r in same:
                unstable |= {(n, j) for n, j, _ in K.value_diffs(r, same[0]) if n >= 0}
        rest = [m for n, j, m in bad if (n, j) not in unstable]
        if not rest:
            raise Inconclusive("ill-conditioned fit")
        raise Violation(rest[0])
    return dict(nt=K.nclear(q) >= 24, labels=["breaks%d" % min(3, int((a["t_break"] > 0).sum()))])


def strat_bands(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=gen.st_series(st, max_years=14), p=gen.st_params(st),
                                      which=st.sampled_from(["blue", "thermal", "both"]), seed=st.integers(0, 10**6),
                                      frac=st.sampled_from([0.1, 0.5, 1.0]), pos=st.integers(1, 2**31 - 1)))


def strat_shift(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=gen.st_series(st, max_years=14, starts=(726000, 736000)), p=gen.st_params(st),
                                      k=st.sampled_from([1, 2, 3, 5, -1])))


TESTS = [
    Test("bands", strat_bands, run_bands, 420, 12000, "standard procedure, more than five usable values replaced",
         minimise=gen.minimise_series("s")),
    Test("shift", strat_shift, run_shift, 280, 10000, "standard procedure used", minimise=gen.minimise_series("s")),
]
