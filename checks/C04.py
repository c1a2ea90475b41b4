"""Observations that are flagged or out of range do not influence the result: metamorphic relations."""
import numpy as np

from vlib import gen
from vlib.prop import Test, Violation, require
from checks import common as K
from checks.C10 import breaks, call as call_obcold, st_breaks


def detect(kind, d, b, q, p, bk=None):
    """-> comparable plain structure"""
    if kind == "cold":
        return [K.run_cold(d, b, q, p)]
    if kind == "cm":
        r = K.run_cold(d, b, q, p, b_output_cm=True, starting_date=int(p["cm0"]), n_cm=int(p["ncm"]), cm_output_interval=32)
        return [None] if r is None else list(r)
    if kind == "obcold":
        return [call_obcold(d, b, q, bk, p)]
    return run_sccd(d, b, q, p)


def run_sccd(d, b, q, p, **kw):
    import pycold
    try:
        o = pycold.sccd_detect(d, *b, q, t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"], **kw)
    except RuntimeError as e:
        return [str(e)[:60]]
    return [o.rec_cg, o.min_rmse, int(o.nrt_mode), o.nrt_model, o.nrt_queue]


def first_diff(a, b, thermal=True):
    if len(a) != len(b):
        return "number of results"
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            if x.dtype != y.dtype or x.shape != y.shape:
                return "result %d: shape or type %s %s / %s %s" % (i, x.shape, x.dtype, y.shape, y.dtype)
            if x.dtype.names:
                for n in x.dtype.names:
                    u, v = x[n], y[n]
                    if not thermal and n in ("coefs", "rmse", "magnitude") and u.ndim > 1 and u.shape[1] == 7:
                        u, v = u[:, :6], v[:, :6]
                    if u.tobytes() != v.tobytes():
                        k = next(j for j in range(len(u)) if u[j].tobytes() != v[j].tobytes())
                        return "record %d field %s:\n %s\n %s" % (k, n, u[k].tolist(), v[k].tolist())
            elif x.tobytes() != y.tobytes():
                k = next(j for j in range(len(x)) if x[j].tobytes() != y[j].tobytes())
                return "result %d element %d: %s / %s" % (i, k, x[k].tolist(), y[k].tolist())
        elif type(x) is not type(y) or (x is not None and not isinstance(x, np.ndarray) and x != y):
            return "result %d: %r / %r" % (i, x if not isinstance(x, np.ndarray) else "records", y if not isinstance(y, np.ndarray) else "records")
    return None


def in_range(b, c2, kind):
    ok = (b[0] > -200) & (b[0] < 10000)
    for k in range(1, 6):
        ok &= (b[k] > 0) & (b[k] < 10000)
    v = np.where((b[6] == 0) | bool(c2), 0, b[6] * 10 - 27320)
    return ok & (v > -9320) & (v < 7070)


JUNK = [0, 1, -1, -9999, 9999, 10000, 20000, 32767, -32768, 65535, 3000, 300, 5000, 2900, 2000000000]


def transform(name, d, b, q, c2, r):
    """-> new (d, b, q, compare thermal) or None when it does not apply"""
    b = [x.copy() for x in b]
    q = q.copy()
    if name == "mask":              # other values under cloud, shadow and fill
        m = np.nonzero((q == 2) | (q == 4) | (q == 255))[0]
        if len(m) == 0:
            return None
        for i in m:
            for k in range(7):
                if r.rand() < 0.8:
                    b[k][i] = JUNK[r.randint(len(JUNK))] if r.rand() < 0.5 else r.randint(1, 9999)
        return d, b, q, True
    if name == "flag":              # another of the unusable flags
        m = np.nonzero((q == 2) | (q == 4) | (q == 255))[0]
        if len(m) == 0:
            return None
        for i in m:
            q[i] = [2, 4, 255][r.randint(3)]
        return d, b, q, True
    if name == "insert":            # additional unusable observations, also on existing dates
        n = r.randint(1, 30)
        x = np.concatenate([d[r.randint(0, len(d), n)], r.randint(d[0], d[-1] + 1, n)])
        dd = np.concatenate([d, x])
        rank = np.concatenate([np.arange(len(d)), np.where(r.rand(len(x)) < 0.5, -1, 10**6)])
        o = np.lexsort((rank, dd))
        bb = [np.concatenate([b[k], np.array([JUNK[r.randint(len(JUNK))] for _ in x])])[o] for k in range(7)]
        qq = np.concatenate([q, np.array([2, 4, 255])[r.randint(0, 3, len(x))]])[o]
        return dd[o], bb, qq, True
    if name == "extend":            # unusable observations before the first and after the last date
        n1, n2 = r.randint(0, 6), r.randint(1, 6)
        lo = np.sort(d[0] - r.randint(0, 400, n1))
        hi = np.sort(d[-1] + r.randint(0, 400, n2))
        dd = np.concatenate([lo, d, hi])
        bb = [np.concatenate([r.randint(-100, 12000, n1), b[k], r.randint(-100, 12000, n2)]) for k in range(7)]
        qq = np.concatenate([np.array([2, 4, 255])[r.randint(0, 3, n1)], q, np.array([2, 4, 255])[r.randint(0, 3, n2)]])
        return dd, bb, qq, True
    if name == "dup":               # repeated dates: later usable copies with other values
        u = np.nonzero(K.usable_mask(d, b, q, c2))[0]
        if len(u) == 0:
            return None
        pick = np.sort(r.choice(u, size=min(len(u), r.randint(1, 40)), replace=False))
        k = np.insert(np.arange(len(d)), pick + 1, pick)
        new = np.insert(np.zeros(len(d), bool), pick + 1, True)
        bb = [x[k] for x in b]
        for j in range(6):
            bb[j][new] = r.randint(1, 9999, new.sum())
        bb[6][new] = r.randint(2000, 3200, new.sum())
        return d[k], bb, q[k], True
    if name == "range":             # an out-of-range clear observation is as good as absent
        bad = (q < 2) & ~in_range(b, c2, None)
        if not bad.any():
            m = np.nonzero((q < 2))[0]
            return None
        keep = ~bad
        if K.nclear(q[keep]) < 24:
            return None
        return d[keep], [x[keep] for x in b], q[keep], True
    if name == "spoil":             # push usable observations out of range one way / remove them the other way
        raise AssertionError
    if name == "thermal0":
        if not c2:
            return None
        m = r.rand(len(d)) < r.choice([0.1, 0.5, 1.0])
        b[6][m] = 0
        return d, b, q, False
    raise AssertionError(name)


def run(case):
    d, b, q = gen.series(case["s"])
    p = dict(case["p"], pos=1)
    kind = case["kind"]
    if len(d) < 2 or K.nclear(q) < 24:
        return dict(nt=False, labels=["sparse"])
    if kind == "sccd" and (q == 3).any():
        q = np.where(q == 3, 4, q)
    p["cm0"], p["ncm"] = int(d[0]) - 500, (int(d[-1]) - int(d[0]) + 1200) // 32 + 1
    r = np.random.RandomState(case["r"])
    bk = breaks(case, d, K.usable_mask(d, b, q, p["c2"])) if kind == "obcold" else None
    if case["t"] == "spoil":
        # two variants of one series: some clear observations out of range / those observations left out
        m = (q < 2) & (r.rand(len(d)) < 0.25)
        if K.nclear(q[~m]) < 24 or not m.any():
            return dict(nt=False, labels=["sparse"])
        bb = [x.copy() for x in b]
        for i in np.nonzero(m)[0]:
            k = r.randint(0, 6 if p["c2"] else 7)
            bb[k][i] = [[-200, 10000, -9999, 30000], [0, 10000, -1], [0, 10000, -5], [0, 10000, -1], [0, 10000, -1], [0, 10000, -9999],
                        [1800, 3439, 100, 9999]][k][r.randint(0, 4 if k in (0, 6) else 3)]
        keep = ~m
        a = (d, bb, q)
        z = (d[keep], [x[keep] for x in b], q[keep], True)
        if kind == "sccd" and z[0][-1] - z[0][0] < 366:
            return dict(nt=False, labels=["short"])
    else:
        a = (d, b, q)
        z = transform(case["t"], d, b, q, p["c2"], r)
        if z is None:
            return dict(nt=False, labels=["na"])
        if kind == "sccd" and min(d[-1] - d[0], z[0][-1] - z[0][0]) < 366:
            return dict(nt=False, labels=["short"])
    thermal = z[3] or kind == "sccd"
    x = detect(kind, *a, p, bk)
    y = detect(kind, *z[:3], p, bk)
    msg = first_diff(x, y, thermal)
    require(msg is None, "%s, %s: %s", kind, case["t"], msg)
    some = x[0] is not None and (not isinstance(x[0], str)) and (len(x[0]) > 0 or (kind == "sccd" and x[2] != 0))
    return dict(nt=bool(some), labels=[kind + "-" + case["t"]])


def strat(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=14 if tier == "quick" else 30, min_years=2), p=gen.st_params(st),
        kind=st.sampled_from(["cold", "cold", "cm", "obcold", "sccd", "sccd"]),
        t=st.sampled_from(["mask", "flag", "insert", "extend", "dup", "range", "spoil", "thermal0"]),
        r=st.integers(0, 2**31 - 1), bk=st_breaks(st)))


TESTS = [Test("metamorphic", strat, run, 1260, 10000,
              "24 or more clear observations, the transformation applies and the result is not empty",
              minimise=gen.minimise_series("s"))]
ASSUMPTIONS = ["snow flags are turned into cloud for SCCD (its snow modes are C11's)",
               "thermal coefficients are not compared when thermal values are replaced by zero"]
