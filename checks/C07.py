"""Structured fuzzing of the detection functions under ASAN/UBSan; rejection of malformed input; leaks."""
import ctypes as C
import gc

import numpy as np

from vlib import gen
from vlib.prop import Test, require
from checks import C08, calls, common as K, hist as H

SPECIAL = [0, 1, -1, -199, -200, -201, 9999, 10000, 10001, 1800, 1801, 3438, 3439, 255, 4, 3, 32767, 32768, -32768, -32769, 65535, -9999,
           2**31 - 1, -2**31, 2**31, 2**32, 10**15, -10**15, 723742, 720000]


def arrays(c):
    """-> (dates, bands, qa) int64, possibly hostile"""
    if c["base"] == "series":
        d, b, q = gen.series(c["s"])
        d, q = d.copy(), q.copy()
        b = [x.copy() for x in b]
    else:
        r = np.random.RandomState(c["s"]["seed"])
        n = c["n"]
        style = c["base"]
        start = c["s"]["start"]
        if style == "const":
            d = start + np.arange(n) * c["gap"]
            b = [np.full(n, v) for v in (300, 500, 400, 3000, 1500, 700, 2950)]
        elif style == "twoval":
            d = start + np.arange(n) * c["gap"]
            b = [v + (np.arange(n) % 2) * k for v, k in zip((300, 500, 400, 3000, 1500, 700, 2950), (1, 0, 2, 1, 0, 3, 1))]
        elif style == "steps":
            d = start + np.arange(n) * c["gap"]
            s = (np.arange(n) // max(1, c["run"])) % 3
            b = [v + s * 1700 for v in (300, 500, 400, 3000, 1500, 700)] + [2900 + s * 100]
        elif style == "wild":
            d = start + np.sort(r.randint(0, max(1, n * c["gap"]), n))
            b = [r.randint(1, 9999, n) for _ in range(6)] + [r.randint(1801, 3438, n)]
        else:
            d = start + np.cumsum(r.randint(0, 3, n) * c["gap"])
            b = [np.array(SPECIAL)[r.randint(0, len(SPECIAL), n)] for _ in range(7)]
        q = np.array(c["qas"])[r.randint(0, len(c["qas"]), n)] if n else np.zeros(0, int)
        d, b, q = d.astype(np.int64), [np.asarray(x).astype(np.int64) for x in b], q.astype(np.int64)
    for where, band, val in c["mut"]:
        if len(d) == 0:
            break
        i = where % len(d)
        v = SPECIAL[val % len(SPECIAL)]
        if band < 7:
            b[band][i] = v
        elif band == 7:
            q[i] = v if val % 3 == 0 else val % 5
        else:
            d[i] = d[i] + (val % 7 - 3) * 400 if val % 2 else d[0]
    if c["sort"]:
        d = np.sort(d)
    return d, b, q


def wellformed(kind, r):
    from pycold.common import reccg_dt, sccd_dt, nrtmodel_dt, nrtqueue_dt, pinpoint_dt

    def recs(x, what):
        require(isinstance(x, np.ndarray) and x.dtype == reccg_dt and x.ndim == 1 and len(x) > 0, "%s: malformed records", what)
        require((np.diff(x["t_start"]) > 0).all() if len(x) > 1 else True, "%s: records out of order", what)

    def pack(x, what):
        require(hasattr(x, "_fields") and len(x) == 6, "%s: malformed state", what)
        require(x.nrt_mode in (0, 1, 2, 3, 4, 5, 11, 12), "%s: mode %r", what, x.nrt_mode)
        for v, dt in ((x.rec_cg, sccd_dt), (x.nrt_model, nrtmodel_dt), (x.nrt_queue, nrtqueue_dt)):
            require(isinstance(v, np.ndarray) and v.ndim == 1 and (len(v) == 0 or v.dtype == dt), "%s: malformed state arrays", what)
        require(len(x.nrt_queue) <= 240 and len(x.nrt_model) <= 1, "%s: state too large", what)
        require(np.asarray(x.min_rmse).shape == (6,), "%s: minimum rmse %r", what, x.min_rmse)

    if kind == "cold":
        recs(r, kind)
    elif kind == "cm":
        recs(r[0], kind)
        require(r[1].ndim == 1 and r[1].shape == r[2].shape, "change-magnitude arrays malformed")
    elif kind == "obcold":
        recs(r, kind)
    elif kind == "sccd":
        pack(r, kind)
    elif kind == "pinpoint":
        pack(r[0], kind)
        pp = r[1].rec_cg_pinpoint
        require(isinstance(pp, np.ndarray) and (len(pp) == 0 or pp.dtype == pinpoint_dt), "pinpoints malformed")
    elif kind == "upd":
        for x in r:
            pack(x, kind)


def do(kind, d, b, q, p, c):
    import pycold
    if kind == "cold":
        return pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"], pos=p["pos"])
    if kind == "cm":
        return pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"], b_output_cm=True,
                                  starting_date=c["cm"][0] + (int(d[0]) if len(d) and c["cm"][0] else 0), n_cm=c["cm"][1],
                                  cm_output_interval=c["cm"][2])
    if kind == "obcold":
        bk = np.array([x + (int(d[0]) if len(d) else 0) if x > 0 else x for x in c["bk"]], dtype=np.int64)
        return pycold.obcold_reconstruct(d, *b, q, bk, conse=p["conse"], b_c2=p["c2"], pos=p["pos"])
    kw = dict(t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gate_tcg=p["gate"])
    if kind == "sccd":
        return pycold.sccd_detect(d, *b, q, pos=p["pos"], **kw)
    if kind == "pinpoint":
        return pycold.sccd_detect(d, *b, q, b_pinpoint=True, **kw)
    first = int(np.searchsorted(d, d[0] + 380)) if len(d) and c["first"] else 0     # a first batch of more than a year
    k = [0] + sorted(max(first, len(d) * x // 1000) for x in c["cuts"]) + [len(d)]
    out = pycold.sccd_detect(d[:k[1]], *[x[:k[1]] for x in b], q[:k[1]], **kw)
    res = [out]
    for j, (a, z) in enumerate(zip(k[1:], k[2:])):
        kk = dict(kw, predictability_tcg=p["pred"])
        if c["conses"]:
            kk["conse"] = c["conses"][j % len(c["conses"])]
        try:
            out = pycold.sccd_update(out, d[a:z], *[x[a:z] for x in b], q[a:z], **kk)
        except (RuntimeError, IndexError):
            continue
        out, date = pycold.sccd_identify(out, dist_conse=c["dc"], t_cg_scale100=100.0 * (1 + c["dc"]))
        require(int(date) >= 0, "sccd_identify returned %r", date)
        res.append(out)
    return res


def run(case):
    d, b, q = arrays(case)
    p, kind = case["p"], case["kind"]
    try:
        r = do(kind, d, b, q, p, case)
    except Exception as e:      # a clean rejection
        return dict(nt=False, labels=[kind + "-" + type(e).__name__])
    if kind in ("cold", "cm", "obcold"):
        require((np.diff(d) >= 0).all(), "%s accepted dates that are not in order", kind)
    require(p["tcg"] > 0 and 0 < p["conse"] < 12 and p["gap"] >= 0 and p["pos"] > 0, "%s accepted %r", kind, p)
    wellformed(kind, r)
    return dict(nt=True, labels=[kind])


def _strat(tier, base):
    from hypothesis import strategies as st
    y = 12 if tier == "quick" else 24
    small = st.integers(0, 60)
    p = st.fixed_dictionaries(dict(
        tcg=st.sampled_from([15.0863, 15.0863, 9.236, 0.01, 100.0, 1e9, 3.0]),
        conse=st.sampled_from([6, 6, 6, 3, 4, 1, 2, 5, 7, 8, 8, 9, 11]), c2=st.booleans(),
        gap=st.sampled_from([365.25, 365.25, 0.0, 30, 1e6]), pos=st.sampled_from([1, 1, 5000, 2**31 - 1]),
        gate=st.sampled_from([9.236, 9.236, 0.5, 15.0, 1e6]), pred=st.sampled_from([9.236, 9.236, 0.1, 1e6])))
    s = gen.st_series(st, max_years=y)
    return st.fixed_dictionaries(dict(
        base=base(st), s=s, n=small | st.integers(0, 400), gap=st.sampled_from([1, 8, 16, 16, 30, 100, 700]), run=st.integers(1, 40),
        qas=st.sampled_from([[0], [0], [0, 0, 1], [0, 4], [3], [3, 3, 3, 0], [0, 1, 2, 3, 4, 255], [255], [2, 4], [0, 0, 0, 0, 7]]),
        mut=st.lists(st.tuples(st.integers(0, 2000), st.integers(0, 8), st.integers(0, 200)).map(list), max_size=6),
        sort=st.sampled_from([True, True, True, True, True, False]), p=p,
        kind=st.sampled_from(["cold", "cm", "obcold", "sccd", "pinpoint", "upd", "upd"]),
        cm=st.tuples(st.sampled_from([0, 0, -1, -40, 5, 2000]), st.sampled_from([0, 0, 1, 10, 200, 5000]),
                     st.sampled_from([0, 0, 32, 60, 1, 1000])).map(list),
        bk=st.lists(st.sampled_from([0, 0, -5, 1, 10**6]) | st.integers(1, 12000), min_size=1, max_size=60),
        first=st.sampled_from([1, 1, 1, 0]), cuts=st.lists(st.integers(1, 999), min_size=1, max_size=12),
        conses=st.sampled_from([[], [], [], [6], [4, 6], [8], [1, 2, 3], [11]]), dc=st.integers(1, 6)))


def strat(tier):
    return _strat(tier, lambda st: st.just("series"))


def strat_odd(tier):
    return _strat(tier, lambda st: st.sampled_from(["const", "twoval", "steps", "wild", "special", "steps", "wild"]))


# ---------------------------------------------------------------- malformed arguments
def place(i, n):
    """one of n places, often the last or the first"""
    return [n - 1, 0, i // 4 % n, i // 4 % n][i % 4]


def run_reject(case):
    import pycold
    d, b, q = gen.series(case["s"])
    n = len(d)
    if n < 3:
        return dict(nt=False, labels=["short"])
    args = [d] + list(b) + [q]
    k = case["k"]
    how = case["how"]
    kind = case["kind"]
    x = args[k]
    kw = {}
    if how == "shorter":
        args[k] = x[:-1]
    elif how == "longer":
        args[k] = np.append(x, x[-1])
    elif how == "empty":
        args[k] = x[:0]
    elif how == "2d":
        args[k] = x.reshape(-1, 1)
    elif how == "row":
        args[k] = x.reshape(1, -1)
    elif how == "0d":
        args[k] = np.array(5)
    elif how == "swap":
        if kind in ("sccd", "update"):
            return dict(nt=False, labels=["na"])
        u = np.nonzero(np.diff(d) > 0)[0]
        if len(u) == 0:
            return dict(nt=False, labels=["na"])
        i = int(u[place(case["i"], len(u))])
        args = [a.copy() for a in args]
        for a in args:
            a[[i, i + 1]] = a[[i + 1, i]]
    elif how == "allempty":
        args = [a[:0] for a in args]
    elif how == "param":
        kw = [dict(conse=0), dict(conse=12), dict(conse=-3), dict(pos=0), dict(pos=-1), dict(conse=2.5), dict(pos="1"),
              dict(conse=None), dict(t_cg=0.0), dict(t_cg=-1.0), dict(t_cg="x"), dict(gap_days=-1), dict(gate_tcg=0), dict(gap_days=None),
              dict(conse=6.0), dict(t_cg=float("-inf")), dict(conse=100000)][case["i"] % 17]
        ok = {"cold": {"conse", "pos", "t_cg", "gap_days"}, "obcold": {"conse", "pos"}, "sccd": {"conse", "pos", "t_cg", "gate_tcg"},
              "update": {"conse", "pos", "t_cg", "gate_tcg"}}[kind]
        if not set(kw) <= ok:
            return dict(nt=False, labels=["na"])
    elif how == "qa":
        args[8] = q.copy()
        args[8][place(case["i"], n)] = [5, -1, 6, 100, 254, 256, 1000, -255][case["i"] // 4 % 8]
    pack = None
    if kind == "update":
        h = n // 2
        try:
            pack = pycold.sccd_detect(d[:h], *[y[:h] for y in b], q[:h])
        except RuntimeError:
            return dict(nt=False, labels=["short"])
    try:
        if kind == "cold":
            r = pycold.cold_detect(*args, **kw)
        elif kind == "obcold":
            r = pycold.obcold_reconstruct(*args, np.array([int(d[n // 2])]), **kw)
        elif kind == "sccd":
            r = pycold.sccd_detect(*args, **kw)
        else:
            r = pycold.sccd_update(pack, *args, **kw)
    except Exception as e:
        return dict(nt=K.NO_RECORD not in str(e), labels=[how + "-" + kind])
    require(False, "%s accepted malformed input (%s, argument %d, %r) and returned %r", kind, how, k, kw, type(r).__name__)


def strat_reject(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=4, min_years=2, allow=("cloud",)), k=st.integers(0, 8),
        how=st.sampled_from(["shorter", "longer", "empty", "2d", "row", "0d", "swap", "swap", "swap", "allempty", "param", "param", "qa", "qa"]),
        kind=st.sampled_from(["cold", "cold", "obcold", "sccd", "update"]), i=st.integers(0, 500)))


# ---------------------------------------------------------------- leaks
class MI(C.Structure):
    _fields_ = [(n, C.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def in_use():
    f = C.CDLL(None).mallinfo2
    f.restype = MI
    gc.collect()
    m = f()
    return m.uordblks + m.hblkhd


def run_leak(case):
    import pycold
    d, b, q = gen.series(case["s"])
    if len(d) < 3:
        return dict(nt=False, labels=["short"])
    kind, p = case["kind"], case["p"]
    bk = np.array([int(d[len(d) // 3]), int(d[len(d) // 2])])
    if case["bad"] == "order":
        d = d[::-1].copy()
    elif case["bad"] == "qa":
        q = q.copy()
        q[len(q) // 2] = 77

    pack = None
    if case["bad"] == "longer":     # an update with more consecutive observations than the pack keeps is refused
        kind, h = "refused", len(d) * 2 // 3
        try:
            pack = pycold.sccd_detect(d[:h], *[x[:h] for x in b], q[:h], conse=3)
        except RuntimeError:
            return dict(nt=False, labels=["short"])

    def once():
        if pack is not None:
            try:
                return pycold.sccd_update(pack, d[h:], *[x[h:] for x in b], q[h:], conse=8)
            except RuntimeError as e:
                return str(e)
        return calls.call(kind, d, b, q, p, bk, (500, 600, 700, 800, 900))
    for _ in range(10):
        r = once()
    n = 25
    grow = []
    m = in_use()
    for _ in range(6):
        for _ in range(n):
            r = once()
        m2 = in_use()
        grow.append(m2 - m)
        m = m2
        if m2 - grow[-1] >= m2:       # no growth in this phase: no leak
            return dict(nt=not isinstance(r, str) or bool(case["bad"]), labels=[kind + "-" + case["bad"]])
    require(min(grow) < 16 * n, "%s (%s) keeps allocating: %s bytes in consecutive groups of %d identical calls", kind, case["bad"] or
            "valid input", grow, n)
    return dict(nt=True, labels=[kind + "-" + case["bad"]])


def strat_leak(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=st.one_of(gen.st_series(st, max_years=6, min_years=1), st.composite(lambda draw: C08.st_s(st, draw))(), H.st_hist(st, tier, True)), p=gen.st_params(st),
        kind=st.sampled_from(["cold", "cm", "obcold", "sccd", "pinpoint", "upd"]), bad=st.sampled_from(["", "", "", "order", "qa", "longer"])))


TESTS = [
    Test("fuzz_series", strat, run, 130, 4000, "the call returned a result", variant="asan", minimise=gen.minimise_series("s")),
    Test("fuzz_odd", strat_odd, run, 260, 8000, "the call returned a result", variant="asan"),
    Test("reject", strat_reject, run_reject, 600, 6000, "rejected with an exception other than 'no records'"),
    Test("leak", strat_leak, run_leak, 30, 300, "the repeated call reached the detection code"),
]
ASSUMPTIONS = ["values are kept within +-10^15 (no overflow of 64-bit scaling)",
               "UBSan's alignment, shift, float-cast and signed-overflow checks are off (values far outside the sensor domain)"]
