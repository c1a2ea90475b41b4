"""C11: S-CCD results follow the documented algorithm and are consistent with their mode."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, require
from checks import common as K, sccdcmp as S

LAUNCH = S.LAUNCH


def prepare():
    model.build_lib("refsccd")


def detect(d, b, q, p, **kw):
    import pycold
    try:
        return pycold.sccd_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gate_tcg=p["gate"], pos=p["pos"], **kw)
    except RuntimeError as e:
        if "smaller than 1 year" in str(e):
            return None
        raise


def usable(d, b, q, c2, snow=False):
    """indices of the observations S-CCD may use: first of each date, in time order"""
    if snow:
        ok = (q == 3) | (q < 2)
        out, last = [], -10**9
        for i in np.nonzero(ok)[0]:
            if d[i] > last:
                out.append(i)
                last = d[i]
        return np.array(out, int)
    return np.nonzero(K.usable_mask(d, b, q, c2))[0]


def invariants(r, d, b, q, p):
    mode, rec = int(r.nrt_mode), r.rec_cg
    snow = mode in (3, 4)
    u = usable(d, b, q, p["c2"], snow)
    ud = d[u]
    on = set(ud.tolist())
    require(int(r.position) == p["pos"], "position %r", r.position)
    require(mode in (0, 1, 3, 4, 12), "mode %d after detection", mode)
    prev = 0
    for k, a in enumerate(rec):
        t0, tb = int(a["t_start"]), int(a["t_break"])
        require(t0 in on and tb in on, "record %d runs from %d to %d: not usable observations", k, t0, tb)
        require(prev <= t0 < tb, "record %d runs from %d to %d after a break at %d", k, t0, tb, prev)
        require(0 < int(a["num_obs"]) <= int(((ud >= t0) & (ud < tb)).sum()), "record %d: num_obs %d, %d usable", k, a["num_obs"],
                ((ud >= t0) & (ud < tb)).sum())
        for f in ("coefs", "rmse", "magnitude"):
            require(np.isfinite(a[f]).all(), "record %d: %s not finite", k, f)
        require((a["rmse"] >= 0).all(), "record %d: negative rmse", k)
        prev = tb
    require(not (snow and len(rec)), "a snow pixel has records")
    if mode == 0:
        require(len(rec) == 0 and len(r.nrt_model) == 0 and len(r.nrt_queue) == 0, "void pixel with content")
        require(len(ud) == 0, "a pixel with %d usable observations is void", len(ud))
    if mode in (1, 3):
        require(len(r.nrt_model) == 1 and len(r.nrt_queue) == 0, "monitor mode with %d models, %d queued", len(r.nrt_model), len(r.nrt_queue))
        m = r.nrt_model[0]
        ns = 8 if snow else p["conse"]
        last = u[-ns:]
        require(m["obs_date_since1982"][:ns].tolist() == (d[last] - LAUNCH).tolist(), "model dates %s, latest usable %s",
                m["obs_date_since1982"].tolist(), (d[last] - LAUNCH).tolist())
        for k in range(6):
            require(m["obs"][k][:ns].tolist() == b[k][last].tolist(), "model observations of band %d are not the latest usable ones", k)
        require(not m["obs"][:, ns:].any() and not m["obs_date_since1982"][ns:].any(), "unused slots of the model are not empty")
        t0 = int(m["t_start_since1982"]) + LAUNCH
        require(t0 in on and t0 >= prev, "model starts at %d after a break at %d", t0, prev)
        require(0 < int(m["num_obs"]) <= int((ud >= t0).sum()), "model num_obs %d of %d", m["num_obs"], (ud >= t0).sum())
        require(np.isfinite(m["nrt_coefs"]).all() and np.isfinite(m["covariance"]).all() and (m["H"] >= 0).all(), "model not finite")
        require(0 <= int(m["conse_last"]) <= p["conse"], "conse_last %d", m["conse_last"])
    if mode in (12, 4):
        require(len(r.nrt_model) == 0 and len(r.nrt_queue) > 0, "queue mode with %d models, %d queued", len(r.nrt_model), len(r.nrt_queue))
        qd = r.nrt_queue["clrx_since1982"].astype(int) + LAUNCH
        require((np.diff(qd) > 0).all() and set(qd.tolist()) <= on, "queue dates %s are not usable observations in order", qd.tolist())
        require(qd[0] >= prev, "queue starts at %d before the last break %d", qd[0], prev)
        at = {int(d[i]): i for i in u[::-1]}
        for n, t in enumerate(qd):
            i = at[int(t)]
            require(r.nrt_queue["clry"][n].tolist() == [int(b[k][i]) for k in range(6)], "queued values at %d", t)
        tail = min(len(u), p["conse"], len(qd)) if not snow else len(u)
        require(qd[-tail:].tolist() == ud[-tail:].tolist(), "queue ends with %s, latest usable %s", qd[-tail:].tolist(), ud[-tail:].tolist())
    if not snow and len(u):
        want = [int(np.float32(K_median(np.abs(np.diff(b[k][u]))))) if len(u) > 1 else int(b[k][u[0]]) for k in range(6)]
        require(list(int(x) for x in r.min_rmse) == want, "min_rmse %s, expected %s", list(r.min_rmse), want)


def K_median(x):
    x = np.sort(np.asarray(x, float))
    n = len(x)
    return x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2.0


def short(d):
    return len(d) == 0 or d[-1] - d[0] < 365.25


def run_ref(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    pin = p["pin"]
    r = detect(d, b, q, p, b_pinpoint=pin, b_monitor_init=p.get("init", False))
    if r is None:
        require(short(d), "a series of %d days was refused as shorter than a year", d[-1] - d[0])
        return dict(nt=False, labels=["short"])
    require(not short(d), "a series of %d days was accepted", d[-1] - d[0])
    if pin:
        r, pp = r
        require(int(pp.position) == p["pos"], "pinpoint position %r", pp.position)
    invariants(r, d, b, q, p)
    ref = S.check_step(None, r, d, b, q, p, "sccd_detect", pinpoint=pp if pin else None)
    lab = ["mode%d" % r.nrt_mode, "rec%d" % (lambda n: n if n < 5 else 5 if n < 10 else 10)(len(r.rec_cg))]
    if pin:
        lab.append("pin%d" % min(len(ref["pin"]), 4))
    return dict(nt=len(r.rec_cg) > 0 or r.nrt_mode in (1, 3), labels=lab)


def run_pin(case):
    """asking for pinpoints changes nothing else when anomalies are defined no stricter than changes"""
    d, b, q = gen.series(case["s"])
    p = dict(case["p"])
    p["gate"] = min(p["gate"], p["tcg"])
    if short(d):
        return dict(nt=False, labels=["short"])
    a, z = detect(d, b, q, p), detect(d, b, q, p, b_pinpoint=True)
    z, pp = z
    for f in a._fields:
        x, y = getattr(a, f), getattr(z, f)
        require(np.asarray(x).tobytes() == np.asarray(y).tobytes(), "field %s differs when pinpoints are requested: %r, %r", f, x, y)
    pp = pp.rec_cg_pinpoint
    t = [int(x["t_break"]) for x in pp]
    require(t == sorted(set(t)), "pinpoints out of order: %s", t)
    on = set(d[usable(d, b, q, p["c2"])].tolist())
    require(set(t) <= on, "pinpoints %s are not usable observations", t)
    for x in pp:
        require(int(x["obs_date_since1982"][0]) + LAUNCH == int(x["t_break"]), "pinpoint at %d holds observations from %d", x["t_break"],
                int(x["obs_date_since1982"][0]) + LAUNCH)
    # a confirmed change of a monitored pixel is also a pinpoint year, unless a stronger anomaly of that year precedes it
    if p["conse"] >= 3:
        yr = set(int(max((x - 723546) / 365.25, 0)) for x in t)
        for k, a_ in enumerate(a.rec_cg):
            if k:      # the first record may precede the first model
                require(int(max((int(a_["t_break"]) - 723546) / 365.25, 0)) in yr, "break %d has no pinpoint in its year", a_["t_break"])
    return dict(nt=len(pp) > 0, labels=["pin%d" % min(4, len(pp)), "rec%d" % min(4, len(a.rec_cg))])


def st_p(st, pin=None):
    return st.fixed_dictionaries(dict(
        tcg=gen.st_tcg(st),
        conse=st.sampled_from([6, 6, 6, 3, 4, 5, 8, 7, 2, 1]), c2=st.booleans(), gate=st.sampled_from([9.236, 9.236, 5.0, 15.0863, 25.0]) | st.floats(2, 30).map(lambda x: round(x, 2)),
        pos=st.sampled_from([1, 77, 24999999]) | st.integers(1, 2**31 - 1), pin=st.booleans() if pin is None else st.just(pin), init=st.booleans()))


def strat(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=gen.st_series(st, max_years=12 if tier == "quick" else 25, min_years=1), p=st_p(st)))


def strat_many(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=gen.st_many(st, 40, 16), p=st_p(st)))


def strat_snow(tier):
    from hypothesis import strategies as st
    s = gen.st_series(st, max_years=8, min_years=1, allow=("fill", "dup", "range", "gaps", "breaks", "cloud"))
    s = st.tuples(s, st.sampled_from([0.6, 0.7, 0.75, 0.8, 0.95, 1.0])).map(lambda t: dict(t[0], snow=t[1]))
    return st.fixed_dictionaries(dict(s=s, p=st_p(st)))


TESTS = [Test("reference", strat, run_ref, 624, 8000, "a model was initialised or a break recorded", minimise=gen.minimise_series("s")),
         Test("many_changes", strat_many, run_ref, 65, 1500, "a model was initialised or a break recorded", minimise=gen.minimise_series("s")),
         Test("snow", strat_snow, run_ref, 338, 5000, "a model was initialised", minimise=gen.minimise_series("s")),
         Test("pinpoint", strat, run_pin, 390, 5000, "at least one pinpoint", minimise=gen.minimise_series("s"))]
