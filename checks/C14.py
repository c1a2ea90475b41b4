"""C14: sccd_identify against the stated rule, on packs reached by detection and updates and on altered ones."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, require
from checks import C12, calls, hist as H

LAUNCH = H.LAUNCH


def expected(pack, a):
    """-> (date or 0, mode afterwards, near a threshold)"""
    mode = int(pack.nrt_mode)
    if mode in (3, 4, 11, 12) or len(pack.nrt_model) == 0:
        return 0, mode, False
    m = pack.nrt_model[0]
    n = int(m["conse_last"])
    if not (n >= a["dist_conse"] and float(m["norm_cm"]) > a["cg"] and float(m["cm_angle"]) < a["angle"]):
        return 0, mode, False
    dates = [int(x) for x in m["obs_date_since1982"] if x != 0]
    at = len(dates) - n
    med = medians(m, dates, at)
    s = a["single"]
    near = min(abs(med[2] + s), abs(med[3] - s), abs(med[4] + s)) < 0.5
    if med[2] < -s and med[3] > s and med[4] < -s:
        return 0, mode, near
    return dates[at] + LAUNCH, 11 if mode == 1 and a["transform"] else mode, near


def medians(m, dates, at):
    """median difference of the pending observations from the prediction, per band"""
    med = []
    for k in range(6):
        res = []
        for i in range(at, len(dates)):
            c = m["nrt_coefs"][k].astype(float)
            t = dates[i] + LAUNCH
            w = 2 * np.pi / 365.25
            y = c[0] + c[1] * t / 10000 + c[2] * np.cos(w * t) + c[3] * np.sin(w * t) + c[4] * np.cos(2 * w * t) + c[5] * np.sin(2 * w * t)
            res.append(float(m["obs"][k][i]) - y)
        med.append(float(np.median(res)))
    return med


def ask(pack, a, p=None):
    import pycold
    before = calls.canon(tuple(pack))
    r = pycold.sccd_identify(pack, dist_conse=a["dist_conse"], t_cg_scale100=a["cg"], t_cg_singleband_scale1000=a["single"],
                             t_angle_scale100=a["angle"], transform_mode=a["transform"])
    require(calls.canon(tuple(pack)) == before, "sccd_identify changed the pack passed in")
    require(isinstance(r, tuple) and len(r) == 2, "sccd_identify returned %r", type(r))
    if len(pack.nrt_model) and int(pack.nrt_model[0]["conse_last"]):
        m = pack.nrt_model[0]
        dates = [int(x) for x in m["obs_date_since1982"] if x != 0]
        got, want = pycold.calculate_sccd_cm(pack), medians(m, dates, len(dates) - int(m["conse_last"]))
        require(len(got) == 6 and np.allclose(got, want, rtol=0, atol=0.2), "median differences of the pending observations %s, expected %s", got, want)
        require(calls.canon(tuple(pack)) == before, "calculate_sccd_cm changed the pack passed in")
    date, mode, near = expected(pack, a)
    if near and int(r[1]) != date:
        raise Inconclusive("a band is at the greening threshold")
    require(int(r[1]) == date, "date %d, expected %d (mode %d, %s, asked %s)", r[1], date, pack.nrt_mode, desc(pack), a)
    require(int(r[0].nrt_mode) == mode, "mode %d, expected %d after asking a pack of mode %d", r[0].nrt_mode, mode, pack.nrt_mode)
    f = [x for x in pack._fields if x != "nrt_mode" and calls.canon(np.asarray(getattr(pack, x))) != calls.canon(np.asarray(getattr(r[0], x)))]
    require(not f, "sccd_identify returned a pack with another %s", f)
    return r


def desc(pack):
    if not len(pack.nrt_model):
        return "no model"
    m = pack.nrt_model[0]
    return "conse_last %d norm_cm %d angle %d" % (m["conse_last"], m["norm_cm"], m["cm_angle"])


def forget(pack):
    """the same pack without its stored history"""
    r = pack._replace(rec_cg=np.array([]), position=3, min_rmse=np.zeros(6, np.int16))
    m = pack.nrt_model.copy() if len(pack.nrt_model) else pack.nrt_model
    if len(m):
        for f in ("covariance", "H", "rmse_sum", "num_obs", "t_start_since1982"):
            m[f] = 1
    return r._replace(nrt_model=m)


def run(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) < 3:
        return dict(nt=False, labels=["empty"])
    k, pack = C12.start(case, d, b, q, p)
    if pack is None:
        return dict(nt=False, labels=["short"])
    n, hits, modes = len(d), 0, set()
    cuts = sorted(set([k + (n - k) * c // 1000 for c in case["cuts"]] + [n]))
    for step, j in enumerate([k] + [c for c in cuts if c > k]):
        if j > k:
            pack = H.update(pack, *H.cut(d, b, q, k, j), p)
            k = j
        modes.add(int(pack.nrt_mode))
        a = case["ask"][step % len(case["ask"])]
        r = ask(pack, a)
        z = ask(forget(pack), a)
        require(int(z[1]) == int(r[1]), "the answer %d depends on stored history (%d without)", r[1], z[1])
        hits += int(r[1]) > 0
        if int(r[1]) > 0:
            require(LAUNCH < int(r[1]) <= d[k - 1], "date %d is outside the series (%d to %d)", r[1], d[0], d[k - 1])
            again = ask(r[0], a)
            if r[0].nrt_mode == 11:
                require(int(again[1]) == 0, "a change of a pixel already reported was reported again")
        if case["go"]:
            pack = r[0]
    return dict(nt=hits > 0, labels=["mode%d" % m for m in sorted(modes)] + ["hits%d" % min(3, hits)])


def run_snow(case):
    r = run(case)
    return dict(r, nt="mode3" in r["labels"] or "mode4" in r["labels"])


def made(case):
    """a pack with chosen pending observations"""
    from pycold.common import SccdOutput, nrtmodel_dt
    r = np.random.RandomState(case["seed"])
    m = np.zeros(1, nrtmodel_dt)
    n = case["slots"]
    last = min(case["last"], n)
    m["obs_date_since1982"][0, :n] = np.cumsum(r.randint(1, 20, n)) + r.randint(1, 15000)
    c = r.uniform(-300, 300, (6, 6))
    c[:, 0] = r.uniform(500, 3000, 6)
    c[:, 1] = r.uniform(-1, 1, 6)
    m["nrt_coefs"][0] = c
    t = m["obs_date_since1982"][0, :n].astype(float) + LAUNCH
    vec = np.array(case["vec"], float)
    for k in range(6):
        m["obs"][0, k, :n] = np.rint(model.curve(m["nrt_coefs"][0, k], t) + np.where(np.arange(n) >= n - last, vec[k], 0) + r.randint(-30, 31, n))
    m["conse_last"] = last
    m["norm_cm"], m["cm_angle"] = (case["norm"], case["ang"]) if last else (-9999, -9999)
    q = np.zeros(0)
    return SccdOutput(5, np.array([]), np.full(6, 50, np.int16), case["mode"], m, q), m, last


def run_made(case):
    """packs with chosen pending observations: every threshold from both sides"""
    pack, m, last = made(case)
    hits = 0
    for a in case["ask"]:
        hits += int(ask(pack, a)[1]) > 0
        # at each threshold the bound itself: >= for the count, > and < for magnitude and angle
        for x in (dict(a, dist_conse=max(1, min(6, last))), dict(a, cg=max(1, int(m["norm_cm"][0]))), dict(a, cg=max(1, int(m["norm_cm"][0]) - 1)),
                  dict(a, angle=min(17999, max(1, int(m["cm_angle"][0])))), dict(a, angle=min(17999, max(1, int(m["cm_angle"][0]) + 1)))):
            hits += int(ask(pack, x)[1]) > 0
    return dict(nt=hits > 0, labels=["mode%d" % case["mode"], "last%d" % last])


def st_ask(st):
    one = st.fixed_dictionaries(dict(
        dist_conse=st.sampled_from([6, 1, 2, 3, 4, 5]), cg=st.sampled_from([1508.6, 1, 100, 923, 1000.5, 2500, 30000]),
        single=st.sampled_from([-200, -200, 0, 50, -500, -20.5]), angle=st.sampled_from([4500, 4500, 9000, 1, 1500, 17999]),
        transform=st.booleans()))
    return st.lists(one, min_size=1, max_size=5)


def strat(tier, snow=False):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=H.st_hist(st, tier, snow), p=H.st_p(st), at=st.integers(50, 900), cuts=st.lists(st.integers(0, 1000), min_size=0, max_size=25),
        ask=st_ask(st), go=st.booleans()))


def strat_made(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 2**31 - 1), slots=st.integers(1, 8), last=st.integers(0, 8), mode=st.sampled_from([1, 1, 1, 5, 3, 11]),
        norm=st.sampled_from([0, 1, 923, 924, 1508, 1509, 3000, 32767]) | st.integers(1, 3000),
        ang=st.sampled_from([0, 4499, 4500, 4501, 1500]) | st.integers(0, 12000),
        vec=st.lists(st.sampled_from([-900, -400, -200, -100, 0, 100, 200, 400, 900]), min_size=6, max_size=6), ask=st_ask(st)))


TESTS = [Test("history", strat, run, 455, 8000, "a change was identified", minimise=gen.minimise_series("s")),
         Test("made", strat_made, run_made, 585, 8000, "a change was identified"),
         Test("snow", lambda t: strat(t, True), run_snow, 78, 1000, "a snow pixel was asked", minimise=gen.minimise_series("s"))]
