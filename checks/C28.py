"""C28: an argument that is left out, or given by position, means what the documentation says."""
import numpy as np

from vlib import gen
from vlib.prop import Test, Violation, require
from checks import C10, C14, calls, common as K, hist as H

# parameters in their documented order, with the documented default
SIGNATURE = {
    "cold_detect": [("t_cg", 15.0863), ("pos", 1), ("conse", 6), ("b_output_cm", False), ("starting_date", 0), ("n_cm", 0), ("cm_output_interval", 0), ("b_c2", False), ("gap_days", 365.25)],
    "obcold_reconstruct": [("pos", 1), ("conse", 6), ("b_c2", False)],
    "sccd_detect": [("t_cg", 15.0863), ("pos", 1), ("conse", 6), ("b_c2", False), ("b_pinpoint", False), ("gate_tcg", 9.236), ("b_monitor_init", False)],
    "sccd_update": [("t_cg", 15.0863), ("pos", 1), ("conse", 6), ("b_c2", False), ("gate_tcg", 9.236), ("predictability_tcg", 9.236)],
    "sccd_identify": [("dist_conse", 6), ("t_cg_scale100", 1508.6), ("t_cg_singleband_scale1000", -200), ("t_angle_scale100", 4500), ("transform_mode", True)],
}
SERIES = ["dates", "ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas"]


def do(func, lead, args, kw):
    """-> description of the outcome"""
    import pycold
    try:
        r = getattr(pycold, func)(*lead, *args, **kw)
    except Exception as e:
        return [("error", "%s: %s" % (type(e).__name__, e))]
    return [tuple(x) for x in calls.digests(func, r)]


def ways(case, func, lead, names):
    """the call written out, with omissions, and by position -> does leaving a value out matter here?"""
    sig = SIGNATURE[func]
    given = dict(case["values"])
    omit = {n for k, (n, v) in enumerate(sig) if case["omit"] >> k & 1}
    full = {n: v if n in omit else given.get(n, v) for n, v in sig}
    want = do(func, lead, [], full)

    def check(got, how):
        if got != want:
            bad = [x[0] for x, y in zip(want, got) if x != y] or ["number of results"]
            raise Violation("%s: %s differs from the call with %s: %s" % (func, how, full, bad[:6] if "error" not in bad else (want[:1], got[:1])))
    check(do(func, lead, [], {n: v for n, v in full.items() if n not in omit}), "leaving out %s" % sorted(omit))
    check(do(func, lead, list(full.values()), {}), "giving all arguments by position")
    k = case["pos"] % (len(sig) + 1)
    check(do(func, lead, list(full.values())[:k], {n: v for n, v in list(full.items())[k:] if n not in omit}), "giving %d arguments by position and leaving out %s" % (k, sorted(omit)))
    if case["keywords"]:
        check(do(func, [], [], dict(zip(names, lead), **full)), "giving the series by keyword")
    shorter = {n: v for n, v in full.items() if v != dict(sig)[n]}
    check(do(func, lead, [], shorter), "naming only what is not the default")
    matter = [n for n in sorted(omit) if n in given and do(func, lead, [], dict(full, **{n: given[n]})) != want]
    return dict(nt=bool(matter), labels=["%s:%s" % (func, n) for n in matter] or ["none"])


def automatic(d, lead, kw):
    """change-magnitude output with everything left out: every 60 days from the first date, as often as the series needs"""
    import pycold
    try:
        r = pycold.cold_detect(*lead, b_output_cm=True, **kw)
    except Exception as e:
        require(K.NO_RECORD in str(e) or isinstance(e, RuntimeError), "change-magnitude output without its parameters: %s: %s", type(e).__name__, e)
        return
    n, need = len(r[1]), (int(d[-1]) - int(d[0])) // 60 + 1
    require(need <= n <= need + 2, "%d change magnitudes for %d days", n, int(d[-1]) - int(d[0]) + 1)
    z = pycold.cold_detect(*lead, b_output_cm=True, starting_date=int(d[0]), n_cm=n, cm_output_interval=60, **kw)
    require(calls.canon(r) == calls.canon(z), "the change magnitudes without parameters are not those every 60 days from the first date")


def run_detect(case):
    func = case["func"]
    d, b, q = gen.series(case["s"])
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    lead, names = [d] + b + [q], SERIES
    if func == "obcold_reconstruct":
        lead = lead + [C10.breaks(case, d, K.usable_mask(d, b, q, False))]
        names = names + ["break_dates"]
    v = dict(case["values"])
    if func == "cold_detect" and not case["pos"] % 3:
        automatic(d, lead, {k: v[k] for k in ("t_cg", "conse", "b_c2") if k in v})
    if "starting_date" in v:
        v["starting_date"] = int(d[0]) - v["starting_date"]
    return ways(dict(case, values=v), func, lead, names)


def run_update(case):
    d, b, q = gen.series(case["s"])
    if len(d) < 3:
        return dict(nt=False, labels=["empty"])
    import pycold
    k = H.first_batch(d, case["at"])
    if k < 2 or k >= len(d) or d[k - 1] - d[0] < 365.25:
        return dict(nt=False, labels=["short"])
    a, ab, aq = H.cut(d, b, q, 0, k)
    pack = pycold.sccd_detect(a, *ab, aq, t_cg=15.0863, conse=6, b_c2=False, gate_tcg=9.236)
    a, ab, aq = H.cut(d, b, q, k, len(d) if case["one"] is None else min(len(d), k + case["one"]))
    if case["doubt"] and pack.nrt_mode in (1, 2):           # the state in which sccd_identify leaves a pixel
        pack = pack._replace(nrt_mode=int(pack.nrt_mode) + 10)
    return ways(case, "sccd_update", [pack, a] + ab + [aq], ["sccd_pack"] + SERIES)


def run_doubt(case):
    """every few observations the pixel is in doubt again: the thresholds left out decide whether it is believed"""
    import pycold
    d, b, q = gen.series(case["s"])
    if len(d) < 3:
        return dict(nt=False, labels=["empty"])
    k = H.first_batch(d, case["at"])
    if k < 2 or d[k - 1] - d[0] < 365.25:
        return dict(nt=False, labels=["short"])
    conse, hits = case["conse"], 0
    a, ab, aq = H.cut(d, b, q, 0, k)
    pack = pycold.sccd_detect(a, *ab, aq, conse=conse)
    for _ in range(30):
        if k == len(d):
            break
        j = min(len(d), k + case["step"])
        a, ab, aq = H.cut(d, b, q, k, j)
        k = j
        if pack.nrt_mode == 1:
            pack = pack._replace(nrt_mode=11)
        lead = [pack, a] + ab + [aq]
        kw = dict(conse=conse)
        want = do("sccd_update", lead, [], dict(kw, t_cg=15.0863, gate_tcg=9.236, predictability_tcg=9.236, b_c2=False, pos=1))
        require(do("sccd_update", lead, [], kw) == want, "sccd_update in mode %d: leaving out the thresholds differs from 15.0863, 9.236 and 9.236", pack.nrt_mode)
        if pack.nrt_mode == 11:
            hits += any(do("sccd_update", lead, [], dict(kw, predictability_tcg=x)) != want for x in (8, 11.07))
        pack = pycold.sccd_update(*lead, predictability_tcg=9.236, gate_tcg=9.236, t_cg=15.0863, conse=conse)
    return dict(nt=hits > 0, labels=["hits%d" % min(hits, 5)])


def run_identify(case):
    pack, m, last = C14.made(case)
    return ways(case, "sccd_identify", [pack], ["sccd_pack"])


def st_case(st, func, **kw):
    real = st.sampled_from([0.5, 3, 5, 8, 9, 9.3, 11.07, 12.5, 15.086, 20, 27, 45])
    conse = st.sampled_from([3, 4, 5, 7, 8])
    value = dict(t_cg=real, pos=st.integers(2, 10**7), conse=conse, b_output_cm=st.booleans(), starting_date=st.sampled_from([0, 7, 40]), n_cm=st.integers(1, 400), cm_output_interval=st.sampled_from([30, 32, 60, 100]), b_c2=st.just(True),
                 gap_days=st.sampled_from([0, 200, 300, 350, 400, 500, 1000, 1500]), b_pinpoint=st.just(True), gate_tcg=real, b_monitor_init=st.just(True), predictability_tcg=real, dist_conse=st.sampled_from([1, 2, 3, 4, 5]),
                 t_cg_scale100=st.sampled_from([1, 500, 1500, 1507, 1510, 2000, 3000.5]), t_cg_singleband_scale1000=st.sampled_from([0, -100, -150, -190, -210, -300, 100]), t_angle_scale100=st.sampled_from([1, 1500, 4499, 4501, 6000, 17999]), transform_mode=st.just(False))
    names = [n for n, _ in SIGNATURE[func]]
    k = len(names)
    few = st.lists(st.sampled_from(names), max_size=3, unique=True)
    vals = few.flatmap(lambda ns: st.fixed_dictionaries({n: value[n] for n in ns})) if func != "sccd_identify" else st.fixed_dictionaries({n: value[n] for n in names})
    return st.fixed_dictionaries(dict(func=st.just(func), values=vals, omit=st.one_of(st.just(2**k - 1), st.integers(0, 2**k - 1)), pos=st.integers(0, k), keywords=st.booleans(), **kw))


def strat(tier, func):
    from hypothesis import strategies as st
    if func == "obcold_reconstruct":
        return st_case(st, func, s=gen.st_series(st, max_years=14), bk=C10.st_breaks(st))
    return st_case(st, func, s=gen.st_series(st, max_years=14))


def strat_update(tier):
    from hypothesis import strategies as st
    return st_case(st, "sccd_update", s=H.st_hist(st, tier), at=st.integers(100, 900), doubt=st.booleans(), one=st.sampled_from([None, 1, 2, 4, 6, 12]))


def strat_doubt(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=H.st_hist(st, tier), at=st.integers(200, 700), conse=st.sampled_from([6, 6, 3, 4]), step=st.sampled_from([1, 2, 5])))


def strat_identify(tier):
    from hypothesis import strategies as st
    return st_case(st, "sccd_identify", seed=st.integers(0, 2**31 - 1), slots=st.integers(1, 8), last=st.sampled_from([6, 6, 5, 7, 3, 8]), mode=st.sampled_from([1, 1, 5]), norm=st.sampled_from([1508, 1509, 1505, 1512, 3000, 600]),
                   ang=st.sampled_from([0, 4499, 4500, 4501, 1500, 5000]), vec=st.one_of(st.sampled_from([[0, 0, -205, 205, -205, 0], [0, 0, -195, 195, -195, 0], [0, 0, 205, -205, 205, 0], [0, 0, 195, -195, 195, 0]]), st.lists(st.sampled_from([-900, -210, -190, -100, 0, 100, 190, 210, 900]), min_size=6, max_size=6)))


RULE = "the value of a parameter that was left out decides the outcome: another value of it gives another result"
TESTS = [Test("cold", lambda t: strat(t, "cold_detect"), run_detect, 150, 2500, RULE, minimise=gen.minimise_series("s")),
         Test("obcold", lambda t: strat(t, "obcold_reconstruct"), run_detect, 60, 1500, RULE, minimise=gen.minimise_series("s")),
         Test("sccd", lambda t: strat(t, "sccd_detect"), run_detect, 200, 2500, RULE, minimise=gen.minimise_series("s")),
         Test("update", strat_update, run_update, 200, 4000, RULE, minimise=gen.minimise_series("s")),
         Test("doubt", strat_doubt, run_doubt, 60, 1500, "a predictability threshold of 8 or 11.07 gives another result", minimise=gen.minimise_series("s")),
         Test("identify", strat_identify, run_identify, 600, 10000, RULE)]
ASSUMPTIONS = ["defaults are those of the published signatures: threshold 15.0863, six consecutive observations, collection 1, position 1, a gap of 365.25 days, 9.236 for the two S-CCD gates"]
