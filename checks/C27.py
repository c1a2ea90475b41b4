"""C27: a step counts as finished exactly when all its parts are; the report states the run."""
import datetime
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import grid as G

DAYS = st.one_of(st.integers(723742, 740000), st.sampled_from([730120, 730485, 729755, 730119, 730850, 731580]))
STEPS = [1, 16, 32, 60, 61, 90, 365]


def doy_name(o):
    d = datetime.date.fromordinal(o)
    return "%d_%d%03d" % (o, d.year, d.timetuple().tm_yday)


def put(*parts):
    with open(os.path.join(*parts), "w"):
        pass


@st.composite
def st_detect(draw):
    kind = draw(st.sampled_from(["cold", "cmmaps", "objects", "features", "maps", "prepare", "folder", "partition", "nopartition"]))
    return dict(kind=kind, g=draw(G.st_grid(5, 3)), n=draw(st.one_of(st.integers(1, 12), st.integers(1, 120))), start=draw(DAYS), step=draw(st.sampled_from(STEPS)),
                years=draw(st.lists(st.integers(1984, 2021), min_size=1, max_size=5, unique=True)), array=draw(st.booleans()),
                # which of the parts are missing: positions modulo the number of parts
                missing=draw(st.one_of(st.just([]), st.just([]), st.just([-1]), st.just([0]), st.lists(st.integers(0, 500), min_size=1, max_size=4), st.just("all"))), decoys=draw(st.booleans()))


def run_detect(case):
    k, g, n = case["kind"], case["g"], case["n"]
    nb = g["nbx"] * g["nby"]
    with tempfile.TemporaryDirectory(prefix="c27") as d:
        if k == "cold":
            from pycold.imagetool.tile_processing import is_finished_cold_blockfinished as f
            parts, decoys = ["COLD_block%d_finished.txt" % (i + 1) for i in range(n)], ["COLD_block0_finished.txt", "COLD_block%d_finished.txt" % (n + 1)]
            ask = lambda: f(d, n)
        elif k == "cmmaps":
            from pycold.imagetool.tile_processing import is_finished_assemble_cmmaps as f
            n = min(n, 20)
            days = [case["start"] + i * case["step"] for i in range(n)]
            parts = ["%s_maps_%s.npy" % (p, doy_name(o)) for o in days for p in ("CM", "CM_date")]
            decoys = ["%s_maps_%s.npy" % (p, doy_name(o)) for o in (days[0] - case["step"], days[-1] + case["step"]) for p in ("CM", "CM_date")]
            ask = lambda: f(d, n, case["start"], case["step"])
        elif k == "objects":
            from pycold.ob_analyst import ObjectAnalystHPC
            days = [case["start"] + i * case["step"] for i in range(n)]
            o = ObjectAnalystHPC(G.info(g), stack_path=d, result_path=d, starting_date=case["start"], obia_path=d)
            parts, decoys = ["tmp_OBIA_%d_finished.txt" % x for x in days], ["tmp_OBIA_%d_finished.txt" % (days[-1] + case["step"]), "tmp_OBIA_%d_finished.txt" % (days[0] - 1)]
            ask = lambda: o.is_finished_object_analysis(np.arange(case["start"], case["start"] + case["step"] * n, case["step"]) if case["array"] else days)
        elif k in ("features", "maps"):
            from pycold.pyclassifier import PyClassifierHPC
            o = PyClassifierHPC(G.info(g), record_path=d, year_list_to_predict=list(case["years"]), tmp_path=d, output_path=d)
            if k == "features":
                parts, decoys = ["tmp_step1_predict_%d_finished.txt" % (i + 1) for i in range(nb)], ["tmp_step1_predict_0_finished.txt", "tmp_step1_predict_%d_finished.txt" % (nb + 1)]
                decoys += ["tmp_step3_classification_%d_finished.txt" % (i + 1) for i in range(nb)]
                ask = o.is_finished_step1_predict_features
            else:
                parts, decoys = ["yearlyclassification_%d.npy" % y for y in case["years"]], ["yearlyclassification_%d.npy" % y for y in range(1980, 2025) if y not in case["years"]]
                ask = o.is_finished_step4_assemble
        else:
            from pycold.imagetool import prepare_ard as P
            if k == "prepare":
                parts, decoys = ["rank%d_finished.txt" % (i + 1) for i in range(n)], ["rank0_finished.txt", "rank%d_finished.txt" % (n + 1)]
                ask = lambda: P.checkfinished_step2(d, n)
            elif k == "folder":
                parts, decoys = ["starting_last_dates.txt"], ["scene_list.txt"]
                ask = lambda: P.checkfinished_step1(os.path.join(d, "starting_last_dates.txt"))
            elif k == "partition":
                parts, decoys = ["starting_last_dates.txt"], ["scene_list.txt"]
                ask = lambda: P.checkfinished_step3_partition(d)
            else:
                parts, decoys = ["scene_list.txt"], ["starting_last_dates.txt"]
                ask = lambda: P.checkfinished_step3_nopartition(d)
        m = set(range(len(parts))) if case["missing"] == "all" else {i % len(parts) for i in case["missing"]}
        for name in ([x for x in decoys if x not in parts] if case["decoys"] else []) + [x for i, x in enumerate(parts) if i not in m]:
            put(d, name)
        require(bool(ask()) == (not m), "%s: %d parts, missing %s: finished = %s", k, len(parts), sorted(parts[i] for i in m)[:5], bool(ask()))
        for i in sorted(m):                     # the last part to come makes it finished
            require(not ask(), "%s: %d parts, %s still missing but finished", k, len(parts), parts[max(m)])
            put(d, parts[i])
        require(bool(ask()), "%s: all %d parts are there but not finished", k, len(parts))
    return dict(nt=len(parts) > 1 and bool(m), labels=[k, "complete" if not m else "one missing" if len(m) == 1 else "several missing"])


@st.composite
def st_work(draw):
    g = draw(G.st_grid(3, 3))
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(["objects", "features", "cmmaps"]))
    k = {"objects": n, "features": g["nbx"] * g["nby"], "cmmaps": 2}[kind]
    return dict(g=g, kind=kind, n=n, start=draw(DAYS), step=draw(st.sampled_from(STEPS)), order=draw(st.permutations(list(range(k)))), seed=draw(st.integers(0, 2**31)),
                years=draw(st.lists(st.integers(1984, 2021), min_size=1, max_size=3, unique=True)))


def run_work(case):
    """the steps' own workers, in any order: finished only after the last"""
    import logging
    logging.disable(logging.CRITICAL)
    g, n, r = case["g"], case["n"], G.rng(case["seed"])
    rows, cols = G.shape(g)
    days = [case["start"] + i * case["step"] for i in range(n)]
    with tempfile.TemporaryDirectory(prefix="c27") as d:
        if case["kind"] == "objects":
            from pycold.ob_analyst import ObjectAnalystHPC
            o = ObjectAnalystHPC(G.info(g), stack_path=d, result_path=d, starting_date=days[0])
            o.hpc_preparation()
            done = lambda: o.is_finished_object_analysis(days)
            todo = [lambda x=x: o.save_obiaresult(x, r.integers(0, 2, (rows, cols)).astype(np.int8), np.full((rows, cols), x, np.int32)) for x in days]
        elif case["kind"] == "features":
            from pycold.pyclassifier import PyClassifierHPC
            o = PyClassifierHPC(G.info(g), record_path=d, year_list_to_predict=list(case["years"]))
            o.hpc_preparation()
            done = o.is_finished_step1_predict_features
            todo = [lambda b=b: o.step1_feature_generation(b) for b, *_ in G.blocks(g)]
        else:
            from pycold import utils as u
            from pycold.imagetool.tile_processing import is_finished_assemble_cmmaps as f
            os.mkdir(os.path.join(d, "m"))
            for b, x, y, *_ in G.blocks(g):
                for p in ("CM", "CM_date"):
                    np.save(os.path.join(d, "%s_x%d_y%d.npy" % (p, x, y)), r.integers(0, 9000, g["bw"] * g["bh"] * n).astype(np.int16))
            done = lambda: f(os.path.join(d, "m"), n, days[0], case["step"])
            todo = [lambda p=p: u.assemble_cmmaps(G.info(g), d, os.path.join(d, "m"), days[0], n, p, case["step"], clean=False) for p in ("CM", "CM_date")]
        require(not done(), "%s: finished before anything was done", case["kind"])
        for i, k in enumerate(case["order"]):
            todo[k]()
            require(bool(done()) == (i + 1 == len(todo)), "%s: %d of %d parts done (order %s) and finished = %s", case["kind"], i + 1, len(todo), case["order"], done())
    return dict(nt=len(todo) > 1, labels=[case["kind"]])


@st.composite
def st_report(draw):
    t = draw(st.integers(900000000, 1800000000))
    return dict(algorithm=draw(st.sampled_from(["COLD", "OBCOLD", "SCCDOFFLINE"])), cores=draw(st.integers(1, 300)), conse=draw(st.integers(1, 9)), p=draw(st.sampled_from([0.99, 0.95, 0.9, 0.999, 0.85])),
                stack=draw(st.sampled_from(["/data/stack", "stack with blank", "x/../y"])), start=draw(DAYS), n=draw(st.integers(1, 400)), years=[draw(st.integers(1982, 1999)), draw(st.integers(2000, 2030))],
                version=draw(st.sampled_from(["0.1.0", "2.10.3"])), t=t, took=draw(st.integers(0, 10**6)))


def run_report(case):
    import pytz
    from pycold.imagetool import tile_processing as T
    from pycold.app import defaults
    tz = pytz.timezone("US/Eastern")
    t0 = datetime.datetime.fromtimestamp(case["t"], tz)
    t1 = t0 + datetime.timedelta(seconds=case["took"])
    with tempfile.TemporaryDirectory(prefix="c27") as d:
        f = os.path.join(d, "r.log")
        a = [f, case["stack"], case["version"], case["algorithm"], None, t0, t1, tz, case["cores"], case["p"], case["conse"]]
        if case["algorithm"] == "OBCOLD":
            a += [case["start"], case["n"]] + case["years"]
        T.tileprocessing_report(*a)
        s = open(f).read()
    lines = s.splitlines()

    def has(word, val):
        l = [x for x in lines if word.lower() in x.lower()]
        require(l and any(re.search(r"(?<![\w.])%s(?![\w.])" % re.escape(str(val)), x) for x in l), "the report does not state %s = %s: %s", word, val, l)
    for w, v in (("threshold", case["p"]), ("conse", case["conse"]), ("stack", case["stack"]), ("cores", case["cores"]), ("Algorithm", case["algorithm"])):
        has(w, v)
    require(case["version"] in s, "the report does not state the version")
    has("program starts", t0.strftime("%Y-%m-%d %H:%M:%S"))
    has("COLD ends", t1.strftime("%Y-%m-%d %H:%M:%S"))
    if case["algorithm"] == "OBCOLD":
        for w, v in (("starting date", case["start"]), ("snapshots", case["n"]), ("lower", case["years"][0]), ("upper", case["years"][1])):
            has(w, v)
        for c in range(1, 9):
            for x in ("threshold", "sizeslope"):
                has("C%d_%s" % (c, x), defaults["OBCOLD"]["C%d_%s" % (c, x)])
    return dict(nt=True, labels=[case["algorithm"]])


TESTS = [
    Test("detect", lambda tier: st_detect(), run_detect, quick=400, thorough=6000, rule="more than one part, at least one of them missing"),
    Test("work", lambda tier: st_work(), run_work, quick=60, thorough=600, rule="more than one part to be done"),
    Test("report", lambda tier: st_report(), run_report, quick=40, thorough=300, rule="every report"),
]
ASSUMPTIONS = ["the finish marks of the steps have the names the present steps give them"]
