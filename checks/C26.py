"""C26: a processed tile holds, per pixel, what detection alone gives, under any schedule, crash and restart."""
import contextlib
import datetime
import io
import logging
import os
import pickle
import re
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from vlib import coop
from vlib.prop import Test, Violation, require
from checks import C16, C22, calls, common as K, grid as G, stackgen as S

KINDS = S.KINDS + ["shared", "shared", "badqa"]


class Killed(BaseException):
    pass


class Dying:
    """per worker: dies at its n-th file written (which may be torn) or its n-th pixel"""
    def __init__(self):
        import joblib
        import pycold
        self.joblib = joblib
        self.old = np.save, joblib.dump, pycold.cold_detect, pycold.sccd_detect
        self.at = {}

    def __enter__(self):
        save, dump, cold, sccd = self.old
        new = (lambda f, a, **k: (self._hit("save", f), save(f, a, **k))[1], lambda o, f, **k: (self._hit("save", f), dump(o, f, **k))[1],
               lambda *a, **k: (self._hit("pixel"), cold(*a, **k))[1], lambda *a, **k: (self._hit("pixel"), sccd(*a, **k))[1])
        np.save, self.joblib.dump = new[:2]
        self.undo = coop.rebind(list(zip(self.old, new)))
        return self

    def __exit__(self, *a):
        np.save, self.joblib.dump = self.old[:2]
        coop.restore(self.undo)

    def _hit(self, what, f=None):
        k = self.at.get(threading.get_ident())
        if k is None or k["what"] != what or k.get("fired"):
            return
        if k["n"] == 0:
            k["fired"] = True
            if f is not None and k["torn"]:
                coop.torn(f)
            raise Killed()
        k["n"] -= 1


YEAR = 2001         # the documented year of the seed map where none is given


def st_kill():
    return st.fixed_dictionaries(dict(what=st.sampled_from(["save", "save", "pixel"]), n=st.one_of(st.integers(0, 3), st.integers(0, 9), st.integers(0, 60)), torn=st.booleans(), rank=st.integers(1, 3)))


@st.composite
def st_run(draw, method):
    t = draw(S.st_tile(3, 3, (2, 6) if method == "OBCOLD" else (2, 9), KINDS))
    t["kinds"] = t["kinds"] + [draw(st.sampled_from(["break", "break2", "shared"]))]
    nb = t["g"]["nbx"] * t["g"]["nby"]
    n_cores = draw(st.one_of(st.integers(2, 5), st.integers(1, 4), st.sampled_from([nb, nb + 1, 16, 17])))
    lo, hi = t["start"], t["start"] + int(365.25 * t["years"])
    bound = draw(st.sampled_from([0, 0, 1]))
    c = dict(t=t, method=method, n_cores=n_cores, order=draw(st.permutations(list(range(1, n_cores + 1)))), choices=draw(st.lists(st.integers(0, 5), max_size=20)),
             empty=draw(st.lists(st.integers(1, nb), max_size=1)), conse=draw(st.sampled_from([3, 4, 6, 6, 8])), prob=draw(st.sampled_from([0.9, 0.99, 0.9999])), b_c2=draw(st.booleans()),
             low=draw(st.integers(lo, hi)) if bound and draw(st.booleans()) else 0, high=draw(st.integers(lo, hi)) if bound and draw(st.booleans()) else 0,
             step=draw(st.sampled_from([60, 90, 120, 200])), kills=draw(st.lists(st_kill(), max_size=3)), crash=draw(st.sampled_from(["worker", "all"])), restart=draw(st.integers(1, 4)), again=draw(st.booleans()))
    if method == "OBCOLD":
        c["seedmap"] = draw(st.sampled_from([None, None, 1]))
        c["seedyear"] = draw(st.integers(0, 50))
    return c


def detect(case, d, data):
    """records of every pixel by the detection functions alone"""
    import pycold
    from pycold.utils import unindex_sccdpack
    from scipy.stats import chi2
    g = case["t"]["g"]
    rows, cols = G.shape(g)
    out, cms = {}, {}
    t_cg = chi2.ppf(case["prob"], 5)
    for i in range(rows):
        for j in range(cols):
            v = data[i, j].astype(np.int64)
            kw = dict(pos=cols * i + j + 1, conse=case["conse"], b_c2=case["b_c2"])
            try:
                if case["method"] == "SCCDOFFLINE":
                    out[(i, j)] = pycold.sccd_detect(d, *v, t_cg=t_cg, **kw)
                elif case["method"] == "COLD":
                    out[(i, j)] = pycold.cold_detect(d, *v, t_cg=t_cg, **kw)
                else:
                    out[(i, j)], *cms[(i, j)] = pycold.cold_detect(d, *v, starting_date=case["start"], n_cm=case["n"], cm_output_interval=case["step"], b_output_cm=True, **kw)
            except Exception as e:
                if not isinstance(e, RuntimeError) and "no change records" not in str(e):
                    raise
    return out, cms


def reference_obcold(case, d, data, cms, rec, lab, refyear, folder):
    """the stages of OBCOLD one after another, on the undivided tile"""
    import pycold
    from pycold.ob_analyst import ObjectAnalystHPC
    from pycold.pyclassifier import PyClassifierHPC
    g = case["t"]["g"]
    rows, cols = G.shape(g)
    one = dict(nbx=1, nby=1, bw=cols, bh=rows)
    kw = {}
    if lab is not None:
        from pycold.common import reccg_dt
        C22.save_tif(os.path.join(folder, "seed.tif"), lab)
        np.save(os.path.join(folder, "record_change_x1_y1_cold.npy"), np.hstack([rec[k] for k in sorted(rec)]) if rec else np.zeros(0, reccg_dt))
        p = PyClassifierHPC(G.info(one), record_path=folder, year_list_to_predict=case["years"], seedmap_path=os.path.join(folder, "seed.tif"))
        p.hpc_preparation()
        p.step1_feature_generation(1)
        p.step2_train_rf(refyear)
        p.step3_classification(1)
        p.step4_assemble()
        kw["thematic_path"] = os.path.join(folder, "feature_maps")
    o = ObjectAnalystHPC(G.info(one), stack_path=folder, result_path=folder, starting_date=case["start"], **kw)
    o.hpc_preparation()
    dates = [case["start"] + k * case["step"] for k in range(case["n"])]
    for k, x in enumerate(dates):
        cm, da = np.full((rows, cols), -9999, np.int16), np.full((rows, cols), -9999, np.int32)
        for (i, j), v in cms.items():
            cm[i, j], da[i, j] = v[0][k], v[1][k]
        np.save(os.path.join(o.cmmap_path, "CM_maps_" + C16.doy_name(x) + ".npy"), cm)
        np.save(os.path.join(o.cmmap_path, "CM_date_maps_" + C16.doy_name(x) + ".npy"), da)
    for x in dates:
        o.obia_execute(x, cm_output_interval=case["step"])
    br = o.get_allobiaresult_asarray(1, 1).astype(np.int64)
    out = {}
    for i in range(rows if len(d) else 0):
        for j in range(cols):
            try:
                out[(i, j)] = pycold.obcold_reconstruct(d, *data[i, j].astype(np.int64), br[:, i * cols + j], pos=cols * i + j + 1, conse=case["conse"], b_c2=case["b_c2"])
            except Exception as e:
                if not isinstance(e, RuntimeError) and "no change records" not in str(e):
                    raise
    return out, br


def iso(o):
    return datetime.date.fromordinal(o).isoformat()


def simulate(case, main, args, thematic):
    """run the workers; a worker that died (or all of them) is started again"""
    choices = iter(case["choices"])
    kills = [dict(k) for k in case["kills"]]

    def op(rank, n_cores, kill=None, first=False):
        def run():
            me = threading.get_ident()
            for attempt in range(3):
                k = kill if attempt == 0 else None
                D.at[me] = k
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        K.command(main, dict(args, rank=rank, n_cores=n_cores), K.TILE_DEFAULTS, case)
                    return
                except (Killed, UnboundLocalError):
                    if k is None or not k.get("fired"):
                        raise
                    if case["crash"] == "all" and first:
                        raise Crash()
                except FileNotFoundError as e:
                    # rank 1 may clean up the finished classification under a worker that repeats it: that worker is started once more
                    if not (thematic and kills and os.path.basename(str(e.filename)).startswith("tmp_")):
                        raise
                finally:
                    D.at.pop(me, None)
            raise Violation("rank %d of %d does not finish after restarts" % (rank, n_cores))
        return run

    with Dying() as D:
        n = case["n_cores"]
        try:
            with coop.Schedule(lambda m: next(choices, 0) % (m + 1)) as s:
                s.run([op(r, n, next((k for k in kills if (k["rank"] - 1) % n + 1 == r), None), True) for r in case["order"]])
        except Crash:
            n = case["restart"]
            with coop.Schedule(lambda m: next(choices, 0) % (m + 1)) as s:
                s.run([op(r, n) for r in range(n, 0, -1)])
        except coop.Stuck:
            raise Violation("%d workers wait forever (order %s)" % (n, case["order"]))
        if case["again"]:
            with coop.Schedule(lambda m: 0) as s:
                s.run([op(r, n) for r in range(1, n + 1)])
    return any(k.get("fired") for k in kills)


class Crash(Exception):
    pass


def run_tile(case):
    import yaml
    import pycold.imagetool.tile_processing as T
    from pycold.utils import unindex_sccdpack
    logging.disable(logging.CRITICAL)
    case = dict(case)
    t, g = case["t"], case["t"]["g"]
    rows, cols = G.shape(g)
    d, data = S.tile(t)
    r = G.rng(t["seed"] + 5)
    if "badqa" in t["kinds"]:
        for i in range(rows):
            for j in range(cols):
                if r.random() < 0.3:
                    data[i, j, 7, r.integers(len(d))] = 7           # not a documented QA class
    method = case["method"]
    with tempfile.TemporaryDirectory(prefix="c26") as root, contextlib.redirect_stdout(io.StringIO()):
        stack, res, ref = (os.path.join(root, x) for x in ("stack", "res", "ref"))
        os.mkdir(stack), os.mkdir(ref)
        order = S.write(t, d, data, stack, case["empty"])
        case["start"] = int(d.min())
        case["n"] = int((int(d.max()) - case["start"] + 1) / case["step"]) + 1
        y = [datetime.date.fromordinal(case["start"] + k * case["step"]).year for k in (0, case["n"] - 1)]
        case["years"] = list(range(*y))
        dd, dat = d[order], data[:, :, :, order]
        use = (dd >= case["low"]) & ((dd <= case["high"]) | (case["high"] == 0))
        dd, dat = dd[use], dat[:, :, :, use]
        with open(os.path.join(root, "c.yaml"), "w") as h:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=rows, n_cols=cols, n_block_x=g["nbx"], n_block_y=g["nby"]), ALGORITHMINFO=dict(conse=case["conse"], CM_OUTPUT_INTERVAL=case["step"], probability_threshold=case["prob"])), h)
        void = set()
        for b, x, yy, rs, cs in G.blocks(g):
            if b in case["empty"] or not len(dd):
                void |= {(i, j) for i in range(rs.start, rs.stop) for j in range(cs.start, cs.stop)}
        if len(dd):
            rec, cms = detect(case, dd, dat)
        else:
            rec, cms = {}, {}
        rec = {k: v for k, v in rec.items() if k not in void}
        cms = {k: v for k, v in cms.items() if k not in void}
        args = dict(stack_path=stack, result_path=res, yaml_path=os.path.join(root, "c.yaml"), method=method, seedmap_path=None, low_datebound=iso(case["low"]) if case["low"] else None,
                    upper_datebound=iso(case["high"]) if case["high"] else None, b_c2=case["b_c2"], seedmap_year=None)
        final, br = rec, None
        if method == "OBCOLD":
            lab = year = None
            if case["seedmap"] and case["years"]:
                lab = r.integers(1, 9, (rows, cols)).astype(np.uint8)
                year = case["years"][case["seedyear"] % len(case["years"])]
                if YEAR in case["years"] and case["seedyear"] % 2 == 0:
                    year = YEAR
                C22.save_tif(os.path.join(root, "seed.tif"), lab)
                args.update(seedmap_path=os.path.join(root, "seed.tif"), seedmap_year=None if year == YEAR and case["seedyear"] % 2 == 0 else year)
            with coop.Schedule() as s:
                box = []
                s.run([lambda: box.append(reference_obcold(case, dd, dat, cms, rec, lab, year, ref))])
            final, br = box[0]
            final = {k: v for k, v in final.items() if k not in void}
        fired = simulate(case, T.main, args, args["seedmap_path"] is not None)
        what = "%d cores in order %s" % (case["n_cores"], case["order"])
        many = 0
        for sub, suffix, want in ([("", "cold", rec)] if method != "SCCDOFFLINE" else [("", "sccd", rec)]) + ([("obcold", "obcold", final)] if method == "OBCOLD" else []):
            got = {f for f in os.listdir(os.path.join(res, sub)) if re.fullmatch(r"record_change_x\d+_y\d+_[a-z]+\.npy", f)}
            exp = set()
            for b, x, yy, rs, cs in G.blocks(g):
                f = "record_change_x%d_y%d_%s.npy" % (x, yy, suffix)
                px = [(i, j) for i in range(rs.start, rs.stop) for j in range(cs.start, cs.stop)]
                mine = [want[k] for k in px if k in want]
                if mine or (suffix == "sccd" and not (b in case["empty"] or not len(dd))):
                    exp.add(f)
                    require(f in got, "%s: no record file %s", what, f)
                    if suffix == "sccd":
                        packs = []
                        with open(os.path.join(res, f), "rb") as h:
                            while True:
                                try:
                                    packs.append(pickle.load(h))
                                except EOFError:
                                    break
                        require(len(packs) == len(mine), "%s: %d packs in %s, expected %d", what, len(packs), f, len(mine))
                        for a, z in zip(packs, mine):
                            u = unindex_sccdpack(z)
                            require(repr(a) == repr(u), "%s: pack of pixel %s differs from detection alone", what, z.position)
                            many += z.rec_cg is not None and len(z.rec_cg) > 0
                    else:
                        a, z = np.load(os.path.join(res, sub, f)), np.hstack(mine)
                        require(len(a) == len(z) and a.dtype == z.dtype, "%s: %d records in %s, expected %d", what, len(a), f, len(z))
                        for n in range(len(z)):
                            require(calls.canon(a[n:n + 1]) == calls.canon(z[n:n + 1]), "%s: record %d of %s is that of pixel %s, segment %s to %s; expected pixel %s, %s to %s (or its values differ)", what, n, f, a[n]["pos"], a[n]["t_start"], a[n]["t_end"], z[n]["pos"], z[n]["t_start"], z[n]["t_end"])
                        many += len(z) > len(mine)
            require(got == exp, "%s: record files %s besides the expected", what, sorted(got - exp))
        mark = {f for f in os.listdir(res) if f.startswith("COLD_block")}
        require(mark == {"COLD_block%d_finished.txt" % b for b, *_ in G.blocks(g)}, "finished marks %s", sorted(mark))
        if method == "OBCOLD":
            from pycold.ob_analyst import ObjectAnalystHPC
            o = ObjectAnalystHPC(G.info(g), stack_path=stack, result_path=res, starting_date=case["start"])
            theirs = {f for f in os.listdir(o.cmmap_path) if f.startswith("CM_") and f.endswith(".npy")}
            mine = {f: np.load(os.path.join(ref, "cm_maps", f)) for f in os.listdir(os.path.join(ref, "cm_maps")) if f.startswith("CM_") and f.endswith(".npy")}
            require(theirs == set(mine), "change-magnitude maps %s, expected %s", sorted(theirs - set(mine)), sorted(set(mine) - theirs))
            for f, z in mine.items():
                a = np.load(os.path.join(o.cmmap_path, f))
                require(a.shape == z.shape and np.array_equal(a, z), "%s: %s differs from the values of each pixel alone at %s", what, f, np.argwhere(a != z)[:3].tolist() if a.shape == z.shape else a.shape)
            for b, x, yy, rs, cs in G.blocks(g):
                a = o.get_allobiaresult_asarray(x, yy)
                z = br.reshape(-1, rows, cols)[:, rs, cs].reshape(len(br), -1)
                require(np.array_equal(a, z), "%s: break dates of block %d differ from those of the undivided tile", what, b)
        require(os.path.isfile(os.path.join(res, "tile_processing_report.log")), "no report")
        return dict(nt=bool(rec) and bool(many) and G.nontrivial(g) and case["n_cores"] > 1,
                    labels=["crash%d%s" % (fired, case["crash"] if fired else ""), "empty%d" % bool(case["empty"]), "bounds%d" % bool(case["low"] or case["high"]), "many%d" % bool(many)] +
                    (["breaks%d" % bool((br > 0).any()), "seedmap%d" % bool(args["seedmap_path"])] if method == "OBCOLD" else []))


ASSUMPTIONS = ["workers are interleaved at the points where they wait, inside one process; a crash happens at a file being written or at a pixel",
               "rank 1 runs in every schedule; ranks are 1..n_cores", "after a crash, a worker whose temporary classification files were cleaned up by rank 1 is started again"]
TESTS = [
    Test("cold", lambda tier: st_run("COLD"), run_tile, 18, 250, "several blocks, more than one worker and a pixel with more than one segment"),
    Test("obcold", lambda tier: st_run("OBCOLD"), run_tile, 11, 200, "several blocks, more than one worker and a pixel with more than one segment"),
    Test("sccd", lambda tier: st_run("SCCDOFFLINE"), run_tile, 11, 150, "several blocks, more than one worker and a pixel with a record"),
]
