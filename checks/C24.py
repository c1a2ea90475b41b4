"""C24: documented parameter domains and array shapes, from both sides of every bound."""
import math

import numpy as np

from vlib import gen
from vlib.prop import Test, require
from checks import C11 as D, common as K

# parameter -> (kind, low, low included, high, high included)
DOMAIN = {
    "t_cg": ("real", 0, False, None, None), "pos": ("int", 0, False, None, None), "conse": ("int", 0, False, 12, False),
    "starting_date": ("int", 0, True, None, None), "n_cm": ("int", 0, True, None, None), "b_output_cm": ("bool",),
    "cm_output_interval": ("int", 0, True, None, None), "b_c2": ("bool",), "b_monitor_init": ("bool",), "gap_days": ("real", 0, True, None, None), "b_pinpoint": ("bool",), "gate_tcg": ("real", 0, False, None, None),
    "predictability_tcg": ("real", 0, False, None, None), "dist_conse": ("int", 0, False, 6, True),
    "t_cg_scale100": ("real", 0, False, None, None), "t_cg_singleband_scale1000": ("real", None, None, None, None),
    "t_angle_scale100": ("int", 0, False, 18000, False), "transform_mode": ("bool",),
}
FUNCS = {
    "cold_detect": ["t_cg", "pos", "conse", "b_output_cm", "starting_date", "n_cm", "cm_output_interval", "b_c2", "gap_days"],
    "obcold_reconstruct": ["pos", "conse", "b_c2"],
    "sccd_detect": ["t_cg", "pos", "conse", "b_c2", "b_pinpoint", "gate_tcg", "b_monitor_init"],
    "sccd_update": ["t_cg", "pos", "conse", "b_c2", "gate_tcg", "predictability_tcg"],
    "sccd_identify": ["dist_conse", "t_cg_scale100", "t_cg_singleband_scale1000", "t_angle_scale100", "transform_mode"],
}
INTS = {"int": int, "i8": np.int8, "i16": np.int16, "i32": np.int32, "i64": np.int64, "u8": np.uint8, "u32": np.uint32}
REALS = {"float": float, "f32": np.float32, "f64": np.float64}
ODD = {"none": None, "str": "5", "empty": "", "list": [5], "array": np.array([5]), "complex": 5 + 0j, "bytes": b"5", "dict": {}, "tuple": (5,),
       "nan": float("nan"), "npnan": np.float64("nan"), "ninf": float("-inf"), "arr0": np.array([]), "func": len}


def make(v):
    """[type, value] -> python object"""
    t, x = v
    if t in INTS:
        return INTS[t](x)
    if t in REALS:
        return REALS[t](x)
    if t == "bool":
        return bool(x)
    if t == "npbool":
        return np.bool_(x)
    return ODD[t]


def inside(name, v):
    """documented domain; None: not judged"""
    t, x = v
    dom = DOMAIN[name]
    if dom[0] == "bool":
        if t in ("bool", "npbool"):
            return True
        return None if t in INTS else False         # integers are tolerated (deprecated)
    if t in ("bool", "npbool"):
        return None
    if t in ODD:
        return False
    if dom[0] == "int" and t not in INTS:
        return False
    x = make(v)
    if dom[1] is not None and not (x > dom[1] or (dom[2] and x == dom[1])):
        return False
    if dom[3] is not None and not (x < dom[3] or (dom[4] and x == dom[3])):
        return False
    return True


_base = {}


def data():
    if not _base:
        d, b, q = gen.series(dict(seed=5, cover="forest", start=728000, years=4.0, cadence="16", noise=40, amp=1.0, trend=0, harm=0.0, cloud=0.1))
        h = len(d) - 12
        import pycold
        _base.update(d=d, b=b, q=q, h=h, pack=pycold.sccd_detect(d[:h], *[x[:h] for x in b], q[:h]))
    return _base


def invoke(func, kw, args=None):
    import pycold
    x = data()
    if func == "sccd_identify":
        return pycold.sccd_identify(x["pack"], **kw)
    if args is None:
        i = x["h"] if func == "sccd_update" else 0
        args = [x["d"][i:]] + [y[i:] for y in x["b"]] + [x["q"][i:]]
    if func == "cold_detect":
        if kw.get("b_output_cm"):
            # the remaining change-magnitude arguments have to fit each other
            kw = dict(dict(starting_date=int(x["d"][0]), n_cm=60), **kw)
            kw.setdefault("cm_output_interval", 32)
        return pycold.cold_detect(*args, **kw)
    if func == "obcold_reconstruct":
        return pycold.obcold_reconstruct(*args, np.array([0]), **kw)
    if func == "sccd_update":
        return pycold.sccd_update(x["pack"], *args, **kw)
    return pycold.sccd_detect(*args, **kw)


def run(case):
    func, name, v = case["func"], case["name"], case["v"]
    ok = inside(name, v)
    if ok is None:
        return dict(nt=False, labels=["unjudged"])
    kw = {name: make(v)}
    if case["cm"] and func == "cold_detect" and name != "b_output_cm":
        kw["b_output_cm"] = True
    if ok:
        big = abs(float(make(v))) if v[0] not in ODD else 0
        if name == "pos" and big > 2**31 - 1:
            return dict(nt=False, labels=["unjudged"])
        if name in ("n_cm", "starting_date", "cm_output_interval") and big > 10**6:
            return dict(nt=False, labels=["unjudged"])
        try:
            r = invoke(func, kw)
        except Exception as e:
            m = str(e)
            side = (name == "conse" and func.startswith("sccd") and int(make(v)) > 8 and "maximum conse" in m) or \
                (name == "conse" and func == "sccd_update" and int(make(v)) > 6 and isinstance(e, RuntimeError)) or \
                (kw.get("b_output_cm") and name in ("starting_date", "n_cm", "cm_output_interval") and isinstance(e, ValueError)) or K.NO_RECORD in m
            require(side, "%s refused %s=%r, which is inside its documented domain: %s: %s", func, name, kw[name], type(e).__name__, m)
            return dict(nt=True, labels=["in", name])
        require(r is not None, "%s returned nothing for %s=%r", func, name, kw[name])
        if name == "pos":
            got = int(r["pos"][0]) if func in ("cold_detect", "obcold_reconstruct") and not isinstance(r, list) else \
                int(r[0]["pos"][0]) if isinstance(r, list) else int(r.position)
            require(got == int(make(v)), "pos=%r came back as %r", make(v), got)
        return dict(nt=True, labels=["in", name])
    msg = None
    try:
        invoke(func, kw)
    except Exception as e:
        msg = str(e)
        require(isinstance(e, (ValueError, TypeError)), "%s(%s=%r) raised %s: %s", func, name, kw[name], type(e).__name__, msg)
    require(msg is not None, "%s accepted %s=%r, which is outside its documented domain", func, name, kw[name])
    require(name in msg, "%s(%s=%r): the error does not name the parameter: %s", func, name, kw[name], msg)
    if func != "sccd_identify":
        # before any work: even arguments that are no arrays at all do not get in the way
        try:
            invoke(func, kw, [None] * 9)
        except Exception as e:
            require(name in str(e), "%s looked at the arrays before %s=%r: %s", func, name, kw[name], e)
    return dict(nt=True, labels=["out", name])


def strat(tier):
    from hypothesis import strategies as st

    def build(draw):
        func = draw(st.sampled_from(sorted(FUNCS)))
        name = draw(st.sampled_from(FUNCS[func]))
        dom = DOMAIN[name]
        edges = [x for x in (dom[1], dom[3]) if x is not None] if len(dom) > 1 else [0]
        near = draw(st.sampled_from(edges or [0]))
        how = draw(st.sampled_from(["int", "int", "real", "real", "odd", "bool", "wide"]))
        if how == "int":
            t = draw(st.sampled_from(sorted(INTS)))
            x = near + draw(st.integers(-3, 3))
            if t == "u8":
                x = min(255, max(0, x))
            elif t == "u32":
                x = max(0, x)
            elif t == "i8":
                x = max(-128, min(127, x))
        elif how == "real":
            t = draw(st.sampled_from(sorted(REALS)))
            x = near + draw(st.sampled_from([0.0, 1e-3, -1e-3, 0.5, -0.5, 1.0, -1.0, 5.25, 1e-30, -1e-30, 1e6, -1e6]))
        elif how == "wide":
            t, x = "int", draw(st.integers(-10**9, 10**9))
        elif how == "bool":
            t, x = draw(st.sampled_from(["bool", "npbool"])), draw(st.booleans())
        else:
            t, x = draw(st.sampled_from(sorted(ODD))), 0
        return dict(func=func, name=name, v=[t, x], cm=draw(st.booleans()))
    return st.composite(build)()


# ---------------------------------------------------------------- array shapes
NAMES = ["dates", "ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas"]


def run_shape(case):
    import pycold
    x = data()
    func = case["func"]
    i = x["h"] if func == "sccd_update" else 0
    args = [x["d"][i:].copy()] + [y[i:].copy() for y in x["b"]] + [x["q"][i:].copy()]
    n = len(args[0])
    ok = True
    for k, how in case["edit"]:
        a = args[k]
        if how == "cut" and a.ndim == 1:
            args[k] = a[:-1] if k else a[1:]
        elif how == "more" and a.ndim == 1 and len(a):
            args[k] = np.append(a, a[-1])
        elif how == "col":
            args[k] = a.reshape(-1, 1)
        elif how == "row":
            args[k] = a.reshape(1, -1)
        elif how == "pair" and a.ndim == 1:
            args[k] = np.stack([a, a], axis=1)
        elif how == "scalar":
            args[k] = np.array(7)
        elif how == "none" and a.ndim:
            args[k] = a[:0]
        elif how == "i4" and a.ndim == 1:
            args[k] = a.astype(np.int32)
        elif how == "stride" and a.ndim == 1:
            z = np.zeros(2 * len(a), a.dtype)
            z[::2] = a
            args[k] = z[::2]
    shapes = [a.shape for a in args]
    ok = all(s == shapes[0] and len(s) == 1 and s[0] > 0 for s in shapes)
    try:
        r = invoke(func, {}, args)
    except Exception as e:
        require(not ok, "%s refused %d arrays of shape %s: %s", func, len(args), shapes[0], e)
        return dict(nt=True, labels=["out"])
    require(ok, "%s accepted arrays of the shapes %s", func, dict(zip(NAMES, shapes)))
    return dict(nt=len(case["edit"]) > 0 and r is not None, labels=["in"])


def run_breaks(case):
    """break dates: one-dimensional of any length"""
    import pycold
    x = data()
    a = np.array(case["bk"], dtype=np.int64)
    bk = {"1d": a, "col": a.reshape(-1, 1), "row": a.reshape(1, -1), "0d": np.array(int(a[0]))}[case["how"]]
    try:
        r = pycold.obcold_reconstruct(x["d"], *x["b"], x["q"], bk)
    except Exception as e:
        require(case["how"] != "1d" or K.NO_RECORD in str(e), "a list of %d break dates was refused: %s", len(a), e)
        return dict(nt=True, labels=["out"])
    require(case["how"] == "1d", "break dates of shape %s were accepted", bk.shape)
    return dict(nt=len(r) > 0, labels=["in"])


def strat_shape(tier):
    from hypothesis import strategies as st
    e = st.tuples(st.integers(0, 8), st.sampled_from(["cut", "more", "col", "row", "pair", "scalar", "none", "i4", "stride", "i4", "stride"])).map(list)
    same = st.sampled_from(["cut", "col", "row", "more", "none"]).map(lambda h: [[k, h] for k in range(9)])
    return st.fixed_dictionaries(dict(func=st.sampled_from(["cold_detect", "obcold_reconstruct", "sccd_detect", "sccd_update"]),
                                      edit=st.lists(e, max_size=3) | same))


def strat_breaks(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(bk=st.lists(st.integers(0, 740000), min_size=1, max_size=60), how=st.sampled_from(["1d", "1d", "col", "row", "0d"])))


def strat_tile(tier):
    from hypothesis import strategies as st
    n = st.integers(1, 24)
    return st.fixed_dictionaries(dict(rows=n, cols=n, nby=st.integers(1, 8), nbx=st.integers(1, 8), fit=st.sampled_from([0, 0, 1, 2, 3, 3, 3]), method=st.sampled_from(["COLD", "SCCDOFFLINE", "OBCOLD"]),
                                      stack=st.sampled_from(["empty", "empty", "missing"])))


def run_tile(case):
    """a tile is only processed when its blocks cover it and its stack is there"""
    import contextlib, io, json, logging, os, tempfile, yaml
    import pycold.imagetool.tile_processing as T
    from vlib import coop
    logging.disable(logging.CRITICAL)
    case = json.loads(json.dumps(case))
    if case["fit"] & 1:
        case["rows"] = case["nby"] * (1 + case["rows"] % 5)
    if case["fit"] & 2:
        case["cols"] = case["nbx"] * (1 + case["cols"] % 5)
    rows, cols, nby, nbx = (case[k] for k in ("rows", "cols", "nby", "nbx"))
    fits = rows % nby == 0 and cols % nbx == 0
    with tempfile.TemporaryDirectory(prefix="c24") as root, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        stack, res = os.path.join(root, "stack"), os.path.join(root, "res")
        if case["stack"] != "missing":
            for y in range(nby):
                for x in range(nbx):
                    os.makedirs(os.path.join(stack, "block_x%d_y%d" % (x + 1, y + 1)))
            with open(os.path.join(stack, "starting_last_dates.txt"), "w") as h:
                h.write("730000\n731000\n")
        with open(os.path.join(root, "c.yaml"), "w") as h:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=rows, n_cols=cols, n_block_x=nbx, n_block_y=nby), ALGORITHMINFO=dict(conse=6, CM_OUTPUT_INTERVAL=60, probability_threshold=0.99)), h)
        what = "%d rows x %d columns in %d x %d blocks, %s" % (rows, cols, nby, nbx, case["method"])
        out = None
        if case["method"] == "OBCOLD" and fits and case["stack"] != "missing":
            return dict(nt=False, labels=["tile-skip"])        # a whole OBCOLD run of nothing is C26's
        try:
            with coop.Schedule(lambda m: 0) as sc:
                sc.run([lambda: K.command(T.main, dict(rank=1, n_cores=1, stack_path=stack, result_path=res, yaml_path=os.path.join(root, "c.yaml"), method=case["method"]), K.TILE_DEFAULTS, case)])
        except (SystemExit, Exception) as e:
            out = e
        left = sorted(f for _, _, fs in os.walk(res) for f in fs if f.startswith("record_change") or "_finished" in f)
        if not fits:
            require(out is not None and not left, "%s: blocks that do not cover the tile were accepted (left %s)", what, left[:4])
        elif case["stack"] == "missing":
            require(not left, "%s: no stack, but %s was written", what, left[:4])
        else:
            require(out is None, "%s: refused with %r", what, out)
            require(len([f for f in left if f.startswith("COLD_block")]) == nbx * nby, "%s: finished marks %s", what, left)
    return dict(nt=not fits or nbx * nby > 1, labels=["fits%d" % fits, case["method"], case["stack"]])


def strat_hpc(tier):
    from hypothesis import strategies as st
    bad = st.tuples(st.sampled_from(["n_rows", "n_cols", "n_block_x", "n_block_y"]), st.one_of(st.integers(-9, -1), st.floats(0.5, 9).map(lambda v: round(v, 2) + 0.001), st.just("4"))).map(list)
    return st.fixed_dictionaries(dict(bad=st.one_of(st.none(), bad), lost=st.sampled_from([None, None, "record", "seedmap", "rf"]), feature=st.sampled_from([None, None, None, "A0", "c2", "cv", ""]), at=st.integers(0, 3)))


def run_hpc(case):
    """the tile classifier refuses a tile description out of its domain, missing inputs and unknown features by name"""
    import logging, os, tempfile
    from pycold.common import DatasetInfo
    from pycold.pyclassifier import PyClassifier, PyClassifierHPC
    logging.disable(logging.CRITICAL)
    info = DatasetInfo(n_rows=6, n_cols=8, n_block_x=2, n_block_y=3)
    if case["bad"]:
        setattr(info, *case["bad"])
    feats = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"][case["at"]:case["at"] + 4]
    if case["feature"] is not None:
        feats.insert(case["at"], case["feature"])
    with tempfile.TemporaryDirectory(prefix="c24") as root:
        path = {k: os.path.join(root, k) for k in ("record", "seedmap", "rf")}
        if case["lost"] != "record":
            os.mkdir(path["record"])
        for k in ("seedmap", "rf"):
            if case["lost"] != k:
                open(path[k], "w").close()
        before = sorted(os.listdir(root))
        for kw in (dict(tmp_path=os.path.join(root, "t"), output_path=os.path.join(root, "o")), {}):
            try:
                o, e = PyClassifierHPC(info, path["record"], feature_outputs=feats, seedmap_path=path["seedmap"], rf_path=path["rf"], **kw), None
            except Exception as x:
                e = x
            if case["bad"]:
                require(isinstance(e, ValueError) and case["bad"][0] in str(e), "%s = %r: %r", *case["bad"], e)
            elif case["lost"]:
                require(isinstance(e, OSError) and path[case["lost"]] in str(e), "missing %s: %r", case["lost"], e)
            elif case["feature"] is not None:
                require(e is not None, "feature %r was accepted", case["feature"])
            else:
                require(e is None, "refused with %r", e)
                require(o.n_features == 7 * len(feats), "%d features for %s", o.n_features, feats)
        require(sorted(os.listdir(root)) == before, "%s was written", sorted(set(os.listdir(root)) - set(before)))
        if not case["bad"]:
            try:
                o, e = PyClassifier(info, feats), None
            except Exception as x:
                e = x
            require((e is None) == (case["feature"] is None), "features %s: %r", feats, e)
    return dict(nt=bool(case["bad"] or case["lost"] or case["feature"] is not None), labels=["out" if e else "in"])


TESTS = [Test("domain", strat, run, 900, 10000, "the value is judged: accepted inside, rejected by name outside"),
         Test("shapes", strat_shape, run_shape, 180, 3000, "an array was altered"),
         Test("breaks", strat_breaks, run_breaks, 90, 1000, "rejected, or reconstructed"),
         Test("tile", strat_tile, run_tile, 90, 1500, "the blocks do not cover the tile, or there are several"),
         Test("hpc", strat_hpc, run_hpc, 45, 600, "something is to be refused")]
