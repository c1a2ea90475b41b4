"""C12: online S-CCD update: every step follows the rule, records are only appended to, batching does not matter."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, require
from checks import C11 as D, common as K, hist as H, sccdcmp as S


def prepare():
    model.build_lib("refsccd")


def start(case, d, b, q, p):
    k = H.first_batch(d, case["at"])
    if k < 2 or d[k - 1] - d[0] < 365.25:
        return k, None
    return k, D.detect(*H.cut(d, b, q, 0, k), p)


def run_hist(case):
    import pycold
    d, b, q = gen.series(case["s"])
    p = dict(case["p"])
    if len(d) < 3:
        return dict(nt=False, labels=["empty"])
    k, pack = start(case, d, b, q, p)
    if pack is None:
        return dict(nt=False, labels=["short"])
    n, modes, nupd, labels = len(d), [int(pack.nrt_mode)], 0, set()
    for op, arg in case["ops"]:
        j, absorbs = k, False
        if op in ("new", "one"):
            j = min(n, k + (1 if op == "one" else max(1, n * arg // 1000)))
            if j == k:
                continue
            bd, bb, bq = H.cut(d, b, q, k, j)
            absorbs = True
        elif op == "stale":
            bd, bb, bq = H.cut(d, b, q, max(0, k - arg), k)
            keep = bd <= H.newest(pack)
            bd, bb, bq = bd[keep], [x[keep] for x in bb], bq[keep]
            if not len(bd):
                continue
            bb = [np.clip(x + 500, 1, 9999) if i < 6 else x for i, x in enumerate(bb)]
        elif op == "overlap":
            j = min(n, k + arg)
            bd, bb, bq = H.cut(d, b, q, max(0, k - arg), j)
            absorbs = True
        elif op == "cloud":
            bd, bb, bq = H.cut(d, b, q, k, min(n, k + arg))
            if not len(bd):
                continue
            bq[:] = np.where(bd % 3, 4, 2)
        elif op == "range":
            if pack.nrt_mode in (3, 4):
                continue
            bd, bb, bq = H.cut(d, b, q, k, min(n, k + arg))
            if not len(bd):
                continue
            if pack.nrt_mode == 0:
                bq[bq == 3] = 4
            bb[3][:] = np.where(bd % 2, 0, 10000)
        elif op == "empty":
            before = H.bytes_of(pack)
            try:
                H.update(pack, *H.cut(d, b, q, k, k), p)
                require(False, "an empty batch was accepted")
            except IndexError:
                pass
            require(H.bytes_of(pack) == before, "a refused empty batch changed the pack")
            continue
        elif op == "ident":
            pack = pycold.sccd_identify(pack, dist_conse=[6, 3, 1, 5][arg], t_cg_scale100=[1508.6, 500, 1, 900][arg])[0]
            modes.append(int(pack.nrt_mode))
            continue
        elif op == "longer":
            # more consecutive observations than the model keeps
            kept = int((np.asarray(pack.nrt_model[0]["obs_date_since1982"]) != 0).sum()) if len(pack.nrt_model) and pack.nrt_mode % 10 in (1, 3) else 8
            if kept < 8 and k < n:
                before = H.bytes_of(pack)
                try:
                    H.update(pack, *H.cut(d, b, q, k, min(n, k + arg)), dict(p, conse=kept + 1))
                    require(False, "conse %d was accepted for a model with %d observations", kept + 1, kept)
                except RuntimeError:
                    pass
                require(H.bytes_of(pack) == before, "a refused update changed the pack")
            continue
        elif op == "doubt":
            # the state sccd_identify leaves; the threshold falls among the distances of the last observations
            p.update(pred=[3.0, 4.0, 5.0, 6.5, 2.0, 9.236, 4.5, 8.0, 11.07, 13.0][arg])
            if pack.nrt_mode in (1, 2):
                pack = pack._replace(nrt_mode=int(pack.nrt_mode) + 10)
                modes.append(int(pack.nrt_mode))
            continue
        elif op == "param":
            p.update(tcg=[15.0863, 11.07, 9.236, 20.515, 15.0863, 35.0][arg % 6], gate=[9.236, 5.0][arg % 2])
            continue
        else:
            pack = H.restore(pack, op)
            continue
        before, given = H.bytes_of(pack), [x.copy() for x in [bd] + bb + [bq]]
        out = H.update(pack, bd, bb, bq, p)
        nupd += 1
        what = "update %d (%s, mode %d, %d obs)" % (nupd, op, pack.nrt_mode, len(bd))
        require(H.bytes_of(pack) == before, "%s changed the pack passed in", what)
        require(all(np.array_equal(x, y) for x, y in zip(given, [bd] + bb + [bq])), "%s changed its arrays", what)
        require(int(out.position) == p["pos"], "%s: position %r", what, out.position)
        H.appended(pack, out, what)
        if not absorbs and pack.nrt_mode != 0:
            f = H.same(pack, out)
            require(f is None, "%s brings nothing new, but %s changed", what, f)
        S.check_step(pack, out, bd, bb, bq, p, what)
        prev = [int(x["t_break"]) for x in out.rec_cg]
        require(prev == sorted(prev), "%s: breaks %s", what, prev)
        pack, k = out, j
        modes.append(int(out.nrt_mode))
    return dict(nt=nupd >= 2 and len(set(modes)) > 0 and modes[-1] != 0,
                labels=["to%d" % m for m in sorted(set(modes))] + ["moves"] * (len(set(modes)) > 1) + ["rec%d" % min(3, len(pack.rec_cg))])


def chain(case, d, b, q, p, pack, k, cuts):
    out = [pack]
    e = [k] + cuts + [len(d)]
    for i, j in zip(e, e[1:]):
        if j > i:
            out.append(H.update(out[-1], *H.cut(d, b, q, i, j), p))
    return out


def ref_chain(d, b, q, p, pack, k, cuts, js, eps):
    """keys of the state after the same updates with jittered decisions, computed from the packs of the implementation"""
    e = [k] + cuts + [len(d)]
    res, cur = [], pack
    for i, j in zip(e, e[1:]):
        if j > i:
            r = S.run_ref(cur, *H.cut(d, b, q, i, j), p, jseed=js, jeps=eps)
            res.append(S.keys_ref(r))
            cur = H.update(cur, *H.cut(d, b, q, i, j), p)
    return res


def run_split(case):
    """one update or any split of it: same state while the pixel stays in monitoring, same first confirmed break"""
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) < 3:
        return dict(nt=False, labels=["empty"])
    k, pack = start(case, d, b, q, p)
    if pack is None or k >= len(d):
        return dict(nt=False, labels=["short"])
    if pack.nrt_mode not in (1, 3):
        return dict(nt=False, labels=["mode%d" % pack.nrt_mode])
    cuts = sorted(set(k + (len(d) - k) * c // 1000 for c in case["cuts"]))
    n0 = len(pack.rec_cg)
    whole = chain(case, d, b, q, p, pack, k, [])
    split = chain(case, d, b, q, p, pack, k, cuts)
    msg = differ(whole, split, n0)
    if msg:
        for js in range(8):
            for cc, ch in (([], whole), (cuts, split)):
                keys = ref_chain(d, b, q, p, pack, k, cc, js + 1, [1e-5, 1e-4, 1e-3, 2e-3][js % 4])
                if keys != [S.keys_pack(x, len(y.rec_cg)) for x, y in zip(ch[1:], ch)]:
                    raise Inconclusive("tie")
        require(False, "%s (updates at %s)", msg, cuts)
    return dict(nt=len(split) > 2, labels=["mode%d" % whole[-1].nrt_mode, "new%d" % min(2, len(whole[-1].rec_cg) - n0)])


def differ(whole, split, n0):
    a, z = whole[-1], split[-1]
    na, nz = len(a.rec_cg), len(z.rec_cg)
    if (na > n0) != (nz > n0):
        return "%d new records in one update, %d in several" % (na - n0, nz - n0)
    if na > n0:
        x, y = a.rec_cg[n0], z.rec_cg[n0]
        kx, ky = [(int(v["t_start"]), int(v["t_break"]), int(v["num_obs"])) for v in (x, y)]
        if kx != ky:
            return "first new record (start, break, num_obs) %s in one update, %s in several" % (kx, ky)
        if not (S.near(x["rmse"], y["rmse"], 0.02, 1) and S.near(x["magnitude"], y["magnitude"], 0.02, 5)):
            return "first new record: rmse %s magnitude %s, in several updates %s %s" % (
                x["rmse"].tolist(), x["magnitude"].tolist(), y["rmse"].tolist(), y["magnitude"].tolist())
        e = S.curves(x["coefs"], y["coefs"], x["t_start"], x["t_break"], 8 + 0.06 * np.maximum(x["rmse"], 0))
        return e and "first new record: " + e
    if int(a.nrt_mode) != int(z.nrt_mode):
        return "mode %d in one update, %d in several" % (a.nrt_mode, z.nrt_mode)
    kx, ky = S.keys_pack(a), S.keys_pack(z)
    if kx != ky:
        return "state %s in one update, %s in several" % ([v for v, w in zip(kx, ky) if v != w], [w for v, w in zip(kx, ky) if v != w])
    if not len(a.nrt_model):
        return "mode %d after monitoring" % a.nrt_mode
    m, w = a.nrt_model[0], z.nrt_model[0]
    last = int(max(w["obs_date_since1982"])) + S.LAUNCH
    e = S.curves(m["nrt_coefs"], w["nrt_coefs"], last - 366, last, 8 + 0.06 * np.maximum(a.min_rmse, np.sqrt(w["rmse_sum"] / max(1, int(w["num_obs"])))))
    if e:
        return "model: " + e
    if not S.near(m["rmse_sum"], w["rmse_sum"], 0.02, 20 + int(w["num_obs"])) or not S.near(m["H"], w["H"], 1e-5, 0):
        return "rmse_sum %s in one update, %s in several; H %s %s" % (m["rmse_sum"].tolist(), w["rmse_sum"].tolist(), m["H"].tolist(), w["H"].tolist())
    if not S.near(m["norm_cm"], w["norm_cm"], 0.05, 15) or abs(int(m["cm_angle"]) - int(w["cm_angle"])) > 200:
        return "norm_cm %d angle %d in one update, %d %d in several" % (m["norm_cm"], m["cm_angle"], w["norm_cm"], w["cm_angle"])


def strat(tier, snow=False):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=H.st_hist(st, tier, snow), p=H.st_p(st), at=st.integers(50, 900), ops=H.st_ops(st)))


def strat_many(tier):
    """a pixel with many changes, followed over many updates"""
    from hypothesis import strategies as st
    op = (st.tuples(st.just("new"), st.integers(1, 60)) | st.tuples(st.sampled_from(["one", "pickle", "cloud"]), st.integers(1, 7))
          | st.tuples(st.just("doubt"), st.integers(0, 9)))
    return st.fixed_dictionaries(dict(s=gen.st_many(st, 40, 16), p=H.st_p(st), at=st.integers(50, 700), ops=st.lists(op.map(list), min_size=8, max_size=40)))


def strat_split(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(s=H.st_hist(st, tier), p=H.st_p(st), at=st.integers(200, 950),
                                      cuts=st.lists(st.integers(0, 1000), min_size=1, max_size=12) | st.just(list(range(0, 1000, 8)))))


TESTS = [Test("history", strat, run_hist, 700, 12000, "two or more updates that leave a model or a queue", minimise=gen.minimise_series("s")),
         Test("snow", lambda t: strat(t, True), run_hist, 210, 4000, "two or more updates", minimise=gen.minimise_series("s")),
         Test("many_changes", strat_many, run_hist, 35, 1500, "two or more updates that leave a model or a queue", minimise=gen.minimise_series("s")),
         Test("split", strat_split, run_split, 700, 12000, "a pixel in monitoring, and at least two updates", minimise=gen.minimise_series("s"))]
