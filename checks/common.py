"""Helpers shared by the check modules (runs inside the workers)."""
import hashlib
import zlib

import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Violation, require  # noqa: F401

LAUNCH = 723742
NO_RECORD = "no change records"
SWITCH = dict(is_partition=("--is_partition", "--continuous"), hpc=("--hpc", "--dhtc"), b_c2=("--b_c2", None))
ARD_DEFAULTS = dict(clear_threshold=0, single_path=True, rank=1, n_cores=1, is_partition=True, hpc=True, collection="ARD", id=0)
TILE_DEFAULTS = dict(n_cores=1, b_c2=False)
EXPORT_DEFAULTS = dict(method="COLD", year_lowbound=1982, year_uppbound=2020, coefs_bands="0, 1, 2, 3, 4, 5, 6")


def command(cmd, args, defaults, case):
    """run a workflow as its command line does; every second case leaves out what equals the documented default"""
    terse, argv = zlib.crc32(repr(case).encode()) % 2, []
    for k, v in args.items():
        if v is None or (terse and k in defaults and defaults[k] == v):
            continue
        if k in SWITCH:
            argv += [SWITCH[k][0 if v else 1]] if SWITCH[k][0 if v else 1] else []
        else:
            argv.append("--%s=%s" % (k, v))
    cmd.main(args=argv, prog_name="pycold", standalone_mode=False)




def run_cold(d, b, q, p, **kw):
    import pycold
    a = dict(t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"])
    a.update(kw)
    try:
        return pycold.cold_detect(d, *b, q, **a)
    except Exception as e:
        if NO_RECORD in str(e):
            return None
        raise


def usable_mask(d, b, q, c2):
    """first observation of each date that is clear/water and within the physical range"""
    ok = (b[0] > -200) & (b[0] < 10000)
    for k in range(1, 6):
        ok &= (b[k] > 0) & (b[k] < 10000)
    t = b[6]
    v = np.where((t == 0) | bool(c2), 0, t * 10 - 27320)
    ok &= (v > -9320) & (v < 7070) & (q < 2)
    idx = np.nonzero(ok)[0]
    first = np.ones(len(idx), bool)
    first[1:] = d[idx[1:]] != d[idx[:-1]]
    out = np.zeros(len(d), bool)
    out[idx[first]] = True
    return out


def keys(rec, prob="change_prob", num=True):
    return [(int(a["t_start"]), int(a["t_end"]), int(a["t_break"]), int(a["num_obs"]) if num else 0,
             int(a["category"]), int(a[prob])) for a in rec]


def value_diffs(impl, ref, what="", mag=True):
    """coefficients (as curves over the segment), RMSE and magnitudes; -> [(record, band, message)]"""
    out = []
    for n, (a, z) in enumerate(zip(impl, ref)):
        t = np.linspace(float(z["t_start"]), float(max(z["t_end"], z["t_start"] + 1)), 25)
        for k in range(7):
            ca, cz = np.asarray(a["coefs"][k], float), np.asarray(z["coefs"][k], float)
            if not np.isfinite(ca).all() or not np.isfinite(float(a["rmse"][k])) or not np.isfinite(float(a["magnitude"][k] if "magnitude" in a.dtype.names else a["mag"][k])):
                out.append((-1, -1, "%s record %d band %d: not finite: %s rmse %s" % (what, n, k, ca, a["rmse"][k])))
                continue
            rm = float(z["rmse"][k])
            am = float(a["magnitude"][k] if "magnitude" in a.dtype.names else a["mag"][k])
            e = np.abs(model.curve(ca, t) - model.curve(cz, t)).max()
            if e > 6 + 0.04 * rm:
                out.append((n, k, "%s record %d band %d: fitted curve differs by %.2f (rmse %.2f)\n got  %s\n want %s" % (
                    what, n, k, e, rm, ca.tolist(), cz.tolist())))
            elif abs(float(a["rmse"][k]) - rm) > 2 + 0.02 * rm:
                out.append((n, k, "%s record %d band %d: rmse %.3f, expected %.3f" % (what, n, k, a["rmse"][k], rm)))
            elif mag and abs(am - float(z["mag"][k])) > 6 + 0.04 * rm + 0.01 * abs(float(z["mag"][k])):
                out.append((n, k, "%s record %d band %d: magnitude %.3f, expected %.3f" % (what, n, k, am, z["mag"][k])))
    return out


def compare_values(impl, ref, what="", mag=True, skip=()):
    for n, k, msg in value_diffs(impl, ref, what, mag):
        if (n, k) not in skip:
            return msg
    return None


def settle(msg, got, ref, run_ref, diff, zero=lambda got, r: got):
    """a difference counts unless a reference whose decisions and stopping rules are jittered by <= 0.5 % gives exactly
    this, or it lies only in fits (record, band) which such a jitter changes by more than the tolerance itself
    (a few observations that determine slope and seasons badly).  run_ref(seed, size) -> reference result"""
    got_keys = keys([] if got is None else got)
    if ref["flags"] & 2:        # robust screening over less than a year: rank-deficient, does its rounding noise decide?
        for js in range(1, 65):
            alt = run_ref(js, 1e-12)
            if keys(alt["rec"], "prob") != keys(ref["rec"], "prob") or value_diffs(alt["rec"], ref["rec"]):
                raise Inconclusive("rank-deficient robust screening")
    same, unstable = [], set()
    for js, eps in JITTER:
        alt = run_ref(js, eps)
        if diff(got, alt) is None:
            raise Inconclusive("numerical tie")
        if keys(alt["rec"], "prob") == got_keys:
            same.append(alt)
            unstable |= {(n, k) for n, k, _ in value_diffs(alt["rec"], same[0]["rec"]) if n >= 0}
    if got is not None and keys(ref["rec"], "prob") == got_keys:
        same.insert(0, ref)
        for alt in same:
            unstable |= {(n, k) for n, k, _ in value_diffs(alt["rec"], ref["rec"]) if n >= 0}
    for alt in same:
        if unstable and got is not None and compare_values(zero(got, alt), alt["rec"], skip=unstable) is None:
            raise Inconclusive("ill-conditioned fit")
    raise Violation(msg)


def same_records(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def digest(*objs):
    h = hashlib.sha256()
    for o in objs:
        if o is None:
            h.update(b"None")
        else:
            o = np.ascontiguousarray(o)
            h.update(str(o.dtype).encode() + str(o.shape).encode() + o.tobytes())
    return h.hexdigest()


def cats(rec):
    return ["cat%d" % int(c) for c in sorted(set(int(x) for x in rec["category"]))]


# jitters (seed, relative size) tried before a difference from the reference counts: pycold fits in single precision,
# which on an ill-conditioned design moves a screening value by some tenths of a percent
JITTER = [(k + 1, [1e-5, 1e-4, 1e-3, 2e-3][k % 4]) for k in range(24)] + [(k + 1, [2e-3, 3e-3, 4e-3, 5e-3][k % 4]) for k in range(24, 96)]


def tie(d, b, q, p, target, n=96):
    """does a rule whose decisions are jittered by <= 0.5 % give exactly these record keys?"""
    for js, eps in JITTER[:n]:
        alt = model.ref_cold(d, b, q, p["tcg"], p["conse"], p["c2"], p["gap"], jseed=js, jeps=eps)
        if keys(alt["rec"], "prob") == target or alt["flags"] & 8:
            return True
    return False


def nclear(q):
    return int(((q == 0) | (q == 1)).sum())
