"""Comparison of S-CCD packs with the reference state (shared by C11, C12)."""
import numpy as np

from vlib import model
from checks import common as K

LAUNCH = 723742
MONITOR, QUEUE = (1, 11, 3), (2, 12, 4)


def run_ref(pack, d, b, q, p, pinpoint=False, jseed=0, jeps=0.0):
    return model.ref_sccd(pack, d, b, q, p["tcg"], p["conse"], p["c2"], p.get("gate", 9.236), p.get("pred", 9.236), pinpoint,
                          jseed, jeps)


def keys_pack(pack, n0=0):
    """the discrete content of a pack (records from n0 on)"""
    k = [int(pack.nrt_mode), len(pack.rec_cg)]
    k += [(int(r["t_start"]), int(r["t_break"]), int(r["num_obs"])) for r in pack.rec_cg[n0:]]
    k.append(tuple(int(x) for x in pack.min_rmse))
    if len(pack.nrt_model):
        m = pack.nrt_model[0]
        k.append(("model", int(m["t_start_since1982"]), int(m["num_obs"]), m["obs_date_since1982"].tolist(), m["obs"].tolist(),
                  int(m["conse_last"])))
    if len(pack.nrt_queue):
        k.append(("queue", pack.nrt_queue["clrx_since1982"].tolist(), pack.nrt_queue["clry"].tolist()))
    return k


def keys_ref(r):
    s = r["st"]
    k = [int(s["mode"]), int(s["nrec"])]
    k += [(int(x["t_start"]), int(x["t_break"]), int(x["num_obs"])) for x in r["rec"]]
    k.append(tuple(int(x) for x in s["min_rmse"]))
    mode = int(s["mode"])
    if mode in (1, 11, 3, 5):
        m = s["m"]
        k.append(("model", int(m["t_start"]), int(m["num_obs"]), m["date"].tolist(), m["obs"].tolist(), int(m["conse_last"])))
    if mode in (2, 12, 4, 5) and s["nq"]:
        n = int(s["nq"])
        k.append(("queue", s["qd"][:n].tolist(), s["q"][:, :n].T.tolist()))
    return k


def near(a, b, rel, ab):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not np.isfinite(a).all():
        return False
    return bool((np.abs(a - b) <= ab + rel * np.abs(b)).all())


def curves(a, b, t0, t1, tol):
    t = np.linspace(float(t0), float(max(t1, t0 + 1)), 25)
    for k in range(6):
        e = np.abs(model.curve(a[k], t) - model.curve(b[k], t)).max()
        if not e <= tol[k]:
            return "band %d: curve differs by %.2f (allowed %.2f)\n got  %s\n want %s" % (k, e, tol[k], np.asarray(a[k]).tolist(), np.asarray(b[k]).tolist())
    return None


def values(pack, r, n0=0):
    """continuous content; -> message or None"""
    s = r["st"]
    mr = np.asarray(s["min_rmse"], float)
    for n, (a, z) in enumerate(zip(pack.rec_cg[n0:], r["rec"])):
        tol = 8 + 0.06 * np.maximum(mr, z["rmse"])
        if n0 + n == 0 and z["num_obs"] < 18:       # few observations before the first model: the lasso stops early
            tol = 3 * tol + 0.05 * np.abs(z["coefs"][:, 1]) * (z["t_break"] - z["t_start"]) / 1e4
        e = curves(a["coefs"], z["coefs"], z["t_start"], z["t_break"], tol)
        if e:
            return "record %d %s" % (n0 + n, e)
        if not near(a["rmse"], z["rmse"], 0.02, 1.5):
            return "record %d: rmse %s, expected %s" % (n0 + n, a["rmse"].tolist(), z["rmse"].tolist())
        for k in range(6):
            if not near(a["magnitude"][k], z["mag"][k], 0.01, tol[k]):
                return "record %d: magnitude %s, expected %s" % (n0 + n, a["magnitude"].tolist(), z["mag"].tolist())
    if len(pack.nrt_model):
        m, z = pack.nrt_model[0], s["m"]
        tol = 8 + 0.06 * np.maximum(mr, np.sqrt(z["sum"] / max(1, int(z["num_obs"]))))
        last = int(max(z["date"])) + LAUNCH
        e = curves(m["nrt_coefs"], z["coefs"], last - 366, last, tol)
        if e:
            return "model " + e
        if not near(m["H"], z["H"], 0.03, 4):
            return "model H %s, expected %s" % (m["H"].tolist(), z["H"].tolist())
        if not near(m["rmse_sum"], z["sum"], 0.03, 20 + 2 * int(z["num_obs"])):
            return "model rmse_sum %s, expected %s" % (m["rmse_sum"].tolist(), z["sum"].tolist())
        for k in range(6):
            c, w = np.asarray(m["covariance"][k], float).reshape(6, 6), np.asarray(z["cov"][k]).reshape(6, 6)
            sd = np.sqrt(np.abs(np.diag(w)))
            lim = 0.05 * np.outer(sd, sd) + 1e-6
            if not (np.abs(c - w) <= lim).all():
                i, j = np.unravel_index(np.argmax(np.abs(c - w) / lim), (6, 6))
                return "model covariance band %d [%d,%d] %r, expected %r" % (k, i, j, c[i, j], w[i, j])
        if int(m["conse_last"]) == 0 and int(s["mode"]) != 5:
            if (int(m["norm_cm"]), int(m["cm_angle"])) != (-9999, -9999):
                return "no anomaly, but norm_cm %d cm_angle %d" % (m["norm_cm"], m["cm_angle"])
        else:
            if not near(m["norm_cm"], min(z["norm_cm"], 32767), 0.05, 15):
                return "model norm_cm %d, expected %.1f" % (m["norm_cm"], z["norm_cm"])
            if abs(float(m["cm_angle"]) - z["angle"]) > 200:
                return "model cm_angle %d, expected %.1f" % (m["cm_angle"], z["angle"])
    return None


def pins(got, r):
    """pinpoint records against those of the reference; -> message or None"""
    a, z = got.rec_cg_pinpoint, r["pin"]
    ka, kz = [int(x["t_break"]) for x in a], [int(x["t_break"]) for x in z]
    if ka != kz:
        return "pinpoints at %s, expected %s" % (ka, kz)
    for x, y in zip(a, z):
        if x["obs"].tolist() != y["obs"].tolist() or x["obs_date_since1982"].tolist() != y["date"].tolist():
            return "observations of the pinpoint at %d: %s %s, expected %s %s" % (
                x["t_break"], x["obs_date_since1982"].tolist(), x["obs"].tolist(), y["date"].tolist(), y["obs"].tolist())
        e = curves(x["coefs"], y["coefs"], int(x["t_break"]) - 366, int(x["t_break"]), 8 + 0.06 * np.asarray(r["st"]["min_rmse"], float))
        if e:
            return "pinpoint at %d %s" % (x["t_break"], e)
        if not near(x["norm_cm"], np.minimum(y["norm_cm"], 32767), 0.05, 15):
            return "norm_cm of the pinpoint at %d: %s, expected %s" % (x["t_break"], x["norm_cm"].tolist(), y["norm_cm"].tolist())
        if np.abs(x["cm_angle"] - y["angle"]).max() > 200:
            return "cm_angle of the pinpoint at %d: %s, expected %s" % (x["t_break"], x["cm_angle"].tolist(), y["angle"].tolist())
    return None


def check_step(before, got, d, b, q, p, what, pinpoint=None):
    """one detection or update against the reference; raises Violation / Inconclusive; -> reference result"""
    n0 = 0 if before is None else len(before.rec_cg)
    r = run_ref(before, d, b, q, p, pinpoint is not None)
    K.require(r["err"] == 0, "%s accepted a state that cannot serve conse %d", what, p["conse"])
    if r["flags"] & 2:
        raise K.Inconclusive("degenerate robust design")
    kg, kr = keys_pack(got, n0), keys_ref(r)
    msg = (kg != kr and "keys") or values(got, r, n0) or (pinpoint is not None and pins(pinpoint, r))
    if msg:
        if r["flags"] & 8:
            raise K.Inconclusive("zero variability")
        if tie(before, d, b, q, p, kg, got, n0, pinpoint):
            raise K.Inconclusive("tie")
        if kg != kr:
            for x, y in zip(kg + [None] * 9, kr + [None] * 9):
                if x != y:
                    break
            K.require(False, "%s: %r, expected %r (mode %d, expected %d; %d records, expected %d)", what, x, y, kg[0], kr[0], kg[1], kr[1])
        K.require(False, "%s: %s", what, msg)
    return r


class Fake:
    """the reference result in the shape of a pack"""
    def __init__(self, r, n0):
        self.rec_cg = [None] * n0 + [dict(coefs=x["coefs"], rmse=x["rmse"], magnitude=x["mag"]) for x in r["rec"]]
        m = r["st"]["m"]
        self.nrt_model = []
        if int(r["st"]["mode"]) in (1, 11, 3, 5):
            big = m["conse_last"] == 0 and int(r["st"]["mode"]) != 5
            self.nrt_model = [dict(nrt_coefs=m["coefs"], H=m["H"], rmse_sum=m["sum"], covariance=m["cov"], conse_last=m["conse_last"],
                                   norm_cm=-9999 if big else min(m["norm_cm"], 32767), cm_angle=-9999 if big else m["angle"])]
        self.rec_cg_pinpoint = [dict(t_break=x["t_break"], obs=x["obs"], obs_date_since1982=x["date"], coefs=x["coefs"],
                                     norm_cm=np.minimum(x["norm_cm"], 32767), cm_angle=x["angle"]) for x in r["pin"]]


def tie(before, d, b, q, p, target, got, n0, pinpoint=None, n=40):
    """does the outcome hang on decisions or roundings within 0.4 % / single precision?"""
    clean = run_ref(before, d, b, q, p, pinpoint is not None)
    for k in range(n):
        r = run_ref(before, d, b, q, p, pinpoint is not None, jseed=k + 1, jeps=[1e-4, 1e-3, 2e-3, 4e-3][k % 4])
        if r["flags"] & 8:
            return True
        if keys_ref(r) == target and not values(got, r, n0) and not (pinpoint is not None and pins(pinpoint, r)):
            return True
        if keys_ref(clean) == target and keys_ref(r) == target:
            f = Fake(r, n0)
            if values(f, clean, n0) or (pinpoint is not None and pins(f, clean)):
                return True         # ill-conditioned
    return False
