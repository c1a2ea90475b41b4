"""Change-magnitude outputs against the reference model and against their documented meaning."""
import numpy as np

from vlib import gen, model
from vlib.prop import Inconclusive, Test, Violation, require
from checks import common as K

NODATA = -9999


def prepare():
    model.build_lib("refcold")


def diff(cm, cmd, ref, start, iv):
    for k in range(len(cm)):
        a, z = int(cm[k]), int(ref["cm"][k])
        if (a == NODATA) != (z == NODATA):
            return "slot %d [%d, %d): magnitude %d, expected %d" % (k, start + k * iv, start + (k + 1) * iv, a, z)
        if a == NODATA:
            continue
        if abs(a - z) > 3 + 0.02 * abs(z):
            return "slot %d [%d, %d): magnitude %d, expected %d" % (k, start + k * iv, start + (k + 1) * iv, a, z)
        if int(cmd[k]) != int(ref["cmd"][k]):
            # another window of the interval may reach the same magnitude up to rounding
            nd, nv = ref["notes"]
            v = nv[nd == int(cmd[k]) + K.LAUNCH]
            if len(v) and min(v.max(), 32767) >= z - 3 - 0.02 * abs(z):
                continue
            return "slot %d [%d, %d): date %d, expected %d (magnitude %d, expected %d)" % (
                k, start + k * iv, start + (k + 1) * iv, int(cmd[k]) + K.LAUNCH, int(ref["cmd"][k]) + K.LAUNCH, a, z)
    return None


def run(case):
    d, b, q = gen.series(case["s"])
    p = case["p"]
    if len(d) == 0:
        return dict(nt=False, labels=["empty"])
    plain = K.run_cold(d, b, q, p)
    if plain is None:
        return dict(nt=False, labels=["none"])
    iv = case["iv"]
    start = int(d[0]) - case["lead"]
    n = (int(d[-1]) - start) // iv + 1 + case["tail"]
    out = K.run_cold(d, b, q, p, b_output_cm=True, starting_date=start, n_cm=n, cm_output_interval=iv)
    require(isinstance(out, (list, tuple)) and len(out) == 3, "expected three results, got %r", type(out))
    rec, cm, cmd = out
    require(K.same_records(rec, plain), "records differ with the change-magnitude output switched on:\n%s\n%s",
            K.keys(rec), K.keys(plain))
    cm, cmd = np.asarray(cm), np.asarray(cmd)
    require(cm.shape == (n,) and cmd.shape == (n,), "array lengths %s %s, requested %d", cm.shape, cmd.shape, n)
    require(np.array_equal(cm == NODATA, cmd == NODATA), "magnitude and date arrays disagree on no-data slots")
    u = set(int(x) for x in d[K.usable_mask(d, b, q, p["c2"])])
    for k in np.nonzero(cm != NODATA)[0]:
        dt = int(cmd[k]) + K.LAUNCH
        require(start + k * iv <= dt < start + (k + 1) * iv, "slot %d [%d, %d) holds date %d", k, start + k * iv,
                start + (k + 1) * iv, dt)
        require(int(cm[k]) >= 0, "slot %d holds magnitude %d", k, int(cm[k]))
        require(dt in u, "slot %d date %d is not that of a usable observation", k, dt)
    for r in rec:
        if r["change_prob"] == 100 and r["category"] < 10:
            k = (int(r["t_break"]) - start) // iv
            require(int(cm[k]) != NODATA and int(cm[k]) >= min(int(p["tcg"] * 100) - 1, 32767),
                    "slot %d of the confirmed break %d holds %d, under the change threshold", k, r["t_break"], cm[k])
    a = (d, b, q, p["tcg"], p["conse"], p["c2"], p["gap"], (n, start, iv))
    ref = model.ref_cold(*a)
    if ref["flags"] & 8:
        raise Inconclusive("zero scale in a band")
    msg = diff(cm, cmd, ref, start, iv)
    if msg:
        for js, eps in K.JITTER:
            alt = model.ref_cold(*a, jseed=js, jeps=eps)
            if diff(cm, cmd, alt, start, iv) is None:
                raise Inconclusive("numerical tie")
        raise Violation(msg)
    used = int((cm != NODATA).sum())
    return dict(nt=used >= 3, labels=["iv%d" % (0 if iv < 16 else 1 if iv < 100 else 2),
                                      "sat" if (cm == 32767).any() else "unsat", "nodata" if used < n else "full"])


def strat(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=14, starts=(723800, 736000)), p=gen.st_params(st),
        iv=st.sampled_from([32, 32, 60, 1, 8, 100, 365, 7]), lead=st.sampled_from([0, 0, 1, 31, 32, 40, 58]),
        tail=st.sampled_from([0, 0, 1, 20])))


TESTS = [Test("cm", strat, run, 700, 15000, "three or more slots hold a magnitude", minimise=gen.minimise_series("s"))]
