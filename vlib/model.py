"""ctypes access to the reference models in /verif/model (built into /verif/build)."""
import ctypes as C
import fcntl
import hashlib
import os
import subprocess

import numpy as np

from . import build as vb

_lib = {}


def build_lib(name):
    src = os.path.join(vb.ROOT, "model", name + ".cpp")
    d = os.path.join(vb.ROOT, "model")
    key = hashlib.sha256(b"".join(open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)))).hexdigest()[:16]
    os.makedirs(vb.BUILD, exist_ok=True)
    so = os.path.join(vb.BUILD, "%s-%s.so" % (name, key))
    with open(os.path.join(vb.BUILD, "lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            r = subprocess.run(["g++", "-O2", "-shared", "-fPIC", src, "-o", so + ".tmp", "-lgsl", "-lgslcblas", "-lm"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise vb.BuildError("model %s: %s" % (name, r.stdout.decode()[-3000:]))
            os.rename(so + ".tmp", so)
    return so


class Rec(C.Structure):
    _fields_ = [("t_start", C.c_int), ("t_end", C.c_int), ("t_break", C.c_int), ("num_obs", C.c_int),
                ("category", C.c_int), ("prob", C.c_int), ("coefs", C.c_double * 8 * 7), ("rmse", C.c_double * 7),
                ("mag", C.c_double * 7)]


REC = np.dtype([("t_start", "i4"), ("t_end", "i4"), ("t_break", "i4"), ("num_obs", "i4"), ("category", "i4"),
                ("prob", "i4"), ("coefs", "f8", (7, 8)), ("rmse", "f8", 7), ("mag", "f8", 7)])
assert REC.itemsize == C.sizeof(Rec)
MAXREC = 400


def lib(name="refcold"):
    if name not in _lib:
        _lib[name] = C.CDLL(build_lib(name))
    return _lib[name]


def _bands(bands):
    arrs = [np.ascontiguousarray(b, dtype=np.int64) for b in bands]
    ptr = (C.c_void_p * 7)(*[a.ctypes.data for a in arrs])
    return arrs, ptr


def p(a):
    return C.c_void_p(a.ctypes.data)


def ref_cold(dates, bands, qa, tcg=15.0863, conse=6, b_c2=False, gap=365.25, cm=None, jseed=0, jeps=0.0):
    """-> dict(rec, flags, nclear, cm, cmd, cmx);  cm = (n, start, interval)"""
    d = np.ascontiguousarray(dates, dtype=np.int64)
    q = np.ascontiguousarray(qa, dtype=np.int64)
    arrs, ptr = _bands(bands)
    out = np.zeros(MAXREC, REC)
    n_cm, st, iv = cm if cm else (0, 0, 1)
    v = np.full(max(n_cm, 1), -9999, np.int16)
    vd = np.full(max(n_cm, 1), -9999, np.int16)
    vx = np.full(max(n_cm, 1), -9999.0)
    fl, nc, nn = C.c_int(), C.c_int(), C.c_int()
    nd = np.zeros(4 * len(d) + 8 if n_cm else 1, np.int32)
    nv = np.zeros(len(nd))
    k = lib().ref_cold(C.c_int(len(d)), p(d), ptr, p(q), C.c_double(tcg), C.c_int(conse), C.c_int(int(b_c2)),
                       C.c_double(gap), C.c_int(n_cm), C.c_int(st), C.c_int(iv), p(v), p(vd), p(vx), p(nd), p(nv),
                       C.c_int(len(nd)), C.byref(nn),
                       C.c_uint64(jseed), C.c_double(jeps), p(out), C.c_int(MAXREC), C.byref(fl), C.byref(nc))
    return dict(rec=out[:k], flags=fl.value, nclear=nc.value, cm=v[:n_cm], cmd=vd[:n_cm], cmx=vx[:n_cm],
                notes=(nd[:nn.value], nv[:nn.value]))


def ref_obcold(dates, bands, qa, brk, conse=6, b_c2=False, jseed=0, jeps=0.0):
    d = np.ascontiguousarray(dates, dtype=np.int64)
    q = np.ascontiguousarray(qa, dtype=np.int64)
    bk = np.ascontiguousarray(brk, dtype=np.int64)
    arrs, ptr = _bands(bands)
    out = np.zeros(MAXREC, REC)
    fl, nc = C.c_int(), C.c_int()
    k = lib().ref_obcold(C.c_int(len(d)), p(d), ptr, p(q), p(bk), C.c_int(len(bk)), C.c_int(conse), C.c_int(int(b_c2)),
                         C.c_uint64(jseed), C.c_double(jeps), p(out), C.c_int(MAXREC), C.byref(fl), C.byref(nc))
    return dict(rec=out[:k], flags=fl.value, nclear=nc.value)


def ref_fit(t, y, df=4):
    t = np.ascontiguousarray(t, dtype=np.int32)
    y = np.ascontiguousarray(y, dtype=np.float64)
    c = np.zeros(8)
    rm = C.c_double()
    res = np.zeros(max(len(t), 1))
    lib().ref_fit(C.c_int(len(t)), p(t), p(y), C.c_int(df), p(c), C.byref(rm), p(res))
    return c, rm.value, res[:len(t)]


# ---------------------------------------------------------------- S-CCD
SREC = np.dtype([("t_start", "i4"), ("t_break", "i4"), ("num_obs", "i4"), ("coefs", "f8", (6, 6)), ("rmse", "f8", 6), ("mag", "f8", 6)],
                align=True)
SPIN = np.dtype([("t_break", "i4"), ("coefs", "f8", (6, 6)), ("obs", "i4", (6, 8)), ("date", "i4", 8), ("norm_cm", "f8", 8),
                 ("angle", "f8", 8)], align=True)
SMODEL = np.dtype([("t_start", "i4"), ("num_obs", "i4"), ("obs", "i4", (6, 8)), ("date", "i4", 8), ("conse_last", "i4"),
                   ("cov", "f8", (6, 36)), ("coefs", "f8", (6, 6)), ("H", "f8", 6), ("sum", "f8", 6), ("norm_cm", "f8"),
                   ("angle", "f8")], align=True)
SSTATE = np.dtype([("mode", "i4"), ("nrec", "i4"), ("nq", "i4"), ("npin", "i4"), ("has_model", "i4"), ("m", SMODEL),
                   ("qd", "i4", 240), ("q", "i4", (6, 240)), ("min_rmse", "i4", 6)], align=True)


def sccd_state(pack=None):
    """the reference state that a pack describes"""
    st = np.zeros(1, SSTATE)
    s = st[0]
    if pack is None:
        return st
    s["mode"], s["nrec"] = pack.nrt_mode, len(pack.rec_cg)
    s["min_rmse"] = pack.min_rmse
    if len(pack.nrt_model):
        m = pack.nrt_model[0]
        s["has_model"] = 1
        for a, z in (("t_start", "t_start_since1982"), ("num_obs", "num_obs"), ("obs", "obs"), ("date", "obs_date_since1982"),
                     ("conse_last", "conse_last"), ("cov", "covariance"), ("coefs", "nrt_coefs"), ("H", "H"), ("sum", "rmse_sum"),
                     ("norm_cm", "norm_cm"), ("angle", "cm_angle")):
            s["m"][a] = m[z]
    n = len(pack.nrt_queue)
    s["nq"] = n
    if n:
        s["qd"][:n] = pack.nrt_queue["clrx_since1982"]
        s["q"][:, :n] = pack.nrt_queue["clry"].T
    return st


def ref_sccd(pack, dates, bands, qa, tcg=15.0863, conse=6, b_c2=False, gate=9.236, pred=9.236, pinpoint=False, jseed=0, jeps=0.0):
    """one detection (pack None) or update -> dict(st, rec (records beyond those of the pack), pin, flags, err)"""
    d = np.ascontiguousarray(dates, dtype=np.int64)
    q = np.ascontiguousarray(qa, dtype=np.int64)
    arrs, ptr = _bands(bands)
    st = sccd_state(pack)
    n0 = int(st[0]["nrec"])
    rec, pin = np.zeros(MAXREC, SREC), np.zeros(MAXREC if pinpoint else 1, SPIN)
    fl = C.c_int()
    r = lib("refsccd").ref_sccd(C.c_int(len(d)), p(d), ptr, p(q), C.c_double(tcg), C.c_double(gate), C.c_double(pred), C.c_int(conse),
                                C.c_int(int(b_c2)), C.c_int(int(pinpoint)), C.c_uint64(jseed), C.c_double(jeps), p(st), p(rec), p(pin),
                                C.c_int(MAXREC), C.byref(fl))
    return dict(st=st[0], rec=rec[n0:int(st[0]["nrec"])], pin=pin[:int(st[0]["npin"])], flags=fl.value, err=r)


W32 = np.float32(2 * np.pi / 365.25)


def curve(coefs, t):
    """documented prediction of a coefficient row at ordinal dates t (double precision)"""
    t = np.asarray(t, dtype=np.float64)
    w = 2 * np.pi / 365.25
    c = np.zeros(8)
    c[:len(coefs)] = np.asarray(coefs, dtype=np.float64)[:8]
    return (c[0] + c[1] * t / 10000 + c[2] * np.cos(w * t) + c[3] * np.sin(w * t) + c[4] * np.cos(2 * w * t) +
            c[5] * np.sin(2 * w * t) + c[6] * np.cos(3 * w * t) + c[7] * np.sin(3 * w * t))
