"""Uniform calls of the detection functions; results as lists of (name, value) for exact comparison."""
import hashlib

import numpy as np

FIELDS = ("position", "rec_cg", "min_rmse", "nrt_mode", "nrt_model", "nrt_queue")


def canon(x):
    """bytes that describe a value completely, padding excluded"""
    if isinstance(x, np.ndarray):
        h = [str(x.dtype), str(x.shape)]
        if x.dtype.names:
            parts = [np.ascontiguousarray(x[n]).tobytes() for n in x.dtype.names]
        else:
            parts = [np.ascontiguousarray(x).tobytes()]
        return "|".join(h).encode() + b"".join(parts)
    if isinstance(x, (tuple, list)):
        return b"(" + b",".join(canon(y) for y in x) + b")"
    return repr(x).encode()


def flat(kind, r):
    """-> list of (name, value)"""
    out = []
    if hasattr(r, "_fields") and "rec_cg" in r._fields:
        for n in r._fields:
            v = getattr(r, n)
            if isinstance(v, np.ndarray) and v.dtype.names:
                out += [("%s.%s" % (n, f), v[f]) for f in v.dtype.names] + [(n + ".len", len(v))]
            else:
                out.append((n, v))
    elif hasattr(r, "_fields"):
        for n in r._fields:
            v = getattr(r, n)
            if isinstance(v, np.ndarray) and v.dtype.names:
                out += [("%s.%s" % (n, f), v[f]) for f in v.dtype.names] + [(n + ".len", len(v))]
            else:
                out.append((n, v))
    elif isinstance(r, (tuple, list)):
        for i, x in enumerate(r):
            out += [("%d.%s" % (i, n), v) for n, v in flat(kind, x)]
    elif isinstance(r, np.ndarray) and r.dtype.names:
        out += [(f, r[f]) for f in r.dtype.names] + [("len", len(r))]
    else:
        out.append(("value", r))
    return out


def digests(kind, r):
    return [(n, hashlib.sha1(canon(v)).hexdigest()) for n, v in flat(kind, r)]


def call(kind, d, b, q, p, bk=None, cuts=()):
    """one detection; exceptions become values"""
    import pycold
    try:
        if kind == "cold":
            return pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"], pos=p.get("pos", 1))
        if kind == "cm":
            return pycold.cold_detect(d, *b, q, t_cg=p["tcg"], conse=p["conse"], b_c2=p["c2"], gap_days=p["gap"], b_output_cm=True,
                                      starting_date=max(0, int(d[0]) - 7), n_cm=(int(d[-1]) - int(d[0])) // 32 + 3, cm_output_interval=32)
        if kind == "obcold":
            return pycold.obcold_reconstruct(d, *b, q, bk, conse=p["conse"], b_c2=p["c2"])
        kw = dict(t_cg=p["tcg"], conse=min(p["conse"], 8), b_c2=p["c2"])
        if kind == "sccd":
            return pycold.sccd_detect(d, *b, q, pos=p.get("pos", 1), **kw)
        if kind == "pinpoint":
            return pycold.sccd_detect(d, *b, q, b_pinpoint=True, **kw)
        if kind == "upd":
            k = [0] + sorted(set(max(1, min(len(d), len(d) * c // 1000)) for c in cuts)) + [len(d)]
            out = None
            res = []
            for a, z in zip(k, k[1:]):
                if a == z:
                    continue
                if out is None:
                    out = pycold.sccd_detect(d[a:z], *[x[a:z] for x in b], q[a:z], **kw)
                else:
                    out = pycold.sccd_update(out, d[a:z], *[x[a:z] for x in b], q[a:z], **kw)
                res.append(out)
            return res
    except Exception as e:
        return "%s: %s" % (type(e).__name__, str(e)[:100])
    raise AssertionError(kind)
