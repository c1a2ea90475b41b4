"""Detection is a deterministic pure function: histories of calls, other processes, other memory, other layouts."""
import numpy as np

from vlib import gen
from vlib.prop import Test, Violation, require
from checks import calls, common as K
from checks.C10 import breaks, st_breaks

VARIANTS = ["pattern"]
NONDET_OK = True


def inputs(c):
    d, b, q = gen.series(c["s"])
    bk = breaks(c, d, K.usable_mask(d, b, q, c["p"]["c2"])) if c["kind"] == "obcold" else None
    return d, b, q, bk


def one(c, conv=None):
    d, b, q, bk = inputs(c)
    args = [d] + b + [q] + ([bk] if bk is not None else [])
    if conv:
        args = [conv(x) for x in args]
    before = [x.tobytes() for x in args]
    r = calls.call(c["kind"], args[0], args[1:8], args[8], c["p"], args[9] if bk is not None else None, c.get("cuts", ()))
    for i, x in enumerate(args):
        require(x.tobytes() == before[i], "%s modified its argument %d", c["kind"], i)
    return calls.digests(c["kind"], r)


def same(a, b, what):
    a, b = list(map(tuple, a)), list(map(tuple, b))
    if a != b:
        names = [x[0] for x, y in zip(a, b) if x != y] or ["number of results"]
        raise Violation("%s: results differ in %s" % (what, names[:8]))


LAYOUT = {
    "strided": lambda x: np.repeat(x, 3)[::3],
    "reversed": lambda x: np.ascontiguousarray(x[::-1])[::-1],
    "big": lambda x: x.astype(">i8"),
    "int32": lambda x: x.astype(np.int32),
    "column": lambda x: np.ascontiguousarray(np.stack([x, x + 1, x - 1], axis=1))[:, 0],
    "uint": lambda x: x.astype(np.uint32) if x.min() >= 0 else x.astype(np.int32),
    "readonly": lambda x: _ro(x),
    "unaligned": lambda x: _unaligned(x),
    "float": lambda x: x.astype(np.float64),
}


def _ro(x):
    y = x.copy()
    y.setflags(write=False)
    return y


def _unaligned(x):
    raw = np.zeros(x.nbytes + 1, np.uint8)
    y = raw[1:].view(x.dtype)
    y[:] = x
    return y


_peer = []


def run(case):
    cs = case["calls"]
    usable = [c for c in cs if len(gen.series(c["s"])[0]) > 1]
    if not usable:
        return dict(nt=False, labels=["empty"])
    first = [one(c) for c in usable]
    # the same calls in another order, interleaved
    order = np.random.RandomState(case["r"]).permutation(len(usable))
    for k in order:
        same(first[k], one(usable[k]), "repeating %s after other calls" % usable[k]["kind"])
    for k, c in enumerate(usable):
        lay = case["layout"][k % len(case["layout"])]
        same(first[k], one(c, LAYOUT[lay]), "%s with %s arrays" % (c["kind"], lay))
    if not _peer:
        from vlib.peer import Peer
        _peer.append(Peer())
    for k, c in enumerate(usable):
        try:
            other = _peer[0].ask(c)
        except RuntimeError:
            _peer.clear()
            raise
        same(first[k], other, "%s in another process with other memory contents" % c["kind"])
    return dict(nt=any(len(f) > 1 for f in first), labels=sorted(set(c["kind"] for c in usable)) + ["calls%d" % len(usable)])


def strat(tier):
    from hypothesis import strategies as st
    y = 8 if tier == "quick" else 16
    c = st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=y), p=gen.st_params(st),
        kind=st.sampled_from(["cold", "cm", "obcold", "sccd", "pinpoint", "upd"]),
        cuts=st.lists(st.integers(300, 999), max_size=6), bk=st_breaks(st)))
    return st.fixed_dictionaries(dict(calls=st.lists(c, min_size=1, max_size=4), r=st.integers(0, 999),
                                      layout=st.lists(st.sampled_from(sorted(LAYOUT)), min_size=4, max_size=4)))


def strat_sparse(tier):
    """few observations, extreme shares of snow and fill: the paths that skip most of the computation"""
    from hypothesis import strategies as st
    c = st.fixed_dictionaries(dict(
        s=gen.st_series(st, max_years=2).flatmap(lambda s: st.fixed_dictionaries(dict(
            cloud=st.sampled_from([0.0, 0.5, 0.9, 1.0]), snow=st.sampled_from([0.0, 0.5, 0.9, 1.0]),
            fill=st.sampled_from([0.0, 0.5, 1.0]), range=st.sampled_from([0.0, 0.2, 0.8]))).map(lambda o: dict(s, **o))),
        p=gen.st_params(st), kind=st.sampled_from(["cold", "cm", "obcold", "sccd", "pinpoint", "upd"]),
        cuts=st.lists(st.integers(1, 999), max_size=4), bk=st_breaks(st)))
    return st.fixed_dictionaries(dict(calls=st.lists(c, min_size=1, max_size=4), r=st.integers(0, 999),
                                      layout=st.lists(st.sampled_from(sorted(LAYOUT)), min_size=4, max_size=4)))


TESTS = [
    Test("history", strat, run, 200, 3000, "at least one call returned records or a state"),
    Test("history_sparse", strat_sparse, run, 300, 5000, "at least one call returned records or a state"),
]
ASSUMPTIONS = ["results are compared field by field (padding bytes of structured arrays are not part of the result)",
               "the other process runs a build whose automatic variables are poisoned, with MALLOC_PERTURB_ set"]
