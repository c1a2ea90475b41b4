"""Recovery of a known signal: the generating curve itself is the oracle."""
import numpy as np

from vlib import gen, model
from vlib.prop import Test, require
from checks import common as K

W = 2 * np.pi / 365.25


def build(c):
    """-> dates, bands (noisy), qa, truth list [(t0, t1, curve[7] as function)]"""
    r = np.random.RandomState(c["seed"])
    lens = c["lens"]
    start = c["start"]
    step = c["step"]
    d = []
    x = start
    end = start + int(sum(lens) * 365.25)
    while x < end:
        d.append(x)
        x += step if not c["jitter"] else r.randint(max(1, step - 4), step + 5)
    d = np.array(d, dtype=np.int64)
    t = d.astype(float)
    base, amp = (np.array(v, float) for v in gen.BASES[c["cover"]])
    ph = r.uniform(-3.1, 3.1, 7)
    edges = np.cumsum([0] + lens) * 365.25 + start
    truth = np.zeros((7, len(d)))
    off = np.zeros(7)
    jumps = []
    seg = np.minimum(np.searchsorted(edges, t, side="right") - 1, len(lens) - 1)
    for k in range(len(lens)):
        if k:
            # a clear step in at least one optical band, of either sign, within the physical range
            j = np.zeros(7)
            for b in range(7):
                lo, hi = (250, 1200) if b < 6 else (200, 600)
                cur = base[b] + off[b]
                s = 1 if cur < 2500 else -1
                if b == 6:
                    s = 1 if k % 2 else -1
                j[b] = s * r.uniform(lo, hi)
            off = off + j
            jumps.append(j)
        m = seg == k
        for b in range(7):
            A = amp[b] * c["amp"] * (0.6 if k else 1.0)
            f = base[b] + off[b] + A * np.cos(W * t + ph[b])
            if c["h2"]:
                f = f + 0.35 * A * np.sin(2 * W * t + ph[b])
            if c["h3"]:
                f = f + 0.2 * A * np.cos(3 * W * t - ph[b])
            f = f + c["trend"] * (0.3 if b == 6 else 1) * (t - edges[k]) / 365.25
            truth[b, m] = f[m]
    sd = np.full(7, float(c["noise"]))
    y = truth + (r.uniform(-1.732, 1.732, truth.shape) if c["bounded"] else np.clip(r.randn(*truth.shape), -2.6, 2.6)) * sd[:, None]
    bands = [np.rint(y[b]).astype(np.int64) for b in range(6)]
    # thermal arrives in 0.1 K; reported as 10*T - 27320
    bands.append(np.rint((y[6] - base[6]) / 10 + base[6]).astype(np.int64))
    truth[6] = 10 * ((truth[6] - base[6]) / 10 + base[6]) - 27320
    q = np.where(r.rand(len(d)) < c["cloud"], 4, 0).astype(np.int64)
    for b in range(6):
        bands[b][q == 4] += 3000
    return d, bands, q, truth, seg, sd


def run(case):
    d, b, q, truth, seg, sd = build(case)
    ok = (truth[:6].min() > 60 + 4 * sd[0]) and truth[:6].max() < 9300 and truth[6].min() > -8800 and truth[6].max() < 6500
    if not ok:
        return dict(nt=False, labels=["range"])
    p = dict(tcg=15.0863, conse=case["conse"], c2=case["c2"], gap=365.25)
    rec = K.run_cold(d, b, q, p)
    require(rec is not None, "no record for a regular, noise-bounded signal of %d clear observations", K.nclear(q))
    clear = q == 0
    used = 0
    # the LASSO shrinks every active term by about its penalty (20 units)
    nterm = (2 * (1 + case["h2"] + case["h3"]) if case["amp"] else 0) + (1 if case["trend"] else 0)
    bias = 12 + 24 * np.sqrt(nterm)
    for n, r in enumerate(rec):
        m = clear & (d >= r["t_start"]) & (d <= r["t_end"])
        segs = set(seg[m].tolist())
        if len(segs) != 1 or r["category"] % 10 != 8 or r["num_obs"] < 40 or r["t_end"] - r["t_start"] < 900 or \
                r["num_obs"] < 0.9 * m.sum():
            continue
        k = segs.pop()
        used += 1
        for band in range(7):
            pred = model.curve(np.asarray(r["coefs"][band], float), d[m])
            e = pred - truth[band][m]
            noise = sd[band]
            rms = float(np.sqrt((e ** 2).mean()))
            # LASSO shrinkage adds a bounded bias
            require(rms <= 0.6 * noise + 1.5 * bias, "segment %d band %d: curve is off the signal by %.1f rms (noise %.0f)\n coefs %s",
                    n, band, rms, noise, r["coefs"][band].tolist())
            require(0.5 * noise <= r["rmse"][band] <= np.hypot(1.4 * noise, 1.5 * bias) + 3, "segment %d band %d: rmse %.1f, noise %.0f", n, band,
                    r["rmse"][band], noise)
            if r["change_prob"] == 100 and k + 1 < case_segments(case):
                nxt = np.nonzero(clear & (d >= r["t_break"]))[0][:case["conse"]]
                if len(nxt) == case["conse"] and set(seg[nxt].tolist()) == {k + 1}:
                    # the step as seen by the true curve of the old segment
                    old = extrapolate(case, band, k, d[nxt])
                    if old is not None:
                        want = float(np.median(truth[band][nxt] - old))
                        require(abs(float(r["magnitude"][band]) - want) <= 1.8 * noise + 2.5 * bias + 0.05 * abs(want),
                                "segment %d band %d: magnitude %.1f, true step %.1f (noise %.0f)", n, band,
                                r["magnitude"][band], want, noise)
    nb = len(case["lens"]) - 1
    return dict(nt=used >= 1, labels=["segs%d" % used, "breaks%d" % nb, "noise%d" % case["noise"]])


def case_segments(c):
    return len(c["lens"])


def extrapolate(c, band, k, t):
    """true curve of segment k continued to dates t"""
    # same construction, but segment k is made to last to the end
    r = np.random.RandomState(c["seed"])
    lens = c["lens"]
    x, step = c["start"], c["step"]
    end = x + int(sum(lens) * 365.25)
    while x < end:      # consume the same random numbers
        x += step if not c["jitter"] else r.randint(max(1, step - 4), step + 5)
    base, amp = (np.array(v, float) for v in gen.BASES[c["cover"]])
    ph = r.uniform(-3.1, 3.1, 7)
    edges = np.cumsum([0] + lens) * 365.25 + c["start"]
    off = np.zeros(7)
    for i in range(1, k + 1):
        j = np.zeros(7)
        for b in range(7):
            lo, hi = (250, 1200) if b < 6 else (200, 600)
            s = 1 if base[b] + off[b] < 2500 else -1
            if b == 6:
                s = 1 if i % 2 else -1
            j[b] = s * r.uniform(lo, hi)
        off = off + j
    t = np.asarray(t, float)
    b = band
    A = amp[b] * c["amp"] * (0.6 if k else 1.0)
    f = base[b] + off[b] + A * np.cos(W * t + ph[b])
    if c["h2"]:
        f = f + 0.35 * A * np.sin(2 * W * t + ph[b])
    if c["h3"]:
        f = f + 0.2 * A * np.cos(3 * W * t - ph[b])
    f = f + c["trend"] * (0.3 if b == 6 else 1) * (t - edges[k]) / 365.25
    if b == 6:
        f = 10 * ((f - base[6]) / 10 + base[6]) - 27320
    return f


def strat(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 2**31 - 1), cover=st.sampled_from(["forest", "crop", "urban", "grass"]),
        start=st.integers(723800, 738000), step=st.sampled_from([16, 8, 8, 5, 12]), jitter=st.booleans(),
        lens=st.lists(st.sampled_from([3.0, 4.0, 5.5, 7.0]), min_size=1, max_size=3),
        amp=st.sampled_from([0.0, 0.3, 0.6, 1.0]), h2=st.booleans(), h3=st.booleans(),
        trend=st.sampled_from([0, 0, 15, -15, 30]), noise=st.sampled_from([30, 40, 60, 90]), bounded=st.booleans(),
        cloud=st.sampled_from([0.0, 0.2, 0.4]), conse=st.sampled_from([6, 6, 4, 8]), c2=st.booleans()))


def run_formula(case):
    """the package's own prediction helpers implement the documented formula"""
    from pycold import utils
    c = np.array(case["c"], float)
    n = case["n"]
    t = case["t"]
    w = 2 * np.pi / 365.25
    terms = [1.0, t / 10000.0, np.cos(w * t), np.sin(w * t), np.cos(2 * w * t), np.sin(2 * w * t), np.cos(3 * w * t),
             np.sin(3 * w * t)][:n]
    want = float(np.dot(terms, c[:n]))
    got = float(utils.predict_ref(c[:n], t, n))
    require(abs(got - want) <= 1e-6 * (1 + np.abs(c[:n]).sum()), "predict_ref(%s, %d, %d) = %r, formula gives %r", c[:n].tolist(),
            t, n, got, want)
    m = np.asarray(utils.coefficient_matrix(t, n))
    require(m.shape == (n,) and np.allclose(m, terms, atol=1e-9, rtol=1e-9), "coefficient_matrix(%d, %d) = %s", t, n, m.tolist())
    if n == 6:
        require(float(utils.predict_ref(c[:6], t)) == got, "default number of coefficients is not six")
    return dict(nt=bool(np.abs(c[2:]).max() > 0), labels=["n%d" % n])


def strat_formula(tier):
    from hypothesis import strategies as st
    return st.fixed_dictionaries(dict(
        c=st.lists(st.sampled_from([0.0, 0.0]) | st.floats(-20000, 20000, width=32), min_size=8, max_size=8),
        n=st.sampled_from([4, 6, 8]), t=st.integers(700000, 760000)))


TESTS = [
    Test("formula", strat_formula, run_formula, 500, 2500, "a seasonal coefficient is non-zero", shards=2),Test("signal", strat, run, 700, 8000,
              "at least one reported segment of >= 40 observations and >= 900 days lying in one stable period")
]
