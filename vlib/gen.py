"""Pixel time series generators.

A series case is a small JSON dict (drawn by Hypothesis); `series(case)` turns it into arrays,
deterministically.  Observations can be dropped by index (`drop`), which is what the minimiser uses.
"""
import numpy as np

W = 2 * np.pi / 365.25
BASES = {
    "forest": ([300, 500, 350, 3200, 1500, 600, 2930], [40, 80, 60, 900, 300, 120, 120]),
    "crop": ([600, 850, 800, 2600, 2300, 1400, 2960], [150, 200, 300, 1100, 500, 500, 150]),
    "urban": ([900, 1100, 1200, 2000, 2100, 1700, 2980], [60, 80, 90, 200, 180, 150, 150]),
    "water": ([400, 450, 300, 150, 90, 60, 2900], [30, 30, 25, 20, 12, 10, 90]),
    "grass": ([500, 700, 700, 2400, 2200, 1200, 2950], [80, 120, 200, 700, 500, 350, 160]),
}
DIRS = {
    "clear": [250, 350, 550, -1300, 900, 1000, 25],
    "fire": [100, 50, 150, -1500, 300, 900, 60],
    "green": [-150, -180, -350, 900, -500, -500, -20],
    "flood": [-100, -150, -200, -1500, -1200, -800, -20],
    "bright": [700, 800, 900, 900, 1000, 900, 30],
    "nir": [0, 0, 0, -900, 0, 0, 0],
}


def st_series(st, max_years=16, min_years=1, allow=("breaks", "gaps", "outliers", "cloud", "snow", "fill", "dup", "range"),
              max_breaks=5, starts=(723800, 738000)):
    """strategy of series cases"""
    def build(draw):
        years = draw(st.integers(min_years * 4, max_years * 4)) / 4.0
        c = dict(
            seed=draw(st.integers(0, 2**31 - 1)),
            cover=draw(st.sampled_from(sorted(BASES))),
            start=draw(st.integers(*starts)),
            years=years,
            cadence=draw(st.sampled_from(["16", "8", "8", "irr", "5", "16", "32", "3"])),
            noise=draw(st.sampled_from([15, 40, 40, 80, 80, 150, 300])),
            amp=draw(st.sampled_from([0.0, 0.5, 1.0, 1.0, 1.5])),
            trend=draw(st.sampled_from([0, 0, 0, 20, -30, 120, -150])),
            harm=draw(st.sampled_from([0.0, 0.0, 0.3, 0.7])),
        )
        if "breaks" in allow:
            c["breaks"] = draw(st.lists(st.tuples(
                st.integers(0, 1000), st.sampled_from(sorted(DIRS)), st.sampled_from([0.15, 0.3, 0.5, 0.8, 1.0, 1.3, 2.0])),
                max_size=max_breaks).map(lambda l: [list(x) for x in l]))
        if "gaps" in allow:
            c["gaps"] = draw(st.lists(st.tuples(st.integers(0, 1000), st.sampled_from([60, 120, 250, 400, 500, 800])),
                                      max_size=2).map(lambda l: [list(x) for x in l]))
        if "outliers" in allow:
            c["out"] = draw(st.sampled_from([0.0, 0.0, 0.02, 0.06, 0.15]))
        if "cloud" in allow:
            c["cloud"] = draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.8]))
        if "snow" in allow:
            c["snow"] = draw(st.sampled_from([0.0, 0.0, 0.0, 0.1, 0.3]))
        if "fill" in allow:
            c["fill"] = draw(st.sampled_from([0.0, 0.0, 0.05]))
        if "dup" in allow:
            c["dup"] = draw(st.sampled_from([0.0, 0.0, 0.05, 0.2]))
        if "range" in allow:
            c["range"] = draw(st.sampled_from([0.0, 0.0, 0.03, 0.1]))
        if draw(st.booleans()):
            # stretches of anomalies whose size is near the thresholds: [where, count, size in noise units, kind]
            c["alt"] = draw(st.lists(st.tuples(
                st.sampled_from([1000, 1000]) | st.integers(0, 1000), st.integers(1, 10),
                st.sampled_from([1.2, 1.5, 1.8, 2.1, 2.4, 2.7, 4.0, 8.0]), st.sampled_from(["same", "alt", "rand", "flat"])),
                min_size=1, max_size=3).map(lambda l: [list(x) for x in l]))
        if draw(st.sampled_from([False] * 5 + [True])):
            c["flat"] = draw(st.integers(1, 12))        # residuals alternate by a constant instead of being random
        return c
    return st.composite(build)()


def series(c):
    """-> (dates, bands[7], qa) int64"""
    r = np.random.RandomState(c["seed"])
    span = int(c["years"] * 365.25)
    if "dates" in c:
        d = np.asarray(c["dates"])
    elif c["cadence"] == "irr":
        d = np.cumsum(r.randint(1, 40, size=max(4, span // 20)))
        d = c["start"] + d[d < span]
    else:
        d = np.arange(c["start"], c["start"] + span, int(c["cadence"]))
    for at, ln in c.get("gaps", []):
        a = c["start"] + span * at // 1000
        d = d[(d < a) | (d >= a + ln)]
    n = len(d)
    base, amp = (np.array(x, float) for x in BASES[c["cover"]])
    ph = r.uniform(-0.6, 0.6, 7)
    y = np.zeros((7, n))
    t = d.astype(float)
    for b in range(7):
        y[b] = base[b] + amp[b] * c["amp"] * np.cos(W * t + 2.8 + ph[b])
        y[b] += amp[b] * c["amp"] * c["harm"] * np.cos(2 * W * t + ph[b])
        y[b] += amp[b] * c["amp"] * c["harm"] * 0.5 * np.sin(3 * W * t)
        y[b] += c["trend"] * (t - c["start"]) / 365.25 * (0.2 if b == 6 else 1) * (1 if b != 3 else -1)
    for at, dr, sc in c.get("breaks", []):
        a = c["start"] + span * at / 1000.0
        y += np.outer(np.array(DIRS[dr], float) * sc, (t >= a))
    sd = np.full(7, float(c["noise"]))
    sd[6] = min(c["noise"], 80) * 0.5
    y += r.randn(7, n) * sd[:, None]
    if c.get("flat"):
        q = np.random.RandomState(c["seed"] ^ 55)
        y = np.outer(base + q.randint(-20, 20, 7), np.ones(n))
        y += np.where(np.arange(n) % 2, c["flat"], -c["flat"])[None, :] * (1 + q.randint(0, 3, 7))[:, None]
        for at, dr, sc in c.get("breaks", []):
            y += np.rint(np.outer(np.array(DIRS[dr], float) * sc, t >= c["start"] + span * at / 1000.0))
    for at, cnt, size, kind in c.get("alt", []):
        q = np.random.RandomState((c["seed"] ^ (at * 131 + cnt)) % 2**31)
        i0 = max(0, min(n - cnt, n * at // 1000))
        sig = sd if not c.get("flat") else np.full(7, 12.0 * c["flat"])
        vec = q.choice([-1, 1], 7) * sig * size
        for j in range(i0, min(n, i0 + cnt)):
            y[:, j] += vec * (-1 if kind == "alt" and j % 2 else 1) if kind != "rand" else q.choice([-1, 1], 7) * sig * size
            if kind == "flat":
                y[:, j] = np.rint(base + vec * 3)
    o = r.rand(n) < c.get("out", 0)
    if o.any():
        k = o.sum()
        sign = np.where(r.rand(k) < 0.5, 1, -1)
        y[:6, o] += np.where(sign > 0, r.uniform(500, 4000, k), -r.uniform(100, 400, k))[None, :]
    qa = np.where(r.rand(n) < 0.1, 1, 0) if c["cover"] == "water" else np.zeros(n, int)
    u = r.rand(n)
    qa = np.where(u < c.get("cloud", 0), np.where(r.rand(n) < 0.7, 4, 2), qa)
    qa = np.where(r.rand(n) < c.get("snow", 0), 3, qa)
    qa = np.where(r.rand(n) < c.get("fill", 0), 255, qa)
    y[:6, (qa == 4)] += r.uniform(500, 5000, (qa == 4).sum())[None, :]
    y[:6, (qa == 3)] += r.uniform(2000, 6000, (qa == 3).sum())[None, :]
    y = np.rint(y)
    if not c.get("raw"):
        y[:6] = np.where(y[:6] < 1, 1 + np.abs(y[:6]) % 37, np.where(y[:6] > 9999, 9999 - np.abs(y[:6]) % 37, y[:6]))
        y[6] = np.clip(y[6], 1850, 3400)
    y[:, qa == 255] = -9999
    m = r.rand(n) < c.get("range", 0)
    if m.any():
        idx = np.nonzero(m)[0]
        for i in idx:
            b = r.randint(0, 7)
            pool = [[-200, 10000, -9999, 20000, -199, 9999], [0, 10000, -5, 1, 9999], [0, 10001, -9999, 1, 9999],
                    [0, 10000, 1, 9999], [0, 12000, 10000, 1, 9999], [0, 16000, 10000, 1, 9999],
                    [1799, 3440, 1000, 5000, 1800, 1801, 3438, 3439]][b]
            y[b, i] = pool[r.randint(0, len(pool))]
    dd, yy, qq = d.astype(np.int64), y.astype(np.int64), qa.astype(np.int64)
    if c.get("dup"):
        k = np.repeat(np.arange(n), 1 + (r.rand(n) < c["dup"]))
        fresh = np.zeros(len(k), bool)
        fresh[1:] = k[1:] == k[:-1]
        dd, qq = dd[k], qq[k]
        yy = yy[:, k].copy()
        yy[:6, fresh] += r.randint(-300, 300, (6, fresh.sum()))
        if not c.get("raw"):
            yy[:6, fresh] = np.clip(yy[:6, fresh], 1, 9999)
        qq = qq.copy()
        flip = fresh & (r.rand(len(k)) < 0.3)
        qq[flip] = 4
    if c.get("drop"):
        keep = np.ones(len(dd), bool)
        keep[[i for i in c["drop"] if i < len(dd)]] = False
        dd, yy, qq = dd[keep], yy[:, keep], qq[keep]
    if "mod" in c:      # replay files may carry literal values
        for i, b, v in c["mod"]:
            if b == 7:
                qq[i] = v
            else:
                yy[b, i] = v
    return dd, [np.ascontiguousarray(v) for v in yy], qq


def st_params(st):
    return st.fixed_dictionaries(dict(
        tcg=st_tcg(st),
        conse=st.sampled_from([6, 6, 6, 3, 4, 5, 8, 2, 1, 11, 7, 9, 10]),
        c2=st.booleans(),
        gap=st.sampled_from([365.25, 365.25, 365.25, 1500, 100, 200]) | st.integers(30, 1500)))


def st_tcg(st):
    return st.sampled_from([15.0863, 15.0863, 15.0863, 11.07, 9.236, 20.515, 25.7448, 35.0]) | st.floats(6, 45).map(lambda x: round(x, 2))


def st_many(st, max_years, min_years=12):
    """series of many well separated changes, so many records"""
    def build(draw):
        s = draw(st_series(st, max_years=max_years, min_years=min_years, allow=("outliers",), starts=(723800, 730000)))
        s.pop("alt", None)
        s.pop("flat", None)
        s.update(cadence=draw(st.sampled_from(["8", "5", "16", "8"])), noise=draw(st.sampled_from([15, 40])), trend=0, harm=0.0)
        step = int(1000 * draw(st.sampled_from([1.6, 2.0, 2.5])) / s["years"])
        kinds = draw(st.lists(st.sampled_from(["clear", "fire", "flood", "nir"]), min_size=1, max_size=4))
        s["breaks"] = []
        for n, at in enumerate(range(step, 1000, step)):        # there and back again, so values stay in range
            k = kinds[(n // 2) % len(kinds)]
            s["breaks"].append([at, k, (1.0 if n % 2 == 0 else -1.0)])
        return s
    return st.composite(build)()


def minimise_series(key="s"):
    """delta debugging over observations of case[key]"""
    import time

    def go(case, fails, deadline):
        def n_obs(c):
            s = dict(c[key])
            s.pop("drop", None)
            return len(series(s)[0])
        n = n_obs(case)
        drop = set(case[key].get("drop", []))
        chunk = max(1, n // 4)

        def with_drop(dr):
            c = dict(case)
            c[key] = dict(case[key], drop=sorted(dr))
            return c
        while chunk >= 1 and time.time() < deadline:
            i = 0
            while i < n and time.time() < deadline:
                cand = drop | set(range(i, min(n, i + chunk)))
                if cand != drop and fails(with_drop(cand)):
                    drop = cand
                i += chunk
            if chunk == 1:
                break
            chunk = max(1, chunk // 4)
        return with_drop(drop)
    return go
