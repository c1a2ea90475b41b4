"""Reference for the object-based step: smoothing, seeded region growing, patches, decision rule."""
from collections import deque

import numpy as np

NA = -9999
CHI90 = 9.236356899781123      # 90 % and 70 % quantiles of chi2 with 5 degrees of freedom
CHI70 = 6.0644299841548

# class -> (threshold, size slope); 255 / no map: default
RULE = {1: (11.07, 0.1), 2: (15.086, 0.05), 3: (15.086, 0.05), 4: (11.07, 0.1), 5: (15.086, 0.05), 6: (11.07, 0.1), 7: (15.086, 0.05), 8: (15.086, 0.05), 255: (11.07, 0)}


def smooth(v):
    """Gaussian (sigma 1, 9x9) mean over the valid pixels, edges repeated; nan stays nan"""
    ok = ~np.isnan(v)
    x = np.arange(-4, 5)
    k = np.exp(-0.5 * x ** 2)
    num, den = np.where(ok, v, 0.0), ok.astype(float)
    for ax in (0, 1):
        pad = [(4, 4) if a == ax else (0, 0) for a in (0, 1)]
        def run(a):
            p = np.pad(a, pad, mode="edge")
            return sum(k[j] * np.take(p, range(j, j + a.shape[ax]), axis=ax) for j in range(9))
        num, den = run(num), run(den)
    with np.errstate(invalid="ignore", divide="ignore"):
        return np.where(ok, num / den, np.nan)


def merge(cm, date, cm1, date1, prob, thr):
    """values of the previous interval where the current one has none"""
    cm, date = cm.astype(float), date.astype(np.int64)
    none = 0 if prob else NA
    if cm1 is not None:
        c1 = np.where(cm1 < thr, none, cm1.astype(float))
        cm = np.where(cm == none, c1, cm)
    if date1 is not None:
        date = np.where(date == NA, date1, date)
    return cm, date


def neighbours(i, j, n, m):
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            if (a or b) and 0 <= i + a < n and 0 <= j + b < m:
                yield i + a, j + b


def grow(s, date, peak, ratio, interval):
    """objects grown from the seeds in order of decreasing magnitude"""
    n, m = s.shape
    lab = np.zeros((n, m), int)
    f = np.where(np.isnan(s), -np.inf, s)
    seeds = [tuple(x) for x in np.argwhere(f > peak)]
    seeds.sort(key=lambda x: -f[x])
    cur = 0
    for i in seeds:
        if lab[i]:
            continue
        cur += 1
        tol, v, d = f[i] * ratio, f[i], date[i]
        lab[i] = cur
        q = deque([i])
        while q:
            for z in neighbours(*q.popleft(), n, m):
                if not lab[z] and abs(f[z] - v) <= tol and abs(date[z] - d) <= interval:
                    lab[z] = cur
                    q.append(z)
    return lab, len(seeds)


def components(mask):
    n, m = mask.shape
    lab = np.zeros((n, m), int)
    cur = 0
    for i in map(tuple, np.argwhere(mask)):
        if lab[i]:
            continue
        cur += 1
        lab[i] = cur
        q = deque([i])
        while q:
            for z in neighbours(*q.popleft(), n, m):
                if mask[z] and not lab[z]:
                    lab[z] = cur
                    q.append(z)
    return lab


def canon(lab):
    """labels renamed in order of first appearance; 0 stays 0"""
    out = np.zeros(lab.shape, int)
    names = {}
    for i, v in np.ndenumerate(lab):
        if v:
            out[i] = names.setdefault(int(v), len(names) + 1)
    return out


def decide(mean, size, cls, rule=RULE):
    """cls None: no map"""
    thr, slope = rule[255 if cls is None else cls]
    return mean * min(2.0, 0.95 + slope * np.log10(size)), thr
