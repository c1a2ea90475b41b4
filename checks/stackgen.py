"""Small tiles of image stacks: one date vector, a different history per pixel."""
import datetime
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from checks import grid as G

KINDS = ["plain", "plain", "break", "break", "break2", "cloudy", "sparse", "snow", "fill", "nothermal"]


@st.composite
def st_tile(draw, maxb=3, maxw=3, years=(2, 9), kinds=KINDS):
    g = draw(G.st_grid(maxb, maxw))
    return dict(g=g, seed=draw(st.integers(0, 2**31)), start=draw(st.integers(724000, 736000)), years=draw(st.integers(*years)), cadence=draw(st.sampled_from([8, 16, 16, 24])),
                kinds=draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=6)), dup=draw(st.booleans()), sensor=draw(st.sampled_from(["L", "LS"])), noise=draw(st.sampled_from([20, 60, 120])))


def dates_of(c):
    r = G.rng(c["seed"])
    d = np.arange(c["start"], c["start"] + int(c["years"] * 365.25), c["cadence"]) + 0
    d = d[r.random(len(d)) > 0.1]
    if c["dup"] and len(d) > 4:
        d = np.sort(np.concatenate([d, r.choice(d, 3)]))
    return d


def tile(c):
    """-> dates (n), data (rows, cols, 8, n) int16"""
    g = c["g"]
    d = dates_of(c)
    rows, cols = G.shape(g)
    out = np.zeros((rows, cols, 8, len(d)), np.int16)
    r = np.random.RandomState(c["seed"] % 2**31)
    for i in range(rows):
        for j in range(cols):
            k = c["kinds"][r.randint(len(c["kinds"]))]
            s = dict(seed=int(r.randint(2**31 - 1)), cover=sorted(gen.BASES)[r.randint(len(gen.BASES))], start=c["start"], years=c["years"], cadence="16", noise=c["noise"], amp=1.0, trend=0, harm=0.3,
                     dates=[int(x) for x in d], cloud=0.2)
            dirs = sorted(gen.DIRS)
            if k == "shared":           # the same change all over the tile
                q = np.random.RandomState(c["seed"] // 7 % 2**31)
                s["breaks"] = [[int(q.randint(300, 700)), dirs[q.randint(len(dirs))], float(q.uniform(1.2, 2.5))]]
            elif k == "break":
                s["breaks"] = [[int(r.randint(300, 700)), dirs[r.randint(len(dirs))], float(r.uniform(0.7, 2))]]
            elif k == "break2":
                s["breaks"] = [[int(r.randint(250, 400)), dirs[r.randint(len(dirs))], 1.0], [int(r.randint(550, 750)), dirs[r.randint(len(dirs))], 1.5]]
            elif k == "cloudy":
                s["cloud"] = 0.6
            elif k == "sparse":
                s["cloud"] = 0.95
            elif k == "snow":
                s["snow"] = 0.9
            elif k == "fill":
                s["fill"] = 1.0
            dd, b, q = gen.series(s)
            v = np.array(b)
            if k == "nothermal":
                v[6] = np.where(q == 255, v[6], 0)
            out[i, j, :7] = v
            out[i, j, 7] = q
    return d, out


def write(c, d, data, folder, empty=()):
    """block folders as the stacking step leaves them; -> {block id: file names}"""
    g = c["g"]
    names = []
    for k, o in enumerate(d):
        t = datetime.date.fromordinal(int(o))
        s = "S30" if c["sensor"] == "LS" and k % 3 == 2 else ("LC8", "LE7")[k % 2]
        dup = int(np.sum(d[:k] == o))
        names.append("%s0%02d030%d%03d%s.npy" % (s, 29 + dup, t.year, t.timetuple().tm_yday, "01"))
    for b, x, y, rs, cs in G.blocks(g):
        f = os.path.join(folder, "block_x%d_y%d" % (x, y))
        os.makedirs(f)
        if b in empty:
            continue
        for k, n in enumerate(names):
            np.save(os.path.join(f, n), data[rs, cs, :, k])
    with open(os.path.join(folder, "starting_last_dates.txt"), "w") as h:
        h.write("%d\n%d\n" % (d.min(), d.max()))
    order = sorted(range(len(d)), key=lambda k: (int(d[k]), names[k]))
    return order            # images in reading order
