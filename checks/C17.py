"""C17: block stacks and observation tables are read in date order with every value in place."""
import datetime
import os
import random
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import grid as G

SENSORS = ["LT4", "LT5", "LE7", "LC8", "LC9", "S30", "L30", "LND"]
JUNK = ["starting_last_dates.txt", "tmp_file.npy", "README", "block_x1_y1.hdr", "x_LC80290302013149.npy", ".hidden", "CM_x1_y1.npy", "index.csv"]


@st.composite
def st_stack(draw):
    g = draw(G.st_grid(3, 5))
    lo = draw(st.integers(723742, 738000))
    span = draw(st.sampled_from([3, 40, 400, 3000]))
    n = draw(st.integers(1, 14))
    days = draw(st.lists(st.integers(0, span), min_size=n, max_size=n))
    if draw(st.booleans()):          # year borders
        y = datetime.date.fromordinal(lo).year
        lo = datetime.date(y, 12, 31).toordinal() - span // 2
    files = [[draw(st.sampled_from(SENSORS)), draw(st.sampled_from(["029030", "022007", "001099"])), lo + k] for k in days]
    bounds = [draw(st.one_of(st.just(0), st.sampled_from([f[2] for f in files]), st.integers(lo - 5, lo + span + 5))) for _ in range(2)]
    return dict(g=g, files=files, bounds=bounds, nband=draw(st.sampled_from([8, 8, 7, 3])), order=draw(st.integers(0, 999)), junk=draw(st.lists(st.sampled_from(JUNK), max_size=4, unique=True)),
                bx=draw(st.integers(1, g["nbx"])), by=draw(st.integers(1, g["nby"])), flat=draw(st.booleans()), dt=draw(st.sampled_from(["int16", "int32"])), seed=draw(st.integers(0, 2**31)))


def name(f):
    d = datetime.date.fromordinal(f[2])
    return "%s%s%d%03d" % (f[0], f[1], d.year, d.timetuple().tm_yday)


class Shuffled:
    """os.listdir in a drawn order"""
    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.orig = os.listdir

        def f(*a):
            r = sorted(self.orig(*a))
            random.Random(self.seed).shuffle(r)
            return r
        os.listdir = f

    def __exit__(self, *a):
        os.listdir = self.orig


def run_stack(case, tile):
    g, nb = case["g"], case["nband"]
    px = g["bw"] * g["bh"]
    r = G.rng(case["seed"])
    with tempfile.TemporaryDirectory(prefix="c17") as d:
        folder = os.path.join(d, "block_x%d_y%d" % (case["bx"], case["by"]))
        os.makedirs(folder)
        data = {}
        for f in case["files"]:
            n = name(f) + ".npy"
            if n in data:
                continue
            v = r.integers(-9999, 16000, (g["bh"], g["bw"], nb)).astype(case["dt"])
            data[n] = (f[2], v.reshape(px, nb))
            np.save(os.path.join(folder, n), v.reshape(px, nb) if case["flat"] else v)
        for j in case["junk"]:
            with open(os.path.join(folder, j), "w") as h:
                h.write("723742\n")
        for x, y in ((case["bx"] + 1, case["by"]), (case["by"], case["bx"] + 7)):
            o = os.path.join(d, "block_x%d_y%d" % (x, y))
            os.makedirs(o, exist_ok=True)
            np.save(os.path.join(o, "LC80290302013149.npy"), r.integers(0, 9, (g["bh"], g["bw"], nb)))
        low, high = case["bounds"] if tile else (0, 0)
        want = sorted((o, n) for n, (o, _) in data.items() if (low <= 0 or o >= low) and (high <= 0 or o <= high))
        with Shuffled(case["order"]):
            if tile:
                from pycold.imagetool.tile_processing import get_stack_date
                info = G.info(g)
                stack, dates = get_stack_date(info, case["bx"], case["by"], d, low, high, nb)
                require(info == G.info(g), "get_stack_date changed the layout: %s", info)
            else:
                from pycold.utils import read_blockdata
                stack, dates = read_blockdata(folder, px, nb)
        what = "images %s, range %s" % (sorted(data), (low, high))
        if not want:
            require(stack is None and dates is None, "%s: no image in the range, got dates %s", what, dates)
            return dict(nt=False, labels=["empty"])
        require(stack is not None, "%s: nothing read, expected %d images", what, len(want))
        require([int(x) for x in dates] == [o for o, _ in want], "%s: dates %s, expected %s", what, list(dates), [o for o, _ in want])
        require(stack.shape == (px, nb, len(want)), "%s: stack of shape %s, expected %s", what, stack.shape, (px, nb, len(want)))
        rest = [n for _, n in want]
        for k, (o, _) in enumerate(want):
            # images of the same day may come in any order, each once
            hit = [n for n in rest if data[n][0] == o and np.array_equal(stack[:, :, k], data[n][1])]
            require(hit, "%s: image %d of day %d is none of that day's", what, k, o)
            rest.remove(hit[0])
    dup = len({o for o, _ in want}) < len(want)
    return dict(nt=len(want) > 2 and px > 1, labels=["dup" if dup else "single", "cut" if len(want) < len(data) else "all", "junk%d" % bool(case["junk"])])


@st.composite
def st_table(draw):
    n, m = draw(st.integers(2, 60)), draw(st.integers(2, 9))
    return dict(n=n, m=m, seed=draw(st.integers(0, 2**31)), start=draw(st.integers(700000, 740000)), span=draw(st.integers(0, 16000)), step=draw(st.sampled_from([1, 7, 16, 32, 60, 90, 365])))


def run_table(case):
    import pandas as pd
    from pycold import utils as u
    from pycold.imagetool.tile_processing import reading_start_dates_nmaps
    r = G.rng(case["seed"])
    a = r.integers(-32768, 750000, (case["n"], case["m"]))
    with tempfile.TemporaryDirectory(prefix="c17") as d:
        f = os.path.join(d, "obs.csv")
        u.save_obs2csv(f, pd.DataFrame(a))
        b = u.read_data(f)
        require(b.shape == a.T.shape and np.array_equal(b, a.T), "table of %s observations read back differently", a.shape)
        last = case["start"] + case["span"]
        with open(os.path.join(d, "starting_last_dates.txt"), "w") as h:
            h.write("%d\n%d\n" % (case["start"], last))
        s, n = reading_start_dates_nmaps(d, case["step"])
        require(s == case["start"], "first date %s, expected %d", s, case["start"])
        # the intervals cover every date of the dataset, with at most one to spare
        require(s + n * case["step"] > last and s + (n - 2) * case["step"] <= last, "%d intervals of %d days for dates %d to %d", n, case["step"], case["start"], last)
    return dict(nt=True, labels=[])


ASSUMPTIONS = ["image names carry year and day of year in characters 10-16, as the stacking step writes them", "images lie in the folder of their block"]
RULE = "three or more images of several pixels"
TESTS = [
    Test("block", lambda tier: st_stack(), lambda c: run_stack(c, False), 180, 1500, RULE),
    Test("tile", lambda tier: st_stack(), lambda c: run_stack(c, True), 240, 2000, RULE),
    Test("table", lambda tier: st_table(), run_table, 120, 600, "always"),
]
