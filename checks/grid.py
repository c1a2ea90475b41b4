"""Tile layouts: drawn grids, and the row-major arithmetic every check compares with."""
import numpy as np
from hypothesis import strategies as st


def st_grid(maxb=4, maxw=5):
    """small grids, square or not, with blocks of any shape; now and then more than nine blocks in a row or column"""
    wide = st.tuples(st.integers(10, 12), st.integers(1, 2), st.integers(1, 2), st.integers(1, 2), st.booleans()).map(
        lambda t: dict(nbx=t[0] if t[4] else t[1], nby=t[1] if t[4] else t[0], bw=t[2], bh=t[3]))
    small = st_small(maxb, maxw)
    return st.one_of(small, small, small, small, small, small, wide)


def st_small(maxb=4, maxw=5):
    return st.fixed_dictionaries(dict(nbx=st.integers(1, maxb), nby=st.integers(1, maxb), bw=st.integers(1, maxw), bh=st.integers(1, maxw)))


def info(g):
    from pycold.common import DatasetInfo
    return DatasetInfo(n_rows=g["bh"] * g["nby"], n_cols=g["bw"] * g["nbx"], n_block_x=g["nbx"], n_block_y=g["nby"])


def shape(g):
    return g["bh"] * g["nby"], g["bw"] * g["nbx"]


def blocks(g):
    """(block id, block x, block y, row slice, column slice), ids row by row from 1"""
    k = 0
    for y in range(g["nby"]):
        for x in range(g["nbx"]):
            k += 1
            yield k, x + 1, y + 1, slice(y * g["bh"], (y + 1) * g["bh"]), slice(x * g["bw"], (x + 1) * g["bw"])


def labels(g):
    return ["square" if g["nbx"] == g["nby"] and g["bw"] == g["bh"] else "nonsquare",
            "1block" if g["nbx"] * g["nby"] == 1 else "blocks"]


def nontrivial(g):
    return g["nbx"] * g["nby"] > 1 and (g["nbx"] != g["nby"] or g["bw"] != g["bh"])


def rng(seed):
    return np.random.Generator(np.random.PCG64(seed))
