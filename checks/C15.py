"""C15: pixel, block and tile coordinates, date names, index images."""
import datetime
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import grid as G


# ---------------------------------------------------------------- coordinates
def st_big():
    return st.fixed_dictionaries(dict(nbx=st.integers(1, 60), nby=st.integers(1, 60), bw=st.integers(1, 120), bh=st.integers(1, 120)))


@st.composite
def st_coords(draw):
    big = draw(st.booleans())
    g = draw(st_big() if big else G.st_grid(6, 7))
    n = g["nbx"] * g["nby"] * g["bw"] * g["bh"]
    c = dict(g=g, kind=draw(st.sampled_from(["int", "np32", "np64"])))
    if big:
        bands = st.sampled_from([0, 1, n - 1, g["nbx"] * g["bw"] - 1, g["nbx"] * g["bw"], g["nbx"] * g["bw"] * g["bh"],
                                 g["nbx"] * g["bw"] * g["bh"] - 1, g["bw"] - 1, g["bw"]]).map(lambda v: min(v, n - 1))
        c["pos"] = draw(st.lists(st.one_of(st.integers(0, n - 1), bands), min_size=20, max_size=60))
    return c


KINDS = {"int": int, "np32": np.int32, "np64": np.int64}


def run_coords(case):
    from pycold import utils as u
    g = case["g"]
    info = G.info(g)
    T = KINDS[case["kind"]]
    nbx, nby, bw, bh = g["nbx"], g["nby"], g["bw"], g["bh"]
    rows, cols = G.shape(g)
    require((info.nblocks, info.block_width, info.block_height) == (nbx * nby, bw, bh), "DatasetInfo of %s: %s", g, info)
    from pycold.common import DatasetInfo
    w = u.class_from_dict(DatasetInfo, dict(n_rows=rows, n_cols=cols, n_block_x=nbx, n_block_y=nby, resolution=30, nblocks=7, block_width=3))
    require(w == info, "layout read from a configuration with extra entries is %s, expected %s", w, info)
    for k, x, y, _, _ in G.blocks(g):
        r = (int(u.get_block_x(T(k), nbx)), int(u.get_block_y(T(k), nbx)))
        require(r == (x, y), "block %d of %s is at %s, expected %s", k, g, r, (x, y))
    todo = case.get("pos")
    whole = todo is None
    if whole:
        todo = range(rows * cols)
    seen = {}
    for p in todo:
        row, col = divmod(p, cols)
        by, rin = divmod(row, bh)
        bx, cin = divmod(col, bw)
        pos = T(p + 1)
        got_r = u.get_row_index(pos, cols, by + 1, bh)
        got_c = u.get_col_index(pos, cols, bx + 1, bw)
        require((got_r, got_c) == (rin, cin), "position %d of %s: row and column in block %s, expected %s", p + 1, g, (got_r, got_c), (rin, cin))
        i = u.get_id_inblock(pos, bw, bh, cols)
        require(i == rin * bw + cin, "position %d of %s: index in block %s, expected %d", p + 1, g, i, rin * bw + cin)
        back = u.get_rowcol_intile(i, bw, bh, bx + 1, by + 1)
        require(tuple(back) == (row + 1, col + 1), "index %d of block (%d,%d) of %s: row and column %s, expected %s",
                i, bx + 1, by + 1, g, back, (row + 1, col + 1))
        require(cols * (back[0] - 1) + back[1] == p + 1, "position %d of %s comes back as %d", p + 1, g, cols * (back[0] - 1) + back[1])
        for v in (got_r, got_c, i, back[0], back[1]):
            require(float(v) == int(v) and not isinstance(v, float), "coordinate %r is not an integer", v)
        seen.setdefault((bx, by), set()).add(int(i))
    if whole:
        require(len(seen) == nbx * nby and all(s == set(range(bw * bh)) for s in seen.values()), "blocks of %s are not filled exactly once", g)
    return dict(nt=G.nontrivial(g), labels=G.labels(g) + ["whole" if whole else "drawn"])


# ---------------------------------------------------------------- dates
@st.composite
def st_dates(draw):
    o = draw(st.one_of(st.integers(620000, 830000), st.sampled_from([730119, 730120, 730484, 730485, 723742, 729755, 727928])))
    return dict(o=o, n=draw(st.integers(1, 400)), step=draw(st.integers(1, 400)), first=draw(st.sampled_from(["o", "jan1", "dec31", "feb29"])))


def run_dates(case):
    from pycold import ob_analyst as ob, utils as u
    d = datetime.date.fromordinal(case["o"])
    if case["first"] == "jan1":
        d = d.replace(month=1, day=1)
    elif case["first"] == "dec31":
        d = d.replace(month=12, day=31)
    elif case["first"] == "feb29":
        d = datetime.date(d.year, 2, 28) + datetime.timedelta(1)
    o = d.toordinal()
    require(u.date2matordinal(d.year, d.month, d.day) == o, "date2matordinal(%s) = %s, expected %d", d, u.date2matordinal(d.year, d.month, d.day), o)
    b = u.matordinal2date(o)
    require((b.year, b.month, b.day) == (d.year, d.month, d.day), "matordinal2date(%d) = %s, expected %s", o, b, d)
    doy = "%03d" % (o - datetime.date(d.year, 1, 1).toordinal() + 1)
    require(u.get_doy(o) == doy, "get_doy(%d) = %r, expected %r", o, u.get_doy(o), doy)
    tail = "%d_%d%s" % (o, d.year, doy)
    for f, w in ((ob.cmname_fromdate, "CM_maps_"), (ob.cmdatename_fromdate, "CM_date_maps_"), (ob.obiaresname_fromdate, "obiaresult_")):
        require(f(o) == w + tail, "%s(%d) = %r, expected %r", f.__name__, o, f(o), w + tail)
    a = u.get_anchor_days(o, case["n"], case["step"])
    require(list(a) == [o + k * case["step"] for k in range(case["n"])], "get_anchor_days(%d, %d, %d) = %s", o, case["n"], case["step"], a)
    return dict(nt=True, labels=[case["first"]])


# ---------------------------------------------------------------- rasters
def st_raster():
    return st.fixed_dictionaries(dict(rows=st.integers(1, 40), cols=st.integers(1, 40), seed=st.integers(0, 2**31), ref=st.booleans(),
                                      ox=st.integers(-10**6, 10**6), oy=st.integers(-10**6, 10**6), px=st.sampled_from([30, 10, 0.5]), gtype=st.sampled_from(["Int16", "Byte", "Int32", "Float32"])))


def run_raster(case):
    from osgeo import gdal, osr
    from pycold import utils as u
    gdal.UseExceptions()
    r = G.rng(case["seed"])
    rows, cols = case["rows"], case["cols"]
    with tempfile.TemporaryDirectory(prefix="c15") as d:
        ref = os.path.join(d, "ref.tif")
        ds = gdal.GetDriverByName("GTiff").Create(ref, cols, rows, 1, gdal.GDT_Int16)
        ds.GetRasterBand(1).WriteArray(r.integers(0, 1000, (rows, cols)).astype(np.int16))
        geo = (case["ox"], case["px"], 0, case["oy"], 0, -case["px"])
        ds.SetGeoTransform(geo)
        s = osr.SpatialReference()
        s.ImportFromEPSG(32618)
        ds.SetProjection(s.ExportToWkt())
        wkt = ds.GetProjection()
        ds = None
        out = os.path.join(d, "index.tif")
        u.generate_rowcolimage(ref, out)
        ds = gdal.Open(out)
        a = ds.ReadAsArray()
        want = (np.arange(rows)[:, None] + 1) * 10000 + np.arange(cols)[None] + 1
        require(a.shape == (rows, cols), "index image of a %dx%d image has shape %s", rows, cols, a.shape)
        require(np.array_equal(a, want), "index image of a %dx%d image: %s", rows, cols, a)
        require(np.allclose(ds.GetGeoTransform(), geo) and ds.GetProjection() == wkt, "index image is georeferenced %s, expected %s", ds.GetGeoTransform(), geo)
        ds = None
        lim = {"Int16": (-32768, 32767, np.int16), "Byte": (0, 255, np.uint8), "Int32": (-2**31, 2**31 - 1, np.int32), "Float32": (-10**6, 10**6, np.float32)}[case["gtype"]]
        arr = r.integers(lim[0], lim[1], (rows, cols), endpoint=True).astype(lim[2])
        out = os.path.join(d, "band.tif")
        u.save_1band_fromrefimage(arr, out, ref if case["ref"] else None, getattr(gdal, "GDT_" + case["gtype"]))
        ds = gdal.Open(out)
        b = ds.ReadAsArray()
        require(b.shape == arr.shape and np.array_equal(b, arr), "saved %s image differs from the array", case["gtype"])
        require(b.dtype == arr.dtype, "saved image has type %s, expected %s", b.dtype, arr.dtype)
        if case["ref"]:
            require(np.allclose(ds.GetGeoTransform(), geo) and ds.GetProjection() == wkt, "saved image is georeferenced %s, expected %s", ds.GetGeoTransform(), geo)
        ds = None
    return dict(nt=rows != cols, labels=["nonsquare" if rows != cols else "square", case["gtype"]])


ASSUMPTIONS = ["block counts divide the rows and columns of the tile"]
TESTS = [
    Test("coords", lambda tier: st_coords(), run_coords, 240, 1500, "several blocks in a non-square grid or with non-square blocks"),
    Test("dates", lambda tier: st_dates(), run_dates, 300, 3000, "always"),
    Test("raster", lambda tier: st_raster(), run_raster, 80, 600, "image not square"),
]
