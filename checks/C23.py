"""C23: stacking puts every pixel's bands and QA class where detection looks for them."""
import contextlib
import datetime
import io
import json
import logging
import os
import tarfile
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from vlib import coop
from vlib.prop import Test, Violation, require
from checks import C22, common as K, grid as G

CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL = 0, 1, 2, 3, 4, 255
# bit -> class in ascending precedence
BITS = {"HLS": [(5, WATER), (4, SNOW), (3, SHADOW), (2, CLOUD), (1, CLOUD)],
        "ARD": [(1, CLEAR), (2, WATER), (4, SNOW), (3, SHADOW), (5, CLOUD)],
        "C2": [(6, CLEAR), (7, WATER), (5, SNOW), (4, SHADOW), (3, CLOUD), (1, CLOUD)]}
WORDS = {"HLS": {CLEAR: [0, 64, 128, 192], WATER: [32, 96, 224], SNOW: [16, 48, 80], SHADOW: [8, 40, 24], CLOUD: [2, 4, 6, 10, 194], FILL: [255]},
         "ARD": {CLEAR: [322, 386, 834, 66], WATER: [324, 388, 68], SNOW: [336, 400, 80], SHADOW: [328, 392, 72, 88], CLOUD: [352, 480, 992, 96], FILL: [1]},
         "C2": {CLEAR: [21824, 30048 & ~32, 54596 & ~12, 5440], WATER: [21952, 5504], SNOW: [30048, 13664], SHADOW: [23888, 23952, 7440], CLOUD: [22280, 24088, 55052, 21826, 21890, 5896], FILL: [1]}}


def qa_class(kind, w):
    """the class of a QA word: the bit of highest precedence"""
    w = int(w)
    if kind == "HLS":
        if w == 255:
            return FILL
        k = CLEAR
    else:
        k = FILL
    for bit, cls in BITS[kind]:
        if w >> bit & 1:
            k = cls
    return k


def run_qa(case):
    import pycold.imagetool.prepare_ard as P
    f = {"HLS": P.qabitval_array_HLS, "ARD": P.qabitval_array, "C2": P.qabitval_array_c2}[case["kind"]]
    words = np.arange(256 if case["kind"] == "HLS" else 65536)
    if case["kind"] != "HLS":
        words = words[(words & 1 == 0) | (words == 1)]          # fill never comes with another flag
    r = G.rng(case["seed"])
    words = r.permutation(words)
    n = int(r.integers(1, 9))
    words = words[:len(words) // n * n].reshape(n, -1).astype(np.uint8 if case["kind"] == "HLS" else np.uint16)
    keep = words.copy()
    got = np.asarray(f(words))
    require(np.array_equal(words, keep), "the QA words were modified")
    require(got.shape == words.shape, "shape %s for %s", got.shape, words.shape)
    memo = {int(w): qa_class(case["kind"], w) for w in np.unique(words)}
    want = np.vectorize(memo.get)(words)
    bad = np.argwhere(got != want)
    require(len(bad) == 0, "%s QA word %s is unpacked to %s, documented flags say %s", case["kind"], *((lambda p: (words[p], got[p], want[p]))(tuple(bad[0])) if len(bad) else (0, 0, 0)))
    return dict(nt=len(set(memo.values())) == 6, labels=[case["kind"], "rows%d" % min(n, 2)])


def write_tif(f, a, typ, geo=None, srs=None):
    from osgeo import gdal
    d = gdal.GetDriverByName("GTiff").Create(f, a.shape[1], a.shape[0], 1, typ)
    if geo:
        d.SetGeoTransform(geo)
    if srs:
        d.SetProjection(srs)
    d.GetRasterBand(1).WriteArray(a)
    d = None


XML = ("noxml", "oddxml", "nopath", "tornxml")
ALBERS = "+proj=aea +lat_0=23 +lon_0=-96 +lat_1=29.5 +lat_2=45.5 +x_0=0 +y_0=0 +datum=WGS84 +units=m +no_defs"


def wkt(proj):
    from osgeo import osr
    s = osr.SpatialReference()
    s.ImportFromProj4(proj)
    return s


def tile_paths(geo, rows, cols):
    """per pixel the WRS path the shipped map assigns to it, or -1 where the map changes within reach"""
    import pycold.imagetool
    from osgeo import gdal, osr
    ds = gdal.Open(os.path.join(os.path.dirname(pycold.imagetool.__file__), "singlepath_landsat_conus.tif"))
    gt, a = ds.GetGeoTransform(), ds.ReadAsArray()
    src, dst = wkt(ALBERS), osr.SpatialReference()
    dst.ImportFromWkt(ds.GetProjection())
    for s in (src, dst):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    t = osr.CoordinateTransformation(src, dst)
    out = np.full((rows, cols), -1)
    for i in range(rows):
        for j in range(cols):
            x, y, _ = t.TransformPoint(geo[0] + (j + 0.5) * geo[1], geo[3] + (i + 0.5) * geo[5])
            near = {int(a[int((y + dy - gt[3]) / gt[5]), int((x + dx - gt[0]) / gt[1])]) for dx in (-0.002, 0, 0.002) for dy in (-0.002, 0, 0.002)}
            if len(near) == 1:
                out[i, j] = near.pop()
    return out


def st_scene():
    return st.fixed_dictionaries(dict(day=st.integers(0, 40), sensor=st.integers(0, 4), seed=st.integers(0, 2**31), qa=st.sampled_from(["mixed", "mixed", "sparse", "sparse", "blocky", "blocky", "bad", "fill", "clear", "words"]),
                                      damage=st.sampled_from([None] * 20 + ["noband", "tornband", "archive", "noqa", "nobt", "noxml", "oddxml", "nopath", "tornxml"])))


@st.composite
def st_prep(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(1, 4))
    scenes = draw(st.lists(st_scene(), min_size=n, max_size=n, unique_by=lambda s: (s["sensor"] if not kind.startswith("HLS") else s["sensor"] % 2, s["day"])))
    nc = draw(st.one_of(st.just(1), st.integers(2, 3), st.integers(1, 6)))
    cont = draw(st.sampled_from([False, False, True]))
    edge = [s["day"] for s in scenes]
    return dict(kind=kind, g=draw(G.st_grid(3, 5)), scenes=scenes, base=draw(st.sampled_from([723900, 730119 - 20, 733000, 736330, 737850])), n_cores=nc, order=draw(st.permutations(list(range(1, nc + 1)))),
                choices=draw(st.lists(st.integers(0, 5), max_size=12)), threshold=draw(st.sampled_from([0, 0, 0.1, 0.3, 0.5, 0.8])), low=draw(st.sampled_from([None, None, 0, 1, 10, 20]) | st.sampled_from([None] + edge)), upp=draw(st.sampled_from([None, None, 0, 20, 30, 39]) | st.sampled_from([None] + edge)),
                kill=draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries(dict(rank=st.integers(1, nc), n=st.integers(0, 6), torn=st.booleans())))), stale=draw(st.sampled_from([False, False, True])),
                continuous=cont, single=draw(st.booleans()), x=draw(st.integers(-2000, 2000)), y=draw(st.integers(0, 2400)), off=[draw(st.integers(-3, 3)) for _ in range(4)], shape=draw(st.sampled_from(["box", "L", "multi"])))


def name_of(kind, s, day):
    d = datetime.date.fromordinal(day)
    ymd, doy = d.strftime("%Y%m%d"), d.strftime("%Y%j")
    if kind.startswith("HLS"):
        sensor = ["L30", "S30"][s["sensor"] % 2]
        return "HLS.%s.T17TLL.%sT160%03d.v2.0" % (sensor, doy, s["seed"] % 1000) if kind == "HLS" else "HLS.%s.T17TLL.%s.v1.4" % (sensor, doy), sensor + "T17TLL" + doy
    n = [4, 5, 7, 8, 9][s["sensor"]]
    out = ["LT4", "LT5", "LE7", "LC8", "LC9"][s["sensor"]]
    pre = ["LT04", "LT05", "LE07", "LC08", "LC09"][s["sensor"]]
    if kind == "ARD":
        return "%s_CU_029005_%s_20210502_C01_V01_SR" % (pre, ymd), out + "029005" + doy
    if kind == "ARD-C2":
        return "%s_CU_029005_%s_20210502_02_SR" % (pre, ymd), out + "029005" + doy
    return "%s_L2SP_016041_%s_20200909_02_T1" % (pre, ymd), out + "016041" + doy


def make_qa(kind, how, r, g, rows, cols):
    """a QA image of documented words, and its classes"""
    fam = "HLS" if kind.startswith("HLS") else "ARD" if kind == "ARD" else "C2"
    k = np.empty((rows, cols), int)
    mix = {"mixed": [CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL], "sparse": [CLOUD] * 12 + [SHADOW] * 4 + [FILL] * 4 + [CLEAR, WATER, SNOW], "bad": [CLOUD, SHADOW, FILL], "fill": [FILL], "clear": [CLEAR] * 6 + [WATER, CLOUD], "words": [CLEAR]}
    if how == "blocky":
        for _, x, y, rs, cs in G.blocks(g):
            m = mix[["mixed", "bad", "fill", "sparse", "clear"][r.integers(5)]]
            k[rs, cs] = np.array(m)[r.integers(0, len(m), (g["bh"], g["bw"]))]
    else:
        m = mix[how]
        k[:] = np.array(m)[r.integers(0, len(m), (rows, cols))]
    w = np.empty((rows, cols), np.int64)
    for i in range(rows):
        for j in range(cols):
            if how == "words":
                w[i, j] = r.integers(0, 256 if fam == "HLS" else 32768) & (~0 if fam == "HLS" else ~1)
            else:
                c = WORDS[fam][int(k[i, j])]
                w[i, j] = c[r.integers(len(c))]
    return w, np.vectorize(lambda x: qa_class(fam, x))(w)


def write_scene(case, s, folder, src, tmp, geo, srs, window, out):
    """-> expected (float bands, QA classes, exactness), or None for a scene that cannot be read"""
    from osgeo import gdal
    kind, g = case["kind"], case["g"]
    rows, cols = G.shape(g)
    r = G.rng(s["seed"])
    top, bottom, left, right = window                     # scene extent around the tile
    R, C = rows + top + bottom, cols + left + right
    if kind == "C2":
        w = np.ones((R, C), np.int64)
        inner, _ = make_qa(kind, s["qa"], r, g, rows, cols)
        w[:] = r.choice([21824, 21952, 22280, 1], (R, C))
        a, b = max(top, 0), max(left, 0)
        sub = inner[max(-top, 0):rows - max(-bottom, 0), max(-left, 0):cols - max(-right, 0)]
        w[a:a + sub.shape[0], b:b + sub.shape[1]] = sub
    else:
        w, _ = make_qa(kind, s["qa"], r, g, rows, cols)
    if kind in ("ARD-C2", "C2"):
        bands = [r.integers(0, 65536, w.shape) if r.random() < 0.3 else r.integers(7000, 30000, w.shape) for _ in range(7)]
        for b in bands:
            b[r.random(w.shape) < 0.15] = 0
        typ = gdal.GDT_UInt16
    else:
        bands = [r.integers(-2000, 16001, w.shape) for _ in range(7)]
        bands[6] = r.integers(2000, 3500, w.shape)
        for b in bands:
            b[r.random(w.shape) < 0.1] = -9999
        typ = gdal.GDT_Int16
    damage = s["damage"]
    if damage in ("nobt", "archive") and (kind.startswith("HLS") or (kind == "C2" and damage == "nobt")) or (kind == "HLS14" and damage):
        damage = None
    if damage in XML and not (kind.startswith("ARD") and case["single"]):
        damage = None
    lost = None if damage is None else ("qa" if damage == "noqa" else int(r.integers(0, 6)))
    torn = None if damage != "archive" else "" if kind == "C2" or r.random() < 0.5 else "_BT"
    s["anchor"] = torn != "" and (lost != 0 or damage not in ("noband", "tornband") or s["sensor"] > 2)
    new = s["sensor"] > 2

    def put(d, f, a, typ, what):
        if what == lost and damage in ("noband", "noqa"):
            return
        write_tif(os.path.join(d, f), a, typ, geo, srs)
        if what == lost and damage == "tornband":
            p = os.path.join(d, f)
            b = open(p, "rb").read()
            open(p, "wb").write(b[:4 if r.random() < 0.5 else 0])

    if kind == "HLS":
        d = os.path.join(src, folder)
        os.mkdir(d)
        for n, b in enumerate(["B02", "B03", "B04"] + (["B05", "B06", "B07"] if s["sensor"] % 2 == 0 else ["B8A", "B11", "B12"])):
            put(d, "%s.%s.tif" % (folder, b), bands[n], typ, n)
        # the neighbours in name must not be taken
        for b in (["B01", "B09"] if s["sensor"] % 2 == 0 else ["B05", "B06", "B07", "B08"]):
            put(d, "%s.%s.tif" % (folder, b), r.integers(0, 9999, w.shape), typ, None)
        put(d, "%s.Fmask.tif" % folder, w, gdal.GDT_Byte, "qa")
        bands[6] = np.zeros_like(w)
    elif kind == "HLS14":
        seq = [None, 0, 1, 2, 3, 4, 5, None, None, None] if s["sensor"] % 2 == 0 else [None, 0, 1, 2, None, None, None, None, 3, None, None, 4, 5]
        m = gdal.GetDriverByName("MEM").Create("", w.shape[1], w.shape[0], len(seq) + 1, gdal.GDT_Int16)
        for n, k in enumerate(seq):
            m.GetRasterBand(n + 1).WriteArray(bands[k] if k is not None else r.integers(0, 9999, w.shape))
        m.GetRasterBand(len(seq) + 1).WriteArray(w)
        f = os.path.join(tmp, "x.nc")
        gdal.GetDriverByName("netCDF").CreateCopy(f, m)
        os.replace(f, os.path.join(src, folder + ".hdf"))
        bands[6] = np.zeros_like(w)
    else:
        stem = folder[:-3] if kind != "C2" else folder
        parts = {"": [], "_BT": []}
        names = ["B1", "B2", "B3", "B4", "B5", "B7"] if not new else ["B2", "B3", "B4", "B5", "B6", "B7"]
        fmt = {"ARD": "{}B{}.tif", "ARD-C2": "{}_B{}.TIF", "C2": "{}_SR_B{}.TIF"}[kind]
        for n, b in enumerate(names):
            put(tmp, fmt.format(folder, b[1:]), bands[n], typ, n)
            parts[""].append(fmt.format(folder, b[1:]))
        if new:
            put(tmp, fmt.format(folder, 1), r.integers(0, 9999, w.shape), typ, None)
            parts[""].append(fmt.format(folder, 1))
        qa = {"ARD": stem + "_PIXELQA.tif", "ARD-C2": stem + "_QA_PIXEL.TIF", "C2": folder + "_QA_PIXEL.TIF"}[kind]
        put(tmp, qa, w, gdal.GDT_UInt16, "qa")
        parts[""].append(qa)
        th = 10 if new else 6
        bt = {"ARD": stem + "_BTB%d.tif", "ARD-C2": stem + "_BT_B%d.TIF", "C2": folder + "_ST_B%d.TIF"}[kind] % th
        put(tmp, bt, bands[6], typ, "bt")
        parts["_BT" if kind != "C2" else ""].append(bt)
        if kind != "C2":
            xml = folder.replace("_SR", ".xml")
            with open(os.path.join(tmp, xml), "w") as h:
                if damage == "oddxml":
                    h.write("<T><TILE_METADATA/></T>")
                elif kind == "ARD":
                    h.write('<ard_metadata xmlns="https://landsat.usgs.gov/ard/v1"><tile_metadata/><scene_metadata><global_metadata><satellite>X</satellite><wrs system="2" path="%d" row="31"/></global_metadata></scene_metadata></ard_metadata>' % s["path"])
                else:
                    h.write("<T><TILE_METADATA/><SCENE_METADATA><IMAGE_ATTRIBUTES><SPACECRAFT_ID>X</SPACECRAFT_ID><SENSOR_ID>Y</SENSOR_ID><WRS_TYPE>2</WRS_TYPE><WRS_PATH>%d</WRS_PATH><WRS_ROW>31</WRS_ROW></IMAGE_ATTRIBUTES></SCENE_METADATA></T>" % s["path"])
            f = os.path.join(tmp, xml)
            x = open(f).read()
            if damage == "nopath":
                x = x.replace('path="%d"' % s["path"], 'path=""').replace("<WRS_PATH>%d<" % s["path"], "<WRS_PATH><")
            elif damage == "tornxml":
                x = x[:int(r.integers(0, len(x) - 5))]
            with open(f, "w") as h:
                h.write(x)
            if damage == "noxml":
                os.remove(f)
            parts[""].append(xml)
        if case["stale"]:
            # scratch of an earlier, interrupted run: the parts of the scene with other contents
            for rank in range(1, case["n_cores"] + 1):
                for suffix, fs in parts.items():
                    d = os.path.join(out, "tmp%d" % rank, stem + "_BT" if suffix else folder)
                    os.makedirs(d)
                    for f in fs:
                        if f.endswith(".xml"):
                            with open(os.path.join(d, f), "w") as h:
                                h.write("<T/>")
                        else:
                            write_tif(os.path.join(d, f), np.full(w.shape, 21824 if f == qa and kind != "ARD" else 322 if f == qa else 9000), typ, geo, srs)
        for suffix, fs in parts.items():
            if suffix == "_BT" and (kind == "C2" or damage == "nobt"):
                continue
            t = os.path.join(src, (folder if suffix == "" else stem + "_BT") + ".tar")
            with tarfile.open(t, "w") as h:
                for f in fs:
                    if os.path.exists(os.path.join(tmp, f)):
                        h.add(os.path.join(tmp, f), f)
            if suffix == torn:
                b = open(t, "rb").read()
                open(t, "wb").write(b[:100] if lost < 3 else b"not a tar archive" * 40)
    if damage:
        return None, damage
    want = [b.astype(float) for b in bands]
    if kind in ("ARD-C2", "C2"):
        want = [10000 * (b * 2.75e-05 - 0.2) for b in want[:6]] + [10 * (want[6] * 0.00341802 + 149)]
    fam = "HLS" if kind.startswith("HLS") else "ARD" if kind == "ARD" else "C2"
    q = np.vectorize(lambda x: qa_class(fam, x))(w)
    if kind == "C2":
        full = np.full((8, rows, cols), np.nan)
        full[7] = FILL
        for i in range(rows):
            for j in range(cols):
                y, x = i + top, j + left
                if 0 <= y < R and 0 <= x < C:
                    full[:7, i, j] = [b[y, x] for b in want]
                    full[7, i, j] = q[y, x]
        return full, None
    return np.array(want + [q]), None


def run_prep(case):
    import yaml
    import pycold.imagetool.prepare_ard as P
    logging.disable(logging.CRITICAL)
    case = json.loads(json.dumps(case))
    kind, g = case["kind"], case["g"]
    rows, cols = G.shape(g)
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="c23") as root, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        src, out, tmp = (os.path.join(root, x) for x in ("h029v005", "out", "tmp"))
        os.mkdir(src), os.mkdir(tmp)
        geo, srs, window, paths, kw = None, None, (0, 0, 0, 0), None, {}
        if kind.startswith("ARD"):
            geo, srs = (case["x"] * 1000 + 15, 30, 0, case["y"] * 1000 + 300015, 0, -30), wkt(ALBERS).ExportToWkt()
            paths = tile_paths(geo, rows, cols)
        elif kind == "C2":
            srs = wkt("+proj=utm +zone=17 +datum=WGS84 +units=m +no_defs").ExportToWkt()
            window = [o if o > 0 or -o < (rows, rows, cols, cols)[n] / 2 else 0 for n, o in enumerate(case["off"])]
            x0, y0 = 300000 + 30 * (case["x"] + 2000), 3000000 + 30 * case["y"]
            geo = (x0 - 30 * window[2], 30, 0, y0 + 30 * window[0], 0, -30)
            x1, y1 = x0 + 30 * cols, y0 - 30 * rows
            ring = [[x0, y0], [x1, y0], [x1, y1], [x0, y1], [x0, y0]]
            if case["shape"] == "L":
                ring = [[x0, y0], [x1, y0], [x1, (y0 + y1) / 2], [(x0 + x1) / 2, (y0 + y1) / 2], [(x0 + x1) / 2, y1], [x0, y1], [x0, y0]]
            geom = dict(type="Polygon", coordinates=[ring])
            if case["shape"] == "multi":
                h = (x0 + x1) / 2
                geom = dict(type="MultiPolygon", coordinates=[[[[x0, y0], [h, y0], [h, y1], [x0, y1], [x0, y0]]], [[[h, y0], [x1, y0], [x1, y1], [h, y1], [h, y0]]]])
            other = dict(type="Polygon", coordinates=[[[0, 0], [30, 0], [30, 30], [0, 0]]])
            with open(os.path.join(root, "a.geojson"), "w") as h:
                json.dump(dict(type="FeatureCollection", features=[dict(type="Feature", properties=dict(id=k), geometry=geom if k == 2 else other) for k in (1, 2, 3)]), h)
            kw = dict(shapefile_path=os.path.join(root, "a.geojson"), id=2)
        low, upp = (None if case[k] is None else case["base"] + case[k] for k in ("low", "upp"))
        scenes = {}
        r = G.rng(case["x"] + 5000)
        some = [int(p) for p in np.unique(paths) if p > 0] if paths is not None else []
        for s in case["scenes"]:
            day = case["base"] + s["day"]
            folder, stem = name_of(kind, s, day)
            s["path"] = int(r.choice(some + [some[0] if some else 7])) if some and r.random() < 0.8 else int(r.integers(1, 60))
            want, damage = write_scene(case, s, folder, src, tmp, geo, srs, window, out)
            scenes[stem] = (s, day, want, damage)
        if kind.startswith("ARD") and not any(s["anchor"] for s in case["scenes"]):
            return dict(nt=False, labels=["noanchor"])         # no scene that shows where the tile lies
        with open(os.path.join(root, "c.yaml"), "w") as h:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=rows, n_cols=cols, n_block_x=g["nbx"], n_block_y=g["nby"]), ALGORITHMINFO={}), h)
        iso = lambda o: None if o is None else datetime.date.fromordinal(o).isoformat()
        args = dict(source_dir=src, out_dir=out, clear_threshold=case["threshold"], single_path=case["single"], n_cores=case["n_cores"], is_partition=not case["continuous"], yaml_path=os.path.join(root, "c.yaml"), hpc=(kind.startswith("ARD") and case["single"]) or case["x"] % 3 > 0,
                    low_date_bound=iso(low), upp_date_bound=iso(upp), collection=kind, shapefile_path=None, id=0)
        args.update(kw)
        kill = case["kill"]
        what = "%s, %d cores in order %s" % (kind, case["n_cores"], case["order"])
        try:
            os.chdir(tmp)
            with C22.Dying() as D:
                def work(rank, kill):
                    if kill:
                        D.at[threading.get_ident()] = [kill["n"], kill["torn"]]
                    try:
                        K.command(P.main, dict(args, rank=rank), K.ARD_DEFAULTS, case)
                    except C22.Killed:
                        died.append(rank)
                    finally:
                        D.at.pop(threading.get_ident(), None)
                died = []
                for k in ([kill, None] if kill else [None]):            # a worker dies at one of its files; then everything is started again
                    choices = iter(case["choices"])
                    with coop.Schedule(lambda m: next(choices, 0) % (m + 1)) as sc:
                        sc.run([(lambda rank=rank: work(rank, k if k and k["rank"] == rank else None)) for rank in case["order"]])
        except coop.Stuck:
            raise Violation("%s: workers wait forever" % what)
        finally:
            os.chdir(here)
        seen, kept, masked = 0, 0, 0
        files = {}
        for base, _, names in os.walk(out):
            for n in names:
                if n.endswith(".npy"):
                    files.setdefault((os.path.relpath(base, out), n[:16]), []).append(os.path.join(base, n))
        for (w, k), f in files.items():
            require(len(f) == 1, "%s: several stacks for %s in %s", what, k, w)
            require(k in scenes, "%s: stack %s in %s is no scene's (names start with %s)", what, os.path.basename(f[0]), w, sorted(scenes))
        for stem, (s, day, want, damage) in scenes.items():
            mine = {w for (w, k) in files if k == stem}
            if damage:
                require(not mine, "%s: scene %s (%s) was stacked", what, stem, damage)
                continue
            if (low is not None and day < low) or (upp is not None and day > upp):
                require(not mine, "%s: scene %s outside the date range was stacked", what, stem)
                continue
            q = want[7]
            valid = (q != FILL).sum()
            share = np.isin(q, (CLEAR, WATER)).sum() / valid if valid else 0
            if case["threshold"] > 0 and share <= case["threshold"]:
                if share < case["threshold"]:
                    require(not mine, "%s: scene %s with a clear share of %s was stacked, threshold %s", what, stem, share, case["threshold"])
                continue
            unsure = np.zeros((rows, cols), bool)
            if kind.startswith("ARD") and case["single"]:
                unsure = (paths == -1) & (q != FILL)
                q = np.where(paths == s["path"], q, FILL)
                masked += 1
            for b, x, y, rs, cs in ([(0, 0, 0, slice(0, rows), slice(0, cols))] if case["continuous"] else G.blocks(g)):
                where = "." if case["continuous"] else "block_x%d_y%d" % (x, y)
                usable = np.isin(q[rs, cs], (CLEAR, WATER, SNOW)).any()
                if unsure[rs, cs].any() and not usable:
                    continue
                if not usable and not case["continuous"]:
                    require(where not in mine, "%s: block %s of scene %s holds nothing usable but was saved", what, where, stem)
                    continue
                require(where in mine, "%s: no stack of scene %s for %s", what, stem, where)
                a = np.load(files[(where, stem)][0])
                require(a.dtype == np.int16 and a.shape == (rs.stop - rs.start, cs.stop - cs.start, 8), "%s: stack %s %s", what, a.dtype, a.shape)
                a = a.astype(float)
                sure = ~unsure[rs, cs]
                bad = np.argwhere((a[..., 7] != q[rs, cs]) & sure)
                require(len(bad) == 0, "%s: %s of %s: QA differs at %s: %s", what, where, stem, *([(bad[0] + [rs.start, cs.start]).tolist(), (a[tuple(bad[0])][7], q[rs, cs][tuple(bad[0])])] if len(bad) else [0, 0]))
                tol = 1.0 if kind in ("ARD-C2", "C2") else 0
                for n in range(7):
                    z = want[n][rs, cs]
                    bad = np.argwhere((np.abs(a[..., n] - z) > tol) & (a[..., 7] != FILL))
                    require(len(bad) == 0, "%s: %s of %s: band %d differs at pixel %s (got, expected): %s", what, where, stem, n + 1, *([(bad[0] + [rs.start, cs.start]).tolist(), (a[tuple(bad[0])][n], z[tuple(bad[0])])] if len(bad) else [0, 0]))
                    kept += int((a[..., 7] != FILL).any())
                seen += 1
        with open(os.path.join(out, "starting_last_dates.txt")) as h:
            got = [int(float(x)) for x in h.read().split()]
        days = [d for _, d, _, _ in scenes.values()]
        exp = [max(min(days), low or 0), min(max(days), upp or 999999)]
        require(got == exp, "%s: first and last date %s, expected %s", what, got, exp)
        for rank in range(1, case["n_cores"] + 1):
            require(os.path.exists(os.path.join(out, "rank%d_finished.txt" % rank)), "%s: rank %d did not finish", what, rank)
            require(not os.path.exists(os.path.join(out, "tmp%d" % rank)), "%s: rank %d left its scratch folder", what, rank)
        return dict(nt=seen > 0 and kept > 0 and (g["nbx"] != g["nby"] or g["bw"] != g["bh"]),
                    labels=[kind, "continuous%d" % case["continuous"], "single%d" % (masked > 0), "cores%d" % min(case["n_cores"], 2), "damage%d" % any(x[3] is not None for x in scenes.values()), "threshold%d" % (case["threshold"] > 0),
                            "stale%d" % (case["stale"] and not kind.startswith("HLS")), "killed%d" % len(died)])


ASSUMPTIONS = ["a scene's archive lists the bands the USGS/NASA products of that collection have; C2 crops are aligned with the pixel grid; HLS 1.4 files are netCDF files with the documented order of layers",
               "workers are interleaved at the points where they wait"]
TESTS = [
    Test("qa", lambda tier: st.fixed_dictionaries(dict(kind=st.sampled_from(["HLS", "ARD", "C2"]), seed=st.integers(0, 2**31))), run_qa, 8, 60, "all six classes occur",
         fixed=[dict(kind=k, seed=s) for k in ("HLS", "ARD", "C2") for s in (0, 1)]),
    Test("ard", lambda tier: st_prep(["ARD", "ARD-C2"]), run_prep, 90, 2500, "a stack with a usable pixel on a non-square grid"),
    Test("c2", lambda tier: st_prep(["C2"]), run_prep, 60, 2500, "a stack with a usable pixel on a non-square grid"),
    Test("hls", lambda tier: st_prep(["HLS", "HLS", "HLS14"]), run_prep, 60, 2500, "a stack with a usable pixel on a non-square grid"),
]
