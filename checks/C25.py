"""C25: exported yearly change maps encode exactly the records of each pixel."""
import contextlib
import datetime
import io
import os
import pickle
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from vlib.prop import Test, require
from checks import common as K, grid as G, records as R

NA = -9999
COEFS = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "cv", "rmse"]


@st.composite
def st_export(draw, method):
    g = draw(G.st_grid(4, 4))
    nb = g["nbx"] * g["nby"]
    plots = draw(st.lists(R.st_plot((724000, 732000), 5), min_size=1, max_size=5))
    if method == "OBCOLD" and draw(st.integers(0, 2)) == 0:         # breaks five years apart, to the day
        for segs in plots:
            for a, b in zip(segs, segs[1:]):
                move = a[1] + min(a[2], 16) + draw(st.sampled_from([1825, 1826, 1827])) - min(b[2], 16) - b[1]
                if b[1] + move >= b[0]:
                    b[1] += move
                    for c in segs[segs.index(b) + 1:]:
                        c[0], c[1] = c[0] + move, c[1] + move
    y0 = draw(st.one_of(*[st.integers(1982, 2000)] * 3, st.just(1982)))
    c = dict(g=g, method=method, plots=plots, have=draw(st.sampled_from([0.4, 0.9, 1, 1])), y0=y0, y1=draw(st.one_of(*[st.integers(y0, y0 + 15)] * 20, st.just(2020))), ranks=draw(st.one_of(st.just(1), st.integers(1, 5), st.just(nb + 1))),
             missing=draw(st.lists(st.integers(1, nb), max_size=2)), seed=draw(st.integers(0, 2**31)), mag=draw(st.sampled_from([150, 400, 900])), shuffle=draw(st.booleans()), order=draw(st.integers(0, 100)),
             tif=draw(st.booleans()), partial=draw(st.booleans()), flip=draw(st.booleans()), tight=draw(st.booleans()))
    if method != "SCCDOFFLINE":
        c["coefs"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(COEFS), min_size=1, max_size=4, unique=True)))
        c["bands"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 6), min_size=1, max_size=3, unique=True)))
        c["sep"] = draw(st.sampled_from([",", ", "]))
    return c


class Comm:
    """ranks one after another: rank 0 up to the barrier, the others there"""
    def __init__(self, n, run, order):
        self.n, self.rank, self.values, self.idx, self.run, self.order = n, 0, [], 0, run, order

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.n

    def bcast(self, v, root=0):
        if self.rank == root:
            self.values.append(pickle.dumps(v))
            return v
        self.idx += 1
        return pickle.loads(self.values[self.idx - 1])

    def Barrier(self):
        if self.rank == 0:
            for r in self.order:
                self.rank, self.idx = r, 0
                self.run()
            self.rank = 0


def kind(plot, i, method, last):
    """1 disturbance, 2 regrowth, 3 afforestation, 4 OBCOLD: disturbance that reverses the previous one"""
    m = plot[i]["magnitude"].astype(float)
    t = 250 if method == "OBCOLD" else 200
    if m[3] > -t and m[2] < t and m[4] < t:
        if method != "SCCDOFFLINE" and i + 1 < len(plot):
            s, n = plot[i]["coefs"][:, 1].astype(float), plot[i + 1]["coefs"][:, 1].astype(float)
            if n[3] > abs(s[3]) and n[2] < -abs(s[2]) and n[4] < -abs(s[4]):
                return 3
        return 2
    if method == "OBCOLD" and i > 0 and last == 1 and plot[i]["t_break"] - plot[i - 1]["t_break"] <= 5 * 365.25:
        p = plot[i - 1]["magnitude"].astype(float)
        if sum(m[b] * p[b] < 0 for b in range(1, 6)) >= 4:
            return 4
    return 1


def breaks(plot, method):
    """year -> list of encoded values"""
    out, last = {}, 0
    for i in range(len(plot)):
        if plot[i]["t_break"] == 0 or (method != "SCCDOFFLINE" and plot[i]["change_prob"] < 100):
            continue
        last = kind(plot, i, method, last)
        d = datetime.date.fromordinal(int(plot[i]["t_break"]))
        out.setdefault(d.year, []).append(last * 1000 + d.timetuple().tm_yday)
    return out


def feature(plot, band, year, name):
    day = datetime.date(year, 7, 1).toordinal()
    if name == "cv":
        for s in plot:
            if s["t_break"] and s["change_prob"] == 100 and datetime.date.fromordinal(int(s["t_break"])).year == year:
                return float(s["magnitude"][band]), 0
        return NA, 0
    for i in range(len(plot)):
        end = plot[i + 1]["t_start"] if i + 1 < len(plot) else datetime.date(datetime.date.fromordinal(int(plot[i]["t_end"])).year, 12, 31).toordinal()
        if plot[i]["t_start"] <= day < end:
            return R.feature(plot[i], band, day, name)
    return NA, 0


def sccd_pack(a, pos, r):
    from pycold.common import SccdOutput, nrtmodel_dt, nrtqueue_dt, sccd_dt
    from pycold.utils import unindex_sccdpack
    s = np.zeros(len(a), sccd_dt)
    for f in ("t_start", "t_break", "num_obs"):
        s[f] = a[f]
    s["coefs"], s["rmse"], s["magnitude"] = a["coefs"][:, :6, :6], a["rmse"][:, :6], a["magnitude"][:, :6]
    s = s[s["t_break"] > 0]
    mode = int(r.choice([0, 1, 2]))
    m, q = np.zeros(1 if mode == 1 else 0, nrtmodel_dt), np.zeros(int(r.integers(1, 9)) if mode == 2 else 0, nrtqueue_dt)
    for x in (m, q):
        for f in x.dtype.names:
            x[f] = r.integers(0, 100, x[f].shape)
    return s, unindex_sccdpack(SccdOutput(pos, s, r.integers(1, 100, 6).astype(np.short), mode, m, q))


def run_export(case):
    from osgeo import gdal
    import yaml
    from pycold.common import reccg_dt
    gdal.UseExceptions()
    g, method = case["g"], case["method"]
    rows, cols = G.shape(g)
    r = G.rng(case["seed"])
    per = {}
    with tempfile.TemporaryDirectory(prefix="c25") as root, contextlib.redirect_stdout(io.StringIO()):
        rec, out, ref = os.path.join(root, "rec"), os.path.join(root, "out"), os.path.join(root, "ref.tif")
        folder = os.path.join(rec, "obcold") if method == "OBCOLD" else rec
        os.makedirs(folder)
        if case["tif"]:
            os.makedirs(out)
        geo = (1000.0, 30.0, 0.0, 5000.0, 0.0, -30.0)
        d = gdal.GetDriverByName("GTiff").Create(ref, cols, rows, 1, gdal.GDT_Byte)
        d.SetGeoTransform(geo)
        from osgeo import osr
        sr = osr.SpatialReference()
        sr.ImportFromProj4("+proj=aea +lat_1=29.5 +lat_2=45.5 +lat_0=23 +lon_0=-96 +datum=WGS84 +units=m")
        d.SetProjection(sr.ExportToWkt())
        d = None
        for b, x, y, rs, cs in G.blocks(g):
            mine = []
            for i in range(rs.start, rs.stop):
                for j in range(cs.start, cs.stop):
                    if r.random() >= case["have"]:
                        continue
                    a = R.fill(case["plots"][r.integers(len(case["plots"]))], cols * i + j + 1, r, case["mag"])
                    if case["tight"]:           # slopes that satisfy the afforestation rule now and then
                        a["coefs"][1:, 3, 1] = np.abs(a["coefs"][1:, 3, 1]) * 3
                        a["coefs"][1:, 2, 1] = -np.abs(a["coefs"][1:, 2, 1]) * 3
                        a["coefs"][1:, 4, 1] = -np.abs(a["coefs"][1:, 4, 1]) * 3
                    if case["flip"]:
                        for k in range(1, len(a)):
                            if r.random() < 0.7:
                                a[k]["magnitude"] = -a[k - 1]["magnitude"] * r.uniform(0.5, 2)
                    mine.append(((i, j), a))
            if b in case["missing"] or not mine:
                continue
            if method == "SCCDOFFLINE":
                if case["shuffle"]:
                    r.shuffle(mine)
                with open(os.path.join(folder, "record_change_x%d_y%d_sccd.npy" % (x, y)), "wb") as h:
                    for k, a in mine:
                        per[k], pack = sccd_pack(a, cols * k[0] + k[1] + 1, r)
                        pickle.dump(pack, h)
            else:
                per.update(mine)
                a = np.hstack([a for _, a in mine])
                if case["shuffle"]:
                    a = a[r.permutation(len(a))]
                np.save(os.path.join(folder, "record_change_x%d_y%d_%s.npy" % (x, y, method.lower())), a.astype(reccg_dt))
        with open(os.path.join(root, "c.yaml"), "w") as h:
            yaml.safe_dump(dict(DATASETINFO=dict(n_rows=rows, n_cols=cols, n_block_x=g["nbx"], n_block_y=g["nby"])), h)
        args = dict(reccg_path=rec, reference_path=ref, out_path=out, method=method, year_lowbound=case["y0"], year_uppbound=case["y1"], yaml_path=os.path.join(root, "c.yaml"), coefs=None, coefs_bands="0, 1, 2, 3, 4, 5, 6")
        names, bands = case.get("coefs"), case.get("bands") or list(range(7))
        if names:
            args["coefs"] = case["sep"].join(names)
            if case["bands"]:
                args["coefs_bands"] = case["sep"].join(map(str, bands))
        n = case["ranks"]
        others = [k for k in range(1, n)]
        G.rng(case["order"]).shuffle(others)
        stub = types.ModuleType("mpi4py")
        stub.MPI = types.SimpleNamespace(COMM_WORLD=None)
        old = sys.modules.get("mpi4py")
        sys.modules["mpi4py"] = stub
        try:
            import pycold.imagetool.export_change_map as E
            stub = E.MPI
            stub.COMM_WORLD = Comm(n, lambda: K.command(E.main, args, K.EXPORT_DEFAULTS, case), others)
            K.command(E.main, args, K.EXPORT_DEFAULTS, case)
        finally:
            if old is None:
                sys.modules.pop("mpi4py", None)
        out = os.path.join(out, {"COLD": "cold_maps", "OBCOLD": "obcold_maps", "SCCDOFFLINE": "sccd_maps"}[method])
        years = list(range(case["y0"], case["y1"] + 1))

        def load(name, what):
            f = os.path.join(out, name)
            require(os.path.isfile(f), "%s is missing (%s)", name, sorted(os.listdir(out))[:5])
            d = gdal.Open(f)
            require((d.RasterXSize, d.RasterYSize) == (cols, rows), "%s is %d columns x %d rows, the tile %d x %d", name, d.RasterXSize, d.RasterYSize, cols, rows)
            require(d.GetGeoTransform() == geo and osr.SpatialReference(d.GetProjection()).IsSame(sr), "%s lost the georeference", name)
            require(d.GetRasterBand(1).DataType == what, "%s has data type %d", name, d.GetRasterBand(1).DataType)
            return d.GetRasterBand(1).ReadAsArray()
        expect = {k: breaks(a, method) for k, a in per.items()}
        shown, maps = 0, {}
        types_seen = set()
        for y in years:
            m = maps[y] = load("%d_break_map_%s.tif" % (y, method), gdal.GDT_Int16)
            for i in range(rows):
                for j in range(cols):
                    want = expect.get((i, j), {}).get(y, [NA])
                    require(int(m[i, j]) in want, "%s, %d processes, year %d: row %d column %d shows %d, its records say %s", method, n, y, i, j, m[i, j], want)
                    if want != [NA]:
                        shown += 1
                        types_seen.add(want[0] // 1000)
            if names:
                for b in bands:
                    for c in names:
                        m = load("%d_coefs_%s_%d_%s.tif" % (y, method, b, c), gdal.GDT_Float32)
                        for i in range(rows):
                            for j in range(cols):
                                v, tol = feature(per[(i, j)], b, y, c) if (i, j) in per else (NA, 0)
                                require(abs(float(m[i, j]) - v) <= tol + 1e-6 * abs(v), "%s year %d band %d %s: row %d column %d shows %r, expected %r", method, y, b, c, i, j, float(m[i, j]), v)
        for name, seq in (("recent", years), ("first", years[::-1])):
            m = load("%s_disturbance_map_%s.tif" % (name, method), gdal.GDT_Int16)
            want = np.zeros((rows, cols), int)
            for y in seq:
                want[maps[y] // 1000 == 1] = y
            require(np.array_equal(m, want), "%s disturbance map\n%s\nexpected\n%s", name, m, want)
        left = [f for f in os.listdir(out) if f.startswith("tmp")]
        require(not left, "temporary files left: %s", left[:3])
        return dict(nt=shown > 1 and G.nontrivial(g), labels=G.labels(g) + ["type%d" % k for k in sorted(types_seen)] + ["missing%d" % bool(case["missing"]), "coefs%d" % bool(names)])


ASSUMPTIONS = ["mpi4py (not installed) is replaced by a stand-in that runs the ranks one after another up to the barrier",
               "records of one pixel are disjoint; of two breaks in one year either may be shown; coefficient maps are judged for COLD and OBCOLD"]
TESTS = [
    Test("cold", lambda tier: st_export("COLD"), run_export, 40, 700, "two or more breaks shown in a grid of several non-square blocks"),
    Test("obcold", lambda tier: st_export("OBCOLD"), run_export, 40, 700, "two or more breaks shown in a grid of several non-square blocks"),
    Test("sccd", lambda tier: st_export("SCCDOFFLINE"), run_export, 40, 700, "two or more breaks shown in a grid of several non-square blocks"),
]
