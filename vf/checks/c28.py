"""C28: subgrid land data are averaged onto the grid with their area weights"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "value monitor: gridded arrays of the real land functions against sums over the subgrid units of every cell"
RULE = ("random grids with cells left out, subgrid units in random order with random types, activity and weights (zero "
        "weights included), missing values with any fill value; every land use and vegetation type, called whole, "
        "announced, in pieces of time, with the units and the cells in another order and with a constant field, and "
        "through written files; distinct by grid, types and masks")
CASES = {"quick": 800, "thorough": 20000}
REQUIRED = {"lut": 200, "pft": 200, "empty_cell": 100, "several": 100, "many_units": 60, "zero_weight": 100, "missing_unit": 50,
            "permuted": 200, "constant": 50, "pieces": 100, "written": 20, "all": 20}
PFT = {"grass": (12, 13, 14), "shrub": (9, 10, 11), "tree": (1, 2, 3, 4, 5, 6, 7, 8)}
LUT = {"veg": (1,), "crop": (2,), "urban": (7, 8, 9), "pasture": ()}


class World:
    """A random land surface: cells of a grid, land units and vegetation patches within them"""

    def __init__(self, ctx):
        rng, r = ctx.rng, ctx.np_rng
        self.nt, self.ny, self.nx = rng.choice([1, 1, 2, 3, 6]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])
        self.lon = np.round(np.cumsum(r.uniform(1, 9, self.nx)), 3)
        self.lat = np.round(-80 + np.cumsum(r.uniform(1, 9, self.ny)), 3)
        if rng.random() < 0.2:
            # a grid from pole to pole, or from the prime meridian all around
            self.lat = np.round(np.linspace(-90, 90, self.ny + 2)[[-1] + list(range(self.ny - 1))], 3)
            self.lat.sort()
            self.lon = self.lon - self.lon[0] if rng.random() < 0.5 else self.lon - self.lon[-1] + 360.0
            ctx.count("poles")
        cells = [(i, j) for i in range(self.nx) for j in range(self.ny) if rng.random() < 0.8] or [(0, 0)]
        if rng.random() < 0.8:
            rng.shuffle(cells)
        if len(cells) < self.nx * self.ny:
            ctx.count("empty_cell")
        self.cells = cells
        same = rng.random() < 0.2
        many = rng.choice(cells) if rng.random() < 0.2 else None
        if many:
            ctx.count("many_units")
        units, patches = [], []
        for c in cells:
            for t in [t for t in range(1, 10) if rng.random() < 0.5]:
                units.append([c, t, int(rng.random() < 0.85), 0.0 if rng.random() < 0.15 else rng.uniform(0.01, 1.0)])
                if same and t in (1, 2) and rng.random() < 0.5:
                    units.append([c, t, 1, rng.uniform(0.01, 1.0)])
            if c == many:
                # many units and patches of the same type in one cell
                t = rng.choice([1, 2, 7, 8, 9])
                for _ in range(rng.randint(4, 9)):
                    units.append([c, t, 1, rng.uniform(0.01, 1.0)])
                t = rng.choice([1, 8, 9, 11, 12, 14])
                for _ in range(rng.randint(4, 9)):
                    patches.append([c, t, 1, rng.uniform(0.01, 1.0), rng.uniform(0.01, 1.0)])
            for t in [t for t in range(0, 20) if rng.random() < 0.4]:
                z = rng.random()
                w = 0.0 if z < 0.15 else rng.uniform(0.01, 1.0)
                wl = 0.0 if z < 0.15 or z > 0.9 else rng.choice([rng.uniform(0.01, 1.0), 1e-7])
                patches.append([c, t, int(rng.random() < 0.85), w, wl])
        if not units:
            units.append([cells[0], 2, 1, 0.5])
        if not patches:
            patches.append([cells[0], 14, 1, 0.5, 0.5])
        if rng.random() < 0.8:
            rng.shuffle(units)
            rng.shuffle(patches)
        if any(u[3] == 0 for u in units):
            ctx.count("zero_weight")
        if any(sum(1 for v in units if v[0] == u[0] and v[1] in (7, 8, 9)) > 1 for u in units):
            ctx.count("several")
        self.units, self.patches = units, patches
        self.wdt = rng.choice(["f8", "f8", "f4"])

    def perm(self, rng, eflx, gpp):
        """The same world with cells, land units and patches in another order"""
        w = object.__new__(World)
        w.__dict__.update(self.__dict__)
        w.cells = rng.sample(self.cells, len(self.cells))
        pu = rng.sample(range(len(self.units)), len(self.units))
        pp = rng.sample(range(len(self.patches)), len(self.patches))
        w.units, w.patches = [self.units[i] for i in pu], [self.patches[i] for i in pp]
        return w, eflx[:, pu], gpp[:, pp]

    def arrays(self):
        g, u, p = self.cells, self.units, self.patches

        def lon(rows):
            return np.array([self.lon[c[0]] for c in rows])

        def lat(rows):
            return np.array([self.lat[c[1]] for c in rows])

        uc, pc = [x[0] for x in u], [x[0] for x in p]
        return OrderedDict([
            ("time", (np.arange(self.nt, dtype="f8"), ("time",), "days since 2000-01-01")),
            ("lat", (self.lat, ("lat",), "degrees_north")), ("lon", (self.lon, ("lon",), "degrees_east")),
            ("landUse", (np.arange(4), ("landUse",), "1")),
            ("grid1d_ixy", (np.array([c[0] + 1 for c in g], dtype="i4"), ("gridcell",), "1")),
            ("grid1d_jxy", (np.array([c[1] + 1 for c in g], dtype="i4"), ("gridcell",), "1")),
            ("grid1d_lon", (lon(g), ("gridcell",), "degrees_east")),
            ("grid1d_lat", (lat(g), ("gridcell",), "degrees_north")),
            ("land1d_lon", (lon(uc), ("landunit",), "degrees_east")),
            ("land1d_lat", (lat(uc), ("landunit",), "degrees_north")),
            ("land1d_ityplunit", (np.array([x[1] for x in u], dtype="i4"), ("landunit",), "1")),
            ("land1d_active", (np.array([x[2] for x in u], dtype="i4"), ("landunit",), "1")),
            ("land1d_wtgcell", (np.array([x[3] for x in u], dtype=self.wdt), ("landunit",), "1")),
            ("pfts1d_lon", (lon(pc), ("pft",), "degrees_east")),
            ("pfts1d_lat", (lat(pc), ("pft",), "degrees_north")),
            ("pfts1d_active", (np.array([x[2] for x in p], dtype="i4"), ("pft",), "1")),
            ("pfts1d_itype_veg", (np.array([x[1] for x in p], dtype="i4"), ("pft",), "1")),
            ("pfts1d_wtgcell", (np.array([x[3] for x in p], dtype=self.wdt), ("pft",), "1")),
            ("pfts1d_wtlunit", (np.array([x[4] for x in p], dtype=self.wdt), ("pft",), "1"))])


LUT_ARGS = ["time", "lat", "lon", "grid1d_ixy", "grid1d_jxy", "grid1d_lon", "grid1d_lat", "land1d_lon", "land1d_lat",
            "land1d_ityplunit", "land1d_active", "land1d_wtgcell", "landUse"]
PFT_ARGS = ["time", "lat", "lon", "grid1d_ixy", "grid1d_jxy", "grid1d_lon", "grid1d_lat", "land1d_lon", "land1d_lat",
            "land1d_ityplunit", "pfts1d_lon", "pfts1d_lat", "pfts1d_active", "pfts1d_itype_veg", "pfts1d_wtgcell",
            "pfts1d_wtlunit"]


def average(parts, nt):
    """Weighted average of (values over time, mask over time, weight), missing where there is no weight"""
    e = np.ma.masked_all(nt)
    total = sum(float(w) for _v, _m, w in parts)
    if total > 0:
        for t in range(nt):
            if not any(m[t] for _v, m, _w in parts):
                e[t] = sum(float(v[t]) * float(w) for v, _m, w in parts) / total
    return e


def expected(w, kind, types, field, counts):
    v, m = np.ma.getdata(field), np.ma.getmaskarray(field)
    e = np.ma.masked_all((w.nt, w.ny, w.nx))
    for c in w.cells:
        if kind == "lut":
            parts = [(v[:, k], m[:, k], u[3]) for k, u in enumerate(w.units)
                     if u[0] == c and u[1] in types and u[2] == 1 and u[3] > 0]
        elif not any(u[0] == c and u[1] == 1 for u in w.units):
            parts = []
        else:
            parts = [(v[:, k], m[:, k], u[4]) for k, u in enumerate(w.patches)
                     if u[0] == c and u[1] in types and u[2] == 1 and u[3] > 0]
        if any(x[1].any() for x in parts):
            counts("missing_unit")
        e[:, c[1], c[0]] = average(parts, w.nt)
    return e


def judge(ctx, got, exp, what, key):
    gm, em = np.ma.getmaskarray(got), np.ma.getmaskarray(exp)
    ctx.check(got.shape == exp.shape, key + "-shape", lambda: "{}: {} expected {}".format(what, got.shape, exp.shape))
    ctx.check(np.array_equal(gm, em), key + "-mask", lambda: "{}: mask {} expected {}".format(what, gm.tolist(), em.tolist()))
    g, e = np.asarray(got.data, float)[~em], np.asarray(exp.data, float)[~em]
    scale = float(np.abs(e).max()) if e.size else 0.0
    ctx.check(np.all(np.abs(g - e) <= 2e-5 * scale), key + "-values", lambda: "{}: {} expected {}".format(
        what, np.ma.filled(got.astype(float), np.nan).tolist(), np.ma.filled(exp.astype(float), np.nan).tolist()))
    ctx.count("points", int(exp.size))
    ctx.count("missing_points", int(em.sum()))


def field(ctx, nt, n):
    v = ctx.np_rng.uniform(0.5, 9.0, size=(nt, n)).astype(ctx.rng.choice(["f8", "f4"]))
    m = ctx.np_rng.uniform(size=(nt, n)) < ctx.rng.choice([0.0, 0.0, 0.1])
    if m.any():
        v[m] = ctx.rng.choice([1e36, 1e36, 1e20, -999.0, 0.0, np.nan])
    return np.ma.array(v, mask=m)


def case(ctx):
    from pyconform.flownodes import DataNode
    from pyconform.modules import CLM_landunit_to_CMIP6_Lut as lut
    from pyconform.modules import CLM_pft_to_CMIP6_vegtype as pft
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    w = World(ctx)
    eflx, gpp = field(ctx, w.nt, len(w.units)), field(ctx, w.nt, len(w.patches))
    if rng.random() < 0.06:
        return written(ctx, w, eflx, gpp)
    kind = rng.choice(["lut", "pft"])
    ctx.count(kind)
    veg = rng.choice(sorted(PFT) if kind == "pft" else sorted(LUT) + ["all"])
    what = "{} of {} on {}x{} cells, {} land units {}, patches {}".format(
        kind, veg, w.ny, w.nx, len(w.units), w.units, w.patches if kind == "pft" else "")
    ctx.sample(what[:200])
    units = rng.choice(["W m-2", "1"])

    def call(w, f):
        a = {n: PhysArray(v, name=n, units=u, dimensions=d) for n, (v, d, u) in w.arrays().items()}
        p = PhysArray(np.ma.array(f, copy=True), name="v", units=units,
                      dimensions=("time", "landunit" if kind == "lut" else "pft"))
        cls, names = (lut.CLM_landunit_to_CMIP6_Lut_Function, LUT_ARGS) if kind == "lut" else \
            (pft.CLM_pft_to_CMIP6_vegtype_Function, PFT_ARGS)
        return cls(DataNode(p), veg, *[DataNode(a[n]) for n in names]), p

    data = eflx if kind == "lut" else gpp
    if veg == "all":
        ctx.count("all")
        exp = np.ma.stack([expected(w, kind, LUT[k], data, ctx.count) for k in ("veg", "pasture", "crop", "urban")], axis=1)
        dims = ("time", "landUse", "lat", "lon")
    else:
        exp = expected(w, kind, (LUT if kind == "lut" else PFT)[veg], data, ctx.count)
        dims = ("time", "lat", "lon")
    with np.errstate(all="ignore"):
        f, p = call(w, data)
        info = f[None]
        ctx.check(info.dimensions == dims, "announced-dimensions", lambda: "{}: {}".format(what, info.dimensions))
        ctx.check(str(info.units) == units, "announced-units", lambda: "{}: {}".format(what, info.units))
        got = f[:]
        ctx.check(got.dimensions == dims, "dimensions", lambda: "{}: {}".format(what, got.dimensions))
        ctx.check(str(got.units) == units, "units", lambda: "{}: {}".format(what, got.units))
        judge(ctx, got, exp, what, kind)
        ctx.check(np.array_equal(p.data, np.ma.getdata(data), equal_nan=True)
                  and np.array_equal(np.ma.getmaskarray(p), np.ma.getmaskarray(data)), "input-changed", what)
        ctx.nontrivial(kind, veg, exp.shape, np.ma.getmaskarray(exp).tobytes(), len(w.units))
        for ax, d in enumerate(dims):
            if d in f.sumlike_dimensions or exp.shape[ax] < 2:
                continue
            k = rng.randint(1, exp.shape[ax] - 1)
            for s in (slice(0, k), slice(k, exp.shape[ax])):
                judge(ctx, f[{d: s}], exp[(slice(None),) * ax + (s,)], "{} for {} {}".format(what, d, s), "piece")
            ctx.count("pieces")
        # the order of the subgrid units and cells is of no consequence
        w2, e2, g2 = w.perm(rng, eflx, gpp)
        judge(ctx, call(w2, e2 if kind == "lut" else g2)[0][:], exp, what + " in another order", "order")
        ctx.count("permuted")
        # a constant field stays constant
        if rng.random() < 0.3:
            const = np.ma.array(np.full(data.shape, 7.25))
            c = call(w, const)[0][:]
            ctx.check(np.all(np.abs(c.compressed() - 7.25) < 2e-4), "constant", lambda: "{}: {}".format(what, c))
            ctx.count("constant")


def written(ctx, w, eflx, gpp):
    """All types of one input file to standard files"""
    import netCDF4
    import pyconform.modules.CLM_landunit_to_CMIP6_Lut  # noqa: F401
    import pyconform.modules.CLM_pft_to_CMIP6_vegtype  # noqa: F401

    rng = ctx.rng
    folder = ctx.scratch()
    fn = os.path.join(folder, "in.nc")
    fill = rng.choice([1e36, 1e20, -999.0])
    arrays = w.arrays()
    with netCDF4.Dataset(fn, "w") as f:
        for d, n in (("time", None), ("lat", w.ny), ("lon", w.nx), ("landUse", 4), ("gridcell", len(w.cells)),
                     ("landunit", len(w.units)), ("pft", len(w.patches))):
            f.createDimension(d, n)
        for n, (v, d, u) in arrays.items():
            q = f.createVariable(n, v.dtype, d)
            q.units = u
            if n == "time":
                q.calendar = "noleap"
            q[:] = v
        for n, v, d in (("EFLX", eflx, "landunit"), ("GPP", gpp, "pft")):
            q = f.createVariable(n, v.dtype, ("time", d), fill_value=fill)
            q.units = "W m-2"
            q[:] = v
    d = OrderedDict()
    exp = {}
    kinds = rng.sample(sorted(LUT) + ["all"] + sorted(PFT), rng.choice([1, 2, 4]))
    for k in kinds:
        dims = ["time", "lat", "lon"]
        if k in PFT:
            text = "CLM_pft_to_CMIP6_vegtype(GPP,'{}',{})".format(k, ",".join(PFT_ARGS))
            exp[k] = expected(w, "pft", PFT[k], gpp, ctx.count)
        else:
            text = "CLM_landunit_to_CMIP6_Lut(EFLX,'{}',{})".format(k, ",".join(LUT_ARGS))
            if k == "all":
                dims.insert(1, "landUse")
                exp[k] = np.ma.stack([expected(w, "lut", LUT[x], eflx, ctx.count)
                                      for x in ("veg", "pasture", "crop", "urban")], axis=1)
            else:
                exp[k] = expected(w, "lut", LUT[k], eflx, ctx.count)
        d["v_" + k] = {"definition": text, "datatype": rng.choice(["float", "double"]), "dimensions": dims,
                       "attributes": {"units": "W m-2", "_FillValue": rng.choice([1e20, -1.0])},
                       "file": {"filename": os.path.join(folder, k + ".nc")}}
    for n, ax in (("time", "T"), ("lat", "Y"), ("lon", "X"), ("landUse", None)):
        if n == "landUse" and "all" not in kinds:
            continue
        d[n] = {"definition": n, "datatype": "double", "dimensions": [n], "attributes": {"units": arrays[n][2]}}
        if ax:
            d[n]["attributes"]["axis"] = ax
        if n == "time":
            d[n]["attributes"]["calendar"] = "noleap"
    chunks = {}
    if rng.random() < 0.6:
        chunks["time"] = rng.randint(1, w.nt)
    what = "written {} in pieces {}".format(kinds, chunks)
    if rng.random() < 0.3:
        extra = rng.choice(["lat", "lon"])
        try:
            flow.run([fn], d, chunks=dict(chunks, **{extra: 1}))
        except ValueError:
            ctx.count("refused_chunks")
            flow.run([fn], d, chunks=chunks)
        else:
            what += " and of " + extra
    else:
        flow.run([fn], d, chunks=chunks)
    for k in kinds:
        got = flow.read(os.path.join(folder, k + ".nc"))["vars"]
        ctx.check(list(got["v_" + k][1]) == d["v_" + k]["dimensions"], "written-dimensions", lambda: str(got["v_" + k][1]))
        judge(ctx, got["v_" + k][2], exp[k], "{}: {}".format(what, k), "written")
    ctx.count("written")
    ctx.nontrivial("written", tuple(kinds), w.ny, w.nx, len(w.units))
