"""C27: user-level averaging and selection functions match their formulas"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "value monitor: returned arrays, announcements and inputs of the real functions against point-by-point loops"
RULE = ("every function of commonfunctions and atm_funcs on random small arrays (tiny, huge and integer ones too) with masks and arbitrary fill values, "
        "random depths, regions, months and hemispheres, called whole, for its announcement and in pieces along every "
        "dimension it does not claim whole, inputs compared before and after; climatologies and yearly means also "
        "through written files; distinct by function, sizes and masks")
CASES = {"quick": 8000, "thorough": 60000}
MONTH = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
UN = 1e20


class Gen:
    """Random arguments of one function"""

    def __init__(self, ctx):
        self.ctx, self.rng, self.r = ctx, ctx.rng, ctx.np_rng
        self.inputs = []
        names = ["time", "lev", "nlat", "nlon"]
        if self.rng.random() < 0.4:
            names = self.rng.choice([["t", "z_w", "jj", "kk"], ["when", "depth", "y", "x"], ["tt", "a", "north", "east"]])
        self.T, self.Z, self.Y, self.X = names
        self.nt = self.rng.choice([1, 2, 3, 5])
        self.nz = self.rng.choice([1, 2, 3, 5])
        self.ny = self.rng.choice([1, 2, 3, 4])
        self.nx = self.rng.choice([1, 2, 3, 4])
        if self.rng.random() < 0.06:
            self.ny, self.nx = self.rng.choice([(7, 2), (2, 7), (6, 5)])
            ctx.count("larger")
        self.single = False  # any of the data in single precision
        self.size = self.rng.choice([1.0, 1.0, 1.0, 1.0, 1e-9, 1e6, 1e9])  # magnitude of data
        if self.size != 1:
            ctx.count("tiny_data" if self.size < 1 else "huge_data")

    def node(self, a, dims, units="1", name="x"):
        from pyconform.flownodes import DataNode
        from pyconform.physarray import PhysArray

        p = PhysArray(a, name=name, units=units, dimensions=tuple(dims))
        self.inputs.append((p, np.array(p.data, copy=True), np.array(np.ma.getmaskarray(p)), name))
        return DataNode(p)

    def data(self, shape, missing=None, lo=-5.0, hi=5.0):
        """Random values, some missing with some fill value below the mask"""
        kind = self.rng.choice(["f8", "f8", "f4"])
        v = self.r.uniform(lo, hi, size=shape)
        if (lo, hi) == (-5.0, 5.0):
            v *= self.size
            if self.size == 1 and self.rng.random() < 0.15:
                kind = self.rng.choice(["i4", "i8", "i2"])
                v = v * (1000 if kind == "i2" else 2e8)
                self.size = max(self.size, 1000.0 if kind == "i2" else 2e8)
                self.ctx.count("integer_data")
        self.single = self.single or kind == "f4"
        v = v.astype(kind)
        if missing is None:
            missing = self.r.uniform(size=shape) < self.rng.choice([0.0, 0.1, 0.3])
        m = np.broadcast_to(missing, shape).copy()
        if m.any():
            fill = self.rng.choice([1e20, 9.96921e36, -999.0, 0.0, np.nan] if kind[0] == "f" else [-999, 0])
            self.ctx.count("fill_large" if fill > 1e16 else "fill_other")
            v[m] = fill
        return np.ma.array(v, mask=m)

    def kmt(self):
        k = self.r.randint(0, self.nz + 1, size=(self.ny, self.nx))
        if self.rng.random() < 0.3:
            k[self.r.randint(self.ny), self.r.randint(self.nx)] = 0
        if self.rng.random() < 0.7:
            k[self.r.randint(self.ny), self.r.randint(self.nx)] = self.rng.randint(1, self.nz)
        if (k == 0).any():
            self.ctx.count("land")
        if (k == self.nz).any():
            self.ctx.count("full_depth")
        return k

    def depth(self, k):
        """The argument KMT, sometimes of floats or missing on land"""
        kind = self.rng.random()
        if kind < 0.15:
            k = k.astype(self.rng.choice(["f8", "f4"]))
            self.ctx.count("float_kmt")
        if kind < 0.1 or kind > 0.9:
            a = np.ma.array(k.copy(), mask=k == 0)
            a.data[a.mask] = self.rng.choice([-1, 99, 0])
            self.ctx.count("missing_kmt", int(a.mask.any()))
            k = a
        elif self.rng.random() < 0.2 and (k == 0).any():
            k = np.where(k == 0, k.dtype.type(-1), k)
            self.ctx.count("negative_kmt")
        return self.node(k, (self.Y, self.X), name="KMT")

    def below(self, k):
        return np.arange(self.nz)[:, None, None] >= k[None]


def out(shape):
    return np.ma.masked_all(shape)


def g_zonalmean(g, cf):
    a = g.data((g.nt, g.nz, g.ny, g.nx))
    e = out(a.shape[:3])
    for i in np.ndindex(e.shape):
        v = [float(x) for x, m in zip(a.data[i], a.mask[i] if a.mask.shape else [False] * g.nx) if not m]
        if v:
            e[i] = sum(v) / len(v)
    return cf.ZonalMeanFunction(g.node(a, (g.T, g.Z, g.Y, g.X), "kg")), e, (g.T, g.Z, g.Y), "kg"


def _clim(g):
    nyear = g.rng.choice([1, 2, 3])
    four = g.rng.random() < 0.5
    more = 0
    if g.rng.random() < 0.1:
        nyear, g.nz, g.ny, g.nx = g.rng.choice([11, 15, 25]), min(g.nz, 2), min(g.ny, 2), min(g.nx, 2)
        g.ctx.count("many_years")
    elif g.rng.random() < 0.2:
        more = g.rng.randint(1, 11)
        g.ctx.count("incomplete_year")
    shape = (12 * nyear + more,) + ((g.nz, g.ny, g.nx) if four else (g.ny, g.nx))
    dims = (g.T,) + ((g.Z, g.Y, g.X) if four else (g.Y, g.X))
    if g.rng.random() < 0.5:
        miss = g.r.uniform(size=shape[1:]) < 0.2
        a = g.data(shape, np.broadcast_to(miss, shape))
    else:
        a = g.data(shape)
    g.ctx.count("years_%d" % nyear)
    return nyear, shape, dims, a


def g_oclim(g, cf):
    nyear, shape, dims, a = _clim(g)
    e = out((12,) + shape[1:])
    m = np.ma.getmaskarray(a)
    for i in np.ndindex(e.shape):
        ix = [(k,) + i[1:] for k in range(i[0], shape[0], 12)]
        if not any(m[j] for j in ix):
            e[i] = sum(float(a.data[j]) for j in ix) / len(ix)
    return cf.OclimFunction(g.node(a, dims, "K")), e, dims, "K"


def g_monthtoyear_noleap(g, cf):
    nyear, shape, dims, a = _clim(g)
    e = out((nyear,) + shape[1:])
    m = np.ma.getmaskarray(a)
    for i in np.ndindex(e.shape):
        ix = [(i[0] * 12 + k,) + i[1:] for k in range(12)]
        if not any(m[j] for j in ix):
            e[i] = sum(float(a.data[j]) * MONTH[k] for k, j in enumerate(ix)) / 365.0
    return cf.monthtoyear_noleapFunction(g.node(a, dims, "K")), e, dims, "K"


def _months(g, nyear, start, more=0):
    lens = MONTH * nyear + MONTH[:more]
    ends = start + np.cumsum(lens).astype(float)
    return ends, np.stack([ends - np.array(lens), ends], axis=1)


def _more(g):
    """Months after the last complete year"""
    return g.rng.randint(1, 11) if g.rng.random() < 0.2 else 0


TU = "days since 2000-01-01"


def g_oclim_time(g, cf):
    start = g.rng.choice([0, 0, 365, 7300])
    ends, b = _months(g, g.rng.choice([1, 2, 3]), start, _more(g))
    e = np.ma.array([(b[i, 0] + b[i, 1]) / 2 for i in range(12)])
    return cf.oclim_timeFunction(g.node(b, (g.T, "d2"), TU)), e, (g.T,), TU


def g_oclim_timebnds(g, cf):
    nyear = g.rng.choice([1, 2, 3])
    ends, b = _months(g, nyear, g.rng.choice([0, 365, 7300]))
    e = np.ma.array([[b[i, 0], b[12 * (nyear - 1) + i, 1]] for i in range(12)])
    kw, d = g.rng.choice([({}, "d2"), ({"bdim": "nb"}, "nb"), ({"bdim": "bnds"}, "bnds")])
    return cf.oclim_timebndsFunction(g.node(ends, (g.T,), TU), **kw), e, (g.T, d), TU


def g_monthtoyear_noleap_time(g, cf):
    nyear = g.rng.choice([1, 2, 3])
    ends, b = _months(g, nyear, g.rng.choice([365, 7300]), _more(g))
    e = np.ma.array([(b[12 * y, 0] + b[12 * y + 11, 1]) / 2 - 365 for y in range(nyear)])
    return cf.monthtoyear_noleap_timeFunction(g.node(b, (g.T, "d2"), TU)), e, (g.T,), TU


def g_monthtoyear_noleap_timebnds(g, cf):
    nyear = g.rng.choice([1, 2, 3])
    ends, b = _months(g, nyear, g.rng.choice([365, 7300]), _more(g))
    e = np.ma.array([[b[12 * y, 0] - 365, b[12 * y + 11, 1] - 365] for y in range(nyear)])
    kw, d = g.rng.choice([({}, "d2"), ({"bdim": "nb"}, "nb")])
    return cf.monthtoyear_noleap_timebndsFunction(g.node(b, (g.T, "d2"), TU), **kw), e, (g.T, d), TU


def g_ageofair(g, cf):
    n = g.rng.choice([3, 13, 25])
    y0, m0 = g.rng.choice([1990, 2000]), g.rng.randint(1, 12)
    ym = [(y0 + (m0 - 1 + i) // 12, (m0 - 1 + i) % 12 + 1) for i in range(n)]
    date = np.array([y * 10000 + m * 100 + 1 for y, m in ym])
    ref = np.cumsum(g.r.uniform(0.1, 1.0, size=n))
    a = np.zeros((n, g.nz, g.ny))
    for iz in range(g.nz):
        for iy in range(g.ny):
            a[:, iz, iy] = ref - (0 if iz == iy == 0 else g.r.uniform(-1, 2))
    missing = _gaps(g, np.zeros(a.shape, bool))
    missing[:, 0, 0] = False
    a = np.ma.array(a, mask=missing)
    a.data[missing] = g.rng.choice([1e20, -999.0, 0.0])
    t = np.array([y + (m - 1.5) / 12.0 for y, m in ym])
    e = out(a.shape)
    for i in np.ndindex(a.shape):
        v = float(a.data[i])
        if missing[i]:
            continue
        if v <= ref[0]:
            t0 = t[0]
        elif v >= ref[-1]:
            t0 = t[-1]
        else:
            k = max(j for j in range(n - 1) if ref[j] <= v)
            t0 = t[k] + (t[k + 1] - t[k]) * (v - ref[k]) / (ref[k + 1] - ref[k])
        e[i] = t[i[0]] - t0
    lat = np.linspace(-60.0, 60.0, g.ny)
    if g.rng.random() < 0.4:
        lat = lat[::-1].copy()
        g.ctx.count("southward")
    f = cf.AgeofAirFunction(g.node(a, (g.T, g.Z, g.Y), "1"), g.node(date, (g.T,)), g.node(np.arange(float(n)), (g.T,), TU),
                            g.node(lat, (g.Y,)), g.node(np.arange(float(g.nz)), (g.Z,)))
    return f, e, (g.T, g.Z, g.Y), "yr"


def _years(g):
    n = g.rng.choice([1, 2, 3])
    first = g.rng.choice([0, 365, 365, 3650])
    if n == 1 and first == 0:
        first = 365
    if first == 0:
        g.ctx.count("year_zero")
    elif g.rng.random() < 0.2:
        first = -365 * g.rng.randint(n, n + 4)
        g.ctx.count("before_reference")
    return np.array([first + 365.0 * i for i in range(n)])


def g_yeartomonth_data(g, cf):
    t = _years(g)
    four = g.rng.random() < 0.5
    shape = (len(t),) + ((g.nz,) if four else ()) + (g.ny, g.nx)
    dims = (g.T,) + ((g.Z,) if four else ()) + (g.Y, g.X)
    a = g.data(shape)
    rows = [i for i in range(len(t)) if t[i] != 0]
    e = np.ma.concatenate([a[i:i + 1] for i in rows for _ in range(12)])
    lat, lon = g.node(np.arange(float(g.ny)), (g.Y,)), g.node(np.arange(float(g.nx)), (g.X,))
    d, tn = g.node(a, dims, "K"), g.node(t, (g.T,), TU)
    if four:
        g.ctx.count("yeartomonth_3D")
        return cf.YeartoMonth_data3DFunction(d, tn, lat, lon, g.node(np.arange(float(g.nz)), (g.Z,))), e, dims, "K"
    return cf.YeartoMonth_dataFunction(d, tn, lat, lon), e, dims, "K"


def g_yeartomonth_time(g, cf):
    t = _years(g)
    e = []
    for x in t:
        if x != 0:
            s = x - 365
            for L in MONTH:
                e.append(s + L / 2.0)
                s += L
    return cf.YeartoMonth_timeFunction(g.node(t, (g.T,), TU)), np.ma.array(e), (g.T,), TU


def g_POP_bottom_layer(g, cf):
    k = g.kmt()
    shape = (g.nt, g.nz, g.ny, g.nx)
    a = g.data(shape, g.rng.choice([np.broadcast_to(g.below(k), shape), None]))
    e = out((g.nt, g.ny, g.nx))
    for t, j, i in np.ndindex(e.shape):
        if k[j, i] > 0:
            e[t, j, i] = a[t, k[j, i] - 1, j, i]
    return cf.POP_bottom_layerFunction(g.depth(k), g.node(a, (g.T, g.Z, g.Y, g.X), "degC")), e, (g.T, g.Y, g.X), "degC"


def _ocean(g):
    k = g.kmt()
    shape = (g.nt, g.nz, g.ny, g.nx)
    return k, g.data(shape, _gaps(g, np.broadcast_to(g.below(k), shape)))


def _gaps(g, missing):
    """Where points are missing besides those"""
    if g.rng.random() < 0.3:
        missing = missing | (g.r.uniform(size=missing.shape) < 0.15)
        g.ctx.count("gaps")
    return missing


def g_diff_axis1_ind0bczero_4d(g, cf):
    k, a = _ocean(g)
    e = out(a.shape)
    for t, z, j, i in np.ndindex(a.shape):
        if z < k[j, i] and not a.mask[t, z, j, i] and not (z and a.mask[t, z - 1, j, i]):
            e[t, z, j, i] = float(a.data[t, z, j, i]) - (float(a.data[t, z - 1, j, i]) if z else 0.0)
    f = cf.diff_axis1_ind0bczero_4dFunction(g.depth(k), g.node(np.arange(float(g.nz)), ("newz",), "m"),
                                            g.node(a, (g.T, g.Z, g.Y, g.X), "W m-2"))
    return f, e, (g.T, "newz", g.Y, g.X), "W m-2"


def g_rsdoabsorb(g, cf):
    k, a = _ocean(g)
    e = out(a.shape)
    for t, z, j, i in np.ndindex(a.shape):
        more = z + 1 < k[j, i]
        if z < k[j, i] and not a.mask[t, z, j, i] and not (more and a.mask[t, z + 1, j, i]):
            e[t, z, j, i] = float(a.data[t, z, j, i]) - (float(a.data[t, z + 1, j, i]) if more else 0.0)
    f = cf.rsdoabsorbFunction(g.depth(k), g.node(np.arange(float(g.nz)), ("z_t",), "m"),
                              g.node(a, (g.T, g.Z, g.Y, g.X), "W m-2"))
    return f, e, (g.T, "z_t", g.Y, g.X), "W m-2"


def g_POP_surf_mean(g, cf):
    k = g.kmt()
    if not k.any():
        k[0, 0] = g.nz
    area = g.r.uniform(0.5, 2.0, size=k.shape) * g.rng.choice([1.0, 1.0, 1e-6, 1e10])
    a = g.data((g.nt, g.ny, g.nx), _gaps(g, np.broadcast_to(k == 0, (g.nt, g.ny, g.nx))))
    e = out((g.nt,))
    for t in range(g.nt):
        s = w = 0.0
        for j, i in np.ndindex(k.shape):
            if k[j, i] > 0 and not a.mask[t, j, i]:
                s += area[j, i] * float(a.data[t, j, i])
                w += area[j, i]
        if w:
            e[t] = s / w
    f = cf.POP_surf_meanFunction(g.depth(k), g.node(area, (g.Y, g.X), "cm2"), g.node(a, (g.T, g.Y, g.X), "degC"))
    return f, e, (g.T,), "degC"


def g_POP_3D_mean(g, cf):
    k, a = _ocean(g)
    if not k.any():
        k[0, 0] = g.nz
    area, dz = g.r.uniform(0.5, 2.0, size=k.shape) * g.rng.choice([1.0, 1.0, 1e-6, 1e10]), g.r.uniform(1.0, 9.0, size=g.nz)
    e = out((g.nt,))
    for t in range(g.nt):
        s = w = 0.0
        for z, j, i in np.ndindex(a.shape[1:]):
            if z < k[j, i] and not a.mask[t, z, j, i]:
                s += dz[z] * area[j, i] * float(a.data[t, z, j, i])
                w += dz[z] * area[j, i]
        if w:
            e[t] = s / w
    f = cf.POP_3D_meanFunction(g.depth(k), g.node(dz, (g.Z,), "cm"), g.node(area, (g.Y, g.X), "cm2"),
                               g.node(a, (g.T, g.Z, g.Y, g.X), "degC"))
    return f, e, (g.T,), "degC"


def g_sftof(g, cf):
    k = g.kmt()
    return cf.sftofFunction(g.depth(k)), np.ma.array((k > 0).astype(float)), (g.Y, g.X), "1"


def g_POP_bottom_layer_multadd(g, cf):
    k, a = _ocean(g)
    if g.rng.random() < 0.5:
        a = g.data(a.shape)
    d = g.r.uniform(1, 9, size=g.nz)
    e = out((g.nt,))
    for t in range(g.nt):
        s = 0.0
        for j, i in np.ndindex(k.shape):
            z = k[j, i] - 1
            if z >= 0 and not np.ma.getmaskarray(a)[t, z, j, i]:
                s += d[z] * float(a.data[t, z, j, i])
        e[t] = s
    f = cf.POP_bottom_layer_multaddFunction(g.depth(k), g.node(d, (g.Z,), "m"), g.node(a, (g.T, g.Z, g.Y, g.X), "kg"))
    return f, e, (g.T,), "m.kg"


def g_POP_layer_sum_mult(g, cf):
    k, a = _ocean(g)
    d = g.r.uniform(1, 9, size=g.nz)
    if g.rng.random() < 0.3:
        # fewer levels of data than the ocean is deep
        n = g.rng.randint(1, g.nz)
        a, d = a[:, :n], d[:n]
    e = out((g.nt, g.ny, g.nx))
    for t, j, i in np.ndindex(e.shape):
        need = range(min(k[j, i], a.shape[1]))
        if k[j, i] > 0 and not any(a.mask[t, z, j, i] for z in need):
            e[t, j, i] = sum(d[z] * float(a.data[t, z, j, i]) for z in need)
    f = cf.POP_layer_sum_multFunction(g.depth(k), g.node(d, (g.Z,), "m"), g.node(a, (g.T, g.Z, g.Y, g.X), "kg"))
    return f, e, (g.T, g.Y, g.X), "m.kg"


def g_masked_invalid(g, cf):
    nd = g.rng.choice([2, 3, 4])
    dims = (g.T, g.Z, g.Y, g.X)[:nd]
    a = g.data((g.nt, g.nz, g.ny, g.nx)[:nd])
    m = np.ma.getmaskarray(a).copy()
    for i in np.ndindex(a.shape):
        if a.dtype.kind == "f" and not m[i] and g.rng.random() < 0.2:
            a.data[i] = g.rng.choice([np.nan, np.inf, -np.inf])
            m[i] = True
            g.ctx.count("invalid_points")
    return cf.masked_invalidFunction(g.node(a, dims, "K")), np.ma.array(a.data, mask=m), dims, "K"


def g_hemisphere(g, cf):
    a = g.data((g.nt, g.ny, g.nx))
    names = (g.T, g.Y, g.X)
    if g.T == "time":
        ax = g.rng.randrange(3)
    else:
        names = ("time", g.Y, g.X)
        ax = g.rng.randrange(3)
    dr = g.rng.choice([">", "<"])
    h = a.shape[ax] // 2
    g.ctx.count("odd_rows" if a.shape[ax] % 2 else "even_rows")
    ix = [range(n) for n in a.shape]
    ix[ax] = range(h, a.shape[ax]) if dr == ">" else range(0, h)
    e = a[np.ix_(*ix)]
    # (a part of the name that no other name has will do)
    n = names[ax]
    parts = [n[i:j] for i in range(len(n)) for j in range(i + 1, len(n) + 1)]
    parts = [q for q in parts if not any(q in o for o in names if o != n)]
    part = g.rng.choice([n] + parts)
    if not n.startswith(part):
        g.ctx.count("part_of_name")
    return cf.hemisphereFunction(g.node(a, names, "1"), dim=part, dr=dr), e, names, "1"


def g_cice_where(g, cf):
    shape = (g.nt, g.ny, g.nx)
    a = g.data(shape)
    a = np.ma.array(np.where(np.ma.getmaskarray(a), a.data, np.round(np.nan_to_num(a.data))), mask=np.ma.getmaskarray(a))
    cond = g.rng.choice([">=", "<=", "==", ">", "<"])
    lim = g.rng.choice([0, 1.0, -2, 0.5])
    flat = g.rng.random() < 0.4
    v = g.data(shape[1:] if flat else shape)
    val = g.rng.choice([0, 1, -7.5])
    e = out(shape)
    op = {">=": lambda p: p >= lim, "<=": lambda p: p <= lim, "==": lambda p: p == lim, ">": lambda p: p > lim,
          "<": lambda p: p < lim}[cond]
    for i in np.ndindex(shape):
        if not np.ma.getmaskarray(a)[i]:
            e[i] = v[i[1:] if flat else i] if op(float(a.data[i])) else val
    g.ctx.count("where_" + cond)
    f = cf.cice_whereFunction(g.node(a, (g.T, g.Y, g.X)), cond, lim, g.node(v, (g.Y, g.X) if flat else (g.T, g.Y, g.X), "m s-1"), val)
    return f, e, (g.T, g.Y, g.X), "m s-1"


def g_cice_regions(g, cf):
    nt, ny, nx = g.rng.choice([1, 2]), 382, 246
    sparse = g.r.uniform(size=(nt, ny, nx)) < 0.05
    a = g.data((nt, ny, nx), np.zeros((nt, ny, nx), bool), 0, 1)
    u = g.data((nt, ny, nx), sparse)
    v = g.data((nt, ny, nx), g.r.uniform(size=(nt, ny, nx)) < 0.05)
    hte, htn = g.r.uniform(1, 2, size=(ny, nx)), g.r.uniform(1, 2, size=(ny, nx))
    mult = g.rng.choice([1, 2.5, -1])
    uf, vf = [np.where(np.ma.getmaskarray(w), 0.0, w.data.astype(float)) for w in (u, v)]
    ad = a.data.astype(float)
    e = out((nt, 4))

    def east(t, j, i):
        return 0.25 * (ad[t, j, i] + ad[t, j, i + 1]) * hte[j, i] * (uf[t, j, i] + uf[t, j - 1, i])

    def north(t, j, i):
        return 0.25 * (ad[t, j, i] + ad[t, j + 1, i]) * htn[j, i] * (vf[t, j, i] + vf[t, j, i - 1])

    for t in range(nt):
        e[t, 0] = sum(east(t, j, 92) for j in range(370, 381))
        e[t, 1] = (sum(east(t, j, 214) + north(t, j, 214) for j in (375, 376))
                   + sum(east(t, 366, i) + north(t, 366, i) for i in range(240, 244)))
        e[t, 2] = sum(east(t, j, 85) for j in range(344, 366))
        e[t, 3] = sum(north(t, 333, i) for i in range(198, 201))
    e = e * mult
    d3, d2 = (g.T, g.Y, g.X), (g.Y, g.X)
    f = cf.cice_regionsFunction(g.node(a, d3), g.node(u, d3, "m s-1"), g.node(v, d3, "m s-1"), g.node(hte, d2, "m"),
                                g.node(htn, d2, "m"), g.node(np.arange(4), ("line",)), mult)
    return f, e, (g.T, "line"), "m s-1"


def g_burntFraction(g, cf):
    nt = g.rng.choice([1, 5, 12, 13, 25, 30])
    if nt > 12:
        g.ctx.count("second_january")
    a = g.data((nt, g.ny, g.nx), None, 0, 1e-6)
    e = out(a.shape)
    for i in np.ndindex(a.shape):
        if not np.ma.getmaskarray(a)[i]:
            e[i] = float(a.data[i]) * MONTH[i[0] % 12] * 86400 * 100
    return cf.burntFractionFunction(g.node(a, (g.T, g.Y, g.X), "s-1")), e, (g.T, g.Y, g.X), "s-1"


def g_reduce_lu(g, cf):
    shape = (g.nt, 9, g.ny, g.nx)
    a = g.data(shape, _gaps(g, np.broadcast_to(g.r.uniform(size=(g.ny, g.nx)) < 0.3, shape)))
    e = out((g.nt, 4, g.ny, g.nx))
    m = np.ma.getmaskarray(a)
    for t, j, i in np.ndindex(g.nt, g.ny, g.nx):
        e[t, 1, j, i] = 0.0
        e[t, 0, j, i] = a[t, 0, j, i]
        e[t, 2, j, i] = a[t, 1, j, i]
        if not m[t, 6:9, j, i].any():
            e[t, 3, j, i] = sum(float(a.data[t, k, j, i]) for k in (6, 7, 8))
    return cf.reduce_luFunction(g.node(a, (g.T, "ltype", g.Y, g.X), "kg"), g.node(np.arange(4), ("landUse",))), e, \
        (g.T, "landUse", g.Y, g.X), "kg"


def g_get_soilpools(g, cf):
    a = [g.data((g.nt, g.ny, g.nx)) for _ in range(3)]
    f = cf.get_soilpoolsFunction(*[g.node(x, (g.T, g.Y, g.X), "kg") for x in a], g.node(np.arange(3), ("pool",)))
    e = out((g.nt, 3, g.ny, g.nx))
    for t, p, j, i in np.ndindex(e.shape):
        e[t, p, j, i] = a[p][t, j, i]
    return f, e, (g.T, "pool", g.Y, g.X), "kg"


def g_get_nonwoodyveg(g, cf):
    sea = g.r.uniform(size=(g.ny, g.nx)) < 0.3
    nat = g.data((g.nt, 15, g.ny, g.nx), _gaps(g, np.broadcast_to(sea, (g.nt, 15, g.ny, g.nx))), 0, 30)
    crop = g.data((g.nt, 2, g.ny, g.nx), _gaps(g, np.broadcast_to(sea, (g.nt, 2, g.ny, g.nx))), 0, 30)
    none = (g.r.uniform(size=(g.nt, g.ny, g.nx)) < 0.5) & ~np.ma.getmaskarray(crop)[:, 1]
    crop.data[:, 1][none] = 0.0
    land = g.data((g.ny, g.nx), sea, 0, 1)
    whole = (g.r.uniform(size=sea.shape) < 0.4) & ~sea
    land.data[whole] = 1.0
    if g.rng.random() < 0.3:
        bare = (g.r.uniform(size=sea.shape) < 0.3) & ~sea
        land.data[bare] = 0.0
        g.ctx.count("no_land", int(bare.any()))
    g.ctx.count("whole_land", int(whole.any()))
    e = out((g.nt, 4, g.ny, g.nx))
    for t, j, i in np.ndindex(g.nt, g.ny, g.nx):
        if not sea[j, i]:
            e[t, 1, j, i] = e[t, 3, j, i] = 0.0
            if not np.ma.getmaskarray(crop)[t, 1, j, i]:
                e[t, 2, j, i] = 100.0 if crop.data[t, 1, j, i] > 0 else 0.0
        if not np.ma.getmaskarray(nat)[t, 12:15, j, i].any():
            e[t, 0, j, i] = sum(float(nat.data[t, k, j, i]) for k in (12, 13, 14))
    f = cf.get_nonwoodyvegFunction(g.node(nat, (g.T, "natpft", g.Y, g.X), "%"), g.node(crop, (g.T, "cft", g.Y, g.X), "%"),
                                   g.node(land, (g.Y, g.X)), g.node(np.arange(4), ("landUse",)))
    return f, e, (g.T, "landUse", g.Y, g.X), "%"


def g_expand_latlon(g, cf):
    a = g.data((g.nt,))
    e = out((g.nt, g.ny, g.nx))
    for t, j, i in np.ndindex(e.shape):
        e[t, j, i] = a[t]
    f = cf.expand_latlonFunction(g.node(a, (g.T,), "kg"), g.node(np.arange(float(g.ny)), (g.Y,)), g.node(np.arange(float(g.nx)), (g.X,)))
    return f, e, (g.T, g.Y, g.X), "kg"


def g_ocean_basin(g, cf):
    nc = g.rng.randint(1, 3)
    comp = g.rng.randrange(nc)
    shape = (g.nt, 2, nc, g.nz, g.ny)
    a = g.data(shape)
    e = out((g.nt, g.ny, g.nz, 3))
    for t, y, z in np.ndindex(g.nt, g.ny, g.nz):
        one, two = a[t, 1, comp, z, y], a[t, 0, comp, z, y]
        e[t, y, z, 0] = one
        e[t, y, z, 2] = two
        if one is not np.ma.masked and two is not np.ma.masked:
            e[t, y, z, 1] = float(two) - float(one)
    f = cf.ocean_basinFunction(g.node(a, (g.T, "reg", "comp", g.Z, g.Y), "kg"), g.rng.choice([comp, str(comp)]), g.node(np.arange(3), ("basin",)))
    return f, e, (g.T, g.Y, g.Z, "basin"), "kg"


def _hybrid(g, n):
    if g.rng.random() < 0.3:
        # the part fixed in height grows and vanishes again towards the ground
        g.ctx.count("bent_levels")
        a = np.sort(g.r.uniform(0.0, 0.2, size=n))
        k = g.rng.randrange(n)
        return np.concatenate([a[:k], a[k:][::-1] * 0.9]), np.sort(g.r.uniform(0.0, 0.8, size=n))
    return np.sort(g.r.uniform(0.0, 0.2, size=n)), np.sort(g.r.uniform(0.0, 0.8, size=n))


def _atm(g):
    p0u = g.rng.choice(["Pa", "Pa", "hPa"])
    psu = g.rng.choice(["Pa", "Pa", "hPa"])
    if (p0u, psu) != ("Pa", "Pa"):
        g.ctx.count("pressure_units")
    ps = g.data((g.nt, g.ny, g.nx), g.rng.choice([None, np.zeros((g.nt, g.ny, g.nx), bool)]), 9e4, 1.05e5)
    p = np.ma.array(ps.data.astype(float), mask=np.ma.getmaskarray(ps))
    if psu == "hPa":
        ps = np.ma.array(ps.data / 100, mask=np.ma.getmaskarray(ps))
    po = g.node(np.array(1e5 if p0u == "Pa" else 1e3), (), p0u, "P0")
    return po, g.node(ps, (g.T, g.Y, g.X), psu, "PS"), p


def g_delp(g, cf):
    po, psn, ps = _atm(g)
    a, b = _hybrid(g, g.nz + 1)
    if g.rng.random() < 0.3:
        a, b = a[::-1].copy(), b[::-1].copy()
        g.ctx.count("upward_levels")
    args = po, psn, g.node(a, ("ilev",)), g.node(b, ("ilev",))
    e = out((g.nt, g.nz + 1, g.ny, g.nx))
    for t, z, j, i in np.ndindex(e.shape):
        if z == g.nz:
            e[t, z, j, i] = 0.0
        elif not ps.mask[t, j, i]:
            e[t, z, j, i] = (a[z + 1] - a[z]) * 1e5 + (b[z + 1] - b[z]) * ps.data[t, j, i]
    if cf.__name__.endswith("commonfunctions"):
        return cf.delpFunction(*args), e.transpose(1, 0, 2, 3), ("ilev", g.T, g.Y, g.X), "Pa"
    return cf.delpFunction(*args), e, (g.T, "ilev", g.Y, g.X), "Pa"


def g_rho(g, cf, pm=False):
    po, psn, ps = _atm(g)
    a, b = _hybrid(g, g.nz)
    shape = (g.nt, g.nz, g.ny, g.nx)
    temp = g.data(shape, None, 200, 300)
    args = [po, psn, g.node(a, (g.Z,)), g.node(b, (g.Z,)), g.node(temp, (g.T, g.Z, g.Y, g.X), "K")]
    con = None
    if pm:
        con = g.data(shape, None, 0, 1e-8)
        args.append(g.node(con, (g.T, g.Z, g.Y, g.X), "kg m-3"))
    e = out(shape)
    m = np.ma.getmaskarray(temp) | (np.ma.getmaskarray(con) if pm else False)
    for t, z, j, i in np.ndindex(shape):
        if not (ps.mask[t, j, i] or m[t, z, j, i]):
            p = a[z] * 1e5 + b[z] * ps.data[t, j, i]
            T = float(temp.data[t, z, j, i])
            e[t, z, j, i] = float(con.data[t, z, j, i]) * 287.0 * T / p if pm else p / (287.04 * T)
    return (cf.pm25Function if pm else cf.rhoFunction)(*args), e, (g.T, g.Z, g.Y, g.X), "kg/kg" if pm else "cm-3"


def g_pm25(g, cf):
    return g_rho(g, cf, True)


def g_emilnox(g, cf):
    g.ny, g.nx = max(2, g.ny), max(2, g.nx)
    shape = (g.nt, g.nz, g.ny, g.nx)
    ps = g.r.uniform(9e4, 1.05e5, size=(g.nt, g.ny, g.nx))
    ai, bi = _hybrid(g, g.nz + 1)
    a, b = _hybrid(g, g.nz)
    # levels from the ground up, interfaces from the top down
    temp, lno = g.data(shape, None, 200, 300), g.data(shape, None, 0, 1e5)
    lat = np.linspace(-80, 80, g.ny) if g.rng.random() < 0.5 else np.linspace(10, 50, g.ny)
    lon = np.linspace(0, 300, g.nx)
    e = out(shape)
    re, rad = 6.37e6, 360.0 / (2 * np.pi)
    mt, ml = np.ma.getmaskarray(temp), np.ma.getmaskarray(lno)
    for t, z, j, i in np.ndindex(shape):
        if mt[t, z, j, i] or ml[t, z, j, i]:
            continue
        pi = [ai[::-1][q] * 1e5 + bi[::-1][q] * ps[t, j, i] for q in (z, z + 1)]
        rho = (a[z] * 1e5 + b[z] * ps[t, j, i]) / (287.04 * float(temp.data[t, z, j, i]))
        area = re * np.cos(lat[j] / rad) * (lon[1] - lon[0]) / rad * re * (lat[1] - lat[0]) / rad
        e[t, z, j, i] = float(lno.data[t, z, j, i]) / 6.022e23 * (pi[0] - pi[1]) / 9.81 / rho * area * 1e6
    d4 = (g.T, g.Z, g.Y, g.X)
    f = cf.emilnoxFunction(g.node(np.array(1e5), (), "Pa"), g.node(ps, (g.T, g.Y, g.X), "Pa"), g.node(ai, ("ilev",)),
                           g.node(bi, ("ilev",)), g.node(a, (g.Z,)), g.node(b, (g.Z,)), g.node(temp, d4, "K"),
                           g.node(lno, d4, "cm-3 s-1"), g.node(lon, (g.X,), "degrees_east"),
                           g.node(lat, (g.Y,), "degrees_north"), g.node(np.arange(float(g.nt)), (g.T,), TU))
    return f, e, d4, "mol s-1"


FUNCTIONS = {n[2:]: f for n, f in sorted(globals().items()) if n.startswith("g_")}
NAMES = sorted(FUNCTIONS) + ["atm_delp", "atm_rho", "atm_pm25"]
RARE = {"cice_regions"}
REQUIRED = NAMES + ["announced", "pieces", "missing_points", "land", "full_depth", "fill_large", "fill_other", "year_zero",
                    "second_january", "odd_rows", "even_rows", "pressure_units", "years_1", "years_2", "years_3", "many_years", "incomplete_year",
                    "invalid_points", "larger", "before_reference", "gaps", "float_kmt", "missing_kmt", "part_of_name", "whole_land", "no_land", "bent_levels", "southward", "tiny_data", "huge_data", "integer_data", "negative_kmt", "upward_levels", "yeartomonth_3D", "refused_chunks", "written", "written_chunked"] + \
    ["where_" + c for c in (">=", "<=", "==", ">", "<")]


# functions of data of both signs between -5 and 5, whose terms may cancel
CANCEL = {"oclim", "monthtoyear_noleap", "zonalmean", "POP_surf_mean", "POP_3D_mean", "POP_layer_sum_mult",
          "diff_axis1_ind0bczero_4d", "rsdoabsorb", "reduce_lu", "get_soilpools", "written"}


def judge(ctx, got, exp, what, key, size=1.0, single=True):
    gm, em = np.ma.getmaskarray(got), np.ma.getmaskarray(exp)
    ctx.check(got.shape == exp.shape, key + "-shape", lambda: "{}: {} expected {}".format(what, got.shape, exp.shape))
    ctx.check(np.array_equal(gm, em), key + "-mask", lambda: "{}: mask {} expected {}".format(what, gm.tolist(), em.tolist()))
    g, e = np.asarray(got.data, float)[~em], np.asarray(exp.data, float)[~em]
    scale = float(np.abs(e).max()) if e.size else 0.0
    if key.replace("piece-", "") in CANCEL:
        scale = max(scale, 2.5 * size)
    ctx.check(np.all(np.abs(g - e) <= (2e-6 if single else 1e-9) * scale), key + "-values", lambda: "{}: {} expected {}".format(
        what, np.ma.filled(got.astype(float), np.nan).tolist(), np.ma.filled(exp.astype(float), np.nan).tolist()))
    ctx.count("points", int(exp.size))
    ctx.count("missing_points", int(em.sum()))


def case(ctx):
    from pyconform.modules import atm_funcs, commonfunctions
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    if rng.random() < 0.05:
        return written(ctx)
    name = rng.choice(NAMES)
    if name in RARE and rng.random() < 0.6:
        name = "oclim"
    ctx.count(name)
    g = Gen(ctx)
    with np.errstate(all="ignore"):
        if name.startswith("atm_"):
            f, exp, dims, units = FUNCTIONS[name[4:]](g, atm_funcs)
        else:
            f, exp, dims, units = FUNCTIONS[name](g, commonfunctions)
        exp = np.ma.array(exp)
        what = "{} {}".format(name, {n: (p.dimensions, p.shape) for p, _d, _m, n in g.inputs} if len(g.inputs) < 3 else
                              [(p.dimensions, p.shape) for p, _d, _m, n in g.inputs])
        ctx.sample(what)
        info = f[None]
        ctx.check(isinstance(info, PhysArray) and info.dimensions == dims, "announced-dimensions",
                  lambda: "{}: {} expected {}".format(what, getattr(info, "dimensions", info), dims))
        ctx.check(str(info.units) == units, "announced-units", lambda: "{}: {} expected {}".format(what, info.units, units))
        ctx.count("announced")
        got = f[:]
        ctx.check(isinstance(got, PhysArray) and got.dimensions == dims, "dimensions",
                  lambda: "{}: {} expected {}".format(what, getattr(got, "dimensions", None), dims))
        ctx.check(str(got.units) == units, "units", lambda: "{}: {} expected {}".format(what, got.units, units))
        judge(ctx, got, exp, what, name, g.size, g.single)
        ctx.nontrivial(name, exp.shape, np.ma.getmaskarray(exp).tobytes())
        # in pieces along the dimensions the function does not claim to need whole
        for ax, d in enumerate(dims):
            if d in f.sumlike_dimensions or exp.shape[ax] < 2 or name == "cice_regions":
                continue
            if not any(d in p.dimensions for p, _d, _m, _n in g.inputs):
                continue
            n = exp.shape[ax]
            k = rng.randint(1, n - 1)
            more = rng.choice([slice(None, None, -1), slice(-1, -n - 1, -1), slice(-k, None), slice(k, None, -2),
                               slice(k, n + 3), slice(1, None, 2)])
            for s in (slice(0, k), slice(k, n), more):
                part = f[{d: s}]
                judge(ctx, part, exp[(slice(None),) * ax + (s,)], "{} for {} {}".format(what, d, s), "piece-" + name, g.size, g.single)
                ctx.check(part.dimensions == dims, "dimensions", lambda: what)
            ctx.count("pieces")
    for p, v, m, n in g.inputs:
        ctx.check(np.array_equal(np.asarray(p.data), v, equal_nan=v.dtype.kind == "f") and np.array_equal(np.ma.getmaskarray(p), m),
                  "input-changed", lambda: "{}: argument {}".format(what, n))


def written(ctx):
    """Climatologies and yearly means through files, with their time coordinate"""
    import netCDF4
    import pyconform.modules.commonfunctions  # noqa: F401

    rng = ctx.rng
    g = Gen(ctx)
    nyear = rng.choice([1, 2, 3])
    ends, b = _months(g, nyear, 365)
    nt = 12 * nyear
    a = g.data((nt, g.ny, g.nx), np.broadcast_to(g.r.uniform(size=(g.ny, g.nx)) < 0.2, (nt, g.ny, g.nx)))
    folder = ctx.scratch()
    fn = os.path.join(folder, "in.nc")
    fill = rng.choice([-999.0, 1e20, 9.96921e36])
    a = a.astype("f4")
    with netCDF4.Dataset(fn, "w") as f:
        for d, n in (("time", None), ("y", g.ny), ("x", g.nx), ("d2", 2)):
            f.createDimension(d, n)
        for n, v, d, u in (("time", ends, ("time",), TU), ("time_bnds", b, ("time", "d2"), TU),
                           ("y", np.arange(g.ny), ("y",), "m"), ("x", np.arange(g.nx), ("x",), "m")):
            q = f.createVariable(n, "f8", d)
            q[:] = v
            q.units = u
            if u == TU:
                q.calendar = "noleap"
        q = f.createVariable("v", "f4", ("time", "y", "x"), fill_value=fill)
        q.units = "K"
        q[:] = a
    kind = rng.choice(["oclim", "monthtoyear_noleap"])
    bd = "time" if kind == "oclim" else "time_bnds"
    out_file = os.path.join(folder, "o.nc")
    ta = OrderedDict([("axis", "T"), ("units", TU), ("calendar", "noleap"), ("bounds", "time_bnds")])
    d = OrderedDict([
        ("v", {"definition": kind + "(v)", "datatype": "float", "dimensions": ["time", "y", "x"],
               "attributes": {"units": "K", "_FillValue": rng.choice([1e20, -1.0])}, "file": {"filename": out_file}}),
        ("time", {"definition": kind + "_time(time_bnds)", "datatype": "double", "dimensions": ["time"], "attributes": ta}),
        ("time_bnds", {"definition": "{}_timebnds({}, bdim='d2')".format(kind, bd), "datatype": "double",
                       "dimensions": ["time", "d2"], "attributes": {"units": TU, "calendar": "noleap"}}),
        ("y", {"definition": "y", "datatype": "double", "dimensions": ["y"], "attributes": {"axis": "Y", "units": "m"}}),
        ("x", {"definition": "x", "datatype": "double", "dimensions": ["x"], "attributes": {"axis": "X", "units": "m"}})])
    what = "{} of {} years".format(kind, nyear)
    try:
        flow.run([fn], d, chunks={"time": rng.choice([1, 5, 12])})
    except ValueError:
        ctx.count("refused_chunks")
    else:
        ctx.fail("chunks-accepted", what)
    chunks = {}
    if rng.random() < 0.6:
        chunks = {"y": rng.randint(1, g.ny), "x": rng.randint(1, g.nx)}
        ctx.count("written_chunked")
    flow.run([fn], d, chunks=chunks)
    got = flow.read(out_file)["vars"]
    m = np.ma.getmaskarray(a)
    if kind == "oclim":
        e, t, tb = out((12, g.ny, g.nx)), [(b[i, 0] + b[i, 1]) / 2 for i in range(12)], \
            [[b[i, 0], b[nt - 12 + i, 1]] for i in range(12)]
        for k, j, i in np.ndindex(e.shape):
            if not m[0, j, i]:
                e[k, j, i] = sum(float(a.data[k + 12 * y, j, i]) for y in range(nyear)) / nyear
    else:
        e = out((nyear, g.ny, g.nx))
        t = [(b[12 * y, 0] + b[12 * y + 11, 1]) / 2 - 365 for y in range(nyear)]
        tb = [[b[12 * y, 0] - 365, b[12 * y + 11, 1] - 365] for y in range(nyear)]
        for k, j, i in np.ndindex(e.shape):
            if not m[0, j, i]:
                e[k, j, i] = sum(float(a.data[12 * k + q, j, i]) * MONTH[q] for q in range(12)) / 365.0
    judge(ctx, got["v"][2], e, what, "written", g.size)
    judge(ctx, got["time"][2], np.ma.array(t), what, "written-time")
    judge(ctx, got["time_bnds"][2], np.ma.array(tb), what, "written-bounds")
    ctx.count("written")
    ctx.nontrivial("written", kind, nyear, tuple(sorted(chunks.items())))
