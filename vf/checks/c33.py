"""C33: interpolation from hybrid levels to pressure levels"""
import math
import os
import sys
import types
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C33"
LEVEL = "exploration"
TECHNIQUE = ("value monitor: the real function and pipeline around a stand-in for the PyNGL interpolation (which checks and "
             "records every call), against an interpolation written out point by point")
RULE = ("random hybrid coordinates, surface and reference pressures and output levels in random units of pressure, fields of "
        "3 or 4 dimensions with random names, the three kinds of interpolation, with and without extrapolation, given as "
        "positional, keyword or default arguments; asked for whole, announced, in pieces, and written through files in "
        "pieces, with converted units, reversed or transposed dimensions; unsuitable dimensions rejected; distinct by shape, "
        "levels and options")
CASES = {"quick": 1500, "thorough": 40000}
REQUIRED = {"calls": 2000, "below": 200, "above": 100, "between": 1000, "dims3": 100, "dims4": 100, "kind_1": 50, "kind_2": 50,
            "kind_3": 50, "extrapolate": 100, "units_differ": 200, "pieces": 200, "written": 100, "converted": 20,
            "chunked": 50, "refused": 50, "rejected": 100, "reversed": 20, "transposed": 20, "positive": 50, "positional": 50}
ASSUMPTIONS = ["PyNGL is absent: its vinth2p is a stand-in with the documented arguments (levels and reference pressure in "
               "mbar, surface pressure in Pa, missing results 1e30)"]
CALLS = []
UNITS = {"Pa": 1.0, "hPa": 100.0, "mbar": 100.0, "kPa": 1000.0, "atm": 101325.0}


def transform(kind, p):
    if kind == 1:
        return p
    if kind == 2:
        return math.log(p)
    return math.log(math.log(p + 2.72))


def column(y, p, target, kind, extrapolate):
    """One value of a column y at pressures p (mbar, increasing), None when it is below the lowest level"""
    n = len(p)
    if target > p[-1]:
        if not extrapolate:
            return None
        return y[-1]
    k = 0
    while k < n - 2 and target > p[k + 1]:
        k += 1
    a, b, t = transform(kind, p[k]), transform(kind, p[k + 1]), transform(kind, target)
    return y[k] + (y[k + 1] - y[k]) * (t - a) / (b - a)


def vinth2p(datai, hbcofa, hbcofb, plevo, psfc, intyp, p0, ii, kxtrp):
    """Stand-in for Ngl.vinth2p"""
    args = [np.asarray(x) for x in (datai, hbcofa, hbcofb, plevo, psfc, p0)]
    d, a, b, pl, ps, ref = args
    bad = None
    if any(x.dtype.kind not in "fiu" for x in args):
        bad = "types {}".format([x.dtype for x in args])
    elif d.ndim not in (3, 4) or ps.shape != d.shape[:-3] + d.shape[-2:] or a.shape != (d.shape[-3],) or b.shape != a.shape \
            or pl.ndim != 1 or ref.size != 1:
        bad = "shapes {}".format([x.shape for x in args])
    elif intyp not in (1, 2, 3) or ii != 1 or kxtrp not in (True, False):
        bad = "options {}".format([intyp, ii, kxtrp])
    CALLS.append((tuple(x.shape for x in args), bad))
    if bad:
        raise ValueError("vinth2p: " + bad)
    if d.size == 0:  # announcement of the result without data
        return np.zeros(d.shape[:-3] + pl.shape + d.shape[-2:])
    ref = float(ref.reshape(-1)[0])
    d4 = d.reshape((-1,) + d.shape[-3:])
    s3 = ps.reshape((-1,) + ps.shape[-2:])
    out = np.empty((d4.shape[0], pl.size) + d4.shape[2:])
    for t, l, j, i in np.ndindex(*out.shape):
        p = [a[k] * ref + b[k] * s3[t, j, i] * 0.01 for k in range(a.size)]
        v = column(d4[t, :, j, i], p, pl[l], intyp, kxtrp)
        out[t, l, j, i] = 1e30 if v is None else v
    return out.reshape(d.shape[:-3] + out.shape[1:])


def load():
    if "pyconform.modules.pnglfunctions" not in sys.modules:
        m = types.ModuleType("Ngl")
        m.vinth2p = vinth2p
        sys.modules["Ngl"] = m
    from pyconform.modules import pnglfunctions

    return pnglfunctions


class World:
    def __init__(self, ctx, four=None):
        rng, r = ctx.rng, ctx.np_rng
        names = rng.sample(["time", "lev", "lat", "lon", "plev", "x", "y", "z", "ilev", "nlon", "nlat"], 5)
        self.t, self.z, self.y, self.x, self.l = names
        self.four = rng.random() < 0.6 if four is None else four
        self.size = {self.t: rng.randint(1, 3), self.z: rng.randint(2, 6), self.y: rng.randint(1, 3), self.x: rng.randint(1, 3),
                     self.l: rng.randint(1, 6)}
        lead = (self.t,) if self.four else ()
        ctx.count("dims4" if self.four else "dims3")
        self.dims = lead + (self.z, self.y, self.x)
        self.sdims = lead + (self.y, self.x)
        self.odims = lead + (self.l, self.y, self.x)
        n = self.size[self.z]
        eta = np.sort(r.uniform(0.02, 1.0, n))
        while n > 1 and np.min(np.diff(eta)) < 1e-3:
            eta = np.sort(r.uniform(0.02, 1.0, n))
        share = np.clip((eta - 0.1) / 0.9, 0, 1) if rng.random() < 0.7 else np.ones(n)
        self.p0 = rng.choice([100000.0, 101325.0, 1000.0 * 100])
        self.hyb = eta * share
        self.hya = eta - self.hyb
        self.ps = r.uniform(60000.0, 105000.0, self.shape(self.sdims))
        # Output levels away from the levels of every column
        p = self.pressure()
        low, high = p.min(), p.max()
        lv = []
        while len(lv) < self.size[self.l]:
            c = rng.choice([rng.uniform(low, high), rng.uniform(low, high), rng.uniform(high * 0.8, 1.2 * high),
                            rng.uniform(low * 0.5, low * 1.1)])
            if np.min(np.abs(p / c - 1)) > 1e-5 and c not in lv:
                lv.append(c)
        lv.sort(reverse=rng.random() < 0.5)
        self.lv = np.array(lv)
        self.data = r.uniform(-50, 50, self.shape(self.dims))
        self.kind, self.ext = rng.choice([1, 2, 3]), rng.choice([0, 0, 1])
        self.units = {k: rng.choice(["Pa", "Pa", "hPa", "mbar", "kPa", "atm"]) for k in ("ps", "p0", "lv")}
        if len(set(self.units.values())) > 1:
            ctx.count("units_differ")
        self.dunits = rng.choice(["K", "m s-1", "1", "kg kg-1"])
        self.positive = rng.choice([None, None, "up", "down"])
        if self.positive:
            ctx.count("positive")
        ctx.count("kind_%d" % self.kind)
        if self.ext:
            ctx.count("extrapolate")

    def shape(self, dims):
        return tuple(self.size[d] for d in dims)

    def pressure(self):
        ps = self.ps.reshape((-1, 1) + self.ps.shape[-2:])
        return self.hya[:, None, None] * self.p0 + self.hyb[:, None, None] * ps

    def expected(self, ctx):
        d = self.data.reshape((-1,) + self.data.shape[-3:])
        p = self.pressure() / 100.0
        out = np.ma.masked_all((d.shape[0], self.lv.size) + d.shape[2:])
        for t, l, j, i in np.ndindex(*out.shape):
            v = column(list(d[t, :, j, i]), list(p[t, :, j, i]), self.lv[l] / 100.0, self.kind, bool(self.ext))
            if v is None:
                ctx.count("below")
                continue
            out[t, l, j, i] = v
            ctx.count("above" if self.lv[l] / 100 < p[t, 0, j, i] else "between")
        return out.reshape(self.shape(self.odims))

    def arrays(self):
        u = self.units
        return OrderedDict([
            ("T", (self.data, self.dims, self.dunits)), ("hyam", (self.hya, (self.z,), "1")),
            ("hybm", (self.hyb, (self.z,), "1")), ("levels", (self.lv / UNITS[u["lv"]], (self.l,), u["lv"])),
            ("PS", (self.ps / UNITS[u["ps"]], self.sdims, u["ps"])),
            ("P0", (np.array(self.p0 / UNITS[u["p0"]]), (), u["p0"]))])

    def options(self, rng, ctx):
        """(positional, keywords)"""
        k = {"intyp": self.kind, "ixtrp": self.ext}
        if self.kind == 1 and rng.random() < 0.5:
            k.pop("intyp")
        if self.ext == 0 and rng.random() < 0.5:
            k.pop("ixtrp")
        if "intyp" in k and rng.random() < 0.4:
            ctx.count("positional")
            p = [k.pop("intyp")]
            if "ixtrp" in k and rng.random() < 0.7:
                p.append(k.pop("ixtrp"))
            return p, k
        return [], k

    def text(self):
        return "{} {} levels {} kind {} extrapolation {} units {}".format(
            self.dims, self.shape(self.dims), self.lv, self.kind, self.ext, self.units)


def judge(ctx, got, want, what, key, rtol=1e-8):
    ctx.check(np.shape(got) == want.shape, key + "-shape", lambda: "{}: shape {} expected {}".format(what, np.shape(got), want.shape))
    g = np.ma.masked_where(np.abs(np.ma.filled(got, 1e20) / 1e20 - 1) < 1e-5, got)  # marked with the value 1e20, or missing
    gm, wm = np.ma.getmaskarray(g), np.ma.getmaskarray(want)
    ctx.check(np.array_equal(gm, wm), key + "-missing", lambda: "{}: missing {} expected {}".format(
        what, np.argwhere(gm).tolist()[:20], np.argwhere(wm).tolist()[:20]))
    scale = max(1.0, float(np.max(np.abs(want.compressed()), initial=0)))
    ok = np.abs(np.ma.filled(g, 0) - np.ma.filled(want, 0)) <= rtol * scale
    ctx.check(ok.all(), key, lambda: "{}: got {} expected {}".format(what, g, want))


def called(ctx, what):
    bad = [b for _s, b in CALLS if b]
    ctx.check(not bad, "arguments", lambda: "{}: the library was given {}".format(what, bad[:3]))
    ctx.count("calls", len(CALLS))


def case(ctx):
    rng = ctx.rng
    del CALLS[:]
    r = rng.random()
    if r < 0.25:
        return written(ctx)
    if r < 0.35:
        return rejected(ctx)
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.physarray import PhysArray

    f = load().VertInterpFunction
    w = World(ctx)
    want = w.expected(ctx)
    # (a direction of the pressures or the levels is not one of the field)
    own = {n: rng.choice(["up", "down"]) for n in ("PS", "P0", "levels") if rng.random() < 0.15}
    arrays = [PhysArray(v, name=n, dimensions=d, units=u, positive=w.positive if n == "T" else own.get(n))
              for n, (v, d, u) in w.arrays().items()]
    before = [a.copy() for a in arrays]
    p, k = w.options(rng, ctx)
    nodes = [DataNode(a) for a in arrays]
    node = EvalNode("vinth2p", f, *(nodes + p), **k)
    what = w.text()
    info = node[None]
    got = node[:] if rng.random() < 0.5 else node[{}]
    for o, s in ((info, "announced-"), (got, "")):
        ctx.check(o.dimensions == w.odims, s + "dimensions", lambda: "{}: {} expected {}".format(what, o.dimensions, w.odims))
        ctx.check(o.units == before[0].units, s + "units", lambda: "{}: {}".format(what, o.units))
        ctx.check(o.positive == w.positive, s + "positive", lambda: "{}: {}".format(what, o.positive))
    judge(ctx, got, want, what, "values")
    for d in (w.z, w.l):
        ctx.check(d in node.sumlike_dimensions, "sumlike", lambda: "{}: {} not in {}".format(what, d, node.sumlike_dimensions))
    for ax, d in enumerate(w.odims):
        n = w.size[d]
        if d in node.sumlike_dimensions or n < 2:
            continue
        c = rng.randint(1, n - 1)
        for s in (slice(0, c), slice(c, None), slice(None, None, -1)):
            judge(ctx, node[{d: s}], want[(slice(None),) * ax + (s,)], "{} for {} {}".format(what, d, s), "piece")
        ctx.count("pieces")
    for a, b in zip(arrays, before):
        ctx.check(np.array_equal(np.ma.getdata(a), np.ma.getdata(b)) and a.units == b.units, "input-changed", what)
    called(ctx, what)
    ctx.sample(what)
    ctx.nontrivial(w.shape(w.dims), w.lv.tobytes(), w.kind, w.ext)


def rejected(ctx):
    """Arguments of unsuitable dimensions"""
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    f = load().VertInterpFunction
    w = World(ctx)
    a = w.arrays()
    how = rng.choice(["rank", "coefficients", "coefficient-rank", "levels", "reference", "surface", "order"])
    v, d, u = a["T"]
    if how == "rank":
        a["T"] = (v[0, 0] if w.four else v[0], d[2 if w.four else 1:], u)
    elif how == "coefficients":
        a["hybm"] = (a["hybm"][0], ("other",), "1")
    elif how == "coefficient-rank":
        n = rng.choice(["hyam", "hybm"])
        a[n] = (a[n][0][None], ("other",) + a[n][1], "1")
    elif how == "levels":
        a["levels"] = (a["levels"][0][:, None], a["levels"][1] + ("other",), a["levels"][2])
    elif how == "reference":
        a["P0"] = (a["P0"][0].reshape(1), ("other",), a["P0"][2])
    elif how == "surface":
        q = list(a["PS"][1])
        q[rng.randrange(len(q))] = "other"
        a["PS"] = (a["PS"][0], tuple(q), a["PS"][2])
    else:
        o = list(range(len(d)))
        o[-3:] = rng.choice([[o[-2], o[-3], o[-1]], [o[-2], o[-1], o[-3]], [o[-3], o[-1], o[-2]]])
        a["T"] = (v.transpose(o), tuple(d[i] for i in o), u)
    nodes = [DataNode(PhysArray(x, name=n, dimensions=y, units=z)) for n, (x, y, z) in a.items()]
    try:
        EvalNode("vinth2p", f, *nodes)
    except Exception:
        ctx.count("rejected")
    else:
        ctx.fail("accepted", "{}: {} accepted: {}".format(w.text(), how, [(n, x[1]) for n, x in a.items()]))
    ctx.nontrivial("rejected", how, w.dims)


def written(ctx):
    import netCDF4

    load()
    rng = ctx.rng
    w = World(ctx)
    want = w.expected(ctx)
    folder = ctx.scratch()
    fn = os.path.join(folder, "in.nc")
    kinds = {}
    with netCDF4.Dataset(fn, "w") as f:
        for d in set(w.dims + w.odims):
            f.createDimension(d, None if d == w.t and rng.random() < 0.5 else w.size[d])
        for n, (v, dims, u) in w.arrays().items():
            q = f.createVariable(n, "f8", dims)
            q.units = u
            if n == "T" and w.positive:
                q.positive = w.positive
            q[...] = v
    p, k = w.options(rng, ctx)
    call = "vinth2p({})".format(", ".join(["T", "hyam", "hybm", "levels", "PS", "P0"] + [str(x) for x in p]
                                          + ["{}={}".format(a, b) for a, b in k.items()]))
    odims = list(w.odims)
    out = OrderedDict()
    tied = rng.random() < 0.3 and w.four
    if tied:
        # every output dimension is tied to its input dimension by a coordinate
        rng.shuffle(odims)
        ctx.count("transposed")
        for d in w.odims:
            if d != w.l:
                ref = "PS"
                rest = [e for e in w.sdims if e != d]
                out["c_" + d] = {"definition": "mean({}, {})".format(ref, ", ".join(repr(e) for e in rest)), "datatype": "double",
                                 "dimensions": ["o" + d], "attributes": {"units": "Pa"}}
    flip = rng.random() < 0.4 and w.size[w.l] > 1
    have = "increasing" if w.lv[-1] > w.lv[0] else "decreasing"
    out["olevels"] = {"definition": "levels", "datatype": "double", "dimensions": ["o" + w.l],
                      "attributes": {"units": rng.choice(["Pa", "hPa"]), "axis": "Z"}}
    if flip:
        out["olevels"]["attributes"]["direction"] = {"increasing": "decreasing", "decreasing": "increasing"}[have]
        ctx.count("reversed")
    factor, offset, ounits = {"K": (1, -273.15, "degC"), "m s-1": (3.6, 0, "km h-1"), "1": (100, 0, "%"),
                              "kg kg-1": (1000, 0, "g kg-1")}[w.dunits]
    if rng.random() < 0.5:
        factor, offset, ounits = 1, 0, w.dunits
    else:
        ctx.count("converted")
    dt = rng.choice(["float", "double"])
    path = os.path.join(folder, "out.nc")
    out["v"] = {"definition": call, "datatype": dt, "dimensions": ["o" + d for d in odims],
                "attributes": {"units": ounits, "_FillValue": rng.choice([1e20, 1e20, -999.0])}, "file": {"filename": path}}
    if w.positive and rng.random() < 0.5:
        out["v"]["attributes"]["positive"] = w.positive
    names = list(out)
    rng.shuffle(names)
    out = OrderedDict((n, out[n]) for n in names)
    chunks = OrderedDict(("o" + d, rng.randint(1, w.size[d])) for d in rng.sample(odims, len(odims)) if d != w.l and rng.random() < 0.5 and not tied)
    if chunks:
        ctx.count("chunked")
    what = "{} {} dims {} chunks {} flip {}".format(w.text(), call, odims, dict(chunks), flip)
    if rng.random() < 0.3:
        try:
            flow.run([fn], out, chunks=dict(chunks, **{"o" + w.l: rng.randint(1, w.size[w.l])}))
        except ValueError:
            ctx.count("refused")
        else:
            ctx.fail("chunked-levels", what)
    flow.run([fn], out, chunks=chunks)
    r = flow.read(path)["vars"]
    _t, dims, got, attrs = r["v"]
    ctx.check(list(dims) == ["o" + d for d in odims], "written-dimensions", lambda: "{}: {}".format(what, dims))
    exp = want * factor + offset
    exp = exp.transpose([w.odims.index(d) for d in odims])
    if flip:
        exp = np.ma.stack([exp], 0)[0]
        exp = exp[tuple(slice(None, None, -1) if d == w.l else slice(None) for d in odims)]
    lv = r["olevels"][2] * UNITS[out["olevels"]["attributes"]["units"]]
    ctx.check(np.allclose(lv, w.lv[::-1] if flip else w.lv, rtol=1e-9), "written-levels", lambda: "{}: {}".format(what, lv))
    judge(ctx, got, exp, what, "written", 1e-8 if dt == "double" else 1e-5)
    called(ctx, what)
    ctx.count("written")
    ctx.sample(what)
    ctx.nontrivial("written", w.shape(w.dims), w.lv.tobytes(), call)
