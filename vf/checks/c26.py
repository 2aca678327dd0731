"""C26: computed cell bounds tile the axis without gaps or overlaps"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "geometric monitor: returned and written bounds against the cells defined by neighbouring points"
RULE = ("random strictly monotone coordinates (2 to 40 points, uniform and not, rising and falling, double, float and "
        "integer) with every location, end-point choice and form of interface data; whole, in pieces and reversed; "
        "called directly and through definitions written to files with scaling, renaming, declared units and "
        "directions and random chunks; distinct by location, ends, size, direction and storage")
CASES = {"quick": 3500, "thorough": 30000}
REQUIRED = ["location_0", "location_1", "location_2", "ends", "no_ends", "rising", "falling", "integers", "float32",
            "uniform", "two_points", "interfaces_all", "interfaces_inner", "interfaces_wrong", "pieces", "single_cells",
            "reversed", "stepped", "interfaces_converted", "written", "written_chunked", "written_direction", "written_scaled", "written_units",
            "written_interfaces", "written_renamed", "not_1d", "bad_location", "inputs_kept"]


def cells(x, location, ends, inner=None, every=None):
    """Expected bounds, point by point"""
    n = len(x)
    if every is not None:
        return np.array([[every[i], every[i + 1]] for i in range(n)])
    if inner is not None:
        first = {0: x[0], 1: 2 * x[0] - inner[0], 2: 2 * x[0] - x[1]}[location]
        last = {0: 2 * x[-1] - x[-2], 1: 2 * x[-1] - inner[-1], 2: x[-1]}[location]
        edges = [first] + list(inner) + [last]
        return np.array([[edges[i], edges[i + 1]] for i in range(n)])
    out = np.zeros((n, 2))
    for i in range(n):
        before = x[i] - x[i - 1] if i > 0 else (x[1] - x[0]) * ends
        after = x[i + 1] - x[i] if i < n - 1 else (x[-1] - x[-2]) * ends
        lo, hi = {0: (0.0, 1.0), 1: (0.5, 0.5), 2: (1.0, 0.0)}[location]
        out[i] = x[i] - lo * before, x[i] + hi * after
    return out


def axis(ctx, rng, n=None):
    n = n or rng.choice([2, 2, 3, 3, 4, 5, 8, 13, 40])
    if n == 2:
        ctx.count("two_points")
    kind = rng.choice(["f8", "f8", "f8", "f4", "i4", "i4", "i8"])
    if kind[0] == "i":
        step = [rng.randint(1, 7) for _ in range(n)]
        ctx.count("integers")
    else:
        step = [rng.choice([0.25, 0.5, 1.0, 1.75, 3.0]) for _ in range(n)]
        if kind == "f4":
            ctx.count("float32")
    if rng.random() < 0.25:
        step = [step[0]] * n
        ctx.count("uniform")
    x = np.cumsum(step) + rng.randint(-30, 30)
    if rng.random() < 0.4:
        x = x[::-1]
        ctx.count("falling")
    else:
        ctx.count("rising")
    return np.array(x, dtype=kind), kind


def interfaces(ctx, rng, x, kind):
    """Values between the points, and beyond them"""
    x = x.astype(float)
    w = [rng.choice([0.25, 0.5, 0.75]) for _ in range(len(x) - 1)]
    inner = np.array([a + (b - a) * c for a, b, c in zip(x[:-1], x[1:], w)])
    s = 1.0 if x[-1] > x[0] else -1.0
    every = np.concatenate([[x[0] - s * rng.choice([0.25, 1.0])], inner, [x[-1] + s * rng.choice([0.25, 2.0])]])
    k = rng.choice(["f8", "f4"])
    return inner.astype(k), every.astype(k)


def same(a, b, scale, single=False):
    a = np.asarray(a, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= (4e-7 if single else 1e-12) * scale))


def tiles(ctx, got, x, location, own, what, scale, single):
    """The conditions of the property on a whole set of bounds"""
    g = np.asarray(got, float)
    x = x.astype(float)
    tol = (4e-7 if single else 1e-12) * scale
    ctx.check(np.all(np.abs(g[:-1, 1] - g[1:, 0]) <= tol), "gap", lambda: "{}: {}".format(what, g.tolist()))
    lo, hi = g.min(axis=1), g.max(axis=1)
    ctx.check(np.all(lo <= x + tol) and np.all(x <= hi + tol), "outside", lambda: "{}: {}".format(what, g.tolist()))
    s = 1 if x[-1] > x[0] else -1
    ctx.check(np.all(s * (g[:, 1] - g[:, 0]) >= -tol), "order", lambda: "{}: {}".format(what, g.tolist()))
    if own:
        k = {0: 0, 2: 1}.get(location)
        if k is not None:
            ctx.check(np.all(np.abs(g[:, k] - x) <= tol), "edge", lambda: "{}: {}".format(what, g.tolist()))


def direct(ctx):
    from pyconform.flownodes import DataNode
    from pyconform.modules.commonfunctions import BoundsFunction
    from pyconform.physarray import DimensionsError, PhysArray

    rng = ctx.rng
    x, kind = axis(ctx, rng)
    n = len(x)
    units = rng.choice(["degrees_north", "m", "hPa", "days since 2000-01-01"])
    location, ends = rng.choice([0, 1, 2]), rng.choice([0, 1, True, False])
    bdim = rng.choice(["bnds", "d2", "nv"])
    data = PhysArray(x.copy(), name="x", units=units, dimensions=("x",))
    node = DataNode(data)
    kw = {"location": location, "endpoints": ends, "bdim": bdim}
    what = "x={} location={} endpoints={} {}".format(x.tolist(), location, ends, kind)
    inner = every = None
    form = rng.choice(["", "", "inner", "every", "wrong"])
    if form:
        inner, every = interfaces(ctx, rng, x, kind)
        vals = {"inner": inner, "every": every, "wrong": rng.choice([inner[1:], np.append(every, 1e3), every[1:]])}[form]
        what += " interfaces={} {}".format(vals.tolist(), vals.dtype)
        other, per = {"m": ("km", 0.001), "hPa": ("Pa", 100.0)}.get(units, (units, 1))
        if per != 1 and rng.random() < 0.3:
            ctx.count("interfaces_converted")
            kw["idata"] = DataNode(PhysArray(vals.astype(float) * per, name="xi", units=other, dimensions=("xi",)))
        else:
            kw["idata"] = DataNode(PhysArray(vals, name="xi", units=units, dimensions=("xi",)))
        if form == "wrong":
            ctx.count("interfaces_wrong")
            try:
                f = BoundsFunction(node, **kw)
                f[:]
            except ValueError:
                return
            ctx.fail("interfaces-accepted", what)
        ctx.count("interfaces_" + {"inner": "inner", "every": "all"}[form])
        exp = cells(x.astype(float), location, 1, inner.astype(float) if form == "inner" else None,
                    every.astype(float) if form == "every" else None)
    else:
        exp = cells(x.astype(float), location, int(bool(ends)))
    if rng.random() < 0.03:
        ctx.count("not_1d")
        try:
            BoundsFunction(DataNode(PhysArray(np.zeros((2, 3)), units=units, dimensions=("y", "x"))), **kw)
        except DimensionsError:
            pass
        else:
            ctx.fail("2d-accepted", what)
    if rng.random() < 0.03:
        ctx.count("bad_location")
        try:
            BoundsFunction(node, location=rng.choice([3, -1, 0.5, "left"]))
        except ValueError:
            pass
        else:
            ctx.fail("location-accepted", what)
    ctx.count("location_%d" % location)
    ctx.count("ends" if ends else "no_ends")
    ctx.sample(what)
    f = BoundsFunction(node, **kw)
    single = kind == "f4"
    scale = float(np.abs(exp).max() + np.abs(x).max() + 1)
    info, got = f[None], f[:]
    ctx.check(info.dimensions == got.dimensions == ("x", bdim), "dimensions", lambda: "{}: {} {}".format(
        what, info.dimensions, got.dimensions))
    ctx.check(str(got.units) == units and info.units == got.units, "units", lambda: "{}: {}".format(what, got.units))
    ctx.check(info.dtype == got.dtype, "type", lambda: "{}: {} {}".format(what, info.dtype, got.dtype))
    ctx.check(not np.ma.getmaskarray(got).any(), "mask", lambda: what)
    ctx.check(same(got, exp, scale, single), "values", lambda: "{}: {} expected {}".format(
        what, np.asarray(got).tolist(), exp.tolist()))
    tiles(ctx, got, x, location, not form, what, scale, single)
    if form != "" or ends:
        w = np.asarray(got, float)
        ctx.check(np.all(np.abs(w[:, 1] - w[:, 0]) > 0), "width", lambda: "{}: {}".format(what, w.tolist()))
    ctx.count("cells", n)
    # the same cells in pieces and in reverse order
    size = rng.choice([1, 1, 2, 3, 5])
    if size == 1:
        ctx.count("single_cells")
    for a in range(0, n, size):
        idx = rng.choice([{"x": slice(a, min(a + size, n))}, slice(a, min(a + size, n)), {"x": slice(a, min(a + size, n)), "y": slice(0, 1)}])
        part = f[idx]
        ctx.check(same(part, exp[a:a + size], scale, single), "pieces", lambda: "{}: cells {} {} expected {}".format(
            what, a, np.asarray(part).tolist(), exp[a:a + size].tolist()))
        ctx.count("pieces")
    back = f[{"x": slice(None, None, -1)}]
    ctx.check(same(back, exp[::-1, ::-1], scale, single), "reversed", lambda: "{}: {}".format(what, np.asarray(back).tolist()))
    ctx.count("reversed")
    k = rng.randrange(n)
    some = rng.choice([slice(None, None, -2), slice(k, None, -1), slice(k, None, -3), slice(None, k, -2), slice(None, None, 2),
                       slice(k, None, 2), slice(-k - 1, None, 1)])
    part, want = f[{"x": some}], exp[some]
    if some.step < 0:
        want = want[:, ::-1]
    ctx.check(same(part, want, scale, single), "stepped", lambda: "{}: cells {} {} expected {}".format(
        what, some, np.asarray(part).tolist(), want.tolist()))
    ctx.count("stepped")
    ctx.check(np.array_equal(data.data, x) and data.dimensions == ("x",), "input-changed", lambda: what)
    ctx.count("inputs_kept")
    ctx.nontrivial("direct", location, bool(ends), n, form, kind)


def written(ctx):
    import netCDF4
    import pyconform.modules.commonfunctions  # noqa: F401

    rng = ctx.rng
    x, kind = axis(ctx, rng)
    if kind == "i8":
        kind, x = "i4", x.astype("i4")
    n = len(x)
    folder = ctx.scratch()
    unl = rng.choice([None, "x", "y"])
    inner, every = interfaces(ctx, rng, x, kind)
    form = rng.choice(["", "", "inner", "every"])
    vals = every if form == "every" else inner
    path = os.path.join(folder, "in.nc")
    with netCDF4.Dataset(path, "w") as f:
        f.createDimension("x", None if unl == "x" else n)
        f.createDimension("y", None if unl == "y" else 3)
        f.createDimension("xi", len(vals))
        f.createDimension("two", 2)
        v = f.createVariable("x", kind, ("x",))
        v.units, v[:] = "hPa", x
        if rng.random() < 0.25:
            v = f.createVariable("xi", "f8", ("xi",))
            v.units, v[:] = "Pa", vals * 100.0
            if form:
                ctx.count("interfaces_converted")
        else:
            v = f.createVariable("xi", vals.dtype, ("xi",))
            v.units, v[:] = "hPa", vals
        v = f.createVariable("y", "f8", ("y",))
        v.units, v[:] = "m", np.arange(3.0)
        v = f.createVariable("v", "f4", ("x", "y"))
        v.units, v[:] = "K", np.arange(3.0 * n).reshape(n, 3)
        v = f.createVariable("pair", "f4", ("two",))
        v.units, v[:] = "1", [0, 1]
    location, ends = rng.choice([0, 1, 2]), rng.choice([0, 1])
    ctx.count("location_%d" % location)
    ctx.count("ends" if ends else "no_ends")
    scale = rng.choice(["", "", " * 0.5", "-"])
    factor = {"": 1.0, " * 0.5": 0.5, "-": -1.0}[scale]

    def term(name):
        return "(-{})".format(name) if scale == "-" else name + scale

    args = [term("x"), "bdim='two'"]
    if location != 1 or rng.random() < 0.5:
        args.append("location=%d" % location)
    if not ends or rng.random() < 0.5:
        args.append("endpoints=%d" % ends)
    if form:
        args.append("idata=" + term("xi"))
        ctx.count("written_interfaces")
    if scale:
        ctx.count("written_scaled")
    xf = x.astype(float) * factor
    exp = cells(xf, location, ends, vals.astype(float) * factor if form == "inner" else None,
                vals.astype(float) * factor if form == "every" else None)
    if form:
        exp = cells(xf, location, 1, vals.astype(float) * factor if form == "inner" else None,
                    vals.astype(float) * factor if form == "every" else None)
    rename = rng.random() < 0.5
    od, bd = ("lev", "bnds") if rename else ("x", "two")
    if rename:
        ctx.count("written_renamed")
    units = rng.choice(["hPa", "Pa", "Pa", "?"])
    conv = 100.0 if units == "Pa" else 1.0
    if units == "Pa":
        ctx.count("written_units")
    out = os.path.join(folder, "o.nc")
    d = OrderedDict()
    cattrs = OrderedDict([("axis", "Z"), ("units", units), ("bounds", "lev_bnds")])
    flip = False
    if rng.random() < 0.6:
        cattrs["direction"] = rng.choice(["increasing", "decreasing"])
        flip = (xf[-1] > xf[0]) != (cattrs["direction"] == "increasing")
        ctx.count("written_direction")
    dt = rng.choice(["double", "double", "float"])
    d["val"] = OrderedDict([("definition", "v"), ("datatype", "float"), ("dimensions", [od, "y"]),
                            ("attributes", OrderedDict([("units", "K")])), ("file", OrderedDict([("filename", out)]))])
    d["lev"] = OrderedDict([("definition", term("x")), ("datatype", dt), ("dimensions", [od]), ("attributes", cattrs)])
    d["lev_bnds"] = OrderedDict([("definition", "bounds({})".format(", ".join(args))), ("datatype", dt),
                                 ("dimensions", [od, bd]), ("attributes", OrderedDict([("units", units)]))])
    d["y"] = OrderedDict([("definition", "y"), ("datatype", "double"), ("dimensions", ["y"]),
                          ("attributes", OrderedDict([("axis", "Y"), ("units", "m")]))])
    chunks = {}
    if rng.random() < 0.7:
        chunks[od] = rng.choice([1, 1, 2, 3, n - 1, n])
        ctx.count("written_chunked")
    if rng.random() < 0.3:
        chunks["y"] = rng.randint(1, 3)
    what = "{} x={} interfaces={} {} flip={} chunks={}".format(d["lev_bnds"]["definition"], x.tolist(), vals.tolist(), units, flip, chunks)
    ctx.sample(what)
    flow.run([path], d, chunks=chunks)
    got = flow.read(out)["vars"]
    ctx.check("lev_bnds" in got, "not-written", lambda: "{}: {}".format(what, sorted(got)))
    b = got["lev_bnds"]
    ctx.check(b[1] == (od, bd), "written-dims", lambda: "{}: {}".format(what, b[1]))
    exp = exp * conv
    xf = xf * conv
    if flip:
        exp, xf = exp[::-1, ::-1], xf[::-1]
    single = kind == "f4" or dt == "float" or (form != "" and vals.dtype == np.dtype("f4"))
    sc = float(np.abs(exp).max() + np.abs(xf).max() + 1)
    ctx.check(same(got["lev"][2], xf, sc, single), "written-coordinate", lambda: "{}: {}".format(what, got["lev"][2]))
    ctx.check(same(b[2], exp, sc, single) and not np.ma.getmaskarray(b[2]).any(), "written-values",
              lambda: "{}: {} expected {}".format(what, b[2].tolist(), exp.tolist()))
    tiles(ctx, b[2], xf, None, False, what, sc, single)
    ctx.count("written")
    ctx.count("cells", n)
    ctx.nontrivial("written", location, ends, n, form, kind, flip, tuple(sorted(chunks.items())))


def case(ctx):
    if ctx.rng.random() < 0.75:
        direct(ctx)
    else:
        written(ctx)
