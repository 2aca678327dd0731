"""C25: circulation diagnostics obey their defining equations for all fields"""
from collections import OrderedDict

import numpy as np

from vf import flow
from vf.checks.c24 import _deriv1, integral

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "numerical monitor: returned and written fields against loop evaluations of the defining equations"
RULE = ("random zonal-mean fields (times, levels, latitudes, optional further dimensions; levels rising or falling, "
        "latitudes either way, in part without eddies, in part with missing points) through the diagnostics, their "
        "function classes and whole conversions cut along time; distinct by diagnostic, sizes and directions")
CASES = {"quick": 1500, "thorough": 12000}
NAMES = ["wtem", "vtem", "utendvtem", "utendwtem", "epfy", "epfz", "utendepfd", "psitem"]
REQUIRED = NAMES + ["kernel", "function", "flow", "no_eddies", "missing", "falling_levels", "falling_latitudes",
                    "extra_dimension", "two_extra_dimensions", "one_time", "times_permuted", "chunked", "chunk_refused", "converted", "single_precision", "single_coordinates"]

P0, A, OM, H, G0 = 101325.0, 6.37123e6, 7.29212e-5, 7000.0, 9.80665
ARGS = {"wtem": ["wzm", "vthzm", "thzm"], "vtem": ["vzm", "vthzm", "thzm"],
        "utendvtem": ["uzm", "vzm", "vthzm", "thzm"], "utendwtem": ["uzm", "wzm", "vthzm", "thzm"],
        "epfy": ["uzm", "uvzm", "vthzm", "thzm"], "epfz": ["uzm", "uwzm", "vthzm", "thzm"],
        "utendepfd": ["uzm", "uvzm", "uwzm", "vthzm", "thzm"], "psitem": ["vzm", "vthzm", "thzm"]}
UNITS = {"wtem": "m s-1", "vtem": "m s-1", "utendvtem": "m s-2", "utendwtem": "m s-2", "epfy": "m3 s-2",
         "epfz": "m3 s-2", "utendepfd": "m s-2", "psitem": "kg s-1"}


def reference(name, lev, lat, f):
    """One time step, one column of further dimensions: f[name] of shape (levels, latitudes)"""
    p, phi = 100.0 * lev, np.radians(lat)
    cos = np.cos(phi)
    nl, nj = len(p), len(phi)

    def dp(q):
        return np.array([_deriv1(p, q[:, j]) for j in range(nj)]).T

    def dphi(q):
        return np.array([_deriv1(phi, q[k, :]) for k in range(nl)])

    psi = f["vthzm"] / dp(f["thzm"])
    if name in ("wtem", "utendwtem"):
        omega = -f["wzm"] * p[:, None] / H
        omega_star = omega + dphi(psi * cos) / (A * cos)
        return -omega_star * H / p[:, None] if name == "wtem" else -omega_star * dp(f["uzm"])
    if name in ("vtem", "utendvtem"):
        v = f["vzm"] - dp(psi)
        if name == "vtem":
            return v
        return v * (2 * OM * np.sin(phi) - dphi(f["uzm"] * cos) / (A * cos))
    if name == "psitem":
        out = np.empty((nl, nj))
        pz = np.concatenate([[0.0], p])
        for j in range(nj):
            vz = np.concatenate([[0.0], f["vzm"][:, j]])
            for k in range(nl):
                out[k, j] = 2 * np.pi * A * cos[j] / G0 * (integral(pz[:k + 2], vz[:k + 2]) - psi[k, j])
        return out
    fy = fz = None
    if name in ("epfy", "utendepfd"):
        fy = A * cos * (psi * dp(f["uzm"]) - f["uvzm"])
        if name == "epfy":
            return fy * p[:, None] / P0
    uw = -f["uwzm"] * p[:, None] / H
    fz = A * cos * ((2 * OM * np.sin(phi) - dphi(f["uzm"] * cos) / (A * cos)) * psi - uw)
    if name == "epfz":
        return -H / P0 * fz
    return (dphi(fy * cos) / (A * cos) + dp(fz)) / (A * cos)


def case(ctx):
    import netCDF4
    from pyconform.flownodes import DataNode
    from pyconform.modules import dynvarmipdiags as kernels
    from pyconform.modules import dynvarmipfunctions as functions
    from pyconform.physarray import PhysArray

    rng, r = ctx.rng, ctx.np_rng
    name = rng.choice(NAMES)
    ctx.count(name)
    nt, nl, nj = rng.choice([1, 2, 4]), rng.choice([3, 4, 7, 7, 12]), rng.choice([3, 4, 6, 6, 13])
    extra = rng.choice([(), (), (1,), (2,), (2,), (2, 2)])
    if extra:
        ctx.count("extra_dimension")
    if len(extra) > 1:
        ctx.count("two_extra_dimensions")
    if nt == 1:
        ctx.count("one_time")
    time = np.cumsum(r.uniform(0.5, 2, nt))
    lev = np.cumsum(r.uniform(20, 300, nl))
    if name != "psitem" and rng.random() < 0.4:
        lev = lev[::-1].copy()
        ctx.count("falling_levels")
    lat = -80 + 160 * np.cumsum(r.uniform(0.3, 1, nj)) / (nj + 1.0)
    if rng.random() < 0.3:
        lat = lat[::-1].copy()
        ctx.count("falling_latitudes")
    if rng.random() < 0.2:
        # coordinates in single precision (the equations are evaluated in double)
        ctx.count("single_coordinates")
        lev, lat = lev.astype("f4"), lat.astype("f4")
    lev4, lat4, lev, lat = lev, lat, lev.astype("f8"), lat.astype("f8")
    shape = (nt, nl, nj) + extra
    f = OrderedDict()
    for n in ("uzm", "vzm", "wzm", "uvzm", "uwzm", "vthzm"):
        f[n] = r.uniform(-3, 3, shape)
    lev_b = lev.reshape((1, nl, 1) + (1,) * len(extra))
    f["thzm"] = 700 - 0.3 * lev_b + r.uniform(-1, 1, shape)
    eddies = rng.random() > 0.2
    if not eddies:
        ctx.count("no_eddies")
        for n in ("uvzm", "uwzm", "vthzm"):
            f[n][:] = 0.0
    way = rng.choice(["kernel", "function", "flow"])
    ctx.count(way)
    args = ARGS[name]
    single = way != "kernel" and rng.random() < 0.3
    if single:
        # (the equations are evaluated in double precision from what the fields hold)
        ctx.count("single_precision")
        for n in args:
            if rng.random() < 0.7:
                f[n] = f[n].astype("f4")
    masks = {n: np.zeros(shape, bool) for n in f}
    if way != "kernel" and rng.random() < 0.5:
        for n in rng.sample(args, rng.randint(1, len(args))):
            for _ in range(rng.randint(1, 2)):
                masks[n][tuple(rng.randrange(s) for s in shape)] = True
        ctx.count("missing")
    # what the equations give, missing values as not-a-number
    exp = np.empty(shape)
    vals = {n: np.where(masks[n], np.nan, f[n].astype("f8")) for n in f}
    with np.errstate(all="ignore"):
        for t in range(nt):
            for e in np.ndindex(extra):
                exp[(t, slice(None), slice(None)) + e] = reference(
                    name, lev, lat, {n: v[(t, slice(None), slice(None)) + e] for n, v in vals.items()})
    bad = ~np.isfinite(exp)
    scale = np.abs(exp[~bad]).max() if (~bad).any() else 1.0
    what = "{} {} shape={} lev={} lat={} missing={}".format(
        name, way, shape, lev.round(3).tolist(), lat.round(3).tolist(), {n: np.argwhere(m).tolist() for n, m in masks.items() if m.any()})
    ctx.sample(what)
    ctx.nontrivial(name, way, shape, lev[0] < lev[-1], lat[0] < lat[-1], eddies, bad.any())

    def judge(got, key="values", e=exp, factor=1.0):
        got = np.ma.asarray(got)
        ctx.check(got.shape == e.shape, "shape", lambda: "{}: {}".format(got.shape, what))
        b = ~np.isfinite(e)
        gm = np.ma.getmaskarray(got)
        if way == "kernel":
            gm = gm | ~np.isfinite(got.filled(0.0))
        ctx.check((gm == b).all(), "missing", lambda: "missing {} expected {}: {}".format(
            np.argwhere(gm).tolist(), np.argwhere(b).tolist(), what))
        ctx.check(np.isfinite(got.filled(0.0)[~gm]).all(), "not-finite", lambda: "{}: {}".format(got, what))
        d = np.abs(got.filled(0.0) - factor * np.where(b, 0, e))[~b]
        ctx.check(d.size == 0 or d.max() <= 1e-9 * factor * scale + 1e-300, key, lambda: "got {}\nexpected {}: {}".format(
            got, factor * e, what))
        ctx.count("elements", int(e.size))

    before = {n: v.copy() for n, v in f.items()}
    with np.errstate(all="ignore"):
        if way == "kernel":
            fn = getattr(kernels, name)
            got = fn(time, lev, lat, *[f[n] for n in args])
            judge(got)
            ctx.check(all((f[n] == before[n]).all() for n in f), "inputs-changed", lambda: what)
            if not eddies:
                plain = {"wtem": "wzm", "vtem": "vzm"}.get(name)
                if plain:
                    ctx.check(np.allclose(got, f[plain], rtol=1e-12), "no-eddies", lambda: what)
                elif name in ("epfy", "epfz", "utendepfd"):
                    ctx.check((np.asarray(got) == 0).all(), "no-eddies", lambda: what)
            if nt > 1:
                perm = list(range(nt))
                rng.shuffle(perm)
                got2 = fn(time[perm], lev, lat, *[f[n][perm] for n in args])
                ctx.check(np.abs(got2 - got[perm]).max() <= 1e-10 * scale, "times", lambda: what)
                one = fn(time[:1], lev, lat, *[f[n][:1] for n in args])
                ctx.check(np.abs(one - got[:1]).max() <= 1e-10 * scale, "times", lambda: what)
                ctx.count("times_permuted")
            return
        dims = ("time", "lev", "lat") + tuple("x%d" % k for k in range(len(extra)))
        if way == "function":
            cls = getattr(functions, name + "DynVarMIPFunction")
            mk = {n: PhysArray(np.ma.masked_array(f[n], mask=masks[n]), name=n, dimensions=dims, units="1") for n in args}
            coords = [PhysArray(v, name=n, dimensions=(n,), units="1") for n, v in (("time", time), ("lev", lev4), ("lat", lat4))]
            keep = {n: v.copy() for n, v in mk.items()}
            fun = cls(*[DataNode(x) for x in coords + [mk[n] for n in args]])
            res = fun[:]
            judge(res)
            ctx.check(tuple(res.dimensions) == dims, "dimensions", lambda: "{}: {}".format(res.dimensions, what))
            from cf_units import Unit
            ctx.check(res.units == Unit(UNITS[name]), "units", lambda: "{}: {}".format(res.units, what))
            ctx.check(res.positive == ("up" if name == "epfz" else None), "positive", lambda: "{}: {}".format(res.positive, what))
            for n in args:
                ctx.check((np.ma.getmaskarray(mk[n]) == np.ma.getmaskarray(keep[n])).all() and
                          (mk[n].data == keep[n].data).all(), "inputs-changed", lambda: what)
            return
        # a whole conversion
        folder = ctx.scratch()
        with netCDF4.Dataset(folder + "/i.nc", "w") as nc:
            for d, s in zip(dims, shape):
                nc.createDimension(d, s)
                v = nc.createVariable(d, {"lev": lev4, "lat": lat4}.get(d, time).dtype.str[1:], (d,))
                v[:] = {"time": time, "lev": lev, "lat": lat}.get(d, np.arange(s))
                v.units = {"time": "days since 2000-01-01", "lev": "hPa", "lat": "degrees_north"}.get(d, "1")
            for n in args:
                v = nc.createVariable(n, f[n].dtype.str[1:], dims, fill_value=1e30)
                v[:] = np.ma.masked_array(f[n], mask=masks[n])
        ds = OrderedDict()
        for d in dims:
            ds["o" + d] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", ["o" + d]),
                                       ("definition", d)])
        per_day = UNITS[name] == "m s-2" and rng.random() < 0.6
        factor = 86400.0 if per_day else 1.0
        if per_day:
            ctx.count("converted")
        attrs = OrderedDict([("units", "m s-1 d-1" if per_day else UNITS[name])])
        ds["res"] = OrderedDict([("attributes", attrs), ("datatype", "double"), ("dimensions", ["o" + d for d in dims]),
                                 ("definition", "dynvarmip_{}(time, lev, lat, {})".format(name, ", ".join(args))),
                                 ("file", OrderedDict([("filename", folder + "/o.nc")]))])
        chunks = {}
        if rng.random() < 0.5:
            chunks["otime"] = rng.randint(1, nt)
            ctx.count("chunked")
        flow.run([folder + "/i.nc"], ds, chunks=chunks)
        judge(flow.read(folder + "/o.nc")["vars"]["res"][2], factor=factor)
        if rng.random() < 0.3:
            # cut along a dimension of the derivatives: refused before anything is written, or no different
            import os
            os.remove(folder + "/o.nc")
            d, n = rng.choice([("olev", nl), ("olat", nj)])
            cut = {d: rng.randint(1, n - 1)}
            try:
                flow.run([folder + "/i.nc"], ds, chunks=cut)
            except ValueError:
                ctx.count("chunk_refused")
                ctx.check(not os.path.exists(folder + "/o.nc"), "refused-late", lambda: "{} {}".format(cut, what))
                return
            judge(flow.read(folder + "/o.nc")["vars"]["res"][2], key="chunk", factor=factor)
