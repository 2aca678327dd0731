"""C32: files made through the climate I/O facade hold what was written to them"""
import contextlib
import io
import os
import shutil

import numpy as np

from vf import flow

ID = "C32"
LEVEL = "exploration"
TECHNIQUE = "file monitor: a shadow copy of every value and attribute handed to the facade, compared with the raw file"
RULE = ("sequences of calls of the facade's netCDF4 port (create, define from a template, further variables, writes of "
        "records in any order and repeated, slices read back before and after closing) on files of every format it "
        "offers; each file is then read without the facade and compared with a shadow copy of what was handed over; "
        "distinct by template, formats and operations")
CASES = {"quick": 1500, "thorough": 40000}
REQUIRED = ["template_history", "no_history", "history_given", "netcdf4c", "netcdf4c_level", "netcdf4", "netcdf", "netcdfLarge",
            "unknown_format", "two_files", "fill_value", "no_fill_value", "attr_property_name", "attr_array", "meta_scalar", "meta_text",
            "renamed", "overwritten", "hole", "default_index", "negative_index", "scalar_record", "time_vector", "double_exact",
            "int_values", "masked_values", "strings", "read_open", "read_closed", "find_here", "find_dir", "find_pattern",
            "find_none", "second_unlimited", "meta_masked", "time_fixed"]

TYPES = ["f8", "f4", "i4", "i2", "i1", "f8", "f4"]
NAMES = ["long_name", "units", "size", "name", "shape", "cell_methods", "comment", "dtype", "ndim", "axis", "mask", "group", "data"]
EXACT = {"f8": 8, "f4": 4, "i4": 4, "i2": 2, "i1": 1}


def quiet(fn, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*args, **kw)


def values(rng, nrng, dt, shape):
    if dt == "S1":
        return np.array([b"abcdefgh xyz"[i:i + 1] for i in nrng.randint(0, 12, int(np.prod(shape)))], "S1").reshape(shape)
    if dt[0] == "i":
        top = min(2 ** (8 * int(dt[1]) - 1) - 10, 10 ** 9)
        return nrng.randint(-top, top, shape).astype(dt)
    return (nrng.standard_normal(shape) * 10 ** rng.uniform(-3, 6)).astype(dt)


#: names of global attributes, some of them like those that are treated apart
GLOBALS = ["title", "history", "source", "Conventions", "number", "history_of_appended_files", "prehistory", "HISTORY",
           "time", "dimensions", "_FillValue_note", "file_format_note"]


def attributes(rng, ctx, nrng, dt):
    out = {}
    if rng.random() < 0.5:
        if dt != "S1":
            out["_FillValue"] = np.array(rng.choice([-99, 99, 0]), dt)[()]
            if dt[0] == "f" and rng.random() < 0.5:
                out["_FillValue"] = np.array(1e20, dt)[()]
            ctx.count("fill_value")
    else:
        ctx.count("no_fill_value")
    for n in rng.sample(NAMES, rng.randint(0, 5)):
        kind = rng.random()
        if kind < 0.6:
            out[n] = rng.choice(["K", "", "0", "m s-1", "a longer text, with: punctuation", "x", "time: mean"])
        elif kind < 0.8:
            out[n] = np.array(rng.choice([1, 2.5, -7]), rng.choice(["f8", "f4"]))[()]
        else:
            out[n] = np.array([rng.randint(0, 50) for _ in range(rng.randint(2, 4))], rng.choice(["i4", "f8", "i2"]))
            ctx.count("attr_array")
        if n in ("size", "name", "shape", "dtype", "ndim", "mask", "data", "group"):
            ctx.count("attr_property_name")
    return out


def same_attr(a, b):
    return np.asarray(a).dtype.kind == np.asarray(b).dtype.kind and np.array_equal(np.asarray(a), np.asarray(b))


def make_template(ctx, rng, nrng, path):
    """A template file and a description of its contents"""
    import netCDF4

    dims = {"time": rng.randint(1, 4)}
    for d in rng.sample(["lat", "lon", "lev", "nv", "strlen"], rng.randint(2, 4)):
        dims[d] = rng.randint(1, 5)
    t = {"dims": dims, "vars": {}, "attrs": {}}
    fmt = rng.choice(["NETCDF3_CLASSIC", "NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_64BIT_OFFSET"])
    unlimited = set()
    if rng.random() < 0.7:
        unlimited.add("time")
    else:
        ctx.count("time_fixed")
    if fmt == "NETCDF4" and rng.random() < 0.3:
        unlimited.add(rng.choice([d for d in dims if d != "time"]))
        ctx.count("second_unlimited")
    others = [d for d in dims if d not in ("time", "strlen")]
    with netCDF4.Dataset(path, "w", format=fmt) as nc:
        nc.set_auto_mask(False)
        for d, n in dims.items():
            nc.createDimension(d, None if d in unlimited else n)
        for n in rng.sample(GLOBALS, rng.randint(0, 6)):
            t["attrs"][n] = rng.choice(["text", "", "CF-1.7", "2020-01-01: made\nand changed"]) if n != "number" else np.int32(rng.randint(0, 9))
            nc.setncattr(n, t["attrs"][n])
        for k in range(rng.randint(2, 6)):
            name = ["time", "v1", "v2", "v3", "v4", "v5"][k]
            dt = rng.choice(TYPES)
            if name == "time":
                vdims = ("time",)
                dt = rng.choice(["f8", "f8", "f4", "i4"])
            else:
                vdims = tuple(rng.sample(others, rng.randint(0, min(3, len(others)))))
                if "strlen" in dims and rng.random() < 0.15:
                    dt = "S1"
                    vdims = vdims[:1] + ("strlen",)
                elif rng.random() < 0.6:
                    vdims = ("time",) + vdims
            atts = attributes(rng, ctx, nrng, dt)
            v = nc.createVariable(name, dt, vdims, fill_value=atts.get("_FillValue"))
            v.set_auto_maskandscale(False)
            for n, a in atts.items():
                if n != "_FillValue":
                    v.setncattr(n, a)
            data = values(rng, nrng, dt, tuple(dims[d] for d in vdims))
            if "_FillValue" in atts and data.ndim and data.size and rng.random() < 0.5:
                data.flat[rng.randrange(data.size)] = atts["_FillValue"]
            if data.ndim:
                v[tuple(slice(0, dims[d]) for d in vdims)] = data
            else:
                v[...] = data
            t["vars"][name] = {"dt": dt, "dims": vdims, "atts": atts, "data": data}
        for d in sorted(unlimited - {"time"}):  # (a length of zero cannot be copied)
            nc.createVariable("used", "f4", (d,))[:] = np.zeros(dims[d])
        for d in unlimited:  # (the length an unlimited dimension really has)
            dims[d] = len(nc.dimensions[d])
    return t


def fmt_of(rng, ctx):
    f = rng.choice(["netcdf4c", "netcdf4cN", "netcdf4", "netcdf", "netcdfLarge", "unknown"])
    ctx.count({"unknown": "unknown_format", "netcdf4cN": "netcdf4c_level"}.get(f, f))
    if f == "netcdf4cN":
        n = rng.randint(0, 9)
        return "netcdf4c%d" % n, "NETCDF4_CLASSIC", n
    return {"netcdf4c": ("netcdf4c", "NETCDF4_CLASSIC", 1), "netcdf4": ("netcdf4", "NETCDF4_CLASSIC", 0),
            "netcdf": ("netcdf", "NETCDF3_CLASSIC", 0), "netcdfLarge": ("netcdfLarge", "NETCDF3_64BIT_OFFSET", 0),
            "unknown": (rng.choice(["nc", "hdf"]), "NETCDF4_CLASSIC", 0)}[f]


def shadow_of(desc, data, ntime):
    """What the file should hold: a list of records (None: not written) or one array"""
    return {"desc": desc, "records": [None] * ntime if desc["dims"][:1] == ("time",) else None, "whole": data}


class File:
    pass


def begin(ctx, rng, port, folder, i, tpath, t):
    f = File()
    f.path = os.path.join(folder, "new%d.nc" % i)
    f.fmt, f.model, f.level = fmt_of(rng, ctx)
    f.hist = rng.choice([None, None, "done by hand", "two\nlines"])
    f.nc = quiet(port.create_file, f.path, f.fmt, *([] if f.hist is None and rng.random() < 0.5 else [f.hist]))
    names = list(t["vars"])
    timed = [n for n in names if t["vars"][n]["dims"][:1] == ("time",)]
    main = rng.choice(timed)
    metas = rng.sample([n for n in names if n != main], rng.randint(0, len(names) - 1))
    f.main = main
    f.new = main if rng.random() < 0.4 else "renamed"
    if f.new == "renamed":
        ctx.count("renamed")
    f.vars, nc = port.define_file(f.nc, f.new, metas, tpath, main)
    ctx.check(nc is f.nc, "other-file", "define_file handed back another file than it was given")
    ctx.check(set(f.vars) == set(metas) | {f.new}, "variables", lambda: "define_file made {}, asked for {}".format(sorted(f.vars), metas + [f.new]))
    f.shadow = {}
    for m in metas:
        d = t["vars"][m]
        if d["dims"][:1] == ("time",):
            f.shadow[m] = [r for r in d["data"]]
        else:
            f.shadow[m] = d["data"]
        if d["data"].ndim == 0:
            ctx.count("meta_scalar")
        if d["dt"] == "S1":
            ctx.count("meta_text")
        if "_FillValue" in d["atts"] and (d["data"] == d["atts"]["_FillValue"]).any():
            ctx.count("meta_masked")
    f.shadow[f.new] = []
    f.desc = {m: t["vars"][m] for m in metas}
    f.desc[f.new] = t["vars"][main]
    if rng.random() < 0.4:
        dt = rng.choice(TYPES)
        others = [d for d in t["dims"] if d not in ("time", "strlen")]
        vd = ("time",) + tuple(rng.sample(others, rng.randint(0, min(2, len(others)))))
        atts = attributes(rng, ctx, ctx.np_rng, dt)
        f.vars["more"] = port.create_var(f.nc, "more", {"f8": "d", "f4": "f", "i4": "i", "i2": "h", "i1": "b"}[dt], list(vd), dict(atts))
        f.desc["more"] = {"dt": dt, "dims": vd, "atts": atts, "data": None}
        f.shadow["more"] = []
    return f


def record(f, name, index, value):
    s = f.shadow[name]
    while len(s) <= index:
        s.append(None)
    s[index] = value


def write(ctx, rng, nrng, port, f, t):
    name = rng.choice([n for n in f.vars if f.desc[n]["dims"][:1] == ("time",)])
    d = f.desc[name]
    if d["dt"] == "S1":
        return
    shape = tuple(t["dims"][x] for x in d["dims"][1:])
    val = values(rng, nrng, d["dt"], shape)
    given = val
    if d["dt"] == "f4" and rng.random() < 0.4:
        given = val.astype("f8")  # (every value fits)
    elif d["dt"][0] == "i" and rng.random() < 0.4:
        given = val.astype("i8")
        ctx.count("int_values")
    elif d["dt"][0] == "i":
        ctx.count("int_values")
    if d["dt"] == "f8":
        ctx.count("double_exact")
    mask = None
    if shape and rng.random() < 0.25:
        mask = nrng.rand(*shape) < 0.4
        given = np.ma.array(given, mask=mask)
        val = np.ma.array(val, mask=mask)
        ctx.count("masked_values")
    index = rng.randint(0, 5)
    n = len(f.nc.dimensions["time"])
    if shape:
        if name == "time":
            return
        if rng.random() < 0.2:
            port.write_var(f.vars, given, name)
            index = 0
            ctx.count("default_index")
        elif n and rng.random() < 0.15:
            k = rng.randint(1, n)
            port.write_var(f.vars, given, name, index=-k)
            index = n - k
            ctx.count("negative_index")
        else:
            port.write_var(f.vars, given, name, index=index)
    else:
        given = np.asarray(given)
        if name == "time" and rng.random() < 0.3:
            given = np.array([given] + [given + 1] * rng.randint(0, 2))
            port.write_var(f.vars, given, name)
            index = 0
            ctx.count("time_vector")
        elif rng.random() < 0.2:
            port.write_var(f.vars, given, name)
            index = 0
            ctx.count("default_index")
        elif n and rng.random() < 0.15:
            k = rng.randint(1, n)
            port.write_var(f.vars, given, name, index=-k)
            index = n - k
            ctx.count("negative_index")
        else:
            port.write_var(f.vars, given, name, index=index)
        ctx.count("scalar_record")
    if index < len(f.shadow[name]) and f.shadow[name][index] is not None:
        ctx.count("overwritten")
    record(f, name, index, val)


def equal_record(got, want, desc, raw):
    """got: what was read; want: a record of the shadow (None: nothing was written there)"""
    fill = desc["atts"].get("_FillValue")
    if fill is None and desc["dt"] != "S1":
        import netCDF4

        fill = np.array(netCDF4.default_fillvals[np.dtype(desc["dt"]).str[1:]], desc["dt"])
    gm = np.ma.getmaskarray(got)
    gd = np.ma.getdata(got)
    if want is None:
        if desc["dt"] == "S1":
            return True
        if desc["dt"] == "i1" and "_FillValue" not in desc["atts"]:
            return True  # (bytes are not filled)
        return bool(((gd == fill) | gm).all())
    wm = np.ma.getmaskarray(want)
    wd = np.ma.getdata(want)
    if gd.shape != wd.shape:
        return False
    if raw:
        keep = ~wm
        if not np.array_equal(gd[keep], wd[keep]):
            return False
        return bool((gd[wm] == fill).all()) if wm.any() else True
    keep = ~wm
    if fill is not None:
        keep = keep & (wd != fill)
    return np.array_equal(gd[keep], wd[keep]) and not gm[keep].any()


def reread(ctx, rng, port, f, nc):
    name = rng.choice(sorted(f.vars))
    s = f.shadow[name]
    d = f.desc[name]
    if isinstance(s, list):
        n = len(nc.dimensions["time"])
        if not n:
            return
        full = s + [None] * (n - len(s))
        i = rng.randrange(n)
        got = port.read_slice(nc, name, i)
        ctx.check(equal_record(got, full[i], d, False), "slice", lambda: "{} record {} of {}: {!r}, written {!r}".format(name, i, n, got, full[i]))
        got = port.read_slice(nc, name, i, all_values=True)
        ctx.check(got.shape[0] == n and all(equal_record(got[k], full[k], d, False) for k in range(n)), "all-values",
                  lambda: "{}: {!r}, written {!r}".format(name, got, full))
    else:
        got = port.read_slice(nc, name, 0, all_values=True)
        ctx.check(equal_record(got, s, d, False), "all-values", lambda: "{}: {!r}, written {!r}".format(name, got, s))
    dt, dims, atts = port.get_var_info(nc, name)
    ctx.check(np.dtype(dt) == np.dtype(d["dt"]) and tuple(dims) == d["dims"] and set(atts) == set(d["atts"])
              and all(same_attr(atts[k], d["atts"][k]) for k in atts), "info",
              lambda: "{}: {} expected {}".format(name, (dt, dims, atts), d))


def compare(ctx, f, t):
    """The file, read without the facade"""
    import netCDF4

    with netCDF4.Dataset(f.path) as nc:
        nc.set_auto_maskandscale(False)
        ctx.check(nc.data_model == f.model, "format", lambda: "format {} gave {}, expected {}".format(f.fmt, nc.data_model, f.model))
        want = dict(t["attrs"])
        if "history" in want:
            ctx.count("template_history")
            want["history"] = "Standardized\n" + want["history"]
            got_hist = nc.getncattr("history")
            ctx.check(got_hist.endswith(want["history"]), "history", lambda: "history {!r}, expected {!r}".format(got_hist, want["history"]))
        else:
            ctx.count("no_history")
            got_hist = nc.getncattr("history")
            if f.hist is not None:
                ctx.count("history_given")
                ctx.check(f.hist in got_hist, "history", lambda: "history {!r}, given {!r}".format(got_hist, f.hist))
        for n, a in want.items():
            if n != "history":
                ctx.check(n in nc.ncattrs() and same_attr(nc.getncattr(n), a), "global-attribute", lambda: "{}: {!r} expected {!r}".format(n, nc.ncattrs(), a))
        ctx.check(set(nc.ncattrs()) == set(want) | {"history"}, "global-attribute", lambda: "{} expected {}".format(nc.ncattrs(), sorted(want)))
        ctx.check(set(nc.dimensions) == set(t["dims"]), "dimensions", lambda: "{} expected {}".format(list(nc.dimensions), list(t["dims"])))
        for d in t["dims"]:
            dim = nc.dimensions[d]
            ctx.check(dim.isunlimited() == (d == "time"), "unlimited", lambda: "{}: unlimited {}".format(d, dim.isunlimited()))
            if d != "time":
                ctx.check(len(dim) == t["dims"][d], "length", lambda: "{}: {} expected {}".format(d, len(dim), t["dims"][d]))
        n = max([len(s) for s in f.shadow.values() if isinstance(s, list)] + [0])
        ctx.check(len(nc.dimensions["time"]) == n, "records", lambda: "{} records expected {}".format(len(nc.dimensions["time"]), n))
        ctx.check(set(nc.variables) == set(f.desc), "variables", lambda: "{} expected {}".format(list(nc.variables), list(f.desc)))
        for name, d in f.desc.items():
            v = nc.variables[name]
            ctx.check(v.dtype == np.dtype(d["dt"]), "type", lambda: "{}: {} expected {}".format(name, v.dtype, d["dt"]))
            ctx.check(v.dimensions == d["dims"], "dimensions", lambda: "{}: {} expected {}".format(name, v.dimensions, d["dims"]))
            atts = {k: v.getncattr(k) for k in v.ncattrs()}
            ctx.check(set(atts) == set(d["atts"]) and all(same_attr(atts[k], d["atts"][k]) for k in atts), "attributes",
                      lambda: "{}: {} expected {}".format(name, atts, d["atts"]))
            if f.model.startswith("NETCDF4") and v.dimensions:
                z = v.filters() or {}
                level = z.get("complevel", 0) if z.get("zlib") else 0
                ctx.check(level == f.level, "compression", lambda: "{} in {}: level {} expected {}".format(name, f.fmt, level, f.level))
            s = f.shadow[name]
            if isinstance(s, list):
                for k, r in enumerate(s + [None] * (n - len(s))):
                    if r is None:
                        ctx.count("hole")
                    got = v[k]
                    ctx.check(equal_record(got, r, d, True), "values", lambda: "{} record {} ({}): {!r}, written {!r}".format(name, k, f.fmt, got, r))
            else:
                got = v[...]
                ctx.check(equal_record(got, s, d, True), "meta-values", lambda: "{}: {!r} expected {!r}".format(name, got, s))
            if d["dt"] == "S1":
                ctx.count("strings")


def find(ctx, rng):
    """The input file of a variable is looked for where, and under the name, that is described"""
    from pyconform.climIO import get_filename

    here = ctx.scratch()
    folder = os.path.join(here, "in")
    os.makedirs(folder, exist_ok=True)
    fn = "case.h0"
    parts = {"$prefix": fn, "$var": "T", "$date_pattern": "185001-185912", "$hem": rng.choice(["_nh", "_sh"]), "$suffix": ".nc"}
    pattern = ["$prefix", ".", "$var", "$hem", ".", "$date_pattern", "$suffix"]
    if rng.random() < 0.3:
        pattern.remove("$hem")
    if rng.random() < 0.3:
        pattern = ["$var", "/", "$prefix", ".", "$date_pattern", "$suffix"]
    full = folder + "/" + "".join(parts.get(p, p) for p in pattern)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    places = {"dir": folder + "/" + fn, "here": os.path.join(here, fn), "pattern": full}
    there = {k for k in places if rng.random() < 0.4}
    month = {"directory": folder, "fn": fn, "pattern": pattern, "date_stamp": parts["$date_pattern"], "suffix": ".nc"}
    if "here" in there:
        month["fn"] = places["here"]  # (a full path)
        parts["$prefix"] = month["fn"]
    for k in there:
        open(places[k], "w").close()
    want = places["dir"] if "dir" in there and "here" not in there else places["here"] if "here" in there else \
        places["pattern"] if "pattern" in there else None
    ctx.count("find_" + ("none" if want is None else [k for k in places if places[k] == want][0]))
    got = get_filename("T", dict(month), parts["$hem"])
    ctx.check((got is None) == (want is None) and (want is None or os.path.realpath(got) == os.path.realpath(want)), "file-name",
              lambda: "found {!r} expected {!r} of {}".format(got, want, sorted(there)))
    for k in there:
        os.remove(places[k])


def descriptors(folder):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(folder):
            out.append(p)
    return sorted(out)


def case(ctx):
    from pyconform import climIO

    rng = ctx.rng
    nrng = ctx.np_rng
    folder = os.path.realpath(ctx.scratch())
    if rng.random() < 0.3:
        find(ctx, rng)
    port = quiet(climIO.init_climIO, override="netCDF4")
    tpath = os.path.join(folder, "template.nc")
    t = make_template(ctx, rng, nrng, tpath)
    before = open(tpath, "rb").read()
    nfiles = rng.choice([1, 1, 2, 3])
    done = []
    pending = []
    if nfiles > 1:
        ctx.count("two_files")
    started = 0
    while started < nfiles or pending:
        if started < nfiles and (not pending or rng.random() < 0.2):
            pending.append(begin(ctx, rng, port, folder, started, tpath, t))
            started += 1
            pending[-1].left = rng.randint(0, 10)
            continue
        f = rng.choice(pending)
        if f.left > 0:
            write(ctx, rng, nrng, port, f, t)
            f.left -= 1
            if rng.random() < 0.2:
                reread(ctx, rng, port, f, f.nc)
                ctx.count("read_open")
        else:
            port.close_file(f.nc)
            pending.remove(f)
            done.append(f)
    ctx.check(not descriptors(folder), "left-open", lambda: "left open: {}".format(descriptors(folder)))
    ctx.check(open(tpath, "rb").read() == before, "template-changed", "the template file was changed")
    for f in done:
        compare(ctx, f, t)
        nc = port.open_file(f.path)
        try:
            reread(ctx, rng, port, f, nc)
            ctx.count("read_closed")
        finally:
            port.close_file(nc)
    ctx.check(not descriptors(folder), "left-open", lambda: "left open: {}".format(descriptors(folder)))
    ctx.count("files", len(done))
    sig = [(f.fmt, f.main, f.new, sorted(f.desc), {k: len(s) for k, s in f.shadow.items() if isinstance(s, list)}) for f in done]
    ctx.nontrivial(sig, t["dims"], [(k, v["dt"], v["dims"]) for k, v in t["vars"].items()])
    ctx.sample(sig)
