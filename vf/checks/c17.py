"""C17: written headers carry exactly the declared metadata"""
import copy
import datetime
import os
import warnings
from collections import OrderedDict

import numpy as np
from cf_units import Unit

from vf import flow

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "header monitor: every header field of every written file against the declaration"
RULE = ("random declarations: all types, formats, attribute kinds, fill values, compression levels and "
        "overrides, history switched on and off on one data flow, helpers with an underscore, inherited "
        "units and calendars; every header field of every file compared; non-trivial = a file with an "
        "inherited attribute, an override or a helper; distinct by specification")
CASES = {"quick": 1200, "thorough": 10000}
REQUIRED = ["headers", "variables", "attributes", "inherited_units", "inherited_calendar", "history_on", "history_off",
            "fill_values", "compressed", "uncompressed", "override", "bad_override", "hidden", "hidden_owner",
            "unlimited", "user_history", "inverted", "reserved_direction", "array_attributes", "empty_units",
            "no_units_declared", "executed_again"] + [
    "type_" + t for t in ("byte", "char", "short", "ushort", "int", "uint", "int64", "uint64", "float",
                          "real", "double")] + [
    "format_" + f for f in ("NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET",
                            "NETCDF3_64BIT_DATA", "NETCDF3_64BIT")]

NP = {"byte": "i1", "ubyte": "u1", "char": "S1", "short": "i2", "ushort": "u2", "int": "i4", "uint": "u4",
      "int64": "i8", "uint64": "u8", "float": "f4", "real": "f4", "double": "f8"}
TYPES3 = ["byte", "char", "short", "int", "float", "double"]
FORMATS = ["NETCDF4", "NETCDF4", "NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET",
           "NETCDF3_64BIT_DATA", "NETCDF3_64BIT", None]
UNITS = {"K": ["K", "degC"], "m s-1": ["m s-1", "km hour-1"], "kg m-2 s-1": ["kg m-2 s-1", "kg m-2 day-1"],
         "1": ["1", "%"], "Pa": ["Pa", "hPa"]}
WORDS = ["alpha", "a b c", "", " x", "é", "{n}", "?", "0", "none", "x" * 300]


def _attr(rng, kinds):
    k = rng.choice(kinds)
    if k == "text":
        return rng.choice(WORDS)
    if k == "int":
        return rng.choice([0, 1, -7, 123456])
    if k == "float":
        return rng.choice([0.0, 1.5, -2.25e10])
    if k == "ints":
        return [rng.randint(-9, 9) for _ in range(rng.randint(2, 4))]
    return [rng.uniform(-9, 9) for _ in range(rng.randint(2, 4))]


KINDS = ["text", "text", "text", "int", "float", "ints", "floats"]


def _same(a, b):
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if isinstance(a, str):
        return False
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    return a.shape == b.shape and bool(np.all(a == b)) and (a.dtype.kind == "f") == (b.dtype.kind == "f")


def _inputs(rng, path, sizes, unlimited):
    import netCDF4

    units = {}
    with netCDF4.Dataset(path, "w") as f:
        for k, n in sizes.items():
            f.createDimension(k, None if k == unlimited else n)
        for k, n in sizes.items():
            v = f.createVariable(k, "f8", (k,))
            u = {"x": "degrees_east", "y": "degrees_north", "t": "days since 2001-01-01"}[k]
            v.units = u
            if k == "t":
                cal = rng.choice(["noleap", "360_day", "standard", "julian", None])
                if cal:
                    v.calendar = cal
                u = (u, cal or "standard")
            v.axis = "Q"
            v.leak = "input"
            v[:] = np.arange(n)
            units[k] = u
        for i in range(5):
            ds = tuple(rng.sample(list(sizes), rng.randint(0, len(sizes))))
            v = f.createVariable("v%d" % i, rng.choice(["f4", "f8"]), ds)
            u = rng.choice(list(UNITS))
            v.units = u
            v.long_name = "input"
            v.leak = "input"
            v[...] = 1.0
            units["v%d" % i] = (u, ds)
    return units


def _expect_units(attrs, src):
    """What the units and calendar attributes have to be; src: Unit of the data"""
    out = {}
    if "units" not in attrs:
        return out
    if src.is_time_reference():
        u = attrs["units"]
        if u in ("?", ""):
            out["units"] = str(src)
        if "calendar" not in attrs and src.calendar:
            out["calendar"] = src.calendar
    elif attrs["units"] in ("?", "", "unknown"):
        out["units"] = src
    return out


def case(ctx):
    rng = ctx.rng
    folder = ctx.scratch()
    sizes = OrderedDict((k, rng.randint(2, 3)) for k in rng.sample("xyt", rng.randint(1, 3)))
    unlimited = rng.choice(list(sizes)) if rng.random() < 0.6 else None
    inp = folder + "/in.nc"
    units = _inputs(rng, inp, sizes, unlimited)
    d, src, files = OrderedDict(), {}, OrderedDict()
    flip = set()

    def attrs(u):
        a = OrderedDict()
        for n in rng.sample(["long_name", "standard_name", "comment", "cell_methods", "extra", "leaky", "valid", "flags",
                             "units_note", "calendar_note", "history_note", "direction_note", "positive_note",
                             "fill_value", "axis_note"], rng.randint(0, 5)):
            a[n] = _attr(rng, KINDS)
        r = rng.random()
        if u is not None and r < 0.3:
            a["units"] = rng.choice(["?", "", "?"])
            if a["units"] == "":
                ctx.count("empty_units")
        elif u is not None and r < 0.8:
            a["units"] = rng.choice(UNITS.get(u, [u]))
        if rng.random() < 0.15:
            a["history"] = "mine"
            ctx.count("user_history")
        items = list(a.items())
        rng.shuffle(items)
        return OrderedDict(items)

    for k in sizes:
        a = attrs(None)
        u = units[k]
        if k == "t":
            src[k + "o"] = Unit(u[0], calendar=u[1])
            r = rng.random()
            if r < 0.4:
                a["units"] = "?"
            elif r < 0.8:
                a["units"] = u[0]
                if rng.random() < 0.3:
                    a["calendar"] = u[1]
        else:
            src[k + "o"] = Unit(u)
            if rng.random() < 0.7:
                a["units"] = rng.choice(["?", u])
        if rng.random() < 0.6:
            a["axis"] = k.upper()
            if rng.random() < 0.6:
                a["direction"] = rng.choice(["increasing", "decreasing"])
                ctx.count("reserved_direction")
                if a["direction"] == "decreasing":
                    flip.add(k + "o")
        d[k + "o"] = OrderedDict([("attributes", a), ("datatype", rng.choice(["float", "double"])),
                                  ("dimensions", [k + "o"]), ("definition", k)])
    nout = rng.randint(1, 4)
    for i in range(nout):
        name = "out%d" % i
        if rng.random() < 0.08:
            name = "_out%d" % i
        fmt = rng.choice(FORMATS)
        types = [n for n in NP if n != "ubyte"] if fmt == "NETCDF4" else TYPES3
        t = rng.choice(types)
        a = None
        if t in ("float", "real", "double") and rng.random() < 0.7:
            k = rng.choice([n for n in units if n[0] == "v"])
            u, ds = units[k]
            defn = rng.choice([k, "2*{}".format(k), "-{}".format(k), "{0} + {0}".format(k)])
            if rng.random() < 0.2:
                k2 = rng.choice([n for n in units if n[0] == "v" and set(units[n][1]) <= set(ds)])
                defn = "{}*{}".format(k, k2)
                un = Unit(u) * Unit(units[k2][0])
                a = attrs(None)
                if rng.random() < 0.7:
                    a["units"] = "?"
            else:
                un = Unit(u)
                a = attrs(u)
            odims = [x + "o" for x in ds]
            if fmt != "NETCDF4" and fmt != "NETCDF4_CLASSIC" and fmt is not None and unlimited in ds:
                odims.remove(unlimited + "o")
                rng.shuffle(odims)
                odims.insert(0, unlimited + "o")
            else:
                rng.shuffle(odims)
        else:
            # data given in the specification
            fixed = [x for x in sizes if x != unlimited]
            if t == "char" and not fixed:
                t = "byte"
            ds = rng.sample(fixed, rng.randint(1 if t == "char" else 0, len(fixed)))
            odims = [x + "o" for x in ds]
            shape = tuple(sizes[x] for x in ds)
            if t == "char":
                L = rng.randint(1, 4)
                defn = np.full(shape, "w" * L).tolist()
                odims = odims + ["len%d" % i]
            else:
                defn = np.arange(int(np.prod(shape))).reshape(shape).tolist()
            un = Unit(None)
            a = attrs(None)
            if t != "char" and rng.random() < 0.5:
                a["units"] = rng.choice(["K", "1", "m"])
                un = Unit(a["units"])
        if t != "char" and rng.random() < 0.5:
            a["_FillValue"] = rng.choice([-1, 1e20, -9999.0, 0.0]) if NP[t][0] == "f" else (
                rng.choice([-1, 99, 0]) if NP[t][0] == "i" else rng.choice([99, 255, 0]))
        f = OrderedDict([("filename", "{}/{}f{}.nc".format(folder + "/out", rng.choice(["", "s/"]), i))])
        if fmt:
            f["format"] = fmt
        if rng.random() < 0.5:
            f["deflate"] = rng.randint(0, 9)
        if rng.random() < 0.8:
            f["attributes"] = OrderedDict(
                (n, _attr(rng, KINDS)) for n in rng.sample(["title", "institution", "source", "history", "tracking", "n"],
                                                           rng.randint(0, 4)))
        f["metavars"] = []
        d[name] = OrderedDict([("attributes", a), ("datatype", t), ("dimensions", odims), ("definition", defn),
                               ("file", f)])
        src[name] = un
        files[f["filename"]] = name
        if rng.random() < 0.3 and sizes:
            h = "_help%d" % i
            k = rng.choice(list(sizes))
            d[h] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", [k + "o"]),
                                ("definition", k)])
            f["metavars"].append(h)
            src[h] = Unit(None)
    what = str([(n, v["definition"], v["dimensions"], v["datatype"], dict(v["attributes"]), dict(v.get("file", {})))
                for n, v in d.items()]).replace(folder, "")
    given, d = d, copy.deepcopy(d)
    df = flow.build([inp], given)

    if rng.random() < 0.3 and any(n[0] != "_" for n in files.values()):
        bad = rng.choice([-1, 10, 2.5, "3", [1], 1000])
        try:
            df.execute(serial=True, deflate=bad)
        except (TypeError, ValueError):
            ctx.count("bad_override")
        else:
            ctx.fail("bad-override", "compression level {!r} was accepted".format(bad))
        ctx.check(not flow.listing(folder + "/out"), "bad-override-written",
                  lambda: "level {!r} rejected but {} remain".format(bad, flow.listing(folder + "/out")))

    turns = rng.choice([1, 1, 2])
    for turn in range(turns):
        history = rng.random() < 0.5
        kw = {"history": history} if history or rng.random() < 0.5 else {}
        level = rng.choice([None, None, 0, 1, 2, 5, 9])
        if level is not None:
            kw["deflate"] = level
            ctx.count("override")
        before = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None, microsecond=0)
        df.execute(serial=True, **kw)
        after = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        if turn:
            ctx.count("executed_again")
        ctx.check(flow.listing(folder + "/out") == sorted(files), "files",
                  lambda: "files {}: {}".format(flow.listing(folder + "/out"), what))
        for fn, main in files.items():
            _judge(ctx, fn, main, d, src, sizes, unlimited, history, level, (before, after), flip,
                   "turn {} {}: {}".format(turn, kw, what))
    _untouched(ctx, given, d, what)


def _untouched(ctx, given, kept, what):
    """The declaration the caller holds stays as it was"""
    for n in kept:
        for part in kept[n]:
            a, b = given.get(n, {}).get(part), kept[n][part]
            if isinstance(b, dict):
                for k in sorted(set(a) | set(b)):
                    ctx.check(k in a and k in b and _as(a[k]) == _as(b[k]), "declaration-changed", lambda: "{} {} {}: {!r} was {!r}: {}".format(
                        n, part, k, a.get(k), b.get(k), what))
            else:
                ctx.check(_as(a) == _as(b), "declaration-changed", lambda: "{} {}: {!r} was {!r}: {}".format(n, part, a, b, what))
    ctx.check(list(given) == list(kept), "declaration-changed", lambda: "{}: {}".format(list(given), what))


def _as(v):
    if isinstance(v, (np.ndarray, np.generic)):
        return str(v.dtype), v.tolist()
    return repr(v)


def _judge(ctx, fn, main, d, src, sizes, unlimited, history, level, clock, flip, what):
    import netCDF4

    fd = d[main]["file"]
    need = [main] + fd["metavars"]
    dims = {x for m in need for x in d[m]["dimensions"]}
    names = set(need) | {m for m, v in d.items() if "file" not in v and v["dimensions"] and set(v["dimensions"]) <= dims}
    hidden = {m for m in names if m.startswith("_")}
    if hidden - {main}:
        ctx.count("hidden")
    if main in hidden:
        ctx.count("hidden_owner")
    names -= hidden
    got = flow.read(fn)
    what = "{}: {}".format(os.path.basename(fn), what)
    fmt = fd.get("format", "NETCDF4_CLASSIC")
    ctx.check(got["format"] == {"NETCDF3_64BIT": "NETCDF3_64BIT_OFFSET"}.get(fmt, fmt), "format",
              lambda: "format {} expected {} in {}".format(got["format"], fmt, what))
    ctx.count("format_" + fmt)
    want = dict(fd.get("attributes", {}))
    ga = dict(got["attrs"])
    date = ga.pop("creation_date", None)
    ctx.check(set(ga) == set(want), "global-attributes",
              lambda: "global attributes {} expected {} in {}".format(ga, want, what))
    for a in want:
        ctx.check(_same(ga[a], want[a]), "global-attribute",
                  lambda: "global attribute {}: {!r} expected {!r} in {}".format(a, ga[a], want[a], what))
        ctx.count("attributes")
    try:
        when = datetime.datetime.strptime(str(date), "%Y-%m-%dT%H:%M:%SZ")
        good = clock[0] <= when <= clock[1]
    except ValueError:
        good = False
    ctx.check(good, "creation-date", lambda: "creation date {!r}, now {} in {}".format(date, clock, what))

    wd = {}
    for n in names:
        for x in d[n]["dimensions"]:
            if x.startswith("len"):
                wd[x] = (len(np.ravel(d[n]["definition"])[0]), False)
            else:
                wd[x] = (sizes[x[0]], x[0] == unlimited)
    ctx.check(dict(got["dims"]) == wd, "dimensions",
              lambda: "dimensions {} expected {} in {}".format(dict(got["dims"]), wd, what))
    if any(u for _s, u in wd.values()):
        ctx.count("unlimited")
    ctx.check(set(got["vars"]) == names, "variables",
              lambda: "variables {} expected {} in {}".format(sorted(got["vars"]), sorted(names), what))
    with netCDF4.Dataset(fn) as f:
        filters = {n: v.filters() for n, v in f.variables.items()}
    special = bool(hidden) or level is not None
    for n in sorted(names):
        dt, vd, _data, attrs = got["vars"][n]
        decl = d[n]["attributes"]
        t = d[n]["datatype"]
        ctx.count("type_" + t)
        ctx.count("variables")
        ctx.check(dt == np.dtype(NP[t]), "type", lambda: "{}: type {} expected {} in {}".format(n, dt, t, what))
        ctx.check(vd == tuple(d[n]["dimensions"]), "variable-dimensions",
                  lambda: "{}: dimensions {} in {}".format(n, vd, what))
        inherited = _expect_units(decl, src[n])
        wa = {a: v for a, v in decl.items() if a not in ("direction", "history")}
        wa.update(inherited)
        ga = dict(attrs)
        h = ga.pop("history", None)
        ctx.check((h is not None) == history, "history",
                  lambda: "{}: history {!r} with history={} in {}".format(n, h, history, what))
        if history:
            ctx.check(isinstance(h, str) and len(h) > 0, "history-text",
                      lambda: "{}: history {!r} in {}".format(n, h, what))
            ctx.count("history_on")
            if set(vd) & flip:
                ctx.count("inverted")
        else:
            ctx.count("history_off")
        ctx.check(set(ga) == set(wa), "attributes",
                  lambda: "{}: attributes {} expected {} in {}".format(n, ga, wa, what))
        for a in wa:
            if a == "units" and a in inherited:
                ctx.check(isinstance(ga[a], str) and Unit(ga[a], calendar=src[n].calendar) == Unit(
                    str(wa[a]), calendar=src[n].calendar), "inherited-units",
                    lambda: "{}: units {!r} expected {} in {}".format(n, ga[a], wa[a], what))
                ctx.count("inherited_units")
                special = True
            elif a == "calendar" and a in inherited:
                same = {"gregorian": "standard"}
                ctx.check(same.get(ga[a], ga[a]) == same.get(wa[a], wa[a]), "inherited-calendar",
                          lambda: "{}: calendar {!r} expected {} in {}".format(n, ga[a], wa[a], what))
                ctx.count("inherited_calendar")
                special = True
            elif a == "_FillValue":
                ctx.check(np.asarray(ga[a]).dtype == np.dtype(NP[t]) and ga[a] == np.dtype(NP[t]).type(wa[a]), "fill",
                          lambda: "{}: fill value {!r} expected {!r} in {}".format(n, ga[a], wa[a], what))
                ctx.count("fill_values")
            else:
                ctx.check(_same(ga[a], wa[a]), "attribute",
                          lambda: "{}: attribute {}: {!r} expected {!r} in {}".format(n, a, ga[a], wa[a], what))
                ctx.count("attributes")
                if isinstance(wa[a], list):
                    ctx.count("array_attributes")
        if "units" not in decl:
            ctx.count("no_units_declared")
        if got["format"].startswith("NETCDF4") and vd:
            lev = fd.get("deflate", 2) if level is None else level
            fl = filters[n]
            have = fl["complevel"] if fl["zlib"] else 0
            ctx.check(have == lev, "compression",
                      lambda: "{}: compression {} expected {} in {}".format(n, fl, lev, what))
            ctx.count("compressed" if lev else "uncompressed")
    ctx.count("headers")
    if special:
        ctx.nontrivial(what)
    ctx.sample(what)
