"""C18: date ranges in file names are those of the data written"""
import os
import warnings
from collections import OrderedDict

import numpy as np

from vf import cal as C
from vf import flow

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "file-name monitor: names of written files against dates from separate calendar arithmetic"
RULE = ("random time axes (six calendars, years 1 to 9999, units, reference dates, lengths from one) and file "
        "name templates (several per name, in folders, any date fields); time variables identified by name, "
        "units, standard name, axis or declaration, read or given, converted or not, hidden or not; names of "
        "the written files compared; non-trivial = a name with a filled template; distinct by dates and format")
CASES = {"quick": 700, "thorough": 15000}
REQUIRED = ["filled", "several_templates", "in_folder", "unchanged", "no_time_warning", "declared_variable",
            "hidden_variable", "by_name", "by_units", "by_standard_name", "by_axis", "converted_units",
            "converted_reference", "one_step", "given_times", "early_year", "two_time_axes", "bounds_present", "bounds_before", "blank_in_name",
            "chunked"] + ["calendar_" + c for c in C.CALENDARS]

PARTS = ["%Y", "%m", "%d", "%H", "%M"]
FORMATS = ["%Y", "%Y%m", "%Y%m%d", "%Y%m%d%H", "%Y%m%d%H%M", "%m", "y%Ym%m", "%d.%m.%Y", "%Y_%m_%dT%H", "%m%Y"]


def _fmt(f, n, minutes, c):
    y, m, d = C.date(c, n)
    return (f.replace("%Y", "%04d" % y).replace("%m", "%02d" % m).replace("%d", "%02d" % d)
            .replace("%H", "%02d" % (minutes // 60)).replace("%M", "%02d" % (minutes % 60)))


PER = {"days": 1440, "hours": 60, "minutes": 1, "seconds": 1.0 / 60}


def _times(rng, c, exact):
    """Instants as (day number, minutes), increasing"""
    y = rng.choice([rng.randint(1600, 2200), rng.randint(1850, 2100), rng.randint(1600, 9000),
                    rng.randint(1, 999) if c != "standard" else 1850])
    n = C.day(c, y, rng.randint(1, 12), rng.choice([1, 15, 28]))
    mins = rng.choice([0, 180, 720, 1260]) if exact else rng.choice([30, 12 * 60 + 30, 23 * 60 + 30])
    k = rng.choice([1, 1, 2, 3, 5, 13])
    step = rng.choice(["day", "month", "year", "eighth", "random"])
    out = []
    for _ in range(k):
        out.append((n, mins))
        if step == "day":
            n += 1
        elif step == "month":
            n += 30
        elif step == "year":
            n += 365
        elif step == "eighth":
            mins += 180
            n, mins = n + mins // 1440, mins % 1440
        else:
            n += rng.randint(1, 4000)
    return out


def _encode(inst, unit, ref):
    """Values of instants in a unit since a reference (day number)"""
    return [((n - ref) * 1440 + m) / PER[unit] for n, m in inst]


def _ref(rng, c):
    y = rng.choice([1, 1600, 1850, 1900, 2000, 2100]) if c != "standard" else rng.choice([1600, 1850, 2000])
    m = rng.choice([1, 1, 3, 12])
    return "%04d-%02d-01" % (y, m) + rng.choice(["", " 00:00:00"]), C.day(c, y, m, 1)


def case(ctx):
    import netCDF4

    rng = ctx.rng
    folder = ctx.scratch()
    inp = folder + "/in.nc"
    axes = OrderedDict()
    with netCDF4.Dataset(inp, "w") as f:
        f.createDimension("x", 2)
        v = f.createVariable("x", "f8", ("x",))
        v[:] = [1.0, 2.0]
        f.createDimension("b", 2)
        for k in ["t", "u"][:rng.choice([1, 1, 2])]:
            c = rng.choice(C.CALENDARS)
            convert = rng.random() < 0.5
            inst = _times(rng, c, not convert)
            inst2 = [(n - rng.choice([15, 40, 700]) if n > 1500 else n + 40, m) for n, m in inst]
            unit = rng.choice(["days", "hours", "minutes"]) if convert else rng.choice(list(PER))
            ref, rday = _ref(rng, c)
            f.createDimension(k, len(inst) if rng.random() < 0.5 else None)
            spell = {v2: k2 for k2, v2 in C.ALIAS.items()}.get(c, c) if rng.random() < 0.3 else c
            for name, values in ((k, inst), (k + "2", inst2)):
                v = f.createVariable(name, "f8", (k,))
                v.units = "{} since {}".format(unit, ref)
                if c != "standard" or rng.random() < 0.5:
                    v.calendar = spell
                v[:] = _encode(values, unit, rday)
            v = f.createVariable(k + "_b", "f8", (k, "b"))
            v.units = "{} since {}".format(unit, ref)
            v.calendar = spell
            lo = _encode(inst2, unit, rday)
            v[:] = np.array([[a, a + 0.5] for a in lo])
            v = f.createVariable("v" + k, "f4", (k, "x"))
            v[:] = 1.0
            axes[k] = {"cal": c, "spell": spell, "inst": inst, "inst2": inst2, "convert": convert, "unit": unit, "ref": ref}
        f.createVariable("vx", "f4", ("x",))[:] = 1.0

    d = OrderedDict()
    expect, missing = {}, []
    names = ["time", "time1", "time2", "time3"]
    rng.shuffle(names)
    d["xo"] = OrderedDict([("attributes", OrderedDict([("axis", "X")])), ("datatype", "double"),
                           ("dimensions", ["xo"]), ("definition", "x")])
    how = {}
    for k, a in axes.items():
        kind = rng.choice(["name", "units", "standard_name", "axis", "none"])
        attrs = OrderedDict()
        unit, ref = a["unit"], a["ref"]
        if a["convert"]:
            unit = rng.choice(["days", "hours", "minutes"])
            ref, _r = _ref(rng, a["cal"])
            attrs["units"] = "{} since {}".format(unit, ref)
            if unit != a["unit"]:
                ctx.count("converted_units")
            if ref != a["ref"]:
                ctx.count("converted_reference")
        elif kind == "units":
            attrs["units"] = rng.choice(["{} since {}".format(unit, ref), "?"])
        elif rng.random() < 0.5 and kind != "none":
            attrs["units"] = "?"
        if rng.random() < 0.4 and kind != "none":
            attrs["calendar"] = a["spell"]
            if "units" not in attrs:
                attrs["units"] = "?"
        if kind == "none" and "units" in attrs:
            kind = "units"
        name = {"name": names.pop(), "units": k + "axis", "standard_name": "std_" + k, "axis": "ax" + k,
                "none": "plain" + k}[kind]
        if kind == "standard_name":
            attrs["standard_name"] = "time"
        if kind == "axis":
            attrs["axis"] = "T"
        given = rng.random() < 0.15
        defn = k
        if given:
            attrs["units"] = "{} since {}".format("days", "2000-01-01")
            attrs["calendar"] = a["cal"]
            r0 = C.day(a["cal"], 2000, 1, 1)
            if kind == "none":
                kind = "units"
            defn = _encode(a["inst"], "days", r0)
            ctx.count("given_times")
        d[name] = OrderedDict([("attributes", attrs), ("datatype", "double"), ("dimensions", [k + "o"]),
                               ("definition", defn)])
        if given:
            # the dimension still has to be known from an input
            d["also" + k] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"),
                                         ("dimensions", [k + "o"]), ("definition", k)])
        how[k] = (name, kind)
        if rng.random() < 0.4:
            d[k + "bnds"] = OrderedDict([("attributes", OrderedDict([("units", "?")])), ("datatype", "double"),
                                         ("dimensions", [k + "o", "bo"]), ("definition", k + "_b")])
            if rng.random() < 0.6:
                attrs["bounds"] = k + "bnds"
    nout = rng.randint(1, 4)
    for i in range(nout):
        k = rng.choice(list(axes) + ["x"])
        src = "v" + k
        odims = ["xo"] if k == "x" else [k + "o", "xo"]
        ntemp = rng.choice([0, 1, 1, 1, 2, 3])
        if ntemp > 1:
            ctx.count("several_templates")
        pieces, formats = [], []
        # converting the units may move a time by less than a second: no minutes then
        usable = [x for x in FORMATS if "%M" not in x or not (k in axes and axes[k]["convert"])]
        for _ in range(ntemp):
            fmts = (rng.choice(usable),) * 2 if rng.random() < 0.7 else (rng.choice(usable), rng.choice(usable))
            formats.append(fmts)
        pattern = rng.choice(["o%d", "o%d", "o%d", "an o%d", "o%d of_"]) % i
        if " " in pattern and ntemp:
            ctx.count("blank_in_name")
        for fmts in formats:
            sep = rng.choice(["_", ".", "", "_", "/"])
            if sep == "/":
                ctx.count("in_folder")
            pattern += sep + "{" + fmts[0] + "-" + fmts[1] + "}"
        pattern += rng.choice(["", "_z", "-w"]) + ".nc"
        f = OrderedDict([("filename", folder + "/out/" + pattern)])
        inst, c = None, None
        if k != "x":
            name, kind = how[k]
            c = axes[k]["cal"]
            inst = axes[k]["inst"] if kind != "none" else None
            if rng.random() < 0.3:
                h = rng.choice(["_tm", "tm"]) + str(i)
                second = rng.random() < 0.7
                d[h] = OrderedDict([("attributes", OrderedDict([("units", "?")] if rng.random() < 0.5 else [])),
                                    ("datatype", "double"), ("dimensions", [k + "o"]),
                                    ("definition", k + "2" if second else k)])
                f["metavars"] = [h]
                f["autoparse_time_variable"] = h
                inst = axes[k]["inst2"] if second else axes[k]["inst"]
                # a variable with its dimensions goes to every file of this axis: keep it in its own
                d[h]["file"] = OrderedDict([("filename", "{}/out/own{}.nc".format(folder, i))])
                if h[0] != "_":
                    expect["{}/out/own{}.nc".format(folder, i)] = None
                else:
                    expect["{}/out/own{}.nc".format(folder, i)] = None
                    ctx.count("hidden_variable")
                ctx.count("declared_variable")
                kind = None
            elif ntemp and inst is not None:
                ctx.count("by_" + kind)
            if k + "bnds" in d:
                # (in the file before the time variable, or after it)
                if rng.random() < 0.5:
                    f.setdefault("metavars", []).append(k + "bnds")
                    ctx.count("bounds_before")
                elif "bounds" in d[how[k][0]]["attributes"]:
                    ctx.count("bounds_present")
        d["o%d" % i] = OrderedDict([("attributes", OrderedDict()), ("datatype", "float"), ("dimensions", odims),
                                    ("definition", src), ("file", f)])
        if ntemp == 0 or inst is None:
            expect[f["filename"]] = None
            if ntemp == 0:
                ctx.count("unchanged")
            else:
                missing.append(f["filename"])
        else:
            full = f["filename"]
            for fmts in formats:
                full = full.replace("{" + fmts[0] + "-" + fmts[1] + "}",
                                    _fmt(fmts[0], *inst[0], c) + "-" + _fmt(fmts[1], *inst[-1], c), 1)
            expect[full] = (inst, formats)
            ctx.count("filled")
            ctx.count("calendar_" + c)
            if len(inst) == 1:
                ctx.count("one_step")
            if C.date(c, inst[0][0])[0] < 1000:
                ctx.count("early_year")
            ctx.nontrivial(inst[0], inst[-1], formats, c)
    if len(axes) > 1:
        ctx.count("two_time_axes")
    items = list(d.items())
    rng.shuffle(items)
    d = OrderedDict(items)
    what = str([(n, v["definition"], v["dimensions"], dict(v["attributes"]), dict(v.get("file", {})))
                for n, v in d.items()] + [(k, a["cal"], a["unit"], a["ref"], [C.date(a["cal"], n) + (m,) for n, m in a["inst"]])
                                          for k, a in axes.items()]).replace(folder, "")
    chunks = {}
    if rng.random() < 0.4:
        for k in axes:
            if any(v["dimensions"][0] == k + "o" for v in d.values() if "file" in v):
                chunks[k + "o"] = rng.randint(1, 3)
                ctx.count("chunked")
    w = flow.run([inp], d, chunks=chunks)
    from pyconform.flownodes import DateTimeAutoParseWarning

    have = flow.listing(folder + "/out")
    ctx.check(have == sorted(expect), "names",
              lambda: "files {} expected {}: {}".format([h.replace(folder, "") for h in have],
                                                        [h.replace(folder, "") for h in sorted(expect)], what))
    texts = [str(x.message) for x in w if issubclass(x.category, DateTimeAutoParseWarning)]
    for fn in missing:
        ctx.check(any(fn in t for t in texts), "no-warning",
                  lambda: "no warning about {}: {} in {}".format(fn, texts, what))
        ctx.count("no_time_warning")
    ctx.check(len(texts) == len(missing), "false-warning", lambda: "warnings {} in {}".format(texts, what))
    ctx.sample(what)
