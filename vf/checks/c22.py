"""C22: time coordinates keep their instants through units and calendars"""
import re
from collections import OrderedDict
from fractions import Fraction

import numpy as np

from vf import cal as C
from vf import flow

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "instant monitor: stored values and labels of input and output decoded by separate exact calendar arithmetic"
RULE = ("random time variables (six calendars under all their names, five unit sizes in several spellings, reference "
        "dates with and without time of day and zone, float, integer and packed storage, missing points, one to "
        "three dimensions) written with full, partial, empty, incompatible or absent unit declarations in double, "
        "float and integer types, optionally relabelled first, whole and in pieces; instants decoded from input and "
        "output files with exact fractions; non-trivial = a value whose number changed; distinct by labels")
CASES = {"quick": 2200, "thorough": 20000}
REQUIRED = ["identical", "all_open", "unit_open", "reference_open", "reference_omitted", "empty_units", "full", "calendar_open",
            "calendar_alias", "calendar_refused", "not_time_refused", "to_not_time_refused", "undeclared",
            "out_double", "out_float", "out_int", "in_int", "in_packed", "missing", "bounds", "scalar", "chunked",
            "relabel_units", "relabel_reference", "relabel_calendar", "relabel_all", "made_time", "relabel_label", "relabel_like", "reduced",
            "time_of_day", "zone", "across_1582", "early", "rounded", "capital_since", "same_words"] + ["calendar_" + c for c in C.CALENDARS]

UNITS = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}
SPELL = {"days": ["days", "day", "d"], "hours": ["hours", "hour", "h"], "minutes": ["minutes", "minute", "min"],
         "seconds": ["seconds", "second", "s"]}
SECONDS = {s: UNITS[u] for u, ss in SPELL.items() for s in ss}
NAMES = {c: [c] + [a for a, b in C.ALIAS.items() if b == c] for c in C.CALENDARS}
LABEL = re.compile(r"^(\w+) (?i:since) (\d{1,4})-(\d{1,2})-(\d{1,2})(?:[ T](\d{1,2}):(\d{1,2})(?::(\d{1,2})(?:\.0*)?)?)?"
                   r"(?: ?([+-])(\d\d):(\d\d))?$")


def _since(ctx, rng):
    if rng.random() < 0.92:
        return "since"
    ctx.count("capital_since")
    return rng.choice(["Since", "SINCE"])


def _label(text, cal):
    """(seconds per unit, reference in seconds from the start of year 1) of a units attribute"""
    m = LABEL.match(text)
    if m is None:
        return None
    y, mo, d = (int(m.group(i)) for i in (2, 3, 4))
    s = C.day(cal, y, mo, d) * 86400
    s += sum(int(m.group(i) or 0) * k for i, k in ((5, 3600), (6, 60), (7, 1)))
    if m.group(8):
        s -= (1 if m.group(8) == "+" else -1) * (int(m.group(9)) * 3600 + int(m.group(10)) * 60)
    return SECONDS[m.group(1)], s


def _ref(ctx, rng, cal, zone=False, near=None):
    y = near if near is not None else rng.choice([1, 1600, 1850, 1900, 1970, 2000, 2100, rng.randint(1583, 2400)])
    if cal == "standard" and y < 1583 and rng.random() < 0.5:
        y = 1900
    mo = rng.choice([1, 1, 2, 3, 7, 12])
    d = rng.choice([1, 1, 1, 15, 28])
    s = "%04d-%02d-%02d" % (y, mo, d) if rng.random() < 0.8 or y < 1000 else "%d-%d-%d" % (y, mo, d)
    r = rng.random()
    if r < 0.4:
        s += rng.choice([" 00:00:00", " 00:00", "T00:00:00", " 00:00:00.0"])
    elif r < 0.65:
        s += rng.choice([" 12:00:00", " 06:30:15", " 18:00", "T03:00:00", " 23:59:59"])
        ctx.count("time_of_day")
    if zone and r < 0.65 and rng.random() < 0.3 and "." not in s:
        s += rng.choice([" +01:00", " -03:30"])
        ctx.count("zone")
    return s


def _times(ctx, rng, cal, shape):
    """Instants, in whole seconds from the start of year 1"""
    r = rng.random()
    if r < 0.15 and cal != "standard":
        y = rng.randint(2, 900)
        ctx.count("early")
    elif r < 0.3:
        y = rng.randint(1575, 1590)
        ctx.count("across_1582")
    else:
        y = rng.randint(1600, 2400)
    s = C.day(cal, y, rng.randint(1, 12), rng.choice([1, 15, 28])) * 86400 + rng.choice([0, 0, 43200, 10800, 1800, 27, 86399])
    step = rng.choice([86400, 86400 * 30, 86400 * 365, 10800, 3600, 86400 * 7 + 123, 1800])
    out = []
    for _ in range(int(np.prod(shape, dtype=int))):
        out.append(s)
        s += step
    return np.array(out, dtype=object).reshape(shape)


def _declare(ctx, rng, unit, ref, cal, calname, said):
    """Attributes of the output and the label they stand for: (attributes, units, calendar) or a refusal"""
    attrs = OrderedDict()
    u2 = rng.choice(SPELL[rng.choice(list(UNITS))])
    kind = rng.choice(["full", "full", "full", "identical", "all_open", "unit_open", "reference_open",
                       "reference_omitted", "empty_units", "undeclared", "calendar_refused", "to_not_time_refused"])
    ctx.count(kind)
    refuse = False
    label = (unit, ref)
    if kind in ("full", "calendar_refused"):
        r2 = _ref(ctx, rng, cal)
        same = [w for w in said if w[:2] == (unit, ref)] if kind == "full" else []
        if same and rng.random() < 0.7:
            # the words of another conversion, which in this calendar may be another one
            _, _, c, u2, r2 = rng.choice(same)
            if c != cal:
                ctx.count("same_words")
        said.append((unit, ref, cal, u2, r2))
        attrs["units"] = "{} {} {}".format(u2, _since(ctx, rng), r2)
        label = (u2, r2)
        if kind == "calendar_refused":
            given = attrs["units"]
            attrs["units"] = rng.choice([given, "?", u2, "? since " + r2, "{} since {}".format(unit, ref)])
            other = rng.choice([c for c in C.CALENDARS if c != cal])
            if rng.random() < 0.2 and cal != "standard" and attrs["units"] == given:
                other = "standard"
            attrs["calendar"] = rng.choice(NAMES[other])
            refuse = True
    elif kind == "identical":
        attrs["units"] = "{} since {}".format(unit, ref)
    elif kind == "all_open":
        attrs["units"] = rng.choice(["?", "unknown", "? since ?"])
    elif kind == "empty_units":
        attrs["units"] = ""
    elif kind == "unit_open":
        r2 = _ref(ctx, rng, cal)
        attrs["units"] = "? since " + r2
        label = (unit, r2)
    elif kind == "reference_open":
        attrs["units"] = u2 + " since ?"
        label = (u2, ref)
    elif kind == "reference_omitted":
        attrs["units"] = u2
        label = (u2, ref)
    elif kind == "to_not_time_refused":
        attrs["units"] = rng.choice(["m", "K", "1", "kg m-2"])
        refuse = True
    if kind not in ("calendar_refused", "undeclared"):
        if rng.random() < 0.4:
            attrs["calendar"] = rng.choice(NAMES[cal])
            if attrs["calendar"] != calname:
                ctx.count("calendar_alias")
        else:
            ctx.count("calendar_open")
    return kind, attrs, label, refuse


def case(ctx):
    import netCDF4

    rng = ctx.rng
    folder = ctx.scratch()
    inp = folder + "/in.nc"
    nt = rng.choice([1, 2, 3, 5, 9])
    d = OrderedDict()
    want = []
    with netCDF4.Dataset(inp, "w") as f:
        f.createDimension("t", nt if rng.random() < 0.5 else None)
        f.createDimension("b", 2)
        f.createDimension("x", 3)
        f.createVariable("b", "f8", ("b",))[:] = [0, 1]
        f.createVariable("x", "f8", ("x",))[:] = [0, 1, 2]
        f.createVariable("t", "f8", ("t",))[:] = np.arange(nt)
        words = []
        for i in range(rng.choice([1, 1, 2, 3])):
            cal = rng.choice(C.CALENDARS)
            ctx.count("calendar_" + cal)
            calname = rng.choice(NAMES[cal])
            dims = rng.choice([("t",), ("t",), ("t",), ("t", "b"), (), ("t", "x")])
            shape = tuple({"t": nt, "b": 2, "x": 3}[k] for k in dims)
            if dims == ("t", "b"):
                ctx.count("bounds")
            if dims == ():
                ctx.count("scalar")
            inst = _times(ctx, rng, cal, shape)
            base = rng.choice(list(UNITS))
            unit = rng.choice(SPELL[base])
            year = C.date(cal, int(np.ravel(inst)[0]) // 86400)[0]
            ref = _ref(ctx, rng, cal, zone=True, near=rng.choice([None, max(1, year - rng.randint(0, 60))]))
            if cal == "standard" and ref.startswith("1582-10"):
                ref = "1583-01-01"
            if words and rng.random() < 0.5:
                unit, ref = words[0]
            words.append((unit, ref))
            per, r0 = _label("{} since {}".format(unit, ref), cal)
            store = rng.choice(["f8", "f8", "f8", "f4", "i4", "i8", "packed", ">f8"])
            exact = np.array([float(Fraction(int(s) - r0, per)) for s in np.ravel(inst)]).reshape(shape)
            fill = None
            if store in ("i4", "i8"):
                exact = np.rint(exact)
                if np.abs(exact).max() >= 2 ** 31 - 10:
                    store = "i8"
                fill = -2 ** 31 + 1
                ctx.count("in_int")
            elif store == "packed":
                fill = -2 ** 31 + 1
                off = float(np.floor(np.ravel(exact)[0]))
                scale = rng.choice([0.5, 0.25, 1.0])
                if np.abs((exact - off) / scale).max() >= 2 ** 31 - 10:
                    store = "f8"
                else:
                    ctx.count("in_packed")
            else:
                fill = 9.96921e36
            kw = {"endian": "big"} if store == ">f8" else {}
            v = f.createVariable("t%d" % i, "i4" if store == "packed" else store.lstrip(">"), dims, fill_value=fill, **kw)
            if store == "packed":
                v.scale_factor = scale
                v.add_offset = off
            v.units = "{} {} {}".format(unit, _since(ctx, rng), ref)
            if cal != "standard" or rng.random() < 0.5:
                v.calendar = calname
            if rng.random() < 0.25 and dims:
                mask = np.array([rng.random() < 0.3 for _ in range(exact.size)]).reshape(shape)
                exact = np.ma.masked_array(exact, mask=mask)
                ctx.count("missing")
            v[...] = exact
            v2 = f.createVariable("n%d" % i, "f8", dims)
            v2.units = rng.choice(["1", "m", "days", "K"])
            v2[...] = 1.0
            # how it is used
            name = "t%d" % i
            now = (unit, ref, cal, calname)
            defn = name
            r = rng.random()
            if r < 0.3 and dims != ():
                which = rng.choice(["relabel_units", "relabel_reference", "relabel_calendar", "relabel_all", "made_time",
                                    "relabel_label", "relabel_like"])
                if want and rng.random() < 0.35:
                    which = "relabel_like"
                if which == "relabel_like" and not want:
                    which = "relabel_label"
                ctx.count(which)
                u3 = rng.choice(SPELL[rng.choice(list(UNITS))])
                c3 = rng.choice(C.CALENDARS)
                c3n = rng.choice(NAMES[c3])
                r3 = _ref(ctx, rng, c3, near=1990)
                if which == "relabel_units":
                    defn = rng.choice(["chunits({}, units='{}')", "chunits({}, '{}')"]).format(name, u3)
                    now = (u3, ref, cal, calname)
                elif which == "relabel_reference":
                    r3 = _ref(ctx, rng, cal, near=1990)
                    defn = "chunits({}, refdate='{}')".format(name, r3)
                    now = (unit, r3, cal, calname)
                elif which == "relabel_calendar":
                    # the reference date has to exist in the other calendar
                    defn = "chunits({}, calendar='{}')".format(name, c3n)
                    now = (unit, ref, c3, c3n)
                elif which == "relabel_label":  # a full label, with the calendar beside it
                    defn = "chunits({}, units='{} {} {}', calendar='{}')".format(name, u3, _since(ctx, rng), r3, c3n)
                    now = (u3, r3, c3, c3n)
                elif which == "relabel_like":  # the label of another variable (its dates need not fit)
                    _, other, _, odefn, onow = rng.choice(want)
                    defn = "chunits({}, units={})".format(name, odefn)
                    now = onow
                else:
                    src = "n%d" % i if which == "made_time" else name
                    defn = "chunits({}, units='{}', refdate='{}', calendar='{}')".format(src, u3, r3, c3n)
                    now = (u3, r3, c3, c3n)
                if rng.random() < 0.3:
                    defn = "chunits({}, units='{}', refdate='{}', calendar='{}')".format(defn, u3, r3, c3n)
                    if which == "relabel_reference":
                        # r3 was made for the calendar of the input; it exists in all of them
                        pass
                    now = (u3, r3, c3, c3n)
                name = "n%d" % i if which == "made_time" else name
            want.append((i, name, dims, defn, now))
        # further outputs of the same inputs
        outs = []
        for i, name, dims, defn, now in want:
            for j in range(rng.choice([1, 1, 2])):
                outs.append((i, j, name, dims, defn, now))
    source = flow.read(inp)["vars"]
    stored = {n: v[2].astype("f8") if v[2].dtype.kind == "f" else v[2] for n, v in source.items()}
    d["to"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", ["to"]), ("definition", "t")])
    d["bo"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", ["bo"]), ("definition", "b")])
    d["xo"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", ["xo"]), ("definition", "x")])
    expect = OrderedDict()
    refused = False
    said = []
    for i, j, name, dims, defn, now in outs:
        unit, ref, cal, calname = now
        kind, attrs, label, refuse = _declare(ctx, rng, unit, ref, cal, calname, said)
        if name[0] == "n" and "chunits" not in defn:
            continue
        vals = stored[name]
        if vals.count() and float(np.abs(np.ma.compressed(vals)).max()) * SECONDS[unit] > 86400 * 1e6:
            # relabelled to dates out of reach
            kind, attrs, label, refuse = "undeclared", OrderedDict(), (unit, ref), False
        dims2 = dims
        if len(dims) > 1 and rng.random() < 0.3:
            defn2 = "mean({}, '{}')".format(defn, dims[1])
            # missing points leave the others to count
            vals = vals.mean(axis=1)
            dims2 = dims[:1]
            ctx.count("reduced")
        else:
            defn2 = defn
        if rng.random() < 0.06 and not refuse and dims:
            # no time at all
            defn2 = "n%d" % i
            attrs = OrderedDict([("units", "days since 2000-01-01")])
            dims2 = dims
            ctx.count("not_time_refused")
            refuse = True
        dtype = rng.choice(["double", "double", "float", "int"])
        if np.asarray(vals).dtype.kind != "i" or "mean" in defn2:
            dtype = rng.choice(["double", "double", "float"])
        if dtype == "int" and not refuse:
            # only where the numbers fit
            per, r0 = _label("{} since {}".format(unit, ref), cal)
            per2, r2 = _label("{} since {}".format(*label), cal)
            if any(abs(Fraction(int(x) * per + r0 - r2, per2)) >= 2 ** 31 - 1 for x in np.ma.compressed(vals)):
                dtype = "double"
        out = "o%d_%d" % (i, j)
        d[out] = OrderedDict([("attributes", attrs), ("datatype", dtype), ("dimensions", [k + "o" for k in dims2]),
                              ("definition", defn2), ("file", OrderedDict([("filename", "{}/out/{}.nc".format(folder, out))]))])
        if refuse:
            refused = True
        expect[out] = (vals, now, label, dtype, kind, dims2, attrs.get("calendar"))
    chunks = {}
    if rng.random() < 0.4 and nt > 1 and any("to" in v["dimensions"] for v in d.values() if "file" in v):
        chunks = {"to": rng.randint(1, nt)}
        ctx.count("chunked")
    what = str([(n, v["definition"], v["dimensions"], v["datatype"], dict(v["attributes"])) for n, v in d.items()][3:]) + \
        str({n: (str(v[0]), v[3].get("units"), v[3].get("calendar")) for n, v in source.items() if n[0] == "t" and n != "t"})
    ctx.sample(what)
    if refused:
        try:
            flow.run([inp], d, chunks=chunks)
        except Exception:
            ctx.nontrivial("refused", what)
            return
        ctx.fail("not-refused", "accepted: " + what)
    flow.run([inp], d, chunks=chunks)
    for out, (vals, now, label, dtype, kind, dims2, declared_cal) in expect.items():
        unit, ref, cal, calname = now
        res = flow.read("{}/out/{}.nc".format(folder, out))
        ctx.check(out in res["vars"], "no-variable", lambda: "{} missing: {}".format(out, what))
        odt, odims, data, attrs = res["vars"][out]
        ctx.count("out_" + dtype)
        if kind == "undeclared":
            ctx.check("units" not in attrs, "label", lambda: "{} got units {}: {}".format(out, attrs, what))
            per2, r2 = _label("{} since {}".format(unit, ref), cal)
        else:
            got = attrs.get("units")
            ctx.check(isinstance(got, str) and _label(got, cal) is not None, "label",
                      lambda: "{} labelled {!r}: {}".format(out, got, what))
            per2, r2 = _label(got, cal)
            ctx.check((per2, r2) == _label("{} since {}".format(*label), cal), "label",
                      lambda: "{} labelled {!r} expected {}: {}".format(out, got, label, what))
            gcal = C.ALIAS.get(attrs.get("calendar", "standard"), attrs.get("calendar", "standard"))
            ctx.check(gcal == cal, "calendar", lambda: "{} has calendar {!r}, values are in {!r}: {}".format(
                out, attrs.get("calendar"), cal, what))
            if declared_cal is not None:
                ctx.check(attrs.get("calendar") == declared_cal, "calendar",
                          lambda: "{} has calendar {!r} instead of {!r}: {}".format(out, attrs.get("calendar"), declared_cal, what))
        per, r0 = _label("{} since {}".format(unit, ref), cal)
        ctx.check(data.shape == vals.shape, "shape", lambda: "{}: {} for {}: {}".format(out, data.shape, vals.shape, what))
        gm, em = np.ma.getmaskarray(data), np.ma.getmaskarray(vals)
        ctx.check((gm == em).all(), "missing", lambda: "{}: missing {} expected {}: {}".format(out, gm, em, what))
        eps = {"float": 2.0 ** -23, "double": 2.0 ** -52, "int": 0}[dtype]
        for a, b, m in zip(np.ravel(vals.data), np.ravel(data.data), np.ravel(em)):
            if m:
                continue
            was = Fraction(a.item()) * per + r0
            now_ = Fraction(b.item()) * per2 + r2
            right = (was - r2) / per2
            # what conversion in double precision of numbers of these sizes and a clock of microseconds may lose
            tol = (float(abs(right)) * (eps + 2 ** -50) * per2 + float(abs(Fraction(a.item()) * per)) * 2 ** -50
                   + abs(r0 - r2) * 2.0 ** -50 + 2e-5)
            if dtype == "int":
                if right.denominator != 1:
                    ctx.count("rounded")
                tol += float(abs(right - round(right))) * per2 if right.denominator == 1 else per2 * 0.5
            ctx.check(abs(float(now_ - was)) <= tol, "instant",
                      lambda: "{}: value {} ({} since {}) became {} ({}), off by {} s (allowed {}): {}".format(
                          out, a, unit, ref, b, attrs.get("units"), float(now_ - was), tol, what))
            ctx.count("instants")
            if abs(float(b) - float(a)) > 1e-9 * (1 + abs(float(a))):
                ctx.count("changed")
                ctx.nontrivial(unit, ref, label, cal, dtype)
