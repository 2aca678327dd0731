"""C14: coordinates are written in the declared direction together with their data"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "end-to-end monitor: written data looked up by written coordinate value against the input"
RULE = ("random monotone coordinates (either order, non-uniform, length 1-6, integer or real, read or "
        "given literally, with units and vertical sense changed on the way) with or without a declared "
        "direction, data on 1-4 of them, bounds, a second coordinate on the same dimension, several files "
        "and chunkings; each written value must be the input value at the same coordinate; unknown "
        "directions and coordinates that are not monotone must be rejected; non-trivial = a dimension of "
        "length > 1 was reversed; distinct by coordinate values, directions and chunks")
CASES = {"quick": 900, "thorough": 15000}
REQUIRED = ["reversed", "already_right", "undeclared", "bounds", "chunked", "literal_coord", "negated", "rejected_name",
            "rejected_order", "multi_reversed", "second_coord", "length_one", "shared_file"]

AX = {"t": "T", "z": "Z", "y": "Y", "x": "X"}


def _mono(rng, n, up, integer=False):
    v = np.cumsum([rng.choice([1, 2, 5]) if integer else rng.choice([0.25, 1.0, 2.5]) for _ in range(n)])
    v = v + rng.randint(-9, 9)
    return v if up else v[::-1].copy()


def _broken(rng, n):
    """A coordinate that is neither increasing nor decreasing"""
    v = _mono(rng, n, rng.random() < 0.5)
    if n == 2 or rng.random() < 0.4:
        i = rng.randrange(n - 1)
        v[i + 1] = v[i]
    else:
        v[0], v[-1] = v[-1], v[0]
        v[1] = max(v) + 1 if rng.random() < 0.5 else min(v) - 1
    return v


def _is(v, how):
    d = np.diff(v)
    return bool((d > 0).all() if how == "increasing" else (d < 0).all())


def case(ctx):
    import netCDF4

    rng = ctx.rng
    d = ctx.scratch()
    reject = rng.choice([None] * 6 + ["name", "order"])
    names = rng.sample("tzyx", rng.randint(1, 4))
    size = {k: rng.choice([1, 2, 3, 4, 5, 6]) for k in names}
    if reject == "order":
        size[names[0]] = rng.randint(2, 6)
    bad = names[0] if reject else None
    coord = {}
    src = {}
    for k in names:
        dt = rng.choice(["f8", "f8", "f4", "i4"])
        v = _mono(rng, size[k], rng.random() < 0.5, dt == "i4")
        if reject == "order" and k == bad:
            dt = "f8"
            v = _broken(rng, size[k])
            if _is(v, "increasing") or _is(v, "decreasing"):
                v[:] = v[0]
        coord[k] = v.astype(dt)
        src[k] = dt
    unit = {"t": "days since 1999-01-01", "z": "m", "y": "degrees_north", "x": "degrees_east"}
    pos = rng.choice([None, "up", "down"])
    second = rng.choice(names) if rng.random() < 0.25 else None
    if second == bad and reject:
        second = None
    unlim = rng.choice(names + [None])
    data = OrderedDict()
    for i in range(rng.randint(1, 3)):
        dims = rng.sample(names, rng.randint(1, len(names)))
        if reject and bad not in dims:
            dims.append(bad)
        shape = [size[k] for k in dims]
        n = int(np.prod(shape))
        vals = np.arange(n, dtype="f8").reshape(shape) + 1000 * i
        mask = np.array([rng.random() < 0.15 for _ in range(n)]).reshape(shape)
        data["d%d" % i] = (tuple(dims), vals, mask)
    bounds = rng.choice(names) if rng.random() < 0.4 else None
    literal = rng.choice(names) if rng.random() < 0.2 else None

    path = d + "/in.nc"
    with netCDF4.Dataset(path, "w") as f:
        for k in names:
            f.createDimension(k, None if k == unlim else size[k])
        f.createDimension("two", 2)
        for k in names:
            v = f.createVariable(k, src[k], (k,))
            v.units = unit[k]
            if k == "t":
                v.calendar = "noleap"
            if k == "z" and pos:
                v.positive = pos
            v[:] = coord[k]
        if second:
            v = f.createVariable("alt", "f8", (second,))
            v.units = "1"
            v[:] = coord[second][::-1] * 10.0
        if bounds:
            v = f.createVariable("bnds", "f8", (bounds, "two"))
            v.units = "1"
            v[:] = np.stack([coord[bounds] - 0.125, coord[bounds] + 0.125], axis=1)
        for n, (dims, vals, mask) in data.items():
            v = f.createVariable(n, "f8", dims, fill_value=-1.0)
            v.units = "1"
            v[...] = np.ma.MaskedArray(vals, mask=mask)

    spec = OrderedDict()
    sign = {k: 1.0 for k in names}
    want = {}
    for k in names:
        attrs = OrderedDict([("axis", AX[k])])
        if rng.random() < 0.7:
            attrs["units"] = unit[k]
        if rng.random() < 0.7 or k == bad:
            attrs["direction"] = want[k] = rng.choice(["increasing", "decreasing"])
        if k == bad and reject == "name":
            attrs["direction"] = want[k] = rng.choice(["upwards", "Increasing", "descending", "up", "", "inc", 1])
        if k == "z" and pos and rng.random() < 0.7:
            attrs["positive"] = rng.choice(["up", "down"])
            if attrs["positive"] != pos:
                sign[k] = -1.0
        definition = k
        if k == literal and k != bad and k != unlim and sign[k] > 0 and not (k == "z" and pos):
            definition = coord[k].astype("f8").tolist()
            ctx.count("literal_coord")
        items = list(attrs.items())
        rng.shuffle(items)
        spec[k + "o"] = OrderedDict([("attributes", OrderedDict(items)), ("datatype", "double"),
                                     ("dimensions", [k + "o"]), ("definition", definition)])
    if literal and not isinstance(spec[literal + "o"]["definition"], str):
        # the dimension has to be known from elsewhere
        spec["idx"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"),
                                   ("dimensions", [literal + "o"]), ("definition", literal)])
    if second:
        # another coordinate of the same dimension: asks for the same or for nothing
        attrs = OrderedDict([("comment", "alternative")])
        if rng.random() < 0.5 and second in want and size[second] > 1:
            attrs["axis"] = AX[second]
            attrs["direction"] = {"increasing": "decreasing", "decreasing": "increasing"}[want[second]] \
                if sign[second] > 0 else want[second]
        spec["alto"] = OrderedDict([("attributes", attrs), ("datatype", "double"),
                                    ("dimensions", [second + "o"]), ("definition", "alt")])
        ctx.count("second_coord")
    if bounds:
        spec["bndso"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"),
                                     ("dimensions", [bounds + "o", "twoo"]), ("definition", "bnds")])
        ctx.count("bounds")
    shared = rng.random() < 0.4
    if shared and len(data) > 1:
        ctx.count("shared_file")
    for n, (dims, _v, _m) in data.items():
        od = [k + "o" for k in dims]
        if rng.random() < 0.5:
            rng.shuffle(od)
        fd = OrderedDict([("filename", d + "/out/" + ("all" if shared else n) + ".nc"), ("format", "NETCDF4")])
        if bounds in dims:
            fd["metavars"] = ["bndso"]
        spec[n + "o"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"),
                                     ("dimensions", od), ("definition", n), ("file", fd)])
    if shared:
        # the first variable owns the file and names the others
        own = [n for n, v in spec.items() if "file" in v]
        meta = ["bndso"] if any("metavars" in spec[n]["file"] for n in own) else []
        for n in own[1:]:
            del spec[n]["file"]
        spec[own[0]]["file"]["metavars"] = own[1:] + meta
    items = list(spec.items())
    rng.shuffle(items)
    spec = OrderedDict(items)
    chunks = OrderedDict()
    if rng.random() < 0.5:
        used = sorted({k for dims, _v, _m in data.values() for k in dims})
        for k in rng.sample(used, rng.randint(1, len(used))):
            chunks[k + "o"] = rng.randint(1, 4)
        ctx.count("chunked")
    what = "sizes {} coords {} want {} sign {} chunks {} dims {}".format(
        size, {k: v.tolist() for k, v in coord.items()}, want, sign, dict(chunks), {n: x[0] for n, x in data.items()})

    if reject:
        try:
            flow.run([path], spec, chunks=chunks)
        except Exception:
            left = [f for f in flow.listing(d + "/out") if f.endswith("o.nc") or "." not in f[:-3]]
            left = [f for f in left if not f.endswith(".tmp.nc")]
            ctx.check(not left, "reject-written", lambda: "{}: rejected but left {}".format(what, left))
            ctx.count("rejected_" + reject)
            ctx.nontrivial("reject", what)
            return
        ctx.fail("accepted-" + reject, "{}: direction of {} accepted".format(what, bad))

    flow.run([path], spec, chunks=chunks)
    files = {v["file"]["filename"] for v in spec.values() if "file" in v}
    ctx.check(flow.listing(d + "/out") == sorted(files), "files", lambda: "{}: files".format(what))
    flips = set()
    for fn in sorted(files):
        got = flow.read(fn)
        where = {}  # dimension -> input index of each written position
        for k in names:
            if k + "o" not in got["vars"]:
                continue
            c = np.ma.getdata(got["vars"][k + "o"][2])
            wanted = (coord[k].astype("f8") * sign[k]).tolist()
            ctx.check(sorted(c.tolist()) == sorted(wanted), "coordinate",
                      lambda: "{}: coordinate {} has {} expected {}".format(what, k, c.tolist(), wanted))
            where[k] = [wanted.index(x) for x in c.tolist()]
            if k in want:
                ctx.check(_is(c, want[k]), "direction",
                          lambda: "{}: {} is {} not {}".format(what, k, c.tolist(), want[k]))
                if where[k] != list(range(size[k])):
                    ctx.count("reversed")
                    flips.add(k)
                elif size[k] > 1:
                    ctx.count("already_right")
                else:
                    ctx.count("length_one")
            else:
                ctx.check(where[k] == list(range(size[k])), "unasked",
                          lambda: "{}: {} is {} though no direction was asked".format(what, k, c.tolist()))
                ctx.count("undeclared")
        inv = {k + "o": k for k in names}
        inv["twoo"] = "two"
        where["two"] = [0, 1]
        src_v = {n + "o": (dims, np.ma.MaskedArray(v, mask=m)) for n, (dims, v, m) in data.items()}
        if bounds:
            src_v["bndso"] = ((bounds, "two"), np.ma.MaskedArray(
                np.stack([coord[bounds].astype("f8") - 0.125, coord[bounds] + 0.125], axis=1)))
        if second:
            src_v["alto"] = ((second,), np.ma.MaskedArray(coord[second][::-1] * 10.0))
        for n, (dims, arr) in src_v.items():
            if n not in got["vars"]:
                continue
            _t, odims, a, _a = got["vars"][n]
            idims = [inv[x] for x in odims]
            ctx.check(sorted(idims) == sorted(dims), "dims", lambda: "{}: {} has {}".format(what, n, odims))
            w = arr.transpose([dims.index(k) for k in idims])
            w = w[np.ix_(*[where[k] for k in idims])]
            ctx.check(w.shape == a.shape and bool(np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(w))),
                      "attached-missing", lambda: "{}: {} {} expected {}".format(what, n, a.tolist(), w.tolist()))
            ctx.check(bool((a.compressed() == w.compressed()).all()), "attached",
                      lambda: "{}: {} {} expected {}".format(what, n, a.tolist(), w.tolist()))
            ctx.count("elements_compared", int(a.size))
    if any(s < 0 for s in sign.values()):
        ctx.count("negated")
    if len(flips) > 1:
        ctx.count("multi_reversed")
    if any(size[k] > 1 for k in flips):
        ctx.nontrivial({k: coord[k].tolist() for k in sorted(names)}, sorted(want.items()), list(chunks.items()))
    ctx.sample(what)
