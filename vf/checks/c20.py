"""C20: input dimensions map one-to-one onto output dimensions, consistently"""
import itertools
import os
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "specification monitor: published map, written sizes and data against the map the specification was made from"
RULE = ("random one-to-one renamings (swaps of names included) with output variables over permuted dimensions, "
        "as far as they determine the map, in several listing orders; and the same specifications with one "
        "inconsistency; map, sizes, flags and data compared; non-trivial = a dimension without its own "
        "coordinate or a permuted variable; distinct by specification")
CASES = {"quick": 350, "thorough": 12000}
REQUIRED = ["accepted", "orders", "swapped_names", "by_elimination", "by_position", "transposed", "reduced", "unlimited",
            "renamed_twice", "text", "sizes_compared", "elements_compared", "literal_size", "subset",
            "bad_extra", "bad_fewer", "bad_scalar", "bad_two_outputs", "bad_two_inputs", "bad_empty", "bad_size",
            "bad_literals"]


def _inputs(rng, path, sizes, unlimited):
    import netCDF4

    with netCDF4.Dataset(path, "w") as f:
        for k, m in sizes.items():
            f.createDimension(k, None if k == unlimited else m)
        f.createDimension("slen", 3)
        data = {}
        n = 0
        for r in range(0, len(sizes) + 1):
            for p in itertools.permutations(sizes, r):
                v = f.createVariable("v_" + "".join(p), "f8", p)
                shape = tuple(sizes[x] for x in p)
                n += 1
                a = (np.arange(int(np.prod(shape))) * 7 % 31 + 100 * n).reshape(shape).astype("f8")
                v[...] = a
                data["v_" + "".join(p)] = a
        for k, m in sizes.items():
            v = f.createVariable("s_" + k, "S1", (k, "slen"))
            a = np.array([[b"%d" % (i % 10), k.encode(), b"z"] for i in range(m)])
            v[...] = a
            data["s_" + k] = a
    return data


def _make(ctx, rng, folder, sizes, true, data):
    """A specification that determines the map; wanted: name -> (array, output dims)"""
    d, want = OrderedDict(), {}
    names = list(sizes)
    nvar = rng.randint(1, 5)
    by_rank = {}
    for i in range(nvar):
        k = rng.choice([1, 1, 2, 2, 3, 4, 0])
        by_rank.setdefault(min(k, len(names)), []).append(i)
    known = set()
    hard = False
    for k in sorted(by_rank):
        here = set()
        for i in by_rank[k]:
            p = tuple(rng.sample(names, k))
            a = data["v_" + "".join(p)]
            r = rng.random()
            t = "v_" + "".join(p)
            if r < 0.2 and len(names) > k:
                # more dimensions, reduced away
                more = rng.choice([x for x in names if x not in p])
                q = list(p)
                q.insert(rng.randint(0, k), more)
                t = "min(v_{},{!r})".format("".join(q), more)
                a = data["v_" + "".join(q)].min(axis=q.index(more))
                ctx.count("reduced")
            elif r < 0.3 and k:
                t = "2*" + t
                a = 2 * a
            free = [x for x in p if x not in known]
            odims = list(p)
            rng.shuffle(odims)
            if len(free) > 1:
                # not determined: these keep their order
                it = iter(free)
                odims = [next(it) if x in free else x for x in odims]
                ctx.count("by_position")
                hard = True
            elif len(free) == 1 and k > 1:
                ctx.count("by_elimination")
                hard = True
            if tuple(odims) != p:
                ctx.count("transposed")
                hard = True
            here |= set(p)
            want["out%d" % i] = (a.transpose([p.index(x) for x in odims]), [true[x] for x in odims], t)
        known |= here
    if rng.random() < 0.2:
        x = rng.choice(names)
        if x in known or rng.random() < 0.5:
            want["text"] = (data["s_" + x], [true[x], "strl"], "s_" + x)
            ctx.count("text")
            if x not in known:
                # position: one dimension and the string length
                known.add(x)
                ctx.count("by_position")
    for n, (a, od, t) in want.items():
        d[n] = OrderedDict([("attributes", OrderedDict()), ("datatype", "char" if n == "text" else "double"),
                            ("dimensions", od), ("definition", t),
                            ("file", OrderedDict([("filename", "{}/out/{}.nc".format(folder, n)), ("format", "NETCDF4")]))])
    return d, want, known, hard


def _shuffled(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return OrderedDict(items)


def case(ctx):
    import copy

    rng = ctx.rng
    folder = ctx.scratch()
    names = rng.sample("xyzt", rng.randint(1, 4))
    sizes = OrderedDict((k, rng.randint(1, 4)) for k in names)
    unlimited = rng.choice(names) if rng.random() < 0.5 else None
    inp = folder + "/in.nc"
    data = _inputs(rng, inp, sizes, unlimited)
    style = rng.choice(["new", "swap", "same", "mixed"])
    if style == "new":
        true = {k: k + k for k in names}
    elif style == "same":
        true = {k: k for k in names}
    elif style == "swap":
        p = names[:]
        rng.shuffle(p)
        true = dict(zip(names, p))
        if p != names:
            ctx.count("swapped_names")
    else:
        p = rng.sample(names + ["p", "q"], len(names))
        true = dict(zip(names, p))
        if any(v in names and v != k for k, v in true.items()):
            ctx.count("swapped_names")
    d, want, known, hard = _make(ctx, rng, folder, sizes, true, data)
    lit = None
    if rng.random() < 0.3 and known:
        # data given for a dimension that other variables map
        x = rng.choice(sorted(known))
        lit = x
        d["given"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", [true[x]]),
                                  ("definition", [float(i) for i in range(sizes[x])]),
                                  ("file", {"filename": folder + "/out/given.nc"})])
        ctx.count("literal_size")
    what = "{} -> {} {} unlimited {}".format(
        [(n, v["definition"], v["dimensions"]) for n, v in d.items()], true, dict(sizes), unlimited)
    orders = [d, OrderedDict(reversed(list(d.items()))), _shuffled(rng, d)]
    used = {x for x in names if any(true[x] in v["dimensions"] for n, v in d.items() if n != "given")}
    expect = {x: true[x] for x in used}
    if "text" in d:
        expect["slen"] = "strl"
    for spec in orders:
        df = flow.build([inp], copy.deepcopy(spec))
        m = df.dimension_map
        ctx.check(dict(m) == expect, "map", lambda: "map {} expected {}: {}".format(
            dict(m), expect, list(spec) + [what]))
        ctx.count("orders")
    df.execute(serial=True)
    ctx.count("accepted")
    for n in want:
        a, od, t = want[n]
        got = flow.read(d[n]["file"]["filename"])
        wd = {}
        for x in od:
            if x == "strl":
                wd[x] = (3, False)
            else:
                k = next(k for k in names if true[k] == x)
                wd[x] = (sizes[k], k == unlimited and k != lit)
        if any(u for _s, u in wd.values()):
            ctx.count("unlimited")
        ctx.check(dict(got["dims"]) == wd, "sizes", lambda: "{}: dimensions {} expected {}: {}".format(
            n, dict(got["dims"]), wd, what))
        ctx.count("sizes_compared", len(wd))
        dt, vd, v, _at = got["vars"][n]
        v = np.ma.filled(v, b"" if n == "text" else -1)
        ctx.check(vd == tuple(od) and v.shape == a.shape and bool(np.array_equal(v, a)), "data",
                  lambda: "{}: {} {} expected {} {}: {}".format(n, vd, v.tolist(), od, a.tolist(), what))
        ctx.count("elements_compared", int(a.size))
    if hard:
        ctx.nontrivial(what)
    ctx.sample(what)

    # renaming functions take part like any name
    if rng.random() < 0.25 and len(names) > 1:
        p = tuple(rng.sample(names, 2))
        e = OrderedDict()
        e["r"] = OrderedDict([("attributes", {}), ("datatype", "double"), ("dimensions", ["two", "one"]),
                              ("definition", "chdims(v_{},'k','l')".format("".join(p))),
                              ("file", {"filename": folder + "/ren/r.nc"})])
        for o, i, k in (("one", "k", p[0]), ("two", "l", p[1])):
            e["c" + o] = OrderedDict([("attributes", {}), ("datatype", "double"), ("dimensions", [o]),
                                      ("definition", "chdims(v_{},{!r})".format(k, i))])
            e["n" + o] = OrderedDict([("attributes", {}), ("datatype", "double"), ("dimensions", [o]),
                                      ("definition", [0.0] * sizes[k])])
        df = flow.build([inp], _shuffled(rng, e))
        ctx.check(dict(df.dimension_map) == {"k": "one", "l": "two"}, "renamed-map",
                  lambda: "map {} of {}".format(dict(df.dimension_map), p))
        df.execute(serial=True)
        got = flow.read(folder + "/ren/r.nc")["vars"]["r"][2]
        ctx.check(bool(np.array_equal(np.ma.filled(got, -1), data["v_" + "".join(p)].T)), "renamed-data",
                  lambda: "{} of {}".format(got, p))
        ctx.count("renamed_twice")

    # part of a dimension, with its coordinates given
    if rng.random() < 0.25:
        x = rng.choice([k for k in names if k != unlimited] or [None])
        if x and sizes[x] > 2:
            e = OrderedDict()
            e["part"] = OrderedDict([("attributes", {}), ("datatype", "double"), ("dimensions", ["px"]),
                                     ("definition", "v_{}[1:]".format(x)), ("file", {"filename": folder + "/part/p.nc"})])
            e["px"] = OrderedDict([("attributes", {}), ("datatype", "double"), ("dimensions", ["px"]),
                                   ("definition", [0.0] * (sizes[x] - 1))])
            flow.run([inp], _shuffled(rng, e))
            got = flow.read(folder + "/part/p.nc")
            ctx.check(dict(got["dims"]) == {"px": (sizes[x] - 1, False)} and bool(
                np.array_equal(np.ma.filled(got["vars"]["part"][2], -1), data["v_" + x][1:])), "subset",
                lambda: "{} {}".format(dict(got["dims"]), got["vars"]["part"]))
            ctx.count("subset")

    if rng.random() < 0.8:
        _bad(ctx, rng, folder, d, want, sizes, true, known, lit, inp, what)


def _bad(ctx, rng, folder, d, want, sizes, true, known, lit, inp, what):
    import copy

    b = copy.deepcopy(d)
    for v in b.values():
        if "file" in v:
            v["file"]["filename"] = v["file"]["filename"].replace("/out/", "/bad/")

    def put(n, dims, t):
        b[n] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", dims),
                            ("definition", t), ("file", OrderedDict([("filename", "{}/bad/{}.nc".format(folder, n))]))])

    kinds = ["extra", "fewer", "scalar", "two_outputs", "two_inputs", "empty", "size", "literals"]
    kind = rng.choice(kinds)
    names = list(sizes)
    mapped = sorted(x for x in names if any(true[x] in want[n][1] for n in want))
    at_build = True
    if not mapped:
        return
    x = rng.choice(mapped)
    others = [k for k in names if k != x]
    if kind == "extra":
        put("bad", rng.choice([[true[x], "more"], ["more", true[x]], ["more", "most"]]), "v_" + rng.choice([x] + others))
    elif kind == "fewer":
        if not others:
            return
        put("bad", rng.choice([[true[x]], ["more"], []]), "v_" + "".join(rng.sample([x, rng.choice(others)], 2)))
    elif kind == "scalar":
        put("bad", [true[x]], rng.choice(["v_", "min(v_{0},{0!r})".format(x), "sum(v_{0},{0!r})".format(x)]))
    elif kind == "empty":
        put("bad", [], "v_" + x)
    elif kind == "two_outputs":
        # x has a name already: alone under another one
        put("bad", ["again"], "v_" + x)
        put("keep", [true[x]], "v_" + x)
    elif kind == "two_inputs":
        if not others:
            return
        put("bad", [true[x]], "v_" + rng.choice(others))
        put("keep", [true[x]], "v_" + x)
    elif kind == "size":
        put("lit", [true[x]], [0.0] * (sizes[x] + rng.choice([1, 2, 5])))
        if lit == x:
            pass
        at_build = lit == x
    else:
        put("lit", ["q1"], [0.0, 1.0])
        put("lit2", ["q1"], [0.0, 1.0, 2.0])
    b = _shuffled(rng, b)
    text = "{} {}".format(kind, [(n, v["definition"], v["dimensions"]) for n, v in b.items()])
    err = None
    try:
        df = flow.build([inp], b)
    except Exception as e:  # noqa
        err = e
    if at_build:
        ctx.check(err is not None, "accepted-" + kind, lambda: "built {}".format(text))
    elif err is None:
        try:
            df.execute(serial=True)
        except Exception as e:  # noqa
            err = e
        ctx.check(err is not None, "accepted-" + kind, lambda: "executed {}".format(text))
    have = [f for f in flow.listing(folder + "/bad")]
    if at_build:
        ctx.check(not have, "rejected-wrote", lambda: "{} exist: {}".format(have, text))
    else:
        for f in have:
            # files written before the error was met are complete; the contradictory ones are not there
            n = os.path.basename(f)[:-3]
            ctx.check(n in b and (true[x] not in b[n]["dimensions"] or isinstance(b[n]["definition"], list)),
                      "rejected-wrote", lambda: "{} exists: {}".format(f, text))
    ctx.count("bad_" + kind)
