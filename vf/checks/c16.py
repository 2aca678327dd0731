"""C16: each output file gets exactly the declared and required variables"""
import copy
import os
import re
import warnings
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "specification monitor: files, their variables and the warnings against rules evaluated separately"
RULE = ("random specifications: owners, meta variables, file-less coordinates, auxiliary and scalar "
        "variables, chains of bounds and coordinates references, helpers with an underscore, definitions "
        "that are absent, empty or need an absent input, in any order; plus one random malformation "
        "each; files, variables and warnings compared; non-trivial = some file left out and some "
        "written, or a reference or meta variable pulled in; distinct by specification")
CASES = {"quick": 700, "thorough": 15000}
REQUIRED = ["files_written", "files_left_out", "undefined", "absent_input", "metavars", "fileless_added",
            "fileless_not_added", "bounds", "coordinates", "chained", "hidden", "scalar", "bad_reference",
            "malformed_dimensions", "malformed_type", "malformed_format", "malformed_deflate", "malformed_owner",
            "malformed_filename", "malformed_format_type", "literal_used", "nothing_written"]

HOLES = [None, "", "   "]


def _spec(rng, folder, sizes):
    """A random specification and the state of each definition"""
    d = OrderedDict()
    state = {}

    def put(name, dims, definition, attrs=None, datatype="double", bad=0.08):
        r = rng.random()
        v = OrderedDict([("attributes", OrderedDict(attrs or {})), ("datatype", datatype),
                         ("dimensions", [x + "o" for x in dims])])
        state[name] = "ok"
        if r < bad:
            hole = rng.choice(HOLES)
            if hole is not None:
                v["definition"] = hole
            state[name] = "undefined"
        elif r < 2 * bad and isinstance(definition, str):
            v["definition"] = rng.choice(["absent", "absent + {}".format(definition),
                                          "mean(absent, 'x')", "{} * up(absent[0])".format(definition)])
            state[name] = "absent"
        else:
            v["definition"] = definition
        d[name] = v
        return v

    dims = list(sizes)
    for x in dims:
        if rng.random() < 0.8:
            put(x + "c", [x], x)
    if rng.random() < 0.5:
        k = rng.choice(dims)
        put("aux1", [k], [float(i) for i in range(sizes[k])], {"units": "1"})
        state["aux1"] = state["aux1"]
    if len(dims) > 1 and rng.random() < 0.5:
        two = rng.sample(dims, 2)
        put("aux2", two, "a_{}{}".format(*two))
    if rng.random() < 0.5:
        put("h", [], 2.0)
    if rng.random() < 0.4:
        put("hb", ["b"], [1.5, 2.5])
    if rng.random() < 0.5:
        k = rng.choice(dims)
        put("cb", [k, "b"], [[i - 0.5, i + 0.5] for i in range(sizes[k])])
    if rng.random() < 0.3:
        put("_help", [rng.choice(dims)], None or rng.choice(dims))
        d["_help"]["dimensions"] = [d["_help"].get("definition", "").strip()[:1] or dims[0]]
        k = d["_help"]["definition"] if state["_help"] == "ok" else dims[0]
        d["_help"]["dimensions"] = [k + "o"]
    fileless = list(d)
    owners = []
    for i in range(rng.randint(1, 4)):
        ds = rng.sample(dims, rng.randint(0 if rng.random() < 0.1 else 1, len(dims)))
        defn = "v_" + "".join(ds) if ds else "s"
        if "h" in d and state["h"] == "ok" and rng.random() < 0.4:
            defn = defn + " * h"
        put("out%d" % i, ds, defn)
        d["out%d" % i]["file"] = OrderedDict([("filename", folder + "/" + rng.choice(["", "sub/"]) + rng.choice(["f%d", "f%d", "out%d"]) % i + ".nc")])
        if rng.random() < 0.3:
            d["out%d" % i]["file"]["format"] = rng.choice(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC"])
        owners.append("out%d" % i)
    everything = fileless + owners
    for o in owners:
        if rng.random() < 0.4:
            d[o]["file"]["metavars"] = rng.sample(everything, rng.randint(1, min(3, len(everything))))
    for n in everything:
        if rng.random() < 0.2:
            pool = [x for x in ("hb", "cb", "aux2", "h", "aux1") if x in d and x != n] or ["nowhere"]
            if rng.random() < 0.06:
                pool = ["nowhere"]
            d[n]["attributes"]["bounds"] = rng.choice(pool)
        if rng.random() < 0.2:
            pool = [x for x in ("h", "aux1", "aux2", "hb") + tuple(x + "c" for x in dims) if x in d] or ["nowhere"]
            if rng.random() < 0.06:
                pool = ["nowhere"] + pool[:1]
            d[n]["attributes"]["coordinates"] = rng.choice([" ", " ", " ", "  ", "\n "]).join(
                rng.sample(pool, min(len(pool), rng.randint(1, 2)))) + rng.choice(["", "", "", "", " "])
    items = list(d.items())
    rng.shuffle(items)
    return OrderedDict(items), state


class Rejected(Exception):
    pass


def _expect(d, state, ctx):
    """Files with their variables, files left out, variables left out"""
    defined = {n for n in d if state[n] != "undefined"}
    files, left, pulled = OrderedDict(), OrderedDict(), set()
    for n, v in d.items():
        if "file" not in v or n not in defined:
            continue
        fn = v["file"]["filename"]
        need = [n] + [m for m in v["file"].get("metavars", []) if m != n]
        if any(m not in defined for m in need):
            left[fn] = [m for m in need if m not in defined]
            continue
        dims = {x for m in need for x in d[m]["dimensions"]}
        have = list(dict.fromkeys(need))
        if len(have) > 1:
            ctx.count("metavars")
        for m, w in d.items():
            if m in defined and "file" not in w and m not in have:
                if w["dimensions"] and set(w["dimensions"]) <= dims:
                    have.append(m)
                    ctx.count("fileless_added")
                else:
                    ctx.count("fileless_not_added")
        direct = set(have)
        todo = list(have)
        while todo:
            m = todo.pop()
            a = d[m]["attributes"]
            refs = ([a["bounds"]] if "bounds" in a else []) + a.get("coordinates", "").split()
            for r in refs:
                if r not in defined:
                    raise Rejected(r)
                if r not in have:
                    have.append(r)
                    todo.append(r)
                    ctx.count("bounds" if r == a.get("bounds") else "coordinates")
                    if m not in direct:
                        ctx.count("chained")
                    pulled.add(r)
        files[fn] = have
    return files, left, pulled


def _inputs(rng, path, sizes):
    import itertools

    import netCDF4

    with netCDF4.Dataset(path, "w") as f:
        for k, n in sizes.items():
            f.createDimension(k, n)
            v = f.createVariable(k, "f8", (k,))
            v[:] = np.arange(n)
        f.createVariable("s", "f8", ())[...] = 3.0
        for r in range(1, len(sizes) + 1):
            for p in itertools.permutations(sizes, r):
                f.createVariable("v_" + "".join(p), "f8", p)[...] = 1.0
                if r == 2:
                    f.createVariable("a_" + "".join(p), "f8", p)[...] = 2.0


def _malform(rng, d, good_files):
    """Break one thing; returns its kind"""
    owners = [n for n, v in d.items() if "file" in v and v["file"]["filename"] in good_files]
    defined = [n for n, v in d.items() if str(v.get("definition", "")).strip()]
    kind = rng.choice(["dimensions", "type", "format", "deflate", "owner", "filename", "format_type"])
    n = rng.choice(defined)
    o = rng.choice(owners)
    if kind == "dimensions":
        del d[n]["dimensions"]
    elif kind == "type":
        d[n]["datatype"] = rng.choice(["flot", "string", "f8", "Float", "", "integer"])
    elif kind == "format":
        d[o]["file"]["format"] = rng.choice(["NETCDF5", "netcdf4", "", "NETCDF3", "NETCDF", "HDF5"])
    elif kind == "deflate":
        d[o]["file"]["deflate"] = rng.choice([-1, 10, 100, "5", 2.5, None])
    elif kind == "filename":
        del d[o]["file"]["filename"]
    elif kind == "format_type":
        d[o]["datatype"] = rng.choice(["int64", "uint", "ushort", "uint64"])
        d[o]["file"]["format"] = rng.choice(["NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET",
                                             "NETCDF3_64BIT"])
    else:
        other = [x for x in defined if x != o]
        if not other:
            del d[n]["dimensions"]
            return "dimensions"
        x = rng.choice(other)
        d[x]["file"] = OrderedDict([("filename", d[o]["file"]["filename"])])
    return kind


def _word(n, text):
    return re.search(r"(?<![A-Za-z0-9_/.]){}(?![A-Za-z0-9_/])".format(re.escape(n)), text) is not None


def case(ctx):
    from pyconform.datasets import DefinitionWarning

    rng = ctx.rng
    folder = ctx.scratch()
    sizes = OrderedDict((k, rng.randint(1, 3)) for k in rng.sample("xyt", rng.randint(1, 3)))
    inp = folder + "/in.nc"
    _inputs(rng, inp, sizes)
    d, state = _spec(rng, folder + "/out", sizes)
    what = str([(n, v.get("definition"), v["dimensions"], dict(v["attributes"]), dict(v.get("file", {})))
                for n, v in d.items()]).replace(folder, "")

    def run(spec):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            err = None
            try:
                df = flow.build([inp], spec)
            except Exception as e:  # noqa
                return e, w, None
            df.execute(serial=True)
        return err, w, df

    # a literal is known to definitions only while some file holds it
    try:
        files, left, pulled = _expect(d, state, ctx)
        reject = None
    except Rejected as r:
        reject = str(r)
    if reject is None:
        held = {m for have in files.values() for m in have}
        for n, v in d.items():
            if str(v.get("definition", "")).endswith("* h") and n in held:
                if "h" in held:
                    ctx.count("literal_used")
                elif state[n] == "ok":
                    state[n] = "absent"
    err, w, _df = run(copy.deepcopy(d))
    if reject is not None:
        ctx.check(err is not None, "reference-accepted",
                  lambda: "accepted although {} is referred to and not defined: {}".format(reject, what))
        ctx.check(not flow.listing(folder + "/out"), "reference-written",
                  lambda: "rejected but wrote {}: {}".format(flow.listing(folder + "/out"), what))
        ctx.count("bad_reference")
        return
    if err is not None:
        raise err
    texts = [str(x.message).replace(folder, "") for x in w if issubclass(x.category, DefinitionWarning)]
    good = OrderedDict()
    for fn, have in files.items():
        gone = [m for m in have if state[m] == "absent"]
        if gone:
            left[fn] = gone
        else:
            good[fn] = have
    have = flow.listing(folder + "/out")
    ctx.check(have == sorted(good), "files",
              lambda: "files {} expected {}: {} (warnings {})".format(have, sorted(good), what, texts))
    for fn, names in good.items():
        got = list(flow.read(fn)["vars"])
        wanted = sorted(n for n in names if not n.startswith("_"))
        ctx.check(sorted(got) == wanted, "variables",
                  lambda: "{} has {} expected {}: {}".format(fn, sorted(got), wanted, what))
        if len(wanted) < len(names):
            ctx.count("hidden")
        if "h" in names:
            ctx.count("scalar")
        ctx.count("files_written")
    held = {m for have in files.values() for m in have}
    for n in d:
        if state[n] == "undefined" or (state[n] == "absent" and n in held):
            ctx.check(any(_word(n, t) for t in texts), "no-warning",
                      lambda: "no warning about {} ({}): {} in {}".format(n, state[n], texts, what))
            ctx.count("undefined" if state[n] == "undefined" else "absent_input")
        elif state[n] == "ok" and not (n == "h" and n not in held):
            ctx.check(not any(_word(n, t) for t in texts), "false-warning",
                      lambda: "warning about {}: {} in {}".format(n, texts, what))
    for fn in left:
        ctx.check(any(fn.replace(folder, "") in t for t in texts), "no-file-warning",
                  lambda: "no warning about {}: {} in {}".format(fn, texts, what))
        ctx.count("files_left_out")
    for fn in good:
        ctx.check(not any(fn.replace(folder, "") in t for t in texts), "false-file-warning",
                  lambda: "warning about {}: {} in {}".format(fn, texts, what))
    if not good:
        ctx.count("nothing_written")
    if (left and good) or pulled or any("metavars" in v.get("file", {}) for v in d.values()):
        ctx.nontrivial(what)
    ctx.sample(what)

    if good and rng.random() < 0.5:
        for f in have:
            os.unlink(f)
        bad = copy.deepcopy(d)
        kind = _malform(rng, bad, set(good))
        text = str([(n, dict(v)) for n, v in bad.items()]).replace(folder, "")
        err, w, _df = run(bad)
        ctx.check(err is not None, "malformed-" + kind, lambda: "accepted malformed ({}) {}".format(kind, text))
        ctx.check(not flow.listing(folder + "/out"), "malformed-written",
                  lambda: "rejected ({}) but wrote {}".format(kind, flow.listing(folder + "/out")))
        ctx.count("malformed_" + kind)
