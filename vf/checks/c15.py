"""C15: input files are described faithfully and contradictory ones rejected"""
import hashlib
import os
import shutil
from collections import OrderedDict

import numpy as np

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "differential monitor: descriptions against independently kept headers; contradictions injected"
RULE = ("random sets of 1-5 NetCDF files (all formats and types, several unlimited dimensions, text, "
        "unused dimensions, scalar variables, shared variables, attributes of every type) in any order, "
        "described and compared with the headers written; then one header contradicted (size, unlimited "
        "flag, type, order or set of dimensions of a variable) in a file or in descriptors built by hand; "
        "non-trivial = two files share a dimension or variable; distinct by headers")
CASES = {"quick": 1500, "thorough": 30000}
REQUIRED = ["files", "variables", "dimensions", "attributes", "shared_variables", "shared_dimensions",
            "contradict_size", "contradict_unlimited", "contradict_type", "contradict_order", "contradict_dims",
            "by_descriptor", "by_file", "text", "order_changed", "many_variables", "many_files"]

T3 = ["i1", "i2", "i4", "f4", "f8"]
T4 = T3 + ["u1", "u2", "u4", "i8", "u8"]
FORMATS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA"]


def _attr(rng):
    return rng.choice([
        lambda: "text %d" % rng.randint(0, 99), lambda: rng.uniform(-5, 5), lambda: np.int32(rng.randint(0, 9)),
        lambda: np.array([rng.uniform(0, 1) for _ in range(rng.randint(2, 3))]), lambda: "m s-1",
        lambda: np.float32(0.25)])()


def _attrs(rng, names):
    return OrderedDict((n, _attr(rng)) for n in rng.sample(names, rng.randint(0, len(names))))


def _same_attrs(a, b):
    if list(a) != list(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) != isinstance(y, str):
            return False
        if not np.array_equal(np.asarray(x), np.asarray(y)):
            return False
    return True


def _headers(rng):
    """Headers of a consistent set of files"""
    fmt = rng.choice(FORMATS)
    dims = OrderedDict()
    for d in rng.sample(["x", "y", "z", "t", "e"], rng.randint(1, 5)):
        dims[d] = [rng.randint(1, 5), False]
    free = list(dims)
    for d in rng.sample(free, rng.randint(0, min(len(free), 2 if fmt == "NETCDF4" else 1))):
        dims[d][1] = True
    slen = rng.randint(1, 6)
    pool = OrderedDict()
    many = rng.random() < 0.08
    for i in range(rng.randint(9, 24) if many else rng.randint(1, 7)):
        n = "v%d" % i
        k = rng.randint(0, min(3, len(dims)))
        vd = rng.sample(list(dims), k)
        if fmt != "NETCDF4":
            vd.sort(key=lambda d: not dims[d][1])
        dt = rng.choice(T4 if fmt == "NETCDF4" else T3)
        if rng.random() < 0.15:
            dt, vd = "S1", vd + ["nchar"]
        pool[n] = {"dtype": dt, "dims": vd, "attrs": _attrs(rng, ["units", "long_name", "valid", "flag", "c"])}
    if any(v["dtype"] == "S1" for v in pool.values()):
        dims["nchar"] = [slen, False]
    nf = rng.randint(6, 12) if rng.random() < 0.05 else rng.randint(1, 5)
    files = OrderedDict()
    for i in range(nf):
        names = rng.sample(list(pool), rng.randint(0 if rng.random() < 0.1 else 1, len(pool)))
        used = [d for n in names for d in pool[n]["dims"]]
        extra = [d for d in dims if d not in used and rng.random() < 0.3]
        files["f%d.nc" % i] = {
            "format": fmt if rng.random() < 0.8 or any(pool[n]["dtype"] not in T3 + ["S1"] for n in names)
            or sum(dims[d][1] for d in set(used + extra)) > 1 or fmt == "NETCDF4" else rng.choice(FORMATS),
            "vars": OrderedDict((n, {"dtype": pool[n]["dtype"], "dims": list(pool[n]["dims"]),
                                     "attrs": pool[n]["attrs"]}) for n in names),
            "extra": extra,
            "attrs": _attrs(rng, ["title", "history", "case", "ref", "num"]),
            "dims": {d: list(v) for d, v in dims.items()},
        }
    return files


def _write(folder, files):
    import netCDF4

    paths = []
    for fn, h in files.items():
        path = os.path.join(folder, fn)
        with netCDF4.Dataset(path, "w", format=h["format"]) as f:
            used = []
            for v in h["vars"].values():
                used += [d for d in v["dims"] if d not in used]
            for d in used + [e for e in h["extra"] if e not in used]:
                f.createDimension(d, None if h["dims"][d][1] else h["dims"][d][0])
            for k, a in h["attrs"].items():
                f.setncattr(k, a)
            for n, v in h["vars"].items():
                var = f.createVariable(n, v["dtype"], tuple(v["dims"]))
                for k, a in v["attrs"].items():
                    var.setncattr(k, a)
                shape = tuple(h["dims"][d][0] for d in v["dims"])
                if v["dtype"] == "S1":
                    var[...] = np.full(shape, b"a", dtype="S1")
                else:
                    var[...] = np.ones(shape, dtype=v["dtype"])
        paths.append(path)
    return paths


def _contradict(rng, files):
    """Change one header so that two files disagree; returns what was done or None"""
    names = list(files)
    rng.shuffle(names)
    kinds = ["size", "unlimited", "type", "order", "dims"]
    rng.shuffle(kinds)
    for kind in kinds:
        for a in names:
            for b in names:
                if a == b:
                    continue
                fa, fb = files[a], files[b]
                shared = [n for n in fa["vars"] if n in fb["vars"]]
                ua = {d for v in fa["vars"].values() for d in v["dims"]}
                ub = {d for v in fb["vars"].values() for d in v["dims"]}
                both = sorted((ua & ub) - {"nchar"})
                if kind == "size" and both:
                    d = rng.choice(sorted(ua & ub))
                    fb["dims"][d][0] += rng.choice([1, 2])
                    return kind, "{} of {} and {}".format(d, a, b)
                if kind == "unlimited" and both:
                    d = rng.choice(both)
                    if fb["dims"][d][1]:
                        fb["dims"][d][1] = False
                    elif fb["format"] == "NETCDF4":
                        fb["dims"][d][1] = True
                    else:
                        continue
                    return kind, "{} of {} and {}".format(d, a, b)
                if kind == "type" and shared:
                    n = rng.choice(shared)
                    v = fb["vars"][n]
                    if v["dtype"] == "S1":
                        continue
                    v["dtype"] = rng.choice([t for t in (T4 if fb["format"] == "NETCDF4" else T3)
                                             if t != v["dtype"]])
                    return kind, "{} of {} and {}".format(n, a, b)
                if kind == "order" and shared:
                    for n in shared:
                        v = fb["vars"][n]
                        k = 1 if v["dims"] and fb["dims"][v["dims"][0]][1] and fb["format"] != "NETCDF4" else 0
                        last = len(v["dims"]) - (v["dtype"] == "S1")
                        if last - k < 2:
                            continue
                        v["dims"][k], v["dims"][k + 1] = v["dims"][k + 1], v["dims"][k]
                        return kind, "{} of {} and {}".format(n, a, b)
                if kind == "dims" and shared:
                    for n in shared:
                        v = fb["vars"][n]
                        free = [d for d in fb["dims"] if d not in v["dims"] and d != "nchar"
                                and not fb["dims"][d][1]]
                        if v["dtype"] == "S1":
                            continue
                        if v["dims"] and rng.random() < 0.5:
                            v["dims"].pop()
                        elif free:
                            if v["dims"] and rng.random() < 0.5:
                                v["dims"][-1] = rng.choice(free)
                            else:
                                v["dims"].append(rng.choice(free))
                        else:
                            continue
                        return kind, "{} of {} and {}".format(n, a, b)
    return None


def _describe(files, folder):
    """Descriptors built by hand from headers"""
    from pyconform.datasets import DatasetDesc, DimensionDesc, FileDesc, VariableDesc

    out = []
    for fn, h in files.items():
        vs = [VariableDesc(n, datatype=np.dtype(v["dtype"]), attributes=v["attrs"],
                           dimensions=[DimensionDesc(d, size=h["dims"][d][0], unlimited=h["dims"][d][1])
                                       for d in v["dims"]])
              for n, v in h["vars"].items()]
        out.append(FileDesc(os.path.join(folder, fn), format=h["format"], variables=vs, attributes=h["attrs"]))
    return DatasetDesc("byhand", files=out)


def _judge(ctx, ds, files, folder, what):
    wdims = OrderedDict()
    wvars = OrderedDict()
    for fn, h in files.items():
        for n, v in h["vars"].items():
            wvars.setdefault(n, (v, []))[1].append(os.path.join(folder, fn))
            for d in v["dims"]:
                wdims[d] = tuple(h["dims"][d])
    got = {n: (d.size, d.unlimited) for n, d in ds.dimensions.items()}
    ctx.check(got == dict(wdims), "dimensions",
              lambda: "{}: dimensions {} expected {}".format(what, got, dict(wdims)))
    ctx.check(set(ds.variables) == set(wvars), "variables",
              lambda: "{}: variables {} expected {}".format(what, sorted(ds.variables), sorted(wvars)))
    ctx.check(set(ds.files) == {os.path.join(folder, f) for f in files}, "files",
              lambda: "{}: files {}".format(what, sorted(ds.files)))
    for n, (v, where) in wvars.items():
        g = ds.variables[n]
        ctx.check(g.name == n and g.dtype == np.dtype(v["dtype"]), "type",
                  lambda: "{}: {} has type {} expected {}".format(what, n, g.dtype, v["dtype"]))
        ctx.check(tuple(g.dimensions) == tuple(v["dims"]), "variable-dims",
                  lambda: "{}: {} has dimensions {} expected {}".format(what, n, tuple(g.dimensions), v["dims"]))
        ctx.check(all(g.dimensions[d].size == wdims[d][0] and g.dimensions[d].unlimited == wdims[d][1]
                      for d in v["dims"]), "variable-sizes", lambda: "{}: {} sizes".format(what, n))
        ctx.check(_same_attrs(g.attributes, v["attrs"]), "attributes",
                  lambda: "{}: {} has attributes {} expected {}".format(what, n, g.attributes, v["attrs"]))
        ctx.check(set(g.files) == set(where), "variable-files",
                  lambda: "{}: {} in files {} expected {}".format(what, n, sorted(g.files), where))
        ctx.count("variables")
        ctx.count("attributes", len(v["attrs"]))
        if len(where) > 1:
            ctx.count("shared_variables")
        if v["dtype"] == "S1":
            ctx.count("text")
    for fn, h in files.items():
        f = ds.files[os.path.join(folder, fn)]
        ctx.check(set(f.variables) == set(h["vars"]), "file-variables",
                  lambda: "{}: {} has {} expected {}".format(what, fn, sorted(f.variables), sorted(h["vars"])))
        used = {d for v in h["vars"].values() for d in v["dims"]}
        ctx.check(set(f.dimensions) == used, "file-dims",
                  lambda: "{}: {} has dimensions {} expected {}".format(what, fn, sorted(f.dimensions), used))
        ctx.check(_same_attrs(f.attributes, h["attrs"]), "file-attributes",
                  lambda: "{}: {} has attributes {} expected {}".format(what, fn, f.attributes, h["attrs"]))
        ctx.check(f.format == h["format"], "file-format",
                  lambda: "{}: {} has format {} expected {}".format(what, fn, f.format, h["format"]))
        ctx.count("files")
    ctx.count("dimensions", len(wdims))


def case(ctx):
    from pyconform.datasets import InputDatasetDesc

    rng = ctx.rng
    folder = ctx.scratch()
    files = _headers(rng)
    ctx.count("many_variables", int(max(len(h["vars"]) for h in files.values()) > 8))
    ctx.count("many_files", int(len(files) > 5))
    paths = _write(folder, files)
    what = "; ".join("{} {}: {}".format(fn, h["format"], {n: (v["dtype"], v["dims"]) for n, v in h["vars"].items()})
                     for fn, h in files.items())
    before = {p: hashlib.md5(open(p, "rb").read()).hexdigest() for p in paths}
    order = rng.sample(paths, len(paths))
    if rng.random() < 0.1:
        order.append(rng.choice(paths))
    if order != paths:
        ctx.count("order_changed")
    _judge(ctx, InputDatasetDesc("in", filenames=order), files, folder, what)
    if not any(v["dtype"] == "S1" for h in files.values() for v in h["vars"].values()) and rng.random() < 0.3:
        _judge(ctx, _describe(files, folder), files, folder, "by hand " + what)
    ctx.check(before == {p: hashlib.md5(open(p, "rb").read()).hexdigest() for p in paths}, "changed",
              lambda: "{}: describing changed a file".format(what))
    sets = [({n for n in h["vars"]}, {d for v in h["vars"].values() for d in v["dims"]}) for h in files.values()]
    if any(a[1] & b[1] for i, a in enumerate(sets) for b in sets[:i]):
        ctx.count("shared_dimensions")
        ctx.nontrivial(what, {d: tuple(s) for h in files.values() for d, s in h["dims"].items()})
    ctx.sample(what)

    done = _contradict(rng, files)
    if done is None:
        return
    kind, text = done
    shutil.rmtree(folder)
    os.makedirs(folder)
    text = "{} contradicts in {}: {}".format(kind, text, {fn: {n: (v["dtype"], [(d, h["dims"][d]) for d in v["dims"]])
                                                              for n, v in h["vars"].items()}
                                                          for fn, h in files.items()})
    if rng.random() < 0.6:
        paths = _write(folder, files)
        rng.shuffle(paths)
        build = lambda: InputDatasetDesc("in", filenames=paths)  # noqa
        ctx.count("by_file")
    else:
        build = lambda: _describe(files, folder)  # noqa
        ctx.count("by_descriptor")
    try:
        build()
    except Exception:
        ctx.count("contradict_" + kind)
        return
    ctx.fail("accepted-" + kind, "accepted: " + text)
