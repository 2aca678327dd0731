"""C19: unsafe chunk requests are rejected before anything is written"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow, shim

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "rejection monitor: requests against the dimensions summed over, with file-system events recorded"
RULE = ("random definitions (reductions, user functions that declare a dimension, renamed dimensions and "
        "arithmetic nested to a random depth) and random chunk requests; outcome compared with the set of "
        "dimensions summed over, file-system events during rejected requests counted, results of accepted "
        "requests compared with the unchunked ones; non-trivial = a request that must be rejected; distinct by request")
CASES = {"quick": 200, "thorough": 8000}
REQUIRED = ["rejected_summed", "rejected_unknown", "rejected_type", "rejected_size", "rejected_container",
            "accepted", "nested_deep", "renamed_outside", "renamed_inside", "user_function", "mixed_request",
            "second_file", "metavar_sum", "rejected_again", "accepted_after_rejection", "input_name",
            "keyword_argument", "indexed", "many_summed", "sum_far_inside", "watched"]
PRELOAD = True

OUT = {"x": "lon", "y": "lat", "z": "lev", "t": "time", "a": "lon2", "b": "lat2", "c": "lev2", "d": "time2"}
REN = {"x": "a", "y": "b", "z": "c", "t": "d"}
ORIG = {v: k for k, v in REN.items()}
KEEP = []  # functions are found while their classes are alive


def _functions():
    from pyconform.functions import Function, is_constant, list_functions
    from pyconform.physarray import PhysArray

    if "vfrunning" in list_functions():
        return

    class Running(Function):
        key = "vfrunning"

        def __init__(self, data, *dims, **kwds):
            super().__init__(data, *dims, **kwds)
            self.add_sumlike_dimensions(*dims)

        def __getitem__(self, index):
            data = self.arguments[0][index]
            out = data * 1.0
            for d in self.arguments[1:]:
                if d in data.dimensions:
                    k = data.dimensions.index(d)
                    vals = np.cumsum(np.asarray(out), axis=k) if data.size else np.asarray(out)
                    out = PhysArray(vals, units=data.units, dimensions=data.dimensions, name="run")
            return out

    class Twice(Function):
        key = "vftwice"

        def __init__(self, data, other=None):
            super().__init__(data, other=other)

        def __getitem__(self, index):
            other = self.keywords["other"]
            data = self.arguments[0][index]
            return data if other is None or is_constant(other) else data + other[index]

    KEEP.extend([Running, Twice])


class _Gen:
    def __init__(self, ctx, rng, sizes):
        self.ctx, self.rng, self.sizes = ctx, rng, sizes

    def tree(self, depth, top=0):
        """(text, dims, summed names)"""
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.1:
            dims = rng.sample(list(self.sizes), rng.randint(1, len(self.sizes)))
            dims = [x for x in self.sizes if x in dims]
            t = "v_" + "".join(dims)
            if rng.random() < 0.2:
                t += "[" + ",".join(rng.choice([":", "::-1"]) for _ in dims) + "]"
                self.ctx.count("indexed")
            return t, tuple(dims), set()
        if r < 0.35:
            t, dims, s = self.tree(depth - 1, top + 1)
            if len(dims) < 1:
                return t, dims, s
            ds = rng.sample(dims, len(dims) if rng.random() < 0.25 else rng.randint(1, len(dims)))
            if len(ds) > 2:
                self.ctx.count("many_summed")
            if rng.random() < 0.25:
                self.ctx.count("user_function")
                return "vfrunning({},{})".format(t, ",".join(map(repr, ds))), dims, s | set(ds)
            f = rng.choice(["mean", "sum", "min", "max"])
            if top >= 2:
                self.ctx.count("nested_deep")
            return ("{}({},{})".format(f, t, ",".join(map(repr, ds))), tuple(x for x in dims if x not in ds), s | set(ds))
        if r < 0.5:
            t, dims, s = self.tree(depth - 1, top + 1)
            new = tuple(REN.get(x, x) if rng.random() < 0.8 else x for x in dims)
            if not dims or len(set(new)) < len(new):
                return t, dims, s
            m = dict(zip(dims, new))
            if s and rng.random() < 0.5:
                # the sum is some functions away, and its dimension is here again
                for _ in range(rng.randint(1, 3)):
                    t = rng.choice(["({}+1)", "limit({},below=0.5)", "(2*{})", "rmunits({})"]).format(t)
                gone = [x for x in self.sizes if x in s and x not in dims]
                if gone:
                    both = [x for x in self.sizes if x in dims or x in gone]
                    if set(dims) <= set(self.sizes):
                        t = "(v_{}*{})".format("".join(both), t)
                        dims = tuple(both)
                        new = tuple(REN.get(x, x) if rng.random() < 0.8 else x for x in dims)
                        m = dict(zip(dims, new))
                        self.ctx.count("sum_far_inside")
            if s & {x for x in dims if m[x] != x}:
                self.ctx.count("renamed_outside")
            out = s | {m[x] for x in s & set(m)}
            return "chdims({},{})".format(t, ",".join(map(repr, new))), new, out
        if r < 0.75:
            t1, d1, s1 = self.tree(depth - 1, top + 1)
            t2, d2, s2 = self.tree(depth - 1, top + 1)
            dims = d1 + tuple(x for x in d2 if x not in d1)
            if r > 0.7:
                self.ctx.count("keyword_argument")
                return "vftwice({},other={})".format(t1, t2), dims, s1 | s2
            return "({}{}{})".format(t1, rng.choice("+-*"), t2), dims, s1 | s2
        t, dims, s = self.tree(depth - 1, top + 1)
        f = rng.choice(["up({})", "(-{})", "rmunits({})", "(2*{})", "({}+1)", "limit({},below=0.5)",
                        "chunits({},units='1')"])
        return f.format(t), dims, s


def _inputs(path, sizes):
    import itertools

    import netCDF4

    with netCDF4.Dataset(path, "w") as f:
        n = 0
        for k, m in sizes.items():
            f.createDimension(k, m)
            v = f.createVariable(k, "f8", (k,))
            v[:] = np.arange(m)
        for r in range(1, len(sizes) + 1):
            for p in itertools.combinations(sizes, r):
                v = f.createVariable("v_" + "".join(p), "f8", p)
                v.units = "1"
                shape = tuple(sizes[x] for x in p)
                n += 1
                v[...] = (np.arange(int(np.prod(shape))) * 7 % 11 + n).reshape(shape)


def _dirs(folder):
    out = []
    for base, ds, fs in os.walk(folder):
        out += [os.path.join(base, x) for x in ds + fs]
    return sorted(out)


def case(ctx):
    rng = ctx.rng
    _functions()
    folder = ctx.scratch()
    sizes = OrderedDict((k, rng.randint(2, 4)) for k in "xyzt"[:rng.choice([1, 2, 2, 3, 4, 4])])
    inp = folder + "/in.nc"
    _inputs(inp, sizes)
    gen = _Gen(ctx, rng, sizes)
    d = OrderedDict()
    summed, used = set(), set()
    nout = rng.randint(1, 3)
    inner = []
    for i in range(nout):
        while True:
            t, dims, s = gen.tree(rng.randint(1, 5))
            if not set(dims) & {ORIG.get(x) for x in dims}:
                break
        summed |= s
        used |= set(dims)
        odims = [OUT[x] for x in dims]
        rng.shuffle(odims)
        d["out%d" % i] = OrderedDict([
            ("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", odims), ("definition", t),
            ("file", OrderedDict([("filename", "{}/out/{}f{}.nc".format(folder, rng.choice(["", "s/"]), i)),
                                  ("metavars", [])]))])
        if s:
            inner.append(t)
    if rng.random() < 0.3:
        t, dims, s = gen.tree(3)
        if not set(dims) & {ORIG.get(x) for x in dims}:
            d["meta"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"),
                                     ("dimensions", [OUT[x] for x in dims]), ("definition", t)])
            d["out0"]["file"]["metavars"].append("meta")
            used |= set(dims)
            summed |= s
            if s:
                ctx.count("metavar_sum")
    # every name has its coordinate variable, so that the map between names is known; one more file holds them all
    names = list(sizes) + [REN[x] for x in sizes]
    for x in names:
        if x in sizes:
            d[OUT[x]] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", [OUT[x]]),
                                     ("definition", x)])
        else:
            d[OUT[x]] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", [OUT[x]]),
                                     ("definition", "chdims({},{!r})".format(ORIG[x], x))])
            d[OUT[x] + "_n"] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"),
                                            ("dimensions", [OUT[x]]), ("definition", [float(i) for i in range(sizes[ORIG[x]])])])
        d["own_" + x] = OrderedDict([("attributes", OrderedDict()), ("datatype", "double"), ("dimensions", [OUT[x]]),
                                     ("definition", d[OUT[x]]["definition"]),
                                     ("file", {"filename": "{}/out/own_{}.nc".format(folder, x)})])
    items = list(d.items())
    rng.shuffle(items)
    d = OrderedDict(items)
    unsafe = {OUT[x] for x in summed if x in names}
    # the same data under its other name: neither has to be accepted nor rejected
    other = {OUT[REN.get(x, ORIG.get(x))] for x in summed if x in names} - unsafe
    if any(x in ORIG for x in summed):
        ctx.count("renamed_inside")
    if nout > 1:
        ctx.count("second_file")
    safe = sorted({OUT[x] for x in names} - unsafe - other)
    what = str([(n, v["definition"], v["dimensions"]) for n, v in d.items() if n.startswith(("out", "meta"))])
    what += " summed {}".format(sorted(summed))

    flow.run([inp], d)
    plain = {fn: flow.digest(fn) for fn in flow.listing(folder + "/out")}
    for fn in plain:
        os.unlink(fn)
    for base, ds, _f in os.walk(folder + "/out", topdown=False):
        os.rmdir(base)
    df = flow.build([inp], d)
    rejected = False
    for turn in range(rng.randint(2, 5)):
        good = rng.sample(safe, rng.randint(0, len(safe)))
        req = [(x, rng.choice([1, 2, 3, 5, 100])) for x in good]
        kinds = ["accept", "accept", "unknown", "type", "size", "container"] + ["summed"] * 4 * bool(unsafe)
        kind = rng.choice(kinds)
        if kind == "summed":
            req.append((rng.choice(sorted(unsafe)), rng.choice([1, 2, 100])))
        elif kind == "unknown":
            n = rng.choice(["nowhere", "", "Lon", "x", "t", "a", "lon ", "out0", "lo", "lon3"])
            if n in "xta" and n:
                ctx.count("input_name")
            req.append((n, 2))
        elif kind in ("type", "size") and safe:
            n = rng.choice(safe)
            req = [p for p in req if p[0] != n]
            bad = [2.0, "2", None, [2], 1.5, (1,), {}, "all", float("nan")] if kind == "type" else [0, -1, -2, -100]
            req.append((n, rng.choice(bad)))
        elif kind in ("type", "size"):
            kind = "accept"
        rng.shuffle(req)
        chunks = OrderedDict(req) if rng.random() < 0.5 else dict(req)
        if kind == "container":
            chunks = rng.choice([req, tuple(req), "lon", 3, [("lon", 2)]])
        if len(req) > 1 and kind not in ("accept", "container"):
            ctx.count("mixed_request")
        text = "{} for {}".format(chunks, what)
        log = folder + "/log"
        if os.path.exists(log):
            os.unlink(log)
        shim.arm(folder + "/out", log)
        err = None
        try:
            df.execute(serial=True, chunks=chunks)
        except Exception as e:  # noqa
            err = e
        finally:
            shim.off()
        if kind == "accept":
            if err is not None:
                raise err
            got = {fn: flow.digest(fn) for fn in flow.listing(folder + "/out")}
            ctx.check(sorted(got) == sorted(plain), "accepted-files", lambda: "files {}: {}".format(sorted(got), text))
            for fn in plain:
                diff = flow.differ(plain[fn], got[fn], rtol=1e-12)
                ctx.check(diff is None, "accepted-content", lambda: "{}: {}: {}".format(fn, diff, text))
                os.unlink(fn)
            for base, ds, _f in os.walk(folder + "/out", topdown=False):
                os.rmdir(base)
            ctx.count("accepted")
            if any(e[2] for e in shim.events(log)):
                ctx.count("watched")
            if rejected:
                ctx.count("accepted_after_rejection")
            continue
        ctx.check(err is not None, "accepted-" + kind, lambda: "accepted " + text)
        left = _dirs(folder + "/out")
        ctx.check(not left and not os.path.exists(folder + "/out"), "rejected-wrote",
                  lambda: "{} exist after {!r}: {}".format(left, err, text))
        ev = [e[2:] for e in shim.events(log)]
        ctx.check(not ev, "rejected-touched", lambda: "file-system events {} before {!r}: {}".format(ev[:5], err, text))
        ctx.count("rejected_" + kind)
        if rejected:
            ctx.count("rejected_again")
        rejected = True
        ctx.nontrivial(text)
    ctx.sample(what)
