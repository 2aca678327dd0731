"""C13: validation masks exactly the out-of-range data and reports every breach"""
import os
import warnings
from collections import OrderedDict

import numpy as np

from vf import flow, gen
from vf.core import Skip
from vf.ref import Q

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "reference-model monitor of validation: values, missing points and emitted warnings"
RULE = ("validation nodes over random masked arrays of every type with bounds on, beside and between "
        "the data values, at zero, empty or beyond the data, with unit conversion, direction change, "
        "transposition, slicing and type casts; whole conversions with bounds, chunked and unchunked; "
        "conversions into a type of another kind; non-trivial = some bound broken and some not reached; "
        "distinct by bounds and values")
CASES = {"quick": 6000, "thorough": 40000}
REQUIRED = ["read_again", "large", "below", "above", "both", "zero_bound", "on_bound", "untouched", "mean_low", "mean_high", "mean_ok",
            "empty_bound", "masked_input", "all_missing", "casts_rejected", "casts_accepted", "files", "chunked",
            "conversion", "flipped", "limit_as_text"]

TYPES = [None, "double", "float", "int", "short", "byte"]
NP = {"double": "f8", "float": "f4", "int": "i4", "short": "i2", "byte": "i1"}
MEANS = ("ok_min_mean_abs", "ok_max_mean_abs")


def _bound(rng, good, exact):
    """A bound together with how it lies with respect to the data"""
    vals = sorted(set(good.tolist()))
    r = rng.random()
    if r < 0.12:
        return 0.0 if rng.random() < 0.5 else 0
    if r < 0.2 or not vals:
        return rng.choice([-1000.0, 1000.0])
    if exact and r < 0.65:
        v = rng.choice(vals)
        return int(v) if float(v).is_integer() and rng.random() < 0.3 else float(v)
    if len(vals) > 1:
        i = rng.randrange(len(vals) - 1)
        return 0.5 * (vals[i] + vals[i + 1])
    return vals[0] + rng.choice([-1.5, 1.5])


def _expected(q, attrs):
    """Missing points and broken limits that the declared attributes imply"""
    lo, hi = attrs.get("valid_min"), attrs.get("valid_max")
    lo = None if lo == "" else lo
    hi = None if hi == "" else hi
    broken = set()
    mask = q.mask.copy()
    if lo is not None:
        b = ~q.mask & (q.val < lo)
        if b.any():
            broken.add("valid_min")
        mask |= b
    if hi is not None:
        b = ~q.mask & (q.val > hi)
        if b.any():
            broken.add("valid_max")
        mask |= b
    if not mask.all():
        mean = float(np.mean(np.abs(q.val[~mask])))
        for a, s in (("ok_min_mean_abs", 1), ("ok_max_mean_abs", -1)):
            v = attrs.get(a)
            if v in (None, ""):
                continue
            # (at the limit itself only a mean that is exact in every precision counts)
            if (mean != v or float(np.float32(mean)) != mean) and abs(mean - v) <= 1e-4 * max(abs(mean), abs(v)):
                raise Skip()
            if (v - mean) * s > 0:
                broken.add(a)
    return mask, broken


def _heard(ctx, caught, name, key, what, broken, names=("valid_min", "valid_max") + MEANS):
    from pyconform.flownodes import ValidationWarning

    texts = [str(w.message) for w in caught if issubclass(w.category, ValidationWarning)]
    mine = [t for t in texts if repr(name) in t]
    heard = {a for a in names if any(a in t for t in mine)}
    ctx.check(heard == broken & set(names), key + "-warnings",
              lambda: "{}: warned about {} expected {} ({})".format(what, sorted(heard), sorted(broken), texts))
    if not broken:
        ctx.check(not mine, key + "-spurious", lambda: "{}: warned {} without a breach".format(what, mine))
    return mine


def _as_text(ctx, attrs):
    """The same limits, some as text like those of the MIP tables"""
    for b in ("valid_min", "valid_max") + MEANS:
        if attrs.get(b) not in (None, "") and ctx.rng.random() < 0.15:
            attrs[b] = ctx.rng.choice(["{!r}", "{!r}", " {!r}"]).format(attrs[b])
            ctx.count("limit_as_text")
        elif attrs.get(b) == "" and ctx.rng.random() < 0.2:
            attrs[b] = " "


def _node(ctx):
    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.flownodes import DataNode, ValidateNode
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    sz = gen.sizes(rng, 1, 5)
    dims = gen.dims(rng, sz, 0, 3)
    if rng.random() < 0.02 and dims:
        sz[dims[-1]], sz[dims[0]] = rng.randint(30, 90), rng.randint(60, 130)
        ctx.count("large")
    shape = tuple(sz[d] for d in dims)
    sdt = rng.choice(["f8", "f4", "i4", "i2"])
    n = int(np.prod(shape)) if shape else 1
    scale = rng.choice([1, 1, 0, 40])
    v = np.array([rng.randint(-scale, scale) / (1.0 if sdt[0] == "i" else 8.0) for _ in range(n)]).reshape(shape)
    if n > 1000 and rng.random() < 0.7:  # (small and large values at different places)
        v = v * (np.arange(n).reshape(shape) * 8 // n)
    v = v.astype(sdt)
    m = gen.mask(rng, shape)
    if rng.random() < 0.03:
        m = np.ones(shape, bool)
    if m.any():
        ctx.count("masked_input")
    if m.all():
        ctx.count("all_missing")
    pos = rng.choice([None, None, "up", "down"])
    src = rng.choice(["m", "m", "m", "1", "K"])
    a = PhysArray(np.ma.MaskedArray(v.copy(), mask=m.copy()) if m.any() or rng.random() < 0.5 else v.copy(),
                  name="a", units=src, dimensions=dims, positive=pos)
    q = Q(v.astype("f8"), m, dims, src, pos)
    kind = "f8" if sdt[0] == "f" else "i4"
    odt = rng.choice([t for t in TYPES if t is None or (sdt[0] == "i" and NP[t] in ("f4", "f8", "i4"))
                      or NP[t][0] == "f"])
    attrs = OrderedDict()
    exact = True
    if src == "m" and rng.random() < 0.3 and (odt is None or NP[odt][0] == "f"):
        attrs["units"] = rng.choice(["km", "cm"])
        q = q.convert(attrs["units"])
        exact = False
        ctx.count("conversion")
    elif rng.random() < 0.5:
        attrs["units"] = rng.choice([src, "?"])
    order = list(dims)
    if rng.random() < 0.5:
        rng.shuffle(order)
    q = q.transpose(tuple(order))
    if pos and rng.random() < 0.6:
        attrs["positive"] = rng.choice(["up", "down"])
        if attrs["positive"] != pos:
            ctx.count("flipped")
        q = q.directed(attrs["positive"])
    good = q.val[~q.mask]
    if rng.random() < 0.75:
        attrs["valid_min"] = _bound(rng, good, exact)
    if rng.random() < 0.75:
        attrs["valid_max"] = _bound(rng, good, exact)
    for b in ("valid_min", "valid_max"):
        if b in attrs and rng.random() < 0.08:
            attrs[b] = ""
            ctx.count("empty_bound")
        elif attrs.get(b) == 0:
            ctx.count("zero_bound")
        if attrs.get(b) not in (None, "") and (good == attrs[b]).any():
            ctx.count("on_bound")
    if "" not in attrs.values() and attrs.get("valid_min", -1e9) > attrs.get("valid_max", 1e9):
        attrs["valid_min"], attrs["valid_max"] = attrs["valid_max"], attrs["valid_min"]
    mean = float(np.mean(np.abs(good))) if good.size else 1.0
    for b in MEANS:
        if rng.random() < 0.4:
            attrs[b] = rng.choice([0.0, 0, mean * 0.5, mean * 2, mean * 0.95, mean * 1.05, "", 1e6])
            if not exact and attrs[b] not in ("", 0):
                attrs[b] = float(attrs[b])
    items = list(attrs.items())
    rng.shuffle(items)
    attrs = OrderedDict(items)
    want = dict(attrs)
    _as_text(ctx, attrs)
    vd = VariableDesc("vtest", datatype=odt, dimensions=tuple(DimensionDesc(d) for d in order), attributes=attrs)
    before = gen.snapshot(a)
    node = ValidateNode(vd, DataNode(a))
    if rng.random() < 0.35:
        # every reading of the same node reports what it finds
        for turn in range(rng.choice([1, 1, 2])):
            idx = {d: gen.rand_slice(rng, sz[d], empty=False) for d in dims if rng.random() < 0.6}
            part = q[tuple(idx.get(d, slice(None)) for d in order)]
            what = "{} {} {} as {}[{}] reading {}".format(np.ma.MaskedArray(v, mask=m).tolist(), src, dict(want), odt, idx, turn)
            mask, broken = _expected(part, want)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = node[idx]
            _heard(ctx, w, "vtest", "again", what, broken)
            gm = np.ma.getmaskarray(np.ma.asarray(got))
            ctx.check(bool(np.array_equal(gm, mask)), "again-mask",
                      lambda: "{}: missing {} expected {}".format(what, gm.tolist(), mask.tolist()))
            if broken:
                ctx.count("read_again")
    idx = {}
    if rng.random() < 0.4:
        idx = {d: gen.rand_slice(rng, sz[d], empty=False) for d in dims if rng.random() < 0.7}
        q = q[tuple(idx.get(d, slice(None)) for d in order)]
    what = "{} {} {} as {}[{}]".format(np.ma.MaskedArray(v, mask=m).tolist(), src, dict(want), odt, idx)
    mask, broken = _expected(q, want)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = node[idx]
    _heard(ctx, w, "vtest", "node", what, broken)
    g = np.ma.asarray(got).view(np.ma.MaskedArray)
    ctx.check(g.shape == q.val.shape, "node-shape", lambda: "{}: shape {}".format(what, g.shape))
    ctx.check(g.dtype == np.dtype(NP.get(odt, sdt)) or odt is None, "node-type",
              lambda: "{} {}: type {}".format(sdt, what, g.dtype))
    gm = np.ma.getmaskarray(g)
    ctx.check(bool(np.array_equal(gm, mask)), "node-mask",
              lambda: "{}: missing {} expected {}".format(what, gm.tolist(), mask.tolist()))
    gv, wv = np.ma.getdata(g)[~mask].astype("f8"), q.val[~mask]
    tol = 0 if exact else 1e-5 * np.abs(wv)
    ctx.check(bool(np.all(np.abs(gv - wv) <= tol)), "node-values",
              lambda: "{}: values {} expected {}".format(what, gv.tolist(), wv.tolist()))
    ctx.check(gen.snapshot(a) == before, "node-operand", lambda: "{}: input changed".format(what))
    lo, hi = "valid_min" in broken, "valid_max" in broken
    if lo:
        ctx.count("below")
    if hi:
        ctx.count("above")
    if lo and hi:
        ctx.count("both")
    if not broken:
        ctx.count("untouched")
    if "ok_min_mean_abs" in broken:
        ctx.count("mean_low")
    if "ok_max_mean_abs" in broken:
        ctx.count("mean_high")
    if any(want.get(b) not in (None, "") for b in MEANS) and not broken & set(MEANS):
        ctx.count("mean_ok")
    if broken and not mask.all():
        ctx.nontrivial(what)
    ctx.count("elements_compared", int(mask.size))
    ctx.sample(what)


def _cast(ctx):
    """Types of another kind are rejected and leave no output file"""
    rng = ctx.rng
    d = ctx.scratch()
    os.makedirs(d + "/in")
    inp = flow.Inputs(ctx, rng, dtypes=("f8", "f4", "i4"), packed=False, hi=3)
    flow.fix_order(inp)
    files = inp.write(rng, d + "/in")
    spec = flow.Spec(inp, rng, d + "/out", nout=1, depth=0, reduce=False, out_units=False, coord_types=("double",),
                     literals=0)
    main = spec.d["out0"]
    e = spec.expr["out0"]
    n = e[1] if e[0] in ("var", "idx") else None
    if n is None:
        raise Skip()
    real = inp.vars[n]["dtype"][0] == "f"
    odt = rng.choice(["int", "short", "byte", "char", "int", "float", "double"])
    main["datatype"] = odt
    if odt in ("int", "short", "byte", "char"):
        main["attributes"].pop("_FillValue", None)
    main["file"]["format"] = "NETCDF4"
    bad = odt == "char" or (real and odt in ("int", "short", "byte"))
    if odt == "char" and not main["dimensions"]:
        raise Skip()
    what = "{} {} as {}".format(inp.vars[n]["dtype"], flow.text(e), odt)
    try:
        flow.run(files, spec.dsdict())
    except Exception as err:
        if not bad:
            raise
        left = [f for f in flow.listing(d + "/out") if f in spec.files]
        ctx.check(not left, "cast-written", lambda: "{}: failed with {} but left {}".format(what, err, left))
        ctx.count("casts_rejected")
        ctx.nontrivial(what, main["dimensions"])
        return
    ctx.check(not bad, "cast-accepted", lambda: "{}: written without an error".format(what))
    ctx.count("casts_accepted")


def _files(ctx):
    """Bounds in whole conversions"""
    rng = ctx.rng
    d = ctx.scratch()
    os.makedirs(d + "/in")
    inp = flow.Inputs(ctx, rng, hi=4)
    flow.fix_order(inp)
    files = inp.write(rng, d + "/in")
    spec = flow.Spec(inp, rng, d + "/out", depth=1, directions=rng.random() < 0.3, ints=False)
    broken = {}
    for n in spec.files.values():
        w = spec.want[n]
        good = w["q"].val[~w["q"].mask]
        vals = sorted(set(good.tolist()))
        # Bounds away from every value: rounding may not decide
        for b in ("valid_min", "valid_max"):
            r = rng.random()
            if r < 0.3:
                continue
            if r < 0.45:
                x = 0.0
            elif len(vals) > 1 and r < 0.8:
                i = rng.randrange(len(vals) - 1)
                x = 0.5 * (vals[i] + vals[i + 1])
            else:
                x = rng.choice([-1e12, 1e12])
            if np.any(np.abs(good - x) <= 1e-4 * (w["mag"].val[~w["q"].mask] + abs(x))):
                continue
            spec.d[n]["attributes"][b] = x
        a = spec.d[n]["attributes"]
        if a.get("valid_min", -1e30) > a.get("valid_max", 1e30):
            a["valid_min"], a["valid_max"] = a["valid_max"], a["valid_min"]
        if spec.d[n]["datatype"] == "float" and good.size and np.abs(good).max() > 1e30:
            raise Skip()
        mask, broken[n] = _expected(w["q"], spec.d[n]["attributes"])
        w["q"] = Q(w["q"].val, mask, w["q"].dims, w["q"].units, w["q"].positive)
        _as_text(ctx, spec.d[n]["attributes"])
    kwds = {}
    if rng.random() < 0.5 and spec.chunkable():
        kwds["chunks"] = {c: rng.randint(1, 3) for c in rng.sample(spec.chunkable(), 1)}
        ctx.count("chunked")
    what = "{} {}".format({n: dict(spec.d[n]["attributes"]) for n in broken}, kwds)
    caught = flow.run(files, spec.dsdict(), **kwds)
    for n, b in broken.items():
        _heard(ctx, caught, n, "files", "{}: {}".format(n, what), b)
    flow.judge_files(ctx, spec, d + "/out", "files", what)
    ctx.count("files")


def case(ctx):
    r = ctx.rng.random()
    if r < 0.88:
        _node(ctx)
    elif r < 0.94:
        _cast(ctx)
    else:
        _files(ctx)
