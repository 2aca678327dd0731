"""C12: a slice of a node's result is the same slice of its full result"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow, gen
from vf.core import Skip
from vf.ref import same_units

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "metamorphic runtime monitor on every node of random flow graphs"
RULE = ("random graphs of read, data, operator, function, map and validate nodes over random files; "
        "each node asked for everything, for its zero-size description and for random indices (slices "
        "of any sign and range by dimension name on every node, with names it does not have mixed in; "
        "by position, with integers, on nodes that read, hold or combine equally dimensioned data); "
        "results compared with indexing the full result; non-trivial = proper part of a node with an "
        "operator or function; distinct by definition and index")
CASES = {"quick": 700, "thorough": 20000}
REQUIRED = ["by_name", "by_position", "read", "data", "eval", "map", "validate", "info", "renamed_dims",
            "reduction", "negative_step", "int_index", "empty_slice"]


def _nodes(rng, e, leaves):
    """Build the node of an expression; returns (node or constant, all dims equal, dims renamed)"""
    from pyconform.flownodes import EvalNode
    from pyconform.functions import find_function, find_operator

    k = e[0]
    if k == "num":
        return e[1]
    if k == "var":
        return leaves(e[1], None)
    if k == "idx":
        return leaves(e[1], e[2])
    if k == "neg":
        return EvalNode("-", find_operator("-", numargs=1), _nodes(rng, e[1], leaves))
    if k == "pow":
        return EvalNode("**", find_operator("**", numargs=2), _nodes(rng, e[1], leaves), e[2])
    if k == "bin":
        return EvalNode(e[1], find_operator(e[1], numargs=2), _nodes(rng, e[2], leaves),
                        _nodes(rng, e[3], leaves))
    args = [_nodes(rng, a, leaves) for a in e[2]] + list(e[3])
    return EvalNode(e[1], find_function(e[1]), *args, **e[4])


def _plain(a):
    return np.ma.asarray(a).view(np.ma.MaskedArray)


def _same(ctx, got, full, sel, dims, what, key):
    """got is full[sel], where sel has one entry per axis of full"""
    f = _plain(full)
    wv = np.ma.getdata(f)[sel]
    wm = np.ma.getmaskarray(f)[sel]
    ctx.check(hasattr(got, "dimensions") and tuple(got.dimensions) == dims, key + "-dims",
              lambda: "{}: dimensions {} expected {}".format(what, getattr(got, "dimensions", None), dims))
    g = _plain(got)
    gv, gm = np.ma.getdata(g), np.ma.getmaskarray(g)
    ctx.check(gv.shape == wv.shape, key + "-shape",
              lambda: "{}: shape {} expected {}".format(what, gv.shape, wv.shape))
    ctx.check(bool(np.array_equal(gm, wm)), key + "-mask",
              lambda: "{}: mask {} expected {}".format(what, gm.tolist(), wm.tolist()))
    a, b = gv[~wm], wv[~wm]
    if a.size and a.dtype.kind == "f":
        with np.errstate(all="ignore"):
            ok = (np.abs(a - b) <= 1e-12 * np.max(np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))
    else:
        ok = a == b
    ctx.check(bool(np.all(ok)), key + "-values",
              lambda: "{}: values {} expected {}".format(what, gv.tolist(), wv.tolist()))
    ctx.check(same_units(got.units, full.units) and got.units.calendar == full.units.calendar, key + "-units",
              lambda: "{}: units {} expected {}".format(what, got.units, full.units))
    ctx.check(got.positive == full.positive, key + "-positive",
              lambda: "{}: positive {} expected {}".format(what, got.positive, full.positive))
    ctx.count("elements_compared", int(gv.size))


def _examine(ctx, node, what, kind, sum_dims=(), positional=False, ints=False, proper=True):
    rng = ctx.rng
    full = node[{}]
    dims = tuple(full.dimensions)
    info = node[None]
    ctx.check(tuple(info.dimensions) == dims, "info-dims",
              lambda: "{}: announced dimensions {} are {}".format(what, info.dimensions, dims))
    ctx.check(same_units(info.units, full.units) and info.units.calendar == full.units.calendar, "info-units",
              lambda: "{}: announced units {} are {}".format(what, info.units, full.units))
    ctx.check(info.positive == full.positive, "info-positive",
              lambda: "{}: announced direction {} is {}".format(what, info.positive, full.positive))
    ctx.count("info")
    ctx.count(kind)
    for _ in range(4):
        if positional and rng.random() < 0.5 and dims:
            sel = tuple(gen.rand_index(rng, n) if ints else gen.rand_slice(rng, n) for n in full.shape)
            idx = sel if len(sel) > 1 or rng.random() < 0.5 else sel[0]
            if len(sel) > 1 and rng.random() < 0.3:
                k = rng.randint(1, len(sel) - 1)
                sel = sel[:k] + (slice(None),) * (len(sel) - k)
                idx = sel[:k] if rng.random() < 0.5 else sel[:k] + (Ellipsis,)
            ctx.count("by_position")
        else:
            idx = {}
            for d, n in zip(dims, full.shape):
                if d in sum_dims or rng.random() < 0.3:
                    continue
                idx[d] = gen.rand_index(rng, n) if ints and rng.random() < 0.5 else gen.rand_slice(rng, n)
            sel = tuple(idx.get(d, slice(None)) for d in dims)
            if rng.random() < 0.3:
                idx["elsewhere"] = slice(0, 1)
            ctx.count("by_name")
        got = node[idx]
        w = "{}[{}]".format(what, idx)
        _same(ctx, got, full, sel, tuple(d for d, i in zip(dims, sel) if isinstance(i, slice)), w, kind)
        if any(isinstance(i, slice) and (i.step or 1) < 0 for i in sel):
            ctx.count("negative_step")
        if any(not isinstance(i, slice) for i in sel):
            ctx.count("int_index")
        n = np.ma.getdata(_plain(full))[sel].size
        if n == 0:
            ctx.count("empty_slice")
        if proper and 0 < n < full.size:
            ctx.nontrivial(what, str(sel))
    return full


def case(ctx):
    from pyconform.datasets import DimensionDesc, InputDatasetDesc, VariableDesc
    from pyconform.flownodes import DataNode, EvalNode, MapNode, ReadNode, ValidateNode
    from pyconform.functions import find_function
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    d = ctx.scratch()
    inp = flow.Inputs(ctx, rng, lo=1, hi=6, empty=0.03)
    flow.fix_order(inp)
    files = inp.write(rng, d)
    ids = InputDatasetDesc(filenames=files)
    data = inp.inputs()

    def leaves(name, index):
        q = data[name]
        if index is None and rng.random() < 0.3:
            a = PhysArray(np.ma.MaskedArray(q.val.copy(), mask=q.mask.copy()), name=name, units=q.units,
                          dimensions=q.dims, positive=q.positive)
            node, kind = DataNode(a), "data"
        else:
            kwds = {} if index is None else {"index": tuple(index)}
            node, kind = ReadNode(ids.variables[name], **kwds), "read"
        if rng.random() < 0.5:
            _examine(ctx, node, "{} {}{}".format(kind, name, "" if index is None else list(index)), kind,
                     positional=True, ints=True, proper=index is not None)
        return node

    e = None
    for _ in range(20):
        e = flow.gen_expr(rng, data, rng.randint(0, 3), reduce_dims=inp.names if rng.random() < 0.4 and not inp.empty else None)
        if e is not None:
            break
    if e is None:
        raise Skip()
    try:
        flow.evaluate(e, data)
    except Skip:
        raise
    what = flow.text(e)
    node = _nodes(rng, e, leaves)
    if not hasattr(node, "inputs"):
        raise Skip()
    # position means the same for every operand only if they have the same dimensions
    leafdims = {tuple(data[x[1]].dims) for x in flow.walk(e) if x[0] == "var"}
    flat = len(leafdims) == 1 and not any(x[0] == "idx" or x[0] == "num" for x in flow.walk(e)) \
        and not flow.summed(e)
    if flow.summed(e):
        ctx.count("reduction")
    dims = tuple(node[None].dimensions)
    if rng.random() < 0.35 and dims:
        new = ["n%d" % i for i in range(rng.randint(1, len(dims)))]
        if rng.random() < 0.3 and len(dims) > 1:
            new = list(dims[1:]) + [dims[0]]
        node = EvalNode("chdims", find_function("chdims"), node, *new)
        what = "chdims({},{})".format(what, new)
        ctx.count("renamed_dims")
        flat = False
    # dimensions summed over under the name they have here
    sums = flow.summed(e)
    sums = set(sums) | {n for o, n in zip(dims, node[None].dimensions) if o in sums}
    full = _examine(ctx, node, what, "eval" if isinstance(node, EvalNode) else "source", sums,
                    positional=flat, ints=True, proper=e[0] != "var")
    dims = tuple(full.dimensions)
    dmap = {x: x.upper() + "o" for x in dims if rng.random() < 0.8}
    mnode = MapNode("map", node, dmap)
    odims = tuple(dmap.get(x, x) for x in dims)
    osums = {dmap.get(x, x) for x in sums}
    _examine(ctx, mnode, "map {} {}".format(dmap, what), "map", osums, positional=not sums, proper=e[0] != "var")

    order = list(odims)
    if rng.random() < 0.5:
        rng.shuffle(order)
    attrs = OrderedDict()
    us = str(full.units)
    g = next((g for g in gen.GROUPS if us in g), None)
    if g and rng.random() < 0.6:
        attrs["units"] = rng.choice(g)
    elif rng.random() < 0.3:
        attrs["units"] = "?"
    if rng.random() < 0.4:
        attrs["positive"] = rng.choice(["up", "down"])
    if rng.random() < 0.4:
        good = np.ma.compressed(_plain(full))
        if good.size:
            attrs[rng.choice(["valid_min", "valid_max"])] = float(rng.choice(good.tolist()))
    vd = VariableDesc("out", datatype=rng.choice([None, "double", "float"]),
                      dimensions=tuple(DimensionDesc(x) for x in order), attributes=attrs)
    vnode = ValidateNode(vd, mnode)
    _examine(ctx, vnode, "validate {} {}({})".format(dict(attrs), what, order), "validate", osums,
             positional=not sums and tuple(order) == odims, proper=e[0] != "var")
    ctx.sample(what)
