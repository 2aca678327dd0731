"""C09: reductions over named dimensions are exact for every subset of dimensions"""
import itertools

import numpy as np
from cf_units import Unit

from vf import gen
from vf.ref import Q, compare, reduce

ID = "C09"
LEVEL = "exploration"
RULE = ("random arrays of rank 1-5 with random masks (also fully masked rows), every kind of "
        "reduction over a random list of dimensions in random order, as a method of the array and "
        "as a function in a definition over data nodes; compared with a brute-force loop; "
        "non-trivial = at least two dimensions reduced, or a masked element, or a dimension "
        "that is not the first; distinct by kind, shape, dimensions reduced")
CASES = {"quick": 24000, "thorough": 80000}
REQUIRED = ["nothing_named", "method_mean", "method_sum", "func_mean", "func_sum", "func_min", "func_max",
            "multi", "masked", "nested", "integers", "nothing_reduced"]
NAMES = ["x", "y", "z", "t", "u"]


def _array(ctx, rng, lo=1, hi=4):
    sz = gen.sizes(rng, 1, 4, gen.five(rng, NAMES))
    d = gen.dims(rng, sz, lo, hi)
    dt = rng.choice(["f8"] * 7 + ["i4", "i2", "i1", "u1"])
    if dt[0] in "iu":
        ctx.count("integers")
    a, q = gen.quantity(rng, sz, d, rng.choice(["m", "K", "kg m-2 s-1"]), "any", dtype=dt,
                        positive=rng.choice([None, "up", "down"]))
    if q.mask.any() and rng.random() < 0.4:
        # a whole row missing
        ax = rng.randrange(len(d))
        idx = [slice(None)] * len(d)
        idx[ax] = 0
        q.mask[tuple(idx)] = True
        from pyconform.physarray import PhysArray

        a = PhysArray(np.ma.MaskedArray(np.asarray(q.val).astype(dt), mask=q.mask.copy()), name="r",
                      units=q.units, dimensions=d, positive=q.positive)
    return a, q


def _notice(ctx, kind, q, rd):
    if len(rd) > 1:
        ctx.count("multi")
    if q.mask.any():
        ctx.count("masked")
    if len(rd) > 1 or q.mask.any() or (rd and q.dims[0] not in rd):
        ctx.nontrivial(kind, q.val.shape, q.dims, tuple(rd), bool(q.mask.any()))


def c_method(ctx):
    rng = ctx.rng
    a, q = _array(ctx, rng)
    kind = rng.choice(["mean", "sum"])
    rd = list(gen.dims(rng, q.dims, 1, len(q.dims), q.dims))
    snap = gen.snapshot(a)
    how = rng.choice(["names", "names", "tuple", "axis", "axes", "all"])
    if how == "names":
        got = getattr(a, kind)(dimensions=rd)
    elif how == "tuple":
        got = getattr(a, kind)(dimensions=tuple(rd))
    elif how == "axis":
        rd = rd[:1]
        got = getattr(a, kind)(axis=q.dims.index(rd[0]))
    elif how == "axes":
        got = getattr(a, kind)(axis=tuple(sorted(q.dims.index(n) for n in rd)))
    else:
        rd = list(q.dims)
        got = getattr(a, kind)()
    compare(ctx, got, reduce(kind, q, rd), "method-" + kind,
            "{} of {}{} over {} ({})".format(kind, q.dims, q.val.shape, rd, how), scale=200.0)
    ctx.check(gen.snapshot(a) == snap, "reduction-mutates", "reduction changed its operand")
    ctx.count("method_" + kind)
    _notice(ctx, kind, q, rd)
    ctx.sample("{} {}{} over {}".format(kind, q.dims, q.val.shape, rd))


def c_func(ctx):
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.functions import find_function

    rng = ctx.rng
    a, q = _array(ctx, rng, 1, 4)
    kind = rng.choice(["mean", "sum", "min", "max"])
    rd = list(gen.dims(rng, q.dims, rng.choice([0, 1, 1, 1, 1]), len(q.dims), q.dims))
    names = list(rd)
    if not rd:
        ctx.count("nothing_reduced")
    if rng.random() < 0.2 or (not rd and rng.random() < 0.5):
        names.insert(rng.randint(0, len(names)), "absent")
    if not names:
        ctx.count("nothing_named")
    node = EvalNode(kind, find_function(kind), DataNode(a), *names)
    want = reduce(kind, q, rd)
    what = "{}({}{}, {})".format(kind, q.dims, q.val.shape, names)
    info = node[None]
    ctx.check(tuple(info.dimensions) == want.dims, "func-{}-info".format(kind),
              lambda: "{}: announced dimensions {} expected {}".format(what, info.dimensions, want.dims))
    compare(ctx, node[:], want, "func-" + kind, what, scale=200.0)
    compare(ctx, node[...], want, "func-" + kind, what, scale=200.0)
    # the dimensions it sums over are declared
    ctx.check(set(rd) <= set(node.sumlike_dimensions), "func-{}-sumlike".format(kind),
              lambda: "{}: declared {}".format(what, node.sumlike_dimensions))
    # requests for a part along other dimensions are the part of the result
    if want.dims:
        n = rng.choice(want.dims)
        k = want.val.shape[want.dims.index(n)]
        s = gen.rand_slice(rng, k, empty=False)
        idx = tuple(s if m == n else slice(None) for m in want.dims)
        compare(ctx, node[{n: s}], want[idx], "func-{}-slice".format(kind),
                "{} at {}={}".format(what, n, s), scale=200.0)
    ctx.count("func_" + kind)
    _notice(ctx, "f" + kind, q, rd)


def c_nested(ctx):
    """Reductions one after another, and combined with arithmetic"""
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.functions import find_function, find_operator

    rng = ctx.rng
    a, q = _array(ctx, rng, 2, 4)
    node, w = DataNode(a), q
    steps = []
    for _ in range(rng.randint(1, 3)):
        if not w.dims:
            break
        kind = rng.choice(["mean", "sum", "min", "max"])
        rd = list(gen.dims(rng, w.dims, 1, len(w.dims), w.dims))
        node, w = EvalNode(kind, find_function(kind), node, *rd), reduce(kind, w, rd)
        steps.append((kind, rd))
    compare(ctx, node[:] if w.dims else node[...], w, "nested", "{} of {}".format(steps, q.dims),
            scale=1000.0)
    # anomaly from the mean
    from vf.ref import binop

    anom = EvalNode("-", find_operator("-", numargs=2), DataNode(a), node)
    compare(ctx, anom[...], binop("-", q, w), "anomaly", "x - {}".format(steps), scale=1000.0)
    ctx.count("nested")
    ctx.nontrivial("n", q.val.shape, steps)


KINDS = [c_method] * 3 + [c_func] * 4 + [c_nested]


def case(ctx):
    ctx.rng.choice(KINDS)(ctx)
