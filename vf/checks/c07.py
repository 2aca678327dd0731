"""C07: the positive direction always matches the sign of the data"""
import numpy as np
from cf_units import Unit

from vf import gen
from vf.core import Skip
from vf.ref import Q, binop, compare, const, power, reduce

ID = "C07"
LEVEL = "exploration"
RULE = ("random chains of 3-9 operations over a pool of quantities with directions up/down/none "
        "(up, down, flip, convert, index, transpose, mean, sum, +,-,*,/, negation, power, scalar) "
        "and up/down functions over data nodes, and validation to a declared direction; after each "
        "step the result is compared with a signed model and all other quantities must be "
        "unchanged; non-trivial = some step had to change a sign; distinct by the chain")
CASES = {"quick": 12000, "thorough": 60000}
REQUIRED = ["steps", "flips", "opposite_combined", "node_updown", "node_function", "largest", "blank_direction", "validated", "validated_flip_convert", "unsigned"]


def _same(ctx, pool, skip, what):
    for j, (a, q, s) in enumerate(pool):
        if j == skip:
            continue
        ctx.check(gen.snapshot(a) == s, "bystander-changed",
                  lambda: "{} changed another quantity: now {!r}".format(what, a))


def _clash(q, p):
    return any(q.val.shape[q.dims.index(n)] != p.val.shape[p.dims.index(n)]
               for n in q.dims if n in p.dims)


def c_chain(ctx):
    rng = ctx.rng
    sz = gen.sizes(rng, 1, 3)
    group = rng.choice(gen.GROUPS[:8])
    pool = []
    for _ in range(3):
        a, q = gen.quantity(rng, sz, gen.dims(rng, sz, 0, 2), rng.choice(group), "any",
                            positive=rng.choice([None, "up", "down", "down", "up"]))
        pool.append((a, q, gen.snapshot(a)))
    trace = []
    flips = 0
    for _ in range(rng.randint(3, 9)):
        i = rng.randrange(len(pool))
        a, q, s = pool[i]
        op = rng.choice(["up", "down", "flip", "convert", "index", "transpose", "mean", "sum",
                         "+", "-", "*", "/", "neg", "pow", "scalar", "+", "-", "+", "reflected",
                         "i+", "i-", "i*", "mixed"])
        what = op
        sc = None
        if op in ("up", "down", "flip"):
            w = q.flip() if op == "flip" else q.directed(op)
            c = a.copy()
            r = getattr(c, op)()
            compare(ctx, c, w, "direction-" + op, "{} of {}".format(op, q.positive))
            flips += w.positive != q.positive and q.positive is not None
        elif op == "convert":
            u = rng.choice(group)
            if not q.units.is_convertible(Unit(u)):
                continue
            r, w = a.convert(u), q.convert(u)
            if u == str(q.units):
                r = r.copy()
        elif op == "index":
            idx = tuple(gen.rand_slice(rng, n, empty=False) if rng.random() < 0.7 else
                        rng.randint(-n, n - 1) for n in q.val.shape)
            if not any(isinstance(k, slice) for k in idx):
                idx = tuple(slice(None) for _ in idx)
            r, w = a[idx].copy(), q[idx]
        elif op == "transpose":
            d = list(q.dims)
            rng.shuffle(d)
            r, w = a.transpose(tuple(d)).copy(), q.transpose(tuple(d))
        elif op in ("mean", "sum"):
            if not q.dims:
                continue
            d = rng.choice(q.dims)
            r, w = getattr(a, op)(dimensions=[d]), reduce(op, q, (d,))
        elif op in ("+", "-", "*", "/"):
            j = rng.randrange(len(pool))
            b, p, _ = pool[j]
            if _clash(q, p):
                continue
            if op in "+-" and not q.units.is_convertible(p.units):
                continue
            if op == "/" and (np.abs(p.val) < 1e-3).any():
                continue
            w = binop(op, q, p)
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
            if op in "+-":
                pc = p.convert(q.units)
                sc = float(np.max(np.abs(q.val)) + np.max(np.abs(pc.val)))
            if q.positive and p.positive and q.positive != p.positive:
                ctx.count("opposite_combined")
                flips += 1
            what = "{}{}{}".format(q.positive, op, p.positive)
        elif op in ("i+", "i-", "i*"):
            j = rng.randrange(len(pool))
            b, p, _ = pool[j]
            if _clash(q, p):
                continue
            if op in ("i+", "i-") and not q.units.is_convertible(p.units):
                continue
            if not set(p.dims) <= set(q.dims) or j == i:
                continue
            w = binop(op[1], q, p)
            r = a.copy()
            if op == "i+":
                r += b
            elif op == "i-":
                r -= b
            else:
                r *= b
            if op != "i*":
                pc = p.convert(q.units)
                sc = float(np.max(np.abs(q.val)) + np.max(np.abs(pc.val)))
            flips += bool(q.positive and p.positive and q.positive != p.positive)
            what = "{}{}{}".format(q.positive, op, p.positive)
        elif op == "mixed":
            # an expression that uses the same operand twice, with opposite direction between
            j = rng.randrange(len(pool))
            b, p, _ = pool[j]
            if _clash(q, p):
                continue
            if not q.units.is_convertible(p.units):
                continue
            r = (a + b) + (a - b)
            w = binop("+", binop("+", q, p), binop("-", q, p))
            pc = p.convert(q.units)
            sc = 4 * float(np.max(np.abs(q.val)) + np.max(np.abs(pc.val)))
            flips += bool(q.positive and p.positive and q.positive != p.positive)
        elif op == "neg":
            r = -a
            w = Q(-q.val, q.mask, q.dims, q.units, q.positive)
        elif op == "pow":
            n = rng.choice([2, 3, 1, -1, 0, 4, -2, -3])
            if (np.abs(q.val) < 1e-3).any() or (np.abs(q.val) > 1e12).any():
                continue
            r, w = a ** n, power(q, n)
            what = "pow{}".format(n)
        else:
            k = rng.choice([-1, 2, 0.5])
            if op == "scalar":
                r, w = a * k, binop("*", q, const(k))
            else:
                r, w = k * a, binop("*", const(k), q)
        good = ~w.mask
        if good.any() and not (1e-80 < np.max(np.abs(w.val[good])) < 1e80):
            continue
        trace.append(what)
        compare(ctx, r, w, "chain-" + (op if op.isalpha() else "arith"),
                "after {} (directions {})".format(trace, [x[1].positive for x in pool]), scale=sc)
        _same(ctx, pool, None, what)
        ctx.count("steps")
        if len(pool) < 6 and w.val.size:
            pool.append((r, w, gen.snapshot(r)))
    ctx.count("flips", flips)
    if flips:
        ctx.nontrivial(trace, [p[1].positive for p in pool[:3]])
    ctx.sample("{} from directions {}".format(trace, [p[1].positive for p in pool[:3]]))


def c_nodes(ctx):
    """up()/down() in definitions: a node asked again and again gives the same answer"""
    from pyconform.flownodes import DataNode, EvalNode
    from pyconform.functions import find_function, find_operator

    rng = ctx.rng
    sz = gen.sizes(rng, 1, 3)
    dt = rng.choice(["f8", "f8", "f8", "f4", "i4", "i2", "i1", "u1", "u2", "u4", "u8"])
    a, q = gen.quantity(rng, sz, gen.dims(rng, sz, 1, rng.choice([2, 2, 4])), "m", "any", dtype=dt,
                        positive=rng.choice([None, "up", "down"]))
    if dt[0] == "u":
        ctx.count("unsigned")
    node, w, ops = DataNode(a), q, []
    src = node
    top = dt in ("u1", "u2", "u4") and rng.random() < 0.4
    if top:
        # values near the end of the range
        v = np.iinfo(dt).max - q.val.astype("i8") % 7
        a = type(a)(np.ma.array(v.astype(dt), mask=q.mask), name="top", units=q.units, dimensions=q.dims, positive=q.positive)
        q = Q(v.astype(float), q.mask, q.dims, q.units, q.positive)
        node, w = DataNode(a), q
        src = node
        ctx.count("largest")
        n = Q(-q.val, q.mask, q.dims, q.units, q.positive)
        compare(ctx, -a, n, "largest", "negated {} {}".format(dt, q.val.tolist()))
        z = Q(0 * q.val, q.mask, q.dims, q.units, q.positive)
        compare(ctx, (a - a) - a, binop("-", z, q), "largest", "subtracted {} {}".format(dt, q.val.tolist()))
        compare(ctx, a.copy().flip(), q.flip(), "largest", "turned over {} {}".format(dt, q.val.tolist()))

    def call(f, *args, **kwds):
        return EvalNode(f, find_function(f), node, *args, **kwds)

    for _ in range(1 if top else rng.randint(1, 4)):
        op = rng.choice(["up", "down", "neg", "minus", "limit"] if top else ["up", "down", "neg", "plus", "minus", "limit", "rmunits", "chunits", "chdims", "sqrt",
                         "mean", "sum", "min", "max"])
        if op in ("up", "down"):
            node, w = EvalNode(op, find_function(op), node), w.directed(op)
        elif op == "neg":
            node = EvalNode("-", find_operator("-", numargs=1), node)
            w = Q(-w.val, w.mask, w.dims, w.units, w.positive)
        elif op in ("plus", "minus"):
            if w.dims != q.dims or w.units != q.units:
                continue
            if op == "minus":
                node = EvalNode("-", find_operator("-", numargs=2), src, node)
                w = binop("-", q, w)
            else:
                node = EvalNode("+", find_operator("+", numargs=2), node, src)
                w = binop("+", w, q)
        else:
            # the functions leave the direction of the data alone
            v, dims, units = w.val, w.dims, w.units
            if op == "limit":
                node, v = call(op, above=20.5), np.where(v > 20.5, 20.5, v)
            elif op == "sqrt":
                node = call("rmunits")
                node = call("limit", below=0)
                node, v, units = call("sqrt"), np.sqrt(np.where(v < 0, 0.0, v)), Unit(1)
            elif op == "rmunits":
                node, units = call(op), Unit(1)
            elif op == "chunits":
                node, units = call(op, units="km"), Unit("km")
            elif op == "chdims":
                dims = tuple("n" + d for d in w.dims[:1]) + w.dims[1:]
                if not dims or dims[0] in w.dims:
                    continue
                node = call(op, dims[0])
            else:
                ds = rng.sample(w.dims, rng.randint(1, len(w.dims))) if w.dims else []
                if not ds:
                    continue
                node, w = call(op, *ds), reduce(op, w, ds)
                v, dims, units = w.val, w.dims, w.units
            w = Q(v, w.mask, dims, units, w.positive)
            ctx.count("node_function")
        ops.append(op)
    for rep in range(3):
        compare(ctx, node[...] if rng.random() < 0.5 else node[:], w, "node",
                "request {} of {} on direction {}".format(rep, ops, q.positive))
        info = node[None]
        ctx.check(info.positive == w.positive, "node-info", "announced direction {} real {}".format(
            info.positive, w.positive))
        compare(ctx, src[:], q, "node-source", "source data after request {} of {}".format(rep, ops))
    ctx.count("node_updown")
    ctx.nontrivial("nodes", ops, q.positive, dt)


def c_validate(ctx):
    """Declared direction on output, with unit conversion and transposition in the same step"""
    from collections import OrderedDict
    from pyconform.datasets import DimensionDesc, VariableDesc
    from pyconform.flownodes import DataNode, ValidateNode

    rng = ctx.rng
    sz = gen.sizes(rng, 1, 3)
    group = rng.choice(gen.GROUPS[:8])
    u1, u2 = rng.choice(group), rng.choice(group)
    d = gen.dims(rng, sz, 1, 3)
    a, q = gen.quantity(rng, sz, d, u1, "any", positive=rng.choice([None, "up", "down"]),
                        dtype=rng.choice(["f8", "f8", "f8", "i4", "i2", "u1", "u4"]))
    out = list(d)
    rng.shuffle(out)
    want = q.convert(u2).transpose(tuple(out))
    declared = rng.choice([None, "up", "down"])
    attrs = OrderedDict([("units", u2)])
    if declared:
        # (the attribute is no matter of capitals)
        attrs["positive"] = rng.choice([declared, declared, declared, declared.upper(), declared.capitalize()])
        # data that carries no direction is written as it is
        if want.positive is not None:
            want = want.directed(declared)
    elif rng.random() < 0.4:
        # left blank, as in the tables of the MIPs
        attrs["positive"] = rng.choice(["", "", " "])
        ctx.count("blank_direction")
    vd = VariableDesc("v", datatype="double", dimensions=[DimensionDesc(n, sz[n]) for n in out],
                      attributes=attrs)
    node = ValidateNode(vd, DataNode(a))
    flip = bool(declared and q.positive and declared != q.positive)
    for rep in range(2):
        compare(ctx, node[:], want, "validate", "declared {} data {} {}->{} request {}".format(
            declared, q.positive, u1, u2, rep), positive=want.positive is not None)
    ctx.count("validated")
    if flip and u1 != u2:
        ctx.count("validated_flip_convert")
    if flip:
        ctx.nontrivial("val", u1, u2, d, tuple(out), declared)


KINDS = [c_chain] * 5 + [c_nodes, c_validate, c_validate]


def case(ctx):
    ctx.rng.choice(KINDS)(ctx)
