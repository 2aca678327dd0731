"""C08: arrays combine by dimension name, never by axis position"""
import numpy as np
from cf_units import Unit

from vf import gen
from vf.core import Skip
from vf.ref import Q, binop, compare, const

ID = "C08"
LEVEL = "exploration"
RULE = ("random pairs of arrays over up to 5 named dimensions (shared, disjoint, permuted, scalar), "
        "random masks; binary, reflected, in-place operators, transposition, item assignment and "
        "size conflicts; non-trivial = dimension tuples differ or an error was required; distinct "
        "by operation and dimension tuples and sizes")
CASES = {"quick": 40000, "thorough": 400000}
REQUIRED = ["binop", "inplace", "transpose", "setitem", "conflict", "inplace_conflict", "reflected"]
NAMES = ["x", "y", "z", "t", "u"]


def _two(rng, hi=4):
    sz = gen.sizes(rng, 1, 4, gen.five(rng, NAMES))
    d1, d2 = gen.dims(rng, sz, 0, hi), gen.dims(rng, sz, 0, 3)
    return sz, d1, d2


def c_binop(ctx):
    rng = ctx.rng
    sz, d1, d2 = _two(rng)
    op = rng.choice(["+", "-", "*", "/", "//"])
    a, qa = gen.quantity(rng, sz, d1, "m", "pos")
    b, qb = gen.quantity(rng, sz, d2, "m", "pos")
    got = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
           "//": lambda: a // b}[op]()
    compare(ctx, got, binop(op, qa, qb), "binop", "{} {} {}".format(d1, op, d2), scale=50.0)
    ctx.count("binop")
    if d1 != d2:
        ctx.nontrivial("b", op, d1, d2, [sz[n] for n in sorted(set(d1 + d2))])
    ctx.sample("{}{} {} {} -> {}".format(d1, a.shape, op, d2, got.dimensions))


def c_reflected(ctx):
    rng = ctx.rng
    sz, d1, _ = _two(rng)
    op = rng.choice(["+", "-", "*", "/", "//"])
    k = rng.choice([2, 3.5, -4.0, 100])
    a, qa = gen.quantity(rng, sz, d1, "1", "pos")
    if rng.random() < 0.5:
        got = {"+": lambda: k + a, "-": lambda: k - a, "*": lambda: k * a, "/": lambda: k / a,
               "//": lambda: k // a}[op]()
        want = binop(op, const(k), qa)
    else:
        got = {"+": lambda: a + k, "-": lambda: a - k, "*": lambda: a * k, "/": lambda: a / k,
               "//": lambda: a // k}[op]()
        want = binop(op, qa, const(k))
    compare(ctx, got, want, "reflected", "{} {} {}".format(k, op, d1), scale=50.0)
    ctx.count("reflected")
    ctx.nontrivial("r", op, k, d1)


def c_inplace(ctx):
    rng = ctx.rng
    sz, d1, _ = _two(rng)
    d2 = gen.dims(rng, sz, 0, len(d1), d1)
    op = rng.choice(["+", "-", "*", "/", "//"])
    extra = ()
    if rng.random() < 0.5:
        a, qa = gen.quantity(rng, sz, d1, "m", "pos")
        b, qb = gen.quantity(rng, sz, d2, "m", "pos")
        want = binop(op, qa, qb)
    else:
        k = rng.choice([2, 0.5, 3.0])
        a, qa = gen.quantity(rng, sz, d1, "1", "pos")
        b, want = k, binop(op, qa, const(k))
    c = a
    if op == "+":
        c += b
    elif op == "-":
        c -= b
    elif op == "*":
        c *= b
    elif op == "/":
        c /= b
    else:
        c //= b
    ctx.check(c is a, "inplace-identity", "in-place operator returned another object")
    compare(ctx, a, want, "inplace", "{} {}= {}".format(d1, op, d2), scale=50.0)
    ctx.count("inplace")
    if d1 != d2:
        ctx.nontrivial("i", op, d1, d2, [sz[n] for n in d1])


def c_transpose(ctx):
    rng = ctx.rng
    sz, d1, _ = _two(rng, 5)
    a, qa = gen.quantity(rng, sz, d1, "m", "any", positive=rng.choice([None, "up"]))
    d2 = list(d1)
    rng.shuffle(d2)
    how = rng.choice(["names", "tuple", "axes", "list"])
    if how == "names":
        if not d2:
            raise Skip
        b = a.transpose(*d2)
    elif how == "tuple":
        b = a.transpose(tuple(d2))
    elif how == "list":
        b = a.transpose(list(d2))
    else:
        if not d2:
            raise Skip
        b = a.transpose(*[d1.index(n) for n in d2])
    compare(ctx, b, qa.transpose(tuple(d2)), "transpose", "{} to {} ({})".format(d1, d2, how))
    ctx.count("transpose")
    if tuple(d2) != d1:
        ctx.nontrivial("t", d1, tuple(d2), how, a.shape)
    # there is no other order to transpose to
    bad = rng.choice([list(d1) + ["nope"], list(d1)[:-1] if d1 else ["nope"], [n + "_" for n in d1] or ["q"]])
    if len(bad) == 0:
        return
    try:
        c = a.transpose(tuple(bad))
    except (ValueError, TypeError):
        ctx.count("transpose_rejected")
    else:
        ctx.fail("transpose-accepts", "{} transposed to {} gave {}".format(d1, bad, c.dimensions))


def c_setitem(ctx):
    rng = ctx.rng
    sz, d1, _ = _two(rng, 3)
    if not d1:
        raise Skip
    a, qa = gen.quantity(rng, sz, d1, "m", "any")
    idx = tuple(gen.rand_slice(rng, sz[n], empty=False) for n in d1)
    sub = qa.val[idx].shape
    u = rng.choice(["m", "km"])
    byname = rng.random() < 0.4
    index = {n: i for n, i in zip(d1, idx) if rng.random() < 0.8} if byname else idx
    if byname:
        idx = tuple(index.get(n, slice(None)) for n in d1)
        sub = qa.val[idx].shape
    d2 = list(d1)
    rng.shuffle(d2)
    ssz = dict(zip(d1, sub))
    b, qb = gen.quantity(rng, ssz, tuple(d2), u, "any")
    a[index] = b
    want = qa.copy()
    src = qb.convert("m").transpose(d1)
    want.val[idx] = src.val
    want.mask[idx] = src.mask
    compare(ctx, a, want, "setitem", "{}[{}] = {} {}".format(d1, index, d2, u))
    ctx.count("setitem")
    ctx.nontrivial("s", d1, tuple(d2), u, str(index))


def c_conflict(ctx):
    rng = ctx.rng
    sz, d1, d2 = _two(rng)
    common = [n for n in d1 if n in d2]
    if not common:
        raise Skip
    n = rng.choice(common)
    a, qa = gen.quantity(rng, sz, d1, "m", "pos")
    sz2 = dict(sz)
    sz2[n] = rng.choice([s for s in range(1, 6) if s != sz[n]])
    b, qb = gen.quantity(rng, sz2, d2, "m", "pos")
    sa, sb = gen.snapshot(a), gen.snapshot(b)
    op = rng.choice(["+", "-", "*", "/", "//", "+=", "*="])
    try:
        if op == "+=":
            c = a
            c += b
        elif op == "*=":
            c = a
            c *= b
        else:
            c = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                 "//": lambda: a // b}[op]()
    except ValueError:
        pass
    else:
        ctx.fail("conflict-accepted", "{}{} {} {}{} gave {}".format(
            d1, qa.val.shape, op, d2, qb.val.shape, c.dimensions))
    ctx.check(gen.snapshot(a) == sa and gen.snapshot(b) == sb, "conflict-mutates",
              "a rejected combination changed an operand")
    ctx.count("conflict")
    ctx.nontrivial("c", op, d1, d2, n, sz[n], sz2[n])


def c_inplace_conflict(ctx):
    rng = ctx.rng
    names = gen.five(rng, NAMES)
    sz = gen.sizes(rng, 2, 4, names)
    d1 = gen.dims(rng, sz, 0, 3)
    new = rng.choice([n for n in names if n not in d1])
    d2 = list(gen.dims(rng, sz, 0, len(d1), d1)) + [new]
    rng.shuffle(d2)
    a, qa = gen.quantity(rng, sz, d1, "m", "pos")
    b, qb = gen.quantity(rng, sz, tuple(d2), "m", "pos")
    op = rng.choice("+-*/")
    sa, sb = gen.snapshot(a), gen.snapshot(b)
    try:
        c = a
        if op == "+":
            c += b
        elif op == "-":
            c -= b
        elif op == "*":
            c *= b
        else:
            c /= b
    except ValueError:
        pass
    else:
        ctx.fail("inplace-enlarges", "{} {}= {} gave {}".format(d1, op, d2, c.dimensions))
    ctx.check(gen.snapshot(a) == sa and gen.snapshot(b) == sb, "inplace-conflict-mutates",
              "a rejected in-place operation changed an operand")
    ctx.count("inplace_conflict")
    ctx.nontrivial("ic", op, d1, tuple(d2))


KINDS = [c_binop] * 5 + [c_reflected] + [c_inplace] * 2 + [c_transpose] * 2 + [c_setitem] * 3 + [
    c_conflict, c_conflict, c_inplace_conflict]


def case(ctx):
    ctx.rng.choice(KINDS)(ctx)
