"""C06: arithmetic and conversion are consistent with physical units"""
import numpy as np
from cf_units import Unit

from vf import gen
from vf.ref import Q, binop, compare, const, power, same_units
from vf.core import Skip

ID = "C06"
LEVEL = "exploration"
RULE = ("random quantities (rank 0-3, random masks, f8/f4/i4) in random units; binary, in-place, "
        "reflected and power operators, conversions, re-expressed operands in random expression "
        "trees, and illegal unit combinations; non-trivial = units of the operands differ, or an "
        "error was required; distinct by operator, unit pair, ranks and dtypes")
CASES = {"quick": 24000, "thorough": 150000}
REQUIRED = ["binop", "inplace", "reexpress", "roundtrip", "reject", "pow", "invert", "intunits", "integers"]


def _pick_units(rng, other=None):
    if other is not None:
        return rng.choice(next(g for g in gen.GROUPS if other in g))
    return rng.choice(rng.choice(gen.GROUPS))


def _pair(rng, dtypes=("f8", "f8", "f4", "i4")):
    sz = gen.sizes(rng)
    u1 = _pick_units(rng)
    u2 = _pick_units(rng, u1)
    d1, d2 = rng.choice(dtypes), rng.choice(dtypes)
    a, qa = gen.quantity(rng, sz, gen.dims(rng, sz), u1, "pos", dtype=d1)
    b, qb = gen.quantity(rng, sz, gen.dims(rng, sz), u2, "pos", dtype=d2)
    return sz, (u1, u2, d1, d2), (a, qa), (b, qb)


def _tol(*dts):
    return 2e-5 if "f4" in dts else 1e-9


def c_binop(ctx):
    rng = ctx.rng
    op = rng.choice("+-*/")
    sz, (u1, u2, d1, d2), (a, qa), (b, qb) = _pair(rng)
    if op in "*/" and rng.random() < 0.5:
        u2 = _pick_units(rng)
        b, qb = gen.quantity(rng, sz, b.dimensions, u2, "pos", dtype=d2)
    want = binop(op, qa, qb)
    got = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()
    sc = float(np.max(np.abs(qa.val)) + np.max(np.abs(qb.convert(qa.units).val))) if op in "+-" else None
    compare(ctx, got, want, "binop" if "i4" not in (d1, d2) else "binop-integer",
            "{} [{}] {} {} [{}]".format(u1, d1, op, u2, d2), rtol=_tol(d1, d2), scale=sc)
    ctx.count("binop")
    if "i4" in (d1, d2) and u1 != u2:
        ctx.count("intunits")
    if u1 != u2:
        ctx.nontrivial("bin", op, u1, u2, d1, d2, a.ndim, b.ndim)
    ctx.sample("{} {} {} {} dims {} {}".format(u1, op, u2, (d1, d2), a.dimensions, b.dimensions))


def c_inplace(ctx):
    rng = ctx.rng
    op = rng.choice("+-*/")
    sz, (u1, u2, d1, d2), (a, qa), (b, qb) = _pair(rng, ("f8",))
    sub = gen.dims(rng, sz, 0, len(a.dimensions), a.dimensions)
    if op in "*/" and rng.random() < 0.5:
        u2 = _pick_units(rng)
    b, qb = gen.quantity(rng, sz, sub, u2, "pos")
    if rng.random() < 0.15:
        return _whole(ctx, op, sz, a.dimensions, sub, u1, u2)
    want = binop(op, qa, qb)
    c = a
    if op == "+":
        c += b
    elif op == "-":
        c -= b
    elif op == "*":
        c *= b
    else:
        c /= b
    ctx.check(c is a, "inplace-identity", "in-place {} returned another object".format(op))
    sc = float(np.max(np.abs(qa.val)) + np.max(np.abs(qb.convert(qa.units).val))) if op in "+-" else None
    compare(ctx, a, want, "inplace", "{} {}= {}".format(u1, op, u2), scale=sc)
    ctx.count("inplace")
    if u1 != u2:
        ctx.nontrivial("inp", op, u1, u2, a.ndim, b.ndim)


def _whole(ctx, op, sz, da, db, u1, u2):
    """Whole numbers in place: the exact result or none at all"""
    rng = ctx.rng
    a, qa = gen.quantity(rng, sz, da, u1, "pos", dtype=rng.choice(["i4", "i8", "i2"]))
    b, qb = gen.quantity(rng, sz, db, u2, "pos", dtype=rng.choice(["f8", "f8", "f4", "i4"]))
    want = binop(op, qa, qb)
    sc = float(np.max(np.abs(qa.val)) + np.max(np.abs(qb.convert(qa.units).val))) if op in "+-" else None
    try:
        if op == "+":
            a += b
        elif op == "-":
            a -= b
        elif op == "*":
            a *= b
        else:
            a /= b
    except TypeError:
        ctx.count("whole_refused")
        return
    compare(ctx, a, want, "inplace-whole", "{} {}= {}".format(u1, op, u2), scale=sc, rtol=1e-5)
    ctx.count("whole")


def c_scalar(ctx):
    rng = ctx.rng
    sz = gen.sizes(rng)
    op = rng.choice("+-*/")
    refl = rng.random() < 0.5
    u = rng.choice(["1", "%", "1e-3"]) if op in "+-" else _pick_units(rng)
    k = rng.choice([2, 3, 0.25, 7.5, -1.5])
    a, qa = gen.quantity(rng, sz, gen.dims(rng, sz), u, "pos")
    want = binop(op, const(k), qa) if refl else binop(op, qa, const(k))
    if refl:
        got = {"+": lambda: k + a, "-": lambda: k - a, "*": lambda: k * a, "/": lambda: k / a}[op]()
    else:
        got = {"+": lambda: a + k, "-": lambda: a - k, "*": lambda: a * k, "/": lambda: a / k}[op]()
    compare(ctx, got, want, "scalar", "{} {} {} {}".format(u, op, k, refl), scale=200.0 * 100)
    ctx.count("scalar")
    ctx.nontrivial("sc", op, u, k, refl, a.ndim)


def _expr(rng, sz, group, depth):
    """Random tree of a given unit group: ('leaf', dims) | (op, l, r)"""
    if depth == 0 or rng.random() < 0.25:
        return ("leaf", gen.dims(rng, sz, 0, 2), group)
    r = rng.random()
    if r < 0.6:
        return (rng.choice("+-"), _expr(rng, sz, group, depth - 1), _expr(rng, sz, group, depth - 1))
    # multiplied or divided by something dimensionless or by another group and back
    return (rng.choice("*/"), _expr(rng, sz, group, depth - 1),
            _expr(rng, sz, ["1", "%", "1e-3"], depth - 1))


def _leaves(t):
    return [t] if t[0] == "leaf" else _leaves(t[1]) + _leaves(t[2])


def _eval(t, leaves, it):
    if t[0] == "leaf":
        return leaves[next(it)]
    l = _eval(t[1], leaves, it)
    r = _eval(t[2], leaves, it)
    return {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "/": lambda: l / r}[t[0]]()


def c_reexpress(ctx):
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    sz = gen.sizes(rng, 1, 3)
    group = rng.choice(gen.GROUPS)
    t = _expr(rng, sz, group, rng.randint(1, 3))
    lv = _leaves(t)
    one, two, scale = [], [], 1.0
    changed = 0
    for _, d, g in lv:
        u1, u2 = rng.choice(g), rng.choice(g)
        a, qa = gen.quantity(rng, sz, d, u1, "pos")
        qb = qa.convert(u2)
        b = PhysArray(np.ma.MaskedArray(qb.val.copy(), mask=qb.mask.copy()), name="b",
                      units=Unit(u2), dimensions=d)
        one.append(a)
        two.append(b)
        changed += u1 != u2
    r1 = _eval(t, one, iter(range(len(lv))))
    r2 = _eval(t, two, iter(range(len(lv))))
    base = Unit(group[0])
    ctx.check(r1.units.is_convertible(base) and r2.units.is_convertible(base), "reexpress-units",
              lambda: "result units {} / {} of tree {}".format(r1.units, r2.units, t))
    ctx.check(set(r1.dimensions) == set(r2.dimensions), "reexpress-dims", "dimensions differ")
    m1 = np.ma.getmaskarray(np.ma.asarray(r1).view(np.ma.MaskedArray))
    m2 = np.ma.getmaskarray(np.ma.asarray(r2).view(np.ma.MaskedArray))
    # a denominator near zero makes the comparison ill-conditioned: look at it in absolute terms
    if "/" not in repr(t):
        ctx.check(np.array_equal(m1, m2), "reexpress-mask",
                  lambda: "missing points differ {} {}".format(m1.tolist(), m2.tolist()))
    v1 = np.array([r1.units.convert(float(x), base) for x in np.ma.getdata(r1).view(np.ndarray).ravel()])
    v2 = np.array([r2.units.convert(float(x), base) for x in np.ma.getdata(r2).view(np.ndarray).ravel()])
    good = ~(m1.ravel() | m2.ravel())
    if "/" in repr(t) and "'-'" in repr(t):
        ctx.count("reexpress_ill_conditioned")
        return
    sc = np.max(np.abs(v1[good])) if good.any() else 1.0
    # cancellation bound: sum of magnitudes of same-group leaves times factors
    lim = _magnitude(t, one, iter(range(len(lv))), base)
    ok = np.abs(v1[good] - v2[good]) <= 1e-9 * max(lim, sc)
    ctx.check(bool(np.all(ok)), "reexpress-values",
              lambda: "tree {} units {} vs {}: {} vs {}".format(
                  t, [str(x.units) for x in one], [str(x.units) for x in two], v1.tolist(), v2.tolist()))
    ctx.count("reexpress")
    if changed:
        ctx.nontrivial("re", repr(t), [str(x.units) for x in one], [str(x.units) for x in two])


def _magnitude(t, leaves, it, base):
    """Upper bound for the magnitude of intermediate results, in base units"""
    if t[0] == "leaf":
        a = leaves[next(it)]
        g = Unit(t[2][0])
        return float(a.units.convert(float(np.max(np.abs(np.ma.getdata(a).view(np.ndarray)))), g))
    l = _magnitude(t[1], leaves, it, base)
    if t[0] in "+-":
        return l + _magnitude(t[2], leaves, it, base)
    if t[0] == "*":
        return l * max(1.0, _magnitude(t[2], leaves, it, base))
    _magnitude(t[2], leaves, it, base)
    return l * 1e6


def c_integers(ctx):
    """Integers of any width and size, converted and assigned"""
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    dt = rng.choice(["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"])
    info = np.iinfo(dt)
    top = min(int(info.max), 2 ** 53)
    n = rng.randint(1, 4)
    vals = [rng.choice([rng.randint(max(int(info.min), -2 ** 53), top), top, top - 1, rng.randint(0, 100)]) for _ in range(n)]
    u1, u2 = rng.choice([("m", "km"), ("km", "m"), ("s", "min"), ("kg", "g"), ("Pa", "hPa"), ("1", "%"), ("K", "degC")])
    m = gen.mask(rng, (n,))
    a = PhysArray(np.ma.array(np.array(vals, dt), mask=m), units=u1, dimensions=("x",), positive=rng.choice([None, "up"]))
    b = a.convert(u2)
    f = {"m": (0.001, 0), "km": (1000, 0), "s": (1 / 60.0, 0), "kg": (1000, 0), "Pa": (0.01, 0), "1": (100, 0), "K": (1, -273.15)}[u1]
    want = np.array([float(v) * f[0] + f[1] for v in vals])
    ctx.check(b.units == Unit(u2) and b.dimensions == ("x",) and b.positive == a.positive, "integers-meta", lambda: repr(b))
    ctx.check(np.array_equal(np.ma.getmaskarray(b), m) and np.allclose(np.ma.getdata(b)[~m], want[~m], rtol=1e-12, atol=1e-9), "integers-convert",
              lambda: "{} {} [{}] to {}: {} expected {}".format(vals, u1, dt, u2, np.ma.getdata(b).tolist(), want.tolist()))
    # assigning converts to the units of the receiver
    c = PhysArray(np.zeros((n, 2)), units=u2, dimensions=("x", "y"), name="c")
    k = rng.randrange(n)
    i = rng.randrange(2)
    if rng.random() < 0.5:
        c[:, i:i + 1] = PhysArray(np.array(vals, "f8").reshape(1, n), units=u1, dimensions=("y", "x"))
        got = np.ma.getdata(c)[:, i]
        ctx.check(np.allclose(got, want, rtol=1e-12, atol=1e-9), "assign", lambda: "assigned {} {} to {}: {} expected {}".format(vals, u1, u2, got, want))
    else:
        d = PhysArray(np.zeros(()), units=u2, dimensions=(), name="d")
        d[...] = PhysArray(float(vals[k]), units=u1)
        ctx.check(np.allclose(float(d), want[k], rtol=1e-12, atol=1e-9), "assign", lambda: "assigned {} {} to {}: {!r}".format(vals[k], u1, u2, d))
    ctx.count("integers")
    ctx.nontrivial("int", dt, u1, n, bool(m.any()))


def c_roundtrip(ctx):
    rng = ctx.rng
    sz = gen.sizes(rng)
    if rng.random() < 0.3:
        u1, u2 = rng.choice(gen.OFFSET), rng.choice(gen.OFFSET)
    elif rng.random() < 0.3:
        cal = rng.choice(["standard", "noleap", "360_day", "365_day", "all_leap", "julian"])
        mk = lambda: Unit("{} since {:04d}-{:02d}-{:02d}".format(
            rng.choice(["days", "hours", "minutes", "seconds"]), rng.randint(1600, 2100),
            rng.randint(1, 12), rng.randint(1, 28)), calendar=cal)
        u1, u2 = mk(), mk()
    else:
        u1 = _pick_units(rng)
        u2 = _pick_units(rng, u1)
    pos = rng.choice([None, None, "up", "down"])
    dt = rng.choice(["f8", "f8", "f4"]) if not isinstance(u1, Unit) else "f8"
    a, qa = gen.quantity(rng, sz, gen.dims(rng, sz), u1, "any", positive=pos, dtype=dt)
    snap = gen.snapshot(a)
    b = a.convert(u2)
    there = qa.convert(u2)
    sc = float(np.max(np.abs(there.val))) + 500.0 * (dt == "f4" or u1 in gen.OFFSET)
    tol = _tol(dt)
    if isinstance(u1, Unit):
        tol = 1e-6
    compare(ctx, b, there, "convert", "convert {} to {} ({})".format(u1, u2, dt), rtol=tol, scale=sc)
    c = b.convert(u1)
    want = qa
    scb = float(np.max(np.abs(qa.val))) + 500.0
    if isinstance(u1, Unit):
        # one part in 1e12 of the largest instant
        back = 1e-6 * max(1.0, float(np.max(np.abs(there.convert(u1).val))))
        scb, tol = max(scb, 1e6), 1e-6
    compare(ctx, c, want, "roundtrip", "convert {} to {} and back ({})".format(u1, u2, dt),
            rtol=tol, scale=scb)
    ctx.check(gen.snapshot(a) == snap, "convert-mutates", "conversion changed its operand")
    ctx.count("roundtrip")
    if str(u1) != str(u2):
        ctx.nontrivial("rt", str(u1), str(u2), pos, dt, a.ndim)


def c_pow(ctx):
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    sz = gen.sizes(rng)
    u = _pick_units(rng)
    n = rng.choice([-2, -1, 0, 1, 2, 3])
    a, qa = gen.quantity(rng, sz, gen.dims(rng, sz), u, "pos", positive=rng.choice([None, "up", "down"]))
    e = rng.choice(["plain", "percent", "one"])
    ex = n if e == "plain" else (PhysArray(100.0 * n, units="%") if e == "percent" else PhysArray(float(n)))
    want = power(qa, n)
    if rng.random() < 0.3:
        got = a
        got **= ex
        what = "inplace"
    else:
        got = a ** ex
        what = "pow"
    compare(ctx, got, want, what, "{} ** {} ({})".format(u, n, e))
    ctx.count("pow")
    ctx.nontrivial("pow", u, n, e, what, a.ndim)


def c_invert(ctx):
    rng = ctx.rng
    sz = gen.sizes(rng)
    u = _pick_units(rng)
    a, qa = gen.quantity(rng, sz, gen.dims(rng, sz), u, "pos")
    got = a.invert()
    want = Q(1.0 / qa.val, qa.mask, qa.dims, qa.units.invert())
    compare(ctx, got, want, "invert", "1/[{}]".format(u))
    ctx.count("invert")
    ctx.nontrivial("inv", u, a.ndim)


def _rejects(ctx, fn, key, what, watch):
    before = [gen.snapshot_visible(w) for w in watch]
    try:
        r = fn()
    except (ValueError, TypeError, NotImplementedError):
        after = [gen.snapshot_visible(w) for w in watch]
        for b, a in zip(before, after):
            # names may have been extended with the alignment made; nothing else
            ctx.check(b[:4] + b[5:] == a[:4] + a[5:], key + "-partial",
                      "{}: rejected, but an operand changed".format(what))
        ctx.count("reject")
        return
    ctx.fail(key, "{} was accepted: {!r}".format(what, r))


def c_reject(ctx):
    from pyconform.physarray import PhysArray

    rng = ctx.rng
    sz = gen.sizes(rng)
    kind = rng.choice(["add", "iadd", "convert", "exp-units", "exp-dims", "calendar", "mod", "set",
                       "exp-positive", "scalar"])
    g1, g2 = rng.sample(gen.GROUPS[:9], 2)
    u1, u2 = rng.choice(g1), rng.choice(g2)
    d = gen.dims(rng, sz, 1)
    a, _ = gen.quantity(rng, sz, d, u1, "pos")
    b, _ = gen.quantity(rng, sz, d, u2, "pos")
    if kind == "add":
        f = rng.choice([lambda: a + b, lambda: a - b])
        _rejects(ctx, f, "reject-add", "{} +- {}".format(u1, u2), [a, b])
    elif kind == "iadd":
        def f():
            c = a
            if rng.random() < 0.5:
                c += b
            else:
                c -= b
            return c
        _rejects(ctx, f, "reject-iadd", "{} +-= {}".format(u1, u2), [a, b])
    elif kind == "convert":
        _rejects(ctx, lambda: a.convert(u2), "reject-convert", "convert {} to {}".format(u1, u2), [a])
    elif kind == "exp-units":
        if g2 == ["1", "%", "1e-3"]:
            raise Skip
        e = PhysArray(2.0, units=u2)
        _rejects(ctx, lambda: a ** e, "reject-exp-units", "exponent in {}".format(u2), [a, e])
    elif kind == "exp-dims":
        e, _ = gen.quantity(rng, sz, gen.dims(rng, sz, 1), "1", "pos")
        _rejects(ctx, lambda: a ** e, "reject-exp-dims", "exponent with dims {}".format(e.dimensions), [a, e])
    elif kind == "exp-positive":
        e = PhysArray(2.0, positive="up")
        _rejects(ctx, lambda: a ** e, "reject-exp-positive", "exponent with direction", [a, e])
    elif kind == "calendar":
        c1, c2 = rng.sample(["standard", "noleap", "360_day", "all_leap", "julian"], 2)
        t1 = PhysArray(np.array([1.0, 2.0]), units=Unit("days since 2000-01-01", calendar=c1), dimensions=("t",))
        t2 = PhysArray(np.array([1.0, 2.0]), units=Unit("days since 2000-01-01", calendar=c2), dimensions=("t",))
        f = rng.choice([lambda: t1.convert(t2.units), lambda: t1 + t2, lambda: t1 - t2])
        _rejects(ctx, f, "reject-calendar", "{} with {}".format(c1, c2), [t1, t2])
    elif kind == "mod":
        f = rng.choice([lambda: a % b, lambda: 3 % a, lambda: a % 2])
        _rejects(ctx, f, "reject-mod", "modulus", [a, b])
    elif kind == "set":
        def f():
            a[...] = b
        _rejects(ctx, f, "reject-assign", "assign {} into {}".format(u2, u1), [a, b])
    else:
        if g1 == ["1", "%", "1e-3"]:
            raise Skip
        f = rng.choice([lambda: a + 1.5, lambda: 2 - a, lambda: a - 3])
        _rejects(ctx, f, "reject-scalar", "number with {}".format(u1), [a])
    ctx.nontrivial("rej", kind, u1, u2)


KINDS = [c_binop] * 5 + [c_inplace] * 2 + [c_scalar, c_integers, c_reexpress, c_reexpress, c_roundtrip,
                                           c_roundtrip, c_pow, c_invert, c_reject, c_reject]


def case(ctx):
    ctx.rng.choice(KINDS)(ctx)
