"""C24: calculus kernels are exact on their class and independent of axis"""
import numpy as np

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "numerical monitor: returned arrays against closed forms, the defining spline equations and a plain loop"
RULE = ("random strictly monotone non-uniform grids (3 to 30 points, rising and falling), data of one to four "
        "dimensions along every axis, floating and integer; polynomials with known derivatives and integrals, the "
        "natural spline's equations at every knot, linearity, all axis permutations; distinct by kernel, sizes and axis")
CASES = {"quick": 9000, "thorough": 60000}
REQUIRED = ["deriv", "deriv_polynomial", "deriv_default", "spl_init", "spl_interp", "spl_knots", "spl_outside",
            "int_tabulated", "int_linear", "falling", "rising", "integers", "two_points", "three_points",
            "linearity", "axis_moved", "others_permuted"]


def _grid(rng, n, falling):
    x = np.cumsum([rng.uniform(0.3, 2.0) for _ in range(n)]) + rng.uniform(-20, 20)
    return x[::-1].copy() if falling else x


def _close(a, b, scale, tol=1e-9):
    return np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol * (scale + np.abs(b)))


def _deriv1(x, y):
    """Derivative of the parabola through each point and its neighbours"""
    n = len(x)
    out = []
    for i in range(n):
        j = min(max(i, 1), n - 2)
        s = 0.0
        for k in (j - 1, j, j + 1):
            p, q = [m for m in (j - 1, j, j + 1) if m != k]
            s += y[k] * ((x[i] - x[p]) + (x[i] - x[q])) / ((x[k] - x[p]) * (x[k] - x[q]))
        out.append(s)
    return np.array(out)


def natural(x, y):
    """Second derivatives of the natural cubic spline, from its linear equations"""
    n = len(x)
    a, r = np.eye(n), np.zeros(n)
    for i in range(1, n - 1):
        h0, h1 = x[i] - x[i - 1], x[i + 1] - x[i]
        a[i, i - 1], a[i, i], a[i, i + 1] = h0, 2 * (h0 + h1), h1
        r[i] = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0)
    return np.linalg.solve(a, r)


def spline(x, y, m, t):
    """Value of the cubic spline at one point"""
    n = len(x)
    up = x[-1] > x[0]
    k = 0
    while k < n - 2 and (t >= x[k + 1] if up else t <= x[k + 1]):
        k += 1
    h = x[k + 1] - x[k]
    a, b = x[k + 1] - t, t - x[k]
    return (m[k] * a ** 3 + m[k + 1] * b ** 3) / (6 * h) + (y[k] / h - m[k] * h / 6) * a + (y[k + 1] / h - m[k + 1] * h / 6) * b


def integral(x, y):
    """Five-point Newton-Cotes rule on the spline through the points"""
    m = natural(x, y)
    n = -(-(len(x) - 1) // 4) * 4
    lo, hi = min(x), max(x)
    h = (hi - lo) / n
    f = [spline(x, y, m, lo + i * h) for i in range(n + 1)]
    return sum(2 * h / 45 * (7 * f[i] + 32 * f[i + 1] + 12 * f[i + 2] + 32 * f[i + 3] + 7 * f[i + 4])
               for i in range(0, n, 4))


def along(f, y, axis):
    """Apply to every line of an array along an axis"""
    return np.apply_along_axis(f, axis, np.asarray(y, float))


def case(ctx):
    from pyconform.modules import idl

    rng = ctx.rng
    kernel = rng.choice(["deriv", "deriv", "spl_init", "spl_interp", "int_tabulated"])
    ctx.count(kernel)
    n = rng.choice([3, 3, 4, 5, 6, 9, 17, 30])
    if kernel != "deriv" and rng.random() < 0.1:
        n = 2
        ctx.count("two_points")
    if n == 3:
        ctx.count("three_points")
    falling = rng.random() < 0.4
    ctx.count("falling" if falling else "rising")
    x = _grid(rng, n, falling)
    ndim = rng.choice([1, 2, 2, 3, 4])
    axis = rng.randrange(ndim)
    shape = [rng.choice([1, 2, 3, 4]) for _ in range(ndim)]
    shape[axis] = n
    r = ctx.np_rng
    ints = rng.random() < 0.2
    if ints:
        ctx.count("integers")
        y = r.randint(-9, 10, size=shape)
        if rng.random() < 0.5:
            x = np.cumsum([rng.randint(1, 4) for _ in range(n)])[::-1 if falling else 1].copy()
    else:
        y = r.uniform(-5, 5, size=shape)
    x_was, y_was = x.copy(), y.copy()
    t = None
    lo, hi = float(x.min()), float(x.max())
    if kernel == "spl_interp":
        t = np.array(sorted(rng.uniform(lo, hi) for _ in range(rng.choice([1, 4, 7]))))
        if rng.random() < 0.4:
            t = np.concatenate([t, x.astype(float)])
            ctx.count("spl_knots")
        if rng.random() < 0.3:
            t = np.append(t, [lo - rng.uniform(0, 1), hi + rng.uniform(0, 1)])
            ctx.count("spl_outside")
        if rng.random() < 0.3:
            rng.shuffle(t)

    def run(yy, ax):
        if kernel == "deriv":
            return idl.deriv(x, yy, axis=ax)
        if kernel == "spl_init":
            return idl.spl_init(x, yy, axis=ax)
        if kernel == "spl_interp":
            return idl.spl_interp(x, yy, idl.spl_init(x, yy, axis=ax), t, axis=ax)
        return idl.int_tabulated(x, yy, axis=ax)

    def ref(line):
        xf = x.astype(float)
        if kernel == "deriv":
            return _deriv1(xf, line)
        if kernel == "spl_init":
            return natural(xf, line)
        if kernel == "spl_interp":
            m = natural(xf, line)
            return np.array([spline(xf, line, m, q) for q in t])
        return integral(xf, line)

    what = "{} n={} axis={} shape={} {} ints={}".format(kernel, n, axis, shape, "falling" if falling else "rising", ints)
    ctx.sample(what)
    with np.errstate(all="ignore"):
        got = run(y, axis)
        ctx.check((x == x_was).all() and (y == y_was).all(), "inputs-changed", lambda: what)
        exp = along(ref, y, axis)
        scale = 1.0 + np.abs(exp).max()
        ctx.check(got.shape == exp.shape, "shape", lambda: "{} for {}: {}".format(got.shape, exp.shape, what))
        ctx.check(_close(got, exp, scale), "values", lambda: "x={} y={}\n{}\nexpected {}: {}".format(
            x.tolist(), y.tolist(), got, exp, what))
        ctx.count("elements", int(got.size))
        ctx.nontrivial(kernel, n, axis, tuple(shape), falling, ints)
        # linear in the data
        z = r.uniform(-5, 5, size=shape)
        c1, c2 = rng.uniform(-3, 3), rng.uniform(-3, 3)
        if not ints:
            comb = run(c1 * y + c2 * z, axis)
            ctx.check(_close(comb, c1 * got + c2 * run(z, axis), scale * 10), "linearity", lambda: what)
            ctx.count("linearity")
        # the same along any other axis, and with the other axes in another order
        other = rng.randrange(ndim)
        moved = run(np.moveaxis(y, axis, other), other)
        back = moved
        if kernel == "int_tabulated":
            ctx.check(moved.shape == got.shape and _close(moved, got, scale, 1e-12), "axis", lambda: what)
        else:
            back = np.moveaxis(moved, other, axis)
            ctx.check(back.shape == got.shape and _close(back, got, scale, 1e-12), "axis",
                      lambda: "axis {} instead: {}".format(other, what))
        ctx.count("axis_moved")
        if ndim > 2:
            perm = list(range(ndim))
            rest = [k for k in perm if k != axis]
            rng.shuffle(rest)
            perm = rest[:axis] + [axis] + rest[axis:]
            got2 = run(np.transpose(y, perm), axis)
            want = np.transpose(got, perm) if kernel != "int_tabulated" else \
                np.transpose(got, [k - (k > axis) for k in perm if k != axis])
            ctx.check(got2.shape == want.shape and _close(got2, want, scale, 1e-12), "axis",
                      lambda: "other axes {}: {}".format(perm, what))
            ctx.count("others_permuted")
        # closed forms
        xf = x.astype(float)
        line = [1] * ndim
        line[axis] = n
        co = [r.uniform(-2, 2, size=[1 if k == axis else s for k, s in enumerate(shape)]) for _ in range(3)]
        xx = xf.reshape(line)
        if kernel == "deriv":
            p = co[0] + co[1] * xx + co[2] * xx ** 2
            d = idl.deriv(x, p, axis=axis)
            ctx.check(_close(d, co[1] + 2 * co[2] * xx, 1 + np.abs(p).max(), 1e-8), "polynomial", lambda: what)
            ctx.count("deriv_polynomial")
            if rng.random() < 0.3:
                d = idl.deriv(y, axis=axis)
                e = along(lambda q: _deriv1(np.arange(n, dtype=float), q), y, axis)
                ctx.check(d.shape == e.shape and _close(d, e, 10.0), "default-grid", lambda: what)
                ctx.count("deriv_default")
        elif kernel == "int_tabulated":
            p = co[0] + co[1] * xx
            s = idl.int_tabulated(x, p, axis=axis)
            e = np.squeeze(co[0] * (hi - lo) + co[1] * (hi ** 2 - lo ** 2) / 2, axis=axis)
            ctx.check(np.shape(s) == np.shape(e) and _close(s, e, 1 + np.abs(p).max() * (hi - lo), 1e-10), "polynomial", lambda: what)
            ctx.count("int_linear")
        elif kernel == "spl_init":
            p = co[0] + co[1] * xx
            ctx.check(_close(idl.spl_init(x, p, axis=axis), 0 * p, 1 + np.abs(p).max(), 1e-8), "polynomial", lambda: what)
        elif kernel == "spl_interp" and ints is False:
            yk = idl.spl_interp(x, y, idl.spl_init(x, y, axis=axis), xf, axis=axis)
            ctx.check(_close(yk, y, 10.0, 1e-11), "knots", lambda: what)
