"""
End-to-end workloads: random input files, random output specifications with a known
meaning, a runner for the real pipeline, and an independent reader and comparer.
"""
import copy
import os
import warnings
from collections import OrderedDict

import numpy as np
from cf_units import Unit

from vf import gen, ref
from vf.core import Skip
from vf.ref import Q, close, same_units

NCTYPE = {"f4": "float", "f8": "double", "i4": "int", "i2": "short"}
IN_DIMS = ["x", "y", "z", "t"]
OUT_DIMS = {"x": "lon", "y": "lat", "z": "lev", "t": "time"}
#: other output names: names that contain one another, and names that other input dimensions have
OUT_OTHER = [
    {"x": "la", "y": "lat", "z": "lat_b", "t": "at"},
    {"x": "y", "y": "z", "z": "t", "t": "x"},
    {"x": "y", "y": "x", "z": "t", "t": "z"},
    {"x": "xx", "y": "xy", "z": "z", "t": "tx"},
]
AXIS = {"x": "X", "y": "Y", "z": "Z", "t": "T"}


# ---------------------------------------------------------------- expressions
def text(e):
    """Definition string of an expression"""
    k = e[0]
    if k == "num":
        return repr(e[1])
    if k == "var":
        return e[1]
    if k == "idx":
        def one(i):
            if isinstance(i, slice):
                s = ":".join("" if p is None else str(p) for p in (i.start, i.stop, i.step))
                return ":" if s == "::" else s
            return str(i)
        return "{}[{}]".format(e[1], ",".join(one(i) for i in e[2]))
    if k == "neg":
        return "(-{})".format(text(e[1]))
    if k == "bin" and len(e) == 5:
        return "{}({},other={})".format({"+": "vfplus", "*": "vftimes"}[e[1]], text(e[2]), text(e[3]))
    if k == "bin":
        return "({}{}{})".format(text(e[2]), e[1], text(e[3]))
    if k == "pow":
        return "({}**{})".format(text(e[1]), e[2])
    args = [text(a) for a in e[2]] + ["'{}'".format(d) for d in e[3]]
    args += ["{}={}".format(n, repr(v)) for n, v in sorted(e[4].items())]
    return "{}({})".format(e[1], ",".join(args))


def walk(e):
    yield e
    k = e[0]
    if k in ("neg", "pow"):
        yield from walk(e[1])
    elif k == "bin":
        yield from walk(e[2])
        yield from walk(e[3])
    elif k == "call":
        for a in e[2]:
            yield from walk(a)


def variables(e):
    return {x[1] for x in walk(e) if x[0] in ("var", "idx")}


def summed(e):
    return {d for x in walk(e) if x[0] == "call" and x[1] in ("mean", "sum", "min", "max") for d in x[3]}


class M:
    """A reference quantity with a magnitude that bounds its rounding error"""

    def __init__(self, q, mag):
        self.q = q
        self.mag = mag  # Q of the same dims, non-negative


def _mag(q):
    return Q(np.abs(q.val), q.mask, q.dims, q.units)


def conv(m, units):
    u = units if isinstance(units, Unit) else Unit(units)
    q = m.q.convert(u)
    if u == m.q.units:
        return m
    f0 = float(m.q.units.convert(0.0, u))
    f1 = float(m.q.units.convert(1.0, u)) - f0
    return M(q, Q(abs(f1) * m.mag.val + abs(f0), q.mask, q.dims, u))


def _bin(op, a, b):
    q = ref.binop(op, a.q, b.q)
    dims = q.dims
    if op in "+-":
        b = conv(b, a.q.units)
    am, _ = a.mag.aligned(dims)
    bm, _ = b.mag.aligned(dims)
    bv, _ = b.q.aligned(dims)
    if op == "/":
        # Next to a zero the quotient is not determined by the definition
        good = ~b.q.mask
        if (np.abs(b.q.val[good]) <= 1e-6 * b.mag.val[good]).any():
            raise Skip()
    with np.errstate(all="ignore"):
        if op in "+-":
            mag = am + bm
        elif op == "*":
            mag = am * bm
        else:
            mag = (am / np.abs(bv)) * (bm / np.abs(bv))
    return M(q, Q(mag, q.mask, dims, q.units))


def evaluate(e, inputs):
    """Reference value of an expression; inputs: name -> Q"""
    k = e[0]
    if k == "num":
        q = ref.const(e[1])
        return M(q, _mag(q))
    if k == "var":
        q = inputs[e[1]]
        return M(q, _mag(q))
    if k == "idx":
        q = inputs[e[1]]
        full = tuple(e[2]) + (slice(None),) * (len(q.dims) - len(e[2]))
        q = q[full]
        return M(q, _mag(q))
    if k == "neg":
        a = evaluate(e[1], inputs)
        q = a.q.copy()
        q.val = -q.val
        return M(q, a.mag)
    if k == "pow":
        a = evaluate(e[1], inputs)
        q = ref.power(a.q, e[2])
        with np.errstate(all="ignore"):
            mag = np.abs(a.mag.val) ** e[2] * (1 + abs(e[2]))
        return M(q, Q(mag, q.mask, q.dims, q.units))
    if k == "bin":
        return _bin(e[1], evaluate(e[2], inputs), evaluate(e[3], inputs))
    f = e[1]
    a = evaluate(e[2][0], inputs)
    if f in ("mean", "sum", "min", "max"):
        rd = tuple(d for d in e[3] if d in a.q.dims)
        q = ref.reduce(f, a.q, rd)
        m = ref.reduce("max" if f in ("min", "max") else f,
                       Q(a.mag.val, a.q.mask, a.q.dims, a.q.units), rd)
        return M(q, m)
    if f in ("up", "down"):
        return M(a.q.directed(f), a.mag)
    if f == "limit":
        q = a.q.copy()
        lo, hi = e[4].get("below"), e[4].get("above")
        if hi is not None:
            q.val = np.where(q.val > hi, hi, q.val)
        if lo is not None:
            q.val = np.where(q.val < lo, lo, q.val)
        return M(q, a.mag)
    if f == "chunits":
        q = a.q.copy()
        q.units = Unit(e[4]["units"])
        return M(q, a.mag)
    if f == "rmunits":
        q = a.q.copy()
        q.units = Unit(1)
        return M(q, a.mag)
    if f == "chdims":
        dims = tuple(e[3]) + a.q.dims[len(e[3]):]
        return M(Q(a.q.val, a.q.mask, dims, a.q.units, a.q.positive), Q(a.mag.val, a.q.mask, dims, a.q.units))
    if f == "sqrt":
        q = a.q.copy()
        q.val = np.sqrt(q.val)
        q.units = a.q.units.root(2)
        return M(q, Q(np.sqrt(a.mag.val), q.mask, q.dims, q.units))
    raise RuntimeError("harness: " + f)


def gen_expr(rng, inputs, depth, group=None, dims=None, reduce_dims=None, offsets=True):
    """
    A random expression whose units are in `group` (a list of units) if given.

    inputs: name -> Q.  Only variables with dims inside `dims` are used.
    reduce_dims: dimension names reductions may use (none by default)
    """
    def pool():
        names = []
        for n, q in inputs.items():
            if dims is not None and not set(q.dims) <= set(dims):
                continue
            if group is not None and str(q.units) not in group:
                continue
            names.append(n)
        return names

    names = pool()
    r = rng.random()
    if depth <= 0 or r < 0.12:
        if not names:
            return None
        return leaf(rng, inputs, rng.choice(sorted(names)))

    def again(g=group, dd=1):
        return gen_expr(rng, inputs, depth - dd, g, dims, reduce_dims, offsets)

    if r < 0.42:
        a = again()
        if a is None:
            return None
        ua = str(evaluate(a, inputs).q.units)
        g = next((g for g in gen.GROUPS if ua in g), None)
        if g is None:
            return a
        b = constant(rng, g) if rng.random() < 0.15 else again(g)
        return a if b is None else ("bin", rng.choice("+-"), a, b)
    if r < 0.62:
        k = number(rng)
        a = again()
        if a is None:
            return None
        c = rng.random()
        if c < 0.4:
            return ("bin", "*", k, a)
        if c < 0.7:
            return ("bin", "*", a, k)
        if c < 0.8 and group is None:
            return ("bin", "/", k, a)
        return ("bin", "/", a, k)
    if r < 0.72 and group is None:
        a, b = again(), again()
        if a is None or b is None:
            return a or b
        return ("bin", rng.choice(["*", "*", "/"]), a, b)
    if r < 0.75:
        a = again()
        return None if a is None else ("neg", a)
    if r < 0.76 and names:
        return renamed(rng, inputs, rng.choice(sorted(names)))
    if r < 0.80 and group is None:
        a = again()
        if a is None:
            return None
        if rng.random() < 0.4:
            return ("call", "sqrt", (("pow", a, 2),), (), {})
        return ("pow", a, rng.choice([2, 3, 1]))
    a = again()
    if a is None:
        return None
    ra = evaluate(a, inputs).q
    if r < 0.90 and reduce_dims:
        here = [d for d in ra.dims if d in reduce_dims]
        if here:
            ds = rng.sample(here, rng.randint(1, len(here)))
            return ("call", rng.choice(["mean", "mean", "sum", "min", "max"]), (a,), tuple(ds), {})
    if r < 0.94:
        return ("call", rng.choice(["up", "down"]), (a,), (), {})
    if r < 0.97:
        good = ra.val[~ra.mask]
        if good.size and np.isfinite(good).all():
            lo, hi = float(np.percentile(good, 20)), float(np.percentile(good, 80))
            lo, hi = float("%.3g" % lo), float("%.3g" % hi)
            if lo > 0 and hi > lo:
                # (one limit may be a whole number and the other not)
                z = rng.random()
                if z < 0.2 and lo < 1e6:
                    lo = int(lo)
                elif z < 0.4 and hi < 1e6:
                    hi = int(hi) + 1
                return ("call", "limit", (a,), (), rng.choice([{"below": lo}, {"above": hi},
                                                               {"below": lo, "above": hi}]))
    if r < 0.985 and group is None:
        return ("call", "rmunits", (a,), (), {})
    if group is None:
        return ("call", "chunits", (a,), (), {"units": rng.choice(["m", "kg", "K", "Pa"])})
    return a


def number(rng):
    """A plain number, or a function of one"""
    k = ("num", rng.choice([2, 3, 10, 0.5, 2.5, 100.0, 1]))
    if rng.random() < 0.85:
        return k
    return rng.choice([("call", "sqrt", (k,), (), {}), ("call", "rmunits", (k,), (), {}), ("neg", k),
                       ("call", "limit", (k,), (), rng.choice([{"above": 2.5}, {"below": 2.5}, {"below": 1, "above": 4}, {"below": 1, "above": 3.5},
                                                               {"below": 2.5, "above": 4}])),
                       ("bin", "+", k, ("num", 4)), ("bin", "*", k, ("num", 1.5))])


def constant(rng, group):
    """A number with units"""
    return ("call", "chunits", (("num", rng.choice([2, 3, 10, 0.5, 2.5, 100.0, 1])),), (), {"units": rng.choice(group)})


def renamed(rng, inputs, name):
    """A variable with its dimensions of one size exchanged (or named as they are)"""
    q = inputs[name]
    new = list(q.dims)
    i, j = rng.randrange(len(new) or 1), rng.randrange(len(new) or 1)
    if new and q.val.shape[i] == q.val.shape[j]:
        new[i], new[j] = new[j], new[i]
    elif new and rng.random() < 0.5:
        new = new[:j]
    return ("call", "chdims", (("var", name),), tuple(new), {})


def leaf(rng, inputs, name):
    q = inputs[name]
    if q.dims and rng.random() < 0.25:
        idx = []
        for n in q.val.shape:
            r = rng.random()
            if r < 0.6:
                idx.append(slice(None))
            elif r < 0.8:
                idx.append(slice(None, None, -1))
            elif n == 0:
                idx.append(slice(None))
            else:
                idx.append(rng.randint(0, n - 1) if rng.random() < 0.7 else -rng.randint(1, n))
        if rng.random() < 0.3:
            while idx and idx[-1] == slice(None):
                idx.pop()
        if idx:
            return ("idx", name, tuple(idx))
    return ("var", name)


def _parts(e):
    k = e[0]
    if k in ("num", "var", "idx"):
        return ()
    if k == "bin":
        return e[2:4]
    return e[2] if k == "call" else e[1:2]


def keyworded(rng, e, prob):
    """The same expression with some sums and products written as a function of a keyword that is an expression"""
    k = e[0]
    if k == "neg":
        return (k, keyworded(rng, e[1], prob))
    if k == "pow":
        return (k, keyworded(rng, e[1], prob), e[2])
    if k == "bin":
        a, b = keyworded(rng, e[2], prob), keyworded(rng, e[3], prob)
        return (k, e[1], a, b) + (("kw",) if e[1] in "+*" and rng.random() < prob else ())
    if k == "call":
        return (k, e[1], tuple(keyworded(rng, x, prob) for x in e[2])) + e[3:]
    return e


#: functions are found while their classes are alive
ALIVE = []


def plus_function():
    """The user functions of keyworded()"""
    from pyconform.functions import Function, is_constant

    if ALIVE:
        return

    class VfPlus(Function):
        key = "vfplus"

        def __init__(self, data, other=0):
            super().__init__(data, other=other)

        def __getitem__(self, index):
            a, b = self.arguments[0], self.keywords["other"]
            return self.both(a if is_constant(a) else a[index], b if is_constant(b) else b[index])

        def both(self, a, b):
            return a + b

    class VfTimes(VfPlus):
        key = "vftimes"

        def both(self, a, b):
            return a * b

    ALIVE.extend([VfPlus, VfTimes])


def narrow(e, inp):
    """Types of integers that an expression uses"""
    if e[0] in ("var", "idx"):
        v = inp.vars.get(e[1], {"dtype": "given"})
        return {v["dtype"]} if v["dtype"][0] in "iu" and not v.get("pack") else set()
    return set().union(*(narrow(x, inp) for x in _parts(e)))


def beyond_int64(e, inp, data):
    """Whether some part of an expression over integers may not fit in 64 bits"""
    if any(beyond_int64(x, inp, data) for x in _parts(e)):
        return True
    if e[0] in ("num", "var", "idx") or not narrow(e, inp):
        return False
    return float(np.max(np.abs(evaluate(e, data).mag.val), initial=0.0)) > 1e18


# ---------------------------------------------------------------- input datasets
class Inputs:
    """Random input dataset: sizes, unlimited dims, variables, files"""

    def __init__(self, ctx, rng, nvars=None, ndims=None, lo=1, hi=5, masked=True, chars=0.0, dtypes=("f8", "f4", "f8", "i4", "i4"),
                 units=None, packed=True, positives=(None, None, None, "up", "down"), long=0.0, empty=0.0):
        nd = ndims or rng.randint(1, 4)
        self.names = IN_DIMS[:nd] if rng.random() < 0.5 else rng.sample(IN_DIMS, nd)
        self.size = {d: rng.randint(lo, hi) for d in self.names}
        self.long = rng.random() < long
        if self.long:  # one dimension of many points (and at most two with several)
            some = rng.sample(self.names, min(2, nd))
            self.size = {d: self.size[d] if d in some else 1 for d in self.names}
            if rng.random() < 0.4 and nd > 1:
                self.size.update((d, rng.randint(11, 15)) for d in some)
            else:
                self.size[some[0]] = rng.choice([rng.randint(11, 30), rng.randint(31, 130),
                                                 rng.randint(31, 130)])
            ctx.count("long_dimensions")
        self.unlimited = rng.choice(self.names) if rng.random() < 0.6 else None
        self.empty = bool(self.unlimited) and rng.random() < empty
        if self.empty:  # no records yet
            self.size[self.unlimited] = 0
            ctx.count("empty_dimensions")
        self.vars = OrderedDict()  # name -> dict(q, dtype, attrs)
        self.coords = {}
        for d in self.names:
            self._coord(rng, d)
        n = nvars or rng.randint(1, 5)
        self.format = rng.choice(["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"])
        for i in range(n):
            k = rng.randint(0 if rng.random() < 0.15 else 1, len(self.names))
            dims = tuple(rng.sample(self.names, k))
            dt = rng.choice(dtypes)
            u = rng.choice(rng.choice(gen.GROUPS)) if units is None else rng.choice(units)
            shape = tuple(self.size[d] for d in dims)
            v = gen.values(rng, shape, "int" if dt[0] == "i" else "pos").astype(dt)
            m = gen.mask(rng, shape) if masked else np.zeros(shape, bool)
            pos = rng.choice(positives)
            attrs = {"units": u}
            if units is None and u == "1" and rng.random() < 0.7:
                attrs = rng.choice([{}, {"units": "bananas"}])
            if pos:
                attrs["positive"] = pos
            pack = None
            if packed and rng.random() < 0.12:
                dt = "i2"
                pack = (rng.choice([0.5, 0.01, 2.0]), rng.choice([0.0, 5.0]))
                v = np.rint(gen.values(rng, shape, "int")) * pack[0] + pack[1]
            if pack is None and dt == "i4" and rng.random() < 0.5:  # other widths, and numbers whose products need more
                dt, top = rng.choice([("i2", 3000), ("i2", 30000), ("i1", 120), ("i4", 100000)])
                if self.format == "NETCDF4" and rng.random() < 0.6:
                    dt, top = rng.choice([("u1", 250), ("u2", 60000), ("u4", 100000)])
                    ctx.count("unsigned_inputs")
                v = np.array([float(rng.randint(1, top)) for _ in range(v.size)], "f8").reshape(shape)
            self.vars["v%d" % i] = {"pack": pack, "q": Q(v, m, dims, u, pos), "dtype": dt, "attrs": attrs,
                                    "fill": rng.random() < 0.7 or dt[1] == "1"}
        self.chars = {}
        if rng.random() < chars:
            k = rng.choice([1, 1, 1, 2])
            dims = tuple(rng.sample(self.names, min(k, len(self.names))))
            shape = tuple(self.size[d] for d in dims)
            L = rng.randint(1, 7)
            words = np.array(["".join(rng.choice("abcXYZ 019_") for _ in range(rng.randint(0, L))).rstrip()
                              for _ in range(int(np.prod(shape)))], dtype="S%d" % L).reshape(shape)
            self.chars["c0"] = (dims, words, L)
        self.files = []

    def _coord(self, rng, d, dtype=None):
        n = self.size[d]
        step = [rng.choice([0.5, 1.0, 1.5, 2.0]) for _ in range(n)]
        v = np.cumsum(step) + rng.randint(-20, 20)
        if rng.random() < 0.3:
            v = v[::-1].copy()
        u = {"x": "degrees_east", "y": "degrees_north", "z": "hPa", "t": "days since 2001-01-01"}[d]
        attrs = {"units": u}
        if d == "t":
            attrs["calendar"] = "noleap"
            un = Unit(u, calendar="noleap")
        else:
            un = Unit(u)
        self.coords[d] = d
        self.vars[d] = {"q": Q(v, False, (d,), un), "dtype": dtype or "f8", "attrs": attrs, "fill": False}

    def inputs(self, data_only=True):
        return OrderedDict((n, v["q"]) for n, v in self.vars.items()
                           if not (data_only and n in self.coords))

    def write(self, rng, folder, layout=None):
        """Write the files; returns their names"""
        import netCDF4

        layout = layout or rng.choice(["one", "each", "groups", "coords_everywhere"])
        names = list(self.vars)
        if layout == "one":
            groups = [names]
        elif layout == "each":
            groups = [[n] for n in names]
        elif layout == "coords_everywhere":
            data = [n for n in names if n not in self.coords] or names
            groups = []
            for n in data:
                g = [d for d in self.vars[n]["q"].dims if d in self.vars and d != n] + [n]
                groups.append(g)
            rest = [n for n in names if not any(n in g for g in groups)]
            if rest:
                groups.append(rest)
        else:
            groups = [[] for _ in range(rng.randint(1, 3))]
            for n in names:
                rng.choice(groups).append(n)
            groups = [g for g in groups if g]
        out = []
        for i, g in enumerate(groups):
            path = os.path.join(folder, "in%02d.nc" % i)
            with netCDF4.Dataset(path, "w", format=self.format) as f:
                used = []
                for n in g:
                    for d in self.vars[n]["q"].dims:
                        if d not in used:
                            used.append(d)
                for d in used:
                    f.createDimension(d, None if d == self.unlimited else self.size[d])
                f.title = "input %d" % i
                for n in g:
                    self.put(f, n)
            out.append(path)
        if self.chars:
            path = os.path.join(folder, "text.nc")
            with netCDF4.Dataset(path, "w", format=self.format) as f:
                for n, (dims, words, L) in self.chars.items():
                    if self.unlimited in dims and dims[0] != self.unlimited and self.format != "NETCDF4":
                        order = [self.unlimited] + [d for d in dims if d != self.unlimited]
                        words = words.transpose([dims.index(d) for d in order])
                        dims = tuple(order)
                        self.chars[n] = (dims, words, L)
                    for d in dims:
                        if d not in f.dimensions:
                            f.createDimension(d, None if d == self.unlimited else self.size[d])
                    f.createDimension("slen", L)
                    var = f.createVariable(n, "S1", dims + ("slen",))
                    flat = words.ravel()
                    var[...] = np.array([[w[i:i + 1] for i in range(L)] for w in flat],
                                        dtype="S1").reshape(words.shape + (L,))
            out.append(path)
        self.files = out
        return out

    def put(self, f, n):
        v = self.vars[n]
        q = v["q"]
        dims = list(q.dims)
        # NetCDF-3 and classic files want the unlimited dimension first
        if self.unlimited in dims and dims[0] != self.unlimited and self.format != "NETCDF4":
            dims.remove(self.unlimited)
            dims.insert(0, self.unlimited)
            v["q"] = q = q.transpose(tuple(dims))
        fill = None
        if v["fill"]:
            fill = -99 if v["dtype"] == "i1" else {"f": -1e30, "i": -999, "u": 0}[v["dtype"][0]]
        var = f.createVariable(n, v["dtype"], tuple(dims), fill_value=fill)
        var.set_auto_mask(True)
        if v.get("pack"):
            var.scale_factor, var.add_offset = v["pack"]
        for a, x in v["attrs"].items():
            var.setncattr(a, x)
        data = np.ma.MaskedArray(q.val if v.get("pack") else q.val.astype(v["dtype"]), mask=q.mask)
        if data.ndim == 0:
            var[...] = data if q.mask else data.data
        else:
            var[...] = data


def fix_order(inp):
    """Make variables start with the unlimited dimension where the format asks for it"""
    if inp.unlimited is None or inp.format == "NETCDF4":
        return
    for v in inp.vars.values():
        dims = list(v["q"].dims)
        if inp.unlimited in dims and dims[0] != inp.unlimited:
            dims.remove(inp.unlimited)
            dims.insert(0, inp.unlimited)
            v["q"] = v["q"].transpose(tuple(dims))


# ---------------------------------------------------------------- output specification
class Spec:
    """A random output specification with its expected content"""

    def __init__(self, inp, rng, folder, nout=None, depth=3, reduce=True, rename=None, exprs=None,
                 formats=("NETCDF4_CLASSIC", "NETCDF4", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET"),
                 subdirs=True, literals=0.3, directions=False, chars=0.0, out_units=True, coord_types=("double", "float"),
                 history=False, transpose=True, ints=True, keywords=0.0):
        self.inp = inp
        self.ints = ints
        self.folder = folder
        if rename is None:
            rename = rng.random() < 0.7
        out = OUT_DIMS if rng.random() < 0.6 else rng.choice(OUT_OTHER)
        self.dimmap = {d: (out[d] if rename else d) for d in inp.names}
        self.d = OrderedDict()
        self.want = {}  # variable -> dict(m=M, dtype, dims, units)
        self.files = {}  # filename -> list of variables
        self.expr = {}
        self.literal = None
        self.given = OrderedDict()  # data given in the specification that definitions use
        if not rename and rng.random() < literals:
            self.add_given(rng)
        data = self.inputs()
        n = nout or rng.randint(1, 4)
        for i in range(n):
            name = "out%d" % i
            e = exprs[i] if exprs else None
            for _ in range(20):
                if e is not None:
                    break
                e = gen_expr(rng, data, rng.randint(0, depth),
                             reduce_dims=inp.names if reduce and rng.random() < 0.5 else None)
                if e is not None and beyond_int64(e, self.inp, data):
                    e = None
            if e is not None and keywords and (self.given or rng.random() < keywords):
                plus_function()
                if self.given and rng.random() < 0.5:
                    e = self._with_given(rng, e, data)
                e = keyworded(rng, e, 0.7)
            if e is None:
                e = leaf(rng, data, rng.choice(sorted(data)))
            self.add(rng, name, e, out_units=out_units, subdirs=subdirs, formats=formats, transpose=transpose)
        self.flipped = set()
        self.directions = directions
        order = list(inp.names)
        rng.shuffle(order)
        for d in order:
            self.add_coord(rng, d, coord_types)
        for w in self.want.values():
            self._reorder(w)
        if rng.random() < literals:
            self.add_literal(rng)
            if "q" in self.want.get(self.literal, {}):
                self._reorder(self.want[self.literal])
        for name, q in self.given.items():
            # (only variables that are in some file can be used)
            if not any(set(q.dims) <= set(self.want[m]["dims"]) for m in self.files.values()):
                fn = os.path.join(self.folder, name + ".nc")
                self.d[name]["file"] = OrderedDict([("filename", fn)])
                self.files[fn] = name
        if rng.random() < chars:
            self.add_chars(rng)
        if rng.random() < 0.5:
            items = list(self.d.items())
            rng.shuffle(items)
            self.d = OrderedDict(items)

    def _with_given(self, rng, e, data):
        """The expression times given data"""
        f = ("bin", "*", e, ("var", rng.choice(sorted(self.given))), "kw")
        return e if beyond_int64(f, self.inp, data) else f

    def add_coord(self, rng, d, types=("double", "float")):
        od = self.dimmap[d]
        dt = rng.choice(types)
        name = od if rng.random() < 0.8 else od + "_coord"
        attrs = OrderedDict([("axis", AXIS[d])])
        units = None
        iu = self.inp.vars[d]["attrs"]["units"]
        if rng.random() < 0.8:
            attrs["units"] = rng.choice([iu, "?"]) if d != "z" else rng.choice(["hPa", "Pa", "?"])
            if d == "t" and attrs["units"] != "?" and rng.random() < 0.5:
                attrs["calendar"] = "noleap"
        self.d[name] = OrderedDict([("attributes", attrs), ("datatype", dt), ("dimensions", [od]),
                                    ("definition", d)])
        q = self.inp.vars[d]["q"]
        if self.directions and rng.random() < 0.6:
            attrs["direction"] = rng.choice(["increasing", "decreasing"])
            up = q.val.size < 2 or q.val[1] > q.val[0]
            if up != (attrs["direction"] == "increasing"):
                self.flipped.add(od)
        m = M(q, _mag(q))
        if attrs.get("units") == "Pa":
            m = conv(m, "Pa")
        self.want[name] = self._w(m, {"double": "f8", "float": "f4"}[dt], [od])
        self.expr[name] = ("var", d)
        return name

    def _reorder(self, w):
        """Apply the declared coordinate directions to an expected variable"""
        idx = tuple(slice(None, None, -1) if d in self.flipped else slice(None) for d in w["dims"])
        if "chars" in w:
            w["chars"] = w["chars"][idx]
        else:
            w["q"], w["mag"] = w["q"][idx], w["mag"][idx]

    def add_chars(self, rng):
        """Text variables: given literally, or read from an input variable c0"""
        if rng.random() < 0.5:
            dims = [d for d in self.inp.names if d != self.inp.unlimited]
            if dims:
                d = rng.choice(dims)
                words = ["".join(rng.choice("abcXYZ 019_") for _ in range(rng.randint(0, 6))).rstrip()
                         for _ in range(self.inp.size[d])]
                if max(len(w) for w in words) == 0:
                    words[0] = "ab"
                L = max(len(w) for w in words)
                self._put_chars("label", [self.dimmap[d], "labellen"], words, words, L)
        if "c0" in self.inp.chars:
            dims, words, L = self.inp.chars["c0"]
            self._put_chars("names", [self.dimmap[d] for d in dims] + ["strlen"], "c0", words, L)

    def _put_chars(self, name, odims, definition, words, L):
        shape = np.shape(words) + (L,)
        flat = np.array(words, dtype="S").ravel()
        ch = np.array([[w[i:i + 1] for i in range(L)] for w in flat], dtype="S1").reshape(shape)
        self.d[name] = OrderedDict([("attributes", OrderedDict([("long_name", "text")])), ("datatype", "char"),
                                    ("dimensions", odims), ("definition", definition)])
        fn = os.path.join(self.folder, name + ".nc")
        self.d[name]["file"] = OrderedDict([("filename", fn)])
        self.files[fn] = name
        self.want[name] = {"chars": ch, "dims": tuple(odims), "dtype": "S1"}
        self._reorder(self.want[name])
        self.expr[name] = ("num", 0)

    def inputs(self, data_only=True):
        """All that definitions may use: the input variables and data given in the specification"""
        out = self.inp.inputs(data_only)
        out.update(self.given)
        return out

    def add_given(self, rng):
        """A variable whose data are given in the specification and used by definitions"""
        dims = [d for d in self.inp.names if d != self.inp.unlimited]
        if not dims:
            return
        dims = tuple(rng.sample(dims, rng.randint(1, min(2, len(dims)))))
        shape = tuple(self.inp.size[d] for d in dims)
        dt = rng.choice(["float", "double"])
        np_t = {"float": "f4", "double": "f8"}[dt]
        v = gen.values(rng, shape, "pos").astype(np_t)
        name = rng.choice(["weights", "sftlf"])
        u = rng.choice(["m", "1", "kg", "%"])
        self.d[name] = OrderedDict([("attributes", OrderedDict([("units", u)])), ("datatype", dt),
                                    ("dimensions", list(dims)), ("definition", v.tolist())])
        q = Q(v.astype("f8"), False, dims, u)
        self.want[name] = self._w(M(q, _mag(q)), np_t, dims)
        self.expr[name] = ("num", 0)
        self.given[name] = q

    def add_literal(self, rng):
        """A variable whose data are given in the specification"""
        dims = [d for d in self.inp.names if d != self.inp.unlimited]
        if not dims:
            return
        dims = tuple(rng.sample(dims, rng.randint(1, min(2, len(dims)))))
        odims = [self.dimmap[d] for d in dims]
        shape = tuple(self.inp.size[d] for d in dims)
        dt = rng.choice(["float", "double", "int", "short"])
        np_t = {"float": "f4", "double": "f8", "int": "i4", "short": "i2"}[dt]
        v = gen.values(rng, shape, "int" if np_t[0] == "i" else "any")
        v = v.astype(np_t).astype("f8")
        name = self.literal = rng.choice(["area", "flag"])
        attrs = OrderedDict([("long_name", "given")])
        if rng.random() < 0.5:
            attrs["units"] = rng.choice(["m", "1"])
        self.d[name] = OrderedDict([("attributes", attrs), ("datatype", dt), ("dimensions", odims),
                                    ("definition", v.astype(np_t).tolist())])
        q = Q(v, False, dims, "1")
        self.want[name] = self._w(M(q, _mag(q)), np_t, odims)
        self.expr[name] = ("num", 0)

    def _w(self, m, dtype, odims):
        inv = {v: k for k, v in self.dimmap.items()}
        idims = tuple(inv[d] for d in odims)
        return {"q": m.q.transpose(idims), "mag": m.mag.transpose(idims), "dtype": dtype, "dims": tuple(odims)}

    def add(self, rng, name, e, out_units=True, subdirs=True, transpose=True,
            formats=("NETCDF4_CLASSIC",), file=True):
        data = self.inputs(False)
        m = evaluate(e, data)
        attrs = OrderedDict()
        if rng.random() < 0.6:
            attrs["_FillValue"] = rng.choice([1e20, -9999.0])
        if out_units and rng.random() < 0.8:
            u = str(m.q.units)
            g = next((g for g in gen.GROUPS if u in g), None)
            if g is not None and rng.random() < 0.7:
                attrs["units"] = rng.choice(g)
                m = conv(m, attrs["units"])
            else:
                attrs["units"] = "?"
        if m.q.positive is not None and rng.random() < 0.7:
            attrs["positive"] = rng.choice(["up", "down"])
            m = M(m.q.directed(attrs["positive"]), m.mag)
        elif rng.random() < 0.05:
            attrs["positive"] = ""
        elif m.q.positive is None and rng.random() < 0.05:
            attrs["positive"] = rng.choice(["up", "down"])
        odims = [self.dimmap[d] for d in m.q.dims]
        if transpose and rng.random() < 0.6:
            rng.shuffle(odims)
        fmt = rng.choice(formats)
        if self.ints and "NETCDF4" in formats and rng.random() < 0.4 and self._int_types(e, m, "NETCDF4"):
            fmt = "NETCDF4"
        # NetCDF-3 and classic formats want the unlimited dimension first
        if self.inp.unlimited in m.q.dims and fmt.startswith("NETCDF3"):
            ud = self.dimmap[self.inp.unlimited]
            odims.remove(ud)
            odims.insert(0, ud)
        dt = rng.choice(["float", "double", "float"])
        it = self._int_types(e, m, fmt) if self.ints else []
        if it and rng.random() < 0.6:
            dt = rng.choice(it + it[-1:])
            if "_FillValue" in attrs:
                attrs["_FillValue"] = {"ushort": 65535, "uint": 2 ** 32 - 1}.get(dt, -9999)
        attrs["comment"] = "c " + name
        self.d[name] = OrderedDict([("attributes", attrs), ("datatype", dt), ("dimensions", odims),
                                    ("definition", text(e))])
        if file:
            sub = rng.choice(["", "", "d1/", "d1/d2/", "d3/"]) if subdirs else ""
            fn = os.path.join(self.folder, sub + name + ".nc")
            fd = OrderedDict([("filename", fn)])
            if fmt != "NETCDF4_CLASSIC" or rng.random() < 0.5:
                fd["format"] = fmt
            if rng.random() < 0.3:
                fd["deflate"] = rng.randint(0, 9)
            fd["attributes"] = OrderedDict([("variable", name)])
            self.d[name]["file"] = fd
            self.files[fn] = name
        self.want[name] = self._w(m, {"double": "f8", "float": "f4", "short": "i2", "int": "i4", "int64": "i8",
                                      "ushort": "u2", "uint": "u4"}[dt],
                                  odims)
        self.want[name]["ints"] = narrow(e, self.inp) if _parts(e) else set()
        self.expr[name] = e

    def _int_types(self, e, m, fmt):
        """Integer types that can hold a variable of integers"""
        if e[0] not in ("var", "idx") or e[1] in self.given or self.inp.vars[e[1]]["dtype"][0] not in "iu" \
                or self.inp.vars[e[1]].get("pack"):
            return []
        top = np.max(np.abs(m.q.val[~m.q.mask]), initial=0.0)
        out = [t for t, k in (("short", 3e4), ("int", 2e9), ("int64", 1e15))
               if top < k and (t != "int64" or fmt == "NETCDF4")]
        if self.inp.vars[e[1]]["dtype"][0] == "u" and fmt == "NETCDF4" and (m.q.val[~m.q.mask] >= 0).all() \
                and m.q.positive is None and str(m.q.units) == str(self.inp.vars[e[1]]["q"].units):
            out += [t for t, k in (("ushort", 65535), ("uint", 2 ** 32 - 1)) if top < k]
        return out

    def expected_vars(self, fn):
        """Variables a file has to hold"""
        main = self.files[fn]
        fd = set(self.want[main]["dims"])
        out = {main}
        for n, v in self.d.items():
            if "file" not in v and v["dimensions"] and set(v["dimensions"]) <= fd:
                out.add(n)
        return out

    def sumlike(self):
        """Output dimensions that may not be chunked"""
        s = set()
        for e in self.expr.values():
            s |= summed(e)
        return {self.dimmap[d] for d in s}

    def chunkable(self):
        used = set()  # dimensions of the variables in files
        for main in self.files.values():
            used |= set(self.want[main]["dims"])
        return sorted(used - self.sumlike())

    def dsdict(self):
        return copy.deepcopy(self.d)


# ---------------------------------------------------------------- running and judging
def build(files, dsdict):
    from pyconform.dataflow import DataFlow
    from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc

    return DataFlow(InputDatasetDesc(filenames=files), OutputDatasetDesc(dsdict=dsdict))


def run(files, dsdict, **kwds):
    """Run the real pipeline in this process, serially; returns the warnings raised"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        df = build(files, dsdict)
        kwds.setdefault("serial", True)
        df.execute(**kwds)
    return w


def listing(folder):
    out = []
    for base, _d, fs in os.walk(folder):
        out.extend(os.path.join(base, f) for f in fs)
    return sorted(out)


def read(path):
    """Independent description of a NetCDF file: names -> (dtype, dims, masked data, attributes)"""
    import netCDF4

    out = OrderedDict()
    with netCDF4.Dataset(path) as f:
        f.set_auto_maskandscale(True)
        for n, v in f.variables.items():
            v.set_auto_chartostring(False)
            data = v[...]
            out[n] = (v.dtype, v.dimensions, np.ma.asarray(data),
                      OrderedDict((a, v.getncattr(a)) for a in v.ncattrs()))
        g = OrderedDict((a, f.getncattr(a)) for a in f.ncattrs())
        d = OrderedDict((n, (len(x), x.isunlimited())) for n, x in f.dimensions.items())
        return {"vars": out, "attrs": g, "dims": d, "format": f.file_format}


def judge_values(ctx, spec, got, names, key, what):
    """Values, mask, dims and type of the named variables of one file against the reference"""
    for n in sorted(names):
        w = spec.want[n]
        dt, dims, data, attrs = got["vars"][n]
        ctx.check(dims == w["dims"], key + "-dims",
                  lambda: "{} {}: dimensions {} expected {}".format(what, n, dims, w["dims"]))
        ctx.check(dt == np.dtype(w["dtype"]), key + "-type",
                  lambda: "{} {}: type {} expected {}".format(what, n, dt, w["dtype"]))
        if "chars" in w:
            gc = np.ma.filled(data, b"")
            ctx.check(gc.shape == w["chars"].shape and bool(np.array_equal(gc, w["chars"])), key + "-text",
                      lambda: "{} {}: text {} expected {}".format(what, n, gc.tolist(), w["chars"].tolist()))
            ctx.count("text_compared", int(gc.size))
            continue
        q = w["q"]
        gm = np.ma.getmaskarray(data)
        ctx.check(gm.shape == q.val.shape, key + "-shape",
                  lambda: "{} {}: shape {} expected {}".format(what, n, gm.shape, q.val.shape))
        ctx.check(bool(np.array_equal(gm, q.mask)), key + "-mask",
                  lambda: "{} {} = {}: mask {} expected {}".format(
                      what, n, text(spec.expr[n]), gm.tolist(), q.mask.tolist()))
        good = ~q.mask
        if w["dtype"] == "f4" and good.any():
            big = np.abs(q.val[good])
            if not np.isfinite(big).all() or big.max() > 1e30 or (big[big > 0] < 1e-30).any():
                ctx.count("beyond_float_range")
                continue
        gv = np.ma.getdata(data)[good].astype("f8")
        wv = q.val[good]
        tol = (3e-6 if w["dtype"] == "f4" else 1e-9) * (w["mag"].val[good] + np.abs(wv))
        if w["dtype"][0] in "iu":  # to the nearest integer
            tol = 1e-6 * (1 + np.abs(wv)) + 0.5 * (np.abs(wv - np.rint(wv)) > 1e-9 * (1 + np.abs(wv)))
            ctx.count("integers_compared", int(gv.size))
            if (np.abs(wv - np.rint(wv)) > 1e-3).any():
                ctx.count("rounded")
        with np.errstate(all="ignore"):
            ok = (np.abs(gv - wv) <= tol) | (gv == wv)
        ctx.check(bool(np.all(ok)), key + "-values",
                  lambda: "{} {} = {} (dims {}): values {} expected {}".format(
                      what, n, text(spec.expr[n]), dims, np.ma.filled(data.astype("f8"), np.nan).tolist(),
                      np.where(q.mask, np.nan, q.val).tolist()))
        ctx.count("elements_compared", int(q.val.size))
        if w.get("ints", set()) & {"i1", "i2", "u1", "u2"} and good.any() and np.max(np.abs(wv)) > 32767:
            ctx.count("wider_than_inputs")
        ctx.count("missing_points_compared", int(q.mask.sum()))


def judge_files(ctx, spec, folder, key="flow", what="", expected=None):
    """The written files are exactly the expected ones with exactly the expected content"""
    files = sorted(spec.files) if expected is None else sorted(expected)
    have = listing(folder)
    ctx.check(have == files, key + "-files",
              lambda: "{}: files {} expected {}".format(what, have, files))
    for fn in files:
        got = read(fn)
        names = spec.expected_vars(fn)
        ctx.check(set(got["vars"]) == names, key + "-variables",
                  lambda: "{} {}: variables {} expected {}".format(
                      what, fn, sorted(got["vars"]), sorted(names)))
        judge_values(ctx, spec, got, names, key, what + " " + os.path.basename(fn))
        ctx.count("files_compared")


def digest(path):
    """Content of a NetCDF file in comparable form (without creation date)"""
    d = read(path)
    d["attrs"].pop("creation_date", None)
    vs = {}
    for n, (dt, dims, data, attrs) in d["vars"].items():
        m = np.ma.getmaskarray(data)
        raw = np.where(m, np.zeros((), dtype=data.dtype), np.ma.getdata(data))
        vs[n] = (str(dt), dims, data.shape, raw, m,
                 sorted((a, str(x)) for a, x in attrs.items()))
    return {"vars": vs, "attrs": sorted((a, str(x)) for a, x in d["attrs"].items()),
            "dims": dict(d["dims"]), "format": d["format"]}


def differ(a, b, rtol=0.0, attrs=True):
    """First difference of two digests, or None.  rtol is relative to the largest value."""
    if a["format"] != b["format"]:
        return "format {} / {}".format(a["format"], b["format"])
    if a["dims"] != b["dims"]:
        return "dimensions {} / {}".format(a["dims"], b["dims"])
    if attrs and a["attrs"] != b["attrs"]:
        return "global attributes {} / {}".format(a["attrs"], b["attrs"])
    if set(a["vars"]) != set(b["vars"]):
        return "variables {} / {}".format(sorted(a["vars"]), sorted(b["vars"]))
    for n in sorted(a["vars"]):
        x, y = a["vars"][n], b["vars"][n]
        if x[:3] != y[:3]:
            return "{}: {} / {}".format(n, x[:3], y[:3])
        if not np.array_equal(x[4], y[4]):
            return "{}: missing points {} / {}".format(n, x[4].tolist(), y[4].tolist())
        if x[3].dtype.kind == "f":
            with np.errstate(all="ignore"):
                s = float(np.max(np.abs(x[3]), initial=0.0))
                ok = bool(np.all((np.abs(x[3] - y[3]) <= rtol * s) | (x[3] == y[3])
                                 | (np.isnan(x[3]) & np.isnan(y[3]))))
        else:
            ok = bool(np.array_equal(x[3], y[3]))
        if not ok:
            return "{}: values {} / {}".format(n, x[3].tolist(), y[3].tolist())
        if attrs and x[5] != y[5]:
            return "{}: attributes {} / {}".format(n, x[5], y[5])
    return None
