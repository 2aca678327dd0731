"""
Independent reference model: named-dimension masked arrays, evaluated with plain
numpy and cf_units, without any code of the repository.
"""
import itertools

import numpy as np
from cf_units import Unit


class Q:
    """values (float64), mask (bool), dims (tuple), units (Unit), positive"""

    def __init__(self, val, mask, dims, units, positive=None):
        self.val = np.asarray(val, dtype="f8")
        self.mask = np.broadcast_to(np.asarray(mask, dtype=bool), self.val.shape).copy()
        self.dims = tuple(dims)
        self.units = units if isinstance(units, Unit) else Unit(units)
        self.positive = positive

    def copy(self):
        return Q(self.val.copy(), self.mask.copy(), self.dims, self.units, self.positive)

    def aligned(self, dims):
        """values and mask with axes `dims` (missing ones get size one)"""
        order = [self.dims.index(d) for d in dims if d in self.dims]
        v = self.val.transpose(order)
        m = self.mask.transpose(order)
        shape = []
        k = 0
        for d in dims:
            if d in self.dims:
                shape.append(v.shape[k])
                k += 1
            else:
                shape.append(1)
        return v.reshape(shape), m.reshape(shape)

    def transpose(self, dims):
        v, m = self.aligned(dims)
        return Q(v, m, dims, self.units, self.positive)

    def convert(self, units):
        u = units if isinstance(units, Unit) else Unit(units)
        if u == self.units:
            return Q(self.val, self.mask, self.dims, u, self.positive)
        val = np.array([self.units.convert(float(x), u) for x in self.val.ravel()], dtype="f8")
        return Q(val.reshape(self.val.shape), self.mask, self.dims, u, self.positive)

    def flip(self):
        if self.positive is None:
            return self.copy()
        return Q(-self.val, self.mask, self.dims, self.units,
                 "down" if self.positive == "up" else "up")

    def directed(self, pos):
        """Same physical quantity with the given direction (or labelled with it)"""
        if self.positive is None:
            return Q(self.val, self.mask, self.dims, self.units, pos)
        return self.copy() if self.positive == pos else self.flip()

    def __getitem__(self, idx):
        """positional tuple of ints/slices, one per axis"""
        dims = tuple(d for d, i in zip(self.dims, idx) if isinstance(i, slice))
        return Q(self.val[idx], self.mask[idx], dims, self.units, self.positive)


def const(x):
    return Q(float(x), False, (), Unit(1))


def match_dirs(a, b):
    if a.positive == b.positive:
        return a, b, a.positive
    if a.positive is None:
        return a.directed(b.positive), b, b.positive
    return a, b.directed(a.positive), a.positive


def binop(op, a, b):
    dims = a.dims + tuple(d for d in b.dims if d not in a.dims)
    if op in "+-":
        b = b.convert(a.units)
        units = a.units
    elif op == "*":
        units = a.units * b.units
    elif op in ("/", "//"):
        units = a.units / b.units
    a, b, pos = match_dirs(a, b)
    av, am = a.aligned(dims)
    bv, bm = b.aligned(dims)
    with np.errstate(all="ignore"):
        if op == "+":
            v = av + bv
        elif op == "-":
            v = av - bv
        elif op == "*":
            v = av * bv
        elif op == "/":
            v = av / bv
        else:
            v = np.floor_divide(av, bv)
    m = np.broadcast_to(am, v.shape) | np.broadcast_to(bm, v.shape)
    return Q(v, m, dims, units, pos)


def power(a, n):
    with np.errstate(all="ignore"):
        v = a.val ** n
    pos = None if n % 2 == 0 else a.positive
    return Q(v, a.mask, a.dims, a.units ** n, pos)


def reduce(kind, a, rdims):
    """Brute-force reduction over named dimensions, element by element"""
    keep = tuple(d for d in a.dims if d not in rdims)
    kshape = tuple(a.val.shape[a.dims.index(d)] for d in keep)
    v = np.zeros(kshape)
    m = np.zeros(kshape, dtype=bool)
    for idx in itertools.product(*(range(n) for n in kshape)):
        sel = tuple(idx[keep.index(d)] if d in keep else slice(None) for d in a.dims)
        vals = np.asarray(a.val[sel]).ravel()
        msk = np.asarray(a.mask[sel]).ravel()
        good = [float(x) for x, k in zip(vals, msk) if not k]
        if not good:
            m[idx] = True
            continue
        if kind == "mean":
            v[idx] = sum(good) / len(good)
        elif kind == "sum":
            v[idx] = sum(good)
        elif kind == "min":
            v[idx] = min(good)
        elif kind == "max":
            v[idx] = max(good)
    return Q(v, m, keep, a.units, a.positive)


def same_units(u1, u2):
    if u1 == u2:
        return True
    try:
        if u1.is_time_reference() or u2.is_time_reference():
            return False
        if not u1.is_convertible(u2):
            return False
        return all(abs(u1.convert(x, u2) - x) <= 1e-9 * max(1.0, abs(x)) for x in (0.0, 1.0, 37.5))
    except Exception:
        return False


def close(x, y, rtol, atol):
    x = np.asarray(x, dtype="f8")
    y = np.asarray(y, dtype="f8")
    with np.errstate(all="ignore"):
        d = np.abs(x - y)
        ok = d <= atol + rtol * np.maximum(np.abs(x), np.abs(y))
        return ok | (np.isnan(x) & np.isnan(y)) | (x == y)


def compare(ctx, got, want, key, what, rtol=1e-9, scale=None, dims=True, units=True, positive=True):
    """got: a repository array; want: Q.  Raises Violation on any difference."""
    if dims:
        ctx.check(tuple(got.dimensions) == want.dims, key + "-dims",
                  lambda: "{}: dimensions {} expected {}".format(what, got.dimensions, want.dims))
    gv = np.ma.getdata(got).view(np.ndarray)
    gm = np.ma.getmaskarray(np.ma.asarray(got).view(np.ma.MaskedArray))
    ctx.check(gv.shape == want.val.shape, key + "-shape",
              lambda: "{}: shape {} expected {}".format(what, gv.shape, want.val.shape))
    ctx.check(bool(np.array_equal(gm, want.mask)), key + "-mask",
              lambda: "{}: mask {} expected {}".format(what, gm.tolist(), want.mask.tolist()))
    if units:
        ctx.check(same_units(got.units, want.units), key + "-units",
                  lambda: "{}: units {!r} expected {!r}".format(what, str(got.units), str(want.units)))
    if positive:
        ctx.check(got.positive == want.positive, key + "-positive",
                  lambda: "{}: positive {!r} expected {!r}".format(what, got.positive, want.positive))
    good = ~want.mask
    s = scale
    if s is None:
        s = float(np.max(np.abs(want.val[good]))) if good.any() else 1.0
        s = s if np.isfinite(s) else 1.0
    ok = close(gv[good], want.val[good], rtol, rtol * s)
    ctx.check(bool(np.all(ok)), key + "-values",
              lambda: "{}: values {} expected {}".format(
                  what, gv.tolist(), np.where(want.mask, np.nan, want.val).tolist()))
    ctx.count("elements_compared", int(gv.size))
