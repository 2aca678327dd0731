"""C10: subsetting composes"""
import os

import numpy as np

from vf import gen
from vf.core import Skip
from vf.ref import Q, compare

ID = "C10"
LEVEL = "exploration"
RULE = ("random shapes (rank 1-4, lengths 0-7) and random pairs of indices (ints of both signs, "
        "slices with any start/stop/step in and out of range, ellipsis, short tuples, by dimension "
        "name) joined and compared element by element with two-step selection on plain arrays, "
        "array objects and variables read from NetCDF files; all slice pairs over lengths up to 4 "
        "enumerated; non-trivial = both indices select a proper part; distinct by shape and indices")
CASES = {"quick": 8000, "thorough": 400000}
REQUIRED = ["join", "join_int_negative", "join_negative_step", "empty", "array", "array_dict",
            "file", "file_dict", "reject", "enumerated"]


def _tup(rng, shape, empty=True):
    """A random positional index, as (what to pass, full tuple)"""
    full = tuple(gen.rand_index(rng, n, empty) for n in shape)
    r = rng.random()
    if r < 0.2 and len(full) > 1:
        # cut the tail
        k = rng.randint(1, len(full))
        full = full[:k] + (slice(None),) * (len(shape) - k)
        return (full[:k] if k > 1 or rng.random() < 0.5 else full[0]), full
    if r < 0.35 and len(full) > 1:
        i = rng.randint(0, len(full))
        j = rng.randint(i, len(full))
        full = full[:i] + (slice(None),) * (j - i) + full[j:]
        return full[:i] + (Ellipsis,) + full[j:], full
    if len(full) == 1 and rng.random() < 0.5:
        return full[0], full
    return full, full


def _after(shape, full):
    return np.empty(shape)[full].shape


def c_join(ctx):
    from pyconform.indexing import join

    rng = ctx.rng
    shape = tuple(rng.randint(0 if rng.random() < 0.05 else 1, 7) for _ in range(rng.randint(1, 4)))
    A = np.arange(int(np.prod(shape))).reshape(shape)
    i1, f1 = _tup(rng, shape)
    B = A[f1]
    i2, f2 = _tup(rng, B.shape)
    if B.ndim == 0:
        i2, f2 = (), ()
    want = B[f2]
    j = join(shape, i1, i2)
    try:
        got = A[j]
    except IndexError as e:
        ctx.fail("join", "shape {} [{}][{}] joined to {}: {}".format(shape, i1, i2, j, e))
    ctx.check(got.shape == want.shape and np.array_equal(got, want), "join",
              lambda: "shape {} [{}][{}]: {} expected {}".format(
                  shape, i1, i2, np.asarray(got).tolist(), np.asarray(want).tolist()))
    ctx.count("join")
    rest = [i for i in f1 if isinstance(i, slice)]
    if any(isinstance(j, int) and j < 0 and (i.start, i.stop, i.step) != (None, None, None)
           for i, j in zip(rest, f2)):
        ctx.count("join_int_negative")
    if any(isinstance(j, slice) and ((i.step or 1) < 0 or (j.step or 1) < 0) for i, j in zip(rest, f2)):
        ctx.count("join_negative_step")
    if want.size == 0:
        ctx.count("empty")
    if 0 < want.size < B.size < A.size:
        ctx.nontrivial("j", shape, str(i1), str(i2))
    ctx.sample("A{}[{}][{}]".format(shape, i1, i2))


def c_reject(ctx):
    from pyconform.indexing import join

    rng = ctx.rng
    n = rng.randint(1, 6)
    A = np.arange(n)
    if rng.random() < 0.3:
        i1, i2 = rng.choice([n, n + 1, -n - 1, -n - 3]), ()
    else:
        i1 = gen.rand_slice(rng, n)
        k = len(A[i1])
        i2 = rng.choice([k, k + 1, -k - 1, -k - 2])
    try:
        got = join((n,), i1, i2)
    except IndexError:
        ctx.count("reject")
        ctx.nontrivial("rej", n, str(i1), str(i2))
    else:
        ctx.fail("join-accepts-out-of-range", "length {} [{}][{}] joined to {}".format(n, i1, i2, got))


def c_array(ctx):
    rng = ctx.rng
    sz = gen.sizes(rng, 1, 6)
    d = gen.dims(rng, sz, 1, 4)
    a, q = gen.quantity(rng, sz, d, rng.choice(["m", "K"]), "any", positive=rng.choice([None, "up"]))
    snap = gen.snapshot(a)
    r, w, idxs = a, q, []
    for _ in range(rng.randint(1, 3)):
        if not w.dims:
            break
        if rng.random() < 0.4:
            full = tuple(gen.rand_index(rng, n) for n in w.val.shape)
            named = {m: i for m, i in zip(w.dims, full) if rng.random() < 0.7}
            full = tuple(named.get(m, slice(None)) for m in w.dims)
            i = dict(named)
            if rng.random() < 0.2:
                i["elsewhere"] = slice(0, 1)
            ctx.count("array_dict")
        else:
            i, full = _tup(rng, w.val.shape)
        idxs.append(i)
        r = r[i]
        w = w[full]
        if not hasattr(r, "dimensions"):
            ctx.fail("array-type", "{} of {} is {!r}".format(idxs, d, type(r)))
    compare(ctx, r, w, "array", "{}{}[{}]".format(d, q.val.shape, idxs))
    ctx.check(gen.snapshot(a) == snap, "array-mutates", "indexing changed the array")
    ctx.count("array")
    if w.val.size and w.val.size < q.val.size:
        ctx.nontrivial("a", q.val.shape, str(idxs))


def c_file(ctx):
    """Reading a subset of a subset from a file"""
    import netCDF4
    from pyconform.datasets import InputDatasetDesc
    from pyconform.flownodes import ReadNode

    rng = ctx.rng
    sz = gen.sizes(rng, 1, 6)
    d = gen.dims(rng, sz, 1, 4)
    shape = tuple(sz[n] for n in d)
    v, m = gen.values(rng, shape, "any"), gen.mask(rng, shape)
    path = os.path.join(ctx.scratch(), "in.nc")
    unlim = rng.choice(list(d) + [None])
    with netCDF4.Dataset(path, "w") as f:
        for n in d:
            f.createDimension(n, None if n == unlim else sz[n])
        var = f.createVariable("v", "f8", d, fill_value=-1e30)
        var.units = "m"
        var.positive = "up"
        var[...] = np.ma.MaskedArray(v, mask=m)
    q = Q(v, m, d, "m", "up")
    vd = InputDatasetDesc(filenames=[path]).variables["v"]
    for _ in range(12):
        if rng.random() < 0.3:
            full = tuple(gen.rand_index(rng, n) for n in shape)
            i1 = {n: i for n, i in zip(d, full) if rng.random() < 0.7}
            f1 = tuple(i1.get(n, slice(None)) for n in d)
        else:
            i1, f1 = _tup(rng, shape)
        w1 = q[f1]
        node = ReadNode(vd, index=i1)
        if rng.random() < 0.4:
            full = tuple(gen.rand_index(rng, n) for n in w1.val.shape)
            i2 = {n: i for n, i in zip(w1.dims, full) if rng.random() < 0.7}
            f2 = tuple(i2.get(n, slice(None)) for n in w1.dims)
            ctx.count("file_dict")
        elif w1.dims:
            i2, f2 = _tup(rng, w1.val.shape)
        else:
            i2, f2 = rng.choice([(), Ellipsis, slice(None)]), ()
        what = "{}{} [{}][{}]".format(d, shape, i1, i2)
        info = node[None]
        ctx.check(tuple(info.dimensions) == w1.dims and info.positive == "up"
                  and str(info.units) == "m", "file-info",
                  lambda: "{}: announced {} {} {}".format(what, info.dimensions, info.units, info.positive))
        compare(ctx, node[i2], w1[f2], "file", what)
        ctx.count("file")
        if 0 < w1[f2].val.size < w1.val.size < v.size:
            ctx.nontrivial("f", shape, str(i1), str(i2))


KINDS = [c_join] * 7 + [c_reject] + [c_array] * 3 + [c_file] * 3


def case(ctx):
    ctx.rng.choice(KINDS)(ctx)


def _enumerate(n):
    """All slices and ints over a small range on both levels, one axis of length n"""
    def run(ctx):
        from pyconform.indexing import join

        A = np.arange(n)
        vals = [None] + list(range(-n - 1, n + 2))
        sl = [slice(s, e, t) for s in vals for e in vals for t in (None, 1, 2, 3, -1, -2, -3)]
        seen = {}
        for i1 in sl:
            B = A[i1]
            # second level: one representative per set of selected positions is enough
            k = len(B)
            key = (i1.indices(n))
            if key in seen:
                continue
            seen[key] = 1
            v2 = [None] + list(range(-k - 1, k + 2))
            for s in v2:
                for e in v2:
                    for t in (None, 1, 2, -1, -2):
                        i2 = slice(s, e, t)
                        got = A[join((n,), i1, i2)]
                        if not np.array_equal(got, B[i2]):
                            ctx.fail("join", "length {} [{}][{}]: {} expected {}".format(
                                n, i1, i2, got.tolist(), B[i2].tolist()))
                        ctx.count("enumerated")
            for j in range(-k, k):
                got = A[join((n,), i1, j)]
                if not np.array_equal(got, B[j]):
                    ctx.fail("join", "length {} [{}][{}]: {} expected {}".format(
                        n, i1, j, np.asarray(got).tolist(), B[j]))
                ctx.count("enumerated")
        ctx.nontrivial("enum", n)
    return run


def fixed(tier):
    return [("length-{}".format(n), _enumerate(n)) for n in ((1, 2, 3, 4) if tier == "quick" else range(1, 8))]
