"""C21: text data keeps every character"""
import os
from collections import OrderedDict

import numpy as np

from vf import flow

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "conservation monitor: every byte of every text variable written against the text put in"
RULE = ("random text of rank zero to three (any bytes, blanks, empty strings, lengths from one), given or read, "
        "with shared, longer and shorter declared lengths, permuted and reversed dimensions, record dimensions, "
        "chunks over any dimension, aligned and subset by the interface; bytes compared; text in conversion, "
        "arithmetic, or with its character dimension moved has to be refused; non-trivial = a non-empty text "
        "written; distinct by text and layout")
CASES = {"quick": 1200, "thorough": 12000}
REQUIRED = ["literal", "read", "rank0", "rank1", "rank2", "rank3", "length_one", "longer_length", "shorter_length",
            "empty_strings", "blanks", "high_bytes", "chunked", "chunked_length", "transposed", "reversed_dimension",
            "record_dimension", "subset", "encoding", "characters", "refused_units", "refused_transpose",
            "refused_arithmetic", "refused_number", "refused_direction", "refused_two_lengths", "refused_reciprocal",
            "array_transpose", "array_index"]

ASCII = "abcXYZ 019_-./\"'\\{}"


def _word(rng, n, high):
    pool = ASCII if not high else ASCII + "\u00e9\u00df\u00ff"
    k = rng.choice([0, n, n, rng.randint(0, n)])
    w = "".join(rng.choice(pool) for _ in range(k))
    return w.encode("latin-1")


def _text(ctx, rng, shape, high, blanks=True):
    """(array of S1 with the length as last dimension)"""
    L = rng.choice([1, 1, 2, 3, 5, 8, 17])
    n = int(np.prod(shape)) if shape else 1
    words = [_word(rng, L, high) for _ in range(n)]
    if all(len(w) < L for w in words):
        words[rng.randrange(n)] = b"Z" * L
    if any(w == b"" for w in words):
        ctx.count("empty_strings")
    if any(w[:1] == b" " or w[-1:] == b" " for w in words):
        ctx.count("blanks")
    if L == 1:
        ctx.count("length_one")
    a = np.array([[w[i:i + 1] for i in range(L)] for w in words], dtype="S1").reshape(tuple(shape) + (L,))
    return a


def _listed(a):
    """The strings of a text array as nested lists of str"""
    if a.ndim == 1:
        return b"".join(a.tolist()).decode("latin-1")
    return [_listed(x) for x in a]


def _pad(a, n):
    out = np.zeros(a.shape[:-1] + (n,), dtype="S1")
    out[..., :a.shape[-1]] = a
    return out


def _var(folder, name, t, dims, definition, **attrs):
    return OrderedDict([("attributes", OrderedDict(attrs)), ("datatype", t), ("dimensions", list(dims)),
                        ("definition", definition),
                        ("file", OrderedDict([("filename", "{}/out/{}.nc".format(folder, name)), ("format", "NETCDF4")]))])


def case(ctx):
    import netCDF4

    rng = ctx.rng
    folder = ctx.scratch()
    names = ["x", "y", "z"][:rng.randint(1, 3)]
    sizes = OrderedDict((k, rng.randint(1, 4)) for k in names)
    unlimited = rng.choice(names) if rng.random() < 0.4 else None
    inp = folder + "/in.nc"
    src = OrderedDict()
    with netCDF4.Dataset(inp, "w", format=rng.choice(["NETCDF4", "NETCDF4_CLASSIC"])) as f:
        for k in names:
            f.createDimension(k, None if k == unlimited else sizes[k])
            v = f.createVariable(k, "f8", (k,))
            v[:] = np.arange(sizes[k])[::rng.choice([1, -1])]
        for i in range(rng.randint(1, 3)):
            dims = tuple(rng.sample(names, rng.randint(0, len(names))))
            a = _text(ctx, rng, tuple(sizes[d] for d in dims), rng.random() < 0.3)
            if (a.astype("S1").view("u1") > 127).any():
                ctx.count("high_bytes")
            f.createDimension("s%d" % i, a.shape[-1])
            v = f.createVariable("c%d" % i, "S1", dims + ("s%d" % i,))
            v.set_auto_chartostring(False)
            if rng.random() < 0.2:
                v._Encoding = rng.choice(["ascii", "utf-8", "latin-1"])
                ctx.count("encoding")
            v[...] = a
            src["c%d" % i] = (dims, a, "s%d" % i)

    d, want = OrderedDict(), {}
    flip = set()
    for k in names:
        attrs = OrderedDict()
        if rng.random() < 0.4:
            attrs = OrderedDict([("axis", k.upper()), ("direction", rng.choice(["increasing", "decreasing"]))])
        v = _var(folder, k, "double", [k + "o"], k, **attrs)
        del v["file"]
        d[k + "o"] = v
        with netCDF4.Dataset(inp) as f:
            c = f.variables[k][:]
        if attrs and sizes[k] > 0:
            up = len(c) < 2 or c[1] > c[0]
            if up != (attrs["direction"] == "increasing"):
                flip.add(k + "o")
    lens = {}  # output string length dimension -> [size, fixed by literals]
    for n, (dims, a, s) in src.items():
        if rng.random() < 0.8:
            odims = [x + "o" for x in dims]
            perm = list(range(len(dims)))
            rng.shuffle(perm)
            if perm != sorted(perm):
                ctx.count("transposed")
            odims = [odims[p] for p in perm]
            b = a.transpose(perm + [len(dims)])
            t = n
            if dims and rng.random() < 0.2:
                k = rng.randrange(len(dims))
                t = "{}[{}]".format(n, ",".join("::-1" if i == k else ":" for i in range(len(dims))))
                b = np.flip(b, perm.index(k))
                ctx.count("subset")
            if dims and rng.random() < 0.15:
                # one position of a dimension
                k = rng.randrange(len(dims))
                p = rng.randrange(sizes[dims[k]])
                t = "{}[{}]".format(n, ",".join(str(p) if i == k else ":" for i in range(len(dims))))
                b = np.take(a, p, axis=k).transpose(
                    [x - (x > k) for x in perm if x != k] + [len(dims) - 1])
                odims = [dims[x] + "o" for x in perm if x != k]
                ctx.count("subset")
            o = "len" + n
            want["o" + n] = [b, odims + [o]]
            d["o" + n] = _var(folder, "o" + n, "char", odims + [o], t)
            lens[o] = a.shape[-1]
            ctx.count("read")
    fixed = [k for k in names if k != unlimited]
    for i in range(rng.randint(0, 2)):
        dims = rng.sample(fixed, rng.randint(1, len(fixed))) if fixed else []
        if not dims:
            break
        a = _text(ctx, rng, tuple(sizes[x] for x in dims), False)
        L = a.shape[-1]
        o = "lit%d" % i
        share = [x for x in lens if x.startswith("lenc")]
        if share and rng.random() < 0.5:
            # the same declared length as some text that is read
            o = rng.choice(share)
            if any(w[1][-1] == o and m.startswith("g") for m, w in want.items()):
                o = "lit%d" % i
            elif L != lens[o]:
                ctx.count("longer_length" if L > lens[o] else "shorter_length")
        lens[o] = max(L, lens.get(o, 0))
        want["g%d" % i] = [a, [x + "o" for x in dims] + [o]]
        d["g%d" % i] = _var(folder, "g%d" % i, "char", [x + "o" for x in dims] + [o], _listed(a))
        ctx.count("literal")
    if not want:
        return _arrays(ctx, rng)
    items = list(d.items())
    rng.shuffle(items)
    d = OrderedDict(items)
    chunks = OrderedDict()
    record = {unlimited + "o"} if unlimited else set()
    read_dims = {x for n, w in want.items() if n.startswith("oc") for x in w[1]}
    for x in rng.sample(sorted(read_dims), len(read_dims)):
        if rng.random() < 0.4:
            chunks[x] = rng.choice([1, 2, 3, 4, 7])
            ctx.count("chunked_length" if x.startswith("len") else "chunked")
    what = "{} chunks {} sizes {} flipped {} unlimited {}".format(
        [(n, v["definition"], v["dimensions"]) for n, v in d.items()], dict(chunks), dict(sizes), flip, unlimited)
    # literal dimensions that no input defines cannot be chunked: only those of read text are
    flow.run([inp], d, chunks=chunks)
    for n, (a, dims) in want.items():
        path = d[n]["file"]["filename"]
        with netCDF4.Dataset(path) as f:
            v = f.variables[n]
            v.set_auto_chartostring(False)
            v.set_auto_mask(False)
            got, gd, dt = v[...], v.dimensions, v.dtype
        b = _pad(a, lens[dims[-1]])
        b = b[tuple(slice(None, None, -1) if x in flip else slice(None) for x in dims[:-1])]
        if any(x in flip for x in dims):
            ctx.count("reversed_dimension")
        if set(dims) & record:
            ctx.count("record_dimension")
        ctx.check(gd == tuple(dims) and dt == np.dtype("S1"), "layout",
                  lambda: "{}: {} {} in {}".format(n, gd, dt, what))
        ctx.check(got.shape == b.shape and got.tobytes() == b.tobytes(), "characters",
                  lambda: "{}: {} expected {} in {}".format(n, got.tolist(), b.tolist(), what))
        ctx.count("characters", int(b.size))
        ctx.count("rank%d" % (a.ndim - 1))
        if (b != b"").any():
            ctx.nontrivial(b.tobytes(), dims, sorted(chunks.items()))
    ctx.sample(what)
    _refused(ctx, rng, folder, src, sizes, inp, lens)
    _arrays(ctx, rng)


def _refused(ctx, rng, folder, src, sizes, inp, lens):
    """Text where it has no meaning"""
    n = rng.choice(list(src))
    dims, a, s = src[n]
    odims = [x + "o" for x in dims] + ["lo"]
    kinds = ["units", "arithmetic", "number", "direction"] + ["transpose"] * 2 * bool(dims) + ["two_lengths"]
    kind = rng.choice(kinds)
    base = OrderedDict()
    for k in sizes:
        base[k + "o"] = _var(folder, k, "double", [k + "o"], k)
        del base[k + "o"]["file"]
    f = folder + "/ref"
    if kind == "units":
        u = rng.choice(["K", "m s-1", "1", "%", "days since 2000-01-01"])
        base["bad"] = _var(f, "bad", "char", odims, n, units=u)
    elif kind == "arithmetic":
        t = rng.choice(["-{}", "{}+1", "2*{}", "{0}+{0}", "{0}*{0}", "{}/2", "{}**2", "sqrt({})", "1-{}", "{0}-{0}"])
        base["bad"] = _var(f, "bad", "char", odims, t.format(n))
    elif kind == "number":
        base["bad"] = _var(f, "bad", rng.choice(["float", "double", "int", "byte", "short"]), odims, n)
    elif kind == "direction":
        base["bad"] = _var(f, "bad", "char", odims, "{}({})".format(rng.choice(["up", "down"]), n))
    elif kind == "transpose":
        p = odims[:]
        while p[-1] == "lo":
            rng.shuffle(p)
        base["bad"] = _var(f, "bad", "char", p, n)
    else:
        # two literal texts of different lengths in one dimension
        base["bad"] = _var(f, "bad", "char", ["q1", "lo"], ["ab", "c"])
        base["worse"] = _var(f, "worse", "char", ["q1", "lo"], ["abc", "c"])
    text = "{} {}".format(kind, base["bad"])
    try:
        flow.run([inp], base)
    except Exception:  # noqa
        pass
    else:
        ctx.fail("accepted-" + kind, "wrote {}: {}".format(text, flow.read(f + "/out/bad.nc")["vars"]["bad"]))
    ctx.check(not os.path.exists(f + "/out/bad.nc"), "refused-wrote", lambda: "file exists: " + text)
    ctx.count("refused_" + kind)


def _arrays(ctx, rng):
    """The same laws for the arrays themselves"""
    from pyconform.physarray import CharArray, PhysArray

    shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 3)))
    a = _text(ctx, rng, shape, False)
    L = a.shape[-1]
    dims = tuple("abc"[:len(shape)]) + (("l",) if L > 1 else ())
    strings = np.ascontiguousarray(a).view("S%d" % L).reshape(shape)
    form = rng.choice(["strings", "list"])
    c = rng.choice([PhysArray, CharArray])(strings if form == "strings" else strings.tolist(), name="T", dimensions=dims)
    b = a if L > 1 else a[..., 0]

    def same(x, y, key, what):
        got = np.ma.filled(np.ma.asarray(x).view(np.ma.MaskedArray), b"")
        ctx.check(isinstance(x, CharArray), key + "-kind", lambda: "{} is a {}".format(what, type(x)))
        ctx.check(got.shape == y.shape and bool((got == y).all()), key,
                  lambda: "{}: {} expected {}".format(what, got.tolist(), y.tolist()))

    same(c, b, "array", "array of {}".format(strings.tolist()))
    if L > 1 and len(shape) > 1:
        perm = list(range(len(shape)))
        rng.shuffle(perm)
        nd = tuple(dims[p] for p in perm) + ("l",)
        t = c.transpose(*nd) if rng.random() < 0.5 else c.transpose(nd)
        same(t, b.transpose(perm + [len(shape)]), "array-transpose", "transpose to {}".format(nd))
        ctx.check(tuple(t.dimensions) == nd, "array-transpose-dims", lambda: "{} of {}".format(t.dimensions, nd))
        ctx.count("array_transpose")
    if L > 1:
        bad = list(dims)
        while bad[-1] == "l":
            rng.shuffle(bad)
        form = rng.choice(["names", "tuple", "list", "numbers"])
        args = {"names": bad, "tuple": [tuple(bad)], "list": [list(bad)],
                "numbers": [dims.index(x) for x in bad]}[form]
        try:
            r = c.transpose(*args)
        except Exception:  # noqa
            pass
        else:
            ctx.fail("array-transpose-length", "transpose{} of {} gave {}".format(args, dims, r.dimensions))
        n = L + rng.randint(0, 4)
        same(c.stretch(n), _pad(b, n), "stretch", "stretch to {}".format(n))
    idx = tuple(rng.choice([slice(None), slice(None, None, -1), slice(0, 1)]) for _ in shape)
    same(c[idx], b[idx], "array-index", "index {}".format(idx))
    ctx.count("array_index")
    for fn, args in (("convert", ("K",)), ("invert", ()), ("__neg__", ()), ("__mul__", (2.0,)), ("__add__", (c,)), ("up", ()),
                     ("down", ())):
        before = np.ma.filled(np.ma.asarray(c).view(np.ma.MaskedArray), b"").tobytes()
        try:
            r = getattr(c, fn)(*args)
        except Exception:  # noqa
            pass
        else:
            ctx.check(r is NotImplemented, "array-" + fn, lambda: "{}{} gave {!r}".format(fn, args, r))
        ctx.check(np.ma.filled(np.ma.asarray(c).view(np.ma.MaskedArray), b"").tobytes() == before, "array-changed",
                  lambda: "{} changed the text".format(fn))
    ctx.count("refused_reciprocal")
