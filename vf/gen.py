"""Random quantities, indices and helpers shared by the checks"""
import numpy as np
from cf_units import Unit

from vf.ref import Q

#: groups of mutually convertible units (linear without offset)
GROUPS = [
    ["m", "km", "cm", "mm"],
    ["s", "min", "hour", "day"],
    ["kg", "g", "mg"],
    ["Pa", "hPa", "kPa"],
    ["1", "%", "1e-3"],
    ["kg m-2 s-1", "g m-2 day-1", "kg m-2 day-1"],
    ["m s-1", "km hour-1", "cm s-1"],
    ["W m-2", "kW m-2"],
    ["K"],
    ["mol m-3", "mmol m-3"],
]
OFFSET = ["K", "degC", "degF"]
DIMS = ["x", "y", "z", "t"]


#: other names of five dimensions: names that contain one another, are equal but for the case, ...
OTHER = [
    ["x", "xi", "xi_rho", "x_", "i"],
    ["lat", "lat2", "at", "t", "lat_aux"],
    ["lev", "ilev", "le", "LEV", "v"],
    ["d1", "d10", "d11", "d", "1d"],
]


def sizes(rng, lo=1, hi=4, names=DIMS):
    """Sizes by name; in a third of the cases mostly the same size, so that a mistaken axis still fits"""
    if rng.random() < 0.35:
        n = rng.randint(max(lo, min(2, hi)), hi)
        return {d: (n if rng.random() < 0.9 else rng.randint(lo, hi)) for d in names}
    return {d: rng.randint(lo, hi) for d in names}


def five(rng, names):
    """Five dimension names: the plain ones or a set of names that are easily confused"""
    return names if rng.random() < 0.6 else rng.choice(OTHER)


def dims(rng, sz, lo=0, hi=3, names=None):
    names = list(names or sz)
    k = rng.randint(lo, min(hi, len(names)))
    return tuple(rng.sample(names, k))


def values(rng, shape, kind="pos", lo=0.5, hi=50.0):
    n = int(np.prod(shape)) if len(shape) else 1
    if kind == "pos":
        v = [rng.uniform(lo, hi) for _ in range(n)]
    elif kind == "int":
        v = [float(rng.randint(1, 60)) for _ in range(n)]
    else:
        v = [rng.uniform(-hi, hi) for _ in range(n)]
    return np.array(v, dtype="f8").reshape(shape)


def mask(rng, shape, p=None):
    if p is None:
        p = rng.choice([0.0, 0.0, 0.2, 0.5, 0.9])
    n = int(np.prod(shape)) if len(shape) else 1
    return np.array([rng.random() < p for _ in range(n)], dtype=bool).reshape(shape)


def quantity(rng, sz, d, units, kind="any", positive=None, masked=True, dtype="f8"):
    """A (repository array, reference Q) pair with the same content"""
    from pyconform.physarray import PhysArray

    shape = tuple(sz[n] for n in d)
    v = values(rng, shape, "int" if dtype[0] in "iu" else kind)
    m = mask(rng, shape) if masked else np.zeros(shape, dtype=bool)
    v = np.asarray(v.astype(dtype))
    if m.any() or rng.random() < 0.3:
        data = np.ma.MaskedArray(v.copy(), mask=m.copy())
    else:
        data = v.copy()
    # sometimes a non-contiguous or reversed memory layout
    if v.ndim >= 2 and rng.random() < 0.3:
        data = np.ma.asarray(data) if isinstance(data, np.ma.MaskedArray) else data
        data = data.copy(order="F")
    name = "".join(rng.choice("abcdefg") for _ in range(3))
    a = PhysArray(data, name=name, units=Unit(units) if not isinstance(units, Unit) else units,
                  dimensions=d, positive=positive)
    return a, Q(v, m, d, units, positive)


def rand_slice(rng, n, empty=True):
    """A slice over an axis of length n, any sign, possibly out of range"""
    while True:
        step = rng.choice([None, None, None, 1, 1, 2, 3, -1, -1, -2, -3])
        def e():
            return rng.choice([None, None, rng.randint(-n - 2, n + 2), rng.randint(0, max(n, 1))])
        s = slice(e(), e(), step)
        if empty or len(range(*s.indices(n))) > 0:
            return s


def rand_index(rng, n, empty=True):
    """An int or slice over an axis of length n (n>0 for ints)"""
    if n > 0 and rng.random() < 0.3:
        return rng.randint(-n, n - 1)
    return rand_slice(rng, n, empty)


def snapshot(a):
    """Bytes-exact state of a repository array, for purity monitors"""
    ma = np.ma.asarray(a).view(np.ma.MaskedArray)
    data = np.ma.getdata(ma)
    return (data.dtype.str, data.shape, data.tobytes(), np.ma.getmaskarray(ma).tobytes(),
            getattr(a, "name", None), str(getattr(a, "units", None)),
            str(getattr(getattr(a, "units", None), "calendar", None)),
            tuple(getattr(a, "dimensions", ())), getattr(a, "positive", None))


def snapshot_visible(a):
    """As snapshot, without the values under the mask (which mean nothing)"""
    ma = np.ma.asarray(a).view(np.ma.MaskedArray)
    m = np.ma.getmaskarray(ma)
    data = np.where(m, np.zeros((), dtype=np.ma.getdata(ma).dtype), np.ma.getdata(ma).view(np.ndarray))
    return (data.dtype.str, data.shape, data.tobytes(), m.tobytes(),
            getattr(a, "name", None), str(getattr(a, "units", None)),
            str(getattr(getattr(a, "units", None), "calendar", None)),
            tuple(getattr(a, "dimensions", ())), getattr(a, "positive", None))
