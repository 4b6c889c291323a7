"""Generators: JSON-able specs drawn by Hypothesis and their deterministic expansion to arrays."""
import zlib
import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------ arrays
#: how the values of an array are made (all deterministic functions of the drawn spec)
MODES = ["normal", "offset", "ints", "onehot", "const", "ramp", "big", "mixed"]
MISSING = MODES + ["nans"]     # data with not-a-number elements


def content(modes=None):
    return st.fixed_dictionaries({"m": st.sampled_from(modes or MODES), "s": st.integers(0, 10 ** 6)})


def expand(spec, shape, cplx=True, dtype=None):
    """Values of the given shape. The seed is part of the (drawn) spec: a pure function."""
    rs = np.random.RandomState(spec["s"] % (2 ** 31))
    m = spec["m"]
    shape = tuple(shape)

    def one():
        if m == "normal":
            return rs.standard_normal(shape)
        if m == "offset":
            return 5.0 + 3 * rs.standard_normal(shape[1:] or (1,))[..., :].reshape(shape[1:]) + rs.standard_normal(shape)
        if m == "ints":
            return rs.randint(-3, 4, shape).astype(float)
        if m == "onehot":
            x = np.zeros(int(np.prod(shape)))
            if x.size:
                x[rs.randint(x.size)] = 1.0
            return x.reshape(shape)
        if m == "const":
            return np.full(shape, float(rs.randint(1, 4)))
        if m == "ramp":
            return np.arange(int(np.prod(shape)), dtype=float).reshape(shape) + 1
        if m == "big":
            return 1e4 * rs.standard_normal(shape)
        if m == "mixed":  # amplitudes differ strongly between elements
            return rs.standard_normal(shape) * 10.0 ** rs.randint(-3, 3, shape[1:])
        if m == "nans":
            x = rs.standard_normal(shape)
            x[rs.rand(*shape) < 0.1] = np.nan
            return x
        raise ValueError(m)
    x = one()
    if cplx:
        x = x + 1j * one()
    if dtype is not None:
        dt = np.dtype(dtype)
        if dt.kind in "ui":
            x = np.round(x.real if np.iscomplexobj(x) else x)
            if dt.kind == "u":
                x = np.abs(x)
            info = np.iinfo(dt)
            x = np.clip(x, info.min, info.max)
        elif dt.kind == "f":
            x = x.real if np.iscomplexobj(x) else x
            if dt.itemsize == 2:
                x = np.clip(x, -6e4, 6e4)
        elif dt.kind == "b":
            x = (x.real if np.iscomplexobj(x) else x) > 0
        x = x.astype(dt)
    return x


LAYOUTS = ["C", "F", "strided", "neg", "readonly", "list"]


def layout(x, how):
    """Same values in another memory layout / container."""
    if how == "C":
        return np.array(x, order="C")
    if how == "F":
        return np.array(x, order="F")
    if how == "strided":
        big = np.full(tuple(2 * s for s in x.shape), 7, x.dtype)
        v = big[tuple(slice(0, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == "neg":
        v = np.array(x[tuple(slice(None, None, -1) for _ in x.shape)])
        return v[tuple(slice(None, None, -1) for _ in x.shape)]
    if how == "readonly":
        v = np.array(x)
        v.flags.writeable = False
        return v
    if how == "list":
        return x.tolist()
    raise ValueError(how)


IN_DTYPES = ["complex128", "complex128", "float64", "complex64", "float32", "int64", "uint8", "uint16", "int16", ">f8", ">u2", "bool", "float16", "int8", "uint32", ">c16"]


# ------------------------------------------------------------------ times
@st.composite
def times(draw, n, unique=True, sort=True, maxgap=6):
    """n integer time stamps; increasing with gaps, possibly an offset (also negative)."""
    kind = draw(st.sampled_from(["arange", "gaps", "gaps", "period", "wide"]))
    off = draw(st.sampled_from([0, 0, 0, 1, 5, -3, 100]))
    if kind == "wide":
        maxgap, off = 4 * maxgap, draw(st.integers(-60, 60))
    if kind == "arange":
        t = list(range(n))
    elif kind == "period":
        p = draw(st.integers(2, 4))
        t = [p * i for i in range(n)]
    else:
        gaps = draw(st.lists(st.integers(1 if unique else 0, maxgap), min_size=n, max_size=n))
        t = np.cumsum([0] + gaps)[:n].tolist()
    t = [int(x) + off for x in t]
    if not sort and draw(st.integers(0, 3)):
        t = draw(st.permutations(t))
    return list(t)


#: a common offset of the time stamps of both cameras (clock ticks)
BASES = [0, 0, 0, 0, 2 ** 33 + 5, -2 ** 40, 2 ** 53 + 1]


def shifted(t, base):
    return t if t is None or isinstance(t, int) else [x + base for x in t]


TFORMS = ["int64", "int64", "list", "tuple", "strided", "readonly", "int32", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "fortran"]


def tform(t, salt=0):
    """time stamps as some kind of sequence of integers (by their content)"""
    if t is None or isinstance(t, (int, np.integer)):
        return t
    t = [int(x) for x in t]
    how = TFORMS[zlib.crc32(repr((t, salt)).encode()) % len(TFORMS)]
    if how in ("list", "tuple"):
        return list(t) if how == "list" else tuple(t)
    if how == "strided":
        a = np.full(2 * len(t) + 1, -77)
        a[1::2] = t
        return a[1::2]
    a = np.array(t, "int64")
    if how == "readonly":
        a.flags.writeable = False
    elif how == "fortran":
        a = a[::-1].copy()[::-1]
    elif how != "int64":
        ii = np.iinfo(how)
        if not len(t) or ii.min <= min(t) and max(t) <= ii.max:
            a = a.astype(how)
    return a


def shape_with_axis(ndim_max=3, tmax=20, kmax=5):
    @st.composite
    def s(draw):
        ndim = draw(st.integers(1, ndim_max))
        T = draw(st.one_of(st.integers(1, 6), st.integers(1, tmax)))
        shape = [draw(st.integers(1, kmax)) for _ in range(ndim)]
        axis = draw(st.integers(0, ndim - 1))
        shape[axis] = T
        return shape, (axis if draw(st.booleans()) else axis - ndim), T
    return s()


def case(**kw):
    return st.fixed_dictionaries(kw)
