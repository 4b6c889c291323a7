"""Cases of the size of a real measurement: hundreds of frames of a few elements."""
import numpy as np
from hypothesis import strategies as st
from vlib import gen, ref, stream


@st.composite
def cases(draw, tmin=130, tmax=700):
    T = draw(st.integers(tmin, tmax))
    irr = draw(st.sampled_from(["no", "no", "jitter", "gaps", "shuffled"]))
    c = {"T": T, "k": draw(st.sampled_from([[1], [2], [3], [1, 2], [2, 1, 1]])), "axis": draw(st.integers(0, 3)), "cross": draw(st.booleans()),
         "complex": draw(st.booleans()), "n": draw(st.one_of(st.none(), st.integers(1, 40), st.integers(1, 1200), st.just(T))), "s": draw(st.integers(0, 10 ** 6)),
         "irr": irr, "gap": draw(st.integers(2, 5)), "align": draw(st.booleans()), "f1": draw(gen.content(["normal", "offset", "ints"])), "f2": draw(gen.content(["normal", "offset"])),
         "method": draw(st.sampled_from(["corr", "fft", "diff"])), "norm": draw(st.sampled_from([1, 2, 3, 5, 6, 7])), "dt": draw(st.sampled_from(["complex128", "complex128", "float64", "uint8"]))}
    return c


def times(c):
    """-> t1, t2 for the call, r1, r2"""
    T, rs = c["T"], np.random.RandomState(c["s"])
    reg = np.arange(T)
    if c["irr"] == "no":
        return None, None, reg, reg
    if c["irr"] == "jitter":
        t = [reg * c["gap"] + rs.randint(0, c["gap"], T) for _ in range(2)]
    else:
        t = [np.cumsum(rs.randint(1, c["gap"] + 1, T)) for _ in range(2)]
        if c["irr"] == "shuffled":
            t = [rs.permutation(x) for x in t]
    if not c["cross"]:
        t[1] = t[0]
    return t[0], t[1], t[0], t[1]


def data(c):
    """-> f1, f2 with time along the drawn axis, y1, y2 with time first, axis"""
    axis = min(c["axis"], len(c["k"]))
    shape = (c["T"],) + tuple(c["k"])
    y1 = gen.expand(c["f1"], shape, dtype=c["dt"])
    y2 = gen.expand(c["f2"], shape, dtype=c["dt"]) if c["cross"] else None
    mv = lambda y: None if y is None else np.ascontiguousarray(np.moveaxis(y, 0, axis))
    return mv(y1), mv(y2), y1, y2, axis


def full_n(c, r1, r2):
    lo1, hi1, lo2, hi2 = (int(v) for v in (r1.min(), r1.max(), r2.min(), r2.max()))
    return 1 + max(hi2 - lo1, hi1 - lo2) if c["cross"] else 1 + hi1 - lo1
