"""Cases for the iterative (out-of-memory) functions: drawn options, frame sources, comparison of tuples."""
import contextlib, io
import numpy as np
from hypothesis import strategies as st
from vlib import gen


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@st.composite
def jittered_times(draw, T, same_base=None):
    """Increasing times of two synchronised cameras: frame i of both lies in the i-th time slot."""
    p = draw(st.integers(1, 4))
    gaps = draw(st.one_of(st.just([1] * T), st.lists(st.integers(1, 3), min_size=T, max_size=T)))
    base = (np.cumsum([0] + gaps)[:T] * p).tolist()
    off = draw(st.sampled_from([0, 0, 7, -4]))
    t1 = [int(b) + draw(st.integers(0, p - 1)) + off for b in base]
    t2 = [int(b) + draw(st.integers(0, p - 1)) + off for b in base]
    return p, t1, t2


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


SOURCES = ["list", "gen", "fromarrays", "reuse", "tuple"]


def frames(src, x1, x2, touched):
    """Iterable of frames. 'reuse': the source overwrites its frame buffer (a camera driver);
    touched: list which gets a message if a delivered frame was modified by the consumer."""
    cross = x2 is not None
    if src == "list":
        return [(a, b) for a, b in zip(x1, x2)] if cross else [a for a in x1]
    if src == "tuple":
        return tuple((a, b) for a, b in zip(x1, x2)) if cross else [(a,) for a in x1]
    if src == "fromarrays":
        from cddm.video import fromarrays
        return fromarrays((x1, x2)) if cross else fromarrays((x1,))

    def g():
        b1, b2 = np.empty(x1.shape[1:], x1.dtype), np.empty(x1.shape[1:], x1.dtype)
        for i in range(len(x1)):
            if src == "reuse":
                b1[...] = x1[i]
                if cross:
                    b2[...] = x2[i]
                yield (b1, b2) if cross else b1
                if not np.array_equal(b1, x1[i]) or cross and not np.array_equal(b2, x2[i]):
                    touched.append("frame %d modified" % i)
            else:
                yield (x1[i], x2[i]) if cross else x1[i]
    return g()


def compare(ctx, got, want, mask, scale, what, diff, tol=1e-11, levels=False):
    """got: data tuple of cddm; want: (cor, count, sq, m1, m2) for unmasked frames."""
    want = [want[0], want[1], want[3], want[4]] if diff else list(want)
    names = ["cor", "count", "sum1", "sum2"] if diff else ["cor", "count", "sq", "sum1", "sum2"]
    ctx.ok(isinstance(got, tuple) and len(got) == len(want), "%s: data tuple of length %s" % (what, len(got)))
    for nm, g, w in zip(names, got, want):
        ctx.ok((g is None) == (w is None), "%s %s: %s, expected %s" % (what, nm, type(g), type(w)))
        if w is None:
            continue
        if nm == "count":
            ctx.equal(g, w, "%s count" % what)
            continue
        if mask is not None:
            w = w.copy()
            w[..., ~mask, :] = np.nan
        ctx.close(g, w, "%s %s" % (what, nm), scale=scale, tol=tol)
