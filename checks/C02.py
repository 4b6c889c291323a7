"""C02: FFT-based correlation and sums against the pair-sum definition and the direct functions."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref
from cddm import conf
from cddm.core import (cross_correlate, auto_correlate, cross_correlate_fft, auto_correlate_fft,
                       cross_sum, cross_sum_fft, auto_sum, auto_sum_fft)
defaults.wrap(globals())

LIBS = ["numpy", "scipy", "pyfftw"]


@st.composite
def cases(draw):
    shape, axis, T = draw(gen.shape_with_axis(4, 24, 4))
    fn = draw(st.sampled_from(["cc", "cc", "ac", "cs", "cs", "as"]))
    c = {"shape": shape, "axis": axis, "fn": fn, "lib": draw(st.sampled_from(LIBS)),
         "complex": draw(st.booleans()) if fn != "as" else False,
         "inv": draw(st.booleans()) if fn == "cs" else False,
         "real": draw(st.booleans()) if fn in ("cs", "as") else False,
         "dt": draw(st.sampled_from(gen.IN_DTYPES)) if fn in ("cc", "ac") else None,
         "lay": draw(st.sampled_from(gen.LAYOUTS)),
         "f1": draw(gen.content()), "f2": draw(gen.content()), "base": draw(st.sampled_from(gen.BASES)),
         "nmode": draw(st.sampled_from(["none", "one", "short", "full", "long"])), "nk": draw(st.integers(0, 10))}
    if fn in ("cc", "ac") and draw(st.integers(0, 2)) == 0:
        c["t1"] = c["t2"] = None
    else:
        c["t1"] = draw(gen.times(T, sort=draw(st.integers(0, 4)) > 0))
        c["t2"] = draw(gen.times(T, sort=draw(st.integers(0, 4)) > 0)) if draw(st.integers(0, 3)) else list(c["t1"])
    c["t1"], c["t2"] = gen.shifted(c["t1"], c["base"]), gen.shifted(c["t2"], c["base"])
    return c


def pick_n(mode, k, full):
    return {"none": None, "one": 1, "short": max(1, full - 1 - k), "full": full, "long": full + 1 + k}[mode]


def check(c, ctx):
    old = conf.set_fftlib(c["lib"])
    try:
        return _check(c, ctx)
    finally:
        conf.set_fftlib(old)


def _check(c, ctx):
    shape, axis, fn = tuple(c["shape"]), c["axis"], c["fn"]
    T = shape[axis]
    x1 = gen.expand(c["f1"], shape, not c["real"], c["dt"])
    x2 = gen.expand(c["f2"], shape, not c["real"], c["dt"])
    f1, f2 = gen.layout(x1, c["lay"]), gen.layout(x2, c["lay"])
    t1 = gen.tform(c["t1"])
    t2 = gen.tform(c["t2"], 1)
    r1 = c["t1"] if t1 is not None else list(range(T))
    r2 = c["t2"] if t2 is not None else list(range(T))
    full = ref.full_n_auto(r1) if fn in ("ac", "as") else ref.full_n_cross(r1, r2)
    n = pick_n(c["nmode"], c["nk"], full)
    N = full if n is None else n
    y1, y2 = np.moveaxis(x1, axis, 0), np.moveaxis(x2, axis, 0)
    if c["dt"] is not None:     # (magnitudes of integer data must not overflow)
        y1, y2 = y1.astype(complex), y2.astype(complex)
    kw = dict(axis=axis, n=n)
    cx = c["complex"]
    if fn == "cc":
        fft, direct = (f(f1, f2, t1, t2, complex=cx, **kw) for f in (cross_correlate_fft, cross_correlate))
        want, mag = ref.cross(y1, y2, r1, r2, N, cx)
        total = np.sqrt((np.abs(y1) ** 2).sum(0) * (np.abs(y2) ** 2).sum(0))
    elif fn == "ac":
        fft, direct = (f(f1, t1, complex=cx, **kw) for f in (auto_correlate_fft, auto_correlate))
        want, mag = ref.auto(y1, r1, N, cx)
        total = (np.abs(y1) ** 2).sum(0)
    elif fn == "cs":
        fft, direct = (f(f1, t1, t2, complex=cx, time_inversion=c["inv"], **kw) for f in (cross_sum_fft, cross_sum))
        if c["inv"] and not cx:
            want, mag = ref.sum_cross(y1, r1, r2, N, False)
        else:
            want, mag = ref.sum_cross(y1, r1, r2, N, cx, c["inv"])
        total = np.sqrt((np.abs(y1) ** 2).sum(0) * T)
    else:
        fft, direct = auto_sum_fft(f1, t1, **kw), auto_sum(f1, t1, **kw)
        want, mag = ref.sum_auto(y1, r1, N)
        total = np.sqrt((np.abs(y1) ** 2).sum(0) * T)
    scale = total[..., None] + mag
    ctx.close(fft, want, "%s fft (%s) against definition" % (fn, c["lib"]), scale=scale, tol=1e-11)
    ctx.close(fft, direct, "%s fft (%s) against direct" % (fn, c["lib"]), scale=scale, tol=1e-11)
    ctx.ok(np.asarray(fft).dtype == np.asarray(direct).dtype, "dtype %s differs from direct %s" % (fft.dtype, direct.dtype))
    if c["lay"] != "list":
        ctx.equal(f1, x1, "first input was modified")
        ctx.equal(f2, x2, "second input was modified")
    for a, b in ((t1, c["t1"]), (t2, c["t2"])):
        ctx.ok(b is None or list(map(int, a)) == list(b), "time stamps were modified")
    ctx.label(fn + ("-c" if cx else ""))
    ctx.label(c["lib"])
    ctx.label("regular" if t1 is None else "irregular")
    return T >= 3 and N >= 2 and np.abs(want).max() > 0


def large():
    return gen.case(T=st.integers(40, 160), big=st.sampled_from([1, 1, 1, 4, 9]), K=st.integers(1, 8), f1=gen.content(), f2=gen.content(), lib=st.sampled_from(LIBS),
                    n=st.integers(1, 200), irr=st.booleans(), t=gen.times(160, maxgap=3), u=gen.times(160, maxgap=3), cx=st.booleans())


def check_large(c, ctx):
    old = conf.set_fftlib(c["lib"])
    try:
        T, big = c["T"] * c["big"], c["big"]
        shape = (T, c["K"])
        f1, f2 = gen.expand(c["f1"], shape), gen.expand(c["f2"], shape)
        long = lambda t: (np.array(t[:c["T"]])[:, None] * big + np.arange(big)).ravel()
        t = (long(c["t"]), long(c["u"])) if c["irr"] else (None, None)
        n = c["n"] * big - c["n"] % big
        a = cross_correlate_fft(f1, f2, *t, n=n, complex=c["cx"])
        b = cross_correlate(f1, f2, *t, n=n, complex=c["cx"])
        scale = np.sqrt((np.abs(f1) ** 2).sum(0) * (np.abs(f2) ** 2).sum(0))[:, None]
        ctx.close(a, b, "large cross fft/direct", scale=scale, tol=1e-10)
        a = auto_correlate_fft(f1, t[0], n=n, complex=c["cx"])
        b = auto_correlate(f1, t[0], n=n, complex=c["cx"])
        ctx.close(a, b, "large auto fft/direct", scale=(np.abs(f1) ** 2).sum(0)[:, None], tol=1e-10)
        if c["irr"]:
            a = cross_sum_fft(f1, *t, n=n, complex=c["cx"])
            b = cross_sum(f1, *t, n=n, complex=c["cx"])
            ctx.close(a, b, "large sum fft/direct", scale=np.abs(f1).sum(0)[:, None], tol=1e-10)
    finally:
        conf.set_fftlib(old)
    return True


SUBS = [
    harness.Sub("fft_equals_direct", cases(), check, 1500, 60000, "T>=3, >=2 delays, non-zero result"),
    harness.Sub("large", large(), check_large, 40, 1500, "always (40..1440 frames)"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C02", SUBS, assumptions=[
        "unique time stamps (documented FFT domain); mkl_fft not installed here; tolerance 1e-11 of the spectral norm"]))
