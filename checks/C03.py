"""C03: pair counts, delay-resolved sums, background and statistics against their definition."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, large
from cddm.core import (cross_count, auto_count, cross_sum, auto_sum, cross_sum_fft, auto_sum_fft,
                       subtract_background, stats)
defaults.wrap(globals())

NM = ["none", "one", "short", "full", "long"]


def pick_n(mode, k, full):
    return {"none": None, "one": 1, "short": max(1, full - 1 - k), "full": full, "long": full + 1 + k}[mode]


@st.composite
def count_cases(draw):
    fn = draw(st.sampled_from(["cross", "cross", "auto"]))
    def tt():
        if draw(st.integers(0, 3)) == 0:
            return draw(st.integers(1, 40))
        n = draw(st.one_of(st.integers(1, 8), st.integers(1, 40)))
        return draw(gen.times(n, unique=draw(st.booleans()), sort=draw(st.booleans())))
    t1 = tt()
    t2 = draw(st.sampled_from(["none", "own"]))
    t2 = None if t2 == "none" else tt()
    if not isinstance(t1, int) and not isinstance(t2, int):
        base = draw(st.sampled_from(gen.BASES))
        t1, t2 = gen.shifted(t1, base), gen.shifted(t2, base)
    return {"fn": fn, "t1": t1, "t2": t2, "complex": draw(st.booleans()),
            "nmode": draw(st.sampled_from(NM)), "nk": draw(st.integers(0, 10)),
            "form": draw(st.sampled_from(["list", "array", "i32", "tuple"] if isinstance(t1, int) or abs(t1[0]) < 2 ** 31 - 9999 else ["list", "array", "tuple"]))}


def form(t, how):
    if t is None or isinstance(t, int):
        return t
    return {"list": list, "tuple": tuple, "array": np.array, "i32": lambda x: np.array(x, "int32")}[how](t)


def check_count(c, ctx):
    full_t = lambda t: list(range(t)) if isinstance(t, int) else t
    r1 = full_t(c["t1"])
    r2 = r1 if c["t2"] is None else full_t(c["t2"])
    if c["fn"] == "cross":
        full = ref.full_n_cross(r1, r2)
        n = pick_n(c["nmode"], c["nk"], full)
        got = cross_count(form(c["t1"], c["form"]), form(c["t2"], c["form"]), n=n, complex=c["complex"])
        want = ref.count_cross(r1, r2, full if n is None else n, c["complex"])
        if n is None or n >= full:
            ctx.ok(int(got.sum()) == len(r1) * len(r2), "counts do not sum to the number of pairs")
    else:
        full = ref.full_n_auto(r1)
        n = pick_n(c["nmode"], c["nk"], full)
        got = auto_count(form(c["t1"], c["form"]), n=n)
        want = ref.count_auto(r1, full if n is None else n)
        if n is None or n >= full:
            ctx.ok(int(got.sum()) == len(r1) * (len(r1) + 1) // 2, "counts do not sum to the number of pairs")
    ctx.ok(got.dtype.kind == "i", "count dtype %s" % got.dtype)
    ctx.equal(got, want, "%s count" % c["fn"])
    ctx.label(c["fn"] + ("-c" if c["complex"] else ""))
    return len(r1) > 2 and (want > 0).sum() > 2


@st.composite
def sum_cases(draw):
    shape, axis, T = draw(gen.shape_with_axis(4, 20, 4))
    fn = draw(st.sampled_from(["cross", "cross", "auto"]))
    c = {"shape": shape, "axis": axis, "fn": fn, "complex": draw(st.booleans()) if fn == "cross" else False,
         "inv": draw(st.booleans()) if fn == "cross" else False,
         "align": draw(st.booleans()), "lay": draw(st.sampled_from(gen.LAYOUTS)), "real": draw(st.booleans()),
         "dt": draw(st.sampled_from([None, None, "float32", "int64", "uint8", "complex64"])),
         "f": draw(gen.content()), "nmode": draw(st.sampled_from(NM)), "nk": draw(st.integers(0, 8)),
         "fft": draw(st.integers(0, 4)) == 0}
    k = draw(st.sampled_from(["none", "irr", "irr", "dup", "shuffled"]))
    if k == "none":
        c["t1"] = c["t2"] = None
        c["fft"] = False
    else:
        u, s = k != "dup" or c["fft"] or fn == "auto", k != "shuffled"
        c["t1"] = draw(gen.times(T, unique=u, sort=s))
        c["t2"] = draw(gen.times(T, unique=u, sort=s)) if draw(st.integers(0, 3)) else list(c["t1"])
        base = draw(st.sampled_from(gen.BASES))
        c["t1"], c["t2"] = gen.shifted(c["t1"], base), gen.shifted(c["t2"], base)
    return c


def check_sum(c, ctx):
    shape, axis = tuple(c["shape"]), c["axis"]
    T = shape[axis]
    x = gen.expand(c["f"], shape, not c["real"], c["dt"])
    f = gen.layout(x, c["lay"])
    t1 = gen.tform(c["t1"])
    t2 = gen.tform(c["t2"], 1)
    r1 = c["t1"] if t1 is not None else list(range(T))
    r2 = c["t2"] if t2 is not None else list(range(T))
    y = np.moveaxis(x, axis, 0)
    y = y.astype(complex if np.iscomplexobj(y) else float)
    kw = dict(axis=axis)
    if c["fn"] == "cross":
        full = ref.full_n_cross(r1, r2)
        n = pick_n(c["nmode"], c["nk"], full)
        N = full if n is None else n
        kw.update(n=n, complex=c["complex"], time_inversion=c["inv"])
        if c["fft"]:
            got = cross_sum_fft(f, t1, t2, **kw)
        else:
            got = cross_sum(f, t1, t2, align=c["align"], **kw)
        want, mag = ref.sum_cross(y, r1, r2, N, c["complex"], c["inv"])
    else:
        full = ref.full_n_auto(r1)
        n = pick_n(c["nmode"], c["nk"], full)
        N = full if n is None else n
        got = auto_sum_fft(f, t1, n=n, axis=axis) if c["fft"] else auto_sum(f, t1, n=n, axis=axis, align=c["align"])
        want, mag = ref.sum_auto(y, r1, N)
    total = np.abs(y).sum(0)[..., None]
    ctx.close(got, want, "%s sum" % c["fn"], scale=mag + total, tol=1e-11)
    ctx.ok(np.iscomplexobj(got) == np.iscomplexobj(x), "sum of %s data has dtype %s" % (x.dtype, got.dtype))
    if c["lay"] != "list":
        ctx.equal(f, x, "input was modified")
    ctx.label(c["fn"] + ("-c" if c["complex"] else "") + ("-inv" if c["inv"] else ""))
    ctx.label("regular" if t1 is None else "irregular")
    return T >= 3 and N >= 2 and np.abs(want).max() > 0


@st.composite
def stat_cases(draw):
    ndim = draw(st.integers(1, 4))
    return {"shape": [draw(st.integers(1, 6)) for _ in range(ndim)], "axis": draw(st.integers(-ndim, ndim - 1)),
            "f": draw(gen.content()), "g": draw(gen.content()), "real": draw(st.booleans()), "two": draw(st.booleans()),
            "bg": draw(st.sampled_from(["auto", "given", "scalarlike"])), "ret": draw(st.booleans()),
            "static": draw(st.sampled_from([0., 0., 1e3, -1e6])),
            "out": draw(st.sampled_from(["none", "new", "self"])), "lay": draw(st.sampled_from(["C", "F", "strided", "neg"]))}


def check_stats(c, ctx):
    shape, axis = tuple(c["shape"]), c["axis"]
    x = gen.expand(c["f"], shape, not c["real"])
    y = gen.expand(c["g"], shape, not c["real"])
    static = c.get("static", 0.)  # much larger than the fluctuations
    if static:
        x, y = x + static, y - static
    f, g = gen.layout(x, c["lay"]), gen.layout(y, c["lay"])
    T = shape[axis]

    def mean(a):
        return np.moveaxis(a, axis, 0).sum(0) / T

    def var(a):
        return (np.abs(np.moveaxis(a, axis, 0) - mean(a)) ** 2).sum(0) / T
    sc = np.abs(x).max() + np.abs(y).max() + 1e-30
    if c["two"]:
        (m1, m2), (v1, v2) = stats(f, g, axis=axis)
        ctx.close(m2, mean(y), "mean 2", scale=sc, tol=1e-12)
        ctx.close(v2, var(y), "var 2", scale=sc ** 2, tol=1e-12)
        if static:
            ctx.close(v2, var(y), "var 2 of static %g" % static, scale=var(y) + 1e-9, tol=1e-8)
    else:
        m1, v1 = stats(f, axis=axis)
    ctx.close(m1, mean(x), "mean", scale=sc, tol=1e-12)
    ctx.close(v1, var(x), "var", scale=sc ** 2, tol=1e-12)
    if static:
        ctx.close(v1, var(x), "var of static %g" % static, scale=var(x) + 1e-9, tol=1e-8)
    ctx.equal(f, x, "input modified by stats")
    if c["bg"] == "auto":
        bg = None
        wbg = mean(x)
    else:
        bg = wbg = gen.expand(c["g"], x.shape[:axis % x.ndim] + x.shape[axis % x.ndim + 1:], not c["real"])
    bg0 = None if bg is None else np.array(bg)
    out = {"none": None, "new": np.zeros_like(x), "self": f}[c["out"]]
    r = subtract_background(f, axis=axis, bg=bg, return_bg=c["ret"], out=out)
    if c["ret"]:
        r, b = r
        ctx.close(b, wbg, "returned background", scale=sc, tol=1e-12)
    ctx.close(r, x - np.expand_dims(wbg, axis), "background subtracted", scale=sc + np.abs(wbg).max(), tol=1e-12)
    if out is not None:
        ctx.ok(r is out, "result is not the output array")
    if c["out"] != "self":
        ctx.equal(f, x, "input modified by subtract_background")
    if bg is not None:
        ctx.equal(bg, bg0, "background modified")
    return T > 1


def check_real(c, ctx):
    """counts and sums of hundreds of frames"""
    f1, f2, y1, y2, axis = large.data(c)
    t1, t2, r1, r2 = large.times(c)
    n = c["n"]
    N = large.full_n(c, r1, r2) if n is None else n
    cx, fft = c["complex"] and c["cross"], c["method"] == "fft"
    want = ref.analysis(y1, y2, r1, r2, N, cx, "corr", 7)
    A = np.abs(y1.astype(complex)).max() + (np.abs(y2.astype(complex)).max() if c["cross"] else 0)
    kw = dict(axis=axis, n=n)
    if not fft:
        kw["align"] = c["align"]
    def part(w, y):
        return w if np.iscomplexobj(y) else w.real
    what = "%s sum of %d frames%s" % ("cross" if c["cross"] else "auto", c["T"], ", fft" if fft else "")
    if c["cross"]:
        ctx.equal(cross_count(c["T"] if t1 is None else t1, c["T"] if t2 is None else t2, n=n, complex=cx), want[1], "cross count of %d frames" % c["T"])
        run = cross_sum_fft if fft else cross_sum
        if t1 is not None or not fft:
            ctx.close(run(f1, t1, t2, complex=cx, **kw), part(want[3], f1), what, scale=A * c["T"], tol=1e-11)
            ctx.close(run(f2, t2, t1, complex=cx, time_inversion=True, **kw), part(want[4], f2), what + " inverted", scale=A * c["T"], tol=1e-11)
    else:
        ctx.equal(auto_count(c["T"] if t1 is None else t1, n=n), want[1], "auto count of %d frames" % c["T"])
        run = auto_sum_fft if fft else auto_sum
        if t1 is not None or not fft:
            ctx.close(run(f1, t1, **kw), part(want[3], f1), what, scale=A * c["T"], tol=1e-11)
    bg, var = stats(f1, axis=axis)
    z = y1.astype(complex)
    ctx.close(bg, z.mean(0), "background", scale=A, tol=1e-12)
    ctx.close(var, (np.abs(z - z.mean(0)) ** 2).mean(0), "variance", scale=A * A, tol=1e-12)
    ctx.label("%s %s" % ("cross" if c["cross"] else "auto", c["irr"]))
    return N > 1


SUBS = [
    harness.Sub("counts", count_cases(), check_count, 800, 40000, ">2 frames, >2 non-empty delays"),
    harness.Sub("sums", sum_cases(), check_sum, 1100, 50000, "T>=3, >=2 delays, non-zero sums"),
    harness.Sub("stats", stat_cases(), check_stats, 300, 10000, "more than one frame"),
    harness.Sub("real_size", large.cases(), check_real, 150, 6000, "more than one delay"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C03", SUBS, assumptions=["repeated time stamps only with the direct functions"]))
