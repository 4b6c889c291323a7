"""C19: smoothing filters, interpolation, weighted sum."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
import cddm
from cddm import avg, norm
from cddm import _core_nb as nb
defaults.wrap(globals())


def r_median(x):
    if np.iscomplexobj(x):
        return r_median(x.real) + 1j * r_median(x.imag)
    out = np.array(x, float)
    if x.shape[-1] > 2:
        out[..., 1:-1] = np.median(np.stack([x[..., :-2], x[..., 1:-1], x[..., 2:]]), axis=0)
    return out


def r_convolve(x):
    out = np.array(x, complex if np.iscomplexobj(x) else float)
    out[..., 1:-1] = .25 * x[..., :-2] + .5 * x[..., 1:-1] + .25 * x[..., 2:]
    return out


def r_denoise(x, n):
    for _ in range(n):
        x = r_convolve(r_median(x))
    return x


def r_mono(x, fn):
    out = np.array(x, float)
    for row in out.reshape(-1, out.shape[-1]):
        cur = np.nan
        for i in range(len(row)):
            cur = row[i] if np.isnan(cur) else cur if np.isnan(row[i]) else fn(cur, row[i])
            row[i] = cur
    return out


def values(c, shape, cplx):
    x = gen.expand(c["x"], shape, cplx=cplx)
    rs = np.random.RandomState(c["x"]["s"] % 99991)
    k = c["deco"]
    if k == "ties":
        x = np.round(x)
    elif k == "mono":
        x = np.sort(x, axis=-1) if not cplx else x
        if rs.rand() < .5:
            x = np.array(x[..., ::-1])
    elif k == "spikes":
        x = np.where(rs.rand(*shape) < .2, x + 1e3, x)
    elif k == "inf" and not cplx:
        x = np.where(rs.rand(*shape) < .2, np.where(rs.rand(*shape) < .5, np.inf, -np.inf), x)
    return x


@st.composite
def filt_cases(draw):
    n = draw(st.one_of(st.integers(3, 8), st.integers(3, 40), st.integers(41, 500)))
    lead = draw(st.lists(st.integers(1, 5), max_size=2))
    if n <= 40 and draw(st.integers(0, 9)) == 0:
        lead = [draw(st.integers(6, 300))]
    return {"shape": lead + [n], "fn": draw(st.sampled_from(["median", "convolve", "denoise", "decreasing", "increasing"])), "n": draw(st.sampled_from([None, 0, 1, 2, 3, 5])), "cplx": draw(st.booleans()),
            "x": draw(gen.content()), "deco": draw(st.sampled_from(["", "", "ties", "mono", "spikes", "inf"])), "dt": draw(st.sampled_from(["f8", "f8", "f4", "i8", "u1", "list"])), "lay": draw(st.sampled_from(gen.LAYOUTS[:-1])),
            "nan": draw(st.sampled_from([0, 0, 1, 2])), "out": draw(st.sampled_from(["", "", "given", "inplace"]))}


def check_filt(c, ctx):
    f = c["fn"]
    mono = f in ("decreasing", "increasing")
    cplx = c["cplx"] and not mono
    x = values(c, c["shape"], cplx)
    if f in ("convolve", "denoise"):
        x[~np.isfinite(x)] = 0
    dt = c["dt"]
    if dt in ("i8", "u1") and not cplx:
        x = np.clip(np.where(np.isfinite(x), np.round(x), 0), 0 if dt == "u1" else -10 ** 9, 255 if dt == "u1" else 10 ** 9).astype(dt)
    elif dt == "f4":
        x = x.astype("c8" if cplx else "f4")
    if x.dtype.kind in "fc" and c["nan"] and len(c["shape"]) > 1:
        x[c["x"]["s"] % x.shape[0]] = np.nan                 # masked-out elements
    if mono and c["nan"] == 2 and x.dtype.kind == "f":
        rs = np.random.RandomState(c["x"]["s"] % 1009)
        x = np.where(rs.rand(*x.shape) < .3, np.nan, x)      # undefined samples
    a = gen.layout(x, c["lay"])
    if dt == "list":
        a = x.tolist()
    if f == "denoise":
        n = 3 if c["n"] is None else c["n"]
        want = r_denoise(x, n)
        run = lambda z, **kw: avg.denoise(z) if c["n"] is None else avg.denoise(z, c["n"])
        out = ""
    else:
        out = c["out"]
        fn = getattr(avg, f)
        run = lambda z, **kw: fn(z, **kw)
        want = r_median(x) if f == "median" else r_convolve(x) if f == "convolve" else r_mono(x, min if f == "decreasing" else max)
    # leave something else than zeros in the memory which is reused
    junk = [np.full(want.shape, v, want.dtype) for v in (np.nan, 1e300, -7.)]
    del junk
    kw = {}
    if f == "denoise" and c["n"] == 0:
        a = np.asarray(a)
    if out and isinstance(a, np.ndarray) and a.flags.writeable:
        o = a if out == "inplace" and x.dtype in (np.dtype(float), np.dtype(complex)) else np.full(x.shape, 1e9, want.dtype)
        got = run(a, out=o)
        ctx.ok(got is o, "the given array is not returned")
        ctx.label("out")
    else:
        got = run(a)
    got = np.asarray(got)
    single = np.asarray(a).dtype.char in "fF"
    exact = mono or f == "median"
    with np.errstate(all="ignore"):
        m = np.abs(x[np.isfinite(x)])
    sc = m.max() if m.size else 0.
    ctx.ok(got.dtype.kind == want.dtype.kind or (f == "denoise" and c["n"] == 0), "data type %s" % got.dtype)
    if exact:
        ctx.equal(got, want, f)
    else:
        ctx.close(got, want, f, scale=sc, tol=1e-5 if single else 1e-12)
    if not (out == "inplace" and got is a):
        ctx.equal(np.asarray(a), x, "%s changed its input" % f)
        got2 = np.asarray(run(a))
        ctx.equal(got2, got, "%s is not deterministic" % f)
    # rows are independent
    if x.ndim > 1 and isinstance(a, np.ndarray) and not (out == "inplace"):
        row = (0,) * (x.ndim - 1)
        ctx.equal(np.asarray(run(np.array(x[row]))), got[row], "%s of a single row" % f)
    if mono and not np.isnan(x.astype(float)).any():
        d = np.diff(got, axis=-1)
        if np.isfinite(got).all():
            ctx.ok((d <= 0).all() if f == "decreasing" else (d >= 0).all(), "%s: not monotone" % f)
    ctx.label(f)
    return c["shape"][-1] > 3


# ------------------------------------------------------------------ interpolation
@st.composite
def int_cases(draw):
    m = draw(st.one_of(st.integers(2, 5), st.integers(2, 20)))
    log = draw(st.booleans())
    return {"log": log, "gaps": draw(st.lists(st.integers(1, 9), min_size=m - 1, max_size=m - 1)), "x0": draw(st.sampled_from([0, 0, 1, 1, 2, 7] if log else [0, -3, 5])), "step": draw(st.sampled_from([1., .25, 1e-3])),
            "xn": draw(st.lists(st.integers(-4 if not log else 0, 140), min_size=1, max_size=12)), "frac": draw(st.sampled_from([0., .5, .3])), "nodes": draw(st.booleans()), "lead": draw(st.lists(st.integers(1, 4), max_size=2)), "cplx": draw(st.booleans()),
            "y": draw(gen.content()), "rows": draw(st.booleans()), "layout": draw(st.sampled_from(["C", "F", "strided", "neg", "readonly"])), "rowx": draw(st.booleans()), "out": draw(st.booleans()), "wide": draw(st.sampled_from([1, 1, 100]))}


def r_interp(xn, x, y, log):
    """piecewise linear; logarithmic x on the segments starting at 1 or more"""
    j = np.clip(np.searchsorted(x, xn, side="left"), 1, len(x) - 1)
    x0, x1, y0, y1 = x[j - 1], x[j], y[..., j - 1], y[..., j]
    lin = (xn - x0) / (x1 - x0)
    if log:
        # times below 1 have no logarithm
        with np.errstate(all="ignore"):
            lg = np.log(xn / x0) / np.log(x1 / x0)
        lin = np.where((x0 >= 1) & (xn > 1), lg, lin)
    return (1 - lin) * y0 + lin * y1, np.abs(lin) + 1


def check_int(c, ctx):
    x = c["x0"] + np.cumsum([0] + [g * (c["wide"] if c["log"] else 1) for g in c["gaps"]])
    xn = np.array(c["xn"])
    if not c["log"]:
        x = x * c["step"]
        xn = (xn + c["frac"]) * c["step"]
    else:
        xn = np.maximum(xn, x[0])
    if c["nodes"]:
        xn = np.concatenate([xn, x])
        ctx.label("nodes")
    y = gen.expand(c["y"], c["lead"] + [len(x)], cplx=c["cplx"])
    want, lin = r_interp(xn, np.asarray(x, float), y, c["log"])
    fn = avg.log_interpolate if c["log"] else avg.interpolate
    X, XN, Y = x, xn, gen.layout(y, c["layout"])
    if c["rowx"] and c["lead"]:
        X = np.array(np.broadcast_to(x, c["lead"][-1:] + [len(x)]))
        XN = np.array(np.broadcast_to(xn, c["lead"][-1:] + [len(xn)]))
        ctx.label("x for each row")
    junk = [np.full(want.shape, v, want.dtype) for v in (np.nan, 1e300, -7.)]
    del junk
    kw = {"out": np.full(want.shape, 3., want.dtype)} if c["out"] else {}
    got = fn(XN, X, Y, **kw)
    if c["out"]:
        ctx.ok(got is kw["out"], "the given array is not returned")
    sc = np.abs(y).max() * lin
    ctx.close(got, want, "log_interpolate" if c["log"] else "interpolate", scale=np.broadcast_to(sc, want.shape), tol=1e-10)
    if c["nodes"]:
        ctx.close(got[..., len(c["xn"]):], y, "at the nodes", scale=np.abs(y).max(), tol=1e-12)
    ctx.equal(Y, y, "data was changed")
    ctx.equal(XN if XN.ndim == 1 else XN[0], xn, "x_new was changed")
    ctx.equal(X if X.ndim == 1 else X[0], x, "x was changed")
    got2 = fn(XN, X, Y)
    ctx.equal(got2, got, "not deterministic")
    ctx.label("log" if c["log"] else "linear")
    if (xn > x[-1]).any():
        ctx.label("beyond the last node")
    return len(x) > 2


# ------------------------------------------------------------------ weighted sum
@st.composite
def ws_cases(draw):
    return {"shape": draw(st.lists(st.integers(1, 6), min_size=1, max_size=3)), "cplx": draw(st.booleans()), "x": draw(gen.content()), "y": draw(gen.content()), "w": draw(st.sampled_from(["random", "zero", "one", "ends", "scalar", "row"])), "s": draw(st.integers(0, 10 ** 6)), "out": draw(st.booleans()), "lay": draw(st.sampled_from(gen.LAYOUTS))}


def check_ws(c, ctx):
    sh = tuple(c["shape"])
    x, y = gen.expand(c["x"], sh, cplx=c["cplx"]), gen.expand(c["y"], sh, cplx=c["cplx"])
    rs = np.random.RandomState(c["s"])

    def weight():
        k = c["w"]
        return rs.rand(*sh) if k == "random" else np.zeros(sh) if k == "zero" else np.ones(sh) if k == "one" else rs.randint(0, 2, sh).astype(float) if k == "ends" else float(rs.rand()) if k == "scalar" else rs.rand(sh[-1])
    w = weight()
    if c["cplx"]:
        w2 = weight()
        w = w + 1j * w2
        want = x.real * w.real + (1 - w.real) * y.real + 1j * (x.imag * w.imag + (1 - w.imag) * y.imag)
    else:
        want = x * w + (1 - w) * y
    kw = {"out": np.full(sh, 5., want.dtype)} if c["out"] else {}
    a = gen.layout(x, c["lay"])
    got = norm.weighted_sum(a, y, weight=w, **kw)
    if c["out"]:
        ctx.ok(got is kw["out"], "the given array is not returned")
    ctx.close(got, want, "weighted sum", scale=max(np.abs(x).max(), np.abs(y).max()), tol=1e-13)
    for p in ("real", "imag"):
        g, lo, hi = getattr(got, p), np.minimum(getattr(x, p), getattr(y, p)), np.maximum(getattr(x, p), getattr(y, p))
        e = 1e-12 * max(1., np.abs(x).max(), np.abs(y).max())
        ctx.ok(((g >= lo - e) & (g <= hi + e)).all(), "not between the terms")
    if c["w"] in ("zero", "one"):
        ctx.close(got, x if c["w"] == "one" else y, "weight %s" % c["w"], scale=max(np.abs(x).max(), np.abs(y).max()), tol=1e-13)
    ctx.equal(np.asarray(a), x, "data was changed")
    ctx.label(c["w"])
    return np.prod(sh) > 2


if __name__ == "__main__":
    raise SystemExit(harness.main("C19", [
        harness.Sub("filters", filt_cases(), check_filt, 1200, 30000, "rows of more than three samples"),
        harness.Sub("interpolation", int_cases(), check_int, 800, 20000, "at least three nodes"),
        harness.Sub("weighted_sum", ws_cases(), check_ws, 300, 6000, "more than two elements"),
    ], assumptions=["Rows have at least three samples (median, convolve assert it); nodes of interpolation increase strictly; logarithmic interpolation has integer arguments not below the first node (0 or more).",
                    "NaN data only as whole (masked) rows for median and convolve."]))
