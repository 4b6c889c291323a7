"""C20: FFT window functions."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
import cddm
from cddm import window, conf, video as V
defaults.wrap(globals())

SHAPE = st.lists(st.one_of(st.integers(1, 12), st.integers(1, 40), st.sampled_from([64, 33, 2])), min_size=2, max_size=2)


def build(c, out=None, shape=None):
    k, p = c["kind"], c["p"]
    shape = tuple(c["shape"]) if shape is None else shape
    kw = {} if out is None else {"out": out}
    if k == "blackman":
        return window.blackman(shape, **kw)
    if k == "hann":
        return window.hann(shape, **kw)
    return getattr(window, k)(shape, p, **kw)


def formula(kind, p, r):
    """scalar, from the documentation"""
    if kind == "gaussian":
        return math.exp(-(r / p) ** 2 / 2)
    if r >= 1:
        return 0.
    if kind == "blackman":
        return .42 + .5 * math.cos(math.pi * r) + .08 * math.cos(2 * math.pi * r)
    a = 1. if kind == "hann" else p
    if r <= 1 - a:
        return 1.
    return .5 * (1 + math.cos(math.pi * (r - (1 - a)) / a))


@st.composite
def win_cases(draw):
    k = draw(st.sampled_from(["blackman", "gaussian", "tukey", "hann"]))
    p = 0.
    if k == "gaussian":
        p = draw(st.one_of(st.floats(.01, 5.), st.sampled_from([.4, 1., 100.])))
    elif k == "tukey":
        p = draw(st.one_of(st.floats(0., 1.), st.sampled_from([0., 1., .1, .5, 1e-9])))
    sh = draw(SHAPE)
    if draw(st.integers(0, 19)) == 0:      # the size of real frames
        sh = draw(st.permutations([draw(st.one_of(st.integers(65, 1400), st.sampled_from([128, 256, 512, 1024, 1025]))), draw(st.integers(1, 600))]))
    return {"kind": k, "p": p, "shape": sh, "square": draw(st.sampled_from([False, False, False, True])), "st": draw(st.sampled_from(["tuple", "list"])), "out": draw(st.sampled_from([None, None, "C", "F", "strided", "neg", "f4"])), "fill": draw(st.sampled_from([0., 7., float("nan"), -1.]))}


def check_win(c, ctx):
    if c["square"]:
        c["shape"] = [min(c["shape"])] * 2
    H, W = c["shape"]
    shape = (H, W) if c["st"] == "tuple" else [H, W]
    tol = 1e-13
    if c["out"]:
        o = gen.layout(np.full((H, W), c["fill"], "f4" if c["out"] == "f4" else float), "C" if c["out"] == "f4" else c["out"])
        w = build(c, o, shape)
        ctx.ok(w is o, "the given array is not returned")
        tol = 1e-6 if c["out"] == "f4" else tol
        ctx.label("out")
    else:
        w = build(c, None, shape)
        ctx.ok(w.dtype == conf.FDTYPE, "data type %s" % w.dtype)
    ctx.ok(w.shape == (H, W), "shape %s" % (w.shape,))
    want = np.empty((H, W))
    edge = 0
    pick = range(H), range(W)
    if H * W > 1600:    # some of the rows and columns
        rs = np.random.RandomState(H * W)
        pick = [sorted(set([0, n // 2, n - 1]) | set(rs.randint(0, n, 25))) for n in (H, W)]
        ctx.label("large")
    for i in pick[0]:
        for j in pick[1]:
            y, x = (2 * i + 1 - H) / H, (2 * j + 1 - W) / W
            want[i, j] = formula(c["kind"], c["p"], math.sqrt(x * x + y * y))
    steep = c["kind"] == "tukey" and 0 < c["p"] < .01
    if steep:  # narrow edges amplify the rounding of the radius
        tol = tol / c["p"] * 10 if c["p"] > 1e-6 else 1.
    ctx.close(w[np.ix_(*pick)], want[np.ix_(*pick)], c["kind"], scale=1., tol=tol)
    ctx.ok((w >= -1e-7).all() and (w <= 1 + 1e-7).all(), "values outside of 0..1: %r %r" % (w.min(), w.max()))
    ctx.close(w, w[::-1], "not symmetric along the first axis", scale=1., tol=tol)
    ctx.close(w, w[:, ::-1], "not symmetric along the second axis", scale=1., tol=tol)
    if H == W:
        ctx.close(w, w.T, "not symmetric under transposition", scale=1., tol=tol)
        ctx.label("square")
    else:
        ctx.close(w, build(c, None, (W, H)).T, "window of the transposed shape", scale=1., tol=tol)
    # decreases from the centre
    cen = w[(H - 1) // 2]
    ctx.ok((np.diff(cen[(W - 1) // 2:]) <= tol + 1e-12).all(), "does not decrease from the centre")
    # limiting cases
    if c["kind"] == "hann":
        ctx.close(w, window.tukey((H, W), 1.), "hann is the tukey window with full taper", scale=1., tol=tol)
    if c["kind"] == "tukey" and c["p"] == 0.:
        ctx.ok(set(np.unique(w)) <= {0., 1.}, "zero taper is not flat")
        ctx.label("flat")
    # does not depend on earlier calls
    first = np.array(w)
    other = build(c, None, (H, W))
    ctx.close(other, first, "repeated call", scale=1., tol=tol)
    other[...] = 5
    ctx.close(build(c, None, (H, W)), first, "window changed through the array returned earlier", scale=1., tol=tol)
    ctx.label(c["kind"])
    return H > 2 and W > 2


@st.composite
def bad_cases(draw):
    k = draw(st.sampled_from(["gaussian", "tukey"]))
    p = draw(st.one_of(st.floats(-10, 0, exclude_max=(k == "tukey")), st.floats(1, 10, exclude_min=True) if k == "tukey" else st.just(0.)))
    return {"kind": k, "p": p, "shape": draw(SHAPE), "out": draw(st.booleans())}


def check_bad(c, ctx):
    o = np.full(tuple(c["shape"]), 3.)
    try:
        build(c, o if c["out"] else None)
    except ValueError:
        ctx.ok((o == 3.).all(), "output was written before the error")
        return True
    ctx.fail("%s with parameter %r is accepted" % (c["kind"], c["p"]))


# ------------------------------------------------------------------ applying windows to a video
@st.composite
def apply_cases(draw):
    cams = draw(st.sampled_from([1, 2]))
    ws = [{"kind": k, "p": {"gaussian": .4, "tukey": .3}.get(k, 0.)} for k in draw(st.lists(st.sampled_from(["blackman", "gaussian", "tukey", "hann"]), min_size=cams, max_size=cams))]
    return {"shape": draw(st.lists(st.integers(2, 12), min_size=2, max_size=2)), "ws": ws, "n": draw(st.integers(1, 5)), "nw": draw(st.sampled_from(["same", "repeat", "short"])), "x": draw(gen.content(["normal", "ints", "big"])), "dt": draw(st.sampled_from(["uint8", "uint16", "float32", "float64", "complex128"])), "inplace": draw(st.booleans()), "dtype": draw(st.sampled_from([None, None, "float32", "float64"])), "src": draw(st.sampled_from(["gen", "list"]))}


def check_apply(c, ctx):
    sh = tuple(c["shape"])
    cams, n = len(c["ws"]), c["n"]
    x = gen.expand(c["x"], (n, cams) + sh, cplx=c["dt"] == "complex128", dtype=c["dt"])
    ws = tuple(build(dict(w, shape=sh)) for w in c["ws"])
    inplace = c["inplace"] and x.dtype.kind in "fc"
    frames = [tuple(np.array(x[i, k]) for k in range(cams)) for i in range(n)]
    nw = n - 1 if c["nw"] == "short" else n
    import itertools
    wv = itertools.repeat(ws) if c["nw"] == "repeat" else (ws,) * nw
    src = (f for f in frames) if c["src"] == "gen" else frames
    dtype = None if (x.dtype.kind == "c") else c["dtype"]
    out = list(V.multiply(src, wv, inplace=inplace, dtype=dtype))
    ctx.ok(len(out) == min(n, nw), "%d frames" % len(out))
    for i, fr in enumerate(out):
        ctx.ok(len(fr) == cams, "number of cameras")
        for k in range(cams):
            want = x[i, k] * ws[k]
            tol = 1e-6 if (dtype or "").endswith("32") or (inplace and x.dtype == np.float32) or x.dtype == np.float32 else 1e-14
            ctx.close(fr[k], want, "frame %d of camera %d" % (i, k), tol=tol)
            if inplace:
                ctx.ok(fr[k] is frames[i][k], "not in place")
            else:
                ctx.equal(frames[i][k], x[i, k], "input frame was changed")
    for k in range(cams):
        ctx.equal(ws[k], build(dict(c["ws"][k], shape=sh)), "the window was changed")
    if c["ws"][0] != c["ws"][-1]:
        ctx.label("different windows")
    return n > 1


# ------------------------------------------------------------------ overview plot
@st.composite
def plot_cases(draw):
    return {"shape": draw(SHAPE), "alpha": draw(st.sampled_from([.5, 0., 1., .2])), "sigma": draw(st.sampled_from([.4, 1., .05]))}


def check_plot(c, ctx):
    """the overview shows the four windows with the given parameters"""
    import matplotlib.pyplot as plt
    sh = tuple(c["shape"])
    fig = plt.figure()
    try:
        window.plot_windows(shape=sh, alpha=c["alpha"], sigma=c["sigma"])
        ims = [(a.get_title(), a.images[0]) for a in fig.axes if a.images]
        ctx.ok(len(ims) == 4, "%d images" % len(ims))
        for k, p in [("blackman", 0.), ("hann", 0.), ("tukey", c["alpha"]), ("gaussian", c["sigma"])]:
            im = [i for t, i in ims if t.startswith(k)]
            ctx.ok(len(im) == 1, "%d images with the title %s" % (len(im), k))
            ctx.close(np.asarray(im[0].get_array(), float), build({"kind": k, "p": p, "shape": sh}), "image of " + k, scale=1., tol=1e-12)
            ctx.ok(tuple(im[0].get_clim()) == (0., 1.), "limits of the colours %r" % (im[0].get_clim(),))
    finally:
        plt.close(fig)
    return min(sh) > 2


if __name__ == "__main__":
    raise SystemExit(harness.main("C20", [
        harness.Sub("windows", win_cases(), check_win, 800, 12000, "at least three pixels along both axes"),
        harness.Sub("invalid", bad_cases(), check_bad, 120, 2000, "all"),
        harness.Sub("apply", apply_cases(), check_apply, 300, 5000, "more than one frame"),
        harness.Sub("overview", plot_cases(), check_plot, 10, 200, "at least three pixels along both axes"),
    ], assumptions=["2D shapes of at least one pixel, finite parameters; the taper of the tukey window at a radius within rounding distance of a narrow (< 1e-6) edge is not compared."]))
