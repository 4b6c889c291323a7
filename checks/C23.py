"""C23: reshaping (thread divisor, mask) is transparent."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
import cddm
from cddm import core, multitau, norm as N
defaults.wrap(globals())

DIM = st.sampled_from([1, 2, 3, 4, 5, 6, 8])


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


@st.composite
def frame_cases(draw, maxdim=3):
    sh = draw(st.lists(DIM, min_size=1, max_size=maxdim).filter(lambda s: np.prod(s) <= 120))
    if maxdim == 3 and draw(st.integers(0, 7)) == 0:
        sh = draw(st.lists(st.sampled_from([2, 1, 3]), min_size=4, max_size=5))
    if draw(st.integers(0, 9)) == 0:
        sh[draw(st.integers(0, len(sh) - 1))] *= draw(st.integers(2, 12))     # frames of up to a thousand elements
    total = int(np.prod(sh))
    c = {"shape": sh, "axis": draw(st.integers(0, len(sh))), "neg": draw(st.booleans())}
    c["mask"] = None
    if draw(st.sampled_from([False, False, True])):
        c["mask"] = draw(st.sampled_from(["random", "one", "all", "block", "lasttrue"]))
        c["mseed"] = draw(st.integers(0, 999))
        c["axis"], c["neg"] = 0, c["neg"] and draw(st.booleans())
        total = int(mask_of(c).sum())
    c["div"] = draw(st.one_of(st.none(), st.sampled_from(divisors(total)), st.sampled_from(divisors(total))))
    return c


def mask_of(c):
    if c["mask"] is None:
        return None
    sh = tuple(c["shape"])
    m = np.zeros(sh, bool)
    if c["mask"] == "random":
        m = np.random.RandomState(c["mseed"]).rand(*sh) > .5
    elif c["mask"] == "all":
        m[...] = True
    elif c["mask"] == "block":
        m[tuple(slice(0, (s + 1) // 2) for s in sh)] = True
    elif c["mask"] == "one":
        m.reshape(-1)[c["mseed"] % m.size] = True
    else:
        m[...] = True
        m.reshape(-1)[0] = m.size == 1
    if not m.any():
        m.reshape(-1)[-1] = True
    return m


def frames_of(c, n, spec, cplx=True):
    """(n,)+frame shape data, and the same data with the calculation axis where it was drawn."""
    x = gen.expand(spec, (n,) + tuple(c["shape"]), cplx=cplx)
    return x, np.ascontiguousarray(np.moveaxis(x, 0, c["axis"]))


def axis_of(c):
    return c["axis"] - (len(c["shape"]) + 1) if c["neg"] else c["axis"]


# ------------------------------------------------------------------ input
@st.composite
def input_cases(draw):
    c = draw(frame_cases())
    c.update(n=draw(st.integers(1, 6)), lay=draw(st.sampled_from(gen.LAYOUTS)), cplx=draw(st.booleans()), x=draw(gen.content(["ramp", "normal"])))
    return c


def check_input(c, ctx):
    x, f = frames_of(c, c["n"], c["x"], c["cplx"])
    g = gen.layout(f, c["lay"])
    keep = np.array(f)
    m = mask_of(c)
    r, shape = core.reshape_input(g, axis=axis_of(c), thread_divisor=c["div"], mask=m)
    ctx.equal(np.asarray(g), keep, "input was changed")
    want = x if m is None else x[:, m]
    ctx.ok(tuple(shape) == want.shape[1:], "frame shape %s, expected %s" % (shape, want.shape[1:]))
    if c["div"] is not None:
        ctx.ok(r.ndim == 3, "dimensions %s" % (r.shape,))
    # the axis to be used with the reshaped data is the given one, as far as it exists
    ax = axis_of(c)
    ax = max(-r.ndim, min(ax, r.ndim - 1))
    back = np.moveaxis(r, ax, 0)
    ctx.ok(back.shape[0] == c["n"], "calculation axis: shape %s" % (r.shape,))
    if c["div"] is not None:
        ctx.ok(back.shape[1] == c["div"], "shape %s for divisor %d" % (back.shape, c["div"]))
    ctx.equal(back.reshape(want.shape), want, "order of elements")
    if m is None:
        ctx.ok(tuple(core.thread_frame_shape(tuple(c["shape"]), c["div"], True)) == back.shape[1:], "thread_frame_shape")
    ctx.label("mask" if m is not None else "axis %d" % c["axis"])
    return c["div"] is not None or m is not None


@st.composite
def bad_cases(draw):
    c = draw(frame_cases())
    total = int(np.prod(c["shape"])) if c["mask"] is None else int(mask_of(c).sum())
    c["div"] = draw(st.one_of(st.integers(-3, 0), st.integers(2, 2 * total + 3).filter(lambda d: total % d != 0), st.sampled_from([1.5, "a"])))
    c["n"] = draw(st.integers(1, 4))
    c["how"] = draw(st.sampled_from(["input", "multi", "iter"]))
    if draw(st.booleans()) and c["mask"] is not None and len(c["shape"]) >= 1:
        c["axis"], c["div"] = draw(st.integers(1, len(c["shape"]))), None  # mask only works along the first axis
        c["how"] = "input"
    return c


def check_bad(c, ctx):
    n = c["n"] if c["how"] == "input" else 32
    x, f = frames_of(c, n, {"m": "normal", "s": 1})
    m = mask_of(c)
    try:
        if c["how"] == "input":
            core.reshape_input(f, axis=axis_of(c), thread_divisor=c["div"], mask=m)
        elif c["how"] == "multi":
            multitau.acorr_multi(f, axis=axis_of(c), thread_divisor=c["div"], mask=m, level_size=8)
        else:
            multitau.iacorr_multi(iter([(y,) for y in x]), np.arange(n), thread_divisor=c["div"], mask=m, level_size=8)
    except Exception:
        ctx.label(c["how"])
        return True
    ctx.fail("divisor %r accepted for frame shape %s" % (c["div"], c["shape"]))


# ------------------------------------------------------------------ analysis
def spread(x, m):
    """The expected output of a masked calculation."""
    if x is None or m is None:
        return x
    x = np.array(x)
    x[..., ~m, :] = np.nan
    return x


@st.composite
def ana_cases(draw):
    c = draw(frame_cases())
    c["cross"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["fft", "corr", "diff"]))
    c["norm"] = draw(st.sampled_from([1, 2, 3, 5, 6, 7] if c["method"] != "diff" else ([2, 6] if c["cross"] else [2])))
    c["complex"] = draw(st.booleans()) and c["method"] != "diff" and c["cross"] 
    c["n"] = draw(st.integers(4, 14))
    c["k"] = draw(st.sampled_from([None, 1, 2, 3]))
    c["x"] = draw(gen.content(["normal", "offset", "ints", "mixed"]))
    c["t"] = draw(st.sampled_from([None, None, 1, 2]))
    c["align"] = draw(st.booleans())
    c["nrm"] = draw(st.booleans())
    return c


def call(c, a, b, axis, **kw):
    t1 = t2 = None
    if c["t"]:
        t1 = np.cumsum(np.random.RandomState(c["t"]).randint(1, 4, c["n"]))
        t2 = t1 + np.random.RandomState(c["t"] + 1).randint(0, 2, c["n"]) if c["t"] == 2 else t1
    kw.update(axis=axis, norm=c["norm"], method=c["method"], align=c["align"], n=None if c["k"] is None else min(c["k"] + 1, c["n"]))
    if c["cross"]:
        return core.ccorr(a, b, t1, t2, complex=c["complex"], **kw)
    return core.acorr(a, t=t1, **kw)


def check_ana(c, ctx):
    xa, fa = frames_of(c, c["n"], c["x"])
    xb, fb = frames_of(c, c["n"], dict(c["x"], s=c["x"]["s"] + 1))
    m = mask_of(c)
    want = call(c, fa, fb, axis_of(c))
    ra, shape = core.reshape_input(fa, axis=axis_of(c), thread_divisor=c["div"], mask=m)
    rb, shape = core.reshape_input(fb, axis=axis_of(c), thread_divisor=c["div"], mask=m)
    ax = max(-ra.ndim, min(axis_of(c), ra.ndim - 1))
    raw = call(c, ra, rb, ax)
    keep = [None if d is None else np.array(d) for d in raw]
    out = core.reshape_output(raw, shape, mask=m)
    ctx.ok(len(out) == len(want), "number of results")
    ctx.ok(out[1] is raw[1] or np.array_equal(out[1], raw[1]), "count data was changed")
    for i, (x, y) in enumerate(zip(raw, keep)):
        if y is not None and m is not None:
            ctx.equal(x, y, "the given data was changed")
    for i, (o, w) in enumerate(zip(out, want)):
        ctx.ok((o is None) == (w is None), "element %d" % i)
        if w is not None:
            ctx.ok(o.dtype == w.dtype, "element %d: data type %s, expected %s" % (i, o.dtype, w.dtype))
            ctx.close(o, w if i == 1 else spread(w, m), "element %d" % i, tol=1e-9, scale=float(np.max(np.abs(w))) or 1.)
    if m is not None and len(c["shape"]) > 0 and c["div"] is None:
        # the shape can be omitted
        for o, w in zip(core.reshape_output(raw, mask=m), out):
            if w is not None:
                ctx.equal(o, w, "reshape_output without the shape")
        ctx.label("no shape")
    if c["nrm"] and c["norm"] not in (3, 7):
        bg, var = core.stats(fa, fb, axis=axis_of(c)) if c["cross"] else core.stats(fa, axis=axis_of(c))
        if not c["cross"]:  # given as a pair: known finding C06 single_dim2
            bg, var = (bg, bg), (var, var)
        full = N.normalize(want, bg, var, norm=c["norm"])
        if m is None:
            part = core.reshape_output(N.normalize(out, bg, var, norm=c["norm"]), tuple(c["shape"]))
            rs = lambda q: tuple(z.reshape(ra.shape[:ax % ra.ndim] + ra.shape[ax % ra.ndim + 1:]) for z in q) if isinstance(q, tuple) else q.reshape(ra.shape[:ax % ra.ndim] + ra.shape[ax % ra.ndim + 1:])
            part2 = core.reshape_output(N.normalize(raw, rs(bg), rs(var), norm=c["norm"]), shape)
            ok = want[1] > 0
            sc = np.nanmax(np.abs(full[..., ok])) if ok.any() else 1.
            if np.isfinite(sc):
                ctx.close(part[..., ok], full[..., ok], "normalized", tol=1e-8, scale=sc)
                ctx.close(part2[..., ok], full[..., ok], "normalized reshaped data", tol=1e-8, scale=sc)
        else:
            if c["div"] is not None:  # one-dimensional frame of masked data
                raw = core.reshape_output(raw, shape)
            sel = lambda q: tuple(z[m] for z in q) if isinstance(q, tuple) else q[m]
            nr = N.normalize(raw, sel(bg), sel(var), norm=c["norm"])
            nr2 = N.normalize(out, bg, var, norm=c["norm"], mask=m)
            part = core.reshape_output(nr, shape, mask=m)
            ok = want[1] > 0
            sc = np.nanmax(np.abs(full[..., m, :][..., ok])) if ok.any() else 1.
            if np.isfinite(sc):
                ctx.close(part[..., ok], spread(full, m)[..., ok], "normalized masked data", tol=1e-8, scale=sc)
                ctx.ok(np.isnan(part[..., ~m, :]).all(), "masked elements are not NaN")
                ctx.close(nr2[..., ok], full[m][..., ok], "normalized selection", tol=1e-8, scale=sc)
        ctx.label("normalized")
    ctx.label(c["method"] + ("" if m is None else " masked"))
    return c["div"] is not None or m is not None


# ------------------------------------------------------------------ output
@st.composite
def out_cases(draw):
    c = draw(frame_cases())
    c["lead"] = draw(st.sampled_from([None, None, 2, 3, 5]))
    c["n"] = draw(st.integers(1, 7))
    c["kind"] = draw(st.sampled_from(["tuple", "array", "array"]))
    c["dts"] = draw(st.lists(st.sampled_from(["float64", "complex128", "float32", None]), min_size=0, max_size=3))
    c["dt"] = draw(st.sampled_from(["float64", "complex128", "float32"]))
    c["force2d"] = draw(st.booleans())
    c["omit"] = draw(st.booleans())
    return c


def check_out(c, ctx):
    """The output of a calculation on reshaped frames gets the frame shape back."""
    m = mask_of(c)
    shape = tuple(c["shape"]) if m is None else (int(m.sum()),)
    inner = tuple(core.thread_frame_shape(shape, c["div"], c["force2d"]))
    lead = () if c["lead"] is None else (c["lead"],)

    def one(dt, s):
        x = gen.expand({"m": "normal", "s": s}, lead + shape + (c["n"],), cplx=dt == "complex128").astype(dt)
        if m is None:
            return np.ascontiguousarray(x.reshape(lead + inner + (c["n"],))), x
        full = np.full(lead + m.shape + (c["n"],), np.nan, dt)
        for idx in range(shape[0]):
            pos = tuple(np.argwhere(m)[idx])
            full[(slice(None),) * len(lead) + pos] = x[(slice(None),) * len(lead) + (idx,)]
        return np.ascontiguousarray(x.reshape(lead + inner + (c["n"],))), full
    args = (None if (m is not None and c["omit"]) else (list(shape) if c["omit"] else shape),)
    if c["kind"] == "array":
        x, want = one(c["dt"], 1)
        keep = np.array(x)
        got = core.reshape_output(x, *args, mask=m)
        ctx.ok(got.dtype == want.dtype, "data type")
        ctx.equal(got, want, "normalized data")
        ctx.equal(x, keep, "the given data was changed")
    else:
        count = np.arange(c["n"] * (c["lead"] or 1)).reshape(lead + (c["n"],))
        pairs = [one(c["dt"], 1), (count, count)] + [(None, None) if d is None else one(d, i + 2) for i, d in enumerate(c["dts"])]
        keep = np.array(count)
        got = core.reshape_output(tuple(p[0] for p in pairs), *args, mask=m)
        ctx.ok(isinstance(got, tuple) and len(got) == len(pairs), "number of elements")
        for i, (g, (x, want)) in enumerate(zip(got, pairs)):
            if want is None:
                ctx.ok(g is None, "element %d" % i)
            else:
                ctx.equal(g, want, "element %d" % i)
                ctx.ok(g.dtype == want.dtype, "data type of element %d" % i)
        ctx.equal(count, keep, "count data was changed")
    ctx.label("%s%s%s" % (c["kind"], "" if m is None else " masked", "" if c["lead"] is None else " levels"))
    return c["div"] is not None or m is not None


# ------------------------------------------------------------------ options of the multitau and iterative functions
@st.composite
def opt_cases(draw):
    c = draw(frame_cases(2))
    c["fn"] = draw(st.sampled_from(["multi", "multi", "imulti", "i"]))
    if c["fn"] != "multi":
        c["axis"], c["neg"] = 0, False
    c["cross"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["fft", "corr", "diff"]))
    c["norm"] = draw(st.sampled_from([1, 2, 5, 6, 7] if c["method"] != "diff" else ([2, 6] if c["cross"] else [2])))
    c["complex"] = draw(st.booleans()) and c["method"] != "diff" and c["cross"]
    c["n"] = draw(st.sampled_from([32, 64, 40])) if c["fn"] == "multi" else 32
    c["ls"] = draw(st.sampled_from([5, 8]))
    c["x"] = draw(gen.content(["normal", "offset", "ints"]))
    c["bin"] = draw(st.sampled_from([0, 1])) if c["method"] != "diff" else 0
    c["stats"] = draw(st.booleans()) and c["fn"] != "multi"
    return c


def opt_call(c, a, b, **kw):
    kw.update(norm=c["norm"], method=c["method"])
    if c["cross"]:
        kw["complex"] = c["complex"]
    if c["fn"] == "multi":
        kw.update(axis=axis_of(c), level_size=c["ls"], binning=c["bin"])
        return multitau.ccorr_multi(a, b, **kw) if c["cross"] else multitau.acorr_multi(a, **kw)
    t = np.arange(c["n"])
    if c["fn"] == "i":
        kw.update(n=c["ls"], chunk_size=16)
        fn = (core.iccorr, core.iacorr)
    else:
        kw.update(level_size=8, binning=c["bin"], chunk_size=16)
        fn = (multitau.iccorr_multi, multitau.iacorr_multi)
    if c["stats"]:
        kw["stats"] = True
    if c["cross"]:
        return fn[0](((np.array(x), np.array(y)) for x, y in zip(a, b)), t, t, **kw)
    return fn[1](((np.array(x),) for x in a), t, **kw)


def walk(a, b, m, ctx, what, count=False):
    ctx.ok((a is None) == (b is None), what)
    if b is None:
        return
    if isinstance(b, (tuple, list)):
        ctx.ok(len(a) == len(b), what)
        for i, (x, y) in enumerate(zip(a, b)):
            walk(x, y, m, ctx, "%s[%d]" % (what, i))
        return
    b = np.asarray(b)
    if m is not None and b.dtype.kind in "fc":
        if b.ndim == m.ndim:  # frame
            b = np.array(b)
            b[~m] = np.nan
        else:
            b = spread(b, m)
    fin = np.abs(b[np.isfinite(b)])
    ctx.close(a, b, what, tol=1e-9, scale=(fin.max() if fin.size else 0.) or 1.)


def check_opt(c, ctx):
    xa, fa = frames_of(c, c["n"], c["x"])
    xb, fb = frames_of(c, c["n"], dict(c["x"], s=c["x"]["s"] + 1))
    m = mask_of(c)
    want = opt_call(c, fa, fb)
    kw = {}
    if c["div"] is not None:
        kw["thread_divisor"] = c["div"]
    if m is not None:
        kw["mask"] = m
    got = opt_call(c, fa, fb, **kw)
    walk(got, want, m, ctx, "result")
    ctx.label("%s%s" % (c["fn"], "" if m is None else " masked"))
    return c["div"] is not None or m is not None


if __name__ == "__main__":
    raise SystemExit(harness.main("C23", [
        harness.Sub("input", input_cases(), check_input, 1000, 30000, "a divisor or a mask is given"),
        harness.Sub("invalid", bad_cases(), check_bad, 200, 6000, "all"),
        harness.Sub("analysis", ana_cases(), check_ana, 1500, 50000, "a divisor or a mask is given"),
        harness.Sub("output", out_cases(), check_out, 800, 30000, "a divisor or a mask is given"),
        harness.Sub("options", opt_cases(), check_opt, 1000, 30000, "a divisor or a mask is given"),
    ], assumptions=["A mask has at least one element; frames have at least one dimension; a divisor is a positive integer.",
                    "Weighted normalization is compared elsewhere (C06, C07); normalized data is compared where there is at least one pair (count > 0)."]))
