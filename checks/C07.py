"""C07: relations between normalizations of transformed inputs: mask, gain, background, output, weights."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref
from cddm.core import acorr, ccorr, stats
from cddm.norm import normalize, take_data, weight_from_data, noise_mean, weight_from_g, weight_from_d
defaults.wrap(globals())

NORMS = [1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15]


@st.composite
def data_cases(draw, extra=None):
    kshape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=2))
    T = draw(st.integers(2, 14))
    irr = draw(st.booleans())
    n = draw(st.integers(3, 10))
    c = {"k": kshape, "T": T, "n": n, "cross": draw(st.booleans()), "complex": draw(st.booleans()), "diff": draw(st.integers(0, 4)) == 0,
         "f1": draw(gen.content(["normal", "offset", "mixed"])), "f2": draw(gen.content(["normal", "offset", "mixed"])),
         "norm": draw(st.sampled_from(NORMS)), "mode": draw(st.sampled_from(["corr", "diff"])), "scale": draw(st.booleans()),
         "t1": draw(gen.times(T)) if irr else None, "t2": draw(gen.times(T)) if irr else None,
         "pair": draw(st.booleans()), "s": draw(st.integers(0, 10 ** 6))}
    if extra is not None:
        c.update(draw(extra))
    return c


def analyse(c, x1, x2):
    diff = c["diff"]
    if c["cross"]:
        return ccorr(x1, x2, c["t1"], c["t2"], n=c["n"], norm=6 if diff else 7, method="diff" if diff else "corr",
                     **({} if diff else {"complex": c["complex"]}))
    return acorr(x1, c["t1"], n=c["n"], norm=2 if diff else 7, method="diff" if diff else "corr", complex=c["complex"] and not diff)


def prepare(c):
    x1 = gen.expand(c["f1"], [c["T"]] + c["k"])
    x2 = gen.expand(c["f2"], [c["T"]] + c["k"]) if c["cross"] else x1
    norm = c["norm"]
    if c["diff"]:
        norm = 6 if c["cross"] and norm & 4 else 2
    elif norm & 3 == 3:
        r1 = c["t1"] or list(range(c["T"]))
        r2 = (c["t2"] or list(range(c["T"]))) if c["cross"] else r1
        cnt = ref.count_cross(r1, r2, c["n"], c["complex"]) if c["cross"] else ref.count_auto(r1, c["n"])
        if (cnt == 0).any():
            norm &= ~2
    return x1, x2, norm


def bgvar(c, x1, x2):
    b1, v1 = x1.mean(0), x1.var(0) + 0.01
    b2, v2 = x2.mean(0), x2.var(0) + 0.01
    return (b1, b2), (v1, v2)


def tolerance(x1, x2, bg, var, norm, scale, T):
    m = (max(np.abs(x1).max(), np.abs(x2).max()) + max(np.abs(b).max() for b in bg) + 1) ** 2 * T
    v = min(v.min() for v in var)
    return m * ((1 / v) if scale else 1) * ((1 + m / v) if norm & 3 == 3 else 1)


def show(c, norm):
    return "%s%s norm=%d mode=%s scale=%s" % ("cross" if c["cross"] else "auto", "-diff" if c["diff"] else "", norm, c["mode"], c["scale"])


def lab(c, norm, ctx):
    ctx.label(("cross" if c["cross"] else "auto") + ("-diff" if c["diff"] else "-c" if c["complex"] else ""))
    ctx.label("norm%d" % norm)


def check_mask(c, ctx):
    x1, x2, norm = prepare(c)
    data = analyse(c, x1, x2)
    bg, var = bgvar(c, x1, x2)
    if not c["cross"] and not c["pair"] and c["k"][0] != 2:
        bg, var = bg[0], var[0]
    rs = np.random.RandomState(c["s"])
    mask = rs.rand(*c["k"]) < c["p"]
    if c["mk"] == "all":
        mask[...] = True
    elif c["mk"] == "row":
        mask = np.zeros(c["k"], bool)
        mask[rs.randint(c["k"][0])] = True
    if c["multi"] and not c["diff"]:     # multi-level data: level is the first axis of all arrays
        data = tuple(None if x is None else np.stack([x, 2 * x, x * 3]) for x in data)
    keep = [None if x is None else x.copy() for x in data]
    kb = [np.array(b) for b in bg] + [np.array(v) for v in var]
    kw = dict(norm=norm, mode=c["mode"], scale=c["scale"])
    if c["weight"] and norm & 3 == 3:
        w = rs.rand(*data[0].shape) + (1j * rs.rand(*data[0].shape) if np.iscomplexobj(data[0]) else 0)
        full = normalize(data, bg, var, weight=w, **kw)
        kw["weight"] = w[..., mask, :]
    else:
        full = normalize(data, bg, var, **kw)
    got = normalize(data, bg, var, mask=mask, **kw)
    seen = np.broadcast_to((data[1] > 0).reshape(data[1].shape[:-1] + (1,) * (1 if data[1].ndim > 1 else 0) + data[1].shape[-1:]), full[..., mask, :].shape)
    b, v = (bg, var) if isinstance(bg, tuple) else ((bg,), (var,))
    sc = tolerance(x1, x2, b, v, norm, c["scale"], c["T"])
    ctx.ok(got.shape == full[..., mask, :].shape, "masked shape %s" % (got.shape,))
    ctx.close(got[seen], full[..., mask, :][seen], "masked result, %s" % show(c, norm), scale=3 * sc, tol=1e-12)
    for x, y in zip(data, keep):
        if y is not None:
            ctx.equal(x, y, "raw data modified by normalize")
    for x, y in zip([np.array(b) for b in bg] + [np.array(v) for v in var], kb):
        ctx.equal(x, y, "background or variance modified by normalize")
    taken = take_data(data, mask)
    for i, (x, y) in enumerate(zip(taken, data)):
        ctx.ok((x is None) == (y is None), "take_data element %d" % i)
        if y is not None:
            ctx.equal(x, y if i == 1 else y[..., mask, :], "take_data element %d" % i)
    lab(c, norm, ctx)
    return bool(mask.any()) and not mask.all()


def check_output(c, ctx):
    """an output array (fresh, reused, or a part of a larger array) holds exactly the numbers that are returned without it"""
    x1, x2, norm = prepare(c)
    data = analyse(c, x1, x2)
    bg, var = bgvar(c, x1, x2)
    if not c["cross"] and not c["pair"] and c["k"][0] != 2:
        bg, var = bg[0], var[0]
    rs = np.random.RandomState(c["s"])
    kw = dict(norm=norm, mode=c["mode"], scale=c["scale"])
    if c["multi"] and not c["diff"]:
        data = tuple(None if x is None else np.stack([x, 2 * x, x * 3]) for x in data)
    if c["mask"]:
        kw["mask"] = rs.rand(*c["k"]) < 0.6
    if c["weight"] and norm & 3 == 3:
        w = rs.rand(*data[0].shape) + (1j * rs.rand(*data[0].shape) if np.iscomplexobj(data[0]) else 0)
        kw["weight"] = w[..., kw["mask"], :] if c["mask"] else w
    full, w0 = normalize(data, bg, var, ret_weight=True, **kw)
    keep = [np.array(x) for x in data if x is not None] + [np.array(b) for b in bg] + [np.array(v) for v in var] + \
        [np.array(kw[k]) for k in ("mask", "weight") if k in kw]
    shape, dt = full.shape, full.dtype
    if c["lay"] == "plain":
        frame = out = np.full(shape, np.nan, dt)
    elif c["lay"] == "fortran":
        frame = out = np.full(shape, np.nan, dt, order="F")
    elif c["lay"] == "strided":
        # (last axis contiguous: compiled numba ufuncs write a strided one-dimensional output as if it was contiguous)
        frame = np.full(tuple(2 * i for i in shape[:-1]) + shape[-1:], 7., dt)
        out = frame[tuple(slice(None, None, 2) for _ in shape[:-1])]
    else:
        frame = np.full((3,) + shape, 7., dt)
        out = frame[1]
    for i in range(c["times"]):
        if c["ret"]:
            got, w = normalize(data, bg, var, out=out, ret_weight=True, **kw)
            ctx.ok((w is None) == (w0 is None), "weight returned with an output array")
            if w is not None:
                ctx.equal(w, w0, "weight returned with an output array, %s" % show(c, norm))
        else:
            got = normalize(data, bg, var, out=out, **kw)
        ctx.equal(out, full, "output array (%s, call %d), %s" % (c["lay"], i, show(c, norm)))
        ctx.equal(got, full, "result of the call with an output array, %s" % show(c, norm))
    if c["lay"] == "strided":
        rest = np.ones(frame.shape, bool)
        rest[tuple(slice(None, None, 2) for _ in shape[:-1])] = False
        ctx.ok((frame[rest] == 7).all(), "elements beside the output array modified")
    elif c["lay"] == "slice":
        ctx.ok((frame[0] == 7).all() and (frame[2] == 7).all(), "elements beside the output array modified")
    now = [x for x in data if x is not None] + [np.array(b) for b in bg] + [np.array(v) for v in var] + [kw[k] for k in ("mask", "weight") if k in kw]
    for x, y in zip(now, keep):
        ctx.equal(x, y, "an input of normalize was modified, %s" % show(c, norm))
    lab(c, norm, ctx)
    ctx.label(c["lay"])
    return bool(full.size)


def check_gain(c, ctx):
    """x -> a x leaves scaled results unchanged and multiplies the others by a^2."""
    x1, x2, norm = prepare(c)
    a = c["gain"]
    bg, var = bgvar(c, x1, x2)
    p = normalize(analyse(c, x1, x2), bg, var, norm=norm, mode=c["mode"], scale=c["scale"])
    q = normalize(analyse(c, a * x1, a * x2), tuple(a * b for b in bg), tuple(a * a * v for v in var), norm=norm, mode=c["mode"], scale=c["scale"])
    if not c["scale"]:
        q = q / a ** 2
    cnt = analyse(c, x1, x2)[1]
    seen = cnt > 0
    ctx.close(q[..., seen], p[..., seen], "gain %g, %s" % (a, show(c, norm)), scale=tolerance(x1, x2, bg, var, norm, c["scale"], c["T"]), tol=1e-11)
    lab(c, norm, ctx)
    return seen.sum() > 1


def check_shift(c, ctx):
    """constant per-element background"""
    x1, x2, norm = prepare(c)
    bg, var = bgvar(c, x1, x2)
    sh = lambda i: gen.expand({"m": "normal", "s": c["s"] + i}, c["k"]) * c["size"]
    s1 = sh(0)
    s2 = s1 if not c["cross"] or norm & 12 == 0 else sh(1)
    if norm & 3 == 1 and norm & 12 == 0 or norm & 12 == 0 and norm & 3 == 3:
        norm = norm | 4     # standard normalization needs the subtraction
        if c["diff"]:
            norm = 2
    y1, y2 = x1 + s1, x2 + s2
    nbg = (bg[0] + s1, bg[1] + s2)
    p = normalize(analyse(c, x1, x2), bg, var, norm=norm, mode=c["mode"], scale=c["scale"])
    data = analyse(c, y1, y2)
    q = normalize(data, nbg, var, norm=norm, mode=c["mode"], scale=c["scale"])
    seen = data[1] > 0
    if c["complex"] and not c["diff"]:
        if norm & 3 == 3:
            # the imaginary part of complex structured baseline/auto data depends on the background
            if not c["cross"]:
                return False
        elif not c["cross"] or norm & 12 == 0:
            p, q = p.real, q.real
    m = (np.abs(y1).max() + np.abs(y2).max() + np.abs(x1).max() + np.abs(x2).max() + np.abs(s1).max() + np.abs(s2).max() + 1) ** 2 * c["T"]
    v = min(v.min() for v in var)
    sc = m * (1 / v if c["scale"] else 1) * ((1 + m / v) if norm & 3 == 3 else 1)
    ctx.close(q[..., seen], p[..., seen], "background shift, %s" % show(c, norm), scale=sc, tol=1e-12)
    if norm & 4 and not c["diff"] or c["diff"] and norm & 4:
        # explicit subtraction beforehand is the same thing
        z1, z2 = x1 - bg[0], x2 - bg[1]
        zero = tuple(np.zeros(c["k"], complex) for _ in range(2))
        r = normalize(analyse(c, z1, z2), zero, var, norm=(norm & 3) if not c["diff"] else 2, mode=c["mode"], scale=c["scale"])
        if c["complex"] and not c["cross"] and not c["diff"]:
            r = r.real
        ctx.close(p[..., seen], r[..., seen], "subtracting the background before the analysis, %s" % show(c, norm), scale=sc, tol=1e-12)
    lab(c, norm, ctx)
    return seen.sum() > 1


def check_swap(c, ctx):
    """exchanging the cameras conjugates / time-reverses; real results are symmetric"""
    c = dict(c, cross=True)
    x1, x2, norm = prepare(c)
    bg, var = bgvar(c, x1, x2)
    p = normalize(analyse(c, x1, x2), bg, var, norm=norm, mode=c["mode"], scale=c["scale"])
    d = dict(c, t1=c["t2"], t2=c["t1"])
    data = analyse(d, x2, x1)
    q = normalize(data, bg[::-1], var[::-1], norm=norm, mode=c["mode"], scale=c["scale"])
    sc = tolerance(x1, x2, bg, var, norm, c["scale"], c["T"])
    seen = data[1] > 0
    if np.iscomplexobj(q):
        if norm & 2:
            return False     # the imaginary part has no such symmetry: it compares f1 with i f2
        q = np.conj(np.roll(q[..., ::-1], 1, axis=-1))
        seen = np.roll(seen[::-1], 1)
    ctx.close(q[..., seen], p[..., seen], "exchanged cameras, %s" % show(c, norm), scale=sc, tol=1e-12)
    lab(c, norm, ctx)
    return seen.sum() > 1


@st.composite
def weight_cases(draw):
    return {"k": draw(st.lists(st.integers(1, 3), min_size=0, max_size=2)), "n": draw(st.integers(3, 12)), "s": draw(st.integers(0, 10 ** 6)),
            "v": draw(st.sampled_from([1.0, 0.01, 50.0])), "filter": draw(st.booleans()), "unit": draw(st.booleans())}


def check_weight(c, ctx):
    rs = np.random.RandomState(c["s"])
    shape = tuple(c["k"]) + (c["n"],)
    g = rs.rand(*shape) if c["unit"] else 2 * rs.standard_normal(shape)
    v = c["v"] * (0.5 + rs.rand(*c["k"])) if c["k"] else np.float64(c["v"])
    delta = rs.uniform(-1, 1, c["k"]) if c["k"] else np.float64(rs.uniform(-1, 1))
    v, delta = np.asarray(v), np.asarray(delta)
    w = weight_from_data(g * v[..., None], delta, scale_factor=v, pre_filter=c["filter"])
    w2 = weight_from_data(g, delta, pre_filter=c["filter"])
    w3 = weight_from_data(2 * (1 - g) * v[..., None], delta, scale_factor=v, mode="diff", pre_filter=c["filter"])
    ctx.close(w, w2, "weight of scaled and unscaled data", scale=1., tol=1e-9)
    ctx.close(w, w3, "weight of correlation and difference data", scale=1., tol=1e-9)
    ctx.ok((np.abs(w) <= 1 + 1e-12).all(), "weight beyond 1")
    if c["unit"]:
        ctx.ok((w >= 0).all(), "negative weight for correlation in 0..1")
    if not c["filter"]:
        want = 2 * g / (g ** 2 + 1 + delta[..., None] ** 2)
        ctx.close(w, want, "weight", scale=1., tol=1e-12)
    ctx.close(weight_from_g(np.array([0., 1., 1.]), np.array([0.3, 0., 1.])), [0, 1, 2 / 3.], "weight limits", scale=1.)
    ctx.close(weight_from_d(2 - 2 * g, 0.2), weight_from_g(g, 0.2), "weight_from_d", scale=1., tol=1e-12)
    ctx.close(noise_mean(g * v[..., None], v), np.clip(1 - g[..., 0], 0, 1), "noise_mean corr", scale=1., tol=1e-9)
    ctx.close(noise_mean(2 * (1 - g) * v[..., None], v, mode="diff"), np.clip(1 - g[..., 0], 0, 1), "noise_mean diff", scale=1., tol=1e-9)
    return True


mk = lambda **k: st.fixed_dictionaries(k)
SUBS = [
    harness.Sub("mask", data_cases(mk(p=st.sampled_from([0.2, 0.5, 0.8]), mk=st.sampled_from(["rand", "rand", "all", "row"]),
                                      multi=st.booleans(), weight=st.booleans())), check_mask, 300, 12000, "mask selects some but not all elements"),
    harness.Sub("output", data_cases(mk(lay=st.sampled_from(["plain", "fortran", "strided", "slice"]), mask=st.booleans(), multi=st.booleans(),
                                        weight=st.booleans(), ret=st.booleans(), times=st.integers(1, 2))), check_output, 300, 12000, "result is not empty"),
    harness.Sub("gain", data_cases(mk(gain=st.sampled_from([2.0, -0.5, 3.0, 1e-3, 100.0]))), check_gain, 500, 10000, "more than one delay with pairs"),
    harness.Sub("background_shift", data_cases(mk(size=st.sampled_from([1.0, 10.0, 0.1]))), check_shift, 600, 12000, "more than one delay with pairs"),
    harness.Sub("swap", data_cases(), check_swap, 400, 8000, "more than one delay with pairs"),
    harness.Sub("weights", weight_cases(), check_weight, 400, 8000, "all"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C07", SUBS))
