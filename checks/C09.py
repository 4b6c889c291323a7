"""C09: in-memory multiple tau: fast part and every level against the pair list of the binned data."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, stream
from cddm import multitau
from cddm.multitau import acorr_multi, ccorr_multi
defaults.wrap(globals())


@st.composite
def cases(draw, big=False):
    cross = draw(st.booleans())
    n = draw(st.integers(5, 9))
    T = draw(st.one_of(st.integers(n, 70), st.sampled_from([n, 2 * n - 1, 2 * n, 4 * n, 4 * n - 1, 8 * n, 8 * n + 3])))
    if draw(st.integers(0, 9)) == 0:      # real sizes
        n = draw(st.sampled_from([5, 8, 16, 32]))
        T = draw(st.one_of(st.integers(100, 700), st.integers(100, 700), st.integers(700, 2500)))
    kshape = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
    axis = draw(st.integers(0, len(kshape)))
    size = int(np.prod(kshape)) if kshape else 1
    mask = None
    if kshape and axis == 0 and draw(st.integers(0, 2)) == 0:
        mask = draw(st.lists(st.booleans(), min_size=size, max_size=size))
        if not any(mask):
            mask[0] = True
        size = sum(mask)
    method = draw(st.sampled_from([None, "corr", "corr", "fft", "diff"]))
    norm = draw(st.sampled_from([None, 2, 6] if cross else [None, 2])) if method == "diff" else draw(st.sampled_from([None, 1, 2, 3, 5, 6, 7]))
    c = {"cross": cross, "n": n, "T": T, "k": kshape, "axis": axis if draw(st.booleans()) else axis - len(kshape) - 1, "mask": mask,
         "td": draw(st.sampled_from([None, None] + stream.divisors(size))) if kshape else None, "method": method, "norm": norm,
         "binning": draw(st.sampled_from([None, 0] if method == "diff" else [None, 0, 1])), "complex": draw(st.booleans()) and method != "diff",
         "align": draw(st.booleans()), "f1": draw(gen.content(["normal", "offset", "ints", "onehot", "mixed"])), "f2": draw(gen.content(["normal", "offset", "ramp"])),
         "dt": draw(st.sampled_from(["complex128", "complex128", "complex64", "float64", "uint8", "int64", "uint16", ">u2", "float32"])),
         "nlevel": draw(st.one_of(st.none(), st.integers(0, ref.default_nlevel(T, n)), st.integers(0, ref.default_nlevel(T, n) + 2)))}
    c["period"] = draw(st.integers(1, 3))
    if draw(st.booleans()):
        p, c["t1"], c["t2"] = draw(stream.jittered_times(T))
    else:
        c["t1"] = c["t2"] = None
    while T >> (c["nlevel"] or 0) < 2:     # no data left to bin
        c["nlevel"] -= 1
    return c


def check(c, ctx):
    cross, n, T, axis = c["cross"], c["n"], c["T"], c["axis"]
    kshape = tuple(c["k"])
    x1 = gen.expand(c["f1"], (T,) + kshape, dtype=c["dt"])
    x2 = gen.expand(c["f2"], (T,) + kshape, dtype=c["dt"]) if cross else None
    t1, t2 = (gen.tform(c[k], k) for k in ("t1", "t2"))
    mask = None if c["mask"] is None else np.array(c["mask"]).reshape(kshape)
    a1, a2 = np.ascontiguousarray(np.moveaxis(x1, 0, axis)), np.ascontiguousarray(np.moveaxis(x2, 0, axis)) if cross else None
    k1, k2 = a1.copy(), a2.copy() if cross else None
    kw = dict(level_size=n, norm=c["norm"], method=c["method"], align=c["align"], axis=axis, period=c["period"], binning=c["binning"],
              nlevel=c["nlevel"], thread_divisor=c["td"], mask=mask, complex=c["complex"])
    got = ccorr_multi(a1, a2, t1, t2, **kw) if cross else acorr_multi(a1, t1, **kw)
    ctx.equal(a1, k1, "input modified")
    if cross:
        ctx.equal(a2, k2, "input modified")
    diff = c["method"] == "diff"
    eff = c["norm"] if c["norm"] is not None else ((6 if cross else 2) if diff else 7)
    if diff and not cross:
        eff = 2
    binning = c["binning"] if c["binning"] is not None else (0 if diff else 1)
    nlevel = ref.default_nlevel(T, n) if c["nlevel"] is None else c["nlevel"]
    y1, y2 = x1.astype(np.complex128), x2.astype(np.complex128) if cross else None
    r1 = np.arange(T) if t1 is None else np.array(c["t1"])
    r2 = np.arange(T) if t2 is None else np.array(c["t2"])
    fast, slow = ref.multitau(y1, y2, r1, r2, n, c["period"], nlevel, binning, c["complex"], "diff" if diff else "corr", eff)
    A = np.abs(y1).max() + (np.abs(y2).max() if cross else 0) + 1e-300
    what = "%s method=%s norm=%s binning=%s complex=%s" % ("cross" if cross else "auto", c["method"], c["norm"], c["binning"], c["complex"])
    ctx.ok(isinstance(got, tuple) and len(got) == 2, "result is not (lin, multi)")
    stream.compare(ctx, got[0], fast, mask, (A * A + A) * T, what + ": fast part,", diff)
    stream.compare(ctx, got[1], slow, mask, (A * A + A) * T, what + ": slow part,", diff)
    ctx.label("%s-%s%s" % ("cross" if cross else "auto", c["method"], "-c" if c["complex"] else ""))
    ctx.label("norm%s" % c["norm"])
    ctx.label("nlevel%d" % nlevel)
    ctx.label("bin%s" % c["binning"])
    ctx.label("axis%d/%d" % (axis % (len(kshape) + 1), len(kshape) + 1))
    return nlevel > 0 and T > n and np.abs(slow[0]).max() > 0


@st.composite
def choose_cases(draw):
    n = draw(st.integers(5, 6))
    T = draw(st.integers(2 * n, 44))
    cross = draw(st.booleans())
    method = draw(st.sampled_from(["corr", "corr", "fft", "diff"]))
    return {"n": n, "T": T, "cross": cross, "method": method, "norm": draw(st.sampled_from([2, 6] if cross else [2])) if method == "diff" else draw(st.sampled_from([1, 2, 3, 5, 6, 7])),
            "complex": draw(st.booleans()) and method != "diff", "k": draw(st.integers(1, 3)), "s": draw(st.integers(0, 10 ** 6)), "axis": draw(st.integers(0, 1)),
            "td": draw(st.sampled_from([None, 1])), "f1": draw(gen.content(["normal", "offset"])), "f2": draw(gen.content(["normal"]))}


def identify(onehot_cor, diff, m, bg):
    """frames which are in the data of a level, from elements that are one in one frame only (after subtraction of bg)"""
    seen = np.abs(onehot_cor[:, 0]) > m * bg ** 2 + 0.5 * (1 - 2 * bg)
    if diff:
        seen = (np.abs(onehot_cor[:, 1:]) > 0.5).any(-1)
    return np.nonzero(seen)[0]


def check_choice(ctx, c, got, y1, y2, T, nlevel, bg=0.):
    """got[1] (slow part of 1D frames: k elements + T one-hot elements): every level consists of one frame of each pair of the previous one"""
    n, k, diff = c["n"], c["k"], c["method"] == "diff"
    cur = np.arange(T)
    cx, kind = c["complex"], "diff" if diff else "corr"
    A = np.abs(y1).max() + (0 if y2 is None else np.abs(y2).max())
    firsts = 0
    for l in range(nlevel):
        level = tuple(None if d is None else d[l] for d in got[1])
        m = len(cur) // 2
        if diff and m < 2:
            break
        sel = identify(level[0][k:], diff, m, bg)
        ctx.ok(len(sel) == m, "level %d: %d different frames used, expected one out of each of %d pairs (of the same frames in both cameras)" % (l + 1, len(sel), m))
        pos = [list(cur).index(s) if s in cur else -1 for s in sel]
        ctx.ok(all(p // 2 == i and p >= 0 for i, p in enumerate(pos)), "level %d consists of frames %s: not one out of each pair of the previous level %s" % (l + 1, sel, cur))
        firsts += sum(p % 2 == 0 for p in pos)
        cur = sel
        z1, z2 = y1[cur], None if y2 is None else y2[cur]
        want = ref.analysis(z1, z2, np.arange(m), np.arange(m), n, cx, kind, c["norm"] if not (diff and y2 is None) else 2)
        stream.compare(ctx, level, want, None, A * A * T, "level %d (random choice)" % (l + 1), diff)
    return firsts


def onehot_data(c, T):
    k = c["k"]
    y1 = np.concatenate([gen.expand(c["f1"], (T, k)), np.eye(T)], axis=1)
    y2 = np.concatenate([gen.expand(c["f2"], (T, k)), np.eye(T)], axis=1) if c["cross"] else None
    return y1, y2


def check_choose(c, ctx):
    T, n = c["T"], c["n"]
    y1, y2 = onehot_data(c, T)
    np.random.seed(c["s"])
    kw = dict(level_size=n, norm=c["norm"], method=c["method"], binning=2, complex=c["complex"], axis=c["axis"], thread_divisor=c["td"])
    if c["axis"]:
        got = ccorr_multi(y1.T, y2.T, **kw) if c["cross"] else acorr_multi(y1.T, **kw)
    else:
        got = ccorr_multi(y1, y2, **kw) if c["cross"] else acorr_multi(y1, **kw)
    nlevel = ref.default_nlevel(T, n)
    firsts = check_choice(ctx, c, got, y1, y2, T, nlevel)
    ctx.label("%s-%s%s" % ("cross" if c["cross"] else "auto", c["method"], "-c" if c["complex"] else ""))
    ctx.label("first" if firsts else "second")
    return nlevel > 0


@st.composite
def reject_cases(draw):
    return {"method": draw(st.sampled_from(["corr", "fft", "diff", "xx"])), "binning": draw(st.sampled_from([0, 1, 2, 3, -1])),
            "norm": draw(st.sampled_from([None, 1, 2, 6, 7, 0, 4, 8])), "nlevel": draw(st.sampled_from([None, 0, 1, -1])), "cross": draw(st.booleans())}


def check_reject(c, ctx):
    rs = np.random.RandomState(1)
    x = rs.randn(24, 3)
    bad = c["method"] == "xx" or c["binning"] not in ((0, 2) if c["method"] == "diff" else (0, 1, 2)) or c["norm"] in (0, 4, 8) or c["nlevel"] == -1
    if c["method"] == "diff":
        bad = bad or c["norm"] not in (None, 2, 6) or c["norm"] == 6 and not c["cross"]
    try:
        kw = dict(level_size=5, method=c["method"], binning=c["binning"], norm=c["norm"], nlevel=c["nlevel"])
        ccorr_multi(x, x, **kw) if c["cross"] else acorr_multi(x, **kw)
    except (ValueError, AssertionError):
        ctx.ok(bad, "valid request refused: %s" % c)
        return True
    ctx.ok(not bad, "invalid request accepted: %s" % c)
    return False


@st.composite
def bin_cases(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=0, max_size=3))
    axis = draw(st.integers(0, len(shape)))
    return {"shape": shape, "T": draw(st.one_of(st.integers(2, 9), st.integers(2, 70))), "axis": axis, "out_axis": draw(st.one_of(st.none(), st.integers(0, len(shape)))), "neg": draw(st.booleans()), "fn": draw(st.sampled_from(["mean_data_cpu", "mean_data_parallel", "slice_data", "choose_data"])),
            "f": draw(gen.content(["normal", "offset", "ints", "nans"])), "cplx": draw(st.booleans()), "lay": draw(st.sampled_from(gen.LAYOUTS)), "r": draw(st.sampled_from([None, None, 0., 0.3, 0.499, 0.5, 0.9])), "s": draw(st.integers(0, 9999)), "single": draw(st.integers(0, 3)) == 0}


def check_bin(c, ctx):
    """the binning functions of the module, on data of any shape"""
    shape, nd = list(c["shape"]), len(c["shape"]) + 1
    shape.insert(c["axis"], c["T"])
    x = gen.expand(c["f"], shape, c["cplx"])
    x = gen.layout(x.astype("complex64" if c["cplx"] else "float32") if c["single"] else x, c["lay"])
    keep = np.array(x)
    axis, oax = c["axis"] - nd * c["neg"], c["out_axis"]
    kw = {"axis": axis}
    if oax is not None:
        kw["out_axis"] = oax - nd * c["neg"]
    y = np.moveaxis(keep, c["axis"], 0)
    m = c["T"] // 2
    a, b = y[0:2 * m:2], y[1:2 * m:2]
    if c["fn"] == "choose_data" and c["r"] is not None:
        kw["r"] = c["r"]
    np.random.seed(c["s"])
    got = getattr(multitau, c["fn"])(x, **kw)
    ctx.equal(x, keep, "%s changes its input" % c["fn"])
    got = np.moveaxis(got, c["axis"] if oax is None else oax, 0)
    if c["fn"] == "slice_data":
        ctx.equal(got, y[::2], "slice_data")
    elif c["fn"] == "choose_data":
        ctx.ok(got.shape == a.shape, "shape %s" % (got.shape,))
        ia, ib = (np.array_equal(got, z, equal_nan=True) for z in (a, b))
        ctx.ok(ia or ib, "random choice is neither the first nor the second of each pair")
        ctx.label("first" if ia else "second")
    else:
        sc = np.abs(keep[np.isfinite(keep)]).max() if np.isfinite(keep).any() else 0.
        ctx.ok(got.dtype == keep.dtype or c["lay"] == "list", "data type %s" % got.dtype)
        ctx.close(got, (a + b) / 2, c["fn"], scale=sc, tol=1e-6 if c["single"] else 1e-14)
    ctx.label(c["fn"])
    return m > 1 and keep.size > c["T"]


SUBS = [
    harness.Sub("binning", bin_cases(), check_bin, 400, 4000, "more than one pair, more than one element"),
    harness.Sub("levels", cases(), check, 800, 15000, "at least one level, more frames than the level size, non-zero slow data"),
    harness.Sub("random_choice", choose_cases(), check_choose, 240, 4000, "at least one level"),
    harness.Sub("requests", reject_cases(), check_reject, 120, 1200, "invalid request"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C09", SUBS))
