"""C11: multi-level averaging, merging, time axes, counts and multi-tau normalization."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref
from cddm.core import acorr, ccorr
from cddm.multitau import (multilevel, merge_multilevel, log_average, log_merge, t_multilevel, multilevel_count, log_average_count,
                           log_merge_count, ccorr_multi_count, acorr_multi_count, ccorr_multi, acorr_multi, normalize_multi, triangular_kernel)
from cddm.norm import normalize, fold_data
defaults.wrap(globals())


# ------------------------------------------------------------- reference
def ref_conv(a):
    out = a.copy()
    out[..., 1:-1] = 0.25 * a[..., :-2] + 0.5 * a[..., 1:-1] + 0.25 * a[..., 2:]
    return out


def ref_multilevel(data, size, mean):
    level = 0
    while size * 2 ** level < data.shape[-1]:
        level += 1
    out = np.full((level + 1,) + data.shape[:-1] + (size,), np.nan, data.dtype)
    d = data
    for l in range(level + 1):
        m = min(size, d.shape[-1])
        out[l, ..., :m] = d[..., :m]
        if l < level:
            d = (ref_conv(d) if mean else d)[..., ::2]
    return out


def ref_merge(ml, t0=1):
    """x, y of multilevel data: everything of level 0, second half of the others"""
    n = ml.shape[-1]
    x = [np.arange(n)] + [np.arange(n // 2, n) * 2 ** l for l in range(1, len(ml))]
    y = [ml[0]] + [ml[l][..., n // 2:] for l in range(1, len(ml))]
    return np.concatenate(x), np.concatenate(y, axis=-1)


@st.composite
def ml_cases(draw):
    size = draw(st.one_of(st.integers(2, 10), st.integers(2, 10), st.integers(11, 40)))
    T = draw(st.one_of(st.integers(1, 80), st.one_of(st.integers(81, 500), st.integers(500, 1500)), st.sampled_from([size, size + 1, 2 * size, 4 * size, 4 * size + 1, 8 * size - 1])))
    return {"size": size, "T": T, "k": draw(st.lists(st.integers(1, 3), max_size=2)), "c": draw(st.booleans()), "fold": draw(st.booleans()),
            "f": draw(gen.content(["normal", "offset", "ints", "ramp", "onehot"])), "binning": draw(st.sampled_from([0, 1, 1, 2])), "s": draw(st.integers(0, 9999))}


def check_multilevel(c, ctx):
    size, T = c["size"], c["T"]
    x = gen.expand(c["f"], c["k"] + [T], cplx=c["c"])
    kw = {"fold": c["fold"]} if c["c"] else {}
    d = x
    if c["c"] and c["fold"]:
        if T % 2 == 0:
            x = x[..., :-1]
            if x.shape[-1] == 0:
                return False
        n = (x.shape[-1] + 1) // 2
        d = x[..., :n].copy()
        d[..., 1:] = 0.5 * (x[..., 1:n] + np.conj(x[..., :n - 1:-1]))
    keep = x.copy()
    np.random.seed(c["s"])
    got = multilevel(x, size, binning=c["binning"], **kw)
    ctx.equal(x, keep, "input modified")
    sc = np.abs(d).max() + 1e-300
    if c["binning"] != 2:
        want = ref_multilevel(d, size, c["binning"] == 1)
        ctx.close(got, want, "multilevel binning %d" % c["binning"], scale=sc, tol=1e-12)
    else:
        # an index array tells which sample was selected; the same for all elements
        idx = np.broadcast_to(np.arange(d.shape[-1], dtype=float), d.shape).copy()
        np.random.seed(c["s"])
        sel = multilevel(idx, size, binning=2)
        ctx.ok(sel.shape == got.shape, "shape %s" % (got.shape,))
        ctx.ok((np.isnan(sel) == np.isnan(got)).all(), "missing data of random choice")
        one = sel.reshape(len(sel), -1, size)[:, 0, :]
        ctx.ok(((sel == one.reshape((len(sel),) + (1,) * (sel.ndim - 2) + (size,))) | np.isnan(sel)).all(), "random choice differs between elements")
        for l in range(len(sel)):
            m = ~np.isnan(one[l])
            i = one[l][m].astype(int)
            ctx.ok((i // 2 ** l == np.arange(len(i))).all(), "level %d made of samples %s" % (l, i))
            ctx.close(got[l][..., m], d[..., i], "random choice values", scale=sc, tol=0)
        want = got
    if size % 2 == 0:
        xm, ym = merge_multilevel(want)
        wx, wy = ref_merge(want)
        ctx.equal(xm, wx, "merged time")
        ctx.close(ym, wy, "merged data", scale=sc, tol=0)
        ctx.ok((np.diff(xm) > 0).all(), "merged time not increasing: %s" % xm)
        xh, yh = merge_multilevel(want[1:], mode="half")
        ctx.equal(xh, np.concatenate([[]] + [np.arange(size // 2, size) * 2 ** l for l in range(len(want) - 1)]).astype(int), "merged time, half")
        ctx.equal(yh, np.concatenate([np.zeros(d.shape[:-1] + (0,))] + [w[..., size // 2:] for w in want[1:]], axis=-1).astype(want.dtype), "merged data, half")
        if c["binning"] == 1:
            xl, yl = log_average(x, size // 2, **kw)
            ctx.equal(xl, wx, "log_average time")
            ctx.close(yl, wy, "log_average data", scale=sc, tol=1e-12)
            # linear function of delay is reproduced
            lin = 3. - 0.5 * np.arange(d.shape[-1])
            xl, yl = log_average(lin, size // 2)
            seen = ~np.isnan(yl)
            ctx.close(yl[seen], (3. - 0.5 * xl)[seen], "log_average of a linear function", scale=T, tol=1e-12)
            ctx.ok((seen == (xl < d.shape[-1])).all(), "log_average: missing data at %s" % xl[~seen])
    else:
        try:
            merge_multilevel(want)
        except ValueError:
            pass
        else:
            ctx.fail("odd level size merged")
    tm = t_multilevel(want[1:].shape, period=1) if len(want) > 1 else np.zeros((0, size))
    for l in range(len(want) - 1):
        ctx.equal(tm[l].reshape(-1), np.arange(size) * 2 ** (l + 1), "t_multilevel level %d" % l)
    ctx.label("bin%d" % c["binning"])
    ctx.label("levels%d" % len(want))
    return len(want) > 1


# ------------------------------------------------------------- merging of multi-tau data
@st.composite
def merge_cases(draw):
    n = 2 * draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 16)))
    return {"n": n, "period": 2 ** draw(st.integers(0, 3)), "nlevel": draw(st.one_of(st.integers(0, 5), st.integers(0, 9))), "k": draw(st.lists(st.integers(1, 3), max_size=2)),
            "c": draw(st.sampled_from([None, None, True, False])), "binning": draw(st.sampled_from([0, 1])), "f": draw(gen.content(["normal", "ramp", "ints"])), "g": draw(gen.content(["normal"]))}


def check_merge(c, ctx):
    n, p, L = c["n"], c["period"], c["nlevel"]
    cx = c["c"] is not None
    if c["c"]:     # to be folded: full size arrays
        lin = gen.expand(c["f"], c["k"] + [2 * n * p - 1])
        multi = gen.expand(c["g"], [L] + c["k"] + [2 * n - 1])
        fl, fm = fold_data(lin), fold_data(multi)
    else:
        lin = fl = gen.expand(c["f"], c["k"] + [n * p], cplx=cx)
        multi = fm = gen.expand(c["g"], [L] + c["k"] + [n], cplx=cx)
    k1, k2 = lin.copy(), multi.copy()
    t, y = log_merge(lin, multi, binning=c["binning"], fold=c["c"])
    ctx.equal(lin, k1, "input modified")
    ctx.equal(multi, k2, "input modified")
    ml = ref_multilevel(fl, n, c["binning"] == 1)
    wx, wy = ref_merge(ml)
    wx = np.concatenate([wx] + [np.arange(n // 2, n) * p * 2 ** (l + 1) for l in range(L)])
    wy = np.concatenate([wy] + [fm[l][..., n // 2:] for l in range(L)], axis=-1)
    ctx.equal(t, wx, "merged time")
    ctx.close(y, wy, "merged data", tol=1e-12)
    ctx.ok((np.diff(t) > 0).all(), "time not increasing")
    ctx.ok(np.isfinite(y).all(), "missing values in merged data")
    # consecutive samples: steps only grow, by factors of two
    step = np.diff(t)
    ctx.ok((step[1:] % step[:-1] == 0).all() and (step[1:] <= 2 * step[:-1]).all() if len(step) > 1 and n > 2 else True, "gap in merged time: %s" % t)
    # function linear in delay -> reproduced with mean binning
    if not cx:
        tm = t_multilevel(multi.shape, period=p)
        ctx.ok(tm.shape == (L,) + (1,) * len(c["k"]) + (n,), "t_multilevel shape %s" % (tm.shape,))
        a = np.broadcast_to(1. + 2. * np.arange(n * p), lin.shape).copy()
        b = np.broadcast_to(1. + 2. * tm, multi.shape).copy()
        t, y = log_merge(a, b, binning=c["binning"])
        ctx.close(y, np.broadcast_to(1. + 2. * t, y.shape), "merged linear function", tol=1e-12)
    # counts have the same time axis
    cl, cs = np.linspace(100, 50, n * p), np.full((L, n), 10.)
    t2, y2 = log_merge_count(cl, cs, binning=c["binning"])
    ctx.equal(t2, t, "log_merge_count time")
    ctx.ok(y2.shape == t2.shape, "log_merge_count shape")
    ctx.close(y2[len(y2) - L * (n // 2):], np.full(L * (n // 2), 10.), "log_merge_count of slow data")
    ctx.close(y2[:len(y2) - L * (n // 2)], merge_multilevel(multilevel_count(cl, n, binning=c["binning"]))[1], "log_merge_count of the averaged fast data", tol=1e-9)
    ctx.close(y2[:n], cl[:n], "log_merge_count of the shortest delays", tol=1e-12)
    ctx.label("period%d" % p)
    ctx.label("bin%d" % c["binning"])
    return L > 0 and n > 2


# ------------------------------------------------------------- counts
@st.composite
def count_cases(draw):
    size = draw(st.integers(1, 6))
    return {"size": size, "T": draw(st.one_of(st.integers(1, 120), st.integers(1, 120), st.integers(121, 800))), "kind": draw(st.sampled_from(["const", "tri", "rand"])), "a": draw(st.integers(1, 50)),
            "s": draw(st.integers(0, 9999)), "binning": draw(st.sampled_from([0, 1, 1])), "L": draw(st.integers(5, 16)), "N": draw(st.integers(5, 300)), "pow2": draw(st.booleans())}


def check_count(c, ctx):
    T, size = c["T"], 2 * c["size"]
    if c["kind"] == "const":
        cnt = np.full(T, c["a"])
    elif c["kind"] == "tri":
        cnt = np.arange(T, 0, -1) * c["a"]
    else:
        cnt = np.random.RandomState(c["s"]).randint(1, c["a"] + 1, T)
    x, y = log_average_count(cnt, c["size"])
    wx, wy = log_average(np.zeros(T), c["size"])
    ctx.equal(x, wx, "log_average_count time")
    ctx.ok((np.isnan(y) == np.isnan(wy)).all(), "log_average_count: missing values")
    ml = multilevel_count(cnt, size, binning=c["binning"])
    ctx.close(y, merge_multilevel(multilevel_count(cnt, size, binning=1))[1], "log_average_count values", tol=1e-9)
    shape = multilevel(np.zeros(T), size).shape
    ctx.ok(ml.shape == shape, "multilevel_count shape %s, data %s" % (ml.shape, shape))
    for l in range(len(ml)):
        kern = triangular_kernel(l)
        h = len(kern) // 2
        want = np.minimum(np.arange(1, 2 * h + 2), np.arange(2 * h + 1, 0, -1)) / 4. ** l
        ctx.close(kern, want, "triangular_kernel", tol=1e-14)
        s2 = (kern ** 2).sum() if c["binning"] == 1 else 1.
        for i in range(size):
            t = i * 2 ** l
            if t >= T:
                ctx.ok(np.isnan(ml[l, i]), "multilevel_count beyond the data")
                continue
            if c["binning"] == 0:
                ctx.close(ml[l, i], cnt[t], "multilevel_count without averaging", tol=1e-12)
                continue
            # near the borders: the average of those samples that exist (counts of the others are zero)
            w = np.zeros(2 * h + 1)
            lo, hi = max(t - h, 0), min(t + h + 1, T)
            w[lo - t + h:hi - t + h] = cnt[lo:hi]
            ctx.close(ml[l, i], (kern * w).sum() ** 3 / ((kern * w) ** 2).sum(), "multilevel_count level %d sample %d of %d counts" % (l, i, T), tol=1e-9)
            if t - h >= 0 and t + h < T:
                a, b = cnt[t - h:t + h + 1].min(), cnt[t - h:t + h + 1].max()
                lo, hi = a ** 3 / b ** 2 / s2, b ** 3 / a ** 2 / s2
                ctx.ok(lo * (1 - 1e-9) <= ml[l, i] <= hi * (1 + 1e-9), "multilevel_count level %d sample %d: %r not in %r..%r" % (l, i, ml[l, i], lo, hi))
    ctx.close(multilevel_count(cnt * 3, size, binning=c["binning"]), 3 * ml, "multilevel_count is not proportional to the count", tol=1e-9)
    # counts of multi-tau data: same shape as the data, and close to the true numbers of pairs
    L = c["L"]
    N = L * 2 ** (c["N"] % 5) if c["pow2"] else max(L, c["N"])
    xx = np.zeros((N, 1))
    for cross, f in ((True, ccorr_multi_count), (False, acorr_multi_count)):
        for binning in (0, 1):
            cf, cs = f(N, level_size=L, binning=binning)
            data = ccorr_multi(xx, xx, level_size=L, norm=1, binning=binning) if cross else acorr_multi(xx, level_size=L, norm=1, binning=binning)
            ctx.ok(cf.shape == data[0][1].shape and cs.shape == data[1][1].shape, "multi count shapes %s %s, data have %s %s (N=%d, level_size=%d)" % (
                cf.shape, cs.shape, data[0][1].shape, data[1][1].shape, N, L))
            m = 2 if cross else 1
            ctx.ok((np.abs(cf - data[0][1])[1 if not cross else 1:] <= m + 1e-9).all(), "effective count of the fast part")
            if binning == 0:
                true = data[1][1][:, 1:].astype(float)
                ctx.ok((np.abs(cs[:, 1:] - true) <= m + 1e-9).all() if cs.size else True, lambda: "effective count of slow data without averaging: %s, pairs %s" % (cs, true))
            elif cs.size:
                # averaging: at least as good as the selected pairs alone, at most all pairs
                k = np.arange(L)
                for l in range(len(cs)):
                    pairs = m * np.maximum(N - k * 2. ** (l + 1), 0)
                    s2 = (triangular_kernel(l + 1) ** 2).sum()
                    h = 2 ** (l + 1)
                    inside = (k * 2 ** (l + 1) + h <= N - 1) & (k > 0)
                    up = m * np.maximum(N - k * 2. ** (l + 1) + h, 0) ** 3 / np.maximum(m * (N - k * 2. ** (l + 1) - h), 1e-9) ** 2 * m ** 2 / s2
                    lo = m * np.maximum(N - k * 2. ** (l + 1) - h, 0) ** 3 / (N - k * 2. ** (l + 1) + h) ** 2 / s2
                    ctx.ok((cs[l] >= lo * (1 - 1e-9))[inside].all() and (cs[l] <= up * (1 + 1e-9))[inside].all(), lambda: "effective count of averaged data, level %d: %s" % (l, cs[l]))
    ctx.label(c["kind"])
    return len(ml) > 1


# ------------------------------------------------------------- normalization
@st.composite
def norm_cases(draw):
    cross = draw(st.booleans())
    diff = draw(st.integers(0, 3)) == 0
    norm = draw(st.sampled_from([None, 2, 6] if cross else [None, 2])) if diff else draw(st.sampled_from([None, 1, 2, 3, 5, 6, 7, 9, 10, 11, "structured", "subtracted|standard"]))
    return {"cross": cross, "diff": diff, "norm": norm, "n": draw(st.integers(5, 7)), "lv": draw(st.integers(0, 3)), "extra": draw(st.integers(0, 4)), "period": draw(st.integers(1, 2)),
            "k": draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)), "mode": draw(st.sampled_from(["corr", "diff"])), "scale": draw(st.booleans()),
            "complex": draw(st.booleans()) and not diff, "f1": draw(gen.content(["normal", "offset"])), "f2": draw(gen.content(["normal"])), "mask": draw(st.booleans()), "s": draw(st.integers(0, 9999))}


def check_norm(c, ctx):
    n, cross = c["n"], c["cross"]
    T = n * 2 ** c["lv"] + c["extra"] + n
    k = list(c["k"])
    if k[0] == 2:
        k[0] = 3      # a pair of arrays cannot be told from an array of length two (listed finding of C06)
    x1, x2 = gen.expand(c["f1"], [T] + k), gen.expand(c["f2"], [T] + k)
    kw = dict(level_size=n, method="diff" if c["diff"] else "corr", period=c["period"], complex=c["complex"], norm=None if c["diff"] else 7)
    data = ccorr_multi(x1, x2, **kw) if cross else acorr_multi(x1, **kw)
    bg, var = (x1.mean(0), x2.mean(0)), (x1.var(0) + .1, x2.var(0) + .1)
    if not cross:
        bg, var = bg[0], var[0]
    mask = np.random.RandomState(c["s"]).rand(*k) < 0.6 if c["mask"] else None
    if mask is not None and not mask.any():
        mask[...] = True
    nk = dict(norm=c["norm"], mode=c["mode"], scale=c["scale"], mask=mask)
    ctx_keep = [d.copy() for d in data[0] + data[1] if d is not None]
    lin, multi = normalize_multi(data, bg, var, **nk)
    for a, b in zip([d for d in data[0] + data[1] if d is not None], ctx_keep):
        ctx.equal(a, b, "data modified by normalize_multi")
    want = normalize(data[0], bg, var, **nk)
    sc = (np.abs(x1).max() + np.abs(x2).max() + 1) ** 2
    ctx.close(lin, want, "normalize_multi, linear part", scale=sc, tol=1e-11)
    for l in range(len(multi)):
        level = tuple(None if d is None else d[l] for d in data[1])
        want = normalize(level, bg, var, **nk)
        ctx.ok(want.shape == multi[l].shape, "normalize_multi level %d: shape %s" % (l, multi[l].shape))
        ctx.close(multi[l], want, "normalize_multi level %d (norm %s)" % (l, c["norm"]), scale=sc, tol=1e-11)
    ctx.label("norm%s" % c["norm"])
    return len(multi) > 0


SUBS = [
    harness.Sub("multilevel", ml_cases(), check_multilevel, 600, 12000, "more than one level"),
    harness.Sub("merge", merge_cases(), check_merge, 400, 8000, "at least one slow level of at least four samples"),
    harness.Sub("counts", count_cases(), check_count, 240, 4000, "more than one level"),
    harness.Sub("normalize", norm_cases(), check_norm, 300, 5000, "at least one slow level"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C11", SUBS, assumptions=["merging: the period is a power of two"]))
