"""C05: ccorr / acorr data tuples against their definition, for every method / norm."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, large, stream
from cddm.core import acorr, ccorr
defaults.wrap(globals())

NM = ["none", "none", "one", "short", "full", "long"]


def pick_n(mode, k, full):
    return {"none": None, "one": 1, "short": max(1, full - 1 - k), "full": full, "long": full + 1 + k}[mode]


@st.composite
def cases(draw):
    cross = draw(st.booleans())
    shape, axis, T = draw(gen.shape_with_axis(3, 18, 4))
    method = draw(st.sampled_from([None, "corr", "corr", "fft", "fft", "diff"]))
    if method == "diff":
        norm = draw(st.sampled_from([None, 2, 6] if cross else [None, 2]))
    else:
        norm = draw(st.sampled_from([None, 1, 2, 3, 5, 6, 7]))
    irr = draw(st.booleans())
    sq = draw(st.sampled_from(["no", "no", "own", "free"])) if method != "diff" else "no"
    return {"cross": cross, "shape": shape, "axis": axis, "method": method, "norm": norm,
            "complex": draw(st.booleans()) and not method == "diff", "align": draw(st.booleans()),
            "f1": draw(gen.content()), "f2": draw(gen.content()), "dt": draw(st.sampled_from(gen.IN_DTYPES)),
            "lay": draw(st.sampled_from(gen.LAYOUTS)), "nmode": draw(st.sampled_from(NM)), "nk": draw(st.integers(0, 6)),
            "t1": draw(gen.times(T)) if irr else None, "t2": draw(gen.times(T)) if irr else None, "sq": sq}


def check(c, ctx):
    cross, axis = c["cross"], c["axis"]
    shape = tuple(c["shape"])
    x1, x2 = gen.expand(c["f1"], shape, dtype=c["dt"]), gen.expand(c["f2"], shape, dtype=c["dt"])
    T = shape[axis]
    r1 = list(range(T)) if c["t1"] is None else c["t1"]
    r2 = list(range(T)) if c["t2"] is None else c["t2"]
    full = T if c["t1"] is None else (ref.full_n_cross(r1, r2) if cross else ref.full_n_auto(r1))
    nn = pick_n(c["nmode"], c["nk"], full)
    n = full if nn is None else nn
    norm, method, cx = c["norm"], c["method"], c["complex"]
    a1, a2 = gen.layout(x1, c["lay"]), gen.layout(x2, c["lay"])
    t1 = gen.tform(c["t1"])
    t2 = gen.tform(c["t2"], 1)
    s1 = s2 = None
    q1, q2 = np.abs(x1.astype(complex)) ** 2, np.abs(x2.astype(complex)) ** 2
    if c["sq"] == "own":
        s1, s2 = q1, q2
    elif c["sq"] == "free":     # squares are the user's to choose: they are summed as given
        s1, s2 = np.abs(q2) + 1, 2 * np.abs(q1) + 3
        q1, q2 = s1, s2
    kw = dict(method=method, norm=norm, align=c["align"], axis=axis, n=nn, complex=cx)
    keep = [np.array(v, copy=True) for v in (a1, a2)]
    ks = [None if v is None else v.copy() for v in (s1, s2)]
    if cross:
        got = ccorr(a1, a2, t1, t2, f1s=s1, f2s=s2, **kw)
    else:
        got = acorr(a1, t1, fs=s1, **kw)
    for a, b in zip((a1, a2), keep):
        ctx.equal(np.asarray(a), b, "input modified")
    for a, b in zip((s1, s2), ks):
        if b is not None:
            ctx.equal(a, b, "square input modified")
    diff = method == "diff"
    eff = norm if norm is not None else ((6 if cross else 2) if diff else 7)
    y1, y2, p1, p2 = (np.moveaxis(v, axis, 0) for v in (x1, x2, q1, q2))
    kind = "diff" if diff else "corr"
    ctx.ok(isinstance(got, tuple) and len(got) == (4 if diff else 5), "result is not a tuple of the documented length")
    if cross:
        cor = ref.cross(y1, y2, r1, r2, n, cx, kind)[0]
        cnt = ref.count_cross(r1, r2, n, cx)
        sq = None if diff or not eff & 2 else ref.sum_cross(p1, r1, r2, n, cx)[0] + ref.sum_cross(p2, r2, r1, n, cx, True)[0]
        m1 = ref.sum_cross(y1, r1, r2, n, cx)[0] if eff & 4 else None
        m2 = ref.sum_cross(y2, r2, r1, n, cx, True)[0] if eff & 4 else None
    else:
        cor = ref.auto(y1, r1, n, cx, kind)[0]
        cnt = ref.count_auto(r1, n)
        sq = None if diff or not eff & 2 else 2 * ref.sum_auto(p1, r1, n)[0]
        m1 = ref.sum_auto(y1, r1, n)[0] if eff & 4 and not diff else None
        m2 = None
    want = [cor, cnt, m1, m2] if diff else [cor, cnt, sq, m1, m2]
    names = ["cor", "count", "sum1", "sum2"] if diff else ["cor", "count", "sq", "sum1", "sum2"]
    A1, A2 = np.abs(x1.astype(complex)).max(), np.abs(x2.astype(complex)).max()
    e = (A1 + A2) ** 2 * T + 1e-300
    if sq is not None:
        e += np.abs(sq).max()
    single = c["dt"] in ("complex64", "float32")
    tol = 1e-11
    scales = {"cor": e, "sq": e, "sum1": (A1 + A2) * T + 1e-300, "sum2": (A1 + A2) * T + 1e-300}
    for nm, g, w in zip(names, got, want):
        ctx.ok((g is None) == (w is None), "%s: %s, expected %s (norm %s)" % (nm, type(g), type(w), norm))
        if w is None:
            continue
        if nm == "count":
            ctx.equal(g, w, "count")
        else:
            # single precision squares are the user's dtype, but all sums are made in double precision
            ctx.close(g, w, "%s %s method=%s norm=%s complex=%s" % ("cross" if cross else "auto", nm, method, norm, cx), scale=scales[nm], tol=tol)
    ctx.label("%s-%s%s" % ("cross" if cross else "auto", method, "-c" if cx else ""))
    ctx.label("norm%s" % norm)
    ctx.label("axis%d/%d%s" % (axis % len(shape), len(shape), "-align" if c["align"] else ""))
    return T > 2 and n > 1 and np.abs(cor).max() > 0


@st.composite
def reject_cases(draw):
    return {"cross": draw(st.booleans()), "method": draw(st.sampled_from(["corr", "fft", "diff", None, "xx", "Corr"])),
            "norm": draw(st.one_of(st.none(), st.integers(-2, 17))), "T": draw(st.integers(2, 6)), "f": draw(gen.content(["normal"])),
            "complex": draw(st.booleans()), "one_t": draw(st.booleans()), "shape2": draw(st.booleans())}


def check_reject(c, ctx):
    """Accepted exactly when documented; refused with ValueError otherwise."""
    x = gen.expand(c["f"], (c["T"], 2))
    m, norm, cross = c["method"], c["norm"], c["cross"]
    if m == "diff":
        good = norm in ((None, 2, 6) if cross else (None, 2)) and not (cross and c["complex"])
    elif m in ("corr", "fft", None):
        good = norm in (None, 1, 2, 3, 5, 6, 7)
    else:
        good = False
    kw = dict(method=m, norm=norm, complex=c["complex"])
    if cross:
        x2 = x
        if c["shape2"]:
            x2, good = x[:-1], False
        t = (np.arange(c["T"]), None) if c["one_t"] else (None, None)
        good = good and not c["one_t"]
    keep = x.copy()
    try:
        if cross:
            r = ccorr(x, x2, *t, **kw)
        else:
            r = acorr(x, **kw)
        accepted = True
    except ValueError:
        accepted = False
    ctx.ok(accepted == good, "%s method=%s norm=%s complex=%s one_t=%s shape2=%s: %s" % (
        "cross" if cross else "auto", m, norm, c["complex"], c["one_t"], c["shape2"], "accepted" if accepted else "refused"))
    ctx.equal(x, keep, "input modified")
    ctx.label("accepted" if accepted else "refused")
    return True


@st.composite
def mm_cases(draw):
    shape, axis, T = draw(gen.shape_with_axis(3, 40, 4))
    irr = draw(st.booleans())
    return {"cross": draw(st.booleans()), "shape": shape, "axis": axis, "f1": draw(gen.content()), "f2": draw(gen.content()),
            "n": draw(st.one_of(st.none(), st.integers(1, 45))), "same": draw(st.booleans()),
            "t1": draw(gen.times(T)) if irr else None, "t2": draw(gen.times(T)) if irr else None,
            "align": draw(st.booleans())}


def check_mm(c, ctx):
    """The methods agree: fft == corr, and diff == sq - 2 corr."""
    x1, x2 = gen.expand(c["f1"], c["shape"]), gen.expand(c["f2"], c["shape"])
    T = c["shape"][c["axis"]]
    kw = dict(axis=c["axis"], n=c["n"], align=c["align"])
    e = (np.abs(x1).max() + np.abs(x2).max()) ** 2 * T + 1e-300
    if c["cross"]:
        t1, t2 = c["t1"], c["t2"]
        a, b = (ccorr(x1, x2, t1, t2, method=m, norm=7, **kw) for m in ("corr", "fft"))
        d = ccorr(x1, x2, t1, t2, method="diff", norm=6, **kw)
        if c["same"]:   # a cross analysis of a signal with itself counts every pair twice, except zero delay
            u = ccorr(x1, x1, t1, t1, method="corr", norm=7, **kw)
            v = acorr(x1, t1, method="corr", norm=7, **kw)
            ctx.equal(u[1][1:], 2 * v[1][1:], "cross count of identical data")
            ctx.close(u[0][..., 1:], 2 * v[0][..., 1:], "cross correlation of identical data", scale=e, tol=1e-10)
            ctx.close(u[0][..., 0], v[0][..., 0], "cross correlation of identical data at zero delay", scale=e, tol=1e-10)
            ctx.close(u[2][..., 1:], 2 * v[2][..., 1:], "square sum of identical data", scale=e, tol=1e-10)
            ctx.close(u[2][..., 0], v[2][..., 0], "square sum of identical data at zero delay", scale=e, tol=1e-10)
    else:
        a, b = (acorr(x1, c["t1"], method=m, norm=7, **kw) for m in ("corr", "fft"))
        d = acorr(x1, c["t1"], method="diff", norm=2, **kw)
    for i in (0, 2, 3, 4):
        if a[i] is not None:
            ctx.close(b[i], a[i], "fft/corr element %d" % i, scale=e if i in (0, 2) else e ** 0.5 * T, tol=1e-10)
    ctx.equal(b[1], a[1], "counts of the fft and corr methods")
    ctx.equal(d[1], a[1], "counts of the diff and corr methods")
    ctx.close(d[0], a[2] - 2 * a[0], "diff = sq - 2 corr", scale=e, tol=1e-10)
    if c["cross"]:
        for i in (3, 4):
            ctx.close(d[i - 1], a[i], "signal sum of the diff method", scale=e ** 0.5 * T, tol=1e-10)
    return T > 2


def check_real(c, ctx):
    """hundreds of frames"""
    f1, f2, y1, y2, axis = large.data(c)
    t1, t2, r1, r2 = large.times(c)
    diff = c["method"] == "diff"
    norm = (6 if c["cross"] and c["norm"] & 4 else 2) if diff else c["norm"]
    n, cx = c["n"], c["complex"] and not diff
    N = large.full_n(c, r1, r2) if n is None else n
    kw = dict(n=n, norm=norm, method=c["method"], align=c["align"], axis=axis, complex=cx)
    got = ccorr(f1, f2, t1, t2, **kw) if c["cross"] else acorr(f1, t1, **kw)
    want = ref.analysis(y1, y2, r1, r2, N, cx, "diff" if diff else "corr", norm)
    A = np.abs(y1.astype(complex)).max() + (np.abs(y2.astype(complex)).max() if c["cross"] else 0)
    stream.compare(ctx, got, want, None, (A * A + A) * c["T"], "%s %s norm=%d of %d frames" % ("cross" if c["cross"] else "auto", c["method"], norm, c["T"]), diff)
    ctx.label("%s-%s" % ("cross" if c["cross"] else "auto", c["method"]))
    return N > 1


SUBS = [
    harness.Sub("definition", cases(), check, 1200, 25000, "more than 2 frames and 1 delay, non-zero correlation"),
    harness.Sub("methods_agree", mm_cases(), check_mm, 600, 10000, "more than 2 frames"),
    harness.Sub("real_size", large.cases(), check_real, 300, 6000, "more than one delay"),
    harness.Sub("rejects", reject_cases(), check_reject, 400, 4000, "all"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C05", SUBS))
