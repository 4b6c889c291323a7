"""C06: normalize() against the formulas of every normalization."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref
from cddm.core import acorr, ccorr, stats
from cddm.norm import normalize, scale_factor, noise_delta, norm_flags, norm_from_string
defaults.wrap(globals())

CORR_NORMS = [1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15]


# ------------------------------------------------------------------ reference
def r_denoise(x, n=3):
    if np.iscomplexobj(x):
        return r_denoise(x.real, n) + 1j * r_denoise(x.imag, n)
    for _ in range(n):
        y = x.copy()
        y[..., 1:-1] = np.sort(np.stack([x[..., :-2], x[..., 1:-1], x[..., 2:]]), axis=0)[1]
        x = y
        y = x.copy()
        y[..., 1:-1] = 0.25 * (x[..., :-2] + 2 * x[..., 1:-1] + x[..., 2:])
        x = y
    return x


def r_weight(g, delta):
    return 2 * g / (np.abs(g) ** 2 + 1 + delta ** 2)


def mix(w, a, b):
    if np.iscomplexobj(w):
        return (w.real * a.real + (1 - w.real) * b.real) + 1j * (w.imag * a.imag + (1 - w.imag) * b.imag)
    return w * a + (1 - w) * b


def r_base(av, norm, bg1, bg2, v):
    """Unscaled correlation for a single (not weighted) normalization.
    av = dict of the averages over pairs: c = <f1* f2>, q = <|f1|^2+|f2|^2>, a1 = <f1>, a2 = <f2>"""
    c, q, a1, a2 = av["c"], av["q"], av["a1"], av["a2"]
    cx = np.iscomplexobj(c)
    if norm & 4:        # <(f1-bg1)* (f2-bg2)>
        c = c - np.conj(bg1) * a2 - np.conj(a1) * bg2 + np.conj(bg1) * bg2 if cx else \
            c - np.real(np.conj(bg1) * a2 + np.conj(a1) * bg2 - np.conj(bg1) * bg2)
        if norm & 2:    # <|f1-bg1|^2 + |f2-bg2|^2>
            q = q - 2 * np.real(np.conj(bg1) * a1) + np.abs(bg1) ** 2 - 2 * np.real(np.conj(bg2) * a2) + np.abs(bg2) ** 2
        b1 = b2 = 0
    elif norm & 8:
        b1, b2 = a1, a2
    else:
        b1, b2 = bg1, bg2
    prod = np.conj(b1) * b2
    if not norm & 2:
        return c - (prod if cx else np.real(prod))
    # offset - 1/2 <|f2-f1|^2> + 1/2 |b2-b1|^2, and for the imaginary part the same with f2 -> i f2
    re = v - 0.5 * (q - 2 * np.real(c)) + 0.5 * np.abs(b2 - b1) ** 2
    if not cx:
        return re
    im = v - 0.5 * (q - 2 * np.imag(c)) + 0.5 * np.abs(b1 + 1j * b2) ** 2
    return re + 1j * im


def r_normalize(av, norm, bg1, bg2, v1, v2, mode, scale, weight=None):
    v = (v1 + v2) / 2.
    bg1, bg2, v, v1, v2 = (np.asarray(x)[..., None] for x in (bg1, bg2, v, v1, v2))
    w = None
    if norm & 3 == 3:
        base = r_base(av, (norm & 12) | 1, bg1, bg2, v)
        comp = r_base(av, (norm & 12) | 2, bg1, bg2, v)
        w = weight
        if w is None:
            delta = (v2 - v1) / (v2 + v1)
            w = r_weight(r_denoise(base) / v, delta)
            for _ in range(2):
                w = r_weight(r_denoise(mix(w, comp, base)) / v, delta)
        r = mix(w, comp, base)
    else:
        r = r_base(av, norm, bg1, bg2, v)
    if mode == "diff":
        r = 2 * v - 2 * r
    if scale:
        r = r / v
    return r, w


# ------------------------------------------------------------------ kernels: arbitrary raw tuples
@st.composite
def kcases(draw):
    kshape = draw(st.lists(st.integers(1, 4), min_size=0, max_size=3))
    n = draw(st.integers(1, 9))
    lev = draw(st.sampled_from([None, None, 1, 3])) if kshape else None
    kind = draw(st.sampled_from(["cross", "cross", "auto", "cross-diff", "auto-diff"]))
    cx = draw(st.booleans()) and "diff" not in kind
    mode = draw(st.sampled_from(["corr", "diff"]))
    norm = draw(st.sampled_from([2, 6] if kind == "cross-diff" else [2] if kind == "auto-diff" else CORR_NORMS))
    if n < 3 and norm & 3 == 3:
        n += 2
    return {"k": kshape, "n": n, "lev": lev, "kind": kind, "complex": cx, "mode": mode, "norm": norm, "scale": draw(st.booleans()),
            "how": draw(st.sampled_from(["int", "int", "str", "none"])), "form": draw(st.sampled_from(["pair", "list", "single"])),
            "d": draw(gen.content(["normal", "mixed", "ints", "big"])), "bg": draw(gen.content(["normal", "mixed", "ints", "big"])),
            "zero": draw(st.integers(0, 3)) == 0, "weight": draw(st.sampled_from([None, None, "w"])),
            "mode_var": draw(st.sampled_from(["same", "free", "free"])), "out": draw(st.booleans()), "passout": draw(st.integers(0, 3)) == 0}


def check_kernel(c, ctx):
    k, n, lev, norm, cx = tuple(c["k"]), c["n"], c["lev"], c["norm"], c["complex"]
    kind = c["kind"]
    diff = "diff" in kind
    cross = "cross" in kind
    if "diff" not in kind and norm & 8 and not norm & 4 and norm & 3 == 0:
        return False
    shape = (() if lev is None else (lev,)) + k + (n,)
    cshape = (n,) if lev is None else (lev, n)
    rs = np.random.RandomState(c["d"]["s"] % 2 ** 31)
    count = rs.randint(1, 30, cshape)
    if c["zero"] and norm & 3 != 3:
        count[rs.rand(*cshape) < 0.2] = 0
    m = lambda i: dict(c["d"], s=c["d"]["s"] + i)
    cor = gen.expand(m(1), shape, cx)
    sq = np.abs(gen.expand(m(2), shape, False))
    m1, m2 = gen.expand(m(3), shape), gen.expand(m(4), shape)
    form = c["form"]
    if form == "single" and k and k[0] == 2:
        if ctx.skip_known("single_dim2"):
            form = "pair"
    b = lambda i: dict(c["bg"], s=c["bg"]["s"] + i)
    bg1, bg2 = gen.expand(b(1), k), gen.expand(b(2), k)
    v1, v2 = 0.1 + np.abs(gen.expand(b(3), k, False)), 0.1 + np.abs(gen.expand(b(4), k, False))
    if c["mode_var"] == "same":
        v2 = v1
    if form == "single":
        bg2, v2 = bg1, v1
        bg, var = bg1, v1
    else:
        bg, var = (bg1, bg2), (v1, v2)
        if form == "list":
            bg, var = list(bg), list(var)
    # which elements are there
    if diff:
        data = [cor, count, m1, m2] if norm & 4 else [cor, count, None, None]
        dflt = 6 if norm & 4 else 2
    else:
        data = [cor, count, sq if norm & 2 else None, m1 if norm & 12 else None, m2 if norm & 12 and cross else None]
        dflt = (3 if norm & 2 else 1) | (4 if norm & 12 else 0)
    a2 = m2 if cross else m1
    keep = [None if x is None else np.array(x) for x in data]
    arg = norm
    if c["how"] == "str":
        names = {1: "standard", 2: "structured", 3: "weighted"}[norm & 3]
        arg = names + ("|subtracted" if norm & 4 else "") + (" | compensated" if norm & 8 else "")
        ctx.ok(norm_from_string(arg) == norm, "norm_from_string(%r)" % arg)
    elif c["how"] == "none" and (norm & 3 != 3 or n > 2):
        if dflt & 3 == 3 and (n < 3 or c["zero"]):
            pass
        else:
            arg, norm = None, dflt
    # averages over pairs; delay counts of zero are undefined and left out
    cb = count[(slice(None),) * (count.ndim - 1) + (None,) * len(k)] if lev is not None else count
    cbx = np.where(cb == 0, 1, cb)
    av = {"q": sq / cbx, "a1": m1 / cbx, "a2": a2 / cbx}
    if diff:
        av["q"] = np.zeros(shape)
        av["c"] = -0.5 * cor / cbx      # <|f2-f1|^2> = q - 2 c
    else:
        av["c"] = cor / cbx
    if diff and norm & 4:
        # only the difference of the backgrounds enters: <|d - db|^2>
        d, db = a2 / cbx - m1 / cbx, (bg2 - bg1)[..., None]
        v = ((v1 + v2) / 2)[..., None]
        val = cor / cbx - 2 * np.real(np.conj(db) * d) + np.abs(db) ** 2
        want = val if c["mode"] == "diff" else v - 0.5 * val
        want = want / v if c["scale"] else want
        w = None
    else:
        weight = None
        if c["weight"] and norm & 3 == 3:
            weight = rs.rand(*shape) + (1j * rs.rand(*shape) if cx else 0)
        want, w = r_normalize(av, norm, bg1, bg2, v1, v2, c["mode"], c["scale"], weight)
        if weight is not None:
            c_w = weight.copy()
    kw = dict(mode=c["mode"], scale=c["scale"])
    if c["weight"] and norm & 3 == 3:
        kw["weight"] = weight
    out = None
    if c["passout"]:
        out = np.empty(shape, complex if cx else float)
        kw["out"] = out
    if c["out"]:
        got, gw = normalize(tuple(data), bg, var, norm=arg, ret_weight=True, **kw)
        if norm & 3 == 3:
            seen = np.broadcast_to(cb > 0, gw.shape)
            ctx.close(gw[seen], np.broadcast_to(w, gw.shape)[seen], "returned weight", scale=1., tol=1e-6)
        else:
            ctx.ok(gw is None, "weight returned for a normalization without weights")
    else:
        got = normalize(tuple(data), bg, var, norm=arg, **kw)
    if out is not None:
        ctx.ok(got is out, "result is not in the output array")
    mag = sum(np.abs(x).max() for x in (av["c"], av["q"])) + \
        (np.abs(av["a1"]).max() + np.abs(av["a2"]).max() + np.abs(bg1).max() + np.abs(bg2).max()) ** 2 + v1.max() + v2.max()
    div = ((v1 + v2) / 2.)[..., None] if c["scale"] else 1.
    seen = np.broadcast_to(cb > 0, shape)
    ctx.ok(np.iscomplexobj(got) == cx, "result type %s" % got.dtype)
    sc = np.broadcast_to(2 * mag / div, shape)
    if norm & 3 == 3 and not (c["weight"]):
        # weights react to rounding of g by up to a factor of |g|/variance
        sc = sc * (1 + mag / min(v1.min(), v2.min()))
    ctx.ok(got.shape == shape, "shape %s expected %s" % (got.shape, shape))
    ctx.close(got[seen], want[seen], "norm=%s mode=%s scale=%s %s%s" % (arg, c["mode"], c["scale"], kind, "-c" if cx else ""),
              scale=sc[seen], tol=1e-11)
    for i, (x, y) in enumerate(zip(data, keep)):
        if y is not None:
            ctx.equal(x, y, "raw data element %d modified" % i)
    ctx.equal(scale_factor(var), (v1 + v2) / 2., "scale_factor")
    ctx.close(noise_delta(var), (v2 - v1) / (v1 + v2), "noise_delta", scale=1.)
    ctx.label("%s%s" % (kind, "-c" if cx else ""))
    ctx.label("norm%s" % norm)
    ctx.label("mode-%s" % c["mode"])
    return True


# ------------------------------------------------------------------ end to end: from frames
@st.composite
def dcases(draw):
    kshape = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
    T = draw(st.integers(2, 14))
    irr = draw(st.booleans())
    cross = draw(st.booleans())
    return {"k": kshape, "T": T, "cross": cross, "t1": draw(gen.times(T)) if irr else None,
            "t2": draw(gen.times(T)) if irr else None, "complex": draw(st.booleans()),
            "f1": draw(gen.content(["normal", "offset", "ints", "mixed"])), "f2": draw(gen.content(["normal", "offset", "ints", "mixed"])),
            "norm": draw(st.sampled_from(CORR_NORMS)), "mode": draw(st.sampled_from(["corr", "diff"])), "scale": draw(st.booleans()),
            "method": draw(st.sampled_from(["corr", "fft"])), "n": draw(st.integers(1, 14)), "bgfree": draw(st.booleans())}


def pair_average(y1, y2, r1, r2, n, cx, auto, fun):
    m = 2 * n - 1 if cx and not auto else n
    tot = np.zeros((m,) + y1.shape[1:], complex)
    for i, j, d in ref._pairs(r1, r2, n, cx, auto=auto):
        tot[d if cx else abs(d)] += fun(y1[i], y2[j])
    return np.moveaxis(tot, 0, -1)


def check_data(c, ctx):
    k, T, cross, cx, n = tuple(c["k"]), c["T"], c["cross"], c["complex"], c["n"]
    norm = c["norm"]
    x1 = gen.expand(c["f1"], (T,) + k)
    x2 = gen.expand(c["f2"], (T,) + k) if cross else x1
    r1 = list(range(T)) if c["t1"] is None else c["t1"]
    r2 = r1 if not cross or c["t2"] is None else c["t2"]
    need = 7 if norm & 12 else 3
    if cross:
        data = ccorr(x1, x2, c["t1"], c["t2"], norm=need, method=c["method"], n=n, complex=cx)
        (bg1, bg2), (v1, v2) = stats(x1, x2)
    else:
        data = acorr(x1, c["t1"], norm=need, method=c["method"], n=n, complex=cx)
        bg1, v1 = stats(x1)
        bg2, v2 = bg1, v1
    if c["bgfree"]:
        bg1, bg2 = np.asarray(bg1) * 1.5 + (1 - 2j), np.asarray(bg2) * 0.5 - 1j
    v1, v2 = np.asarray(v1) + 0.01, np.asarray(v2) + 0.01
    cnt = pair_average(np.ones(T), np.ones(T), r1, r2, n, cx, not cross, lambda a, b: 1).real
    seen = cnt > 0
    if norm & 3 == 3 and (n < 3 or not seen.all()):
        norm = norm & ~2
    safe = np.where(seen, cnt, 1)
    if norm & 8 and not norm & 4 or norm & 12 == 0:
        A1 = pair_average(x1, x2, r1, r2, n, cx, not cross, lambda a, b: a) / safe
        A2 = pair_average(x1, x2, r1, r2, n, cx, not cross, lambda a, b: b) / safe
        if not cross:
            A1 = A2 = (A1 + A2) / 2
        av = {"c": pair_average(x1, x2, r1, r2, n, cx, not cross, lambda a, b: np.conj(a) * b) / safe,
              "q": (pair_average(x1, x2, r1, r2, n, cx, not cross, lambda a, b: np.abs(a) ** 2 + np.abs(b) ** 2) / safe).real, "a1": A1, "a2": A2}
        B1, B2 = bg1, bg2
    else:   # background subtracted: the pairs of the data with the background removed
        if not cross and c["bgfree"]:
            bg2 = bg1
        z1, z2 = x1 - bg1, x2 - bg2
        av = {"c": pair_average(z1, z2, r1, r2, n, cx, not cross, lambda a, b: np.conj(a) * b) / safe,
              "q": (pair_average(z1, z2, r1, r2, n, cx, not cross, lambda a, b: np.abs(a) ** 2 + np.abs(b) ** 2) / safe).real, "a1": 0, "a2": 0}
        B1 = B2 = np.zeros(k)
    if not cx:
        av["c"] = av["c"].real
    want, _ = r_normalize(av, norm & 3 if norm & 4 else norm, B1, B2, v1, v2, c["mode"], c["scale"])
    if not cross and c["mode"] == "corr" and norm == 1 and not c["bgfree"]:
        ctx.label("auto-standard")
    got = normalize(data, (bg1, bg2), (v1, v2), norm=norm, mode=c["mode"], scale=c["scale"])
    if cx and not cross and norm & 4:
        # auto data store one signal sum, the mean of both frames of a pair: what the background does to
        # the imaginary part is not contained in it
        got, want = got.real, want.real
        if norm & 3 == 3:
            return False
    mag = (np.abs(x1).max() + np.abs(x2).max() + np.abs(bg1).max() + np.abs(bg2).max() + 1) ** 2
    sc = mag * T * (1 / min(v1.min(), v2.min()) if c["scale"] else 1.)
    if norm & 3 == 3:
        sc = sc * (1 + mag / min(v1.min(), v2.min()))
    ctx.close(got[..., seen], np.broadcast_to(want, got.shape)[..., seen], "norm=%d mode=%s scale=%s" % (norm, c["mode"], c["scale"]), scale=sc, tol=1e-11)
    ctx.label(("cross" if cross else "auto") + ("-c" if cx else ""))
    ctx.label("norm%d" % norm)
    return seen.sum() > 1


# ------------------------------------------------------------------ identities between methods
def check_ident(c, ctx):
    """structured from correlation data == structured from difference data; diff mode == 2 var - 2 corr."""
    k, T, cross, n = tuple(c["k"]), c["T"], c["cross"], c["n"]
    x1, x2 = gen.expand(c["f1"], (T,) + k), gen.expand(c["f2"], (T,) + k)
    r1 = list(range(T)) if c["t1"] is None else c["t1"]
    if cross:
        a = ccorr(x1, x2, c["t1"], c["t2"], norm=7, n=n, method=c["method"])
        d = ccorr(x1, x2, c["t1"], c["t2"], norm=6, n=n, method="diff")
        bg, var = stats(x1, x2)
    else:
        a = acorr(x1, c["t1"], norm=7, n=n, method=c["method"])
        d = acorr(x1, c["t1"], n=n, method="diff")
        bg, var = stats(x1)
        bg, var = (bg, bg), (var, var)
    var = tuple(np.asarray(v) + 0.01 for v in var)
    off = (var[0] + var[1]) / 2
    seen = a[1] > 0
    mag = (np.abs(x1).max() + np.abs(x2).max() + 1) ** 2 * T
    for norm in ([2, 6] if cross else [2]):
        for mode in ("corr", "diff"):
            for scale in (False, True):
                p = normalize(a, bg, var, norm=norm, mode=mode, scale=scale)
                q = normalize(d, bg, var, norm=norm, mode=mode, scale=scale)
                ctx.close(p[..., seen], q[..., seen], "norm %d from correlation and difference data (mode=%s scale=%s)" % (norm, mode, scale),
                          scale=mag / (off.min() if scale else 1.), tol=1e-11)
    norms = [1, 2, 5, 6, 9, 10] + ([3, 7, 11] if n > 2 and seen.all() else [])
    for norm in norms:
        p = normalize(a, bg, var, norm=norm)
        q = normalize(a, bg, var, norm=norm, mode="diff")
        s = normalize(a, bg, var, norm=norm, scale=True)
        e = mag * (1 + (mag / off.min() if norm & 3 == 3 else 0))
        ctx.close(q[..., seen], (2 * off[..., None] - 2 * p)[..., seen], "norm %d: diff mode" % norm, scale=e, tol=1e-11)
        ctx.close((s * off[..., None])[..., seen], p[..., seen], "norm %d: scaled" % norm, scale=e, tol=1e-11)
    return seen.sum() > 1


def flag_cases():
    return st.fixed_dictionaries({k: st.booleans() for k in ("structured", "subtracted", "weighted", "compensated")})


def check_flags(c, ctx):
    f = norm_flags(**c)
    want = (3 if c["weighted"] else 2 if c["structured"] else 1) | (4 if c["subtracted"] else 0) | (8 if c["compensated"] else 0)
    ctx.ok(f == want, "norm_flags(%s) = %d, expected %d" % (c, f, want))
    s = "|".join(k for k, v in c.items() if v)
    if s:
        ctx.ok(norm_from_string(s) == want, "norm_from_string(%r)" % s)
    return any(c.values())


SUBS = [
    harness.Sub("kernels", kcases(), check_kernel, 1800, 40000, "all (raw tuples with independent random elements)"),
    harness.Sub("from_frames", dcases(), check_data, 1000, 20000, "more than one delay with pairs"),
    harness.Sub("identities", dcases(), check_ident, 300, 5000, "more than one delay with pairs"),
    harness.Sub("flags", flag_cases(), check_flags, 80, 800, "at least one flag"),
]


def probe_dim2():
    """auto-correlation data of frames with two rows: single background is split into two 'cameras'."""
    x = gen.expand({"m": "offset", "s": 5}, (9, 2, 3))
    a = acorr(x, norm=7, n=5)
    bg, var = stats(x)
    good = normalize(a, (bg, bg), (var, var), norm=1)
    bad = normalize(a, bg, var, norm=1)
    return bad.shape != good.shape or not np.allclose(good, bad)


if __name__ == "__main__":
    raise SystemExit(harness.main("C06", SUBS, probes={"single_dim2": probe_dim2}))
