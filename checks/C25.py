"""C25: helpers for complex cross-correlation data (folding, phase removal) and the error model of the normalizations."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
from cddm import norm as N
from cddm.norm import (fold_data, shift_data, equalize_data, noise_level, noise_mean, noise_delta, scale_factor, take_data,
                       weight_from_data, weight_prime_from_data, weight_from_g, weight_from_d, weighted_sum)
from cddm._core_nb import weight_prime_from_g, weight_prime_from_d, sigma_weighted, sigma_prime_weighted
defaults.wrap(globals())


# ------------------------------------------------------------------ complex data
@st.composite
def fold_cases(draw):
    return {"shape": draw(st.lists(st.integers(1, 4), max_size=2)), "n": draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9] * 3 + [70, 130])), "s": draw(st.integers(0, 9999)),
            "kind": draw(st.sampled_from(["any", "any", "model", "onehot"])), "phi": draw(st.sampled_from([0., .3, -1.2, 2.5, -3.1, 3.])),
            "lay": draw(st.sampled_from([x for x in gen.LAYOUTS if x != "list"])), "dt": draw(st.sampled_from(["complex128", "complex128", "complex64"]))}


def check_fold(c, ctx):
    n, sh = c["n"], tuple(c["shape"])
    m = 2 * n - 1
    rs = np.random.RandomState(c["s"])
    pa, na = .1 + rs.rand(*(sh + (n,))), .1 + rs.rand(*(sh + (n,)))  # magnitudes of positive and negative delays
    if c["kind"] == "model":
        a = rs.uniform(-3, 3, sh + (n,))  # phase of an advected signal, opposite at opposite delays
        a[..., 0] = 0
        na[..., 0] = pa[..., 0]
        P, Q = pa * np.exp(1j * a), na * np.exp(-1j * a)
    else:
        P = pa * np.exp(1j * rs.uniform(-3, 3, sh + (n,)))
        Q = na * np.exp(1j * rs.uniform(-3, 3, sh + (n,)))
    x = np.zeros(sh + (m,), complex)
    for k in range(n):
        x[..., k] = P[..., k]
    for k in range(1, n):
        x[..., m - k] = Q[..., k]
    if c["kind"] == "onehot":
        i = rs.randint(m)
        keep = x[..., i].copy()
        x[...] = 0
        x[..., i] = keep
    x = x.astype(c["dt"])
    tol = 1e-9 if c["dt"] == "complex128" else 3e-6
    d = gen.layout(x, c["lay"])
    # definition of folding
    got = {mode: fold_data(d, mode) for mode in (0, 1, -1)}
    ctx.close(fold_data(d), got[0], "default mode of fold_data", scale=2., tol=tol)
    for k in range(n):
        pos, neg = x[..., k], x[..., m - k] if k else x[..., 0]
        ctx.close(got[1][..., k], pos, "fold_data mode 1, delay %d" % k, scale=2., tol=tol)
        ctx.close(got[-1][..., k], neg, "fold_data mode -1, delay %d" % k, scale=2., tol=tol)
        ctx.close(got[0][..., k], (pos + np.conj(neg)) / 2 if k else pos, "fold_data mode 0, delay %d" % k, scale=2., tol=tol)
    for mode in got:
        ctx.ok(got[mode].shape == sh + (n,), "fold_data(mode = %d) shape %s" % (mode, got[mode].shape))
    for bad in (2, -2, None, "x"):
        try:
            fold_data(d, bad)
        except ValueError:
            continue
        except TypeError:
            continue
        ctx.fail("fold_data accepts mode %r" % (bad,))
    for f in (fold_data, shift_data, equalize_data):
        try:
            f(x.real)
        except ValueError:
            continue
        ctx.fail("%s accepts real data" % f.__name__)
    ctx.equal(d, x, "data was modified")
    got[0][...] = 99  # the results are copies
    got[1][...] = 99
    got[-1][...] = 99
    ctx.equal(d, x, "result of fold_data is not a copy")
    if c["kind"] == "onehot":
        return n > 1
    # removal of the translation phase
    rot = (x * np.exp(1j * c["phi"])).astype(c["dt"])
    for f in (shift_data, equalize_data):
        nm = f.__name__
        r = f(gen.layout(x, c["lay"]))
        ctx.close(f(rot), r, nm + " depends on the translation of one of the cameras", scale=2., tol=tol)
        ctx.close(r[..., 0], np.abs(x[..., 0]), nm + " at zero delay", scale=2., tol=tol)
        p, q = r[..., 1:n], r[..., :n - 1:-1]
        if f is shift_data:
            ctx.close(np.abs(r), np.abs(x), nm + " changes the magnitude", scale=2., tol=tol)
            ctx.close(p * np.abs(q), np.conj(q) * np.abs(p), nm + ": phases of opposite delays", scale=2., tol=tol)
        else:
            ctx.close(p, np.conj(q), nm + ": opposite delays are not conjugated", scale=2., tol=tol)
            ctx.close(np.abs(p), np.sqrt(np.abs(x[..., 1:n] * x[..., :n - 1:-1])), nm + ": magnitude", scale=2., tol=tol)
            ctx.close(f(r), r, nm + " applied twice", scale=2., tol=tol)
        if c["kind"] == "model":
            want = x if f is shift_data else None
            if want is not None:
                ctx.close(f(rot), want, nm + " does not restore data of aligned cameras", scale=2., tol=tol)
            else:
                ctx.close(r[..., 1:n], np.sqrt(pa * na)[..., 1:] * np.exp(1j * a)[..., 1:], nm + " of aligned cameras", scale=2., tol=tol)
    ctx.label(c["kind"])
    return n > 1


# ------------------------------------------------------------------ error model
def model(c):
    rs = np.random.RandomState(c["s"])
    m = c["m"]
    delta = rs.uniform(-.6, .6, m) if c["delta"] else np.zeros(m)
    r = np.sqrt(1 - delta ** 2) * rs.uniform(0, 1, m)
    ph = rs.uniform(-np.pi, np.pi, m) if c["cplx"] else np.where(rs.rand(m) < .3, np.pi, 0)
    g = r * np.exp(1j * ph)
    b1 = (rs.standard_normal(m) + 1j * rs.standard_normal(m)) * c["b"]
    b2 = (rs.standard_normal(m) + 1j * rs.standard_normal(m)) * c["b"]
    return g, delta, b1, b2, rs


def exact_variance(w, g, delta, b1, b2):
    """Variance of Re(conj(f1) f2) + w (1 - (|f1|^2 + |f2|^2)/2), f1 and f2 circular complex Gaussian with
    variances 1-delta, 1+delta, correlation <f1 conj(f2)> = g (the convention of the error model: conj(b2) b1 in its
    comments), and means b1, b2: a quadratic form of 4 normal variables."""
    S = np.zeros((4, 4))
    S[0, 0] = S[1, 1] = (1 - delta) / 2
    S[2, 2] = S[3, 3] = (1 + delta) / 2
    S[0, 2] = S[2, 0] = S[1, 3] = S[3, 1] = g.real / 2
    S[0, 3] = S[3, 0] = -g.imag / 2
    S[1, 2] = S[2, 1] = g.imag / 2
    A = np.zeros((4, 4))
    A[0, 2] = A[2, 0] = A[1, 3] = A[3, 1] = .5
    A -= np.eye(4) * w / 2
    mu = np.array([b1.real, b1.imag, b2.real, b2.imag])
    AS = A @ S
    return 2 * np.trace(AS @ AS) + 4 * mu @ A @ S @ A @ mu


def check_sigma(c, ctx):
    g, delta, b1, b2, rs = model(c)
    w = rs.uniform(-.5, 1.5, c["m"])
    z = np.zeros(c["m"])
    v = np.array([exact_variance(*a) for a in zip(w, g, delta, z, z)])
    vp = np.array([exact_variance(*a) for a in zip(w, g, delta, b1, b2)])
    ctx.close(sigma_weighted(w, g, delta) ** 2, v, "sigma_weighted is not the standard deviation of the weighted estimator", scale=1 + v, tol=1e-9)
    ctx.close(sigma_prime_weighted(w, g, delta, b1, b2) ** 2, vp, "sigma_prime_weighted is not the standard deviation of the weighted estimator with background", scale=1 + vp, tol=1e-9)
    ctx.close(sigma_prime_weighted(w, g, delta, z + 0j, z + 0j) ** 2, v, "sigma_prime_weighted without background", scale=1 + v, tol=1e-9)
    # optimal weights: minimum of the parabola through three exact values
    for name, got, bb in (("weight_from_g", weight_from_g(g.real if not c["cplx"] else g, delta), (z, z)), ("weight_prime_from_g", weight_prime_from_g(g, delta, b1, b2), (b1, b2))):
        f = [np.array([exact_variance(x, *a) for a in zip(g, delta, *bb)]) for x in (-1., 0., 1.)]
        A, B = (f[0] + f[2]) / 2 - f[1], (f[2] - f[0]) / 2
        best = -B / (2 * A)
        ctx.close(np.real(got), best, name + " does not minimise the error", scale=1 + np.abs(best), tol=1e-8)
    wc = weight_from_g(g, delta)  # complex data: real and imaginary part have their own weight
    f = [np.array([exact_variance(x, *a) for a in zip(-1j * g, delta, z, z)]) for x in (-1., 0., 1.)]
    best = -(f[2] - f[0]) / 2 / (f[0] + f[2] - 2 * f[1])
    ctx.close(np.imag(wc), best, "weight_from_g of the imaginary part", scale=1 + np.abs(best), tol=1e-8)
    ctx.close(weight_from_d(2 - 2 * g, delta), wc, "weight_from_d", scale=1., tol=1e-9)
    ctx.close(weight_prime_from_d(2 - 2 * g, delta, b1, b2), weight_prime_from_g(g, delta, b1, b2), "weight_prime_from_d", scale=1., tol=1e-9)
    ctx.label("complex" if c["cplx"] else "real")
    ctx.label("background" if c["b"] else "no background")
    return c["b"] > 0 or c["delta"]


# ------------------------------------------------------------------ levels, scales
@st.composite
def level_cases(draw):
    sh = draw(st.lists(st.integers(1, 5), min_size=1, max_size=2))
    return {"shape": sh, "n": draw(st.integers(4, 20)), "s": draw(st.integers(0, 9999)), "pair": draw(st.sampled_from([True, True, False])),
            "mask": draw(st.sampled_from([None, "some", "all"])), "ints": draw(st.booleans()), "scale": draw(st.booleans()),
            "win": draw(st.lists(st.integers(1, 5), min_size=2, max_size=2)), "cwin": draw(st.booleans()), "intensity": draw(st.sampled_from([0., 1., 7.5, 200])),
            "filter": draw(st.booleans()), "delta": draw(st.booleans()), "b": draw(st.sampled_from([0., .5]))}


def check_levels(c, ctx):
    sh = tuple(c["shape"])
    rs = np.random.RandomState(c["s"])
    v1, v2 = 1 + rs.randint(0, 9, sh), 1 + rs.randint(0, 9, sh)
    if not c["ints"]:
        v1, v2 = v1 * 1.7, v2 * .3
    mask = None if c["mask"] is None else np.ones(sh, bool) if c["mask"] == "all" else rs.rand(*sh) < .6
    sel = (lambda x: x if mask is None else x[mask])
    if c["pair"]:
        o1, o2 = v1.copy(), v2.copy()
        a, b = v1.astype(float), v2.astype(float)
        ctx.close(scale_factor((v1, v2), mask), sel((a + b) / 2), "scale_factor", scale=20.)
        ctx.close(noise_delta((v1, v2), mask), sel((b - a) / (a + b)), "noise_delta", scale=1.)
        ctx.close(noise_delta((v1, v2), mask, scale=False), sel((b - a) / 2), "noise_delta without scale", scale=20.)
        ctx.close(noise_delta((v2, v1), mask), -noise_delta((v1, v2), mask), "noise_delta of exchanged cameras", scale=1.)
        ctx.equal(v1, o1, "variance modified")
        ctx.equal(v2, o2, "variance modified")
    elif sh[0] != 2:  # an array of two rows cannot be told from a pair
        ctx.close(scale_factor(v1, mask), sel(v1), "scale_factor of one camera", scale=20.)
        ctx.close(noise_delta(v1, mask), sel(v1) * 0., "noise_delta of one camera", scale=1.)
    # camera noise: white noise of variance I in each pixel, summed over pixels in the Fourier space
    win = rs.rand(*c["win"]) + (1j * rs.rand(*c["win"]) if c["cwin"] else 0)
    want = 0.
    for p in np.ndindex(*c["win"]):
        im = np.zeros(c["win"])
        im[p] = np.sqrt(c["intensity"])
        want = want + np.abs(np.fft.fft2(im * win)) ** 2
    ctx.close(np.full(want.shape, noise_level(win, c["intensity"])), want, "noise_level", scale=1 + want, tol=1e-9)
    # noise of the data (missing correlation at zero delay)
    g = np.exp(-np.arange(c["n"]) / 5.) * rs.uniform(.2, 1.1, sh)[..., None]
    s = (v1 + v2) / 2.
    wn = np.clip(1 - g[..., 0], 0, 1)
    ctx.close(noise_mean(g * s[..., None], s), wn, "noise_mean", scale=1., tol=1e-9)
    ctx.close(noise_mean(2 * (1 - g) * s[..., None], s, mode="diff"), wn, "noise_mean of difference data", scale=1., tol=1e-9)
    ctx.close(noise_mean(g), wn, "noise_mean of scaled data", scale=1., tol=1e-9)
    # weights from data
    delta = rs.uniform(-.3, .3, sh) if c["delta"] else 0.
    dd = np.broadcast_to(delta, sh)
    b1, b2 = [(rs.standard_normal(sh) + 1j * rs.standard_normal(sh)) * c["b"] for _ in "12"]
    kw = dict(delta=delta, pre_filter=c["filter"])
    out = {}
    for name, f, args in (("weight_from_data", weight_from_data, ()), ("weight_prime_from_data", weight_prime_from_data, (b1, b2))):
        A = f(g, *args, scale_factor=np.ones(sh), **kw)
        ctx.close(f(g, *args, **kw), A, name + " without scale_factor", scale=1., tol=1e-9)
        B = f(g * s[..., None], *args, scale_factor=s, **kw)
        D = f(2 * (1 - g) * s[..., None], *args, scale_factor=s, mode="diff", **kw)
        ctx.close(B, A, name + " of scaled and unscaled data", scale=1., tol=1e-9)
        ctx.close(D, A, name + " of correlation and difference data", scale=1., tol=1e-9)
        if not c["filter"]:
            want = weight_from_g(g, dd[..., None]) if not args else weight_prime_from_g(g + 0j, dd[..., None], b1[..., None], b2[..., None])
            ctx.close(A, want, name, scale=1., tol=1e-9)
        out[name] = A
    if c["b"] == 0 and not c["filter"]:
        ctx.close(out["weight_prime_from_data"], out["weight_from_data"], "weight_prime_from_data without background", scale=1., tol=1e-9)
    # selection of elements
    if mask is not None:
        data = (g, np.arange(c["n"]), None, 2 * g, g + 1)
        r = take_data(data, mask)
        ctx.ok(len(r) == 5 and r[2] is None, "take_data")
        ctx.equal(r[1], data[1], "take_data: count")
        for i in (0, 3, 4):
            ctx.equal(r[i], np.array([data[i][p] for p in zip(*np.nonzero(mask))]).reshape(-1, c["n"]), "take_data: element %d" % i)
    # weighted sum
    x, y, w = rs.standard_normal(sh), rs.standard_normal(sh), rs.rand(*sh)
    ctx.close(weighted_sum(x, y, w), x * w + (1 - w) * y, "weighted_sum", scale=5.)
    xc, yc, wc = x + 1j * y, y - 2j * x, w + 1j * rs.rand(*sh)
    ctx.close(weighted_sum(xc, yc, wc), xc.real * wc.real + (1 - wc.real) * yc.real + 1j * (xc.imag * wc.imag + (1 - wc.imag) * yc.imag), "weighted_sum complex", scale=10.)
    ctx.label("pair" if c["pair"] else "single")
    return True


if __name__ == "__main__":
    raise SystemExit(harness.main("C25", [
        harness.Sub("fold", fold_cases(), check_fold, 1200, 40000, "there are negative delays"),
        harness.Sub("sigma", gen.case(m=st.integers(1, 12), s=st.integers(0, 99999), delta=st.booleans(), cplx=st.booleans(), b=st.sampled_from([0., .5, 2.])), check_sigma, 800, 20000, "different variances or a background"),
        harness.Sub("levels", level_cases(), check_levels, 800, 20000, "all"),
    ], assumptions=["Default double precision build.", "A variance array whose first axis has length 2 cannot be told from a pair of arrays; not generated for single cameras."]))
