"""C12: half-plane <-> full-plane mapping, masks, wave-vector grids."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
from cddm.map import (as_fft2_shape, as_rfft2_mask, as_rfft2_data, as_rfft2_conj, from_rfft2_data, rfft2_grid, fft2_grid, rfft2_kangle, fft2_kangle)
from cddm.fft import rfft2_crop, fft2_crop
defaults.wrap(globals())


@st.composite
def cases(draw):
    hi = draw(st.sampled_from([12, 12, 12, 12, 40]))
    H, W = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    lead = draw(st.lists(st.integers(1, 3), max_size=2))
    trail = draw(st.lists(st.integers(1, 3), max_size=1))
    kimax = draw(st.one_of(st.none(), st.integers(0, (H - 1) // 2)))
    kjmax = draw(st.one_of(st.none(), st.integers(0, W // 2)))
    return {"H": H, "W": W, "lead": lead, "trail": trail, "kimax": kimax, "kjmax": kjmax, "f": draw(gen.content(["normal", "ints", "onehot", "ramp"])),
            "shape": draw(st.booleans()), "dt": draw(st.sampled_from(["complex128", "complex128", "complex64"])), "neg": draw(st.booleans()), "swap": draw(st.booleans())}


def freqs(n, m=None):
    """signed frequencies of an axis of length n in FFT order, cropped to |k|<=m"""
    k = [i if i < (n + 1) // 2 else i - n for i in range(n)]
    return k if m is None else list(range(0, m + 1)) + list(range(-m, 0))


def axes_of(c, nd):
    a = (len(c["lead"]), len(c["lead"]) + 1)
    if c["neg"]:
        a = tuple(x - nd for x in a)
    return a[::-1] if c["swap"] else a


def check_roundtrip(c, ctx):
    H, W = c["H"], c["W"]
    lead, trail = tuple(c["lead"]), tuple(c["trail"])
    x = gen.expand(c["f"], lead + trail + (H, W), cplx=False)
    full, half = np.fft.fft2(x), np.fft.rfft2(x)
    if c["kimax"] is not None or c["kjmax"] is not None:
        half_c = rfft2_crop(half, c["kimax"], c["kjmax"])
    else:
        half_c = half
    fi = freqs(H, c["kimax"])
    jm = W // 2 if c["kjmax"] is None else c["kjmax"]
    # the width of the full plane can only be told from the shape if nothing was cropped
    shape = (H, W) if c["shape"] or c["kjmax"] is None else None
    if shape is not None and jm == W // 2:
        fj = freqs(W)
    else:
        fj = freqs(0, jm)
    nd = len(lead) + 2 + len(trail)
    mv = lambda a: np.moveaxis(a, tuple(range(len(lead), len(lead) + len(trail))), tuple(range(nd - len(trail), nd)))
    ax = axes_of(c, nd)
    # if axes are given in the middle of the array, they are the first two of the last three
    h = np.ascontiguousarray(mv(half_c)).astype(c["dt"])
    want = mv(full[..., fi, :][..., fj])
    kw = {} if ax == (-2, -1) else {"axes": ax}
    keep = h.copy()
    got = from_rfft2_data(h, shape, **kw)
    ctx.equal(h, keep, "input modified")
    ctx.ok(got.dtype == h.dtype, "dtype %s" % got.dtype)
    ctx.close(got, want.astype(got.dtype), "from_rfft2_data", scale=np.abs(full).max(), tol=1e-12 if c["dt"] == "complex128" else 1e-6)
    i, j = ax if not c["swap"] else ax[::-1]
    ctx.equal((got.shape[i], got.shape[j]), (len(fi), len(fj)), "full shape")
    ctx.equal(as_fft2_shape(len(fi), jm + 1, shape), (len(fi), len(fj)), "as_fft2_shape")
    back = as_rfft2_data(got, **kw)
    ctx.equal(back, h, "half plane -> full plane -> half plane")
    # half-plane data which are not a transform (masks for example) survive too
    sel = lambda a, s: np.moveaxis(a, j, 0)[s]
    n_free = jm if len(fj) % 2 == 0 else jm + 1     # columns that have a mirror image of negative frequency
    any_ = gen.expand(dict(c["f"], s=c["f"]["s"] + 1), h.shape)
    f_any = from_rfft2_data(any_, shape, **kw)
    ctx.equal(as_rfft2_data(f_any, **kw), any_, "arbitrary half-plane data")
    real = np.ascontiguousarray(any_.real)
    f_real = from_rfft2_data(real, shape, **kw)
    ctx.ok(f_real.dtype == real.dtype, "dtype of real data")
    ctx.equal(as_rfft2_data(f_real, **kw), real, "real half-plane data")
    mask = any_.real > 0
    f_mask = from_rfft2_data(mask, shape, **kw)
    ctx.ok(f_mask.dtype == bool, "dtype of a mask")
    ctx.equal(as_rfft2_data(f_mask, **kw), mask, "half-plane mask")
    for a, b, nm in ((f_any, any_, "complex"), (f_real, real, "real"), (f_mask, mask, "mask")):
        # the other half: conjugate of the value at (-ki, -kj)
        a2, b2 = np.moveaxis(a, (i, j), (0, 1)), np.moveaxis(b, (i, j), (0, 1))
        for jj in range(1, n_free):
            for ii in range(len(fi)):
                w = b2[-ii % len(fi), jj]
                ctx.equal(a2[ii, len(fj) - jj], np.conj(w) if nm != "mask" else w, "%s data of the mirrored half" % nm)
    # conjugate half: at (ki, kj) the coefficient of (-ki, -kj)
    conj = as_rfft2_conj(got, **kw)
    ctx.ok(conj.shape == h.shape, "as_rfft2_conj shape")
    if len(fj) > 1:
        ctx.close(sel(conj, slice(1, None)), np.conj(sel(h, slice(1, None))), "conjugate half of a transform of real data", scale=np.abs(full).max(), tol=1e-12 if c["dt"] == "complex128" else 1e-6)
    ctx.label("%s%s" % ("even" if H % 2 == 0 else "odd", "even" if W % 2 == 0 else "odd"))
    ctx.label("crop" if c["kimax"] is not None or c["kjmax"] is not None else "full")
    return H > 2 and W > 2


@st.composite
def mask_cases(draw):
    return {"H": draw(st.integers(1, 11)), "W": draw(st.integers(1, 11)), "lead": draw(st.lists(st.integers(1, 3), max_size=1)),
            "s": draw(st.integers(0, 10 ** 6)), "p": draw(st.sampled_from([0.1, 0.5, 0.9])), "what": draw(st.sampled_from(["bool", "complex", "float", "int"]))}


def check_mask(c, ctx):
    H, W = c["H"], c["W"]
    rs = np.random.RandomState(c["s"])
    shape = tuple(c["lead"]) + (H, W)
    wh = W // 2 + 1
    m = rs.rand(*shape) < c["p"]
    want = np.zeros(shape[:-1] + (wh,), bool)
    for i in range(H):
        for j in range(wh):
            want[..., i, j] = m[..., i, j] | (m[..., -i % H, -j % W] if j > 0 else False)
    ctx.equal(as_rfft2_mask(m), want, "as_rfft2_mask")
    a = {"bool": m, "complex": rs.randn(*shape) + 1j * rs.randn(*shape), "float": rs.randn(*shape), "int": rs.randint(0, 50, shape)}[c["what"]]
    keep = a.copy()
    cj, dt = as_rfft2_conj(a), as_rfft2_data(a)
    ctx.equal(a, keep, "input modified")
    ctx.equal(dt, a[..., :wh], "as_rfft2_data")
    for j in range(wh):
        for i in range(H):
            if j == 0:
                v = cj[..., i, 0]
                ok = {"bool": lambda: ~v, "int": lambda: v == -1}.get(c["what"], lambda: np.isnan(v))()
                ctx.ok(np.all(ok), "first column of the conjugate half is not marked as invalid")
            else:
                ctx.equal(cj[..., i, j], a[..., -i % H, -j % W], "as_rfft2_conj at %d,%d" % (i, j))
    # selecting with a half-plane mask = selecting the same physical coefficients in the full plane
    if not c["lead"] and c["what"] == "complex":
        x = rs.randn(H, W)
        full, half = np.fft.fft2(x), np.fft.rfft2(x)
        hm = as_rfft2_mask(m)
        back = from_rfft2_data(hm, (H, W))
        sym = m.copy()
        for i in range(H):
            for j in range(W):
                sym[i, j] = m[i, j] | m[-i % H, -j % W]
        cols = [j for j in range(W) if j != 0]
        ctx.equal(back[:, cols], sym[:, cols], "mask of the full plane")
        ctx.close(np.sort(np.abs(half[hm])), np.sort(np.abs(full[:, :wh][back[:, :wh]])), "data selected by the masks", scale=np.abs(full).max() + 1)
    ctx.label(c["what"])
    return 0 < m.sum() < m.size


@st.composite
def grid_cases(draw):
    H, W = draw(st.integers(1, 40)), draw(st.integers(1, 40))
    return {"H": H, "W": W, "kimax": draw(st.one_of(st.none(), st.integers(0, (H - 1) // 2))), "kjmax": draw(st.one_of(st.none(), st.integers(0, W // 2))), "shape": draw(st.sampled_from([True, True, False]))}


def check_grid(c, ctx):
    H, W = c["H"], c["W"]
    fi = freqs(H, c["kimax"])
    ni = len(fi)
    nj = (W // 2 if c["kjmax"] is None else c["kjmax"]) + 1
    njf = W if c["kjmax"] is None else 2 * c["kjmax"] + 1
    si = sj = 1.
    if c["shape"]:
        big = max(H, W)
        si, sj = big / H, big / W
        sh = (H, W)
    else:
        sh = None
    args = lambda k, lim, size: {} if (lim is None and sh is not None) else {k: size}
    kw = dict(shape=sh)
    kwh = dict(kw, **args("kisize", c["kimax"], ni), **args("kjsize", c["kjmax"], nj))
    kwf = dict(kw, **args("kisize", c["kimax"], ni), **args("kjsize", c["kjmax"], njf))
    ki, kj = rfft2_grid(**kwh)
    wi, wj = np.meshgrid(np.array(fi) * si, np.arange(nj) * sj, indexing="ij")
    ctx.close(ki, wi, "rfft2_grid ki", scale=H, tol=1e-12)
    ctx.close(kj, wj, "rfft2_grid kj", scale=W, tol=1e-12)
    Ki, Kj = fft2_grid(**kwf)
    fj = freqs(njf)
    vi, vj = np.meshgrid(np.array(fi) * si, np.array(fj) * sj, indexing="ij")
    ctx.close(Ki, vi, "fft2_grid ki", scale=H, tol=1e-12)
    ctx.close(Kj, vj, "fft2_grid kj", scale=W, tol=1e-12)
    for nm, f, kws, (a, b) in (("rfft2", rfft2_kangle, kwh, (wi, wj)), ("fft2", fft2_kangle, kwf, (vi, vj))):
        k, ang = f(**kws)
        ctx.close(k, np.hypot(a, b), nm + "_kangle k", scale=H + W, tol=1e-12)
        # direction: x along columns, y upwards (against rows)
        ctx.close(k * np.cos(ang), b, nm + "_kangle direction x", scale=H + W, tol=1e-12)
        ctx.close(k * np.sin(ang), -a, nm + "_kangle direction y", scale=H + W, tol=1e-12)
    k, ang = rfft2_kangle(**kwh)
    K, A = fft2_kangle(**kwf)
    last = nj if njf % 2 else nj - 1
    if njf % 2 or c["kjmax"] is None:
        ctx.close(as_rfft2_data(K)[:, :nj], k, "half-plane part of the full k map", scale=H + W, tol=1e-12)
        ctx.close(as_rfft2_data(A)[:, :last], ang[:, :last], "half-plane part of the full angle map", scale=1, tol=1e-12)
    if sh is None and c["H"] > 0:
        for f in (rfft2_grid, fft2_grid):
            for bad in (dict(kisize=ni), dict(kjsize=nj), {}):
                try:
                    f(**bad)
                except ValueError:
                    continue
                ctx.fail("%s(%s): size missing but no error" % (f.__name__, bad))
    return ni > 2 and nj > 2


@st.composite
def shape_cases(draw):
    return {"H": draw(st.integers(1, 20)), "W": draw(st.integers(1, 20)), "ki": draw(st.one_of(st.none(), st.integers(1, 22))), "kj": draw(st.one_of(st.none(), st.integers(1, 14))), "shape": draw(st.booleans())}


def check_shape(c, ctx):
    """as_fft2_shape: refuses what cannot be the half plane of the given frame"""
    H, W, ki, kj = c["H"], c["W"], c["ki"], c["kj"]
    sh = (H, W) if c["shape"] else None
    bad = sh is None and (ki is None or kj is None) or sh is not None and (kj is not None and kj > W // 2 + 1 or ki is not None and ki > H)
    try:
        got = as_fft2_shape(ki, kj, sh)
    except ValueError:
        ctx.ok(bad, "as_fft2_shape(%s,%s,%s) refused" % (ki, kj, sh))
        return True
    ctx.ok(not bad, "as_fft2_shape(%s,%s,%s): no error" % (ki, kj, sh))
    want = (H if ki is None else ki, W if kj is None else (W if sh is not None and kj == W // 2 + 1 else 2 * kj - 1))
    ctx.equal(got, want, "as_fft2_shape(%s,%s,%s)" % (ki, kj, sh))
    return True


SUBS = [
    harness.Sub("roundtrip", cases(), check_roundtrip, 1000, 20000, "both frame sides above 2"),
    harness.Sub("masks", mask_cases(), check_mask, 600, 10000, "mask has selected and unselected elements"),
    harness.Sub("grids", grid_cases(), check_grid, 600, 10000, "more than two wave numbers in each direction"),
    harness.Sub("shapes", shape_cases(), check_shape, 400, 5000, "all"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C12", SUBS))
