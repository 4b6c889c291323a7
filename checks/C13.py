"""C13: sector index maps and k-averaging."""
import math, warnings
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
from cddm import map as M
from cddm.map import (fft2_sector_indexmap, fft2_k_indexmap, sector_indexmap, k_indexmap, k_select, fft2_kangle, rfft2_kangle, from_rfft2_data)
defaults.wrap(globals())

EPS = 1e-9


def freqs(n):
    return [i if i < (n + 1) // 2 else i - n for i in range(n)]


def membership(fi, fj, si, sj, angle, sector, kstep, period=360.):
    """ring (set of possible values) of each element, by the definition; -1 = not selected.
    More than one possible value only if the element lies on a boundary (within rounding)."""
    out = {}
    for a, y in enumerate(fi):
        for b, x in enumerate(fj):
            if y == 0 and x == 0:
                out[a, b] = {0}
                continue
            k = math.hypot(y * si, x * sj) / kstep
            ring = {int(math.floor(k + .5))}
            if abs(k + .5 - round(k + .5)) < EPS * max(1, k):
                r = int(round(k + .5))
                ring = {r - 1, r}
            # documented: angle between the j axis and the direction of k-vector (rows grow downwards)
            d = (math.degrees(math.atan2(-y * si, x * sj)) - angle + period / 2) % period - period / 2
            # distance from the sector
            # (a sector of a full period, half plane only, still has its boundary)
            if abs(abs(d) - sector / 2.) < EPS * 360:
                inside = {True, False}
            else:
                inside = {abs(d) < sector / 2.}
            out[a, b] = (ring if True in inside else set()) | ({-1} if False in inside else set())
    return out


@st.composite
def geometry(draw):
    hi = draw(st.sampled_from([14, 14, 14, 14, 40]))
    H, W = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    shape = draw(st.sampled_from(["square", "frame", "crop"]))
    mode = draw(st.sampled_from(["rfft2", "rfft2", "fft2"]))
    c = {"H": H, "W": W, "shape": shape, "mode": mode}
    if shape == "crop":
        c["ci"] = draw(st.integers(0, (H - 1) // 2))
        c["cj"] = draw(st.integers(0, W // 2 if mode == "rfft2" else (W - 1) // 2))
    c["angle"] = draw(st.one_of(st.sampled_from([0, 0, 45, 90, -90, 180, -180, 30]), st.integers(-180, 180), st.floats(-180, 180)))
    c["sector"] = draw(st.one_of(st.sampled_from([5, 5., 30, 30., 90, 180, 180]), st.integers(1, 180), st.floats(0.5, 180)))
    c["kstep"] = draw(st.one_of(st.sampled_from([1, 1., 1.2, 2, 0.5]), st.floats(0.4, 4)))
    return c


def geo(c):
    """-> fi, fj (full plane frequencies), si, sj, number of columns in the half plane, shape argument"""
    H, W = c["H"], c["W"]
    big = max(H, W)
    if c["shape"] == "square":  # no shape known: equal steps; cropped data of an even frame look like this
        if c["mode"] == "rfft2":
            return freqs(H), freqs(2 * W - 1), 1., 1., W, None
        return freqs(H), freqs(W), 1., 1., None, None
    si, sj = big / H, big / W
    if c["shape"] == "frame":
        return freqs(H), freqs(W), si, sj, W // 2 + 1, (H, W)
    fi = freqs(2 * c["ci"] + 1)
    if c["mode"] == "rfft2" and 2 * c["cj"] == W:
        return fi, freqs(W), si, sj, W // 2 + 1, (H, W)
    return fi, freqs(2 * c["cj"] + 1), si, sj, c["cj"] + 1, (H, W)


def check_map(c, ctx):
    fi, fj, si, sj, half, shape = geo(c)
    size = (len(fi), half if c["mode"] == "rfft2" else len(fj))
    got = fft2_k_indexmap(size[0], size[1], angle=c["angle"], sector=c["sector"], kstep=c["kstep"], shape=shape, mode=c["mode"])
    ctx.ok(got.shape == (len(fi), len(fj)), "shape of the index map %s" % (got.shape,))
    want = membership(fi, fj, si, sj, c["angle"], c["sector"], c["kstep"])
    n_in = 0
    for (a, b), w in want.items():
        ctx.ok(int(got[a, b]) in w, lambda: "ring of wave vector ki=%d kj=%d is %d, expected %s" % (fi[a], fj[b], got[a, b], sorted(w)))
        n_in += got[a, b] >= 0
    kmap, amap = fft2_kangle(len(fi), len(fj), shape)
    ctx.equal(fft2_sector_indexmap(kmap, amap, angle=c["angle"], sector=c["sector"], kstep=c["kstep"]), got, "fft2_sector_indexmap")
    # adjacent sectors do not share elements and leave none out
    if c["sector"] <= 90 and -180 <= c["angle"] + c["sector"] <= 180:
        b = fft2_sector_indexmap(kmap, amap, c["angle"] + c["sector"], c["sector"], c["kstep"])
        both = (got >= 0) & (b >= 0)
        both[0, 0] = False
        edge = np.array([[len(want[i, j] & {-1}) and len(want[i, j]) > 1 for j in range(len(fj))] for i in range(len(fi))], bool)
        # the upper edge of the second sector
        ctx.ok(not (both & ~edge).any(), "adjacent sectors share elements")
    # deprecated half-plane maps (direction modulo 180 degrees)
    if c["mode"] == "rfft2" and -90 <= c["angle"] <= 90:
        with warnings.catch_warnings(record=True):
            hm = k_indexmap(size[0], size[1], angle=c["angle"], sector=c["sector"], kstep=c["kstep"], shape=shape)
            hk, ha = rfft2_kangle(size[0], size[1], shape)
            ctx.equal(sector_indexmap(hk, ha, angle=c["angle"], sector=c["sector"], kstep=c["kstep"]), hm, "sector_indexmap")
        hw = membership(fi, list(range(half)), si, sj, c["angle"], c["sector"], c["kstep"], 180.)
        for (a, b), w in hw.items():
            if b == 0 and a > len(fi) // 2:
                w = {-1}
            ctx.ok(int(hm[a, b]) in w, lambda: "half-plane ring of ki=%d kj=%d is %d, expected %s" % (fi[a], b, hm[a, b], sorted(w)))
    ctx.label(c["mode"] + "-" + c["shape"])
    return 1 < n_in < got.size


@st.composite
def select_cases(draw):
    c = draw(geometry())
    c["H"], c["W"] = min(c["H"], 11), min(c["W"], 11)
    if "ci" in c:
        c["ci"], c["cj"] = min(c["ci"], (c["H"] - 1) // 2), min(c["cj"], c["W"] // 2 if c["mode"] == "rfft2" else (c["W"] - 1) // 2)
    c["sector"] = draw(st.one_of(st.sampled_from([60, 120, 180, 180]), st.just(c["sector"])))
    c["lead"] = draw(st.lists(st.integers(1, 3), max_size=1))
    c["n"] = draw(st.integers(1, 4))
    c["f"] = draw(gen.content(["normal", "ints", "ramp"]))
    c["cplx"] = draw(st.booleans())
    c["mask"] = draw(st.sampled_from(["none", "none", "full", "packed"]))
    c["p"] = draw(st.sampled_from([0.2, 0.5, 0.9]))
    c["nan"] = draw(st.sampled_from([0, 0, 0.1, 0.3]))
    c["k"] = draw(st.lists(st.integers(0, 8), max_size=5))
    c["dk"] = draw(st.sampled_from([0, 0, 0.3, -0.4, 0.49]))  # rings are chosen by the nearest integer
    c["order"] = draw(st.sampled_from(["C", "F", "strided", "readonly"]))
    return c


def check_select(c, ctx):
    fi, fj, si, sj, half, shape = geo(c)
    mode = c["mode"]
    ni, nj = len(fi), half if mode == "rfft2" else len(fj)
    lead, n = tuple(c["lead"]), c["n"]
    data = gen.expand(c["f"], lead + (ni, nj, n), cplx=c["cplx"])
    rs = np.random.RandomState(c["f"]["s"])
    if c["nan"]:
        data[rs.rand(*data.shape) < c["nan"]] = np.nan
    mask = None if c["mask"] == "none" else rs.rand(ni, nj) < c["p"]
    arg = data
    if c["mask"] == "packed":
        arg = data[..., mask, :]
        if arg.shape[-3:-1] == (ni, nj):
            return False  # cannot be told apart by shape
    arg = gen.layout(arg, c["order"])
    # the ring of every element of the full plane: by definition; an element on a boundary by the map itself
    m = membership(fi, fj, si, sj, c["angle"], c["sector"], c["kstep"])
    amb = [e for e, w in m.items() if len(w) > 1]
    own = {e: next(iter(w)) for e, w in m.items() if len(w) == 1}
    if amb:
        code = fft2_k_indexmap(ni, nj, angle=c["angle"], sector=c["sector"], kstep=c["kstep"], shape=shape, mode=mode)
        own.update({e: int(code[e]) for e in amb})
        ctx.label("on boundary")
    rings, loose = {}, set()
    for a in range(ni):
        for b in range(nj):
            if mask is not None and not mask[a, b]:
                continue
            here = {}
            if own[a, b] >= 0:
                here[own[a, b]] = False
            if mode == "rfft2" and b > 0 and not 2 * b == len(fj):
                r = own[-a % ni, len(fj) - b]
                if r >= 0:
                    if r in here:  # Nyquist row of an even height: the element stands for two directions
                        loose.add(r)
                    here[r] = True
            for r, cj in here.items():
                v = data[..., a, b, :]
                rings.setdefault(r, []).append((np.hypot(fi[a] * si, fj[b] * sj), np.conj(v) if cj else v))
    want = {}
    for r in sorted(rings):
        vals = np.array([v for _, v in rings[r]])
        ok = ~np.isnan(vals)
        cnt = ok.sum(0)
        s = np.where(ok, vals, 0).sum(0)
        want[r] = (np.mean([k for k, _ in rings[r]]), np.where(cnt > 0, s / np.maximum(cnt, 1), np.nan))
    kw = dict(sector=c["sector"], kstep=c["kstep"], shape=shape, mask=mask, mode=mode)
    keep = np.array(arg)
    with warnings.catch_warnings(record=True):
        got = k_select(arg, c["angle"], **kw)
        sel = k_select(arg, c["angle"], k=[k + c["dk"] for k in c["k"]], **kw)
        single = [(k, k_select(arg, c["angle"], k=k + c["dk"], **kw)) for k in c["k"][:2]]
    ctx.equal(arg, keep, "input modified")

    def same(g, r, what):
        if r in loose:
            ctx.label("nyquist row")
            return
        ctx.close(g[0], want[r][0], what + " mean k of ring %d" % r, tol=1e-12)
        ctx.close(g[1], want[r][1], what + " data of ring %d" % r, scale=np.nanmax(np.abs(data), initial=1), tol=1e-11)
    got = tuple(got)
    ctx.ok(len(got) == len(want), "%d rings returned, expected %d" % (len(got), len(want)))
    for g, r in zip(got, sorted(want)):
        same(g, r, "all rings:")
    exp = [r for r in c["k"] if r in want]
    sel = tuple(sel)
    ctx.ok(len(sel) == len(exp), "%d of listed rings returned, expected %d" % (len(sel), len(exp)))
    for g, r in zip(sel, exp):
        same(g, r, "list:")
    for r, g in single:
        ctx.ok((g is None) == (r not in want), "single k=%d: %s" % (r, "nothing returned" if g is None else "empty ring returned"))
        if g is not None:
            same(g, r, "single:")
    ctx.label("%s %s" % (mode, c["mask"]))
    return len(want) > 1 and max(len(v) for v in rings.values()) > 1


@st.composite
def consistent_cases(draw):
    return {"H": draw(st.integers(1, 12)), "W": draw(st.integers(1, 12)), "angle": draw(st.floats(-180, 180)), "sector": draw(st.one_of(st.just(180.), st.floats(5, 180))),
            "kstep": draw(st.sampled_from([1., 1.3, 2.])), "n": draw(st.integers(1, 3)), "s": draw(st.integers(0, 10 ** 6))}


def check_consistent(c, ctx):
    """half plane of a Hermitian-symmetric set of data = the whole plane, in the same sector"""
    H, W = c["H"], c["W"]
    rs = np.random.RandomState(c["s"])
    x = np.fft.fft2(rs.randn(c["n"], H, W)).transpose(1, 2, 0).copy()
    h = x[:, :W // 2 + 1].copy()
    kw = dict(sector=c["sector"], kstep=c["kstep"], shape=(H, W))
    full_map = fft2_k_indexmap(H, W, angle=c["angle"], sector=c["sector"], kstep=c["kstep"], shape=(H, W), mode="fft2")
    m = membership(freqs(H), freqs(W), max(H, W) / H, max(H, W) / W, c["angle"], c["sector"], c["kstep"])
    if any(len(v) > 1 for v in m.values()):
        return False
    loose = set()  # rings with an element of the Nyquist row in both of its directions
    if H % 2 == 0:
        loose = {max(m[H // 2, j]) for j in range(1, W) if 2 * j != W and m[H // 2, j] == m[H // 2, W - j]}
    with warnings.catch_warnings(record=True):
        a = k_select(h, c["angle"], mode="rfft2", **kw)
        b = k_select(x, c["angle"], mode="fft2", **kw)
    ctx.ok(len(a) == len(b), "%d and %d rings" % (len(a), len(b)))
    present = sorted({max(v) for v in m.values()} - {-1})
    ctx.ok(len(a) == len(present), "%d rings" % len(a))
    for r, (k1, d1), (k2, d2) in zip(present, a, b):
        if r in loose:
            continue
        ctx.close(k1, k2, "mean k", tol=1e-12)
        ctx.close(d1, d2, "averaged data", scale=np.abs(x).max(), tol=1e-11)
    # a map rotated by 180 degrees selects the opposite vectors: complex conjugate averages
    ang = c["angle"] - 180 if c["angle"] > 0 else c["angle"] + 180
    with warnings.catch_warnings(record=True):
        r = k_select(h, ang, mode="rfft2", **kw)
    if H % 2 and W % 2:
        ctx.ok(len(r) == len(a), "rings of the opposite sector")
        for (k1, d1), (k2, d2) in zip(a, r):
            ctx.close(d2, np.conj(d1), "data of the opposite sector", scale=np.abs(x).max(), tol=1e-11)
    return len(a) > 2


# ------------------------------------------------------------------ plot of an index map
@st.composite
def plot_cases(draw):
    return {"shape": draw(st.lists(st.integers(1, 9), min_size=2, max_size=2)), "mode": draw(st.sampled_from(["rfft2", "fft2", None, "fft", ""])), "s": draw(st.integers(0, 999))}


def check_plot(c, ctx):
    """the plotted map is the given one with k = 0 in the middle (of the left edge for half-plane data)"""
    import matplotlib.pyplot as plt
    g = np.random.RandomState(c["s"]).randint(-1, 40, c["shape"])
    keep = g.copy()
    kw = {} if c["mode"] is None else {"mode": c["mode"]}
    mode = c["mode"] if c["mode"] is not None else "rfft2"
    fig = plt.figure()
    try:
        try:
            M.plot_indexmap(g, **kw)
        except ValueError:
            ctx.ok(mode not in ("rfft2", "fft2"), "mode %r refused" % mode)
            ctx.label("refused")
            return False
        ctx.ok(mode in ("rfft2", "fft2"), "mode %r accepted" % mode)
        ctx.equal(g, keep, "the map was changed")
        a = np.asarray(fig.axes[0].images[0].get_array())
        want = np.roll(g, g.shape[0] // 2, 0)
        if mode == "fft2":
            want = np.roll(want, g.shape[1] // 2, 1)
        ctx.equal(a, want, "plotted map")
    finally:
        plt.close(fig)
    return g.size > 4


SUBS = [
    harness.Sub("map", geometry(), check_map, 800, 15000, "more than one and not all elements selected"),
    harness.Sub("select", select_cases(), check_select, 800, 15000, "more than one ring, one of them with more than one element"),
    harness.Sub("consistent", consistent_cases(), check_consistent, 400, 5000, "more than two rings"),
    harness.Sub("plot", plot_cases(), check_plot, 20, 300, "more than four elements"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C13", SUBS))
