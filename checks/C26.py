"""C26: the complete analysis of a video of known dynamics gives the known correlation function, whatever the route."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, stream
from cddm import conf, video as V, fft as F, core, multitau, norm as N, map as M, sim
from cddm.window import hann, blackman
defaults.wrap(globals())

LIBS = [l for l, ok in (("numpy", True), ("scipy", conf.SCIPY_INSTALLED), ("pyfftw", conf.PYFFTW_INSTALLED)) if ok]


@st.composite
def cases(draw):
    H, W = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    cross = draw(st.booleans())
    route = draw(st.sampled_from(["lin", "ilin", "multi", "imulti"]))
    n = draw(st.integers(5, 8))
    chunk = n + draw(st.sampled_from([0, 0, 1, 3]))
    count = chunk * 2 ** draw(st.integers(0, 3)) + draw(st.integers(0, 3))
    method = draw(st.sampled_from(["corr", "corr", "fft", "diff"]))
    half = draw(st.sampled_from([True, True, False]))
    c = {"H": H, "W": W, "cross": cross, "route": route, "n": n, "chunk": chunk, "count": count, "method": method, "half": half,
         "norm": draw(st.sampled_from([2] if method == "diff" else [1, 2, 3])), "v": draw(st.lists(st.integers(-4, 4), min_size=2, max_size=2)),
         "kimax": draw(st.one_of(st.none(), st.integers(0, (H - 1) // 2))), "kjmax": draw(st.one_of(st.none(), st.integers(0, W // 2 if half else (W - 1) // 2))),
         "gain": draw(st.lists(st.integers(1, 3), min_size=2, max_size=2)), "dark": draw(st.sampled_from(["no", "const", "image"])),
         "dt": draw(st.sampled_from(["float64", "uint8", "uint16", "int32"])), "thread": draw(st.sampled_from(["no", "no", "before", "after"])),
         "lib": draw(st.sampled_from(LIBS)), "s": draw(st.integers(0, 10 ** 6)), "binning": draw(st.sampled_from([0] if method == "diff" else [0, 1])),
         "mode": draw(st.sampled_from(["corr", "diff"])), "scale": draw(st.booleans()), "complex": draw(st.booleans()) and method != "diff",
         "nfft": draw(st.sampled_from([False, False, True])), "mask": draw(st.sampled_from([None, None, .5, .9])), "td": draw(st.booleans()),
         "inplace": draw(st.booleans()), "align": draw(st.booleans()), "nlen": draw(st.integers(3, 12)), "roi": draw(st.integers(0, 3)),
         "src": draw(st.sampled_from(["roll", "roll", "sim"])), "off": draw(st.sampled_from([[0, 0], [1, 0], [-2, 3], [1, 1]])), "fold": draw(st.integers(0, 2)),
         "angle": draw(st.sampled_from([0, 45, 90, -30])), "sector": draw(st.sampled_from([180, 60, 30]))}
    c["period"], c["t1"], c["t2"] = 1, None, None
    if draw(st.booleans()):
        c["period"], c["t1"], c["t2"] = draw(stream.jittered_times(count))
    return c


def freqs(n, kmax):
    k = [i if i < (n + 1) // 2 else i - n for i in range(n)]
    return [i for i in k if kmax is None or abs(i) <= kmax]


def check(c, ctx):
    H, W, n, count, cross = c["H"], c["W"], c["n"], c["count"], c["cross"]
    rs = np.random.RandomState(c["s"])
    t1 = np.arange(count) if c["t1"] is None else np.array(c["t1"])
    t2 = np.arange(count) if c["t2"] is None else np.array(c["t2"])
    g1, g2 = c["gain"]
    pattern = rs.randint(1, 40, (H, W))
    dark = [{"no": np.zeros((H, W), int), "const": np.full((H, W), 7), "image": rs.randint(0, 60, (H, W))}[c["dark"]] for _ in range(2)]
    vy, vx = c["v"]
    o1 = c["off"] if cross and (c["complex"] or c["t1"] is None) else [0, 0]       # shift of the first camera
    if c["src"] == "sim":
        start = np.stack([rs.randint(0, H, 6), rs.randint(0, W, 6)], 1)
        pattern = np.zeros((H, W), int)
        np.add.at(pattern, (start[:, 0], start[:, 1]), 5)
        g1 = g2 = 1
        o1 = [0, 0]
        if t1.min() < 0 or t2.min() < 0:
            t1, t2 = t1 + 4, t2 + 4
    roi = c["roi"]       # border of the image which is not part of the periodic pattern

    def frame(t, g, d, o=(0, 0)):
        return framed(np.roll(pattern, (vy * int(t) + o[0], vx * int(t) + o[1]), (0, 1)) * g + d)

    def framed(im):
        if roi:
            full = np.full((H + roi, W + 2 * roi), 9, int)
            full[roi:, roi:roi + W] = im
            im = full
        return im.astype(c["dt"])
    made = [0]

    def source():
        if c["src"] == "sim":
            walk = sim.brownian_walk(start + .5, count=int(max(t1.max(), t2.max())) + 1, shape=(H, W), delta=0, dt=1, velocity=(vy, vx))
            for fr in sim.particles_video(walk, t1, shape=(H, W), t2=t2 if cross else None, intensity=5, dtype="uint16" if c["dt"] == "uint16" else "uint8"):
                made[0] += 1
                yield tuple(framed(f + d) for f, d in zip(fr, dark))
            return
        for a, b in zip(t1, t2):
            made[0] += 1
            yield (frame(a, g1, dark[0], o1), frame(b, g2, dark[1])) if cross else (frame(a, g1, dark[0]),)
    # ---------------------------------------------------------- processing chain
    old = conf.set_fftlib(c["lib"]), conf.set_rfft2lib(c["lib"])
    try:
        video = source()
        if c["thread"] == "before":
            video = V.threaded(video)
        if roi:
            video = V.crop(video, ((roi, None), (roi, roi + W)))
        if c["dark"] != "no":
            dk = tuple(d.astype(float) for d in dark[:2 if cross else 1])
            video = V.subtract(video, itertools.repeat(dk), dtype=float)
        if c["half"]:
            video = F.rfft2_video(video, kimax=c["kimax"], kjmax=c["kjmax"])
        else:
            video = F.fft2_video((tuple(f.astype(complex) for f in fr) for fr in video), kimax=c["kimax"], kjmax=c["kjmax"])
        if c["nfft"]:
            video = F.normalize_fft(video, inplace=c["inplace"])
        if c["thread"] == "after":
            video = V.threaded(video)
        # ------------------------------------------------------ expected spectra
        ki = freqs(H, c["kimax"])
        kj = freqs(W, c["kjmax"]) if not c["half"] else list(range(W // 2 + 1 if c["kjmax"] is None else c["kjmax"] + 1))
        S = np.fft.fft2(pattern)[np.ix_(ki, kj)]
        if c["nfft"]:
            S, g1, g2 = S / pattern.sum(), 1, 1
        P = np.abs(S) ** 2
        phi = 2 * np.pi * (np.array(ki)[:, None] * vy / float(H) + np.array(kj)[None, :] * vx / float(W))
        ph0 = 2 * np.pi * (np.array(ki)[:, None] * o1[0] / float(H) + np.array(kj)[None, :] * o1[1] / float(W))
        if not cross:
            g2 = g1
        bg = (np.zeros_like(S), np.zeros_like(S))
        var = (g1 * g1 * P, g2 * g2 * P)
        mask = None
        if c["mask"] is not None:
            mask = rs.rand(*S.shape) < c["mask"]
            mask.flat[rs.randint(mask.size)] = True
        size = S.size if mask is None else int(mask.sum())
        td = None
        if c["td"]:
            td = int(rs.choice(stream.divisors(size)))
        multi, it = "multi" in c["route"], c["route"][0] == "i"
        kw = dict(norm=c["norm"], method=c["method"], complex=c["complex"])
        tt1, tt2 = (None if c["t1"] is None else t1), (None if c["t2"] is None else t2)
        used = count
        with stream.quiet():
            if it:
                used = ref.stream_length(count, c["chunk"])
                kw.update(chunk_size=c["chunk"], thread_divisor=td, mask=mask, stats=False, count=count)
                if multi:
                    kw.update(level_size=n, period=c["period"], binning=c["binning"])
                else:
                    kw.update(n=n)
                if not cross:
                    video = (f[0] for f in video)
                if cross:
                    data = (multitau.iccorr_multi if multi else core.iccorr)(video, tt1, tt2, **kw)
                else:
                    data = (multitau.iacorr_multi if multi else core.iacorr)(video, tt1, **kw)
            else:
                arrays = V.asarrays(video, count)
                ctx.ok(made[0] == count, "%d frames read, expected %d" % (made[0], count))
                arrays = arrays if isinstance(arrays, tuple) else (arrays,)
                shaped = [core.reshape_input(a, thread_divisor=td, mask=mask) for a in arrays]
                arrays, shape = [a for a, _ in shaped], shaped[0][1]
                kw.update(align=c["align"])
                if multi:
                    kw.update(level_size=n, binning=c["binning"], period=c["period"])
                else:
                    kw.update(n=c["nlen"])
                if cross:
                    data = (multitau.ccorr_multi if multi else core.ccorr)(arrays[0], arrays[1], tt1, tt2, **kw)
                else:
                    data = (multitau.acorr_multi if multi else core.acorr)(arrays[0], tt1, **kw)
                data = tuple(core.reshape_output(d, shape, mask) for d in data) if multi else core.reshape_output(data, shape, mask)
            # -------------------------------------------------- normalization
            if multi:
                res = multitau.normalize_multi(data, bg, var, norm=c["norm"], mode=c["mode"], scale=c["scale"])
                parts = [("linear", res[0], data[0][1], 0)] + [("level %d" % (l + 1), res[1][l], data[1][1][l], l + 1) for l in range(len(res[1]))]
            else:
                res = N.normalize(data, bg, var, norm=c["norm"], mode=c["mode"], scale=c["scale"])
                parts = [("linear", res, data[1], 0)]
    finally:
        conf.set_fftlib(old[0])
        conf.set_rfft2lib(old[1])
    # -------------------------------------------------------------- comparison
    what = "%s %s norm=%d" % (c["route"], c["method"], c["norm"])
    off = var[0] + var[1]
    sf = off / 2. if c["scale"] else np.ones_like(P)
    full = c["complex"] and cross

    def expected(level, m):
        k = np.arange(m) if not full else np.r_[np.arange((m + 1) // 2), np.arange(-(m // 2), 0)]
        step = 2 ** level
        w = np.exp(1j * (ph0[..., None] - phi[..., None] * (k * step)))
        if not c["complex"]:
            # positive and negative delays together
            w = np.cos(ph0[..., None]) * np.cos(phi[..., None] * (k * step))
        if c["binning"]:
            for l in range(level):
                w = w * np.cos(phi * 2 ** l / 2.)[..., None] ** 2
        w = w * (g1 * g2 * P)[..., None]
        if c["mode"] == "diff":
            w = off[..., None] - 2 * w
        return w / sf[..., None]
    solid = P > 1e-9 * P.max()       # others are zero: scaled to nothing
    tol = 1e-10 * (P.max() * max(g1, g2) ** 2)
    regular = c["t1"] is None
    shown = False
    for name, got, cnt, level in parts:
        if level and not regular:
            continue     # jitter of frames is neglected at these levels
        want = expected(level, got.shape[-1])
        ctx.ok(got.shape == want.shape, "%s %s: shape %s, expected %s" % (what, name, got.shape, want.shape))
        sel = cnt > 0
        if c["norm"] == 3 and not sel.all():
            continue     # the weight is determined from data of all delays
        g, w = got[..., sel], want[..., sel]
        use = solid
        if mask is not None:
            ctx.ok(np.isnan(g[~mask]).all(), "%s %s: masked elements are not NaN" % (what, name))
            use = solid & mask
        w, g, lim = w[use], g[use], (tol / sf[use])[..., None]
        ctx.close(g, w, "%s %s: v=%s mode=%s scale=%s" % (what, name, c["v"], c["mode"], c["scale"]), scale=np.broadcast_to(lim, w.shape), tol=1., nan_ok=False)
        shown |= w.size > 0
        if full and sel.all() and c["mode"] == "corr":      # folding, removal of the shift
            half = (want.shape[-1] + 1) // 2
            e = [want[..., :half], np.concatenate([want[..., :1], want[..., :-half:-1]], -1)]
            e = {0: np.concatenate([e[0][..., :1], .5 * (e[0] + np.conj(e[1]))[..., 1:]], -1), 1: e[0], -1: e[1]}[c["fold"] if c["fold"] < 2 else -1]
            ctx.close(N.fold_data(got, c["fold"] if c["fold"] < 2 else -1)[use], e[use], what + " folded", scale=np.broadcast_to(lim, e[use].shape), tol=1.)
            al = want * np.exp(-1j * ph0)[..., None]
            ctx.close(N.shift_data(got)[use], al[use], what + " shifted", scale=np.broadcast_to(lim * 10, al[use].shape), tol=1.)
            ctx.label("folded")
    full_count = all((cnt > 0).all() for _, _, cnt, _ in parts)
    # -------------------------------------------------------------- merging, selection of wave vectors
    if regular and mask is None and full_count and solid.all():
        if multi and len(res[1]) and not full and n % 2 == 0:
            with stream.quiet():
                x, y = multitau.log_merge(res[0], res[1], binning=c["binning"], fold=False)
            lev = np.round(np.log2(np.r_[np.diff(x), np.diff(x)[-1:]])).astype(int)
            e = np.stack([expected(l, int(t) // 2 ** l + 1)[..., -1] for l, t in zip(lev, x)], -1)
            ctx.ok(x[-1] == (n - 1) * 2 ** len(res[1]), "%s: last merged time %s" % (what, x[-1]))
            ctx.close(y, e, what + ": merged data", scale=np.broadcast_to((tol / sf)[..., None], e.shape), tol=1.)
            ctx.label("merged")
        if c["half"] and not c["complex"] and c["kjmax"] is None and c["kimax"] is None and H % 2:   # (Nyquist row: see C13)
            got = parts[0][1]
            sel = M.k_select(got, c["angle"], c["sector"], 1., shape=(H, W))
            idx = M.fft2_k_indexmap(*S.shape, angle=c["angle"], sector=c["sector"], kstep=1., shape=(H, W))
            fi, fj = freqs(H, None), freqs(W, None)
            ph = 2 * np.pi * (np.array(fi)[:, None] * vy / float(H) + np.array(fj)[None, :] * vx / float(W))
            Pf = np.abs(np.fft.fft2(pattern)) ** 2
            if c["nfft"]:
                Pf = Pf / pattern.sum() ** 2
            k = np.arange(got.shape[-1])
            q0 = 2 * np.pi * (np.array(fi)[:, None] * o1[0] / float(H) + np.array(fj)[None, :] * o1[1] / float(W))
            w = (g1 * g2 * Pf)[..., None] * np.cos(q0[..., None]) * np.cos(ph[..., None] * k)
            of = (g1 * g1 + g2 * g2) * Pf
            if c["mode"] == "diff":
                w = of[..., None] - 2 * w
            if c["scale"]:
                w = w / (of / 2.)[..., None]
            if idx.shape == w.shape[:2]:
                for i, (kk, yy) in zip([r for r in range(idx.max() + 1) if (idx == r).any()], sel):
                    e = w[idx == i].mean(0)
                    ctx.close(yy, e, what + ": data of ring %d" % i, scale=tol / sf.min(), tol=1.)
                ctx.label("selected")
    ctx.label(c["route"])
    ctx.label(c["method"])
    return shown and used > 4 and (vx % W != 0 or vy % H != 0)


SUBS = [harness.Sub("route", cases(), check, 1200, 40000, "a moving pattern of more than four frames")]

if __name__ == "__main__":
    raise SystemExit(harness.main("C26", SUBS, assumptions=[
        "The two cameras are synchronised; levels above the first are compared for regularly spaced frames."]))
