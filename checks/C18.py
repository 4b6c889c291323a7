"""C18: trigger, random times, drawing, camera response."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, simref
from cddm import sim, _sim_nb as nb
defaults.wrap(globals())


# ------------------------------------------------------------------ trigger
@st.composite
def trig_cases(draw):
    return {"n": draw(st.sampled_from([20, 20, 20, 300]).flatmap(lambda m: st.integers(0, m))), "idx": draw(st.one_of(st.lists(st.integers(0, 22), max_size=8), st.lists(st.integers(0, 300), max_size=60))), "kind": draw(st.sampled_from(["list", "array", "set", "gen", "tuple"])), "src": draw(st.sampled_from(["gen", "list", "range"]))}


def check_trig(c, ctx):
    log = []

    def g():
        for i in range(c["n"]):
            log.append(i)
            yield ("item", i)
    src = {"gen": g, "list": lambda: [("item", i) for i in range(c["n"])], "range": lambda: range(c["n"])}[c["src"]]()
    idx = {"list": list, "array": lambda x: np.array(x, int), "set": set, "gen": iter, "tuple": tuple}[c["kind"]](c["idx"])
    want = [i for i in sorted(set(c["idx"])) if i < c["n"]]
    it = sim.data_trigger(src, idx)
    k = -1
    for k, d in enumerate(it):
        ctx.ok(k < len(want), "item %r after the last index" % (d,))
        ctx.ok(d == (want[k] if c["src"] == "range" else ("item", want[k])), "item %d: %r, expected %d" % (k, d, want[k]))
        if c["src"] == "gen":
            ctx.ok(log == list(range(want[k] + 1)), "%d items taken for index %d" % (len(log), want[k]))
    ctx.ok(k == len(want) - 1, "%d items, expected %d" % (k + 1, len(want)))
    if c["src"] == "gen" and want and max(c["idx"]) < c["n"]:
        ctx.ok(len(log) == want[-1] + 1, "items taken after the last index")
    return len(want) > 1


# ------------------------------------------------------------------ random times
@st.composite
def time_cases(draw):
    n = draw(st.one_of(st.integers(1, 40), st.sampled_from([2, 16, 32, 32, 32])))
    return {"N": draw(st.one_of(st.integers(1, 30), st.just(2000))), "n": n, "dt_min": draw(st.one_of(st.just(1), st.integers(0, n))), "seed": draw(st.integers(0, 10 ** 6)), "which": draw(st.sampled_from(["time", "times1", "times2", "count"]))}


def binom_ok(k, n, p):
    return abs(k - n * p) <= 6 * math.sqrt(n * p * (1 - p)) + 1e-9


def check_times(c, ctx):
    N, n = c["N"], c["n"]
    sim.seed(c["seed"])
    what = c["which"]
    if what == "time":
        t = sim.create_random_time(N, n=n, dt_min=c["dt_min"])
        ctx.ok(t.shape == (N,) and t.dtype.kind == "i", "shape, dtype")
        ctx.ok(((t // n) == np.arange(N)).all(), "one frame in each period: %s" % t[:8])
        d = np.diff(t)
        ctx.ok((d >= max(1, c["dt_min"])).all(), lambda: "time step %d below the minimum of %d" % (d.min(), c["dt_min"]))
        if N >= 1000 and c["dt_min"] <= 1:
            cnt = np.bincount(t % n, minlength=n)
            ctx.ok(all(binom_ok(k, N, 1. / n) for k in cnt), "times are not uniform in the period: %s" % cnt)
        sim.seed(c["seed"])
        ctx.equal(sim.create_random_time(N, n=n, dt_min=c["dt_min"]), t, "the same seed")
    elif what == "count":
        N = min(N, 40)
        got = sim.random_time_count(N, n=n)
        ctx.ok(got.shape == (N * n + 1,), "shape")
        ctx.close(got[0], float(N), "count of zero delay")
        # expected number of pairs: independent uniform times in each of the periods
        want = np.zeros(N * n + 1)
        tri = {}
        for r in range(n):
            for s in range(n):
                tri[s - r] = tri.get(s - r, 0) + 1. / n / n
        for d in range(1, N):
            for k, p in tri.items():
                want[d * n + k] += (N - d) * p
        ctx.close(got[n:], want[n:], "expected count", scale=N, tol=1e-12)
        # below one period it is an estimate
        ctx.close(got[1:n], want[1:n], "expected count of short delays", scale=1. / n, tol=1.0000001)
    else:
        fn = sim.create_random_times1 if what == "times1" else sim.create_random_times2
        t1, t2 = fn(N, n)
        ctx.ok(t1.shape == (N,) and t2.shape == (N,), "shape")
        p = 2 * n
        ctx.ok(((t1 // p) == np.arange(N)).all() and ((t2 // p) == np.arange(N)).all(), "one frame in each period")
        ctx.ok(((t1 % p) < n).all(), "first camera is triggered in the first half of the period")
        same = t1 == t2
        second = np.isin(t2 % p, [0, n])
        ctx.ok((second | (same if what == "times2" else False)).all(), "second camera is triggered at 0 or half of the period")
        ctx.ok((np.diff(t1) > 0).all() and (np.diff(t2) > 0).all(), "times increase")
        if N >= 1000:
            cnt = np.bincount(t1 % p, minlength=n)
            ctx.ok(all(binom_ok(k, N, 1. / n) for k in cnt), "first camera is not uniform: %s" % cnt)
            q = 1. / (2 * n)
            base = 1. / (2 * n)  # both zero by chance
            ps = base if what == "times1" else q + (1 - q) * base
            ctx.ok(binom_ok(same.sum(), N, ps), "simultaneous frames: %d of %d, expected %.3f" % (same.sum(), N, ps * N))
            half = (t2 % p == n).sum()
            ph = .5 if what == "times1" else .5 * (1 - q)
            ctx.ok(binom_ok(half, N, ph), "frames at half of the period: %d of %d" % (half, N))
            both = np.corrcoef(t1 % p, t2 % p)[0, 1] if n > 1 else 0.
            ctx.ok(what == "times2" or abs(both) < 6 / math.sqrt(N), "times of cameras are correlated: %.3g" % both)
        sim.seed(c["seed"])
        a, b = fn(N, n)
        ctx.equal(a, t1, "the same seed")
        ctx.equal(b, t2, "the same seed")
    ctx.label(what)
    return N > 2 and n > 1


# ------------------------------------------------------------------ drawing
@st.composite
def draw_cases(draw):
    return {"shape": draw(st.lists(st.one_of(st.integers(1, 12), st.sampled_from([16, 31])), min_size=2, max_size=2)), "N": draw(st.sampled_from([2, 1, 3, 6, 60])), "dt": draw(st.sampled_from(["uint8", "uint16"])),
            "s": draw(st.integers(0, 10 ** 6)), "pos": draw(st.sampled_from(["random", "same", "edge", "corner"])), "sigma": draw(st.sampled_from([0.4, 1., 1.5, 3., 5.])), "mixed": draw(st.booleans()),
            "int": draw(st.sampled_from([5, 200, 255, 1])), "bg": draw(st.sampled_from([0, 7, 250])), "what": draw(st.sampled_from(["points", "psf", "psf"]))}


def check_draw(c, ctx):
    H, W = c["shape"]
    rs = np.random.RandomState(c["s"])
    N = c["N"]
    pos = rs.rand(N, 2) * [H, W]
    if c["pos"] == "same":
        pos[:] = pos[0]
    elif c["pos"] == "edge":
        pos = np.where(rs.rand(N, 2) < .5, pos * 0.02, np.nextafter([H, W], 0) - pos * 0.02)
    elif c["pos"] == "corner":
        pos = np.floor(pos)
    inten = rs.randint(0, c["int"] + 1, N).astype(c["dt"])
    sigma = np.full(N, c["sigma"]) if not c["mixed"] else c["sigma"] * rs.choice([1., 1., 0.5], N)
    im0 = np.full((H, W), c["bg"], c["dt"])
    keep = pos.copy()
    if c["what"] == "points":
        got = nb.draw_points(im0.copy(), pos, inten)
        ctx.equal(got, simref.points(im0, pos, inten), "draw_points at %s" % pos.tolist())
    else:
        # guard values around the image: nothing may be written outside of it
        big = np.full((H + 2, W) if H > 1 else (3, W), 0, c["dt"])
        im = big[1:H + 1]
        im[...] = c["bg"]
        got = nb.draw_psf(im, pos, inten, sigma)
        ctx.ok(not big[0].any() and not big[-1].any(), "written outside of the frame")
        simref.same_psf(ctx, np.array(got), im0, pos, inten, sigma, "draw_psf")
    ctx.equal(pos, keep, "positions modified")
    ctx.label(c["what"])
    return bool(inten.any())


# ------------------------------------------------------------------ camera
BITS = ["8bit", "10bit", "12bit", "14bit"]


@st.composite
def adc_cases(draw):
    return {"shape": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)), "dt": draw(st.sampled_from(["float64", "float64", "uint16", "float32", "int64"])), "s": draw(st.integers(0, 10 ** 6)),
            "sat": draw(st.sampled_from([32768, 1000, 255, 1.5, 16383])), "black": draw(st.sampled_from([0, 0, 10, 100, -5, 0.5])), "bits": draw(st.sampled_from(BITS + ["16bit"])),
            "out": draw(st.booleans()), "range": draw(st.sampled_from([2., 1., 0.1])), "order": draw(st.sampled_from(["C", "F", "strided", "readonly"]))}


def check_adc(c, ctx):
    rs = np.random.RandomState(c["s"])
    x = (rs.rand(*c["shape"]) * 1.5 - 0.25) * c["sat"] * c["range"]
    if np.dtype(c["dt"]).kind == "u":
        x = np.clip(x, 0, 65535)
    x = x.astype(c["dt"])
    arg = gen.layout(x, c["order"])
    maxv = 2 ** int(c["bits"][:-3]) - 1
    odt = "uint8" if maxv < 256 else "uint16"
    kw = {}
    if c["out"]:
        kw["out"] = np.full(x.shape, 77, odt)
    got = sim.adc(arg, saturation=c["sat"], black_level=c["black"], bit_depth=c["bits"], noise_model="none", **kw)
    if c["out"]:
        ctx.ok(got is kw["out"], "output array not used")
    ctx.equal(arg, x, "input modified")
    ctx.ok(got.dtype == np.dtype(odt), "dtype %s for %s" % (got.dtype, c["bits"]))
    v = (x.astype(float) - c["black"]) / c["sat"] * maxv
    lo = np.clip(np.floor(v - 1e-9 * (1 + np.abs(v))), 0, maxv)
    hi = np.clip(np.floor(v + 1e-9 * (1 + np.abs(v))), 0, maxv)
    ctx.ok(((got >= lo) & (got <= hi)).all(), lambda: "counts %s, expected %s" % (got.ravel()[:5], hi.ravel()[:5]))
    o = np.argsort(x.ravel())
    ctx.ok((np.diff(np.asarray(got).ravel()[o].astype(int)) >= 0).all(), "not monotonic")
    # converters of fixed bit depth
    for b in (8, 10, 12, 14, 16):
        f = getattr(nb, "adc_%dbit" % b)
        y = f(x.astype(float), float(c["sat"]), float(c["black"]))
        v = np.clip((x.astype(float) - c["black"]) / c["sat"] * 2 ** b, 0, None)
        lo, hi = (np.minimum(np.floor(v + e * (1 + np.abs(v))), 2 ** b - 1) for e in (-1e-9, 1e-9))
        ctx.ok(((y >= np.maximum(lo, 0)) & (y <= hi)).all(), lambda: "adc_%dbit: counts %s, expected %s" % (b, y.ravel()[:5], hi.ravel()[:5]))
    try:
        sim.adc(arg, noise_model="wrong")
    except ValueError:
        pass
    else:
        ctx.fail("invalid noise model accepted")
    return bool((got > 0).any() and (got < maxv).any())


@st.composite
def noise_cases(draw):
    return {"signal": draw(st.sampled_from([50., 100, 200.5, 1000, 0.])), "read": draw(st.sampled_from([0., 0., 20, 100.])), "model": draw(st.sampled_from(["gaussian", "poisson"])), "seed": draw(st.integers(0, 10 ** 6)), "black": draw(st.sampled_from([0, 10]))}


def check_noise(c, ctx):
    n = 4000
    sim.seed(c["seed"])
    frame = np.full((50, n // 50), c["signal"])
    kw = dict(saturation=16383, black_level=c["black"], bit_depth="14bit", readout_noise=c["read"], noise_model=c["model"])
    got = sim.adc(frame, **kw).astype(float)
    ctx.ok((frame == c["signal"]).all(), "input modified")
    m = c["signal"] + c["read"]
    if m == 0:
        ctx.equal(got, np.zeros_like(got), "no signal, no noise")
        ctx.label("zero")
        return True
    off = 0.5 if c["model"] == "gaussian" else 0.  # truncation
    slack = 1.  # values which are integer but rounded down
    ctx.ok(abs(got.mean() + off + c["black"] - m) < 6 * math.sqrt(m / n) + slack, "mean %g of signal with noise, expected %g" % (got.mean() + c["black"], m))
    ctx.ok(abs(got.var() / m - 1) < 7 * math.sqrt(2. / n) + 0.01, "variance %g, expected %g" % (got.var(), m))
    ctx.ok(abs(np.corrcoef(got.ravel()[1:], got.ravel()[:-1])[0, 1]) < 6 / math.sqrt(n), "noise of pixels is correlated")
    sim.seed(c["seed"])
    ctx.equal(sim.adc(frame, **kw), got.astype("uint16"), "the same seed")
    ctx.label(c["model"])
    return True


# ------------------------------------------------------------------ form factor
@st.composite
def form_cases(draw):
    return {"shape": draw(st.lists(st.sampled_from([4, 7, 8, 12]), min_size=2, max_size=2)), "sigma": draw(st.sampled_from([0.7, 1., 2., 3])), "int": draw(st.sampled_from([5, 5, 100, 255, 0])), "navg": draw(st.sampled_from([1, 2, 3, 3, 10])),
            "dt": draw(st.sampled_from(["uint8", "uint16"])), "mode": draw(st.sampled_from(["rfft2", "fft2"])), "win": draw(st.booleans()), "s": draw(st.integers(0, 1000))}


def check_form(c, ctx):
    H, W = c["shape"]
    win = np.random.RandomState(c["s"]).rand(H, W) if c["win"] else np.ones((H, W))
    keep = win.copy()
    got = sim.form_factor(win, sigma=c["sigma"], intensity=c["int"], navg=c["navg"], dtype=c["dt"], mode=c["mode"])
    ctx.equal(win, keep, "window modified")
    acc, slack = 0., 0.
    for i in range(c["navg"]):
        for j in range(c["navg"]):
            p = [[i * H / c["navg"], j * W / c["navg"]]]
            lo, hi = simref.psf(np.zeros((H, W), c["dt"]), p, [c["int"]], [c["sigma"]])
            if (lo != hi).any():
                return False
            m = np.iinfo(c["dt"]).max + 1
            f = np.abs(np.fft.fft2((lo % m) * win)) ** 2
            acc = acc + (f[:, :W // 2 + 1] if c["mode"] == "rfft2" else f)
    ctx.close(got, np.sqrt(acc / c["navg"] ** 2), "form factor", tol=1e-7)
    for kw in (dict(intensity=256, dtype="uint8"), dict(intensity=-1, dtype=c["dt"]), dict(dtype="int16"), dict(mode="wrong")):
        try:
            sim.form_factor(win, navg=1, **kw)
        except ValueError:
            continue
        ctx.fail("%s accepted" % kw)
    return True


SUBS = [
    harness.Sub("trigger", trig_cases(), check_trig, 600, 8000, "more than one index hit"),
    harness.Sub("times", time_cases(), check_times, 600, 8000, "more than two frames, period above one"),
    harness.Sub("draw", draw_cases(), check_draw, 600, 10000, "a particle of non-zero intensity"),
    harness.Sub("adc", adc_cases(), check_adc, 600, 8000, "some counts between zero and maximum"),
    harness.Sub("noise", noise_cases(), check_noise, 100, 1000, "all"),
    harness.Sub("form_factor", form_cases(), check_form, 120, 1500, "no pixel value within rounding of an integer"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C18", SUBS))
