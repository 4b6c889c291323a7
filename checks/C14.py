"""C14: Fourier transform of videos, cropping, normalization, DLS filter."""
import warnings
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
from cddm import conf
from cddm.fft import rfft2_video, fft2_video, rfft2_crop, fft2_crop, normalize_fft, dls, dls_video, rfft2, fft2
defaults.wrap(globals())

LIBS = [l for l, ok in (("numpy", True), ("scipy", conf.SCIPY_INSTALLED), ("pyfftw", conf.PYFFTW_INSTALLED), ("mkl_fft", conf.MKL_FFT_INSTALLED)) if ok]
DT = ["float64", "float64", "float32", "uint8", "uint16", "int64", "bool", "complex128", "complex64", ">u2", "int16", "uint32", "int8"]
lib_st = st.sampled_from(LIBS)


class libs:
    def __init__(self, lib, rlib):
        self.new = lib, rlib

    def __enter__(self):
        self.old = conf.CDDMConfig["fftlib"], conf.CDDMConfig["rfft2lib"]
        conf.set_fftlib(self.new[0])
        conf.set_rfft2lib(self.new[1])

    def __exit__(self, *a):
        conf.set_fftlib(self.old[0])
        conf.set_rfft2lib(self.old[1])


def rows(n, m):
    """signed wave numbers of an axis in FFT order, all or |k| <= m"""
    if m is None:
        return [i if i < (n + 1) // 2 else i - n for i in range(n)]
    return list(range(0, m + 1)) + list(range(-m, 0))


def pick(full, ki, kj):
    H, W = full.shape[-2:]
    return full[..., [k % H for k in ki], :][..., [k % W for k in kj]]


@st.composite
def video(draw, dts=DT, hmin=1, tmax=4):
    hi = draw(st.sampled_from([12, 12, 12, 12, 12, 12, 66]))
    H, W = draw(st.integers(hmin, hi)), draw(st.integers(hmin, hi))
    return {"H": H, "W": W, "n": draw(st.integers(0, tmax)), "cams": draw(st.integers(1, 3)), "dt": draw(st.sampled_from(dts)),
            "f": draw(gen.content(["normal", "offset", "ints", "onehot", "ramp", "const"])), "order": draw(st.sampled_from(["C", "C", "F", "strided", "neg", "readonly"])),
            "src": draw(st.sampled_from(["gen", "list", "tuple"]))}


def make(c, real=False):
    T, K, H, W = c["n"], c["cams"], c["H"], c["W"]
    x = gen.expand(c["f"], (max(T, 1), K, H, W), cplx=not real)
    x = gen.expand(c["f"], x.shape, cplx=np.dtype(c["dt"]).kind == "c", dtype=c["dt"]) if np.dtype(c["dt"]).kind != "c" else x.astype(c["dt"])
    return [tuple(gen.layout(x[t, k], c["order"]) for k in range(K)) for t in range(T)]


def source(c, frames, log=None):
    if c["src"] == "gen":
        def g():
            for i, f in enumerate(frames):
                if log is not None:
                    log.append(i)
                yield f
        return g()
    return tuple(frames) if c["src"] == "tuple" else list(frames)


def single(dt):
    return dt in ("float32", "complex64")


@st.composite
def video_cases(draw):
    c = draw(video())
    c["half"] = draw(st.booleans())
    c["kimax"] = draw(st.one_of(st.none(), st.integers(0, c["H"] // 2)))
    c["kjmax"] = draw(st.one_of(st.none(), st.integers(0, c["W"] // 2)))
    c["lib"], c["rlib"] = draw(lib_st), draw(lib_st)
    c["over"] = draw(st.sampled_from([False, False, True]))
    c["old"] = draw(st.integers(0, 9)) == 0
    return c


def check_video(c, ctx):
    frames = make(c, real=c["half"])
    plain = [tuple(np.array(f) for f in fr) for fr in frames]
    if c["over"]:
        frames = [tuple(np.array(f) for f in fr) for fr in frames]
    log = []
    src = source(c, frames, log)
    name = ("rfft2" if c["half"] else "fft2") + ("" if c["old"] else "_video")
    fn = {"rfft2": rfft2, "fft2": fft2, "rfft2_video": rfft2_video, "fft2_video": fft2_video}[name]
    ki, kj = rows(c["H"], c["kimax"]), rows(c["W"], c["kjmax"])
    if c["half"]:
        kj = list(range((c["W"] // 2 if c["kjmax"] is None else c["kjmax"]) + 1))
    tol = 2e-6 if single(c["dt"]) else 1e-12
    with libs(c["lib"], c["rlib"]), warnings.catch_warnings(record=True):
        it = fn(src, c["kimax"], c["kjmax"], **({"overwrite_x": True} if c["over"] else {}))
        ctx.ok(log == [], "frames consumed before the iteration")
        i, kept = -1, []
        for i, out in enumerate(it):
            ctx.ok(i < c["n"], "more frames than in the source")
            kept.append([(o, np.array(o)) for o in out])
            if c["src"] == "gen":
                ctx.ok(log == list(range(i + 1)), "frame %d: consumed %s" % (i, log))
            ctx.ok(len(out) == c["cams"], "%d cameras" % len(out))
            for k, o in enumerate(out):
                f = plain[i][k].astype(complex)
                full = np.fft.fft2(f)
                ctx.close(o, pick(full, ki, kj), "%s frame %d camera %d" % (name, i, k), scale=np.abs(f).sum() + 1e-30, tol=tol)
                ctx.ok(o.dtype == (complex if c["half"] or not single(c["dt"]) else o.dtype), "dtype %s" % o.dtype)
        ctx.ok(i == c["n"] - 1, "%d frames, expected %d" % (i + 1, c["n"]))
    for i, fr in enumerate(kept):
        for o, copy in fr:
            ctx.equal(o, copy, "frame %d was changed after it was delivered" % i)
    if not c["over"]:
        for a, b in zip(frames, plain):
            for x, y in zip(a, b):
                ctx.equal(x, y, "input frame modified")
    ctx.label(c["rlib"] if c["half"] else c["lib"])
    return c["n"] > 1 and c["H"] > 2 and c["W"] > 2


@st.composite
def crop_cases(draw):
    hi = draw(st.sampled_from([12, 12, 12, 12, 66]))
    H, W = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    return {"H": H, "W": W, "lead": draw(st.lists(st.integers(1, 3), max_size=2)), "half": draw(st.booleans()), "kimax": draw(st.one_of(st.none(), st.integers(0, 7))),
            "kjmax": draw(st.one_of(st.none(), st.integers(0, 7))), "f": draw(gen.content(["normal", "ramp"])), "dt": draw(st.sampled_from(["complex128", "complex64", "float64", "int64"])),
            "order": draw(st.sampled_from(["C", "F", "strided", "list"]))}


def check_crop(c, ctx):
    H, W, a, b = c["H"], c["W"], c["kimax"], c["kjmax"]
    n = W // 2 + 1 if c["half"] else W
    x = gen.expand(c["f"], tuple(c["lead"]) + (H, n), dtype=None if c["dt"].startswith("c") else c["dt"]).astype(c["dt"])
    arg = gen.layout(x, c["order"])
    fn = rfft2_crop if c["half"] else fft2_crop
    bad = a is not None and a > H // 2 or b is not None and b > W // 2
    try:
        got = fn(arg, a, b)
    except ValueError:
        ctx.ok(bad, "%s kimax=%s kjmax=%s of %dx%d: refused" % (fn.__name__, a, b, H, W))
        return True
    ctx.ok(not bad, "%s kimax=%s kjmax=%s of %dx%d: no error" % (fn.__name__, a, b, H, W))
    ki = rows(H, a)
    kj = list(range(n if b is None else b + 1)) if c["half"] else rows(W, b)
    want = x[..., [k % H for k in ki], :][..., kj if c["half"] else [k % W for k in kj]]
    ctx.equal(got, want, "%s kimax=%s kjmax=%s" % (fn.__name__, a, b))
    if c["order"] != "list":
        ctx.ok(np.asarray(got).dtype == x.dtype, "dtype")
        ctx.equal(arg, x, "input modified")
    # cropping twice = cropping to the smaller
    if a is not None and b is not None and a > 0 and b > 0:
        ctx.equal(fn(got, a - 1, b - 1), fn(x, a - 1, b - 1), "second crop")
    return a is not None or b is not None


@st.composite
def norm_cases(draw):
    c = draw(video(["complex128", "complex128", "complex64", "float64"]))
    c["inplace"] = draw(st.booleans())
    c["to"] = draw(st.sampled_from([None, None, "complex64", "complex128"]))
    c["gain"] = draw(st.sampled_from([1., 1., 1., 1e12, 1e-12])) if c["dt"] == "complex64" else draw(st.sampled_from([1., 1., 1., 1e-60, 1e60, 1e100]))
    return c


def check_norm(c, ctx):
    frames = make(c)
    if c["gain"] != 1:  # only the ratio of elements matters
        frames = [tuple((f * c["gain"]).astype(f.dtype) for f in fr) for fr in frames]
    if c["inplace"]:
        frames = [tuple(np.array(f) for f in fr) for fr in frames]
    for fr in frames:
        for f in fr:
            if f[0, 0] == 0:
                return False
    plain = [tuple(np.array(f) for f in fr) for fr in frames]
    log = []
    it = normalize_fft(source(c, frames, log), inplace=c["inplace"], dtype=None if c["inplace"] else c["to"])
    i, kept = -1, []
    for i, out in enumerate(it):
        ctx.ok(len(out) == c["cams"], "cameras")
        kept.append([(o, np.array(o)) for o in out])
        for k, o in enumerate(out):
            p = plain[i][k]
            ctx.close(o, (p.astype(complex) / complex(p[0, 0])), "normalize_fft", tol=1e-12 if "64" not in str(p.dtype) + str(c["to"]) or p.dtype == float and c["to"] is None else 1e-6)
            if c["inplace"]:
                ctx.ok(o is frames[i][k], "not in place")
            elif c["to"]:
                ctx.ok(o.dtype == np.dtype(c["to"]), "dtype")
        if c["src"] == "gen":
            ctx.ok(log == list(range(i + 1)), "consumed %s" % log)
    ctx.ok(i == c["n"] - 1, "number of frames")
    for i, fr in enumerate(kept):
        for o, copy in fr:
            ctx.equal(o, copy, "frame %d was changed after it was delivered" % i)
    if not c["inplace"]:
        for a, b in zip(frames, plain):
            for x, y in zip(a, b):
                ctx.equal(x, y, "input frame modified")
    return c["n"] > 1


@st.composite
def dls_cases(draw):
    c = draw(video(["float64", "float64", "uint8", "complex128"], tmax=3))
    c["H"], c["W"] = min(c["H"], 9), min(c["W"], 9)
    c["n"] = max(1, c["n"])
    if draw(st.integers(0, 11)) == 7:
        c["H"], c["W"], c["n"], c["cams"] = draw(st.integers(30, 40)), draw(st.integers(30, 40)), 1, 1
    kv = st.tuples(st.integers(-(c["H"] // 2), c["H"] // 2), st.integers(-(c["W"] // 2), c["W"] // 2)).map(list)
    c["k"] = draw(st.one_of(kv, st.lists(kv, min_size=1, max_size=3)))
    if isinstance(c["k"][0], int):
        c["k"] = [k % n for k, n in zip(c["k"], (c["H"], c["W"]))]
    else:
        c["k"] = [[k % n for k, n in zip(v, (c["H"], c["W"]))] for v in c["k"]]
    c["win"] = draw(st.sampled_from(["real", "complex", "ones", "delta", "many"]))
    c["kimax"] = draw(st.one_of(st.none(), st.integers(0, (c["H"] - 1) // 2)))
    c["kjmax"] = draw(st.one_of(st.none(), st.integers(0, (c["W"] - 1) // 2)))
    c["lib"] = draw(lib_st)
    return c


def check_dls(c, ctx):
    frames = make(c)
    plain = [tuple(np.array(f) for f in fr) for fr in frames]
    H, W = c["H"], c["W"]
    multi = not isinstance(c["k"][0], int)
    rs = np.random.RandomState(c["f"]["s"])
    win = {"real": lambda: rs.rand(H, W), "complex": lambda: rs.randn(H, W) + 1j * rs.randn(H, W), "ones": lambda: np.ones((H, W)), "delta": lambda: np.eye(H * W)[0].reshape(H, W),
           "many": lambda: rs.rand(*((len(c["k"]), H, W) if multi else (H, W)))}[c["win"]]()
    kvs = c["k"] if multi else [c["k"]]
    y, x = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    keep = win.copy()

    def want(f):
        out = []
        for m, (ki, kj) in enumerate(kvs):
            ker = (win[m] if win.ndim == 3 else win) * np.exp(-2j * np.pi * (ki * y / H + kj * x / W))
            conv = np.zeros((H, W), complex)  # circular convolution
            for a in range(H):
                for b in range(W):
                    conv += f[a, b] * np.roll(np.roll(ker, a, 0), b, 1)
            if c["kimax"] is not None or c["kjmax"] is not None:
                conv = np.fft.ifft2(pick(np.fft.fft2(conv), rows(H, c["kimax"]), rows(W, c["kjmax"])))
            out.append(conv)
        return np.array(out) if multi else out[0]
    with libs(c["lib"], c["lib"]):
        outs = list(dls_video(source(c, frames), win, c["k"], c["kimax"], c["kjmax"]))
        one = dls(frames[0][0], win, c["k"], c["kimax"], c["kjmax"])
    ctx.ok(len(outs) == c["n"] and all(len(o) == c["cams"] for o in outs), "shape of the video")
    for fr, o in zip(plain, outs):
        for f, g in zip(fr, o):
            ctx.close(g, want(f), "dls", scale=(np.abs(f).sum() + 1e-30) * np.abs(win).max(), tol=1e-11)
    ctx.close(one, outs[0][0], "dls of one frame", scale=np.abs(plain[0][0]).sum() + 1e-30, tol=1e-11)
    ctx.equal(win, keep, "window modified")
    for a, b in zip(frames, plain):
        for p, q in zip(a, b):
            ctx.equal(p, q, "input frame modified")
    return H > 2 and W > 2


SUBS = [
    harness.Sub("video", video_cases(), check_video, 1000, 20000, "more than one frame, sides above two"),
    harness.Sub("crop", crop_cases(), check_crop, 800, 15000, "a limit is given"),
    harness.Sub("normalize", norm_cases(), check_norm, 400, 6000, "more than one frame"),
    harness.Sub("dls", dls_cases(), check_dls, 240, 4000, "frame sides above two"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C14", SUBS))
