"""C16: stream conversion, playback, threads."""
import os, shutil, signal, tempfile, threading, time
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
from cddm import video as V
from cddm import conf
defaults.wrap(globals())

conf.set_showlib("matplotlib")
SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp()
DTS = ["float64", "float32", "uint8", "uint16", "complex128", "bool", ">u2", ">f8", "int64"]


class Boom(Exception):
    pass


class hang:
    """a case that does not end is a violation"""

    def __init__(self, seconds=20):
        self.s = seconds

    def __enter__(self):
        def stop(*a):
            raise harness.Violation("no answer within %d s (deadlock)" % self.s)
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Recorder:
    """stand-in for the window: remembers what would be drawn"""
    log = []

    def __init__(self, title="video", norm_func=lambda x: x):
        self.title, self.norm = title, norm_func

    def show(self, im):
        Recorder.log.append((self.title, np.array(im)))


class display:
    def __enter__(self):
        self.old = V.ImageShow
        V.ImageShow = Recorder
        Recorder.log = []
        getattr(V, "_FIGURES", {}).clear()

    def __exit__(self, *a):
        V.ImageShow = self.old
        getattr(V, "_FIGURES", {}).clear()


def frames_of(c, cams=None):
    out = []
    for t in range(c["n"]):
        fr = []
        for k in range(c["cams"] if cams is None else cams):
            h, w = c["shape"][0] + (k if c.get("mixed") else 0), c["shape"][1]
            dt = DTS[(DTS.index(c["dt"]) + k) % len(DTS)] if c.get("mixdt") else c["dt"]
            x = gen.expand({"m": c["f"]["m"], "s": c["f"]["s"] + 31 * t + k}, (h, w), cplx=dt.startswith("c"), dtype=dt)
            x.flat[0] = 1 if dt == "bool" else (t + 10 * k + 1) % 256  # frames can be told apart
            fr.append(x)
        out.append(tuple(fr))
    # the source gives the same frames (the same objects) again
    rep = c.get("rep")
    if rep:
        out = [out[{"twice": t // 2, "all": 0, "alternate": t % 2, "first": max(0, t - 1)}[rep]] for t in range(len(out))]
    return out


@st.composite
def base(draw, nmin=0, nmax=40, cams=None):
    return {"n": draw(st.sampled_from([n for n in (3, 5, 2, 8, 1, 0, 4, 40) if nmin <= n <= nmax])), "cams": draw(st.integers(1, 3)) if cams is None else cams,
            "shape": draw(st.lists(st.integers(1, 4), min_size=2, max_size=2)), "f": draw(gen.content(["normal", "ints", "ramp"])), "dt": draw(st.sampled_from(DTS))}


# ------------------------------------------------------------------ arrays, memory maps
@st.composite
def conv_cases(draw):
    c = draw(base(nmin=1))
    c["mixed"] = draw(st.booleans())
    c["mixdt"] = draw(st.booleans())
    c["rep"] = draw(st.sampled_from([None, None, None, "twice", "all", "alternate"]))
    c["src"] = draw(st.sampled_from(["gen", "list", "tuple"]))
    c["count"] = c["src"] == "gen" or draw(st.booleans())
    c["how"] = draw(st.sampled_from(["asarrays", "load", "asmemmaps", "fromarrays"]))
    c["fail"] = draw(st.sampled_from([None, None, None, 0, 1, 2]))
    return c


def check_conv(c, ctx):
    frames = frames_of(c)
    copy = [tuple(np.array(f) for f in fr) for fr in frames]
    n = c["n"]
    fail = c["fail"] % n if c["fail"] is not None and c["src"] == "gen" else None

    def g():
        for i, fr in enumerate(frames):
            if i == fail:
                raise Boom("source")
            yield fr
    src = {"gen": g, "list": lambda: list(frames), "tuple": lambda: tuple(frames)}[c["src"]]()
    kw = {"count": n} if c["count"] else {}
    how = c["how"]
    d = None
    try:
        with hang():
            if how == "fromarrays":
                if c["mixed"] and c["cams"] > 1:
                    arrays = tuple(np.array([fr[k] for fr in frames]) for k in range(c["cams"]))
                else:
                    arrays = tuple([fr[k] for fr in frames] if k % 2 else np.array([fr[k] for fr in frames]) for k in range(c["cams"]))
                back = list(V.fromarrays(arrays))
            elif how == "load":
                back = V.load(src, **kw)
                ctx.ok(len(back) == n, "load: %d frames" % len(back))
            elif how == "asarrays":
                out = V.asarrays(src, **kw)
                back = list(V.fromarrays(out))
                for k, a in enumerate(out):
                    ctx.ok(a.shape == (n,) + frames[0][k].shape and a.dtype == frames[0][k].dtype, "asarrays: shape %s dtype %s" % (a.shape, a.dtype))
                    ctx.ok(not any(np.shares_memory(a, fr[k]) for fr in frames), "asarrays: memory of the frames")
            else:
                d = tempfile.mkdtemp(dir=SCRATCH)
                name = os.path.join(d, "vid")
                out = V.asmemmaps(name, src, **kw)
                ctx.ok(len(out) == c["cams"], "asmemmaps: %d arrays" % len(out))
                for k, a in enumerate(out):
                    ctx.ok(isinstance(a, np.memmap), "not a memory map")
                    a.flush()
                    ctx.equal(np.load("%s_%d.npy" % (name, k)), a, "file of camera %d" % k)
                    ctx.ok(a.dtype == frames[0][k].dtype, "dtype")
                ctx.ok(sorted(os.listdir(d)) == ["vid_%d.npy" % k for k in range(c["cams"])], "files %s" % os.listdir(d))
                back = list(V.fromarrays(out))
    except Boom:
        ctx.ok(fail is not None and how != "fromarrays", "unexpected error")
        ctx.label("failing source")
        return True
    finally:
        if d:
            shutil.rmtree(d)
    ctx.ok(fail is None or how == "fromarrays", "%s: error of the source lost" % how)
    ctx.ok(len(back) == n, "%d frames of %d" % (len(back), n))
    for i, (a, b) in enumerate(zip(back, copy)):
        ctx.ok(isinstance(a, tuple) and len(a) == c["cams"], "frame %d: cameras" % i)
        for k in range(c["cams"]):
            ctx.equal(a[k], b[k], "%s: frame %d of camera %d" % (how, i, k))
            ctx.ok(np.asarray(a[k]).dtype.newbyteorder("=") == b[k].dtype.newbyteorder("="), "dtype")
            ctx.equal(frames[i][k], b[k], "source modified")
    if c["src"] != "list" and c["src"] != "tuple":
        # without a length the count is required
        for fn in (lambda: V.asarrays(g()), lambda: V.load(g()), lambda: V.asmemmaps(os.path.join(SCRATCH, "never"), g())):
            try:
                fn()
            except ValueError:
                continue
            ctx.fail("count missing but no error")
    ctx.label(how)
    return n > 1


# ------------------------------------------------------------------ stages
STAGES = ["threaded", "threaded", "play", "play_threaded", "show_video", "show_diff", "show_fft", "show_diff_dt", "multiply"]


@st.composite
def stage(draw):
    s = {"op": draw(st.sampled_from(STAGES))}
    if s["op"] == "threaded":
        s["q"] = draw(st.sampled_from([0, 1, 2, 5]))
    elif s["op"] == "play":
        s["fps"] = draw(st.sampled_from([100., 1e4, 1e6, 50]))
        s["max_delay"] = draw(st.sampled_from([0., 0.001, 0.1]))
    elif s["op"] == "play_threaded":
        s["fps"] = draw(st.sampled_from([None, None, 1000., 1e5]))
    elif s["op"].startswith("show"):
        s["id"] = draw(st.integers(0, 1))
        s["normalize"] = draw(st.booleans())
        s["title"] = draw(st.booleans())
        if s["op"] == "show_diff_dt":
            s["dt"] = draw(st.lists(st.integers(0, 4), max_size=3))
    return s


@st.composite
def stage_cases(draw):
    c = draw(base(cams=2))
    c["dt"] = draw(st.sampled_from(["float64", "uint8", "complex128"]))
    kind = draw(st.sampled_from(["any", "any", "display", "display", "threaded", "repeated"]))
    if draw(st.integers(0, 19)) == 0:
        kind = "long"
    if kind == "any":
        c["stages"] = draw(st.lists(stage(), min_size=1, max_size=4))
        if not any(s["op"].startswith("show") for s in c["stages"]):
            c["rep"] = draw(st.sampled_from([None, "twice", "all", "first"]))
    elif kind in ("long", "repeated"):
        c["stages"] = draw(st.lists(st.sampled_from([{"op": "threaded", "q": 0}, {"op": "threaded", "q": 3}, {"op": "play_threaded", "fps": None}, {"op": "play_threaded", "fps": None}, {"op": "play_threaded", "fps": 1e5}, {"op": "multiply"}, {"op": "play", "fps": 1e6, "max_delay": .01}, {"op": "play", "fps": 1e5, "max_delay": .1}]), min_size=1, max_size=2))
        if kind == "repeated" or draw(st.booleans()):
            c["rep"] = draw(st.sampled_from(["twice", "all", "alternate", "first"]))
    elif kind == "threaded":
        c["stages"] = [{"op": "threaded", "q": draw(st.sampled_from([1, 2, 3, 0]))}]
    else:
        ops = draw(st.lists(stage().filter(lambda s: s["op"].startswith("show")), min_size=1, max_size=3))
        for s in ops:
            s["title"] = True
        c["stages"] = ops + [draw(st.sampled_from([{"op": "play", "fps": 1e4, "max_delay": 1e6}, {"op": "play", "fps": 1e4, "max_delay": 1e6}, {"op": "play", "fps": 1e4, "max_delay": 0.1}, {"op": "play", "fps": 100., "max_delay": 0.1}, {"op": "play_threaded", "fps": None}, {"op": "play_threaded", "fps": 1000.}]))]
    c["fail"] = draw(st.sampled_from([None, None, 0, 1, 3, 7]))
    c["exc"] = draw(st.sampled_from(["Boom", "ValueError", "KeyboardInterrupt", "RuntimeError"]))
    c["slow"] = draw(st.sampled_from(["", "", "source", "consumer"]))
    c["stop"] = draw(st.sampled_from([None, None, None, 1, 2]))
    if c.get("rep"):
        c["n"] = draw(st.sampled_from([3, 5, 8, 2]))
    if kind == "long":
        c["n"], c["dt"], c["slow"] = draw(st.integers(60, 700)), "uint8", draw(st.sampled_from(["", "pause", "pause"]))
        c["fail"] = draw(st.sampled_from([None, None, c["n"], c["n"] // 2]))
        if draw(st.booleans()):
            c["stop"] = None
    return c


EXC = {"Boom": Boom, "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}


def check_stages(c, ctx):
    frames = frames_of(c)
    copy = [tuple(np.array(f) for f in fr) for fr in frames]
    n = c["n"]
    fail = c["fail"] if c["fail"] is not None and c["fail"] <= n else None
    names = [s["op"] for s in c["stages"]]
    log = []
    done = threading.Event()
    exc = EXC[c["exc"]]
    if exc is KeyboardInterrupt and not any(x in ("threaded", "play_threaded") for x in names):
        exc = Boom

    def src():
        for i in range(n + 1):
            if i == fail:
                raise exc("source")
            if i == n:
                break
            log.append(i)
            if c["slow"] == "source":
                time.sleep(0.002)
            yield frames[i]
    v = src()
    t1 = list(range(n))
    t2 = [t + (t % 3) for t in t1]
    with display(), hang():
        titles = {}
        for j, s in enumerate(c["stages"]):
            op = s["op"]
            kw = {}
            if op.startswith("show") and s["title"]:
                kw["title"] = "stage %d" % j
                titles[kw["title"]] = s
            if op == "threaded":
                v = V.threaded(v, queue_size=s["q"])
            elif op == "play":
                v = V.play(v, fps=s["fps"], max_delay=s["max_delay"])
            elif op == "play_threaded":
                v = V.play_threaded(v, fps=s["fps"])
            elif op == "show_video":
                v = V.show_video(v, id=s["id"], **kw)
            elif op == "show_fft":
                v = V.show_fft(v, id=s["id"], mode=["real", "imag", "abs"][j % 3], **kw)
            elif op == "show_diff":
                v = V.show_diff(v, normalize=s["normalize"], **kw)
            elif op == "show_diff_dt":
                v = V.show_diff(v, normalize=s["normalize"], dt=s["dt"], t1=list(t1) + [n] * (2 if j % 2 else 0), t2=list(t2) + [n] * (2 if j % 2 else 0), **kw)
            elif op == "multiply":
                ones = (tuple(np.ones(f.shape, f.dtype) for f in frames[0]) if n else ())
                v = V.multiply(v, [ones] * (n + 1))
        lazy = not any(x in ("threaded", "play_threaded") for x in names)
        if lazy:
            ctx.ok(log == [], "source consumed before the iteration")
        got, error = [], None
        try:
            for i, fr in enumerate(v):
                got.append(fr)
                ctx.ok(fr is not None, "None delivered instead of frames")
                if c["slow"] == "consumer":
                    time.sleep(0.002)
                elif c["slow"] == "pause" and i in (0, 100):
                    time.sleep(0.2)  # the source runs far ahead
                if lazy:
                    ctx.ok(len(log) == i + 1, "%d frames taken from the source for %d delivered" % (len(log), i + 1))
                if c["stop"] is not None and i + 1 >= c["stop"]:
                    break
        except exc as e:
            if isinstance(e, harness.Violation):
                raise
            error = e
        stopped = c["stop"] is not None and len(got) >= c["stop"]
        if stopped and names == ["threaded"] and c["stages"][0]["q"] > 0:
            time.sleep(0.01)
            ctx.ok(len(log) <= len(got) + c["stages"][0]["q"] + 1, "threaded(queue_size=%d): %d frames taken for %d delivered" % (c["stages"][0]["q"], len(log), len(got)))
            ctx.label("bounded read-ahead")
        if stopped and hasattr(v, "close"):
            v.close()
        shown = list(Recorder.log)
    total = n if fail is None else fail
    if not stopped:
        ctx.ok(len(got) == total, "%d frames delivered, expected %d (%s)" % (len(got), total, names))
        ctx.ok((error is not None) == (fail is not None), "error of the source %s" % ("lost" if fail is not None else "invented: %r" % error))
    for i, fr in enumerate(got):
        ctx.ok(isinstance(fr, tuple) and len(fr) == 2, "frame %d is %r" % (i, type(fr)))
        for k in range(2):
            ctx.equal(fr[k], copy[i][k], "frame %d of camera %d (%s)" % (i, k, names))
            ctx.equal(frames[i][k], copy[i][k], "frame modified")
    # what is drawn are frames of the video, in order, none twice
    for title, s in titles.items():
        ims = [im for t, im in shown if t == title]
        if s["op"] in ("show_video", "show_fft"):
            cand = [f[s["id"]] for f in copy]
        else:
            cand = []
            for i, f in enumerate(copy):
                if s["op"] == "show_diff_dt" and abs(t2[i] - t1[i]) not in s["dt"]:
                    continue
                x, y = f[0].real, f[1].real
                if s["normalize"]:
                    x, y = x / x.mean(), y / y.mean()
                m = 2 * max(x.max(), y.max())
                cand.append(x / m - y / m + 0.5)
        pos = 0
        for im in ims:
            while pos < len(cand) and not (cand[pos].shape == im.shape and np.allclose(cand[pos], im, rtol=1e-9, equal_nan=True)):
                pos += 1
            ctx.ok(pos < len(cand), "shown image is not the next frame of the video (%s)" % s["op"])
            pos += 1
        if ims:
            ctx.label("shown")
        if names[-1] == "play" and c["stages"][-1]["max_delay"] == 1e6 and fail is None and not stopped:
            # never late: every frame is shown
            ctx.ok(len(ims) == len(cand), "%d frames shown, expected %d (%s)" % (len(ims), len(cand), s["op"]))
            ctx.label("all shown")
    if names.count("play") and not shown and n and any(x.startswith("show") and x != "show_diff_dt" for x in names[:names.index("play")]) and fail is None:
        # the first frame is always within the allowed delay
        if c["stages"][names.index("play")]["max_delay"] >= 0.1 and len([x for x in names if x.startswith("play")]) == 1 and "threaded" not in names:
            ctx.fail("nothing shown")
    ctx.label("failing source" if fail is not None else "ok")
    return n > 1 and len(got) > 0


# ------------------------------------------------------------------ test video
@st.composite
def random_cases(draw):
    return {"shape": draw(st.lists(st.integers(1, 5), min_size=2, max_size=2)), "count": draw(st.integers(0, 3)), "dual": draw(st.booleans()), "dt": draw(st.sampled_from(["float64", "uint8", "uint16"])), "max": draw(st.sampled_from([1., 255, 100]))}


def check_random(c, ctx):
    out = list(V.random_video(tuple(c["shape"]), count=c["count"], dtype=c["dt"], max_value=c["max"], dual=c["dual"]))
    ctx.ok(len(out) == c["count"], "%d frames" % len(out))
    for fr in out:
        ctx.ok(len(fr) == (2 if c["dual"] else 1), "cameras")
        for f in fr:
            ctx.ok(f.shape == tuple(c["shape"]) and f.dtype == np.dtype(c["dt"]), "shape or dtype")
            ctx.ok(f.min() >= 0 and f.max() <= c["max"], "range")
    return c["count"] > 1


SUBS = [
    harness.Sub("convert", conv_cases(), check_conv, 300, 8000, "more than one frame"),
    harness.Sub("stages", stage_cases(), check_stages, 450, 8000, "more than one frame in the source, at least one delivered"),
    harness.Sub("random_video", random_cases(), check_random, 30, 200, "more than one frame"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C16", SUBS))
