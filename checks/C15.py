"""C15: video operators."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
from cddm import video as V
from cddm.fft import normalize_fft
defaults.wrap(globals())

DTS = ["float64", "float64", "float32", "uint8", "uint16", "int32", "complex128", "bool", ">u2", "int16", "int8"]


@st.composite
def roi(draw, n):
    a, b = draw(st.integers(-n, n)), draw(st.one_of(st.none(), st.integers(-n, n)))
    how = draw(st.sampled_from(["slice", "pair", "triple", "stop", "all"]))
    return {"slice": ["slice", a, b, draw(st.sampled_from([None, 1, 2, -1]))], "pair": ["tuple", a, b], "triple": ["tuple", a, b, draw(st.sampled_from([1, 2, 3]))],
            "stop": ["tuple", abs(a)], "all": ["slice", None, None, None]}[how]


def as_roi(r):
    return slice(*r[1:]) if r[0] == "slice" else (tuple(r[1:]) if len(r) != 2 else (r[1],))


@st.composite
def cases(draw):
    H, W = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    c = {"H": H, "W": W, "n": draw(st.sampled_from([3, 2, 4, 5, 6, 3, 4, 2, 9, 1, 0])), "cams": draw(st.integers(1, 3)), "dt": draw(st.sampled_from(DTS)), "f": draw(gen.content(["normal", "offset", "ints", "ramp"])),
         "order": draw(st.sampled_from(["C", "F", "strided", "readonly"])), "src": draw(st.sampled_from(["gen", "gen", "list"])), "stages": []}
    masked = False
    for _ in range(draw(st.sampled_from([2, 3, 4, 1]))):
        op = draw(st.sampled_from(["crop", "mask", "add", "subtract", "multiply", "normalize", "add", "subtract", "multiply"] if not masked else ["add", "subtract", "multiply", "normalize"]))
        s = {"op": op}
        if op == "crop":
            s["roi"] = [draw(roi(H)), draw(roi(W))]
        elif op == "mask":
            s["p"] = draw(st.sampled_from([0.3, 0.7, 1.0]))
            s["s"] = draw(st.integers(0, 1000))
            masked = True
        else:
            s["inplace"] = draw(st.sampled_from([False, False, True]))
            s["dtype"] = None if s["inplace"] else draw(st.sampled_from([None, None, None, None, "float64", "complex128", "complex128", "float32", "uint8", "int32"]))
            if op != "normalize":
                # the second video: shorter, equal, longer or endless; scalars, frames or constant arrays
                s["len"] = draw(st.sampled_from([None, None, None, None, 3, 9, 2, 7, 4, 20, 1, 0]))
                s["kind"] = draw(st.sampled_from(["frame", "frame", "scalar", "row"]))
                s["ydt"] = draw(st.sampled_from(["same", "float64", "uint8"]))
                s["s"] = draw(st.integers(0, 1000))
        c["stages"].append(s)
    return c


def check(c, ctx):
    T, K, H, W = c["n"], c["cams"], c["H"], c["W"]
    x = gen.expand(c["f"], (max(T, 1), K, H, W), cplx=c["dt"].startswith("c"), dtype=c["dt"])
    inpl = any(s.get("inplace") for s in c["stages"])
    frames = [tuple(gen.layout(x[t, k], "C" if inpl and c["order"] == "readonly" else c["order"]) for k in range(K)) for t in range(T)]
    plain = [tuple(np.array(f) for f in fr) for fr in frames]
    log = []

    def logged(name, seq):
        def g():
            for i, f in enumerate(seq):
                log.append((name, i))
                yield f
        return g()
    v = logged("src", frames) if c["src"] == "gen" else frames
    # the same on complete stacks: per camera a list of frames
    stack = [[fr[k] for fr in plain] for k in range(K)]
    kept = []
    fresh = False  # True once an operator returned new arrays
    used = 0
    for n, s in enumerate(c["stages"]):
        op, before = s["op"], stack
        shape = stack[0][0].shape if stack[0] else (1, 1)
        if op == "crop":
            r = tuple(as_roi(q) for q in s["roi"])
            used += 1
            v = V.crop(v, roi=r)
            sl = tuple(q if isinstance(q, slice) else slice(*q) for q in r)
            stack = [[f[sl] for f in cam] for cam in stack]
        elif op == "mask":
            m = np.random.RandomState(s["s"]).rand(*shape) < s["p"]
            used += 1
            v = V.mask(v, m)
            stack = [[f[m] for f in cam] for cam in stack]
        elif op == "normalize":
            if not all(f.size and f.mean() != 0 for cam in stack for f in cam):
                stack = before
                continue
            if s["inplace"] and not all(f.dtype.kind in "fc" for cam in stack for f in cam):
                stack = before
                continue
            if s["dtype"] in ("uint8", "int32", "float32", "float64") and any(f.dtype.kind == "c" for cam in stack for f in cam):
                stack = before
                continue
            if s["dtype"] in ("uint8", "int32"):
                q = [f / f.mean() for cam in stack for f in cam]
                if any((np.abs(a - np.round(a)) < 1e-5).any() or np.abs(a).max() > 2e9 or (s["dtype"] == "uint8" and (a.min() < 0 or a.max() > 255)) for a in q):
                    stack = before
                    continue  # depends on rounding, or out of range
                ctx.label("normalized to integers")
            used += 1
            v = V.normalize_video(v, inplace=s["inplace"], dtype=s["dtype"])
            stack = [[np.asarray(f / f.mean(), dtype=s["dtype"] if not s["inplace"] else f.dtype) for f in cam] for cam in stack]
        else:
            rs = np.random.RandomState(s["s"])
            dt = np.dtype(c["dt"] if s["ydt"] == "same" else s["ydt"])
            nt = 12 if s["len"] is None else s["len"]
            shp = {"frame": shape, "scalar": (), "row": shape[-1:]}[s["kind"]]
            y = (rs.randint(0, 5, (nt, K) + shp)).astype(dt)
            ys = [tuple(y[t, k] for k in range(K)) for t in range(nt)]
            kept.append((ys, [tuple(np.array(q) for q in fr) for fr in ys]))
            fn = {"add": np.add, "subtract": np.subtract, "multiply": np.multiply}[op]
            if op == "subtract" and dt == bool and any(f.dtype == bool for cam in stack for f in cam):
                stack = before
                continue
            stack = [[f for f in cam[:nt]] for cam in stack]
            want = [[fn(f, y[t, k]) for t, f in enumerate(cam)] for k, cam in enumerate(stack)]
            if s["inplace"]:
                if any(not np.can_cast(o.dtype, f.dtype, "same_kind") for a, b in zip(want, stack) for o, f in zip(a, b)):
                    stack = before
                    continue
                want = [[np.asarray(o, f.dtype) for o, f in zip(a, b)] for a, b in zip(want, stack)]
                if any(fn(f, y[t, k]).dtype != f.dtype for k, cam in enumerate(stack) for t, f in enumerate(cam)):
                    # the order of rounding is that of numpy with an output array
                    want = [[fn(f, y[t, k], np.array(f)) for t, f in enumerate(cam)] for k, cam in enumerate(stack)]
            else:
                if s["dtype"] and any(o.dtype.kind == "c" and not s["dtype"].startswith("c") for a in want for o in a):
                    stack = before
                    continue
                if s["dtype"] in ("uint8", "int32") and any(o.dtype.kind == "f" for a in want for o in a):
                    stack = before
                    continue
                want = [[np.asarray(o, s["dtype"]) for o in a] for a in want]
            used += 1
            v = {"add": V.add, "subtract": V.subtract, "multiply": V.multiply}[op](v, logged("y%d" % n, ys) if s["len"] is not None or s["s"] % 2 else iter(ys), inplace=s["inplace"], dtype=s["dtype"])
            stack = want
    ctx.ok(log == [], "frames consumed before the iteration: %s" % log[:3])
    if used == 0:
        return False
    ctx.ok(iter(v) is v, "not an iterator")
    total = len(stack[0])
    i, late = -1, []
    for i, out in enumerate(v):
        late.append([(o, np.array(o)) for o in out])
        ctx.ok(i < total, "more than %d frames" % total)
        ctx.ok(isinstance(out, tuple) and len(out) == K, "cameras of frame %d" % i)
        for k, o in enumerate(out):
            w = np.asarray(stack[k][i])
            ctx.ok(np.asarray(o).dtype == w.dtype, "dtype of frame %d: %s, expected %s" % (i, o.dtype, w.dtype))
            ctx.close(np.asarray(o), w, "frame %d of camera %d" % (i, k), tol=1e-6 if "32" in str(w.dtype) or any(s.get("dtype") == "float32" for s in c["stages"]) or c["dt"] == "float32" else 1e-13)
        if c["src"] == "gen":
            n_src = sum(1 for a in log if a[0] == "src")
            ctx.ok(n_src == i + 1, "%d frames taken from the source for %d delivered" % (n_src, i + 1))
    ctx.ok(i + 1 == total, "%d frames delivered, expected %d" % (i + 1, total))
    for i, fr in enumerate(late):
        for o, copy in fr:
            ctx.equal(o, copy, "frame %d was changed after it was delivered" % i)
    if not inpl:
        for a, b in zip(frames, plain):
            for p, q in zip(a, b):
                ctx.equal(p, q, "input frame modified")
    for ys, copy in kept:
        for a, b in zip(ys, copy):
            for p, q in zip(a, b):
                ctx.equal(p, q, "second video modified")
    ctx.label("%d stages" % used)
    return total > 1 and used > 1


@st.composite
def inplace_cases(draw):
    return {"op": draw(st.sampled_from(["add", "subtract", "multiply", "normalize", "fft"])), "n": draw(st.integers(1, 4)), "cams": draw(st.integers(1, 3)), "shape": draw(st.lists(st.integers(1, 5), min_size=2, max_size=2)),
            "f": draw(gen.content(["normal", "offset", "ramp"])), "inplace": draw(st.booleans())}


def check_inplace(c, ctx):
    """in place: the delivered array is the input array; otherwise it shares no memory with it"""
    x = gen.expand(c["f"], (c["n"], c["cams"]) + tuple(c["shape"]), cplx=False) + 0.5
    frames = [tuple(np.array(x[t, k]) for k in range(c["cams"])) for t in range(c["n"])]
    y = [tuple(np.full(c["shape"], 2.) for k in range(c["cams"])) for t in range(c["n"])]
    fn = {"add": lambda **k: V.add(frames, y, **k), "subtract": lambda **k: V.subtract(frames, y, **k), "multiply": lambda **k: V.multiply(frames, y, **k),
          "normalize": lambda **k: V.normalize_video(frames, **k), "fft": lambda **k: normalize_fft(frames, **k)}[c["op"]]
    out = list(fn(inplace=c["inplace"]))
    ref = {"add": lambda f: f + 2, "subtract": lambda f: f - 2, "multiply": lambda f: f * 2, "normalize": lambda f: f / f.mean(), "fft": lambda f: f / f[0, 0]}[c["op"]]
    for t in range(c["n"]):
        for k in range(c["cams"]):
            with np.errstate(all="ignore"):
                ctx.close(out[t][k], ref(x[t, k]), "%s frame %d camera %d" % (c["op"], t, k), tol=1e-13)
            if c["inplace"]:
                ctx.ok(out[t][k] is frames[t][k], "in place: another array returned")
            else:
                ctx.ok(not np.shares_memory(out[t][k], frames[t][k]), "not in place: memory of the input returned")
                ctx.equal(frames[t][k], x[t, k], "input modified")
            ctx.equal(y[t][k], np.full(c["shape"], 2.), "second video modified")
    return c["n"] > 1


@st.composite
def error_cases(draw):
    return {"op": draw(st.sampled_from(["add", "subtract", "multiply", "roi"])), "n": draw(st.integers(1, 4)), "at": draw(st.integers(0, 3)), "a": draw(st.integers(1, 3)), "b": draw(st.integers(1, 3)),
            "bad": draw(st.sampled_from(["int", "three", "one"]))}


def check_error(c, ctx):
    """a different number of cameras is refused at the frame where it occurs; an invalid roi is refused"""
    if c["op"] == "roi":
        bad = {"int": 3, "three": (slice(1), slice(2), slice(3)), "one": (slice(1),)}[c["bad"]]
        try:
            list(V.crop([(np.zeros((3, 3)),)], bad))
        except ValueError:
            return True
        ctx.fail("roi %r: no error" % (bad,))
    at = c["at"] % c["n"]
    x = [(np.ones((2, 2)),) * c["a"] for _ in range(c["n"])]
    y = [(np.ones((2, 2)),) * (c["b"] if t == at else c["a"]) for t in range(c["n"])]
    out = []
    try:
        for f in getattr(V, c["op"])(x, y):
            out.append(f)
    except ValueError:
        ctx.ok(c["a"] != c["b"] and len(out) == at, "error after %d frames" % len(out))
        return True
    ctx.ok(c["a"] == c["b"] and len(out) == c["n"], "different number of cameras accepted")
    return False


@st.composite
def norm_cases(draw):
    return {"H": draw(st.integers(1, 9)), "W": draw(st.integers(1, 9)), "f": draw(gen.content(["normal", "offset", "ints", "ramp"])), "dt": draw(st.sampled_from(["float64", "uint8", "float32"])),
            "clip": draw(st.one_of(st.none(), st.sampled_from([0.5, 1, 5, 100.]))), "mode": draw(st.sampled_from(["real", "imag", "abs"]))}


def check_norm(c, ctx):
    x = gen.expand(c["f"], (c["H"], c["W"]), cplx=False, dtype=c["dt"])
    keep = x.copy()
    got = V.norm_rfft2(c["clip"], c["mode"])(x)
    ctx.equal(x, keep, "input modified")
    f = np.fft.rfft2(x.astype(float))
    f = {"real": f.real, "imag": f.imag, "abs": np.abs(f)}[c["mode"]].copy()
    f[0, 0] = 0
    m = f.max() if c["clip"] is None else c["clip"]
    if m < 1e-9 * np.abs(x).sum() or m == 0:
        return False
    w = f / m if c["mode"] == "abs" else f / (2 * m) + 0.5
    w = np.clip(w, 0, 1)
    want = np.empty_like(w)
    for i in range(c["H"]):
        want[(i + c["H"] // 2) % c["H"]] = w[i]
    ctx.close(got, want, "normalised rfft2", scale=np.abs(x.astype(float)).sum() / m, tol=1e-5 if c["dt"] == "float32" else 1e-12)
    return c["H"] > 1 and c["W"] > 1


SUBS = [
    harness.Sub("pipeline", cases(), check, 1400, 25000, "at least two operators and two frames"),
    harness.Sub("inplace", inplace_cases(), check_inplace, 300, 4000, "more than one frame"),
    harness.Sub("errors", error_cases(), check_error, 200, 2000, "invalid input"),
    harness.Sub("norm_rfft2", norm_cases(), check_norm, 300, 4000, "more than one row and column"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C15", SUBS))
