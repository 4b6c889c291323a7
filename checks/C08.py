"""C08: iccorr / iacorr of a frame stream against the pair list of the processed frames."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, stream
from cddm.core import iacorr, iccorr, acorr, ccorr
defaults.wrap(globals())


@st.composite
def cases(draw, small=False):
    cross = draw(st.booleans())
    chunk = draw(st.integers(1, 9))
    n = draw(st.one_of(st.just(chunk), st.integers(1, chunk)))
    k = draw(st.integers(0, 3) if draw(st.integers(0, 9)) else st.integers(4, 6))
    if draw(st.integers(0, 19)) == 0:      # real sizes
        chunk, k = draw(st.sampled_from([16, 32, 50, 64, 100])), draw(st.integers(0, 2))
        n = draw(st.sampled_from([chunk, chunk // 2]))
    nframes = chunk * 2 ** k
    count = nframes + draw(st.one_of(st.just(0), st.integers(0, nframes - 1)))
    extra = draw(st.integers(0, 3))
    kshape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3 if draw(st.booleans()) else 2))
    mk = draw(st.sampled_from(["no", "no", "rand", "rand", "all"]))
    size = int(np.prod(kshape))
    mask = None
    if mk != "no":
        mask = [True] * size if mk == "all" else draw(st.lists(st.booleans(), min_size=size, max_size=size))
        if not any(mask):
            mask[draw(st.integers(0, size - 1))] = True
        size = sum(mask)
    method = draw(st.sampled_from(["corr", "corr", "fft", "diff"]))
    norm = draw(st.sampled_from([None, 2, 6] if cross else [None, 2])) if method == "diff" else draw(st.sampled_from([None, 1, 2, 3, 5, 6, 7]))
    irr = draw(st.booleans())
    c = {"cross": cross, "chunk": chunk, "n": n, "count": count, "extra": extra, "k": kshape, "mask": mask,
         "td": draw(st.sampled_from([None] + stream.divisors(size))), "method": method, "norm": norm,
         "complex": draw(st.booleans()) and method != "diff", "mode": draw(st.sampled_from(["full", "full", "chunk"])),
         "auto_bg": draw(st.booleans()), "stats": draw(st.booleans()), "src": draw(st.sampled_from(stream.SOURCES)),
         "f1": draw(gen.content(["normal", "offset", "ints", "onehot", "mixed"])), "f2": draw(gen.content(["normal", "offset", "ints"])),
         "dt": draw(st.sampled_from(["complex128", "complex128", "complex64", "float64", "uint8", "uint16", ">u2", "float32"])),
         "give_count": draw(st.booleans()), "view": draw(st.sampled_from([0, 0, 1, 2]))}
    if irr:
        p, c["t1"], c["t2"] = draw(stream.jittered_times(count))
    else:
        c["t1"] = c["t2"] = None
    return c


class Recorder:
    """stands in for a viewer: keeps a copy of what it is given"""
    def __init__(self):
        self.calls = []

    def set_data(self, data, background=None, variance=None):
        cp = lambda o: tuple(map(cp, o)) if isinstance(o, tuple) else None if o is None else np.array(o)
        self.calls.append((cp(data), cp(background), cp(variance)))

    def plot(self):
        pass


def stats_of(y, mask):
    m, v = y.mean(0), (np.abs(y) ** 2).mean(0) - np.abs(y.mean(0)) ** 2
    if mask is not None:
        m, v = m.copy(), v.copy()
        m[~mask] = np.nan
        v[~mask] = np.nan
    return m, v


def check(c, ctx):
    cross, chunk, n = c["cross"], c["chunk"], c["n"]
    count = c["count"]
    N = ref.stream_length(count, chunk)
    shape = (count + c["extra"],) + tuple(c["k"])
    x1 = gen.expand(c["f1"], shape, dtype=c["dt"])
    x2 = gen.expand(c["f2"], shape, dtype=c["dt"]) if cross else None
    t1 = gen.tform(c["t1"])
    t2 = gen.tform(c["t2"], 1)
    mask = None if c["mask"] is None else np.array(c["mask"]).reshape(c["k"])
    touched = []
    data = stream.frames(c["src"], x1, x2, touched)
    kw = dict(n=n, norm=c["norm"], method=c["method"], chunk_size=chunk, thread_divisor=c["td"], auto_background=c["auto_bg"],
              mode=c["mode"], mask=mask, stats=c["stats"], complex=c["complex"])
    if c["give_count"] or t1 is None and not (hasattr(data, "__len__") and c["extra"] == 0):
        kw["count"] = count
    if c["view"]:
        kw["viewer"], kw["viewer_interval"] = Recorder(), c["view"]
    k1, k2 = x1.copy(), None if x2 is None else x2.copy()
    with stream.quiet():
        res = iccorr(data, t1, t2, **kw) if cross else iacorr(data, t1, **kw)
    ctx.ok(not touched, lambda: touched[0])
    ctx.equal(x1, k1, "frames modified")
    if cross:
        ctx.equal(x2, k2, "frames modified")
    if c["stats"]:
        ctx.ok(isinstance(res, tuple) and len(res) == 3, "result with stats is not (data, bg, var)")
        got, bg, var = res
    else:
        got, bg, var = res, None, None

    # ---- reference
    y1 = x1[:N].astype(np.complex128)
    y2 = x2[:N].astype(np.complex128) if cross else None
    A = np.abs(y1).max() + (np.abs(y2).max() if cross else 0) + 1e-300
    if c["auto_bg"]:
        y1 = y1 - y1[:chunk].mean(0)
        y2 = y2 - y2[:chunk].mean(0) if cross else None
    r1 = np.arange(N) if t1 is None else np.array(c["t1"])[:N]
    r2 = (np.arange(N) if t2 is None else np.array(c["t2"])[:N]) if cross else None
    diff = c["method"] == "diff"
    eff = c["norm"] if c["norm"] is not None else ((6 if cross else 2) if diff else 7)
    keep = (lambda i, j: i // chunk == j // chunk) if c["mode"] == "chunk" else None
    what = "%s %s norm=%s mode=%s complex=%s" % ("iccorr" if cross else "iacorr", c["method"], c["norm"], c["mode"], c["complex"])

    def verify(got, bg, var, M, what):
        want = ref.analysis(y1[:M], None if y2 is None else y2[:M], r1[:M], None if r2 is None else r2[:M], n, c["complex"], "diff" if diff else "corr",
                            eff if not (diff and not cross) else 2, keep=keep)
        stream.compare(ctx, got, want, mask, (A * A + A) * N, what, diff)
        if bg is not None:
            pairs = list(zip(bg, var, (y1, y2))) if cross else [(bg, var, y1)]
            for b, v, y in pairs:
                wb, wv = stats_of(y[:M], mask)
                ctx.close(b, wb, what + ": background", scale=A, tol=1e-11)
                ctx.close(v, wv, what + ": variance", scale=A * A, tol=1e-11)
        return want
    want = verify(got, bg, var, N, what)
    if c["view"]:
        calls = kw["viewer"].calls
        done = [min((i + 1) * chunk, N) for i in range(N // chunk + 1)][::c["view"]]
        ctx.ok(len(calls) == len(done), "viewer updated %d times, expected %d" % (len(calls), len(done)))
        for M, (d, b, v) in zip(done, calls):
            verify(d, b, v, M, what + ": viewer data after %d frames" % M)
    ctx.label("%s-%s%s" % ("cross" if cross else "auto", c["method"], "-c" if c["complex"] else ""))
    ctx.label("norm%s" % c["norm"])
    ctx.label("chunks%d" % (N // chunk))
    ctx.label("mode-" + c["mode"])
    if mask is not None:
        ctx.label("mask")
    if c["td"]:
        ctx.label("td")
    return N > chunk and n > 1 and np.abs(want[0]).max() > 0


@st.composite
def default_cases(draw):
    return {"cross": draw(st.booleans()), "count": draw(st.one_of(st.integers(1, 40), st.sampled_from([128, 129, 255, 256, 257, 300, 512]))),
            "n": draw(st.one_of(st.none(), st.integers(1, 40))), "chunk": draw(st.one_of(st.none(), st.integers(1, 40))),
            "short": draw(st.integers(0, 3)), "s": draw(st.integers(0, 999)), "scalar_t": draw(st.booleans()), "two": draw(st.booleans())}


def check_default(c, ctx):
    """default chunk size and output length; invalid sizes and too short streams are refused"""
    count, cross = c["count"], c["cross"]
    rs = np.random.RandomState(c["s"])
    x1, x2 = rs.randn(count, 2) + 1j * rs.randn(count, 2), rs.randn(count, 2) + 1j * rs.randn(count, 2)
    n = c["n"] if c["n"] is not None else (c["chunk"] or count)
    short = c["short"]
    chunk = c["chunk"]
    src = ((a, b) for a, b in zip(x1[short:], x2[short:])) if cross else (a for a in x1[short:])
    f = iccorr if cross else iacorr
    args = {}
    if c["scalar_t"]:
        args = dict(t1=count, t2=count) if cross else dict(t=count)
    else:
        args["count"] = count
    run = lambda: f(src, n=c["n"], chunk_size=chunk, stats=False, **args)
    bad = n > count or chunk is not None and (chunk > count or chunk < n)
    N = None
    if not bad and chunk is not None:
        N = ref.stream_length(count, chunk)
    with stream.quiet():
        if bad or (short and N is not None and count - short < N):
            try:
                run()
            except ValueError:
                ctx.label("refused")
                return True
            ctx.fail("%s frames of %d, n=%s, chunk_size=%s: no error" % (count - short, count, c["n"], chunk))
        try:
            got = run()
        except ValueError:
            # only a too short stream may be refused here
            ctx.ok(short > 0, "refused: n=%s chunk_size=%s count=%s" % (c["n"], chunk, count))
            ctx.label("refused-short")
            return True
    # whatever chunk size was chosen: the first N frames are processed, N = total number of self pairs
    N = int(got[1][0])
    lim = count - short
    ctx.ok(0 < N <= lim, "processed %d of %d frames" % (N, lim))
    if chunk is None:
        ctx.ok(2 * N > count, "processed only %d of %d frames" % (N, count))
    else:
        ctx.ok(N == ref.stream_length(count, chunk), "processed %d frames, expected %d" % (N, ref.stream_length(count, chunk)))
    z1, z2 = x1[short:short + N], x2[short:short + N] if cross else None
    want = ref.analysis(z1, z2, np.arange(N), np.arange(N), n, False, "corr", 7)
    stream.compare(ctx, got, want, None, 100. * N, "default sizes n=%s chunk_size=%s count=%d" % (c["n"], chunk, count), False)
    ctx.label("ok")
    return N > 1


SUBS = [
    harness.Sub("stream", cases(), check, 1000, 20000, "more than one chunk, more than one delay, non-zero correlation"),
    harness.Sub("defaults", default_cases(), check_default, 300, 4000, "more than one frame processed, or a request refused"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C08", SUBS, assumptions=[
        "the two cameras are synchronised: frame i of both lies in the i-th time slot, so that frames of non-adjacent chunks are at least n apart"]))
