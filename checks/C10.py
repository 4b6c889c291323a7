"""C10: iterative multiple tau of a frame stream against the pair lists of the binned frames."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, stream
from cddm.multitau import iacorr_multi, iccorr_multi
from checks.C08 import Recorder, stats_of
from checks.C09 import onehot_data, check_choice
defaults.wrap(globals())


@st.composite
def cases(draw):
    cross = draw(st.booleans())
    n = draw(st.integers(1, 8))
    chunk = n + draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 5, 8]))
    k = draw(st.integers(0, 4 if chunk < 7 else 3))
    if draw(st.integers(0, 9)) == 0:      # real sizes
        n = draw(st.sampled_from([2, 4, 8, 16, 32]))
        chunk = n * draw(st.sampled_from([1, 1, 2, 3]))
        limit = draw(st.sampled_from([600] * 4 + [2500]))
        k = draw(st.integers(1, 10).filter(lambda k: chunk * 2 ** k <= limit))
    nframes = chunk * 2 ** k
    count = nframes + draw(st.one_of(st.just(0), st.integers(0, nframes - 1)))
    kshape = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
    size = int(np.prod(kshape))
    mask = None
    if draw(st.integers(0, 2)) == 0:
        mask = draw(st.lists(st.booleans(), min_size=size, max_size=size))
        if not any(mask):
            mask[draw(st.integers(0, size - 1))] = True
        size = sum(mask)
    method = draw(st.sampled_from(["corr", "corr", "fft", "diff"]))
    norm = draw(st.sampled_from([None, 2, 6] if cross else [None, 2])) if method == "diff" else draw(st.sampled_from([None, 1, 2, 3, 5, 6, 7]))
    c = {"cross": cross, "n": n, "chunk": chunk, "count": count, "extra": draw(st.integers(0, 2)), "k": kshape, "mask": mask,
         "td": draw(st.sampled_from([None, None] + stream.divisors(size))), "method": method, "norm": norm,
         "binning": draw(st.sampled_from([None, 0] if method == "diff" else [None, 1, 0])), "complex": draw(st.booleans()) and method != "diff",
         "mode": draw(st.sampled_from(["full", "full", "full", "chunk"])), "auto_bg": draw(st.booleans()), "stats": draw(st.booleans()),
         "src": draw(st.sampled_from(stream.SOURCES)), "f1": draw(gen.content(["normal", "offset", "ints", "onehot", "mixed"])),
         "f2": draw(gen.content(["normal", "offset", "ramp"])), "dt": draw(st.sampled_from(["complex128", "complex128", "complex64", "float64", "uint8", "uint16", ">u2", "float32"])),
         "nlevel": draw(st.one_of(st.none(), st.none(), st.integers(0, 7))), "view": draw(st.sampled_from([0, 0, 0, 1, 3]))}
    c["period"] = draw(st.integers(1, 3))
    if draw(st.booleans()):
        c["period"], c["t1"], c["t2"] = draw(stream.jittered_times(count))
    else:
        c["t1"] = c["t2"] = None
    if c["t1"] is None:
        # delays up to period * n must not reach across two chunks
        c["period"] = max(1, min(c["period"], chunk // n))
    return c


def levels_available(N, n):
    k = 0
    while N // 2 ** (k + 1) >= n:
        k += 1
    return k


def check(c, ctx):
    cross, n, chunk, count = c["cross"], c["n"], c["chunk"], c["count"]
    N = ref.stream_length(count, chunk)
    shape = (count + c["extra"],) + tuple(c["k"])
    x1 = gen.expand(c["f1"], shape, dtype=c["dt"])
    x2 = gen.expand(c["f2"], shape, dtype=c["dt"]) if cross else None
    t1, t2 = (gen.tform(c[k], k) for k in ("t1", "t2"))
    mask = None if c["mask"] is None else np.array(c["mask"]).reshape(c["k"])
    touched = []
    data = stream.frames(c["src"], x1, x2, touched)
    kw = dict(level_size=n, norm=c["norm"], method=c["method"], chunk_size=chunk, thread_divisor=c["td"], auto_background=c["auto_bg"], period=c["period"],
              binning=c["binning"], nlevel=c["nlevel"], mode=c["mode"], mask=mask, stats=c["stats"], complex=c["complex"], count=count)
    if c["view"]:
        kw["viewer"], kw["viewer_interval"] = Recorder(), c["view"]
    k1, k2 = x1.copy(), None if x2 is None else x2.copy()
    with stream.quiet():
        res = iccorr_multi(data, t1, t2, **kw) if cross else iacorr_multi(data, t1, **kw)
    ctx.ok(not touched, lambda: touched[0])
    ctx.equal(x1, k1, "frames modified")
    if cross:
        ctx.equal(x2, k2, "frames modified")
    if c["stats"]:
        ctx.ok(isinstance(res, tuple) and len(res) == 3, "result with stats is not (data, bg, var)")
        got, bg, var = res
    else:
        got, bg, var = res, None, None
    y1 = x1[:N].astype(np.complex128)
    y2 = x2[:N].astype(np.complex128) if cross else None
    A = np.abs(y1).max() + (np.abs(y2).max() if cross else 0) + 1e-300
    if c["auto_bg"]:
        y1 = y1 - y1[:chunk].mean(0)
        y2 = y2 - y2[:chunk].mean(0) if cross else None
    r1 = np.arange(N) if t1 is None else np.array(c["t1"])[:N]
    r2 = (np.arange(N) if t2 is None else np.array(c["t2"])[:N]) if cross else None
    diff = c["method"] == "diff"
    eff = c["norm"] if c["norm"] is not None else ((6 if cross else 2) if diff else 7)
    if diff and not cross:
        eff = 2
    binning = c["binning"] if c["binning"] is not None else (0 if diff else 1)
    avail = levels_available(N, n)
    nlevel = avail if c["nlevel"] is None else min(c["nlevel"], avail)
    streamed = 0          # levels which are calculated in chunks
    while chunk * 2 ** (streamed + 1) <= N:
        streamed += 1
    keep = None
    if c["mode"] == "chunk":
        keep = lambda l, i, j: i // chunk == j // chunk or l >= streamed and l > 0
    what = "%s method=%s norm=%s binning=%s mode=%s complex=%s chunk=%d" % ("cross" if cross else "auto", c["method"], c["norm"], c["binning"], c["mode"], c["complex"], chunk)
    fast, slow = ref.multitau(y1, y2, r1, r2, n, c["period"], nlevel, binning, c["complex"], "diff" if diff else "corr", eff, keep=keep)
    ctx.ok(isinstance(got, tuple) and len(got) == 2, "result is not (lin, multi)")
    sc = (A * A + A) * N
    stream.compare(ctx, got[0], fast, mask, sc, what + ": fast part,", diff)
    if c["mode"] == "full":
        stream.compare(ctx, got[1], slow, mask, sc, what + ": slow part,", diff)
    else:
        # chunk mode documents the levels calculated in chunks only; at those beyond, all pairs may be there
        low = tuple(None if d is None else d[:max(0, streamed - 1)] for d in got[1])
        stream.compare(ctx, low, tuple(None if d is None else d[:max(0, streamed - 1)] for d in slow), mask, sc, what + ": slow part,", diff)
    if c["stats"]:
        for b, v, y in (list(zip(bg, var, (y1, y2))) if cross else [(bg, var, y1)]):
            wb, wv = stats_of(y, mask)
            ctx.close(b, wb, what + ": background", scale=A, tol=1e-11)
            ctx.close(v, wv, what + ": variance", scale=A * A, tol=1e-11)
    if c["view"]:
        calls = kw["viewer"].calls
        done = [min((i + 1) * chunk, N) for i in range(N // chunk + 1)][::c["view"]]
        ctx.ok(len(calls) == len(done), "viewer updated %d times, expected %d" % (len(calls), len(done)))
        for M, (d, b, v) in zip(done, calls):
            f, _ = ref.multitau(y1[:M], None if y2 is None else y2[:M], r1[:M], None if r2 is None else r2[:M], n, c["period"], 0, binning, c["complex"], "diff" if diff else "corr", eff, keep=keep)
            stream.compare(ctx, d[0], f, mask, sc, what + ": viewer data after %d frames," % M, diff)
    ctx.label("%s-%s%s" % ("cross" if cross else "auto", c["method"], "-c" if c["complex"] else ""))
    ctx.label("norm%s" % c["norm"])
    ctx.label("chunks%d" % (N // chunk))
    ctx.label("streamed%d/%d" % (min(nlevel, streamed), nlevel))
    ctx.label("bin%s" % c["binning"])
    return nlevel > 0 and N > chunk and n > 1 and np.abs(slow[0]).max() > 0


@st.composite
def choose_cases(draw):
    n = draw(st.integers(2, 5))
    chunk = n + draw(st.sampled_from([0, 1, 2]))
    T = chunk * 2 ** draw(st.integers(0, 3))
    cross = draw(st.booleans())
    method = draw(st.sampled_from(["corr", "corr", "fft", "diff"]))
    return {"n": n, "chunk": chunk, "T": T, "cross": cross, "method": method,
            "norm": draw(st.sampled_from([2, 6] if cross else [2])) if method == "diff" else draw(st.sampled_from([1, 2, 3, 5, 6, 7])),
            "complex": draw(st.booleans()) and method != "diff", "k": draw(st.integers(1, 3)), "s": draw(st.integers(0, 10 ** 6)),
            "td": draw(st.sampled_from([None, 1])), "f1": draw(gen.content(["normal", "offset"])), "f2": draw(gen.content(["normal"])), "src": draw(st.sampled_from(stream.SOURCES)), "auto_bg": draw(st.booleans()) and chunk > 2}


def check_choose(c, ctx):
    T, n = c["T"], c["n"]
    y1, y2 = onehot_data(c, T)
    np.random.seed(c["s"])
    kw = dict(level_size=n, norm=c["norm"], method=c["method"], binning=2, complex=c["complex"], thread_divisor=c["td"], chunk_size=c["chunk"], count=T, stats=False, auto_background=c["auto_bg"])
    data = stream.frames(c["src"], y1, y2, [])
    with stream.quiet():
        got = iccorr_multi(data, **kw) if c["cross"] else iacorr_multi(data, **kw)
    nlevel = levels_available(T, n)
    ctx.ok(got[1][0].shape[0] == nlevel, "%d levels, expected %d" % (got[1][0].shape[0], nlevel))
    bg = 0.
    if c["auto_bg"]:
        bg = np.mean(y1[:c["chunk"], c["k"]:], axis=0)
        y1 = y1 - y1[:c["chunk"]].mean(0)
        y2 = y2 - y2[:c["chunk"]].mean(0) if c["cross"] else None
    check_choice(ctx, c, got, y1, y2, T, nlevel, bg)
    ctx.label("%s-%s%s" % ("cross" if c["cross"] else "auto", c["method"], "-c" if c["complex"] else ""))
    return nlevel > 0


SUBS = [
    harness.Sub("stream", cases(), check, 900, 16000, "several chunks and levels, non-zero slow data"),
    harness.Sub("random_choice", choose_cases(), check_choose, 200, 4000, "at least one level"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C10", SUBS, assumptions=[
        "the two cameras are synchronised; period matches the time stamps (delays below period*level_size never connect non-adjacent chunks)"]))
