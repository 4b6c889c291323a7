"""C04: accumulating into existing outputs = sum of independent results."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref
from cddm import core
from cddm.core import acorr, ccorr, normalize, cross_count, auto_count
defaults.wrap(globals())


@st.composite
def low_cases(draw):
    fn = draw(st.sampled_from(["cc", "ac", "cd", "ad", "cs", "as", "ncc", "nac"]))
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(13, 100)))
    kshape = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        T = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(1, 14), st.integers(15, 90)))
        irr = draw(st.booleans())
        steps.append({"T": T, "f1": draw(gen.content()), "f2": draw(gen.content()), "fft": draw(st.booleans()),
                      "align": draw(st.booleans()), "inv": draw(st.booleans()),
                      "axis": draw(st.integers(0, len(kshape))),
                      "t1": draw(gen.times(T)) if irr else None, "t2": draw(gen.times(T)) if irr else None,
                      "passn": draw(st.booleans())})
    return {"fn": fn, "n": n, "k": kshape, "complex": draw(st.booleans()), "real": draw(st.booleans()),
            "init": draw(gen.content(["normal", "ints"])), "zero": draw(st.booleans()), "strided": draw(st.booleans()), "steps": steps}


def check_low(c, ctx):
    fn, n, k = c["fn"], c["n"], tuple(c["k"])
    cx = c["complex"] and fn in ("cc", "ac", "cs", "ncc")
    m = 2 * n - 1 if cx and fn != "ac" else n
    data_complex = not c["real"] if fn in ("cs", "as") else cx
    if fn in ("ncc", "nac"):
        out = np.zeros(m, np.int64) if c["zero"] else np.arange(m) + 3
    else:
        out = gen.expand(c["init"], k + (m,), data_complex)
        out = out.astype(complex if data_complex else float)
        if c["zero"]:
            out = out * 0
    if c["strided"]:
        out = gen.layout(out, "strided")
    model = np.array(out)
    mags = np.abs(model).astype(float)
    for s in c["steps"]:
        T = s["T"]
        shape = list(k)
        shape.insert(s["axis"], T)
        axis = s["axis"]
        x1 = gen.expand(s["f1"], shape, not (c["real"] and fn in ("cs", "as")))
        x2 = gen.expand(s["f2"], shape)
        t1 = gen.tform(s["t1"])
        t2 = gen.tform(s["t2"], 1)
        r1 = list(range(T)) if t1 is None else s["t1"]
        r2 = list(range(T)) if t2 is None else s["t2"]
        y1, y2 = np.moveaxis(x1, axis, 0), np.moveaxis(x2, axis, 0)
        kw = dict(axis=axis, aout=out)
        if s["passn"]:
            kw["n"] = n
        fft = s["fft"]
        if fn == "cc":
            f = core.cross_correlate_fft if fft else core.cross_correlate
            r = f(x1, x2, t1, t2, complex=cx, **kw) if fft else f(x1, x2, t1, t2, complex=cx, align=s["align"], **kw)
            w, g = ref.cross(y1, y2, r1, r2, n, cx)
        elif fn == "ac":
            f = core.auto_correlate_fft if fft else core.auto_correlate
            r = f(x1, t1, complex=cx, **kw) if fft else f(x1, t1, complex=cx, align=s["align"], **kw)
            w, g = ref.auto(y1, r1, n, cx)
        elif fn == "cd":
            r = core.cross_difference(x1, x2, t1, t2, align=s["align"], **kw)
            w, g = ref.cross(y1, y2, r1, r2, n, False, "diff")
        elif fn == "ad":
            r = core.auto_difference(x1, t1, align=s["align"], **kw)
            w, g = ref.auto(y1, r1, n, False, "diff")
        elif fn == "cs":
            if fft and t1 is not None:
                r = core.cross_sum_fft(x1, t1, t2, complex=cx, time_inversion=s["inv"], **kw)
            elif t1 is not None:
                r = core.cross_sum(x1, t1, t2, complex=cx, align=s["align"], time_inversion=s["inv"], **kw)
            else:
                r = core.cross_sum(x1, complex=cx, align=s["align"], time_inversion=s["inv"], **kw)
            w, g = ref.sum_cross(y1, r1, r2, n, cx, s["inv"])
        elif fn == "as":
            r = core.auto_sum_fft(x1, t1, **kw) if fft and t1 is not None else core.auto_sum(x1, t1, align=s["align"], **kw)
            w, g = ref.sum_auto(y1, r1, n)
        elif fn == "ncc":
            r = cross_count(r1, r2, complex=cx, aout=out, **({"n": n} if s["passn"] else {}))
            w = ref.count_cross(r1, r2, n, cx); g = w
        else:
            r = auto_count(r1, aout=out, **({"n": n} if s["passn"] else {}))
            w = ref.count_auto(r1, n); g = w
        model = model + w
        mags = mags + g
        a1, a2 = np.abs(x1).max(), np.abs(x2).max()
        mags = mags + {"cc": a1 * a2, "ac": a1 * a1, "cs": a1, "as": a1}.get(fn, 0) * T
        sc = mags + mags.max()
        ctx.close(out, model, "%s%s: accumulated output after a step" % (fn, " fft" if fft else ""), scale=sc, tol=1e-11)
        ctx.close(r, model, "%s%s: returned array after a step" % (fn, " fft" if fft else ""), scale=sc, tol=1e-11)
        ctx.ok(np.shares_memory(r, out), "returned array is not the output array")
    ctx.label(fn + ("-c" if cx else ""))
    ctx.label("steps%d" % len(c["steps"]))
    return len(c["steps"]) > 1 and np.abs(model).max() > 0


@st.composite
def high_cases(draw):
    cross = draw(st.booleans())
    diff = draw(st.integers(0, 3)) == 0
    kshape = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
    cx = draw(st.booleans()) and not diff
    steps = []
    for _ in range(draw(st.integers(2, 4))):
        T = draw(st.one_of(st.integers(1, 14), st.integers(1, 14), st.integers(1, 14), st.integers(15, 90)))
        irr = draw(st.booleans())
        steps.append({"T": T, "f1": draw(gen.content()), "f2": draw(gen.content()),
                      "method": "diff" if diff else draw(st.sampled_from(["corr", "fft"])),
                      "align": draw(st.booleans()), "axis": draw(st.integers(0, len(kshape))),
                      "t1": draw(gen.times(T)) if irr else None, "t2": draw(gen.times(T)) if irr else None,
                      "passn": draw(st.booleans()),
                      "copies": draw(st.booleans())})
    norms = ([2, 6] if cross else [2]) if diff else [1, 2, 3, 5, 6, 7]
    return {"cross": cross, "diff": diff, "norm": draw(st.sampled_from(norms)), "n": draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(13, 100))),
            "complex": cx, "k": kshape, "steps": steps}


def model_tuple(c, s, y1, y2, r1, r2):
    n, cx, norm = c["n"], c["complex"], c["norm"]
    if c["cross"]:
        cor, mag = ref.cross(y1, y2, r1, r2, n, cx, "diff" if c["diff"] else "corr")
        cnt = ref.count_cross(r1, r2, n, cx)
        sq = m1 = m2 = None
        if norm & 2 and not c["diff"]:
            sq = ref.sum_cross(np.abs(y1) ** 2, r1, r2, n, cx)[0] + ref.sum_cross(np.abs(y2) ** 2, r2, r1, n, cx, True)[0]
        if norm & 4:
            m1 = ref.sum_cross(y1, r1, r2, n, cx)[0]
            m2 = ref.sum_cross(y2, r2, r1, n, cx, True)[0]
    else:
        cor, mag = ref.auto(y1, r1, n, cx, "diff" if c["diff"] else "corr")
        cnt = ref.count_auto(r1, n)
        sq = 2 * ref.sum_auto(np.abs(y1) ** 2, r1, n)[0] if norm & 2 and not c["diff"] else None
        m1 = ref.sum_auto(y1, r1, n)[0] if norm & 4 and not c["diff"] else None
        m2 = None
    return [cor, cnt, sq, m1, m2] if not c["diff"] else [cor, cnt, m1, m2]


def check_high(c, ctx):
    data, total = None, None
    size = 1e-300     # magnitude of everything added so far (the scale of the rounding errors)
    for s in c["steps"]:
        T, axis = s["T"], s["axis"]
        shape = list(c["k"])
        shape.insert(axis, T)
        x1, x2 = gen.expand(s["f1"], shape), gen.expand(s["f2"], shape)
        y1, y2 = np.moveaxis(x1, axis, 0), np.moveaxis(x2, axis, 0)
        t1 = gen.tform(s["t1"])
        t2 = gen.tform(s["t2"], 1)
        r1 = list(range(T)) if t1 is None else s["t1"]
        r2 = list(range(T)) if t2 is None else s["t2"]
        kw = dict(method=s["method"], norm=c["norm"], align=s["align"], axis=axis, aout=data)
        if data is None or s["passn"]:
            kw["n"] = c["n"]
        prev = data
        if c["cross"]:
            if not c["diff"]:
                kw["complex"] = c["complex"]
            data = ccorr(x1, x2, t1, t2, **kw)
        else:
            data = acorr(x1, t1, complex=c["complex"], **kw)
        new = model_tuple(c, s, y1, y2, r1, r2)
        total = new if total is None else [None if a is None else a + b for a, b in zip(total, new)]
        ctx.ok(len(data) == len(total), "tuple has %d elements" % len(data))
        size += max(np.abs(x1).max(), np.abs(x2).max() if c["cross"] else 0) ** 2 * T
        for i, (a, b) in enumerate(zip(data, total)):
            ctx.ok((a is None) == (b is None), "element %d: %s, expected %s" % (i, type(a), type(b)))
            if b is not None:
                sc = max(np.abs(b).max(), size)
                ctx.close(a, b, "element %d after %s step" % (i, s["method"]), scale=sc, tol=1e-10)
                if prev is not None:
                    ctx.ok(np.shares_memory(a, prev[i]), "element %d was not updated in place" % i)
    # normalising the accumulated data = normalising the summed data
    # (weighted normalization smooths with a 3-point filter: it requires three or more delays, each with
    # pairs, or the undefined value of a delay without any enters that of its neighbours)
    if c["norm"] not in (3, 7) or (data[0].shape[-1] > 2 and np.all(total[1] > 0)):
        k = tuple(c["k"])
        bg = np.zeros(k, complex)
        # of the size of the data: the weights are ill-conditioned if correlations are far above the variance
        var = np.full(k, max(1., size / sum(s["T"] for s in c["steps"])))
        if c["cross"]:
            bg, var = (bg, bg), (var, var)
        a = normalize(data, bg, var, norm=c["norm"] if not c["diff"] else 2, scale=True)
        b = normalize(tuple(total), bg, var, norm=c["norm"] if not c["diff"] else 2, scale=True)
        sc = np.abs(total[0]).max() + size + 1.0
        if total[2] is not None and not c["diff"]:
            sc += np.abs(total[2]).max()
        if len(total) == 5 and total[3] is not None:
            sc += np.abs(total[3]).max() ** 2
        seen = total[1] > 0     # delays without any pair have no defined value
        ctx.close(a[..., seen], b[..., seen], "normalised accumulated data", scale=sc, tol=1e-9)
    ctx.label(("cross" if c["cross"] else "auto") + ("-diff" if c["diff"] else "") + ("-c" if c["complex"] else ""))
    ctx.label("norm%d" % c["norm"])
    return np.abs(total[0]).max() > 0


SUBS = [
    harness.Sub("low_level", low_cases(), check_low, 700, 30000, "at least two accumulate calls, non-zero result"),
    harness.Sub("high_level", high_cases(), check_high, 350, 15000, "two or more datasets, non-zero result"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C04", SUBS))
