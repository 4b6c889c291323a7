"""C01: direct correlation/difference functions against the pair-sum definition."""
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, ref, large
from cddm.core import cross_correlate, auto_correlate, cross_difference, auto_difference
defaults.wrap(globals())


@st.composite
def cases(draw):
    shape, axis, T = draw(gen.shape_with_axis(4, 20, 4))
    fn = draw(st.sampled_from(["cc", "cc", "ac", "cd", "ad"]))
    cplx = draw(st.booleans()) if fn in ("cc", "ac") else False
    tk = draw(st.sampled_from(["none", "irr", "irr", "dup", "shuffled"]))
    c = {"shape": shape, "axis": axis, "fn": fn, "complex": cplx, "align": draw(st.booleans()),
         "lay": draw(st.sampled_from(gen.LAYOUTS)), "dt": draw(st.sampled_from(gen.IN_DTYPES)),
         "f1": draw(gen.content(gen.MISSING)), "f2": draw(gen.content(gen.MISSING)), "base": draw(st.sampled_from(gen.BASES)),
         "nmode": draw(st.sampled_from(["none", "one", "short", "full", "long"])), "nk": draw(st.integers(0, 8))}
    if tk == "none":
        c["t1"] = c["t2"] = None
    else:
        u, s = tk != "dup", tk != "shuffled"
        c["t1"] = draw(gen.times(T, unique=u, sort=s))
        c["t2"] = draw(gen.times(T, unique=u, sort=s)) if draw(st.integers(0, 3)) else list(c["t1"])
    c["tlist"] = draw(st.booleans())
    c["t1"], c["t2"] = gen.shifted(c["t1"], c["base"]), gen.shifted(c["t2"], c["base"])
    if np.dtype(c["dt"]).kind in "ui":
        for k in ("f1", "f2"):
            if c[k]["m"] == "nans":
                c[k]["m"] = "normal"
    return c


@st.composite
def large_cases(draw):
    """Sizes at which vectorised code, blocks and unrolled loops take other paths than on small inputs."""
    c = draw(cases())
    T, K = draw(st.sampled_from([33, 64, 65, 100, 129, 200])), draw(st.sampled_from([1, 3, 17, 40]))
    c["shape"], c["axis"] = ([T, K], 0) if draw(st.booleans()) else ([K, T], 1) if draw(st.booleans()) else ([2, T, (K + 1) // 2], 1)
    if c["t1"] is not None:
        s = draw(st.integers(0, 9999))
        rs = np.random.RandomState(s)
        c["t1"], c["t2"] = [np.cumsum(rs.randint(1, 4, T)).tolist() for _ in "12"]
    return c


def pick_n(mode, k, full):
    return {"none": None, "one": 1, "short": max(1, full - 1 - k), "full": full, "long": full + 1 + k}[mode]


def check(c, ctx):
    shape, axis, fn = tuple(c["shape"]), c["axis"], c["fn"]
    T = shape[axis]
    x1 = gen.expand(c["f1"], shape, True, c["dt"])
    x2 = gen.expand(c["f2"], shape, True, c["dt"])
    f1, f2 = gen.layout(x1, c["lay"]), gen.layout(x2, c["lay"])
    tt = (lambda t: None if t is None else (list(t) if c["tlist"] else gen.tform(t)))
    t1, t2 = tt(c["t1"]), tt(c["t2"])
    r1 = c["t1"] if c["t1"] is not None else list(range(T))
    r2 = c["t2"] if c["t2"] is not None else list(range(T))
    cross = fn in ("cc", "cd")
    full = ref.full_n_cross(r1, r2) if cross else ref.full_n_auto(r1)
    n = pick_n(c["nmode"], c["nk"], full)
    N = full if n is None else n
    kind = "corr" if fn in ("cc", "ac") else "diff"
    kw = {"axis": axis, "n": n, "align": c["align"]}
    if kind == "corr":
        kw["complex"] = c["complex"]
    y1, y2 = np.moveaxis(x1, axis, 0), np.moveaxis(x2, axis, 0)
    if cross:
        out = (cross_correlate if kind == "corr" else cross_difference)(f1, f2, t1, t2, **kw)
        want, mag = ref.cross(y1, y2, r1, r2, N, c["complex"], kind)
    else:
        out = (auto_correlate if kind == "corr" else auto_difference)(f1, t1, **kw)
        want, mag = ref.auto(y1, r1, N, c["complex"], kind)
    tol = 2e-12
    ctx.close(out, want, "%s%s %s" % (fn, " complex" if c["complex"] else "", "regular" if t1 is None else "irregular"),
              scale=np.nan_to_num(mag) + np.nan_to_num(mag).max() * 1e-3, tol=tol)
    ctx.ok(np.iscomplexobj(out) == bool(c["complex"]), "result dtype %s" % out.dtype)
    if c["lay"] != "list":
        ctx.equal(f1, x1, "first input was modified")
        ctx.equal(f2, x2, "second input was modified")
    else:
        ctx.ok(repr(f1) == repr(x1.tolist()) and repr(f2) == repr(x2.tolist()), "input list modified")
    for a, b in ((t1, c["t1"]), (t2, c["t2"])):
        ctx.ok(b is None or list(map(int, a)) == list(b), "time stamps were modified")
    ctx.label(fn + ("-c" if c["complex"] else ""))
    ctx.label("regular" if t1 is None else "irregular")
    ctx.label("n:" + c["nmode"])
    ctx.label("ndim%d" % len(shape))
    return T >= 3 and N >= 2 and np.nan_to_num(np.abs(want)).max() > 0


def pairs_case():
    """One frame pair at a time: where does the product land (shrinks to a readable case)."""
    return gen.case(T=st.integers(1, 12), i=st.integers(0, 11), j=st.integers(0, 11), n=st.integers(1, 14),
                    K=st.integers(0, 3), t1=gen.times(12, sort=False), t2=gen.times(12, sort=False), reg=st.booleans(),
                    contig=st.booleans(), complex=st.booleans())


def check_pair(c, ctx):
    T, i, j, n = c["T"], c["i"] % c["T"], c["j"] % c["T"], c["n"]
    shape = (T,) if c["K"] == 0 else (c["K"], T)
    a = np.zeros(shape, complex); b = np.zeros(shape, complex)
    a[..., i] = 2 + 1j
    b[..., j] = 1 - 3j
    axis = -1
    if not c["contig"] and c["K"]:
        a, b, axis = a.T, b.T, 0
    t1 = list(range(T)) if c["reg"] else c["t1"][:T]
    t2 = list(range(T)) if c["reg"] else c["t2"][:T]
    args = (None, None) if c["reg"] else (t1, t2)
    out = cross_correlate(a, b, *args, axis=axis, n=n, complex=c["complex"])
    m = 2 * n - 1 if c["complex"] else n
    want = np.zeros(shape[:-1] + (m,), complex)
    d = t2[j] - t1[i]
    v = np.conj(2 + 1j) * (1 - 3j)
    if abs(d) < n:
        if c["complex"]:
            want[..., d % m] = v
        else:
            want[..., abs(d)] = v.real
    ctx.close(out, want, "single pair i=%d j=%d delay %d" % (i, j, d), scale=10)
    return abs(d) < n


def check_real(c, ctx):
    f1, f2, y1, y2, axis = large.data(c)
    t1, t2, r1, r2 = large.times(c)
    n = c["n"]
    N = large.full_n(c, r1, r2) if n is None else n
    kind = "diff" if c["method"] == "diff" else "corr"
    kw = dict(axis=axis, n=n, align=c["align"])
    if kind == "corr":
        kw["complex"] = c["complex"]
    if c["cross"]:
        got = (cross_correlate if kind == "corr" else cross_difference)(f1, f2, t1, t2, **kw)
    else:
        got = (auto_correlate if kind == "corr" else auto_difference)(f1, t1, **kw)
    want = ref.analysis(y1, y2, r1, r2, N, c["complex"] and kind == "corr", kind, 1)[0]
    A = np.abs(y1.astype(complex)).max() + (np.abs(y2.astype(complex)).max() if c["cross"] else 0)
    ctx.close(got, want, "%s %s of %d frames" % ("cross" if c["cross"] else "auto", kind, c["T"]), scale=A * A * c["T"], tol=1e-12)
    ctx.label("%s-%s %s" % ("cross" if c["cross"] else "auto", kind, c["irr"]))
    return N > 1


SUBS = [
    harness.Sub("definition", cases(), check, 1400, 60000, "T>=3 frames, >=2 delays, result not all zero"),
    harness.Sub("large", large_cases(), check, 120, 6000, "T>=3 frames, >=2 delays, result not all zero"),
    harness.Sub("real_size", large.cases(), check_real, 150, 6000, "more than one delay"),
    harness.Sub("single_pair", pairs_case(), check_pair, 300, 10000, "the pair's delay lies inside of the output"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C01", SUBS, assumptions=[
        "default double precision build; tolerance 2e-12 of the sum of pair magnitudes"]))
