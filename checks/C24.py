"""C24: precision, parallel, fast-math and cached builds compute the same thing."""
import os, atexit, tempfile
import numpy as np
from hypothesis import strategies as st
from vlib import harness, buildcalc

NT = int(os.environ.get("NUMBA_NUM_THREADS", "8"))
CONFIGS = {
    "single": {"CDDM_DOUBLE_PRECISION": "0", "CDDM_NUMBA_CACHE": "0"},
    "parallel": {"CDDM_TARGET_PARALLEL": "1", "CDDM_NUMBA_CACHE": "0"},
    "fastmath": {"CDDM_FASTMATH": "1", "CDDM_NUMBA_CACHE": "0"},
    "all": {"CDDM_DOUBLE_PRECISION": "0", "CDDM_TARGET_PARALLEL": "1", "CDDM_FASTMATH": "1", "CDDM_NUMBA_CACHE": "0"},
    "cached": {"CDDM_NUMBA_CACHE": "1"},
    "reloaded": {"CDDM_NUMBA_CACHE": "1"},
    "default": {"CDDM_NUMBA_CACHE": "0"},
}
EXPECT = {"single": ("single", False, False, False), "parallel": ("double", True, False, False), "fastmath": ("double", False, True, False),
          "all": ("single", True, True, False), "cached": ("double", False, False, True), "reloaded": ("double", False, False, True), "default": ("double", False, False, False)}
WORKERS = {}


def start():
    """All builds are compiled at the same time; the second cached process starts when the first one has written its files."""
    if WORKERS:
        return
    cache = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    for name, env in CONFIGS.items():
        env = dict(env)
        if env["CDDM_NUMBA_CACHE"] == "1":
            env["NUMBA_CACHE_DIR"] = cache
        if name == "reloaded":
            WORKERS["cached"].wait()
            harness.alive()
        if name != "reloaded":
            WORKERS[name] = buildcalc.Worker(name, env)
    WORKERS["cached"].wait()
    WORKERS["reloaded"] = buildcalc.Worker("reloaded", dict(CONFIGS["reloaded"], NUMBA_CACHE_DIR=cache))


def _close():
    for w in WORKERS.values():
        w.close()


atexit.register(_close)


def ready(ctx):
    start()
    for name, w in WORKERS.items():
        kind, info = w.wait()
        harness.alive()
        ctx.ok(kind == "ready", "the %s build cannot be imported: %s" % (name, info))
        got = (info["precision"], info["parallel"], info["fastmath"], info["cache"])
        ctx.ok(got == EXPECT[name], "the %s build has the configuration %s" % (name, info))


NORMS = [1, 2, 3, 5, 6, 7]


@st.composite
def raw_cases(draw, kinds=("corr", "multi", "iter", "imulti")):
    k = draw(st.sampled_from(kinds))
    c = {"kind": k, "n": 32 if k != "corr" else draw(st.integers(6, 40)), "shape": draw(st.lists(st.integers(1, 6), min_size=0 if k == "corr" else 1, max_size=2)), "s": draw(st.integers(0, 9999)), "x": draw(st.sampled_from(["normal", "offset", "ints", "corr"]))}
    if not c["shape"] and k != "corr":
        c["shape"] = [2]
    c["cross"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["fft", "corr", "diff"]))
    c["norm"] = draw(st.sampled_from(NORMS if c["method"] != "diff" else ([2, 6] if c["cross"] else [2])))
    c["complex"] = draw(st.booleans()) and c["cross"] and c["method"] != "diff"
    c["bin"] = draw(st.sampled_from([0, 1, 2])) if c["method"] != "diff" else draw(st.sampled_from([0, 2]))
    c["random"] = draw(st.integers(0, 99))
    c["stats"] = draw(st.booleans())
    c["given"] = draw(st.sampled_from(["build", "build", "single", "double"]))
    if k == "corr":
        c.update(axis=draw(st.integers(0, len(c["shape"]))), align=draw(st.booleans()), t=draw(st.sampled_from([0, 0, 1, 2])))
        c["k"] = draw(st.integers(2, c["n"]))
    elif k == "multi":
        c["axis"] = draw(st.integers(0, len(c["shape"])))
    else:
        c["k"] = draw(st.sampled_from([4, 8, 16]))
    if k != "corr":
        total = int(np.prod(c["shape"]))
        c["div"] = draw(st.sampled_from([None] + [d for d in range(1, total + 1) if total % d == 0]))
    return c


@st.composite
def norm_cases(draw):
    r = draw(raw_cases(("corr", "multi")))
    r["axis"] = 0
    r["x"] = draw(st.sampled_from(["normal", "offset", "corr"]))
    r["t"] = 0
    r["norm"] = NORMS[-1] if r["method"] != "diff" else 6 if r["cross"] else 2
    if not r["shape"]:
        r["shape"] = [3]
    if "k" in r:
        r["k"] = max(r["k"], 4)  # weighted normalization filters the data
    c = {"kind": "norm", "raw": r, "mode": draw(st.sampled_from(["corr", "diff"])), "scale": draw(st.booleans()), "minc": 2 if r["kind"] == "multi" else 0}
    c["norm"] = draw(st.sampled_from(NORMS + [9, 10, 11] if r["method"] != "diff" else [r["norm"], 2]))
    return c


@st.composite
def other_cases(draw):
    k = draw(st.sampled_from(["filter", "filter", "filter", "video", "kselect", "adc"]))
    c = {"kind": k, "s": draw(st.integers(0, 9999)), "n": draw(st.integers(3, 70)), "shape": draw(st.lists(st.integers(1, 6), min_size=0, max_size=2))}
    if k == "filter":
        c.update(op=draw(st.sampled_from(["decreasing", "increasing", "median", "denoise", "log_average", "multilevel", "merge", "weighted_sum", "interpolate", "log_interpolate", "weight", "weight_prime", "weight_prime", "abs2", "mean_data_cpu", "mean_data_parallel", "mean_data_parallel", "fold", "shift", "equalize"])), cplx=draw(st.booleans()), bin=draw(st.sampled_from([0, 1])), size=draw(st.sampled_from([4, 6, 8])))
        if c["op"] in ("log_average", "multilevel", "merge"):
            c["n"] = max(c["n"], 2 * c["size"])
    elif k == "video":
        c.update(op=draw(st.sampled_from(["window", "subtract", "multiply", "normalize", "rfft2", "fft2", "asarrays"])), win=draw(st.sampled_from(["blackman", "gaussian", "tukey", "hann"])), n=draw(st.integers(1, 4)), shape=draw(st.lists(st.integers(2, 12), min_size=2, max_size=2)), kc=draw(st.sampled_from([None, None, 1])))
    elif k == "kselect":
        c.update(n=draw(st.integers(1, 4)), shape=[draw(st.sampled_from([8, 9, 12])), draw(st.sampled_from([8, 11]))], cplx=draw(st.booleans()), angle=draw(st.integers(-60, 60)), sector=draw(st.sampled_from([30, 90, 180])), kstep=draw(st.sampled_from([1., 2.])))
    else:
        c.update(n=draw(st.integers(1, 3)), bits=draw(st.sampled_from(["8bit", "10bit", "12bit", "14bit", "16bit"])), black=draw(st.sampled_from([0, 1000])))
        c["shape"] = draw(st.lists(st.integers(1, 6), min_size=2, max_size=2))
    return c


@st.composite
def draw_cases(draw):
    k = draw(st.sampled_from(["psf", "psf", "particles"]))
    m = draw(st.sampled_from([1, 3, 40, 400, 2000]))
    c = {"kind": k, "s": draw(st.integers(0, 9999)), "shape": draw(st.lists(st.integers(1, 24), min_size=2, max_size=2)), "m": m if k == "psf" else min(m, 400), "sigma": draw(st.sampled_from([.5, 1., 2.])), "dt": draw(st.sampled_from(["uint16", "uint16", "uint8"])), "n": draw(st.integers(1, 3))}
    c["imax"] = draw(st.integers(1, 20))
    c["op"] = draw(st.sampled_from(["psf", "psf", "points"]))
    return c


def tolerance(c, name, single):
    k = c["kind"]
    if not single:
        return 1e-9 if not (k == "norm" and c["norm"] & 3 == 3) else 1e-6
    if k == "norm":
        return 3e-3 if c["norm"] & 3 == 3 else 3e-4
    return 2e-5


def check(c, ctx):
    ready(ctx)
    rs = np.random.RandomState(len(str(c)))
    jobs = []
    for name, w in WORKERS.items():
        n = NT
        w.post(c, threads=n)
        jobs.append((name, w, n))
    for name in ("parallel", "all"):  # other numbers of threads
        n = int(rs.randint(1, NT))
        WORKERS[name].post(c, threads=n)
    res = {name: w.recv() for name, w, n in jobs}
    again = {name: WORKERS[name].recv() for name in ("parallel", "all")}
    ref = res["default"]
    for name, r in list(res.items()) + [("%s (fewer threads)" % n, r) for n, r in again.items()]:
        ctx.ok(r[0] == ref[0], lambda: "default build: %s, %s build: %s" % (ref if ref[0] == "error" else "no error", name, r if r[0] == "error" else "no error"))
    if ref[0] == "error":
        ctx.fail("calculation failed: " + ref[1])
    ref = ref[1]
    finite = 0
    for name in res:
        got = res[name][1]
        single = EXPECT[name][0] == "single"
        ctx.ok([g[0] for g in got] == [g[0] for g in ref], "%s build: results" % name)
        for (nm, x, _), (_, y, sc) in zip(got, ref):
            what = "%s build: %s" % (name, nm)
            ctx.ok((x is None) == (y is None), what)
            if y is None:
                continue
            if y.dtype.kind in "fc":
                want = y.dtype if not single else {"float64": np.dtype("float32"), "complex128": np.dtype("complex64")}.get(y.dtype.name, y.dtype)
                if c["kind"] in ("corr", "multi", "iter", "imulti") or c["kind"] == "norm" and c["raw"].get("given", "build") == "build":
                    ctx.ok(x.dtype == want, "%s: data type %s, expected %s" % (what, x.dtype, want))
                ok = np.isfinite(y)
                if "fastmath" not in name and name != "all":
                    ctx.ok((np.isfinite(x) == ok).all(), "%s: not finite where the default build is" % what)
                finite += int(ok.sum())
                ctx.close(np.where(ok, x, 0), np.where(ok, y, 0), what, scale=sc, tol=tolerance(c, nm, single))
            elif c["kind"] in ("psf", "particles", "adc") and single:
                # rounding towards zero of the values of each particle
                n = c.get("m", 1)
                if c["kind"] == "adc" or int(y.max()) + n < (256 if y.dtype == np.uint8 else 65536):
                    ctx.ok(x.shape == y.shape and (np.abs(x.astype(int) - y.astype(int)) <= n).all(), what)
            else:
                ctx.equal(x, y, what)
            if name in again:
                ctx.equal(again[name][1][[g[0] for g in got].index(nm)][1], x, what + " depends on the number of threads")
    ctx.label(c["kind"])
    if c["kind"] in ("psf",):
        return c["m"] > 1
    return any(y is not None and y.size for _, y, _ in ref)


if __name__ == "__main__":
    raise SystemExit(harness.main("C24", [
        harness.Sub("raw", raw_cases(), check, 300, 30000, "there are results to compare"),
        harness.Sub("normalize", norm_cases(), check, 250, 15000, "there are results to compare"),
        harness.Sub("other", other_cases(), check, 400, 20000, "there are results to compare"),
        harness.Sub("drawing", draw_cases(), check, 80, 4000, "more than one particle"),
    ], assumptions=["Data is finite; values that are not finite in the default build (no pairs) are not compared with the fast-math build.",
                    "Single precision is compared within 2e-5 of the natural size of the values (raw data), 3e-4 (normalized), 3e-3 (weighted).",
                    "Images in single precision are compared within one grey level per particle."]))
