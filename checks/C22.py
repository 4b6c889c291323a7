"""C22: settings: setters, message printing, configuration file."""
import io, os, sys, json, subprocess, contextlib, warnings, tempfile, shutil
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
import cddm
from cddm import conf, core, multitau, norm as N, fft as F, video as V, print_tools as PT

try:
    import pyfftw
except ImportError:
    pyfftw = None
import numba
defaults.wrap(globals())

NMAX = numba.config.NUMBA_NUM_THREADS
KEYS = ["rfft2lib", "fftlib", "verbose", "showlib", "fft_threads", "numba_threads"]
SETTERS = {"rfft2lib": conf.set_rfft2lib, "fftlib": conf.set_fftlib, "verbose": conf.set_verbose, "showlib": conf.set_showlib, "fft_threads": conf.set_fft_threads, "numba_threads": conf.set_numba_threads}
INSTALLED = {"mkl_fft": conf.MKL_FFT_INSTALLED, "scipy": conf.SCIPY_INSTALLED, "numpy": True, "pyfftw": conf.PYFFTW_INSTALLED, "matplotlib": True, "cv2": conf.CV2_INSTALLED, "pyqtgraph": conf.PYQTGRAPH_INSTALLED}
ALIAS = {"numpy.fft": "numpy", "scipy.fftpack": "scipy"}
LIBS = ["numpy", "numpy.fft", "scipy", "scipy.fftpack", "pyfftw", "mkl_fft"]
VALID = {
    "rfft2lib": st.sampled_from(LIBS), "fftlib": st.sampled_from(LIBS),
    "verbose": st.integers(-2, 2), "showlib": st.sampled_from(["matplotlib", "cv2", "pyqtgraph"]),
    "fft_threads": st.one_of(st.integers(1, 8), st.sampled_from(["2", "4"])), "numba_threads": st.integers(1, NMAX)}
INVALID = {
    "rfft2lib": st.sampled_from(["", "fftw", "Numpy", "matplotlib", None, 1]), "fftlib": st.sampled_from(["", "fftw", "Numpy", "cv2", None, 0]),
    "verbose": st.sampled_from(["", "high", None]), "showlib": st.sampled_from(["", "numpy", None, 0, "Matplotlib"]),
    "fft_threads": st.sampled_from([0, -1, "", "x", None, "0"]), "numba_threads": st.sampled_from([0, -3, NMAX + 1, 10 ** 6])}


def snapshot():
    return {k: getattr(conf.CDDMConfig, k) for k in KEYS}


@contextlib.contextmanager
def pristine():
    old = snapshot()
    try:
        yield
    finally:
        for k in KEYS:
            if k != "verbose":
                SETTERS[k](old[k])
        conf.CDDMConfig.verbose = old["verbose"]


# ------------------------------------------------------------------ computations
class _Boom(Exception):
    pass


def frames(n, cams, seed, stop=None, err=None):
    rs = np.random.RandomState(seed)
    x = rs.randn(n, cams, 5, 4) + 1j * rs.randn(n, cams, 5, 4)
    for i in range(n):
        if i == stop:
            if err:
                raise _Boom()
            return
        yield tuple(np.array(x[i, k]) for k in range(cams))


T1 = np.cumsum([0, 1, 3, 2, 1, 4, 2, 1, 3, 2, 2, 1, 5, 1, 2, 3] * 2)
T2 = T1 + np.array([0, 1, 0, 1] * 8)


def arr(seed, n=32):
    return np.random.RandomState(seed).randn(n, 5, 4) + 1j * np.random.RandomState(seed + 1).randn(n, 5, 4)


def run(kind, seed):
    """Result of a computation as a flat list of arrays."""
    a, b = arr(seed), arr(seed + 7)
    if kind.startswith("ccorr_"):
        return core.ccorr(a, b, T1, T2, n=10, method=kind[6:])
    if kind.startswith("acorr_"):
        return core.acorr(a, t=T1, method=kind[6:])
    if kind == "multi":
        return multitau.ccorr_multi(a, b, level_size=8, norm=2, binning=1)
    if kind == "multi_fft":
        return multitau.acorr_multi(a, level_size=8, method="fft", binning=1)
    if kind == "iccorr":
        return core.iccorr(frames(32, 2, seed), T1, T2, n=4, chunk_size=8)
    if kind == "iacorr":
        return core.iacorr(frames(32, 1, seed), T1, n=4, norm=1)
    if kind == "iccorr_multi":
        return multitau.iccorr_multi(frames(32, 2, seed), np.arange(32), np.arange(32), period=1, level_size=8, binning=1, count=32)
    if kind == "iacorr_multi":
        return multitau.iacorr_multi(frames(32, 1, seed), np.arange(32), level_size=8, binning=1, count=32)
    if kind == "weighted":
        d = core.ccorr(a, b, n=8, norm=7)
        bg, var = core.stats(a, b)
        return N.normalize(d, bg, var, norm=7, scale=True), N.normalize(d, bg, var, norm=7, ret_weight=True)
    if kind == "normalize":
        d = core.ccorr(a, b, n=8, norm=7)
        bg, var = core.stats(a, b)
        return N.normalize(d, bg, var, norm=5)
    if kind == "normalize_multi":
        d = multitau.ccorr_multi(a, b, level_size=8, norm=7, binning=1)
        bg, var = core.stats(a, b)
        return N.noise_delta(var), multitau.normalize_multi(d, bg, var, norm=7, scale=True)
    if kind == "log":
        d = multitau.ccorr_multi(a, b, level_size=8, norm=7, binning=1)
        bg, var = core.stats(a, b)
        return multitau.log_merge(*multitau.normalize_multi(d, bg, var, norm=6))
    if kind == "rfft2":
        return [f for fr in F.rfft2(tuple(np.array(x.real) for x in f) for f in frames(4, 2, seed)) for f in fr]
    if kind == "subtract":
        v = [tuple(np.array(x.real) for x in f) for f in frames(4, 2, seed)]
        return [f for fr in V.subtract(v, iter(v[::-1])) for f in fr]
    if kind == "stats_iter":
        return V.asarrays(frames(6, 2, seed), 6)
    # --- failing computations
    if kind == "F_shape":
        return core.ccorr(a, b[:, :3], method="corr")
    if kind == "F_method":
        return core.acorr(a, method="magic")
    if kind == "F_weighted":
        d = core.ccorr(a, b, n=8, norm=7)
        return N.normalize(d, core.stats(a, b)[0], None, norm=7, scale=True)
    if kind == "F_weighted2":  # the structured part is not there
        d = core.ccorr(a, b, n=8, norm=7)
        bg, var = core.stats(a, b)
        return N.normalize((d[0], d[1], None) + tuple(d[3:]), bg, var, norm=7)
    if kind == "F_normalize_multi":
        d = multitau.ccorr_multi(a, b, level_size=8, norm=7, binning=1)
        return multitau.normalize_multi(d, None, None, norm=7)
    if kind == "F_multi_t":
        return multitau.ccorr_multi(a, b, T1[:5], T2, level_size=8)
    if kind == "F_multi_method":
        return multitau.ccorr_multi(a, b, level_size=8, method="magic")
    if kind == "F_multi_mem":  # fails within the calculation
        return multitau.ccorr_multi(a, b[:, :3], level_size=8)
    if kind == "F_iter_short":
        return core.iccorr(frames(32, 2, seed, stop=9), T1, T2, n=4)
    if kind == "F_iter_empty":
        return multitau.iccorr_multi(frames(32, 2, seed, stop=0), np.arange(32), np.arange(32), level_size=8, count=32)
    if kind == "F_iter_err":
        return multitau.iacorr_multi(frames(32, 1, seed, stop=11, err=True), np.arange(32), level_size=8, count=32)
    if kind == "F_iter_err2":
        return core.iccorr(frames(32, 2, seed, stop=5, err=True), T1, T2, n=4, chunk_size=8)
    if kind == "F_viewer":
        from cddm.viewer import DataViewer
        return DataViewer().plot()
    if kind == "F_binning":
        return multitau.iccorr_multi(frames(32, 2, seed), np.arange(32), np.arange(32), level_size=8, binning=9, count=32)
    raise harness.HarnessError(kind)


GOOD = ["ccorr_fft", "ccorr_corr", "ccorr_diff", "acorr_fft", "acorr_corr", "acorr_diff", "multi", "multi_fft", "iccorr", "iacorr", "iccorr_multi", "iacorr_multi", "weighted", "normalize", "normalize_multi", "log", "rfft2", "subtract", "stats_iter"]
PRINTS = {"ccorr_fft", "ccorr_corr", "ccorr_diff", "acorr_fft", "acorr_corr", "acorr_diff", "multi", "multi_fft", "iccorr", "iacorr", "iccorr_multi", "iacorr_multi", "weighted", "normalize", "normalize_multi", "log"}
FAIL = ["F_shape", "F_method", "F_weighted", "F_weighted2", "F_normalize_multi", "F_multi_t", "F_multi_method", "F_multi_mem", "F_iter_short", "F_iter_empty", "F_iter_err", "F_iter_err2", "F_viewer", "F_binning"]


def flat(x):
    if x is None:
        return [None]
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [np.array(x)]


_REF = {}


def reference(kind, seed):
    """The result at the default settings (verbosity 0, numpy, all threads)."""
    if (kind, seed) not in _REF:
        _REF[kind, seed] = flat(run(kind, seed))
    return _REF[kind, seed]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["set", "set", "set", "bad", "compute", "compute", "compute", "fail", "fail", "push", "pop", "restore", "enable", "print"]))
    if k == "set":
        key = draw(st.sampled_from(KEYS + ["verbose"]))
        return [k, key, draw(VALID[key])]
    if k == "bad":
        key = draw(st.sampled_from(KEYS))
        return [k, key, draw(INVALID[key])]
    if k == "compute":
        return [k, draw(st.sampled_from(GOOD)), draw(st.integers(0, 2))]
    if k == "fail":
        return [k, draw(st.sampled_from(FAIL)), draw(st.integers(0, 2))]
    return [k]


def seq_cases():
    return st.fixed_dictionaries({"ops": st.lists(op(), min_size=3, max_size=25)})


def check_seq(c, ctx):
    with pristine():
        for k in KEYS:
            SETTERS[k]({"rfft2lib": "numpy", "fftlib": "numpy", "verbose": 0, "showlib": "matplotlib", "fft_threads": 2, "numba_threads": NMAX}[k])
        # (a reference must come from the default settings)
        for o in c["ops"]:
            if o[0] == "compute":
                reference(o[1], o[2])
        return _seq(c, ctx)


def _seq(c, ctx):
    model = snapshot()
    undo, blocks = [], []
    rich = set()

    def compare(what):
        got = snapshot()
        ctx.ok(got == model, lambda: "%s: settings are %s, expected %s" % (what, got, model))
        ctx.ok(conf.CDDMConfig["verbose"] == model["verbose"], "item access")
        if pyfftw is not None:
            ctx.ok(pyfftw.config.NUM_THREADS == model["fft_threads"], lambda: "%s: fft uses %r threads, set to %r" % (what, pyfftw.config.NUM_THREADS, model["fft_threads"]))
        ctx.ok(numba.get_num_threads() == model["numba_threads"], lambda: "%s: numba uses %r threads, set to %r" % (what, numba.get_num_threads(), model["numba_threads"]))

    for i, o in enumerate(c["ops"]):
        k = o[0]
        what = "after step %d %r" % (i, o)
        if k == "set":
            key, val = o[1:]
            if key == "verbose" and blocks:
                continue  # not defined which level is the one to restore
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                ret = SETTERS[key](val)
            ctx.ok(ret == model[key], "%s: returned %r, previous value was %r" % (what, ret, model[key]))
            undo.append((key, ret))
            new = val
            if key == "verbose":
                new = max(0, val)
            elif key.endswith("threads"):
                new = int(val)
            else:
                new = ALIAS.get(val, val)
                if not INSTALLED[new]:
                    new = model[key]
                    ctx.ok(len(w) > 0, "%s: no warning for a library that is not installed" % what)
                    ctx.label("not installed")
            if new != model[key]:
                rich.add("set")
            model[key] = new
        elif k == "bad":
            try:
                SETTERS[o[1]](o[2])
            except (ValueError, TypeError):
                pass
            else:
                ctx.fail("%s: invalid value is accepted" % what)
            rich.add("bad")
        elif k == "restore":
            if undo and not (undo[-1][0] == "verbose" and blocks):
                key, val = undo.pop()
                # sets the returned value back: same state as before the call
                SETTERS[key](val)
                model[key] = val
        elif k == "push":
            ret = PT.disable_prints()
            ctx.ok(ret == model["verbose"], "%s: returned %r, level was %r" % (what, ret, model["verbose"]))
            blocks.append(ret)
            model["verbose"] = -abs(model["verbose"])
        elif k == "pop":
            if blocks:
                v = blocks.pop()
                ret = PT.enable_prints(v)
                ctx.ok(ret == model["verbose"], "%s: returned %r, level was %r" % (what, ret, model["verbose"]))
                model["verbose"] = v
        elif k == "enable":
            if blocks:
                continue
            ret = PT.enable_prints()
            ctx.ok(ret == model["verbose"], "%s: returned %r, level was %r" % (what, ret, model["verbose"]))
            model["verbose"] = abs(model["verbose"])
        elif k == "print":
            for fn, lev in ((lambda: PT.print1("a"), 1), (lambda: PT.print2("a"), 2), (lambda: PT.print_progress(3, 7), 1), (lambda: PT.print_progress(7, 7), 1), (lambda: PT.print_frame_rate(10, 0., 1.), 2)):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    fn()
                ctx.ok(bool(buf.getvalue()) == (model["verbose"] >= lev), "%s: level %d message at verbosity %d: %r" % (what, lev, model["verbose"], buf.getvalue()))
        elif k in ("compute", "fail"):
            buf = io.StringIO()
            res = None
            err = None
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    res = flat(run(o[1], o[2]))
                except Exception as e:
                    err = e
                    if k == "compute":
                        raise
            text = buf.getvalue()
            if model["verbose"] <= 0:
                ctx.ok(text == "", "%s: printed at verbosity %d: %r" % (what, model["verbose"], text[:200]))
            elif k == "compute" and o[1] in PRINTS and (model["verbose"] == 2 or o[1] not in ("weighted", "normalize", "normalize_multi", "log")):
                ctx.ok(text != "", "%s: printed nothing at verbosity %d" % (what, model["verbose"]))
            if k == "compute":
                ref = reference(o[1], o[2])
                ctx.ok(len(ref) == len(res), "%s: number of results" % what)
                for x, y in zip(res, ref):
                    if y is None:
                        ctx.ok(x is None, what)
                    else:
                        ctx.close(x, y, what + " (settings %s)" % model, tol=1e-10)
                if model["verbose"] or model["numba_threads"] != NMAX or model["fftlib"] != "numpy":
                    rich.add("compute")
            else:
                ctx.label("%s %s" % (o[1], "failed" if err is not None else "did not fail"))
                rich.add("fail")
        compare(what)
    while undo:
        key, val = undo.pop()
        if key == "verbose" and blocks:
            continue
        SETTERS[key](val)
        model[key] = val
        compare("undone %r" % ([key, val],))
    return len(rich) >= 2


# ------------------------------------------------------------------ configuration at import
#: conf and fft are imported without the rest of the package, so that nothing is compiled
SCRIPT = r"""
import sys, types, json, os
m = types.ModuleType('cddm'); m.__path__ = [os.path.join(os.environ['CDDM_REPO'], 'cddm')]; sys.modules['cddm'] = m
import cddm.conf as c, cddm.print_tools, cddm.fft, numba
out = {k: getattr(c.CDDMConfig, k) for k in ("rfft2lib", "fftlib", "verbose", "showlib", "fft_threads", "numba_threads")}
try:
    import pyfftw
    out["eff_fft"] = pyfftw.config.NUM_THREADS
except ImportError:
    pass
out["eff_numba"] = numba.get_num_threads()
out.update(precision=c.PRECISION, parallel=c.NUMBA_PARALLEL, target=c.NUMBA_TARGET, cache=c.NUMBA_CACHE, fastmath=c.NUMBA_FASTMATH,
   types=[str(c.FDTYPE), str(c.CDTYPE), str(c.F), str(c.C)], cores=c.detect_number_of_cores(), conf=c.CONF, home=c.HOMEDIR)
print("RESULT " + json.dumps(out))
"""
BOOL = st.sampled_from([None, None, True, False])
YES = {True: ["yes", "true", "on", "1"], False: ["no", "false", "off", "0"]}


@st.composite
def ini_cases(draw):
    c = {"ini": {}, "env": {}}
    for sec, key in (("core", "double_precision"), ("numba", "cache"), ("numba", "parallel"), ("numba", "fastmath")):
        v = draw(BOOL)
        if v is not None:
            c["ini"][sec + "." + key] = [v, draw(st.sampled_from(YES[v]))]
    for name in ("CDDM_DOUBLE_PRECISION", "CDDM_NUMBA_CACHE", "CDDM_TARGET_PARALLEL", "CDDM_FASTMATH"):
        v = draw(st.sampled_from([None, None, None, "0", "1", "0", "1", "00", "01", " 1", "+1", "0 ", "-0", "", "x", "1.5", "yes"]))
        if v is not None:
            c["env"][name] = v
    for key, s in (("core.verbose", st.integers(0, 2)), ("fft.nthreads", st.integers(0, 6)), ("numba.nthreads", st.integers(1, NMAX + 3)),
                   ("fft.rfft2lib", st.sampled_from(["numpy", "scipy", "pyfftw"])), ("fft.fftlib", st.sampled_from(["numpy", "scipy", "pyfftw", "scipy.fftpack"])), ("core.showlib", st.sampled_from(["matplotlib"]))):
        if draw(st.booleans()):
            c["ini"][key] = [draw(s)] * 1
    c["nb"] = draw(st.sampled_from([None, None, 1, 2, NMAX]))
    c["file"] = draw(st.sampled_from(["ini", "ini", "ini", "none", "nodir"]))
    return c


def check_ini(c, ctx):
    home = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        ini = dict(c["ini"]) if c["file"] == "ini" else {}
        cdir = os.path.join(home, ".cddm")
        if c["file"] != "nodir":
            os.mkdir(cdir)
        if c["file"] == "ini":
            txt = ""
            for sec in ("core", "numba", "fft"):
                txt += "[%s]\n" % sec
                for k, v in ini.items():
                    if k.startswith(sec + "."):
                        txt += "%s = %s\n" % (k[len(sec) + 1:], v[-1])
            open(os.path.join(cdir, "cddm.ini"), "w").write(txt)
        env = {k: v for k, v in os.environ.items() if not (k.startswith("CDDM_") and k != "CDDM_REPO") and k != "NUMBA_NUM_THREADS"}
        env.update(c["env"], HOME=home)
        if "PYTHONPYCACHEPREFIX" in env:  # private: compiled modules can be used by the next case
            env.pop("PYTHONDONTWRITEBYTECODE", None)
        if c["nb"] is not None:
            env["NUMBA_NUM_THREADS"] = str(c["nb"])
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", SCRIPT], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, text=True)
        lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
        ctx.ok(len(lines) == 1, lambda: "import failed: " + p.stderr[-600:])
        r = json.loads(lines[0][7:])
        ctx.ok(os.path.isfile(os.path.join(cdir, "cddm.ini")), "configuration file was not made")

        def val(key, default):
            return ini[key][0] if key in ini else default

        def flag(envname, key, default):
            v = c["env"].get(envname)
            try:
                return bool(int(v)) if v is not None else val(key, default)
            except ValueError:  # not a number: as if it was not set
                return val(key, default)
        cores = r["cores"]
        dbl = flag("CDDM_DOUBLE_PRECISION", "core.double_precision", True)
        par = flag("CDDM_TARGET_PARALLEL", "numba.parallel", False)
        want = {"precision": "double" if dbl else "single", "types": ["float64", "complex128", "float64", "complex128"] if dbl else ["float32", "complex64", "float32", "complex64"],
                "parallel": par, "target": "parallel" if par else "cpu", "cache": flag("CDDM_NUMBA_CACHE", "numba.cache", True), "fastmath": flag("CDDM_FASTMATH", "numba.fastmath", False),
                "verbose": val("core.verbose", 0), "rfft2lib": val("fft.rfft2lib", "numpy"), "fftlib": ALIAS.get(val("fft.fftlib", "numpy"), val("fft.fftlib", "numpy")), "showlib": "matplotlib"}
        if conf.MKL_FFT_INSTALLED or conf.CV2_INSTALLED:
            want.pop("showlib"), want.pop("fftlib")
        n = val("fft.nthreads", cores)
        want["fft_threads"] = n if n >= 1 else cores
        if "eff_fft" in r:
            want["eff_fft"] = want["fft_threads"]
        most = cores if c["nb"] is None else c["nb"]
        n = val("numba.nthreads", cores)
        want["numba_threads"] = want["eff_numba"] = n if n <= most else most
        for k, v in want.items():
            ctx.ok(r[k] == v, "%s is %r, expected %r (ini %s, environment %s, NUMBA_NUM_THREADS %s)" % (k, r[k], v, ini, c["env"], c["nb"]))
        return bool(ini or c["env"])
    finally:
        shutil.rmtree(home)


if __name__ == "__main__":
    raise SystemExit(harness.main("C22", [
        harness.Sub("sequences", seq_cases(), check_seq, 600, 20000, "at least two of: a setting changed, an invalid value refused, a result compared at other than default settings, a failing computation"),
        harness.Sub("configuration", ini_cases(), check_ini, 25, 1500, "a value was configured"),
    ], assumptions=["Verbosity is not set inside of a disable_prints/enable_prints block.", "mkl_fft, cv2 and pyqtgraph are tested only as far as they are installed (an attempt to use a missing library must leave the setting unchanged)."]))
