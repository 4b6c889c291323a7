"""Calculations for C24, run with the same inputs in differently configured processes.

Run as a script it serves cases from stdin (one JSON line each), answers on stdout (pickle).
"""
import sys, os, json, pickle, struct, warnings
import numpy as np


def data(seed, shape, cplx=True, kind="normal"):
    """Values that are representable in single precision."""
    rs = np.random.RandomState(seed)

    def one():
        if kind == "corr":  # correlated along the first axis
            x = rs.standard_normal(shape)
            for i in range(1, shape[0]):
                x[i] = .8 * x[i - 1] + .6 * x[i]
            return x
        if kind == "offset":
            return rs.standard_normal(shape) + 3
        if kind == "ints":
            return rs.randint(-3, 4, shape).astype(float)
        return rs.standard_normal(shape)
    x = one() + 1j * one() if cplx else one()
    return x.astype("complex64" if cplx else "float32")


def big(x):
    x = np.abs(np.asarray(x))
    return float(x.max()) if x.size else 0.


def flat(x, name=""):
    if x is None:
        return [(name, None)]
    if isinstance(x, (tuple, list)):
        return [z for i, y in enumerate(x) for z in flat(y, "%s[%d]" % (name, i))]
    return [(name, np.array(x))]


def times(c):
    if not c.get("t"):
        return None, None
    rs = np.random.RandomState(c["t"])
    t1 = np.cumsum(rs.randint(1, 4, c["n"]))
    return t1, t1 + rs.randint(0, 2, c["n"])


def raw(c):
    """Raw (not normalized) correlation data, and the natural size of its values."""
    from cddm import core, multitau, conf
    sh = (c["n"],) + tuple(c["shape"])
    dt = {"build": conf.CDTYPE, "single": "complex64", "double": "complex128"}[c.get("given", "build")]
    a, b = data(c["s"], sh, kind=c["x"]).astype(dt), data(c["s"] + 1, sh, kind=c["x"]).astype(dt)
    sc = c["n"] * max(big(a), big(b)) ** 2
    t1, t2 = times(c)
    kw = dict(norm=c["norm"], method=c["method"])
    k = c["kind"]
    if k in ("corr", "multi"):
        ax = c.get("axis", 0)
        kw.update(axis=ax)
        a2, b2 = np.moveaxis(a, 0, ax), np.moveaxis(b, 0, ax)
        if k == "corr":
            kw.update(align=c["align"], n=c["k"])
            fn = (core.ccorr, core.acorr)
        else:
            kw.update(level_size=8, binning=c["bin"])
            if c.get("div"):
                kw.update(thread_divisor=c["div"])
            fn = (multitau.ccorr_multi, multitau.acorr_multi)
            t1 = t2 = None
        if c["cross"]:
            out = fn[0](a2, b2, t1, t2, complex=c["complex"], **kw)
        else:
            out = fn[1](a2, t=t1, **kw)
        return out, sc, a, b
    t = np.arange(c["n"])
    if k == "iter":
        fn = (core.iccorr, core.iacorr)
        kw.update(n=c["k"], chunk_size=16)
    else:
        fn = (multitau.iccorr_multi, multitau.iacorr_multi)
        kw.update(level_size=8, chunk_size=16, binning=c["bin"], stats=c["stats"])
    if c.get("div"):
        kw.update(thread_divisor=c["div"])
    if c["cross"]:
        out = fn[0](((np.array(x), np.array(y)) for x, y in zip(a, b)), t, t, complex=c["complex"], **kw)
    else:
        out = fn[1](((np.array(x),) for x in a), t, **kw)
    return out, sc, a, b


def compute(c):
    """List of (name, array or None, natural size of the values)."""
    from cddm import core, multitau, conf, norm as N, avg, map as M, fft as F, video as V, window, sim, _sim_nb as nb
    k = c["kind"]
    F_, C_ = conf.FDTYPE, conf.CDTYPE
    np.random.seed(c.get("raw", c).get("random", 0))
    if k in ("corr", "multi", "iter", "imulti"):
        out, sc, a, b = raw(c)
        return [(n, x, sc) for n, x in flat(out)]
    if k == "norm":
        out, sc, a, b = raw(c["raw"])
        bg, var = (core.stats(a, b) if c["raw"]["cross"] else core.stats(a))
        if not c["raw"]["cross"]:
            bg, var = (bg, bg), (var, var)
        fn = N.normalize if c["raw"]["kind"] == "corr" else multitau.normalize_multi
        r = fn(out, bg, var, norm=c["norm"], mode=c["mode"], scale=c["scale"])
        cnt = [out[1]] if c["raw"]["kind"] == "corr" else [out[0][1], out[1][1]]
        r = [r] if c["raw"]["kind"] == "corr" else list(r)
        res = []
        nat = max(big(a), big(b)) ** 2
        if c["scale"]:
            nat = nat / float(np.min((var[0] + var[1]) / 2))
        for i, (x, n) in enumerate(zip(r, cnt)):
            x = np.array(x)
            if x.ndim > n.ndim and n.ndim == 2:
                n = n.reshape((n.shape[0],) + (1,) * (x.ndim - 2) + (n.shape[1],))
            x = np.where(np.broadcast_to(n > c["minc"], x.shape), x, 0)
            res.append(("normalized %d" % i, x, nat))
        return res + [("bg%d" % i, z, big(a)) for i, z in enumerate(bg)] + [("var%d" % i, z, nat) for i, z in enumerate(var)]
    if k == "filter":
        x = data(c["s"], (c["n"],) + tuple(c["shape"]), c["cplx"], kind="corr").astype(C_ if c["cplx"] else F_)
        x = np.ascontiguousarray(np.moveaxis(x, 0, -1))
        sc = big(x)
        op = c["op"]
        if op in ("decreasing", "increasing"):
            r = getattr(avg, op)(np.ascontiguousarray(x.real))
        elif op == "median":
            r = avg.median(x)
        elif op == "denoise":
            r = avg.denoise(x, 2)
        elif op == "log_average":
            r = multitau.log_average(x, c["size"], fold=False)
        elif op == "multilevel":
            r = multitau.multilevel(x, c["size"], binning=c["bin"], fold=False)
        elif op == "merge":
            r = multitau.merge_multilevel(multitau.multilevel(x, c["size"], binning=c["bin"], fold=False))
        elif op == "weighted_sum":
            y = data(c["s"] + 1, x.shape, c["cplx"]).astype(x.dtype)
            w = np.abs(data(c["s"] + 2, x.shape, False)).astype(F_)
            w = w / max(1., big(w))     # a weight of the data's own type
            r = N.weighted_sum(x, y, w.astype(C_) if c["cplx"] else w)
        elif op in ("interpolate", "log_interpolate"):
            xs = np.cumsum(1 + np.random.RandomState(c["s"]).randint(0, 3, c["n"]))
            new = np.arange(1, int(xs[-1]) + 3)
            if c["cplx"]:
                x = np.ascontiguousarray(x.real)
            if op == "interpolate":
                new, xs = new.astype(F_), xs.astype(F_)
            r = getattr(avg, op)(new, xs, x)
            sc *= 4
        elif op in ("weight", "weight_prime"):
            # parameters as a user has them: in double precision
            rs = np.random.RandomState(c["s"])
            mode = "diff" if c["cplx"] else "corr"
            g = np.clip(np.exp(-np.arange(c["n"]) / 5.) + .02 * x.real, .01, 1.)
            g = (2 - 2 * g if mode == "diff" else g).astype(F_)
            delta, sf = rs.uniform(-.5, .5, g.shape[:-1]), rs.uniform(.5, 2., g.shape[:-1])
            bg = [rs.uniform(-1, 1, g.shape[:-1]) + 1j * rs.uniform(-1, 1, g.shape[:-1]) for i in range(2)]
            kw = dict(delta=delta, scale_factor=sf, mode=mode, pre_filter=bool(c["bin"]))
            g = (g * sf[..., None]).astype(F_)
            r = N.weight_from_data(g, **kw) if op == "weight" else N.weight_prime_from_data(g, *bg, **kw)
            sc = 1. if op == "weight" else 50.
        elif op in ("mean_data_cpu", "mean_data_parallel"):
            r = getattr(multitau, op)(x, axis=-1 if c["size"] < 8 else x.ndim - 1, **({} if c["bin"] else {"out_axis": 0}))
        elif op == "abs2":
            from cddm._core_nb import abs2
            r, sc = abs2(x.astype(C_)), sc ** 2
        else:
            r = {"fold": N.fold_data, "shift": N.shift_data, "equalize": N.equalize_data}[op](data(c["s"], tuple(c["shape"]) + (c["n"] | 1,), True).astype(C_))
            sc = 6.
        return [(n, z, sc) for n, z in flat(r, op)]
    if k == "video":
        sh = tuple(c["shape"])
        x = data(c["s"], (c["n"], 2) + sh, False, kind="offset").astype(F_)
        frames = [(f[0], f[1]) for f in x]
        op = c["op"]
        w = getattr(window, c["win"])(sh, *{"tukey": (.3,), "gaussian": (.5,)}.get(c["win"], ()))
        if op == "window":
            return [("window", w, 1.)]
        if op == "subtract":
            r = list(V.subtract(iter(frames), iter(frames[::-1])))
        elif op == "multiply":
            r = list(V.multiply(iter(frames), ((w, w),) * c["n"]))
        elif op == "normalize":
            r = list(V.normalize_video(iter(frames)))
        elif op == "rfft2":
            r = list(F.rfft2_video(iter(frames), kimax=c["kc"], kjmax=c["kc"]))
        elif op == "fft2":
            r = list(F.fft2_video(iter(frames), kimax=c["kc"], kjmax=c["kc"]))
        else:
            r = [V.asarrays(iter(frames), c["n"])]
        r = [[np.array(z) for z in f] for f in r]
        sc = 6. * (np.prod(sh) if "fft" in op else 1.)
        return [(n, z, sc) for n, z in flat(r, op)]
    if k == "kselect":
        H, W = c["shape"][0], c["shape"][1]
        x = data(c["s"], (H, W // 2 + 1, c["n"]), c["cplx"], kind="offset").astype(C_ if c["cplx"] else F_)
        r = M.k_select(x, angle=c["angle"], sector=c["sector"], kstep=c["kstep"], shape=(H, W))
        return [z for i, (kk, v) in enumerate(r) for z in (("k %d" % i, np.array(kk, float), float(H + W)), ("data %d" % i, np.array(v), 6.))]
    if k == "psf":
        H, W = c["shape"][0] + 8, c["shape"][1] + 8
        rs = np.random.RandomState(c["s"])
        m = c["m"]
        pts = np.floor(rs.rand(m, 2) * (H, W) * 4) / 4
        dt = c["dt"]
        im = np.zeros((H, W), dt)
        inten = rs.randint(1, c["imax"] + 1, m).astype(dt)
        if c["op"] == "points":
            r = nb.draw_points(im, pts.astype(F_), inten)
        else:
            r = nb.draw_psf(im, pts.astype(F_), inten, np.full(m, c["sigma"], F_))
        return [("image", np.array(r), 1.)]
    if k == "particles":
        sh = (c["shape"][0] + 8, c["shape"][1] + 8)
        rs = np.random.RandomState(c["s"])
        n = c["n"]
        pos = [np.floor(rs.rand(c["m"], 2) * sh * 4) / 4 for _ in range(n)]
        t = list(range(n))
        v = sim.particles_video(((p.astype(F_)) for p in pos), t1=t, shape=sh, background=5, intensity=3, sigma=c["sigma"], dtype=c["dt"])
        return [(nm, z, 1.) for nm, z in flat([[np.array(y) for y in f] for f in v], "frame")]
    if k == "adc":
        x = np.abs(data(c["s"], (c["n"],) + tuple(c["shape"]), False, kind="offset")).astype(F_) * 5000
        r = sim.adc(x, noise_model="none", bit_depth=c["bits"], saturation=32768., black_level=c["black"])
        return [("adc", np.array(r), 1.)]
    raise ValueError(k)


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)  # whatever the package prints does not get mixed up with the answers
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    try:
        import cddm.core, cddm.multitau, cddm.sim, cddm.video, cddm.window, cddm.avg, cddm.fft, cddm.map, cddm.norm
        from cddm import conf
        ans = ("ready", {"precision": conf.PRECISION, "parallel": conf.NUMBA_PARALLEL, "fastmath": conf.NUMBA_FASTMATH, "cache": conf.NUMBA_CACHE})
    except BaseException as e:
        ans = ("import", repr(e))

    def send(x):
        b = pickle.dumps(x, protocol=4)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()
    send(ans)
    for line in sys.stdin:
        c = json.loads(line)
        try:
            with np.errstate(all="ignore"):
                if "threads" in c:
                    conf.set_numba_threads(c["threads"])
                send(("ok", compute(c["case"])))
        except Exception as e:
            import traceback
            send(("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-600:])))


class Worker:
    def __init__(self, name, env):
        import subprocess
        self.name = name
        e = {k: v for k, v in os.environ.items() if not (k.startswith("CDDM_") and k != "CDDM_REPO")}
        e.update(env)
        self.p = subprocess.Popen([sys.executable, "-m", "vlib.buildcalc"], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.ready = None

    def recv(self):
        h = self.p.stdout.read(8)
        if len(h) < 8:
            raise EOFError("process of the %s build ended (%s)" % (self.name, self.p.poll()))
        n, = struct.unpack("<Q", h)
        return pickle.loads(self.p.stdout.read(n))

    def wait(self):
        if self.ready is None:
            self.ready = self.recv()
        return self.ready

    def post(self, case, **kw):
        self.p.stdin.write((json.dumps(dict(kw, case=case)) + "\n").encode())
        self.p.stdin.flush()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


if __name__ == "__main__":
    serve()
