"""C21: viewers (data selection of DataViewer, CorrViewer, MultitauViewer, array viewers, VideoViewer)."""
import warnings, contextlib, io
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from cddm import viewer, core, multitau, norm as cnorm
from cddm.map import fft2_k_indexmap
from checks.C13 import geo, membership, freqs
defaults.wrap(globals())


# ------------------------------------------------------------------ reference
def rings_of(c, angle, sector, kstep):
    """ring number of each element of the full plane; by the code's own map on boundaries (C13 decides these)"""
    fi, fj, si, sj, half, shape = geo(c)
    m = membership(fi, fj, si, sj, angle, sector, kstep)
    own = {e: next(iter(w)) for e, w in m.items() if len(w) == 1}
    amb = [e for e, w in m.items() if len(w) > 1]
    if amb:
        code = fft2_k_indexmap(len(fi), half, angle=angle, sector=sector, kstep=kstep, shape=shape)
        own.update({e: int(code[e]) for e in amb})
    return own


def selection(c, k, angle, sector, kstep, computed):
    """[(a, b, conjugate, |k|)] of the half plane; second: ambiguous (both directions selected)"""
    fi, fj, si, sj, half, shape = geo(c)
    own = rings_of(c, angle, sector, kstep)
    out, loose = [], False
    for a in range(len(fi)):
        for b in range(half):
            if computed is not None and not computed[a, b]:
                continue
            direct = own[a, b] == k
            opp = b > 0 and 2 * b != len(fj) and own[-a % len(fi), len(fj) - b] == k
            loose |= direct and opp
            if direct or opp:
                out.append((a, b, opp, np.hypot(fi[a] * si, fj[b] * sj)))
    return out, loose


def rep(x, mode):
    return {"real": np.real, "imag": np.imag, "abs": np.abs, "phase": np.angle}[mode](x)


@st.composite
def geom(draw):
    H, W = draw(st.one_of(st.integers(5, 9), st.integers(5, 9), st.integers(1, 8))), draw(st.one_of(st.integers(5, 9), st.integers(5, 9), st.integers(1, 8)))
    c = {"H": H, "W": W, "shape": draw(st.sampled_from(["square", "frame", "frame", "crop"])), "mode": "rfft2"}
    if c["shape"] == "crop":
        c["ci"], c["cj"] = (H - 1) // 2 - draw(st.integers(0, (H - 1) // 2)), W // 2 - draw(st.integers(0, W // 2))
    return c


def geo_shape(c):
    fi, fj, si, sj, half, shape = geo(c)
    return len(fi), half


MASKS = st.fixed_dictionaries({"op": st.just("mask"), "k": st.sampled_from([1, 1, 1, 2, 2, 2, 0, 3, 4, 6]), "angle": st.one_of(st.sampled_from([0, 0, 45, 90, -90, 180, 30]), st.floats(-180, 180)), "sector": st.one_of(st.sampled_from([180, 180, 90, 90, 60, 5]), st.floats(40, 180)), "kstep": st.sampled_from([1, 1, 1, 1.5, .5, 2])})
OPS = st.one_of(MASKS, MASKS, MASKS, st.fixed_dictionaries({"op": st.just("data"), "i": st.integers(0, 2)}), st.fixed_dictionaries({"op": st.just("mode"), "mode": st.sampled_from(["imag", "abs", "phase", "real"])}),
                st.fixed_dictionaries({"op": st.just("norm"), "norm": st.sampled_from([1, 2, 3, 5, 6, 7, 9, 11, 13, 14, 15, None])}), st.just({"op": "bad"}), st.just({"op": "get"}))
SLIDES = st.fixed_dictionaries({"op": st.just("slide"), "which": st.sampled_from(["k", "angle", "sector", "mode", "check"]), "v": st.floats(0, 1)})


@st.composite
def view_cases(draw, gui=False):
    kind = draw(st.sampled_from(["data", "corr", "corr", "multitau"]))
    g = draw(geom())
    g2 = g
    if draw(st.integers(0, 3)) == 0:      # one of the data sets has another frame shape
        masked, g = "none", dict(g, shape="square")
        g.pop("ci", 0), g.pop("cj", 0)
        g2 = dict(g, H=draw(st.integers(2, 8)), W=draw(st.integers(2, 8)))
    else:
        masked = draw(st.sampled_from(["none", "none", "full", "packed"]))
    other = OPS if not gui else st.one_of(SLIDES, SLIDES, SLIDES, SLIDES, OPS)
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        ops.append({"op": "data", "i": draw(st.integers(0, 2)) if ops else 0})
        if len(ops) == 1 or g2 is not g or draw(st.booleans()):
            ops.append(dict(draw(MASKS), **({"angle": 0, "sector": 180} if gui else {})))
        ops += draw(st.lists(other, min_size=0 if not gui else 2, max_size=3 if not gui else 4))
    method = draw(st.sampled_from(["acorr", "ccorr", "adiff", "cdiff", "ccomplex", "acomplex"] if kind == "corr" else ["acorr", "ccorr", "adiff", "ccomplex"]))
    return {"kind": kind, "g": g, "g2": g2, "masked": masked, "p": draw(st.sampled_from([.6, .8])), "ops": ops, "method": method, "bg": True, "scale": draw(st.booleans()), "size": draw(st.sampled_from([None, None, 1, 2, 4])),
            "T": draw(st.integers(3, 12)), "x": draw(gen.content(["normal", "offset", "mixed"])), "norm": draw(st.sampled_from([None, 1, 2, 3, 5, 6, 7, 9])), "semilogx": draw(st.sampled_from([True, True, False])), "t": draw(st.sampled_from([False, True, "wrapped", "reversed"])), "fold": draw(st.sampled_from([None, "explicit"])), "cplx": draw(st.booleans())}


#: times of the data set (not always sorted: a correlation function in fft order starts at zero and wraps)
TIMES = {False: lambda T: None, True: lambda T: np.cumsum(1 + np.arange(T)), "wrapped": lambda T: np.fft.fftfreq(T, 1. / T) * 2, "reversed": lambda T: (T - np.arange(T)) * .5}


def dataset(c, i):
    """(args of set_data, geometry, computed mask or None) of dataset number i; packed if masked"""
    g = c["g2"] if i == 2 else c["g"]
    sh = geo_shape(g)
    T = c["T"]
    spec = dict(c["x"], s=c["x"]["s"] + 7919 * i)
    rs = np.random.RandomState(c["x"]["s"] % 99991)
    mask = None if c["masked"] == "none" else rs.rand(*sh) < c["p"]
    pick = (lambda a: a[:, mask]) if c["masked"] == "packed" else (lambda a: a)
    if c["kind"] == "data":
        d = np.moveaxis(gen.expand(spec, (T,) + sh, cplx=c["cplx"]), 0, -1).copy()
        t = TIMES[c["t"]](T)
        return (d[mask] if c["masked"] == "packed" else d, t), g, mask
    m = c["method"]
    kw = {}
    if c["kind"] == "multitau":
        T = 32
    f1 = pick(gen.expand(spec, (T,) + sh))
    f2 = pick(gen.expand(dict(spec, s=spec["s"] + 1), (T,) + sh))
    auto = m[0] == "a"
    bg, var = core.stats(f1) if auto else core.stats(f1, f2)
    if c["kind"] == "multitau":
        kw = {"level_size": 8, "method": "corr" if "diff" not in m else "diff"}
        if m == "ccomplex":
            kw["complex"] = True
        d = multitau.acorr_multi(f1, **kw) if auto else multitau.ccorr_multi(f1, f2, **kw)
    elif "diff" in m:
        d = core.acorr(f1, method="diff") if auto else core.ccorr(f1, f2, method="diff")
    else:
        if "complex" in m:
            kw["complex"] = True
        d = core.acorr(f1, **kw) if auto else core.ccorr(f1, f2, **kw)
    if not c["bg"]:
        bg = var = None
    return (d, bg, var), g, mask


def full_plane(x, sh, mask, packed):
    """(..., T) of all elements of the half plane"""
    if not packed:
        return x
    out = np.full(x.shape[:-2] + sh + x.shape[-1:], np.nan, x.dtype)
    out[..., mask, :] = x
    return out


def normalised(c, args, norm):
    """-> times, all elements"""
    if c["kind"] == "data":
        d, t = args
        return (np.arange(d.shape[-1]) if t is None else t), d
    d, bg, var = args
    if c["kind"] == "corr":
        y = cnorm.normalize(d, bg, var, norm=norm, scale=c["scale"] and var is not None)
        if c["method"] == "ccomplex":
            y = cnorm.fold_data(y)
        if c["size"] is not None:
            return multitau.log_average(y, c["size"], fold=False)
        return np.arange(y.shape[-1]), y
    fast, slow = multitau.normalize_multi(d, bg, var, norm=norm, scale=c["scale"] and var is not None)
    if c["method"] == "ccomplex":
        fast, slow = cnorm.fold_data(fast, 1), cnorm.fold_data(slow, 1)
    if c["semilogx"]:
        return multitau.log_merge(fast, slow, fold=False)
    return np.arange(fast.shape[-1]), fast


def leaves(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in leaves(y)]
    return []


def make_viewer(c, mask, shape):
    kw = {"semilogx": c["semilogx"], "shape": shape, "mask": mask}
    if c["kind"] == "data":
        return viewer.DataViewer(**kw)
    kw.update(norm=c["norm_used"], scale=c["scale_used"])
    # one-sided data is not folded, two-sided data of both cameras is folded
    if c["method"] == "ccomplex":
        kw["fold"] = True if c["fold"] or not c["bg"] else None
    elif c["method"] == "acomplex":
        kw["fold"] = False if c["fold"] or not c["bg"] else None
    if c["kind"] == "corr":
        return viewer.CorrViewer(size=c["size"], **kw)
    return viewer.MultitauViewer(**kw)


def check_view(c, ctx):
    with warnings.catch_warnings(record=True), contextlib.redirect_stdout(io.StringIO()):
        try:
            return _check_view(c, ctx)
        finally:
            plt.close("all")


def allowed(c, norm):
    if c["kind"] == "data":
        return False
    if not c["bg"]:
        return norm == 1 and "diff" not in c["method"]
    if norm is None:
        return True
    if "diff" in c["method"]:
        return norm == 2 or norm == 6 and c["method"][0] == "c"
    return True


def _check_view(c, ctx):
    sets = {}
    for i in range(3):
        sets[i] = dataset(c, i)
    shape = geo(c["g"])[5]
    for args, _, _ in sets.values():
        if c["kind"] != "data" and isinstance(args[1], np.ndarray) and args[1].shape[0] == 2:
            return False  # finding single_dim2 of C06
    c["norm_used"] = c["norm"] if allowed(c, c["norm"]) else None if c["bg"] else 1
    if c["kind"] != "data" and "diff" in c["method"] and not c["bg"]:
        return False  # nothing can be computed without background
    c["scale_used"] = c["scale"] and c["bg"]
    packed = c["masked"] == "packed"
    if packed and c["kind"] == "data" and sets[0][0][0].shape[:-1] == sets[0][2].shape:
        return False
    v = make_viewer(c, sets[0][2], shape)
    for call in ("get_data", "get_k"):
        try:
            getattr(v, call)()
            ctx.fail("%s without data" % call)
        except ValueError:
            pass
    keep = {i: [np.array(x) for x in leaves(s[0])] for i, s in sets.items()}
    cur, sel, norm, mode = None, None, c["norm_used"], "real"
    valid = False        # the mask was set for the shape of the current data
    nontrivial = 0
    plotted, synced = False, True
    for op in c["ops"]:
        o = op["op"]
        if o == "data":
            if cur is not None and geo_shape(sets[op["i"]][1]) != geo_shape(sets[cur][1]):
                valid = False
                ctx.label("data of other shape")
            cur = op["i"]
            v.set_data(*sets[cur][0])
        elif o == "mask":
            g, mask = sets[cur][1], sets[cur][2]
            ok = set_mask(v, op["k"], op["angle"], op["sector"], op["kstep"])
            sel = op
            valid = True
            els, loose = selection(g, op["k"], op["angle"], op["sector"], op["kstep"], mask)
            ctx.ok(bool(ok) == (len(els) > 0), "set_mask returned %r, %d wave vectors are selected" % (ok, len(els)))
        elif o == "bad":
            if sel is None or not valid:
                continue
            try:
                set_mask(v, sel["k"], 270, sel["sector"], sel["kstep"])
                ctx.fail("angle of 270 is accepted")
            except ValueError:
                pass
            set_mask(v, sel["k"], sel["angle"], sel["sector"], sel["kstep"])
        elif o == "mode":
            mode = v.mode = op["mode"]
        elif o == "norm":
            if not allowed(c, op["norm"]):
                continue
            norm = op["norm"]
            v.set_norm(norm)
            synced = False
        elif o == "slide":
            if not valid or sel["sector"] == 0 or -90 > sel["angle"] or sel["angle"] > 90 or abs(sel["angle"]) + 0 > 90:
                continue
            if not plotted:
                v.plot()
                plotted = geo_shape(sets[cur][1])
                if c["kind"] != "data":
                    norm = v.norm
                    state = list(v.check.get_status())
                    ctx.ok(state == [bool(norm & 2), bool(norm & 4), norm & 3 == 3, bool(norm & 8)], "check boxes %s when plotted with normalization %d" % (state, norm))
            g = sets[cur][1]
            x, w = op["v"], op["which"]
            if w == "check" and c["kind"] == "data":
                continue
            if w in ("k", "angle", "sector"):
                s = {"k": v.kindex, "angle": v.angleindex, "sector": v.sectorindex}[w]
                val = {"k": x * s.valmax, "angle": round(-90 + 180 * x, 2), "sector": round(5 + 175 * x, 2)}[w]
                s.set_val(val)
            elif w == "mode":
                mode = ["real", "imag", "abs", "phase"][int(x * 3.999)]
                v.selectorindex.set_active(["real", "imag", "abs", "phase"].index(mode))
            elif c["kind"] != "data":
                i = int(x * 3.999)
                before = norm
                want = norm ^ [2, 4, 3, 8][i] if i in (1, 3) else None
                state = list(v.check.get_status())
                # (set_norm does not move the check boxes)
                ctx.ok(not synced or norm_of(state) == norm, "check boxes %s for normalization %d" % (state, norm))
                old = norm_of(state)
                state[i] = not state[i]
                new = norm_of(state)
                # (the box is set back if the data does not allow it)
                norm = new if norm_allowed(v.data[0] if c["kind"] == "multitau" else v.data, new) else old
                synced = True
                v.check.set_active(i)
                ctx.ok(norm_of(list(v.check.get_status())) == norm, "check boxes show another normalization than %d" % norm)
                ctx.ok(v.norm == norm, "check box %d: normalization is %r, expected %r (before %r)" % (i, v.norm, norm, before))
            # every widget sets the selection of the sliders
            sel = {"op": "mask", "k": int(round(v.kindex.val)), "angle": v.angleindex.val, "sector": v.sectorindex.val, "kstep": sel["kstep"]}
            ctx.label("plot")
        if cur is None or sel is None or not valid:
            continue
        g, mask = sets[cur][1], sets[cur][2]
        els, loose = selection(g, sel["k"], sel["angle"], sel["sector"], sel["kstep"], mask)
        if not els:
            continue
        got_t, got = v.get_data()
        gk = v.get_k()
        if loose:
            ctx.label("nyquist row")
            continue
        t, y = normalised(c, sets[cur][0], norm)
        y = full_plane(y, geo_shape(g), mask, packed)
        vals = np.array([np.conj(y[a, b]) if cj else y[a, b] for a, b, cj, _ in els])
        want = np.nanmean(vals, axis=0)
        what = "after %s (k=%d angle=%g sector=%g kstep=%g mode=%s norm=%s)" % (o, sel["k"], sel["angle"], sel["sector"], sel["kstep"], mode, norm)
        ctx.equal(np.asarray(got_t), np.asarray(t), "time " + what)
        sc = np.nanmax(np.abs(vals), initial=1e-12)
        if mode == "phase":
            ctx.ok(got.shape == want.shape, "shape")
            big = np.abs(want) > 1e-6 * sc
            ctx.close(np.exp(1j * got[big]), np.exp(1j * np.angle(want[big])), "phase " + what, tol=1e-6)
        else:
            ctx.close(got, rep(want, mode), "data " + what, scale=sc, tol=1e-9)
        ctx.close(gk, np.mean([e[3] for e in els]), "k " + what, tol=1e-9)
        if o == "slide" and plotted == geo_shape(g):
            check_image(ctx, v, g, sel, mask, what)
        if o == "slide":
            line = v.l
            ctx.close(line.get_ydata(), got, "plotted line " + what, scale=sc, tol=1e-12)
            ctx.equal(np.asarray(line.get_xdata()), np.asarray(t), "plotted times " + what)
        nontrivial = max(nontrivial, len(els))
    for i, s in sets.items():
        for a, b in zip(leaves(s[0]), keep[i]):
            ctx.equal(a, b, "data was modified by the viewer")
    ctx.label("%s %s" % (c["kind"], c["masked"]))
    return nontrivial > 1


def check_image(ctx, v, g, sel, mask, what):
    """image of the full plane: rings of the sector, the averaged wave vectors highlighted, nothing outside of the sector"""
    fi, fj, si, sj, half, shape = geo(g)
    own = rings_of(g, sel["angle"], sel["sector"], sel["kstep"])
    im = np.ma.filled(np.fft.ifftshift(np.ma.filled(np.ma.asarray(v.im.get_array(), float), np.nan)), np.nan)
    ctx.ok(im.shape == (len(fi), len(fj)), "shape of the image %s %s" % (im.shape, what))
    top = set()
    for (a, b), r in own.items():
        if b < half:
            comp = mask is None or mask[a, b]
        else:
            comp = mask is None or mask[-a % len(fi), len(fj) - b]
        p = im[a, b]
        if r == -1:
            ctx.ok(np.isnan(p), lambda: "image at %d,%d is %r outside of the sector %s" % (a, b, p, what))
        elif r == sel["k"] and comp:
            top.add(p)
            ctx.ok(p != r and not np.isnan(p), lambda: "image at %d,%d is %r: not highlighted %s" % (a, b, p, what))
        else:
            ctx.ok(p == r, lambda: "image at %d,%d is %r, ring %d %s" % (a, b, p, r, what))
    ctx.ok(len(top) <= 1, "image: highlighted values %s %s" % (top, what))


def set_mask(v, *args):
    return defaults.wrapped(v.set_mask, "viewer.set_mask")(*args)


def norm_allowed(data, norm):
    """whether the data has what the normalization needs"""
    if len(data) == 4:
        return norm in (2, 6) and (norm == 2 or not (data[2] is None or data[3] is None))
    return norm in (1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15) and (not norm & 2 or data[2] is not None) and (not norm & 12 or data[3] is not None)


def norm_of(state):
    n = 2 if state[0] else 1
    return n | (4 if state[1] else 0) | (3 if state[2] else 0) | (8 if state[3] else 0)


# ------------------------------------------------------------------ array viewers
@st.composite
def arr_cases(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(st.permutations(range(nd)))[:draw(st.integers(0, nd))]
    shape = draw(st.lists(st.integers(1, 4), min_size=nd, max_size=nd))
    return {"kind": draw(st.sampled_from(["data", "corr", "multitau"])), "shape": shape, "axes": list(axes), "ops": draw(st.lists(st.one_of(st.lists(st.floats(0, 1), min_size=nd, max_size=nd), st.sampled_from(["imag", "abs", "real", "data"]), st.integers(0, 3)), min_size=1, max_size=6)), "method": draw(st.sampled_from(["acorr", "ccorr", "ccomplex"])), "x": draw(gen.content(["normal", "offset"])), "T": draw(st.integers(3, 9)), "norm": draw(st.sampled_from([None, 1, 3, 7, 6])), "scale": draw(st.booleans()), "size": draw(st.sampled_from([None, 2])), "semilogx": draw(st.booleans()), "cplx": draw(st.booleans()), "t": draw(st.sampled_from([False, True, "wrapped", "reversed"])), "plot": draw(st.integers(0, 3))}


def check_arr(c, ctx):
    with warnings.catch_warnings(record=True), contextlib.redirect_stdout(io.StringIO()):
        try:
            return _check_arr(c, ctx)
        finally:
            plt.close("all")


def _check_arr(c, ctx):
    kind, sh, axes = c["kind"], tuple(c["shape"]), tuple(c["axes"])
    if not axes and kind != "data":
        axes = (0,)
    T = 32 if kind == "multitau" else c["T"]
    cc = {"kind": kind, "method": c["method"], "size": c["size"], "semilogx": c["semilogx"], "scale": c["scale"]}

    def ds(i):
        f1, f2 = (gen.expand(dict(c["x"], s=c["x"]["s"] + 7 * i + j), (T,) + sh) for j in range(2))
        if kind == "data":
            d = np.moveaxis(f1 if c["cplx"] else f1.real, 0, -1).copy()
            return d, TIMES[c["t"]](T)
        auto = c["method"] == "acorr"
        bg, var = core.stats(f1) if auto else core.stats(f1, f2)
        kw = {"complex": True} if c["method"] == "ccomplex" else {}
        if kind == "multitau":
            kw["level_size"] = 8
            return (multitau.acorr_multi(f1, **kw) if auto else multitau.ccorr_multi(f1, f2, **kw)), bg, var
        return (core.acorr(f1, **kw) if auto else core.ccorr(f1, f2, **kw)), bg, var
    sets = [ds(0), ds(1)]
    if kind != "data" and isinstance(sets[0][1], np.ndarray) and sets[0][1].shape[0] == 2:
        return False  # finding single_dim2 of C06
    if kind == "data":
        v = viewer.DataArrayViewer(semilogx=c["semilogx"], axes=axes)
    elif kind == "corr":
        v = viewer.CorrArrayViewer(semilogx=c["semilogx"], axes=axes, size=c["size"], norm=c["norm"], scale=c["scale"])
    else:
        v = viewer.MultitauArrayViewer(semilogx=c["semilogx"], axes=axes, norm=c["norm"], scale=c["scale"])
    cur = 0
    v.set_data(*sets[cur])
    idx, mode = (0,) * len(axes), "real"
    plotted = False
    keep = [[np.array(x) for x in leaves(s)] for s in sets]
    norm = c["norm"]
    for op in [None] + c["ops"]:
        drawn = False
        if c["plot"] == 0 and not plotted:
            v.plot()
            plotted = True
            if kind != "data":
                norm = v.norm
                ctx.ok(list(v.check.get_status()) == [bool(norm & 2), bool(norm & 4), norm & 3 == 3, bool(norm & 8)], "check boxes when plotted with normalization %d" % norm)
        if isinstance(op, list):
            if plotted:
                # sliders count from the end too
                val = tuple(round((2 * x - 1) * (sh[a] - 1), 2) for x, a in zip(op, axes))
                for a, i in zip(axes, val):
                    v.sliders[a].set_val(i)
                if axes:
                    idx, drawn = tuple(int(i) for i in val), True
                ctx.label("plot")
            else:
                idx = tuple(min(int(x * sh[a]), sh[a] - 1) for x, a in zip(op, axes))
                v.set_indices(*idx)
        elif isinstance(op, int):
            if not plotted or kind == "data":
                continue
            state = list(v.check.get_status())
            state[op] = not state[op]
            d = sets[cur][0][0] if kind == "multitau" else sets[cur][0]
            if norm_allowed(d, norm_of(state)):
                norm = norm_of(state)
            v.check.set_active(op)
            drawn = True
            ctx.ok(v.norm == norm, "check box %d: normalization %r, expected %r" % (op, v.norm, norm))
            ctx.label("check box")
        elif op == "data":
            cur = 1 - cur
            v.set_data(*sets[cur])
        elif op:
            mode = op
            if plotted:
                v.selectorindex.set_active(["real", "imag", "abs", "phase"].index(op))
                # widgets set the positions of the sliders
                idx, drawn = tuple(int(v.sliders[a].val) for a in axes), True
            else:
                v.mode = op
        t, y = normalised(cc, sets[cur], norm)
        where = [slice(None)] * len(sh)
        for a, i in zip(axes, idx):
            where[a] = i
        z = y[tuple(where)]
        want = z.reshape(-1, z.shape[-1]).mean(axis=0)
        gt, got = v.get_data()
        ctx.equal(np.asarray(gt), np.asarray(t), "time")
        ctx.close(got, rep(want, mode), "data at %s of axes %s" % (idx, axes), scale=np.nanmax(np.abs(z), initial=1e-12), tol=1e-9)
        if plotted and drawn:
            ctx.close(v.l.get_ydata(), got, "plotted line after %s" % (op,), tol=1e-12)
            ctx.equal(np.asarray(v.l.get_xdata()), np.asarray(t), "plotted times after %s" % (op,))
    for s, k in zip(sets, keep):
        for a, b in zip(leaves(s), k):
            ctx.equal(a, b, "data was modified by the viewer")
    ctx.label(kind)
    return len(axes) > 0 and max(sh) > 1


# ------------------------------------------------------------------ video
@st.composite
def video_cases(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.integers(180, 320)))
    return {"n": n, "shape": draw(st.lists(st.integers(1, 4), min_size=2, max_size=2)), "src": draw(st.sampled_from(["list", "gen", "iter", "tuple"])), "cams": draw(st.sampled_from([0, 1, 2])), "id": draw(st.integers(0, 1)), "count": draw(st.sampled_from([None, "n", "less"])), "pos": draw(st.lists(st.one_of(st.integers(0, 7), st.sampled_from(["next", "prev", "n2", "p2", "play", "ff", "play", "ff", "stop", -2, -6])), min_size=1, max_size=6)), "norm": draw(st.sampled_from([None, "abs", "imag"])), "s": draw(st.integers(0, 9999))}


def check_video(c, ctx):
    with warnings.catch_warnings(record=True):
        try:
            return _check_video(c, ctx)
        finally:
            plt.close("all")


def _check_video(c, ctx):
    rs = np.random.RandomState(c["s"])
    n, cams = c["n"], c["cams"]
    x = rs.randn(n, max(cams, 1), *c["shape"]) + 1j * rs.randn(n, max(cams, 1), *c["shape"])
    frames = [x[i, 0] if cams == 0 else tuple(x[i]) for i in range(n)]
    cid = min(c["id"], max(cams, 1) - 1)
    fn = {None: np.real, "abs": np.abs, "imag": np.imag}[c["norm"]]
    kw = {} if c["norm"] is None else {"norm_func": fn}
    src = {"list": list, "tuple": tuple, "gen": lambda f: (y for y in f), "iter": iter}[c["src"]](frames)
    sized = c["src"] in ("list", "tuple")
    count = n if c["count"] == "n" else max(1, n - 1) if c["count"] == "less" else None
    if count is None and not sized:
        try:
            viewer.VideoViewer(src, id=cid)
        except Exception as e:
            ctx.ok("count" in str(e), "error without count: %s" % e)
            return False
        ctx.fail("no count is accepted")
    v = viewer.VideoViewer(src, count=count, id=cid, **kw)
    count = n if count is None else count
    shown, furthest = 0, 0

    def frame_ok(i, what):
        ctx.close(np.asarray(v.img.get_array()), fn(x[i, cid]), "frame %d %s" % (i, what), tol=0)
    frame_ok(0, "at start")
    slider, step = 0, 1
    drawn = []
    show = v.img.set_data
    v.img.set_data = lambda a: (drawn.append(np.array(a)), show(a))[1]
    fast = max(count // 100, 1)
    for p in c["pos"]:
        if p in ("play", "ff"):
            step = 1 if p == "play" else fast
            if count > 20 and slider < count - 12 * step:
                slider = count - 7 * step
                v.sframe.set_val(slider)
                if not sized and slider > furthest:
                    furthest = slider
            del drawn[:]
            want = list(range(slider + step, count, step))
            if not sized:
                want = [i for i in want if i > furthest]
            click(v.bplay if p == "play" else v.bfast)
            ctx.ok(not v.playing, "still playing")
            ctx.ok(len(drawn) == len(want), "%s from %d shows %d frames, expected %d" % (p, slider, len(drawn), len(want)))
            for a, i in zip(drawn, want):
                ctx.close(a, fn(x[i, cid]), "frame %d when playing" % i, tol=0)
            while slider + step < count:
                slider += step
            ctx.label(p)
        elif p == "stop":
            click(v.bstop)
        elif p == "next":
            slider = min(slider + 1, count - 1)
            click(v.bnext)
        elif p == "prev":
            slider = max(slider - 1, 0)
            click(v.bprev)
        elif p == "n2":
            slider = min(slider + step, count - 1)
            click(v.bnext2)
        elif p == "p2":
            slider = max(slider - step, 0)
            click(v.bprev2)
        else:
            slider = min(p, count - 1) if p >= 0 else max(count + p, 0)
            v.sframe.set_val(slider)
        ctx.ok(int(v.sframe.val) == slider, "position %s, expected %d" % (v.sframe.val, slider))
        if sized:
            shown = slider
        elif slider > furthest:
            shown = furthest = slider     # an iterator cannot go back
        frame_ok(shown, "after %s" % p)
    ctx.label(c["src"])
    return len(c["pos"]) > 1 and n > 2


def click(b):
    b._observers.process("clicked", None)


if __name__ == "__main__":
    raise SystemExit(harness.main("C21", [
        harness.Sub("viewers", view_cases(), check_view, 400, 12000, "more than one wave vector averaged"),
        harness.Sub("plots", view_cases(gui=True), check_view, 60, 1500, "more than one wave vector averaged"),
        harness.Sub("arrays", arr_cases(), check_arr, 120, 4000, "axes selected in data of more than one element"),
        harness.Sub("video", video_cases(), check_video, 25, 600, "more than two frames, more than one move"),
    ], assumptions=["half-plane data; a ring which contains both directions of an element of the Nyquist row is not compared; frames of fast forward: every count//100-th",
                    "normalization, folding, log-averaging and merging are those of the public functions (decided by C06, C07, C11, C25)", "single-camera background whose first dimension is 2 is left out: known finding single_dim2 of C06"]))
