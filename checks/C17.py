"""C17: Brownian walk, coordinate folding and transforms, particle videos."""
import math
import numpy as np
from hypothesis import strategies as st
from vlib import defaults, harness, gen, simref
from cddm import sim
from cddm._sim_nb import mirror
defaults.wrap(globals())

box = st.lists(st.one_of(st.integers(1, 40), st.sampled_from([64, 256])), min_size=2, max_size=2)


def wrap(d, L):
    """difference of coordinates to the nearest image"""
    return (d + L / 2.) % L - L / 2.


@st.composite
def det_cases(draw):
    c = {"shape": draw(box), "N": draw(st.integers(1, 5)), "count": draw(st.sampled_from([3, 1, 8, 0, 2])), "dt": draw(st.sampled_from([1, 0.5, 2, 0.1])), "s": draw(st.integers(0, 10 ** 6)),
         "v": draw(st.lists(st.sampled_from([0., 0.25, 1., -1., 0.7, -3.3, 17.]), min_size=2, max_size=2)), "how": draw(st.sampled_from(["pair", "pair", "array", "callable", "scalar"])),
         "x0": draw(st.sampled_from(["inside", "outside", "edge", "list"])), "fn": draw(st.sampled_from(["walk", "particles"]))}
    return c


def start(c, rs):
    L = np.array(c["shape"], float)
    x0 = rs.rand(c["N"], 2) * L
    if c["x0"] == "outside":
        x0 = x0 + rs.randint(-3, 4, x0.shape) * L
    elif c["x0"] == "edge":
        x0 = rs.randint(0, 2, x0.shape) * L
    return x0


def check_det(c, ctx):
    """without diffusion: exact advance by velocity times time step"""
    L = np.array(c["shape"], float)
    rs = np.random.RandomState(c["s"])
    x0 = start(c, rs)
    keep = x0.copy()
    v = np.array(c["v"])
    if c["how"] == "array":
        vel = v + rs.randn(c["N"], 2)
        step = lambda x: vel
        arg = vel
    elif c["how"] == "callable":
        step = lambda x: np.stack([0.1 * x[:, 1], -0.05 * x[:, 0]], 1) + v
        arg = step
    elif c["how"] == "scalar" and c["fn"] == "particles":
        arg = c["v"][0]
        step = lambda x: np.full((c["N"], 2), arg)
    else:
        arg = tuple(c["v"])
        step = lambda x: np.tile(v, (c["N"], 1))
    a0 = x0.tolist() if c["x0"] == "list" else x0
    if c["fn"] == "walk":
        it = sim.brownian_walk(a0, count=c["count"], shape=tuple(c["shape"]), delta=0, dt=c["dt"], velocity=arg)
    else:
        it = sim.brownian_particles(count=c["count"], shape=tuple(c["shape"]), num_particles=c["N"], delta=0., dt=c["dt"], velocity=arg, x0=a0)
    got = [np.array(x) for x in it]
    ctx.ok(len(got) == c["count"], "%d frames, expected %d" % (len(got), c["count"]))
    ctx.equal(x0, keep, "initial coordinates modified")
    ref = x0
    for t, x in enumerate(got):
        ctx.ok(x.shape == (c["N"], 2), "shape")
        ctx.ok(((x >= 0) & (x < L)).all(), "outside of the box at step %d: %s" % (t, x.tolist()))
        if t:
            ref = got[t - 1] + step(got[t - 1]) * c["dt"]
        d = wrap(x - ref, L)
        ctx.ok((np.abs(d) <= 1e-9 * (1 + np.abs(ref))).all(), lambda: "step %d: at %s, expected %s modulo the box" % (t, x.tolist(), ref.tolist()))
    ctx.label(c["how"])
    return c["count"] > 1 and any(c["v"])


@st.composite
def rnd_cases(draw):
    return {"N": draw(st.sampled_from([50, 20, 3, 2, 1])), "shape": draw(st.sampled_from([[200, 100], [64, 256], [50, 50]])), "seed": draw(st.integers(0, 10 ** 6)), "dt": draw(st.sampled_from([1, 0.25, 4.])),
            "delta": draw(st.sampled_from([1., 0.3, 2.])), "how": draw(st.sampled_from(["float", "float", "callable", "position"])), "v": draw(st.lists(st.sampled_from([0., 1., -0.5]), min_size=2, max_size=2)), "vcall": draw(st.booleans())}


def check_rnd(c, ctx):
    """displacements: mean velocity*dt, standard deviation delta*sqrt(dt), independent"""
    L = np.array(c["shape"], float)
    N = c["N"]
    steps = max(3, 3000 // N)
    per = np.linspace(0.5, 1.5, N) * c["delta"] if c["how"] == "callable" else np.full(N, c["delta"])
    v = np.array(c["v"])
    spread = lambda x: c["delta"] * np.where(x[:, 0] < L[0] / 2, 0.5, 1.25)  # a half of the box is more viscous
    delta = {"float": c["delta"], "callable": lambda x: per, "position": spread}[c["how"]]

    def run(seed):
        sim.seed(seed)
        x0 = np.random.rand(N, 2) * L
        return x0, np.array(list(sim.brownian_walk(x0, count=steps + 1, shape=tuple(c["shape"]), dt=c["dt"], delta=delta,
                                                   velocity=(lambda x: np.tile(v, (N, 1))) if c["vcall"] else tuple(c["v"]))))
    x0, x = run(c["seed"])
    ctx.equal(run(c["seed"])[1], x, "the same seed")
    ctx.ok(not np.array_equal(run(c["seed"] + 1)[1][1:], x[1:]), "another seed gives the same walk")
    ctx.close(x[0], x0, "initial coordinates", scale=1, tol=1e-12)
    ctx.ok(((x >= 0) & (x < L)).all(), "outside of the box")
    size = np.array([spread(p) for p in x[:-1]]) if c["how"] == "position" else per[None]
    z = wrap(np.diff(x, axis=0) - v * c["dt"], L) / (size[:, :, None] * math.sqrt(c["dt"]))
    # z are independent standard normal numbers; six standard errors
    n = z.size
    ctx.ok(abs(z.mean()) < 6 / math.sqrt(n), "mean displacement differs from velocity*dt by %.3g sigma" % z.mean())
    ctx.ok(abs(z.var() - 1) < 6 * math.sqrt(2. / n), "variance of displacements is %.3g of the requested" % z.var())
    for k in range(2):
        m = z[..., k].size
        ctx.ok(abs(z[..., k].var() - 1) < 6 * math.sqrt(2. / m), "variance of coordinate %d is %.3g of the requested" % (k, z[..., k].var()))
        ctx.ok(abs(z[..., k].mean()) < 6 / math.sqrt(m), "mean of coordinate %d" % k)
    cov = (z[..., 0] * z[..., 1]).mean()
    ctx.ok(abs(cov) < 6 / math.sqrt(n / 2), "coordinates are correlated: %.3g" % cov)
    cov = (z[1:] * z[:-1]).mean()
    ctx.ok(abs(cov) < 6 / math.sqrt(z[1:].size), "steps are correlated: %.3g" % cov)
    if N > 1:
        vp = (z ** 2).mean(axis=(0, 2))
        ctx.ok((np.abs(vp - 1) < 7 * math.sqrt(2. / (2 * steps)) + 20. / steps).all(), lambda: "variance of particles %s of the requested" % vp[:5])
        cov = (z[:, 1:] * z[:, :-1]).mean()
        ctx.ok(abs(cov) < 6 / math.sqrt(z[:, 1:].size), "particles are correlated: %.3g" % cov)
    ctx.label(c["how"])
    return True


@st.composite
def mirror_cases(draw):
    return {"x": draw(st.lists(st.one_of(st.floats(-500, 500), st.integers(-40, 40)), min_size=1, max_size=6)), "x0": draw(st.sampled_from([0, 0, 0, 1.5, -3])), "L": draw(st.one_of(st.integers(1, 64), st.floats(0.5, 100)))}


def check_mirror(c, ctx):
    x = np.array(c["x"], float)
    x0, x1 = float(c["x0"]), c["x0"] + float(c["L"])
    got = mirror(x, x0, x1)
    ctx.ok(((got >= x0) & (got < x1)).all(), lambda: "%s not in [%g,%g)" % (got, x0, x1))
    d = wrap(got - x, x1 - x0)
    # every pass over the box rounds once
    ctx.ok((np.abs(d) <= 1e-12 * (1 + np.abs(x)) * (2 + np.abs(x) / (x1 - x0))).all(), lambda: "mirror(%s,%g,%g) = %s" % (x, x0, x1, got))
    inside = (x >= x0) & (x < x1)
    ctx.equal(got[inside], x[inside], "coordinates inside the box moved")
    return (~inside).any()


@st.composite
def trans_cases(draw):
    return {"shape": draw(box), "N": draw(st.integers(1, 4)), "s": draw(st.integers(0, 10 ** 6)), "off": draw(st.one_of(st.none(), st.lists(st.floats(-100, 100), min_size=2, max_size=2), st.just([0.5, -3]))),
            "rot": draw(st.one_of(st.none(), st.sampled_from([0., math.pi / 2, math.pi, -math.pi / 2]), st.floats(-7, 7))), "int": draw(st.booleans())}


def check_trans(c, ctx):
    L = np.array(c["shape"], float)
    rs = np.random.RandomState(c["s"])
    x = rs.rand(c["N"], 2) * L
    if c["int"]:
        x = np.floor(x).astype(int)
    keep = x.copy()
    got = sim.coordinate_transform(x, tuple(c["shape"]), offset=None if c["off"] is None else tuple(c["off"]), rotation=c["rot"])
    ctx.equal(x, keep, "coordinates modified")
    ctx.ok(((got >= 0) & (got < L)).all(), lambda: "outside of the frame: %s" % got.tolist())
    z = (x[:, 0] - L[0] / 2) + 1j * (x[:, 1] - L[1] / 2)
    z = z * np.exp(1j * (c["rot"] or 0.))
    off = c["off"] or [0., 0.]
    want = np.stack([z.real + L[0] / 2 + off[0], z.imag + L[1] / 2 + off[1]], 1)
    d = wrap(got - want, L)
    ctx.ok((np.abs(d) <= 1e-9 * (1 + np.abs(want).max())).all(), lambda: "%s transformed to %s, expected %s modulo the frame" % (x.tolist(), got.tolist(), want.tolist()))
    if c["rot"] is None and c["off"] is None:
        ctx.close(got, x.astype(float), "no transformation", tol=1e-12)
    return c["rot"] is not None and c["off"] is not None


@st.composite
def video_cases(draw):
    n = draw(st.sampled_from([3, 2, 5, 1, 4, 10]))
    gaps = lambda: st.tuples(st.sampled_from([0, 0, 25]), st.lists(st.integers(1, 4), min_size=n, max_size=n), st.integers(0, n - 1)).map(
        lambda x: [g + x[0] * (i == x[2]) for i, g in enumerate(x[1])])  # a camera may be many frames ahead of the other
    t1 = np.cumsum(draw(gaps())).tolist()
    t2 = np.cumsum(draw(gaps())).tolist()
    c = {"shape": draw(st.lists(st.integers(1, 12), min_size=2, max_size=2)), "N": draw(st.sampled_from([2, 1, 3, 4])), "t1": [int(t) - 1 for t in t1], "t2": draw(st.sampled_from([[int(t) - 1 for t in t2], None, "same"])),
         "bg": draw(st.sampled_from([0, 0, 3, 200])), "int": draw(st.sampled_from([5, 10, 10, 100, 255, 1])), "dt": draw(st.sampled_from(["uint8", "uint16"])), "sigma": draw(st.sampled_from([None, None, 0.5, 1., 3., "each"])),
         "off": draw(st.sampled_from([None, None, [1.5, -2.]])), "rot": draw(st.sampled_from([None, None, 0.3])), "s": draw(st.integers(0, 10 ** 6)), "extra": draw(st.integers(0, 3)),
         "tt": draw(st.sampled_from(["list", "array", "tuple"])), "simple": draw(st.booleans()), "delta": draw(st.sampled_from([0., 1.]))}
    if c["t2"] == "same":
        c["t2"] = c["t1"]
    return c


def check_video(c, ctx):
    H, W = c["shape"]
    shape = (H, W)
    tm = {"list": list, "array": np.array, "tuple": tuple}[c["tt"]]
    rs = np.random.RandomState(c["s"])
    last = max(c["t1"] + (c["t2"] or [])) + 1
    sigma = np.linspace(0.6, 2., c["N"]) if c["sigma"] == "each" else c["sigma"]
    kw = dict(shape=shape, background=c["bg"], intensity=c["int"], sigma=sigma, dtype=c["dt"], offset=c["off"], rotation=c["rot"])
    t1, t2 = tm(c["t1"]), (None if c["t2"] is None else tm(c["t2"]))
    if c["simple"] and c["N"] > 0:
        # the same seed, the same trajectory
        pk = dict(num_particles=c["N"], delta=c["delta"], velocity=0.2, dt=0.5)
        sim.seed(c["s"])
        pos = [np.array(p) for p in sim.brownian_particles(count=last, shape=shape, **pk)]
        ctx.ok(len(pos) == last and all(p.shape == (c["N"], 2) for p in pos), "number of particles")
        ctx.ok(all(((p >= 0) & (p < np.array(shape))).all() for p in pos), "outside of the box")
        sim.seed(c["s"])
        it = sim.simple_brownian_video(t1, t2, **dict(kw, **pk))
    else:
        pos = [rs.rand(c["N"], 2) * np.array(shape) for _ in range(last + c["extra"])]
        it = sim.particles_video(iter(pos), t1, t2=t2, **kw)
    keep = [p.copy() for p in pos]
    out = [tuple(np.array(f) for f in fr) for fr in it]
    n = len(c["t1"])
    ctx.ok(len(out) == n, "%d frames, expected %d" % (len(out), n))
    for p, q in zip(pos, keep):
        ctx.equal(p, q, "coordinates modified")
    for k, fr in enumerate(out):
        ctx.ok(len(fr) == (1 if c["t2"] is None else 2), "number of cameras")
        for cam, im in enumerate(fr):
            t = (c["t1"], c["t2"])[cam][k]
            p = pos[t]
            if cam == 0:
                p = sim.coordinate_transform(p, shape, offset=c["off"], rotation=c["rot"])
            ctx.ok(im.shape == shape and im.dtype == np.dtype(c["dt"]), "shape or dtype")
            bg = np.full(shape, c["bg"], c["dt"])
            if c["sigma"] is None:
                ctx.equal(im, simref.points(bg, p, [c["int"]] * c["N"]), "frame %d (time %d) of camera %d" % (k, t, cam + 1))
            else:
                simref.same_psf(ctx, im, bg, p, [c["int"]] * c["N"], np.broadcast_to(sigma, c["N"]), "frame %d (time %d) of camera %d" % (k, t, cam + 1))
    ctx.label("dual" if c["t2"] is not None else "single")
    return n > 1 and c["N"] > 0


SUBS = [
    harness.Sub("advance", det_cases(), check_det, 600, 10000, "more than one step, non-zero velocity"),
    harness.Sub("diffusion", rnd_cases(), check_rnd, 120, 1500, "all"),
    harness.Sub("mirror", mirror_cases(), check_mirror, 600, 10000, "a coordinate outside of the box"),
    harness.Sub("transform", trans_cases(), check_trans, 400, 8000, "rotation and offset given"),
    harness.Sub("video", video_cases(), check_video, 400, 6000, "more than one frame, at least one particle"),
]

if __name__ == "__main__":
    raise SystemExit(harness.main("C17", SUBS))
