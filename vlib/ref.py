"""Reference models in plain numpy, written from the documentation (no code of the package)."""
import numpy as np


def _pairs(t1, t2, n, cplx, auto=False):
    """Lists of (i, j, slot) of all frame pairs that contribute."""
    t1 = np.asarray(t1, dtype=object); t2 = np.asarray(t2, dtype=object)
    out = []
    for i in range(len(t1)):
        for j in range(i if auto else 0, len(t2)):
            d = int(t2[j]) - int(t1[i])
            if abs(d) < n:
                out.append((i, j, d))
    return out


def full_n_cross(t1, t2):
    return 1 + max(max(t2) - min(t1), max(t1) - min(t2))


def full_n_auto(t):
    return 1 + max(t) - min(t)


def cross(f1, f2, t1, t2, n, cplx=False, kind="corr"):
    """time along axis 0 of f1, f2; delay along the last axis of the result."""
    f1 = np.asarray(f1, np.complex128); f2 = np.asarray(f2, np.complex128)
    m = 2 * n - 1 if cplx else n
    out = np.zeros((m,) + f1.shape[1:], np.complex128 if cplx else np.float64)
    mag = np.zeros((m,) + f1.shape[1:])
    for i, j, d in _pairs(t1, t2, n, cplx):
        k = d if cplx else abs(d)
        if kind == "corr":
            v = np.conj(f1[i]) * f2[j]
            out[k] += v if cplx else v.real
        else:
            out[k] += np.abs(f2[j] - f1[i]) ** 2
        mag[k] += (np.abs(f1[i]) + np.abs(f2[j])) ** 2
    return np.moveaxis(out, 0, -1), np.moveaxis(mag, 0, -1)


def auto(f, t, n, cplx=False, kind="corr"):
    f = np.asarray(f, np.complex128)
    out = np.zeros((n,) + f.shape[1:], np.complex128 if cplx else np.float64)
    mag = np.zeros((n,) + f.shape[1:])
    for i, j, d in _pairs(t, t, n, cplx, auto=True):
        a, b = (i, j) if d >= 0 else (j, i)
        k = abs(d)
        if kind == "corr":
            v = np.conj(f[a]) * f[b]
            out[k] += v if cplx else v.real
        else:
            out[k] += np.abs(f[b] - f[a]) ** 2
        mag[k] += (np.abs(f[a]) + np.abs(f[b])) ** 2
    return np.moveaxis(out, 0, -1), np.moveaxis(mag, 0, -1)


def count_cross(t1, t2, n, cplx=False):
    out = np.zeros(2 * n - 1 if cplx else n, np.int64)
    for i, j, d in _pairs(t1, t2, n, cplx):
        out[d if cplx else abs(d)] += 1
    return out


def count_auto(t, n):
    out = np.zeros(n, np.int64)
    for i, j, d in _pairs(t, t, n, False, auto=True):
        out[abs(d)] += 1
    return out


def sum_cross(f, t, t_other, n, cplx=False, inv=False):
    """sum of f[i] over all pairs (i, j) with the delay t_other[j]-t[i] (signed if cplx)."""
    f = np.asarray(f)
    dt = np.complex128 if np.iscomplexobj(f) else np.float64
    f = f.astype(dt)
    m = 2 * n - 1 if cplx else n
    out = np.zeros((m,) + f.shape[1:], dt)
    mag = np.zeros((m,) + f.shape[1:])
    for i, j, d in _pairs(t, t_other, n, cplx):
        k = (-d if inv else d) if cplx else abs(d)
        out[k] += f[i]
        mag[k] += np.abs(f[i])
    return np.moveaxis(out, 0, -1), np.moveaxis(mag, 0, -1)


def sum_auto(f, t, n):
    f = np.asarray(f)
    dt = np.complex128 if np.iscomplexobj(f) else np.float64
    f = f.astype(dt)
    out = np.zeros((n,) + f.shape[1:], dt)
    mag = np.zeros((n,) + f.shape[1:])
    for i, j, d in _pairs(t, t, n, False, auto=True):
        out[abs(d)] += (f[i] + f[j]) / 2.
        mag[abs(d)] += np.abs(f[i]) + np.abs(f[j])
    return np.moveaxis(out, 0, -1), np.moveaxis(mag, 0, -1)


def analysis(x1, x2, t1, t2, n, cx=False, kind="corr", norm=7, q1=None, q2=None, keep=None):
    """Complete data tuple (time along axis 0 of x1, x2; x2 None: auto) by listing the frame pairs.

    keep(i, j): restricts the pairs. Returns (cor, count, sq, m1, m2), with None for parts not requested."""
    auto = x2 is None
    x1 = np.asarray(x1, np.complex128)
    x2 = x1 if auto else np.asarray(x2, np.complex128)
    q1 = np.abs(x1) ** 2 if q1 is None else q1
    q2 = (q1 if auto else np.abs(x2) ** 2) if q2 is None else q2
    t1 = np.asarray(t1, np.int64)
    t2 = t1 if auto else np.asarray(t2, np.int64)
    i, j = np.meshgrid(np.arange(len(t1)), np.arange(len(t2)), indexing="ij")
    i, j = i.ravel(), j.ravel()
    d = t2[j] - t1[i]
    ok = np.abs(d) < n
    if auto:
        ok &= (d > 0) | (i == j)
    i, j, d = i[ok], j[ok], d[ok]
    if keep is not None:
        ok = np.array([keep(int(a), int(b)) for a, b in zip(i, j)], bool)
        i, j, d = i[ok], j[ok], d[ok]
    full = cx and not auto
    m = 2 * n - 1 if full else n
    k = np.where(d >= 0, d, d + m) if full else np.abs(d)

    def acc(v, dt):
        out = np.zeros((m,) + x1.shape[1:], dt)
        np.add.at(out, k, v.astype(dt) if not (np.iscomplexobj(v) and dt is np.float64) else v.real)
        return np.moveaxis(out, 0, -1)
    if kind == "diff":
        cor = acc(np.abs(x2[j] - x1[i]) ** 2, np.float64)
    else:
        cor = acc(np.conj(x1[i]) * x2[j], np.complex128 if cx else np.float64)
    count = np.bincount(k, minlength=m).astype(np.int64)
    sq = acc(q1[i] + q2[j], np.float64) if norm & 2 and kind != "diff" else None
    m1 = m2 = None
    if norm & 4:
        if auto:
            m1 = acc((x1[i] + x1[j]) / 2., np.complex128)
        else:
            m1, m2 = acc(x1[i], np.complex128), acc(x2[j], np.complex128)
    return cor, count, sq, m1, m2


def stream_length(count, chunk):
    """frames processed by the iterative functions: the largest chunk * 2**k not above count"""
    n = chunk
    while 2 * n <= count:
        n *= 2
    return n


BIN_FIRST, BIN_MEAN, BIN_CHOOSE = 0, 1, 2


def bin2(y, binning):
    """halves the number of frames (axis 0)"""
    if y is None:
        return None
    if binning == BIN_MEAN:
        m = len(y) // 2
        return 0.5 * (y[0:2 * m:2] + y[1:2 * m:2])
    if binning == BIN_FIRST:
        return y[::2]
    raise ValueError


def default_nlevel(T, n):
    k = 0
    while T // 2 ** (k + 1) >= n:
        k += 1
    return k


def multitau(y1, y2, t1, t2, n, period, nlevel, binning, cx, kind, norm, keep=None):
    """keep: function of (level, i, j)"""
    q1, q2 = np.abs(y1) ** 2, None if y2 is None else np.abs(y2) ** 2
    kp = (lambda l: None) if keep is None else (lambda l: (lambda i, j: keep(l, i, j)))
    fast = analysis(y1, y2, t1, t2, n * period, cx, kind, norm, q1, q2, kp(0))
    slow = []
    for l in range(nlevel):
        y1, y2, q1, q2 = [bin2(v, binning) for v in (y1, y2, q1, q2)]
        t = np.arange(len(y1))
        slow.append(analysis(y1, y2, t, t, n, cx, kind, norm, q1, q2, kp(l + 1)))
    return fast, stack(slow, fast, n, cx and y2 is not None)


def stack(slow, fast, n, full):
    out = []
    m = 2 * n - 1 if full else n
    for k in range(5):
        if fast[k] is None:
            out.append(None)
        elif slow:
            out.append(np.stack([s[k] for s in slow]))
        else:
            out.append(np.zeros((0,) + fast[k].shape[:-1] + (m,), fast[k].dtype))
    return tuple(out)
