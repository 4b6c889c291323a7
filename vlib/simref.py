"""Reference drawing for the simulator, in plain numpy."""
import math
import numpy as np


def points(im, pos, inten):
    out = im.astype(int)
    for (i, j), v in zip(pos, inten):
        out[int(i), int(j)] += int(v)
    return out % (np.iinfo(im.dtype).max + 1)


def psf(im, pos, inten, sigma):
    """-> (lowest, highest) possible image: a pixel value truncated to integer is ambiguous if the
    (floating point) value is within rounding of an integer"""
    H, W = im.shape
    lo, hi = im.astype(int), im.astype(int)
    size = int(round(3 * max(sigma)))  # the function is cut at three times the (largest) sigma
    for (i, j), v, s in zip(pos, inten, sigma):
        for a in range(int(i) - size, int(i) + size + 1):
            for b in range(int(j) - size, int(j) + size + 1):
                p = v * math.exp(-0.5 * ((a - i + 0.5) ** 2 + (b - j + 0.5) ** 2) / s ** 2)
                lo[a % H, b % W] += math.floor(p - 1e-9)  if p > 1e-9 else 0
                hi[a % H, b % W] += math.floor(p + 1e-9)
    return lo, hi


def same_psf(ctx, got, im, pos, inten, sigma, msg):
    lo, hi = psf(im, pos, inten, sigma)
    mod = np.iinfo(im.dtype).max + 1
    d = (got.astype(int) - lo) % mod
    bad = d > hi - lo
    if bad.any():
        i, j = np.argwhere(bad)[0]
        ctx.fail("%s: pixel (%d,%d) is %d, expected %d" % (msg, i, j, got[i, j], lo[i, j] % mod))
