"""Documented behaviour of the cloud field generator."""
import numpy as np
import pvlib
from scipy.interpolate import RegularGridInterpolator
from scipy.ndimage import sobel, uniform_filter
from solarspatialtools.stats import variability_score


def noise(a, b, p, q):
    """draws on an a by b grid over the unit square, linearly interpolated to p by q points"""
    z = np.random.rand(a, b)
    if a == 1:
        z = np.concatenate([z, z], axis=0)
    if b == 1:
        z = np.concatenate([z, z], axis=1)
    f = RegularGridInterpolator((np.linspace(0, 1, max(a, 2)), np.linspace(0, 1, max(b, 2))), z, method='linear')
    x, y = np.meshgrid(np.linspace(0, 1, p), np.linspace(0, 1, q), indexing='ij')
    return f((x, y))


def vs_weights(scales, vs):
    w = scales ** (1 / (-np.log(1 - vs / 180) / 0.6))
    return w / np.sum(w)


def wavelet_weights(waves):
    e = np.nanmean(waves ** 2, axis=1)
    return e / np.sum(e)


def cells(scale, n):
    """grid cells at a scale: one per 2**(scale-1) pixels"""
    return int(n * 2.0 ** (1 - scale))


def normalized(f):
    g = f - np.min(f)
    return g / np.max(g)


def clear(field, frac):
    if frac == 0:
        return np.zeros_like(field)
    return np.where(field > np.quantile(field, frac), 0.0, 1.0)


def edges(mask):
    return np.abs(sobel(mask, 0) ** 2 + sobel(mask, 1) ** 2)


def broad(e, size, thr):
    s = uniform_filter(e, size=size)
    s = np.where(s < 1e-5, 0, s)
    return s / np.max(s) > thr


def lave(field, clear, edge, ktmean, ktmax, kt1pct, q):
    top = np.quantile(field[clear == 0], q)
    c = np.minimum(np.maximum(1 - field * (1 - kt1pct) / top, 0), 1)
    lo = np.min(c)
    ce = 1 + (c - lo) / (np.max(c) - lo) * (ktmax - 1)
    cloud = (clear == 0) & (edge == 0)
    need = field.size * ktmean - np.sum(clear) - np.sum(ce[(edge > 0) & (clear == 0)])
    d = c * (need / np.sum(cloud) / np.mean(c[cloud])) if need > 0 else c
    return np.where(clear > 0, 1, np.where(edge > 0, ce, d))


def basic(field, clear, edge, ktmean, ktmax, kt1pct, q, flip, smooth):
    hi = np.quantile(field[clear == 0], q)
    lo = np.quantile(field[clear == 0], 1 - q)
    f = (field - lo) / (hi - lo)
    f = np.where(f > 1, 2 - f, f)
    f = np.where(f < 0, -f, f)
    if flip:
        f = 1 - f
    ce = 1 + f * (ktmax - 1)
    cl = 1 if smooth is None else smooth + f * (1 - smooth)
    cloud = (clear == 0) & (edge == 0)
    rest = np.where(clear > 0, cl, np.where(edge > 0, ce, 0))
    base = kt1pct * np.sum(cloud)
    need = field.size * ktmean - np.sum(rest) - base
    have = np.sum(f[cloud])
    if 0 < need < have and have > base:
        g = f * need / have + kt1pct
    else:
        g = f * (1 - kt1pct) + kt1pct
    return np.where(cloud, g, rest)


def mask01(b):
    return np.where(b, 1.0, 0.0)


def sample(pos, field, speed, duration, pixres):
    """the pixels from the east offset on (one more than the duration holds), at the north offset"""
    x = int(pos[0] / speed / pixres)
    y = int(pos[1] / speed / pixres)
    return field[x:x + int(duration / pixres) + 1, y]


def plus(tot, z, w):
    return tot + z * w


def stats(kt, thr):
    waves, scales = pvlib.scaling._compute_wavelet(kt)
    return [np.mean(kt), np.nanquantile(kt, 0.01), np.max(kt), np.sum(kt > thr) / kt.size, variability_score(kt) * 10000,
            wavelet_weights(waves[:-1, :]), [i + 1 for i, _ in enumerate(scales[:-1])]]


def off_target(field, frac):
    """the mask does not cover the requested fraction to one in a thousand"""
    got = np.sum(clear(field, frac)) / field.size
    return not (abs(frac - got) <= 1e-8 + 0.001 * abs(got))
