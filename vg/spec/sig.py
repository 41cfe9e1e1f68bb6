"""Documented definitions of the signal-processing helpers."""
import numpy as np
import pandas as pd
import scipy.optimize
from scipy.interpolate import interp1d
import scipy.signal
from scipy import signal


def raw_xcorr(a, b):
    return scipy.signal.correlate(a, b)


def corr(a, b, scaling):
    n = len(a)
    lags = scipy.signal.correlation_lags(len(a), len(b))
    if scaling == 'none':
        return raw_xcorr(a, b), lags
    if scaling == 'energy' or scaling == 'unbiased_energy':
        c = raw_xcorr(a, b) / np.max(raw_xcorr(a, a))
    else:
        c = raw_xcorr(a - np.mean(a), b - np.mean(b)) / (n * np.std(a) * np.std(b))
    if scaling == 'unbiased_energy' or scaling == 'unbiased_coeff':
        c = c * n / (n - np.abs(lags))
    return c, lags


def seconds(s):
    return (s.index[1] - s.index[0]).total_seconds()


def delay_by_xcorr(a, b, scaling):
    """delay of b relative to a, in seconds: minus the lag of the correlation peak"""
    c, lags = corr(a, b, scaling)
    k = c.argmax()
    return -lags[k] * seconds(a), c[k]


def pair_delay(a, b, scaling, dt):
    """one pair of 1d arrays: delay, peak, mean, zero-lag correlation"""
    n = len(a)
    lags = scipy.signal.correlation_lags(n, n)
    if scaling == 'coeff':
        a0 = a - np.mean(a)
        b0 = b - np.mean(b)
        k = 1 / (n * np.std(a0) * np.std(b0))
    else:
        a0 = a
        b0 = b
        k = 1
    c = raw_xcorr(a0, b0)
    p = c.argmax()
    peak = c[p] * k
    d = -lags[p] * dt
    if peak < 1e-10:
        d = 0
    return d, peak, np.mean(c) * k, c[n - 1] * k


def psd(sig, navgs, overlap, window, detrend, scaling):
    x = sig.values
    nper = int(x.shape[0] // navgs)
    f, p = signal.welch(x.T, fs=1 / seconds(sig), window=window, nperseg=nper, noverlap=int(nper * overlap), detrend=detrend, scaling=scaling)
    return pd.DataFrame(p.T, index=f, columns=sig.columns)


def tf(a, b, fs, navgs, overlap, window, detrend):
    """one pair of 1d arrays: input a, output b"""
    nper = int(len(a) // navgs)
    kw = dict(fs=fs, window=window, nperseg=nper, noverlap=int(nper * overlap), detrend=detrend)
    f, pxx = signal.welch(a, **kw)
    f, pyy = signal.welch(b, **kw)
    f, pxy = signal.csd(a, b, **kw)
    return f, pxy / pxx, np.abs(pxy) ** 2 / (pxx * pyy)


def tf_frame(x, y, navgs, overlap, window, detrend):
    """frames with equal number of columns, or one of them with a single column"""
    a = x.values
    bb = y.values
    nper = int(a.shape[0] // navgs)
    kw = dict(fs=1 / seconds(x), window=window, nperseg=nper, noverlap=int(nper * overlap), detrend=detrend)
    f, pxx = signal.welch(a.T, **kw)
    f, pyy = signal.welch(bb.T, **kw)
    f, pxy = signal.csd(a.T, bb.T, **kw)
    return f, (pxy / pxx).T, (np.abs(pxy) ** 2 / (pxx * pyy)).T


def pair_name(a, b):
    return f'{a}_{b}'


def mask(f, coh, coh_limit, freq_limit):
    """usable frequency bins of one transfer function (1d arrays)"""
    ok = np.ones(len(f), dtype=bool)
    if coh_limit is not None:
        ok = np.bitwise_and(ok, coh > coh_limit)
    if freq_limit is not None:
        ok = np.bitwise_and(ok, f < freq_limit)
    return ok


def line(x, d):
    return -2 * np.pi * x * d


def fit_delay(f, h, ok):
    """slope of the unwrapped phase over the usable bins"""
    if not ok.any():
        return np.nan
    return scipy.optimize.curve_fit(line, f[ok], np.unwrap(np.angle(h[ok])))[0].item()


def diff_delay(f, h, ok):
    """mean group delay over the usable bins"""
    ph = np.unwrap(np.angle(h))
    g = -np.diff(ph) / np.diff(f) / (2 * np.pi)
    g = np.append(g, g[-1])
    return np.sum(g * ok) / np.sum(ok)


def summed_residual(d, f, ph, ok):
    return np.nansum((ph + 2 * np.pi * f * d) * ok, axis=0)


def multi_delay(f, h, coh, coh_limit, freq_limit):
    """all pairs at once: bins by pairs"""
    low = np.ones(len(f), dtype=bool)
    if freq_limit is not None:
        low = f < freq_limit
    good = np.ones((len(f), h.shape[1]), dtype=bool)
    if coh_limit is not None:
        good = coh > coh_limit
    ph = np.unwrap(np.angle(h[low, :]), axis=0)
    best, cov = scipy.optimize.leastsq(summed_residual, np.zeros((1, h.shape[1])), args=(np.expand_dims(f[low], axis=1), ph, good[low, :]))
    best[np.all(np.isnan(h), axis=0)] = np.nan
    return best


def any_of(ok):
    return bool(ok.any())


def mean_low_coherence(f, coh, freq_limit):
    low = f < freq_limit
    return np.nansum(coh[low, :], axis=0) / np.sum(low)


def corr_extras(a, b, delay, dt):
    """one pair: correlation (coeff scaling) interpolated at the given delay, its mean, its zero-lag value"""
    c, lags = corr(a, b, 'coeff')
    return np.interp(-delay, lags * dt, c, left=np.nan, right=np.nan), np.mean(c), c[len(a) - 1]


# ---------------------------------------------------------------- filters
def delayed(h, f, delay):
    return h * np.exp(-2j * np.pi * f * delay)


def axis_1d(xmax, dx):
    return np.arange(-xmax // 2, xmax // 2, dx)


def plant_square(x, centers, w):
    c = np.expand_dims(centers, axis=0)
    xx = np.expand_dims(x, axis=1)
    inside = np.bitwise_and(xx >= c - w / 2, xx < c + w / 2)
    return np.where(np.any(inside, axis=1), 1, 0)


def plant_gaussian(x, centers, w):
    c = np.expand_dims(centers, axis=0)
    xx = np.expand_dims(x, axis=1)
    return np.sum(np.exp(-(xx - c) ** 2 / (2 * (w / 2.355) ** 2)), axis=1)


def plant_triangle1(x, c, w):
    inside = np.bitwise_and(x >= c - w / 2, x < c + w / 2)
    return np.where(inside, x - c + w / 2, 0)


def cam(plant, x, speed):
    """spectrum of the normalised plant over f = speed / wavelength, referred to x = 0;
    clouds moving towards negative x see the mirrored plant"""
    k = len(plant)
    dt = (x[1] - x[0]) / np.abs(speed)
    f = np.fft.fftfreq(k, dt)
    h = np.fft.fft(plant / np.sum(plant)) * np.exp(2j * np.pi * f * np.min(x) / np.abs(speed))
    if speed > 0:
        return f, h
    return f, np.conj(h)


def marcos(s, f):
    """first-order low pass with cutoff 0.02 / sqrt(area)"""
    return 1 / (1 + 1j * f * np.sqrt(s) / 0.02)


def marcos_default():
    return np.linspace(0, 0.5, 100)


def along(e, n, e0, n0, dx, dy):
    return ((e - e0) * dx + (n - n0) * dy) / np.sqrt(dx ** 2 + dy ** 2)


def resample_tf(f, h, fn):
    """one transfer function: magnitude and unwrapped phase interpolated separately"""
    o = np.argsort(f)
    g = interp1d(f[o], np.abs(h[o]))(fn)
    p = interp1d(f[o], np.unwrap(np.angle(h[o])))(fn)
    return g * np.exp(1j * p)


def filtered(x, f, h, dt):
    fv = np.fft.fftfreq(len(x), dt)
    return np.real(np.fft.ifft(np.fft.fft(x) * resample_tf(f, h, fv)))


def axis_max(n, dt):
    return np.max(np.fft.fftfreq(n, dt))


def half(k):
    return k // 2


def too_high(x, f, dt):
    return np.max(np.fft.fftfreq(len(x), dt)) > np.max(f)
