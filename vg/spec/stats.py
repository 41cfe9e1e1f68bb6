"""Documented definitions of the error and variability metrics."""
import numpy as np


def bias(b, e):
    return e - b


def absolute(b, e):
    return np.abs(e - b)


def squared(b, e):
    return (e - b) ** 2


def mbe(b, e):
    return np.mean(e - b)


def mae(b, e):
    return np.mean(np.abs(e - b))


def mse(b, e):
    return np.mean((e - b) ** 2)


def rmse(b, e):
    return np.sqrt(np.mean((e - b) ** 2))


def period(series, tau):
    dt = np.nanmedian(series.index.diff().total_seconds())
    return str(int(tau * dt)) + 's'


def darr(series, tau, moving_avg, pct):
    if moving_avg and tau > 1:
        x = series.resample(period(series, tau)).mean()
        k = 1
    else:
        x = series
        k = tau
    s = np.abs(x.diff(k)).sum(axis=0)
    if pct:
        s = s * 100 / 1000
    return s


def vscore(series, tau, moving_avg, pct):
    if moving_avg and tau > 1:
        x = series.resample(period(series, tau)).mean()
        k = 1
    else:
        x = series
        k = tau
    r = x.diff(k).abs()
    v = (r * (1 - r.rank(pct=True))).max(axis=0)
    if pct:
        v = v * 100 / 1000
    return v


def vindex(ghi, clearsky, tau, norm):
    if tau > 1:
        g = ghi.resample(period(ghi, tau)).mean()
        c = clearsky.resample(period(ghi, tau)).mean()
    else:
        g = ghi
        c = clearsky
    dt = np.nanmedian(g.index.diff().total_seconds()) / 60
    v = np.sqrt(g.diff() ** 2 + dt ** 2).sum(axis=0) / np.sqrt(c.diff() ** 2 + dt ** 2).sum(axis=0)
    if norm:
        v = v * np.sqrt(dt)
    return v
