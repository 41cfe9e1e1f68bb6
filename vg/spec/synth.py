"""Documented behaviour of the synthetic irradiance routines."""
import numpy as np
from scipy.stats import norm
from solarspatialtools import spatial


def sigmoid(x, a, c):
    return 1 / (1 + np.exp(-a * (x - c)))


def decay(k, p):
    q = p * k * (1 - k)
    return np.where(q < 1e-5, 1e-5, q)


def draw(n, cov, seed):
    """uniform marginals of normal draws with the given covariance"""
    g = np.random.default_rng(seed)
    return norm.cdf(g.multivariate_normal(mean=np.zeros(len(cov)), cov=cov, size=n))


def params(mean, comp, mu, clear, cloud, q):
    """weights, means and variances of the cloudy (first) and clear component; decay parameter"""
    w2 = comp[0] * sigmoid(mean, comp[1], comp[2])
    w1 = 1 - w2
    m2 = mu[0] * w1 * mean + mu[1] * w2 * (mean - mu[2])
    m1 = (mean - w2 * m2) / w1
    s2 = clear[0] * (1 - sigmoid(mean, clear[1], clear[2]))
    s1 = cloud[0] * sigmoid(mean, cloud[1], cloud[2])
    return [m1, m2], [w1, w2], [s1 ** 2, s2 ** 2], decay(mean, q)


def density(x, mu, var, w):
    return np.sum([a / np.sqrt(2 * np.pi * v) * np.exp(-(x - m) ** 2 / (2 * v)) for m, v, a in zip(mu, var, w)], axis=0)


def loglik(x, mu, var, w):
    """the density through its logarithm (not defined for negative weights summing below zero)"""
    return np.exp(np.log(density(x, mu, var, w)))


def running(pdf):
    c = np.cumsum(pdf)
    return c / c.max()


def inverse(x, cdf, r):
    """the value at which the distribution reaches r; the range is closed at -2 and 2"""
    f, i = np.unique(cdf, return_index=True)
    return np.interp(r, np.concatenate([[0.0], f, [1.0]]), np.concatenate([[-2.0], x[i], [2.0]]))


def inverse_rows(x, cdf, r):
    return inverse(x, cdf, r.reshape(-1)).reshape(r.shape)


def correlation(dist, p):
    return np.exp(-p * dist)


def cells(flat, ns, nt):
    """site-major sequence to one row per time, one column per site"""
    return flat.reshape(ns, nt).T


def adjusted(cm, mean, scale, noneg):
    if noneg:
        cm = np.where(cm < 0, 0, cm)
    if scale:
        cm = cm * (mean / cm.mean())
    return cm


def grid():
    return np.arange(-2, 2, 0.01)


def hour(times, e, n, spd, dir, mean, p, seed, scale, noneg):
    """one hour: quantiles of the running distribution at correlated uniform draws, site-major, one row per time"""
    mu, w, var, k = params(mean, p['comp'], p['mean'], p['sdevClear'], p['sdevCloud'], p['corr_quadr'])
    x = grid()
    dist = spatial.spacetime_distances(e, n, times, spd, dir)
    u = draw(1, correlation(dist, k), seed)
    s = inverse(x, running(loglik(x, mu, var, w)), u.reshape(-1))
    return adjusted(cells(s, len(e), len(times)), mean, scale, noneg)


def stack(rows):
    return np.concatenate(rows, axis=0)
