"""Documented behaviour of the cloud motion vector routines."""
import itertools
import numpy as np
from scipy.optimize import minimize_scalar, leastsq, linear_sum_assignment, shgo
from scipy.stats import linregress
from solarspatialtools import signalproc
from solarspatialtools.cmv import Flag


def pairs_of(ids, refs):
    """every unordered pair of sites, a site with itself included, one of which is a reference"""
    return np.array([p for p in itertools.combinations_with_replacement(ids, 2) if p[0] in refs or p[1] in refs])


def all_pairs(ids, replacement):
    return np.array(list(itertools.combinations_with_replacement(ids, 2) if replacement else itertools.combinations(ids, 2)))


def must_pairs(ids, refs, replacement):
    ps = itertools.combinations_with_replacement(ids, 2) if replacement else itertools.combinations(ids, 2)
    return np.array([p for p in ps if p[0] in refs or p[1] in refs])


def lags(ts, pairs, backend):
    A, B = ts[pairs[:, 0]], ts[pairs[:, 1]]
    if backend == 'tf':
        d, x = signalproc.compute_delays_tf(A, B, navgs=5, coh_limit=0.6, freq_limit=0.02, method='multi', overlap=0.5,
                                            window='hamming', compute_xcorr=True)
        return A, B, d, x['peak_corr'], x['mean_corr'], x['zero_corr'], x['mean_coh']
    d, x = signalproc.compute_delays(A, B, 'loop', scaling='coeff')
    return A, B, d, x['peak_corr'], x['mean_corr'], x['zero_corr'], None


def offsets(pos, pairs):
    """displacement from the first to the second site of a pair"""
    return pos.loc[pairs[:, 1]].values - pos.loc[pairs[:, 0]].values


def qc(pairs, dist, A, B, lag, peak, mean, method, ktlim, var_s_lim, mincorr, vmin, vmax):
    """flag of each pair; the last rule that applies decides"""
    f = np.where(pairs[:, 0] == pairs[:, 1], Flag.SAME, Flag.GOOD)
    f = np.where((A.std(axis=0, ddof=0).values < 0.001) | (B.std(axis=0, ddof=0).values < 0.001), Flag.NOSIGNAL, f)
    f = np.where(lag == 0, Flag.NOLAG, f)
    f = np.where(np.isnan(peak) | np.isnan(mean), Flag.LOWCORR, f)
    f = np.where((A.max().values < ktlim) | (B.max().values < ktlim), Flag.OVERCAST, f)
    if method == 'jamaly':
        va = 1 - A.mean().values / A.max().values
        vb = 1 - B.mean().values / B.max().values
        f = np.where((va < var_s_lim) | (vb < var_s_lim), Flag.LOWVAR_S, f)
        f = np.where((peak < mincorr) | (1 - mean / peak < mincorr), Flag.LOWCORR, f)
        speed = np.abs(dist / lag)
        f = np.where((vmin < speed) & (speed < vmax), f, Flag.VELLIMIT)
    return f


def thin(f, peak):
    """gagne: the strictest correlation level that leaves twelve good pairs, at least 0.9"""
    good = f == Flag.GOOD
    if np.sum(good & (peak >= 0.99)) >= 12:
        lim = 0.99
    elif np.sum(good & (peak >= 0.95)) >= 12:
        lim = 0.95
    else:
        lim = 0.9
    enough = np.sum(good & (peak >= 0.9)) >= 12
    return np.where(peak >= lim, f, Flag.LOWCORR), enough


def along(vecs, angle):
    return vecs[:, 0] * np.cos(angle) + vecs[:, 1] * np.sin(angle)


def speeds(angle, lag, vecs):
    v = along(vecs, angle) / lag
    return np.where(np.isinf(v), np.nan, v)


def jamaly(lag, vecs):
    """direction of least spread of the pairwise speeds; median speed"""
    o = minimize_scalar(lambda th, lg, vs: np.nanvar(speeds(th, lg, vs)), args=(lag, vecs))
    v = speeds(o.x, lag, vecs)
    return np.nanmedian(v), o.x, v


def gagne(lag, vecs):
    """least squares slowness vector"""
    s, ier = leastsq(lambda p, lg, vs: lg - (vs[:, 0] * p[0] + vs[:, 1] * p[1]), np.array([1, 1]), args=(lag, vecs))
    q = s[0] ** 2 + s[1] ** 2
    vx, vy = s[0] / q, s[1] / q
    return np.sqrt(vx ** 2 + vy ** 2), np.arctan2(vy, vx), ier


def polar(speed, angle):
    return np.where(speed < 0, -speed, speed), np.where(speed < 0, angle + np.pi, angle) % (2 * np.pi)


def few(good):
    return np.sum(good) < 2


def allbad():
    return Flag.ALLBAD


def coincident(pairs, f):
    return np.any((pairs[:, 0] == pairs[:, 1]) & (f == Flag.GOOD))


def trend(lag, vecs):
    s, th, v = jamaly(lag, vecs)
    v60, v40 = np.nanpercentile(v, 60), np.nanpercentile(v, 40)
    return v60, v40, (v60 - v40) / s, v


def fit(lag, vecs):
    s, th, v = jamaly(lag, vecs)
    r = linregress(lag, along(vecs, th))
    return r


def pick(x, ok):
    return x[ok]


def is_good(f):
    return f == Flag.GOOD


def subset(x, y, n):
    """pick n vectors closest to evenly spaced directions over half a turn, the spacing turned for best match"""
    size = np.sqrt(x ** 2 + y ** 2)
    ux, uy = x / size, y / size

    def match(a):
        t = np.arange(0, n) / n * np.pi + a
        d = -np.abs(np.cos(t)[:, None] * ux[None, :] + np.sin(t)[:, None] * uy[None, :])
        r, c = linear_sum_assignment(d)
        return d[r, c].sum(), c

    best = shgo(lambda a: match(a)[0], [(0, np.pi / n)])
    return match(best.x[0])[1]


def distances(vecs):
    return np.sqrt(vecs[:, 0] ** 2 + vecs[:, 1] ** 2)


def ngood(good):
    return np.sum(good)


def is_trend(e):
    return np.abs(e) > 0.4


def trend_flag(bad):
    return Flag.TREND if bad else Flag.GOOD


def enough_flag(ok):
    return Flag.GOOD if ok else Flag.ALLBAD


def var_ratio(A):
    return 1 - A.mean().values / A.max().values




def turn(a):
    return a % (2 * np.pi)


def unless(skip, x):
    return 0 if skip else x


def unless_entry(skip, d, k):
    return 0 if skip else d[k]
