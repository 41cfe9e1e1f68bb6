"""Documented behaviour of the field layout routines."""
import numpy as np
import pandas as pd
from scipy.optimize import linear_sum_assignment
from solarspatialtools import signalproc, cmv


def one_vector(df, pos, ref, vec, navgs, coh_limit, freq_limit, method):
    """distances along one cloud vector, one row per site of the position table"""
    d, x = signalproc.compute_delays_tf(df[ref], df[pos.index], navgs=navgs, coh_limit=coh_limit,
                                        freq_limit=freq_limit, method=method)
    vx, vy = vec
    speed = np.sqrt(vx ** 2 + vy ** 2)
    plan = -((pos['E'] - pos['E'].loc[ref]) * vx + (pos['N'] - pos['N'].loc[ref]) * vy) / speed
    t = pd.DataFrame(index=pos.index)
    t['plan_dist'] = plan
    t['delay_dist'] = -d * speed
    t['error_dist'] = -d * speed - plan.values
    t['delay'] = d
    t['coh'] = x['mean_coh']
    return t


def best(coh, n):
    """the n most coherent sites; the single best one is the reference with itself"""
    coh = coh[np.isfinite(coh)].sort_values()
    return coh.iloc[-n:-1].index


def select(a, b, pos, ref, mode, n):
    if mode == 'coherence' or mode == 'preavg':
        return best(a['coh'], n), best(b['coh'], n)
    if mode == 'global_coherence':
        ix = best(a['coh'] ** 2 + b['coh'] ** 2, n)
        return ix, ix
    if mode == 'distance':
        d = np.sqrt((pos['E'] - pos['E'].loc[ref]) ** 2 + (pos['N'] - pos['N'].loc[ref]) ** 2)
        ix = d.sort_values().iloc[:n].index
        return ix, ix
    return pos.index, pos.index


def cloud_vectors(dfs, pos):
    out = []
    for k in range(2):
        spd, th, det = cmv.compute_cmv(dfs[k], pos, method='jamaly')
        out.append((spd * np.cos(th), spd * np.sin(th)))
    return out


def predicted(dfs, pos, ref, vecs, mode, n, navgs, coh_limit, freq_limit, method):
    a = one_vector(dfs[0], pos, ref, vecs[0], navgs, coh_limit, freq_limit, method)
    b = one_vector(dfs[1], pos, ref, vecs[1], navgs, coh_limit, freq_limit, method)
    ia, ib = select(a, b, pos, ref, mode, n)
    a = a.loc[ia]
    b = b.loc[ib]
    ea = a['error_dist'].mean()
    eb = b['error_dist'].mean()
    return ea, eb, a, b


def ref_coord(pos, ref, col):
    return pos[col].loc[ref]


def component(dx, dy, vx, vy, e):
    # component along the direction, multiplied by e (no direction is left when e is zero)
    return (dx * vx + dy * vy) / np.sqrt(vx ** 2 + vy ** 2) * e


def delays(df, ref, navgs, coh_limit, freq_limit, method):
    d, x = signalproc.compute_delays_tf(df[ref], df, navgs=navgs, coh_limit=coh_limit, freq_limit=freq_limit, method=method)
    return d, x['mean_coh']


def cell(d, label, j):
    return d.iloc[:, j].loc[label]


def row_of(d, label):
    return d.index.get_loc(label)


def assignment(orig, pred):
    o, p = orig.values, pred.values
    n = len(orig)
    cost = np.sqrt((o[:, 0][:, None] - p[:, 0][None, :]) ** 2 + (o[:, 1][:, None] - p[:, 1][None, :]) ** 2)
    r, c = linear_sum_assignment(cost)
    return sorted(zip(orig.index[c], orig.index[r]), key=lambda t: t[0])


def moved(orig, pairs):
    out = orig.copy()
    for a, b in pairs:
        for col in orig.columns:
            out.loc[a, col] = orig[col][b]
    return out


def assignment_missing(orig, pred):
    xy = pred.iloc[:, :2]
    if not np.any(xy.isna()):
        return assignment(orig, xy)
    sub = xy.dropna()
    pairs = assignment(orig.loc[sub.index], sub)
    out = []
    for k in orig.index:
        if xy.loc[k].isna().any():
            out.append((k, k))
        else:
            for a, b in pairs:
                if a == k:
                    out.append((a, b))
    return out
