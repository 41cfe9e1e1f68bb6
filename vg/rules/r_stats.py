"""Error metrics, variability metrics, clear-sky index."""
from .util import *

PAIRS = [('bias_error', 'bias'), ('absolute_error', 'absolute'), ('squared_error', 'squared'),
         ('mbe', 'mbe'), ('mae', 'mae'), ('mse', 'mse'), ('rmse', 'rmse')]


def two(I, kind):
    if kind == 'nd':
        return C.nd(I, 'base', n()), C.nd(I, 'est', n())
    if kind == 'nd2':
        return C.nd(I, 'base', n(), m()), C.nd(I, 'est', n(), m())
    if kind == 'ndnan':
        return C.nd(I, 'base', n(), nan=True), C.nd(I, 'est', n(), nan=True)
    if kind == 'scalar':
        return sc('base'), sc('est')
    if kind == 'series':
        return C.series(I, 'base', n(), 't'), C.series(I, 'est', n(), 't')
    if kind == 'seriesnan':
        return C.series(I, 'base', n(), 't', nan=True), C.series(I, 'est', n(), 't', nan=True)
    return (C.frame(I, 'base', n(), 't', ncol=m(), cname='s'), C.frame(I, 'est', n(), 't', ncol=m(), cname='s'))


@case('P29', params=[(f, k) for f, _ in PAIRS for k in ('nd', 'nd2', 'ndnan', 'scalar', 'series', 'seriesnan', 'frame')])
def metric(c, f, kind):
    x, y = two(c.I, kind)
    if kind == 'nd2' and f in ('mbe', 'mae', 'mse', 'rmse'):
        pass
    c.eq(c.call('stats.' + f, x, y), c.spec('stats.' + dict(PAIRS)[f], x, y),
         'documented error definition (estimation minus baseline)', 'stats.' + f)


def sig(I, kind, name='x', **kw):
    if kind == 'series':
        return C.series(I, name, n(), 't', **kw)
    return C.frame(I, name, n(), 't', ncol=m(), cname='s', **kw)


@case('P30', params=[(f, k, mavg) for f in ('darr', 'variability_score') for k in ('series', 'frame') for mavg in ('sym',)])
def variability(c, f, kind, mavg):
    I = c.I
    for nan in (False, True):
        I = c.fresh()
        x = sig(I, kind, nan=nan)
        tau = sc('tau', isint=True, pos=True)
        ma, pct = sc('moving_avg', isbool=True), sc('pct', isbool=True)
        c.eq(c.call('stats.' + f, x, tau, ma, pct), c.spec('stats.' + dict(darr='darr', variability_score='vscore')[f], x, tau, ma, pct),
             'documented metric for every tau, averaging and percent choice', 'stats.' + f)
    I = c.fresh()
    x = sig(I, kind)
    c.eq(c.call('stats.' + f, x), c.spec('stats.' + dict(darr='darr', variability_score='vscore')[f], x, num(1), TRUE, FALSE),
         'documented defaults (tau=1, moving average, not percent)', 'stats.' + f)


@case('P30', params=[(f, k, o) for f in ('darr', 'variability_score') for k in ('series', 'frame') for o in ('tau', 'moving_avg', 'pct')])
def default_of(c, f, kind, opt):
    """each option at its documented default while the others vary"""
    I = c.I
    x = sig(I, kind)
    v = dict(tau=sc('tau', isint=True, pos=True), moving_avg=sc('moving_avg', isbool=True), pct=sc('pct', isbool=True))
    d = dict(tau=num(1), moving_avg=TRUE, pct=FALSE)
    given = {k: v[k] for k in v if k != opt}
    c.eq(c.call('stats.' + f, x, **given), c.spec('stats.' + dict(darr='darr', variability_score='vscore')[f], x, **dict(given, **{opt: d[opt]})),
         'documented default of %s' % opt, 'stats.' + f)


@case('P30', params=['series', 'frame'])
def vindex(c, kind):
    I = c.I
    x, y = sig(I, kind, 'ghi'), sig(I, kind, 'cs')
    tau, norm = sc('tau', isint=True, pos=True), sc('norm', isbool=True)
    c.eq(c.call('stats.variability_index', x, y, tau, norm), c.spec('stats.vindex', x, y, tau, norm),
         'ratio of path lengths in minutes, same averaging for both series', 'stats.variability_index')
    I = c.fresh()
    x, y = sig(I, kind, 'ghi'), sig(I, kind, 'cs')
    c.eq(c.call('stats.variability_index', x, y), c.spec('stats.vindex', x, y, num(1), FALSE),
         'documented defaults', 'stats.variability_index')
    for k in ('moving_avg_tau', 'norm'):
        I = c.fresh()
        x, y = sig(I, kind, 'ghi'), sig(I, kind, 'cs')
        g = c.call('stats.variability_index', x, y, **({'norm': norm} if k == 'moving_avg_tau' else {'moving_avg_tau': tau}))
        c.eq(g, c.spec('stats.vindex', x, y, num(1) if k == 'moving_avg_tau' else tau, norm if k == 'moving_avg_tau' else FALSE),
             'documented default of %s' % k, 'stats.variability_index')


@case('P32', params=[(k, mx) for k in ('scalar', 'nd', 'series', 'frame') for mx in ('given', 'default')])
def csi(c, kind, mx):
    I = c.I
    cs = sc('cs') if kind == 'scalar' else C.nd(I, 'cs', n()) if kind == 'nd' else C.series(I, 'cs', n(), 't')
    g = sc('g') if kind == 'scalar' else C.nd(I, 'g', n()) if kind == 'nd' else sig(I, kind, 'g')
    cap = sc('cap') if mx == 'given' else num(2)
    got = c.call('irradiance.clearsky_index', g, cs, *([cap] if mx == 'given' else []))
    c.eq(got, c.spec('irr.csi', g, cs, cap), 'measured over clear-sky, limited to [0, cap], 0 where undefined', 'irradiance.clearsky_index')
