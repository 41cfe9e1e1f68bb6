"""Correlation, spectra, transfer functions, delays and spatial filters."""
from .util import *
from .r_options import ANY, OTHER

SCAL = ['none', 'energy', 'coeff', 'unbiased_energy', 'unbiased_coeff']


def tser(I, name, kind='series', **kw):
    return C.nd(I, name, n()) if kind == 'nd' else C.series(I, name, n(), 't', **kw)


# ------------------------------------------------------------------ P22
@case('P22', params=[(k, s) for k in ('nd', 'series') for s in SCAL + ['default', 'upper']])
def correlation(c, kind, s):
    I = c.I
    a, b_ = tser(I, 'a', kind), tser(I, 'b', kind)
    arg = [] if s == 'default' else [leaf('COEFF')] if s == 'upper' else [leaf(s)]
    want = leaf('coeff' if s in ('default', 'upper') else s)
    r = items(c, c.call('signalproc.correlation', a, b_, *arg))
    w = items(c, c.spec('sig.corr', a, b_, want))
    c.eq(r[1], w[1], 'lags of the full correlation', 'signalproc.correlation')
    c.eq(r[0], w[0], 'documented normalisation of the cross-correlation', 'signalproc.correlation', labels=False)


@case('P22', params=[(a, b_, s) for a, b_ in (('nd', 'nd'), ('frame', 'frame')) for s in ('coeff', 'none', 'default')])
def fftcorr(c, ka, kb, s):
    I = c.I
    def mk(k, nm):
        return C.nd(I, nm, n()) if k == 'nd' else C.nd(I, nm, m(), n()) if k == 'nd2' else C.frame(I, nm, n(), 't', ncol=m(), cname='s')

    x, y = mk(ka, 'a'), mk(kb, 'b')
    arg = [] if s == 'default' else [leaf(s)]
    r = items(c, c.call('signalproc._fftcorrelate', x, y, *arg))
    i = idx('i', m())

    def row(v, k):
        nd1 = C.nd(I, '?', n())
        a = av(c, v)
        t = a.axes[0] if k in ('nd', 'frame') else a.axes[1]
        o = V(T.ivar())
        q = T.ivar()
        T.set_ub(q, n())
        if k == 'nd':
            body = T.subst(a.body, {a.axes[0].var: V(q)})
        elif k == 'frame':
            body = T.subst(a.body, {a.axes[0].var: V(q), a.axes[1].var: i})
        else:
            body = T.subst(a.body, {a.axes[1].var: V(q), a.axes[0].var: i})
        return I.alloc(Arr(AV([Ax(q, n())], body, 'nd')))
    w = items(c, c.spec('sig.corr', row(x, ka), row(y, kb), leaf('none' if s == 'none' else 'coeff')))
    c.eq(r[1], w[1], 'lags of the full correlation', 'signalproc._fftcorrelate')
    g = av(c, r[0])
    q = T.ivar()
    T.set_ub(q, g.axes[1].n)
    rows = num(1) if ka == 'nd' and kb == 'nd' else m()
    c.eq(g.axes[0].n, rows, 'one row per signal pair', 'signalproc._fftcorrelate')
    got = I.alloc(Arr(AV([Ax(q, g.axes[1].n)], at(c, r[0], num(0) if ka == kb == 'nd' else i, V(q)), 'nd')))
    c.eq(got, w[0], 'every row is the correlation of its own pair with its own normalisation', 'signalproc._fftcorrelate', labels=False)


@case('P05', params=['nd', 'frame'], stubs=None, limit=120)
def fftcorr_scaling(c, k):
    mk = lambda nm: C.nd(c.I, nm, n()) if k == 'nd' else C.frame(c.I, nm, n(), 't', ncol=m(), cname='s')
    rejects(c, ANY, 'signalproc._fftcorrelate', 'a string outside the documented set is rejected', mk('a'), mk('b'), leaf(OTHER))


# ------------------------------------------------------------------ P21
@case('P21', params=SCAL + ['default'])
def xcorr_delay(c, s):
    I = c.I
    a, b_ = tser(I, 'a'), tser(I, 'b')
    arg = [] if s == 'default' else [leaf(s)]
    r = c.call('signalproc.xcorr_delay', a, b_, *arg)
    c.eq(r, c.spec('sig.delay_by_xcorr', a, b_, leaf('coeff' if s == 'default' else s)),
         'delay in seconds, positive when the output lags the input, with the correlation at the peak', 'signalproc.xcorr_delay')


@case('P21', params=[(md, s, k) for md in ('loop', 'fft', 'default') for s in ('coeff', 'none', 'default') for k in ('many', 'one')])
def delays(c, md, s, k):
    I = c.I
    one = num(1)
    na = one if k == 'one' else m()
    nb = one if k == 'one' else m()
    x = C.frame(I, 'a', n(), 't', ncol=na, cname='s')
    y = C.frame(I, 'b', n(), 't', ncol=nb, cname='s')
    kw = {}
    if md != 'default':
        kw['mode'] = leaf(md)
    if s != 'default':
        kw['scaling'] = leaf(s)
    r = items(c, c.call('signalproc.compute_delays', x, y, **kw))
    i = num(0) if k == 'one' else idx('i', m())

    def col(v, nn):
        a = av(c, v)
        q = T.ivar()
        T.set_ub(q, n())
        return I.alloc(Arr(AV([Ax(q, n())], T.subst(a.body, {a.axes[0].var: V(q), a.axes[1].var: num(0) if nn is one else i}), 'nd')))
    w = items(c, c.spec('sig.pair_delay', col(x, na), col(y, nb), leaf('none' if s == 'none' else 'coeff'),
                        c.spec('sig.seconds', x)))
    f = 'signalproc.compute_delays'
    c.eq(Tup(shape(c, r[0])), Tup([nb]), 'one delay per pair', f)
    c.eq(at(c, r[0], i), w[0], 'delay of each pair in seconds: minus the lag of the correlation peak, zero without correlation', f)
    ex = I.rec(r[1])
    d = {T.s_const(p[1]): p[2] for p in ex.parts}
    c.check(set(d) == {'peak_corr', 'mean_corr', 'zero_corr'}, 'extras hold peak, mean and zero-lag correlation', f)
    for nm, ww in zip(('peak_corr', 'mean_corr', 'zero_corr'), w[1:]):
        if nm in d:
            c.eq(Tup(shape(c, d[nm])), Tup([nb]), '%s has one value per pair' % nm, f)
            c.eq(at(c, d[nm], i), ww, '%s of each pair' % nm, f)
