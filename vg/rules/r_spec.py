"""Spectra, transfer functions, their delays, and the spatial filters."""
from .util import *

def mm():
    """a column count above one"""
    return T.s_add(num(1), m())


def fr(I, name, k, nn=None, lab='t', cname='s', **kw):
    """k: series | one | many"""
    nn = nn or n()
    if k == 'series':
        return C.series(I, name, nn, lab, **kw)
    return C.frame(I, name, nn, lab, ncol=num(1) if k == 'one' else mm(), cname=cname, **kw)


def asframe(c, v):
    """the one-column frame of a series"""
    a = av(c, v)
    if len(a.axes) == 2:
        return v
    q = T.ivar()
    T.set_ub(q, num(1))
    return c.I.alloc(Arr(AV([a.axes[0], Ax(q, num(1), lab=leaf('s'))], a.body, 'frame')))


# ------------------------------------------------------------------ P23
OPTS = ['default', 'given']


@case('P23', params=[(k, o, s) for k in ('series', 'one', 'many') for o in OPTS for s in ('density', 'spectrum', 'default')])
def psd(c, k, o, s):
    I = c.I
    x = fr(I, 'x', k)
    kw, sp = {}, dict(overlap=num('1/2'), window=leaf('hamming'), detrend=leaf('linear'))
    if o == 'given':
        kw = dict(overlap=sc('ov'), window=sc('window'), detrend=sc('detr'))
        sp = dict(kw)
    if s != 'default':
        kw['scaling'] = leaf(s)
    r = c.call('signalproc.averaged_psd', x, sc('navgs'), **kw)
    w = c.spec('sig.psd', asframe(c, x), sc('navgs'), sp['overlap'], sp['window'], sp['detrend'], leaf('density' if s == 'default' else s))
    f = 'signalproc.averaged_psd'
    c.eq(r, w, 'Welch spectrum of every column with the requested segment count, overlap, window, detrending and scaling', f, labels=False)
    i = idx('f', shape(c, r)[0])
    c.eq(axis_labels(c, r, 0, i), axis_labels(c, w, 0, i), 'indexed by frequency', f)
    if k != 'series':
        j = idx('j', shape(c, r)[1])
        c.eq(axis_labels(c, r, 1, j), axis_labels(c, x, 1, j), 'columns keep their names', f)


@case('P23', params=[(a, b_, o) for a, b_ in (('series', 'series'), ('series', 'one'), ('one', 'series'), ('one', 'many'), ('many', 'one'), ('many', 'many'), ('series', 'many'), ('many', 'series')) for o in OPTS])
def tf(c, ka, kb, o):
    I = c.I
    x, y = fr(I, 'x', ka), fr(I, 'y', kb, cname='r')
    kw, sp = {}, dict(overlap=num('1/2'), window=leaf('hamming'), detrend=leaf('linear'))
    if o == 'given':
        kw = dict(overlap=sc('ov'), window=sc('window'), detrend=sc('detr'))
        sp = dict(kw)
    r = items(c, c.call('signalproc.averaged_tf', x, y, sc('navgs'), **kw))
    w = items(c, c.spec('sig.tf_frame', asframe(c, x), asframe(c, y), sc('navgs'), sp['overlap'], sp['window'], sp['detrend']))
    f = 'signalproc.averaged_tf'
    for g, ww, what in ((r[0], w[1], 'cross spectrum over input spectrum of each pair'), (r[1], w[2], 'magnitude-squared coherence of each pair')):
        c.eq(g, ww, what, f, labels=False)
        i = idx('f', shape(c, g)[0])
        c.eq(axis_labels(c, g, 0, i), at(c, w[0], i), 'indexed by frequency', f)
        nc = num(1) if ka != 'many' != kb else mm()
        c.eq(Tup(shape(c, g)[1:]), Tup([nc]), 'one column per pair', f)
        j = idx('j', nc)
        c.eq(axis_labels(c, g, 1, j), c.spec('sig.pair_name', col_label(c, x, j), col_label(c, y, j)), 'columns named input_output', f)


def col_label(c, v, j):
    a = av(c, v)
    if len(a.axes) == 1:
        return num(0)
    one = _isone(a.axes[1].n)
    return T.subst(a.axes[1].lab, {a.axes[1].var: num(0) if one else j})


def _isone(x):
    try:
        return T.s_const(x) == 1
    except KeyError:
        return False


@case('P23')
def tf_reject(c):
    I = c.I
    x = C.frame(I, 'x', n(), 't', ncol=num(3), cname='s')
    y = C.frame(I, 'y', n(), 't', ncol=num(2), cname='r')
    rejects(c, ('ValueError',), 'signalproc.averaged_tf', 'different column counts (neither one) are rejected', x, y, sc('navgs'))
    rejects(c, ('ValueError',), 'signalproc.compute_delays_tf', 'different column counts (neither one) are rejected', x, y)


# ------------------------------------------------------------------ P24
LIM = ['default', 'given', 'none']


def limits(cl, fl):
    kw, sp = {}, {}
    for nm, v, d in (('coh_limit', cl, '3/5'), ('freq_limit', fl, '1/50')):
        sp[nm] = num(d) if v == 'default' else sc(nm) if v == 'given' else NONE
        if v != 'default':
            kw[nm] = sp[nm]
    return kw, sp


def flat(c, v, col=None):
    """1d array (of one column) of a series or frame"""
    a = av(c, v)
    q = T.ivar()
    T.set_ub(q, a.axes[0].n)
    m_ = {a.axes[0].var: V(q)}
    if len(a.axes) == 2:
        m_[a.axes[1].var] = col if col is not None else num(0)
    return c.I.alloc(Arr(AV([Ax(q, a.axes[0].n)], T.subst(a.body, m_), 'nd')))


def labels_of(c, v):
    a = av(c, v)
    q = T.ivar()
    T.set_ub(q, a.axes[0].n)
    return c.I.alloc(Arr(AV([Ax(q, a.axes[0].n)], T.subst(a.axes[0].lab, {a.axes[0].var: V(q)}), 'nd')))


def values_of(c, v):
    a = av(c, v)
    return c.I.alloc(Arr(AV([Ax(x.var, x.n) for x in a.axes], a.body, 'nd')))


@case('P24', params=[(md, k, a, b_) for md in ('fit', 'default', 'diff') for k in ('series', 'one', 'mixed') for a in LIM for b_ in LIM])
def delay1(c, md, k, cl, fl):
    I = c.I
    nf = L('nf')
    h = fr(I, 'h', 'series' if k == 'mixed' else k, nf, 'f', real=False)
    coh = fr(I, 'coh', 'one' if k == 'mixed' else k, nf, 'f')
    kw, sp = limits(cl, fl)
    if md != 'default':
        kw['method'] = leaf(md)
    r = items(c, c.call('signalproc.tf_delay', h, coh, **kw))
    f = 'signalproc.tf_delay'
    fv = labels_of(c, h)
    ok = c.spec('sig.mask', fv, flat(c, coh), sp['coh_limit'], sp['freq_limit'])
    i = idx('i', nf)
    c.eq(Tup(shape(c, r[1])), Tup([nf, num(1)]), 'mask covers every bin', f)
    c.eq(at(c, r[1], i, num(0)), at(c, ok, i), 'a bin is used iff its coherence exceeds the limit and its frequency is below the limit (a limit of None disables that criterion)', f)
    got = r[0]
    if isinstance(got, S):
        # a fit without any usable bin fails
        got = ite(c.spec('sig.any_of', ok), ext_as(c, got, FALSE), ext_as(c, got, TRUE))
    c.eq(got, c.spec('sig.diff_delay' if md == 'diff' else 'sig.fit_delay', fv, flat(c, h), ok), 'delay is minus the phase slope over the used bins, in seconds', f)


@case('P24', params=[(k, a, b_) for k in ('series', 'one', 'many') for a in LIM for b_ in LIM] + [(k, a, a, True) for k in ('series', 'one', 'many') for a in LIM])
def delay_multi(c, k, cl, fl, nan=False):
    I = c.I
    nf = L('nf')
    h, coh = fr(I, 'h', k, nf, 'f', real=False, nan=nan), fr(I, 'coh', k, nf, 'f', nan=nan)
    kw, sp = limits(cl, fl)
    r = items(c, c.call('signalproc.tf_delay', h, coh, method=leaf('multi'), **kw))
    f = 'signalproc.tf_delay'
    h2, coh2 = asframe(c, h), asframe(c, coh)
    nc = shape(c, h2)[1]
    fv = labels_of(c, h)
    i, j = idx('i', nf), idx('j', nc)
    ok = c.spec('sig.mask', fv, flat(c, coh2, j), sp['coh_limit'], sp['freq_limit'])
    c.eq(at(c, r[1], i, j), at(c, ok, i), 'a bin of a pair is used iff its coherence exceeds the limit and its frequency is below the limit', f)
    c.eq(r[0], c.spec('sig.multi_delay', fv, values_of(c, h2), values_of(c, coh2), sp['coh_limit'], sp['freq_limit']), 'delays of all pairs minimise the summed phase residual over the used bins; nan for an all-nan pair', f)


# ------------------------------------------------------------------ P25
@case('P25', params=[(a, b_, md, o, x) for a, b_ in (('series', 'series'), ('one', 'many'), ('many', 'one'), ('many', 'many'), ('series', 'many')) for md in ('multi', 'fit', 'default') for o in OPTS for x in (False, True)]
      + [(a, b_, 'default', 'default', False, True) for a, b_ in (('one', 'many'), ('many', 'many'))])
def delays_tf(c, ka, kb, md, o, xc, nan=False):
    I = c.I
    x, y = fr(I, 'x', ka, nan=nan), fr(I, 'y', kb, cname='r', nan=nan)
    kw = dict(compute_xcorr=TRUE) if xc else {}
    sp = dict(navgs=num(5), coh_limit=num('3/5'), freq_limit=num('1/50'), overlap=num('1/2'), window=leaf('hamming'))
    if md != 'default':
        kw['method'] = leaf(md)
    if o == 'given':
        g = dict(navgs=sc('navgs'), coh_limit=sc('cl'), freq_limit=sc('fl'), overlap=sc('ov'), window=sc('window'))
        kw.update(g)
        sp = g
    r = items(c, c.call('signalproc.compute_delays_tf', x, y, **kw))
    f = 'signalproc.compute_delays_tf'
    x2, y2 = asframe(c, x), asframe(c, y)
    fv, tfm, coh = items(c, c.spec('sig.tf_frame', x2, y2, sp['navgs'], sp['overlap'], sp['window'], NONE))
    np_ = shape(c, tfm)[1]
    i, j = idx('i', shape(c, tfm)[0]), idx('j', np_)
    c.eq(Tup(shape(c, r[0])), Tup([np_]), 'one delay per pair', f)
    if md == 'fit':
        ok = c.spec('sig.mask', fv, flat2(c, coh, j), sp['coh_limit'], sp['freq_limit'])
        d = at(c, r[0], j)
        d = ite(c.spec('sig.any_of', ok), ext_as(c, d, FALSE), ext_as(c, d, TRUE))
        c.eq(d, c.spec('sig.fit_delay', fv, flat2(c, tfm, j), ok), 'delay of each pair by the phase fit', f)
    else:
        c.eq(at(c, r[0], j), at(c, c.spec('sig.multi_delay', fv, tfm, coh, sp['coh_limit'], sp['freq_limit']), j), 'delay of each pair by the joint phase fit', f)
    ex = I.rec(r[1])
    d = {T.s_const(p[1]): p[2] for p in ex.parts}
    want = {'mean_coh', 'ix'} | ({'peak_corr', 'mean_corr', 'zero_corr'} if xc else set())
    c.check(set(d) == want, 'extras hold exactly the documented entries', f, detail=str(sorted(d)))
    if 'ix' in d:
        ok = c.spec('sig.mask', fv, flat2(c, coh, j), sp['coh_limit'], sp['freq_limit'])
        c.eq(at(c, d['ix'], i, j), at(c, ok, i), 'ix marks the bins used for each pair', f)
    if 'mean_coh' in d:
        c.eq(at(c, d['mean_coh'], j), at(c, c.spec('sig.mean_low_coherence', fv, coh, sp['freq_limit']), j), 'mean coherence below the frequency limit', f)
    if xc and want <= set(d):
        one = lambda v: _isone(shape(c, v)[1])
        w = items(c, c.spec('sig.corr_extras', flat2(c, values_of(c, x2), num(0) if one(x2) else j), flat2(c, values_of(c, y2), num(0) if one(y2) else j),
                            at(c, r[0], j), c.spec('sig.seconds', x)))
        for nm, ww in zip(('peak_corr', 'mean_corr', 'zero_corr'), w):
            c.eq(Tup(shape(c, d[nm])), Tup([np_]), '%s has one value per pair' % nm, f)
            c.eq(at(c, d[nm], j), ww, '%s of each pair' % nm, f)


def flat2(c, v, j):
    """column j of a matrix as a 1d array"""
    a = av(c, v)
    q = T.ivar()
    T.set_ub(q, a.axes[0].n)
    return c.I.alloc(Arr(AV([Ax(q, a.axes[0].n)], T.subst(a.body, {a.axes[0].var: V(q), a.axes[1].var: j}), 'nd')))


# ------------------------------------------------------------------ P26
@case('P26', params=['series', 'one'])
def applied_delay(c, k):
    I = c.I
    h = fr(I, 'h', k, L('nf'), 'f', real=False)
    r = c.call('signalproc.apply_delay', h, sc('delay'))
    c.eq(values_of(c, r), c.spec('sig.delayed', flat(c, h), labels_of(c, h), sc('delay')),
         'every bin is rotated by minus 2 pi times its own frequency times the delay', 'signalproc.apply_delay', labels=False)


# ------------------------------------------------------------------ P27
@case('P27', params=[(s, w, d, nc) for s in ('square', 'gaussian', 'triangle', 'SQUARE', 'default') for w in ('default', 'given') for d in ('default', 'given') for nc in ('m', 'one')])
def plant(c, s, w, d, nc):
    I = c.I
    if s == 'triangle' and nc != 'one':
        return
    cen = C.nd(I, 'centers', m() if nc == 'm' else num(1))
    kw = {}
    if s != 'default':
        kw['shape'] = leaf(s)
    if w == 'given':
        kw['width'] = sc('width')
    dx = num(1)
    ref = num(0)
    xmax = num(500000)
    if d == 'given':
        dx, ref, xmax = sc('dx', pos=True), sc('ref'), sc('xmax', pos=True)
        kw.update(dx=dx, ref_center=ref, xmax=xmax)
    width = sc('width') if w == 'given' else dx
    r = items(c, c.call('signalproc.get_1d_plant', cen, **kw))
    f = 'signalproc.get_1d_plant'
    x = c.spec('sig.axis_1d', xmax, dx)
    c.eq(r[1], x, 'position axis spans minus to plus half the extent at the spacing', f)
    cc = I.alloc(Arr(AV(av(c, cen).axes, T.s_sub(av(c, cen).body, ref), 'nd')))
    if s == 'triangle':
        want = c.spec('sig.plant_triangle1', x, at(c, cc, num(0)), width)
    else:
        want = c.spec('sig.plant_gaussian' if s == 'gaussian' else 'sig.plant_square', x, cc, width)
    c.eq(r[0], want, 'plant density is made of one shape of the given width at every centre relative to the reference', f)


@case('P27', params=['pos', 'neg'])
def camfilter(c, sg):
    I = c.I
    x = C.nd(I, 'x', n())
    p = C.nd(I, 'p', n())
    v = sc('speed', pos=True)
    v = v if sg == 'pos' else T.s_neg(v)
    r = c.call('signalproc.plant1d_to_camfilter', p, x, v)
    w = items(c, c.spec('sig.cam', p, x, v))
    f = 'signalproc.plant1d_to_camfilter'
    i = idx('i', n())
    c.eq(axis_labels(c, r, 0, i), at(c, w[0], i), 'frequency axis is |speed| over the spatial wavelength', f)
    c.eq(at(c, r, i), at(c, w[1], i), 'unit gain at zero frequency, phase referred to the reference, mirrored for negative speed', f)


@case('P27', params=[(k, o, r) for k in ('utm', 'geo') for o in ('default', 'given') for r in ('series', 'extra')])
def get_cam(c, k, o, rk):
    I = c.I
    cols = ['E', 'N'] if k == 'utm' else ['lat', 'lon']
    pos = C.frame(I, 'pos', n(), 's', cols=cols + (['alt'] if rk == 'extra' else []))
    ref = C.series(I, 'ref', None, None, labels=cols + (['alt'] if rk == 'extra' else []))
    kw, sp = {}, dict(dx=num(1), width=num(1), xmax=num(500000))
    if o == 'given':
        sp = dict(dx=sc('dx', pos=True), width=sc('width'), xmax=sc('xmax', pos=True))
        kw = dict(sp, shape=leaf('gaussian'))
    dx, dy, v = sc('dirx'), sc('diry'), sc('speed', pos=True)
    r = c.call('signalproc.get_camfilter', pos, v, Tup([dx, dy]), ref, **kw)
    f = 'signalproc.get_camfilter'
    a, b_ = flat2(c, pos, num(0)), flat2(c, pos, num(1))
    a0, b0 = at(c, ref, num(0)), at(c, ref, num(1))
    if k == 'geo':
        z, south = c.spec('spatial.zone_of', b0), T.s_lt(a0, num(0))
        a, b_ = items(c, c.spec('spatial.fwd', a, b_, z, south))
        a0, b0 = items(c, c.spec('spatial.fwd', a0, b0, z, south))
    d = c.spec('sig.along', a, b_, a0, b0, dx, dy)
    x = c.spec('sig.axis_1d', sp['xmax'], sp['dx'])
    p = c.spec('sig.plant_gaussian' if o == 'given' else 'sig.plant_square', x, d, sp['width'])
    w = items(c, c.spec('sig.cam', p, x, v))
    i = idx('i', shape(c, x)[0])
    c.eq(axis_labels(c, r, 0, i), at(c, w[0], i), 'frequency axis of the plant filter', f)
    c.eq(at(c, r, i), at(c, w[1], i), 'filter of the plant whose sites are projected from the reference onto the cloud direction (its length does not matter)', f)


@case('P27', params=['default', 'nd'])
def marcos(c, k):
    I = c.I
    s = sc('s', pos=True)
    if k == 'nd':
        fv = C.nd(I, 'f', n())
        r = c.call('signalproc.get_marcosfilter', s, fv)
    else:
        fv = c.spec('sig.marcos_default')
        r = c.call('signalproc.get_marcosfilter', s)
    f = 'signalproc.get_marcosfilter'
    nn = shape(c, fv)[0]
    i = idx('i', nn)
    c.eq(Tup(shape(c, r)), Tup([nn]), 'one value per frequency', f)
    c.eq(axis_labels(c, r, 0, i), at(c, fv, i), 'indexed by the frequencies', f)
    c.eq(at(c, r, i), at(c, c.spec('sig.marcos', s, fv), i), 'first-order low pass with cutoff 0.02 Hz over the root of the area', f)


@case('P27')
def clean(c):
    I = c.I
    x = C.series(I, 'x', n(), 't')
    r = c.call('signalproc.cleanfreq', x)
    f = 'signalproc.cleanfreq'
    i = idx('i', n())
    c.eq(Tup(shape(c, r)), Tup([n()]), 'returns the signal', f)
    c.eq(at(c, r, i), T.subst(C.cell('x', C.lab('t', i)), {}), 'values unchanged', f)
    c.eq(axis_labels(c, r, 0, i), ite(T.s_eq(i, c.spec('sig.half', n())), NONE, C.lab('t', i)), 'only the middle frequency label is cleared', f)


# ------------------------------------------------------------------ P28
@case('P28', params=[(k, g) for k in ('series', 'one', 'many') for g in ('nd',)])
def resample(c, k, g):
    I = c.I
    h = fr(I, 'h', k, L('nf'), 'f', real=False)
    fn = C.nd(I, 'fn', n())
    r = c.call('signalproc.interp_tf', fn, h)
    f = 'signalproc.interp_tf'
    i = idx('i', n())
    c.eq(axis_labels(c, r, 0, i), at(c, fn, i), 'indexed by the new frequencies', f)
    j = idx('j', mm())
    w = c.spec('sig.resample_tf', labels_of(c, h), flat(c, h, j if k == 'many' else num(0)), fn)
    c.check(len(shape(c, r)) == (1 if k == 'series' else 2), 'a series gives a series, a frame a frame', f)
    got = at(c, r, i) if k == 'series' else at(c, r, i, j if k == 'many' else num(0))
    c.eq(got, at(c, w, i), 'magnitude and unwrapped phase are interpolated separately over the sorted frequencies', f)
    if k == 'many':
        c.eq(axis_labels(c, r, 1, j), axis_labels(c, h, 1, j), 'columns keep their names', f)


@case('P28')
def filt(c):
    I = c.I
    x = C.series(I, 'x', n(), 't')
    h = C.series(I, 'h', L('nf'), 'f', real=False)
    r = c.call_any('signalproc.apply_filter', x, h)
    f = 'signalproc.apply_filter'
    bad, pc = c.raised(), I.pc
    dt = c.spec('sig.seconds', x)
    I.pc = T.TRUE
    hi = c.spec('sig.too_high', flat(c, x), labels_of(c, h), dt)
    c.eq(bad, hi, 'rejected exactly when the transfer function ends below the highest signal frequency', f)
    I.pc = pc
    i = idx('i', n())
    w = c.spec('sig.filtered', flat(c, x), labels_of(c, h), flat(c, h), dt)
    c.eq(Tup(shape(c, r)), Tup([n()]), 'as long as the input', f)
    c.eq(axis_labels(c, r, 0, i), axis_labels(c, x, 0, i), 'keeps the time index', f)
    c.eq(at(c, r, i), at(c, w, i), 'input spectrum times the resampled transfer function, back in the time domain', f)
