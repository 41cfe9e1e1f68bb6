"""Cloud fields."""
from .util import *
from .. import summaries as SM

M_ = 'synthirrad.cloudfield.'


def field(c, nm='f', bool_=False, **kw):
    return C.nd(c.I, nm, n(), m(), **kw)


def mask(c, nm):
    return c.spec('cloud.mask01', C.nd(c.I, nm, n(), m(), isbool=True))


SZ = [('1', '1'), ('1', 'b'), ('a', '1'), ('a', 'b')]


@case('P37', params=SZ)
def noise(c, a, b_):
    fn = M_ + '_random_at_scale'
    A = num(1) if a == '1' else T.s_add(L('a'), num(2))
    B = num(1) if b_ == '1' else T.s_add(L('b'), num(2))
    c.I.rng_count = 0
    g = items(c, c.call(fn, Tup([A, B]), Tup([L('p'), L('q')])))
    c.I.rng_count = 0
    w = c.spec('cloud.noise', A, B, L('p'), L('q'))
    c.eq(g[1], w, 'the draws spread over the unit square and interpolated linearly to the final size', fn)


@case('P37')
def zero_cells(c):
    fn = M_ + '_random_at_scale'
    c.I.rng_count = 0
    g = items(c, c.call(fn, Tup([num(0), num(0)]), Tup([L('p'), L('q')])))
    c.I.rng_count = 0
    c.eq(g[1], c.spec('cloud.noise', num(1), num(1), L('p'), L('q')), 'at least one cell per axis', fn)


@case('P37')
def wts(c):
    fn = M_ + '_calc_wavelet_weights'
    w = C.nd(c.I, 'w', n(), m(), nan=True)
    c.eq(c.call(fn, w), c.spec('cloud.wavelet_weights', w), 'mean energy per scale over the total', fn)
    fn = M_ + '_calc_vs_weights'
    s, v = C.nd(c.I, 's', n()), sc('vs')
    g = c.call_any(fn, s, v)
    bad = T.s_lt(v, num(0))
    c.eq(c.raised('ValueError'), bad, 'exactly negative scores are rejected', fn)
    c.eq(c.spec('cmv.unless', bad, g), c.spec('cmv.unless', bad, c.spec('cloud.vs_weights', s, v)), 'weights from the variability score', fn)


@case('P37', params=[1, 2, 3], stubs=SM.NOISE)
def stacked(c, q):
    fn = M_ + '_stack_random_field'
    I = c.I
    P_, Q = L('p'), L('q')
    ws, ss = [sc('w%d' % i) for i in range(q)], [num(i + 1) for i in range(q)]
    I.rng_count = 0
    for norm in (False, True):
        I.rng_count = 0
        g = c.call_any(fn, C.lst(I, ws), C.lst(I, ss), Tup([P_, Q]), normalize=b(norm))
        I.rng_count = 0
        tot = num(0)
        for k in range(q):
            z = items(c, c.call_any(M_ + '_random_at_scale', Tup([c.spec('cloud.cells', ss[k], P_), c.spec('cloud.cells', ss[k], Q)]), Tup([P_, Q])))[1]
            tot = c.spec('cloud.plus', tot, z, ws[k])
        c.eq(g, c.spec('cloud.normalized', tot) if norm else tot, 'the weighted sum of the noise of every scale', fn)


@case('P37')
def lengths(c):
    fn = M_ + '_stack_random_field'
    I = c.I
    rejects(c, ('ValueError',), fn, 'weights and scales of different number are rejected', C.lst(I, [sc('w0'), sc('w1')]), C.lst(I, [num(1)]), Tup([L('p'), L('q')]))


@case('P37')
def clear(c):
    fn = M_ + '_calc_clear_mask'
    f, q = field(c), sc('q')
    ok = land(T.s_le(num(0), q), T.s_le(q, num(1)))
    g = c.call_any(fn, f, q)
    c.eq(c.raised('ValueError'), lnot(ok), 'exactly fractions outside zero to one are rejected', fn)
    off = c.raised('AssertionError')
    bad = lnot(ok)
    c.eq(c.spec('cmv.unless', bad, g), c.spec('cmv.unless', bad, c.spec('cloud.clear', f, q)), 'clear up to the requested quantile, cloudy above', fn)
    c.true(lor(lnot(off), bad, c.spec('cloud.off_target', f, q)), 'a mask that covers the requested fraction is returned', fn)


@case('P37')
def clear_default(c):
    fn = M_ + '_calc_clear_mask'
    f = field(c)
    c.eq(c.call_any(fn, f), c.spec('cloud.clear', f, num('0.5')), 'half clear by default', fn)


@case('P37')
def edge(c):
    fn = M_ + '_find_edges'
    k, s, t = mask(c, 'clear'), sc('size'), sc('thr')
    g = items(c, c.call(fn, k, s, t))
    e = c.spec('cloud.edges', k)
    c.eq(g[0], e, 'edges are the squared gradient of the mask', fn)
    c.eq(g[1], c.spec('cloud.broad', e, s, t), 'broadened edges above the threshold', fn)
    g = items(c, c.call(fn, k, s))
    c.eq(g[1], c.spec('cloud.broad', e, s, num(0)), 'any broadened edge by default', fn)


@case('P37', params=['float', 'bool'])
def lave(c, ek):
    fn = M_ + '_scale_field_lave'
    f, k = field(c), mask(c, 'clear')
    e = C.nd(c.I, 'edge', n(), m(), nonneg=True) if ek != 'bool' else C.nd(c.I, 'edge', n(), m(), isbool=True)
    a = (f, k, e, sc('km'), sc('kx'), sc('k1'))
    c.eq(c.call(fn, *a, sc('q')), c.spec('cloud.lave', *a, sc('q')), 'clear parts one, edges enhanced, cloudy parts scaled to the mean', fn)
    c.eq(c.call(fn, f, k, e, sc('km')), c.spec('cloud.lave', f, k, e, sc('km'), num('1.4'), num('0.2'), num('0.99')), 'defaults', fn)


@case('P37', params=[(e, f, s) for e in ('float', 'bool') for f in (True, False) for s in (True, False)])
def basic(c, ek, flip, smooth):
    fn = M_ + '_scale_field_basic'
    f, k = field(c), mask(c, 'clear')
    e = C.nd(c.I, 'edge', n(), m(), nonneg=True) if ek != 'bool' else C.nd(c.I, 'edge', n(), m(), isbool=True)
    a = (f, k, e, sc('km'), sc('kx'), sc('k1'))
    s = sc('sm') if smooth else NONE
    c.eq(c.call(fn, *a, sc('q'), b(flip), s), c.spec('cloud.basic', *a, sc('q'), b(flip), s), 'clear parts, edges and cloudy parts take the documented levels', fn)
    if not flip and not smooth:
        c.eq(c.call(fn, f, k, e, sc('km')), c.spec('cloud.basic', f, k, e, sc('km'), num('1.4'), num('0.2'), num('0.999'), FALSE, NONE), 'defaults', fn)


@case('P38', params=['default', 'all'])
def position(c, k):
    fn = M_ + 'get_positional_ts'
    f = field(c)
    x, y, v = sc('x'), sc('y'), sc('v', pos=True)
    opt = (sc('dur'), sc('res', pos=True)) if k == 'all' else ()
    g = c.call(fn, Tup([x, y]), f, v, *opt)
    c.eq(g, c.spec('cloud.sample', Tup([x, y]), f, v, *(opt or (num(3600), num(1)))), 'the field along the wind axis from the offset of the site on, at its cross-wind row', fn)


@case('P38', params=['tuple', 'list', 'nd'])
def position_kinds(c, k):
    fn = M_ + 'get_positional_ts'
    f = field(c)
    x, y, v = sc('x'), sc('y'), sc('v', pos=True)
    p = Tup([x, y]) if k == 'tuple' else C.lst(c.I, [x, y]) if k == 'list' else c.spec('util.arr', x, y)
    g = c.call(fn, p, f, v, duration=sc('dur'), pixres=sc('res', pos=True))
    c.eq(g, c.spec('cloud.sample', Tup([x, y]), f, v, sc('dur'), sc('res', pos=True)), 'the position is (along wind, across wind)', fn)


@case('P38')
def length_of_series(c):
    """a long enough field gives one sample per step and both ends, whatever the resolution"""
    fn = M_ + 'get_positional_ts'
    I = c.I
    f = C.nd(I, 'f', T.s_add(L('k'), T.s_add(L('x0'), num(1))), m())
    v = num(1)
    g = c.call(fn, Tup([L('x0'), L('y0')]), f, v, L('k'), num(1))
    c.eq(shape(c, g)[0], T.s_add(L('k'), num(1)), 'one sample per step and both ends', fn)
    i = idx('i', T.s_add(L('k'), num(1)))
    c.eq(at(c, g, i), at(c, f, T.s_add(L('x0'), i), L('y0')), 'sample k is the pixel k steps further', fn)


@case('P38')
def shifted(c):
    """a site further along the wind sees the same pattern earlier by distance over speed"""
    fn = M_ + 'get_positional_ts'
    I = c.I
    big = T.s_add(L('k'), T.s_add(L('x0'), T.s_add(L('d'), num(1))))
    f = C.nd(I, 'f', big, m())
    v = sc('v', pos=True)
    a = c.call(fn, Tup([T.s_mul(v, L('x0')), T.s_mul(v, L('y0'))]), f, v, L('k'), num(1))
    z = c.call(fn, Tup([T.s_mul(v, T.s_add(L('x0'), L('d'))), T.s_mul(v, L('y0'))]), f, v, L('k'), num(1))
    i = idx('i', T.s_sub(T.s_add(L('k'), num(1)), L('d')))
    c.eq(at(c, a, T.s_add(i, L('d'))), at(c, z, i), 'the further site leads by distance over speed', fn)


OPT = [('original', TRUE), ('basic', TRUE), ('default', TRUE)]


@case('P37', params=['original', 'basic', 'default', 'smooth'], stubs=SM.CLOUD)
def generator(c, k):
    fn = M_ + 'cloudfield_timeseries'
    I = c.I
    ws, ss = C.nd(I, 'w', L('q')), C.lst(I, [num(1), num(2)])
    size = Tup([L('p'), L('q2')])
    a = (ws, ss, size, sc('frac'), sc('km'), sc('kx'), sc('k1'))
    kw = {'original': dict(scaling=leaf('original')), 'basic': dict(scaling=leaf('basic'), edgesmoothing=sc('es')), 'default': {}, 'smooth': dict(scaling=leaf('basic'))}[k]
    I.rng_count = 0
    g = c.call(fn, *a, **kw)
    I.rng_count = 0
    st = lambda: c.call(M_ + '_stack_random_field', ws, ss, size)
    f1 = st()
    k1 = c.call(M_ + '_calc_clear_mask', st(), sc('frac'))
    e, s = items(c, c.call(M_ + '_find_edges', k1, kw.get('edgesmoothing', num(3))))
    if k in ('original', 'default'):
        w = c.call(M_ + '_scale_field_lave', f1, k1, e, sc('km'), sc('kx'), sc('k1'))
    else:
        w = c.call(M_ + '_scale_field_basic', f1, k1, s, sc('km'), sc('kx'), sc('k1'))
    c.eq(g, w, 'an independent cloud field and mask, every option reaching its step', fn)


@case('P37', stubs=SM.CLOUD)
def unknown_scaling(c):
    fn = M_ + 'cloudfield_timeseries'
    I = c.I
    a = (C.nd(I, 'w', L('q')), C.lst(I, [num(1), num(2)]), Tup([L('p'), L('q2')]), sc('frac'), sc('km'), sc('kx'), sc('k1'))
    rejects(c, ('ValueError',), fn, 'an unknown scaling is rejected', *a, scaling=leaf('\u2020other'))


@case('P37', params=['default', 'given', ('default', True)])
def series_stats(c, k, nan=False):
    fn = M_ + 'get_timeseries_stats'
    kt = C.series(c.I, 'kt', n(), 't', nan=nan)
    kw = {} if k == 'default' else dict(clear_threshold=sc('thr'))
    g = items(c, c.call(fn, kt, **kw))
    w = items(c, c.spec('cloud.stats', kt, kw.get('clear_threshold', num('0.95'))))
    for i, nm in enumerate(('mean', '1st percentile', 'maximum', 'clear fraction', 'variability score in percent', 'weights of all but the steady mode')):
        c.eq(g[i], w[i], nm, fn)
    c.eq(g[6], w[6], 'scale numbers', fn)
