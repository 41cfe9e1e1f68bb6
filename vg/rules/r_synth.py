"""Synthetic irradiance."""
from .util import *
from .. import summaries as SM

M_ = 'synthirrad.copula.'


def prm(I, t=''):
    d = {q: C.lst(I, [sc(t + q + str(i)) for i in range(3)]) for q in ('comp', 'mean', 'sdevClear', 'sdevCloud')}
    d['corr_quadr'] = sc(t + 'cq')
    return C.dct(I, d, t + 'params'), d


SEED = {'given': lambda: sc('seed'), 'zero': lambda: num(0), 'none': lambda: NONE}


@case('P33', params=['given', 'zero', 'none'])
def draws(c, sk):
    s = SEED[sk]()
    cov = C.nd(c.I, 'cov', n(), n())
    got = c.call(M_ + '_copularnd_gaussian', L('k'), cov, s)
    c.eq(got, c.spec('synth.draw', L('k'), C.nd(c.I, 'cov', n(), n()), s), 'uniform draws come from a fresh generator with the given seed', M_ + '_copularnd_gaussian')


@case('P33', params=['given', 'zero', 'none'])
def draws_default(c, sk):
    s = SEED[sk]()
    a = () if sk == 'none' else (s,)
    cov = C.nd(c.I, 'cov', n(), n())
    got = c.call(M_ + '_space_time_copula', num(1), cov, C.nd(c.I, 'x', m()), C.nd(c.I, 'cdf', m()), sc('p'), *a)
    u = c.spec('synth.draw', num(1), c.spec('synth.correlation', C.nd(c.I, 'cov', n(), n()), sc('p')), s)
    w = c.spec('synth.inverse_rows', C.nd(c.I, 'x', m()), C.nd(c.I, 'cdf', m()), u)
    c.eq(got, w, 'the copula draws with the given seed only', M_ + '_space_time_copula')


ENTRY = [('downscale', 'given'), ('downscale', 'zero'), ('downscale_multihour', 'given'), ('downscale_multihour', 'zero')]


@case('P33', params=ENTRY)
def origin(c, fn, sk):
    """every draw in the closure comes from a generator created from the given seed"""
    I = c.I
    s = SEED[sk]()
    mc = sc('mc') if fn == 'downscale' else C.lst(I, [sc('mc0'), sc('mc1')])
    c.call(M_ + fn, C.dtindex(I, 't', n()), C.nd(I, 'e', m()), C.nd(I, 'nn', m()), sc('cs'), sc('cd'), mc, prm(I)[0], s)
    bad = [e for e in c.events('rng_global', 'rng_entropy')]
    c.check(not bad, 'no draw from the global generator or from fresh entropy', M_ + fn, detail=str(bad[:3]))
    ns = c.events('rng_new')
    c.check(bool(ns), 'the draws use a generator of their own', M_ + fn)
    for e in ns:
        c.eq(e.data['seed'], s, 'every generator is created from the given seed', M_ + fn)


@case('P33', params=['_copularnd_gaussian', '_space_time_copula', 'downscale', 'downscale_multihour'])
def unseeded(c, f):
    """without a seed every call draws afresh"""
    I = c.I
    fn = M_ + f
    if f == '_copularnd_gaussian':
        c.call(fn, L('k'), C.nd(I, 'cov', n(), n()))
    elif f == '_space_time_copula':
        c.call(fn, num(1), C.nd(I, 'cov', n(), n()), C.nd(I, 'x', m()), C.nd(I, 'cdf', m()), sc('p'))
    else:
        c.call(fn, C.dtindex(I, 't', n()), C.nd(I, 'e', m()), C.nd(I, 'nn', m()), sc('cs'), sc('cd'), sc('mc') if f == 'downscale' else C.lst(I, [sc('mc0')]), prm(I)[0])
    ns = c.events('rng_new')
    c.check(bool(ns) and all(e.data['seed'] is NONE for e in ns), 'without a seed the generator starts from fresh entropy', fn, detail=str([e.data for e in ns]))


# ------------------------------------------------------------------ P34
@case('P34', params=['scalar', 'nd'])
def sigmoid(c, k):
    x = sc('x') if k == 'scalar' else C.nd(c.I, 'x', n())
    c.eq(c.call(M_ + '_sigmoid', x, sc('a'), sc('cc')), c.spec('synth.sigmoid', x, sc('a'), sc('cc')), 'membership function', M_ + '_sigmoid')


@case('P34', params=['scalar', 'nd'])
def decay(c, k):
    x = sc('x') if k == 'scalar' else C.nd(c.I, 'x', n())
    c.eq(c.call(M_ + '_exponential_decay_parameter', x, sc('p')), c.spec('synth.decay', x, sc('p')), 'decay parameter, at least 1e-5', M_ + '_exponential_decay_parameter')


@case('P34', params=['any', 'default'])
def mixture(c, k):
    fn = M_ + '_process_params'
    if k == 'any':
        p, d = prm(c.I)
    else:
        p = c.I.get_func(M_ + 'DEFAULT_PARAMS')
        d = {q: c.spec('util.entry', p, leaf(q)) for q in ('comp', 'mean', 'sdevClear', 'sdevCloud', 'corr_quadr')}
    r = items(c, c.call(fn, sc('mc'), p))
    w = items(c, c.spec('synth.params', sc('mc'), d['comp'], d['mean'], d['sdevClear'], d['sdevCloud'], d['corr_quadr']))
    for g, x, nm in zip(r, w, ('means', 'weights', 'variances')):
        g, x = items(c, g), items(c, x)
        c.check(len(g) == 2, 'two components', fn)
        for i in range(2):
            c.eq(g[i], x[i], '%s of component %d' % (nm, i), fn)
    c.eq(r[3], w[3], 'decay parameter', fn)
    w1, w2 = items(c, r[1])
    c.eq(T.s_add(w1, w2), num(1), 'the weights sum to one', fn)
    m1, m2 = items(c, r[0])
    c.eq(ite(T.s_eq(w1, num(0)), sc('mc'), T.s_add(T.s_mul(w1, m1), T.s_mul(w2, m2))), sc('mc'), 'the weighted mean is the requested mean', fn)
    if k == 'default':
        c.true(T.s_le(num(0), w1), 'first weight non-negative', fn)
        c.true(T.s_le(num(0), w2), 'second weight non-negative', fn)


PUB = {'comp': ('0.8051', '7.3605', '0.7092'), 'mean': ('2.2928', '1.0801', '0.4532'), 'sdevClear': ('0.3512', '4.8414', '0.6442'),
       'sdevCloud': ('0.1997', '5.0919', '0.3863')}


@case('P34')
def published(c):
    p = c.I.get_func(M_ + 'DEFAULT_PARAMS')
    for k, v in PUB.items():
        for i in range(3):
            c.eq(items(c, c.spec('util.entry', p, leaf(k)))[i], num(v[i]), 'published default %s[%d]' % (k, i), M_ + 'DEFAULT_PARAMS')
    c.eq(c.spec('util.entry', p, leaf('corr_quadr')), num('0.0043'), 'published default correlation parameter', M_ + 'DEFAULT_PARAMS')


@case('P34', params=['nd', 'list', 'scalar', 'nd3'])
def distribution(c, k):
    fn = M_ + '_gmdistribution'
    I = c.I
    x = sc('x') if k == 'scalar' else vec(I, 'list' if k == 'list' else 'nd', 'x', n())
    q = 3 if k == 'nd3' else 2
    mk = lambda nm, **kw: [sc(nm + str(i), **kw) for i in range(q)]
    mu, va, p = C.lst(I, mk('m')), C.lst(I, mk('v', pos=True)), C.lst(I, mk('p', pos=True))
    if k == 'nd3':
        mu, va = c.spec('util.nd', mu), c.spec('util.nd', va)
    r = items(c, c.call(fn, x, mu, va, p))
    pdf = c.spec('synth.density', x if k == 'scalar' else c.spec('util.nd', x), mu, va, p)
    c.eq(r[0], pdf, 'density of the weighted normal mixture', fn)
    if k == 'scalar':
        c.eq(r[1], num(1), 'the running distribution of one point is one', fn)
    else:
        c.eq(r[1], c.spec('synth.running', pdf), 'running sum of the density scaled to end at one', fn)


@case('P34', params=['scalar', 'nd', 'nd2'])
def sampling(c, k):
    fn = M_ + '_inverse_sample'
    I = c.I
    x, f = C.nd(I, 'x', n()), C.nd(I, 'cdf', n())
    r = sc('r') if k == 'scalar' else C.nd(I, 'r', m()) if k == 'nd' else C.nd(I, 'r', m(), L('k'))
    g = c.call(fn, x, f, r)
    w = c.spec('synth.inverse' if k != 'nd2' else 'synth.inverse_rows', x, f, r)
    c.eq(g, w, 'linear interpolation of the inverted distribution, closed at -2 and 2', fn)


# ------------------------------------------------------------------ P35, P36
SW = [(s, z) for s in (True, False) for z in (True, False)]


@case('P35', params=SW)
def cells(c, scale, noneg):
    fn = M_ + 'downscale'
    I = c.I
    p, d = prm(I)
    a = (C.dtindex(I, 't', n()), C.nd(I, 'e', m()), C.nd(I, 'nn', m()), sc('cs'), sc('cd'), sc('mc'), p, sc('seed'))
    g = c.call(fn, *a, scale=b(scale), noneg=b(noneg))
    w = c.spec('synth.hour', *a, b(scale), b(noneg))
    c.check([str(x) for x in shape(c, g)] == [str(x) for x in shape(c, w)], 'one row per time, one column per site', fn, detail=str(shape(c, g)))
    c.eq(g, w, 'quantiles of the mixture at the correlated draws, adjusted as requested', fn)


@case('P35')
def defaults(c):
    fn = M_ + 'downscale'
    I = c.I
    p, d = prm(I)
    a = (C.dtindex(I, 't', n()), C.nd(I, 'e', m()), C.nd(I, 'nn', m()), sc('cs'), sc('cd'), sc('mc'), p)
    c.eq(c.call(fn, *a, seed=sc('seed')), c.spec('synth.hour', *a, sc('seed'), TRUE, TRUE), 'both adjustments are on by default', fn)


@case('P35')
def bounds(c):
    """no value below zero, and the requested mean"""
    fn = M_ + 'downscale'
    I = c.I
    p, d = prm(I)
    a = (C.dtindex(I, 't', n()), C.nd(I, 'e', m()), C.nd(I, 'nn', m()), sc('cs'), sc('cd'), sc('mc'), p, sc('seed'))
    g = c.call(fn, *a, scale=FALSE, noneg=TRUE)
    c.true(T.s_le(num(0), at(c, g, idx('i', n()), idx('j', m()))), 'no value below zero', fn)


KIND = [(t, p, s, d, q) for t, p, s, d in [('one', 'one', 'one', 'one'), ('per', 'one', 'one', 'one'), ('one', 'per', 'one', 'one'), ('one', 'one', 'per', 'one'),
                                           ('one', 'one', 'one', 'per'), ('per', 'per', 'per', 'per'), ('one', 'one', 'nd', 'one'), ('one', 'one', 'one', 'nd')] for q in (1, 2, 3)
        if not (q == 1 and (s, d) != ('one', 'one'))]


def many(I, kind, nm, q):
    if kind == 'one':
        return sc(nm), [sc(nm)] * q
    x = [sc('%s%d' % (nm, i)) for i in range(q)]
    if kind == 'nd':
        a = C.nd(I, nm, num(q))
        return a, [at_(I, a, i) for i in range(q)]
    return C.lst(I, x), x


def at_(I, a, i):
    v = M.to_av(I, a)
    return T.subst(v.body, {v.axes[0].var: num(i)})


@case('P36', params=KIND, stubs=SM.DOWNSCALE)
def hours(c, tk, pk, sk, dk, q):
    fn = M_ + 'downscale_multihour'
    I = c.I
    ts = [C.dtindex(I, 't%d' % i, L('n%d' % i)) for i in range(q)] if tk == 'per' else [C.dtindex(I, 't', n())] * q
    ps = [prm(I, 'p%d' % i)[0] for i in range(q)] if pk == 'per' else [prm(I)[0]] * q
    sa, ss = many(I, sk, 'cs', q)
    da, ds = many(I, dk, 'cd', q)
    ma, ms = many(I, 'per', 'mc', q)
    e, nn = C.nd(I, 'e', m()), C.nd(I, 'nn', m())
    for scale, noneg in ((TRUE, FALSE), (FALSE, TRUE)) if (tk, q) in (('one', 2), ('per', 2)) else ((TRUE, TRUE),):
        g = c.call(fn, C.lst(I, ts) if tk == 'per' else ts[0], e, nn, sa, da, ma, C.lst(I, ps) if pk == 'per' else ps[0], sc('seed'), scale=scale, noneg=noneg)
        w = [c.call(M_ + 'downscale', ts[i], e, nn, ss[i], ds[i], ms[i], ps[i], sc('seed'), scale, noneg) for i in range(q)]
        c.eq(g, c.spec('synth.stack', C.lst(I, w)), 'every hour is the single-hour result for its own inputs, in order', fn)


@case('P36', params=[1, 2], stubs=SM.DOWNSCALE)
def single(c, q):
    """one-element speed and direction lists stand for a single value"""
    fn = M_ + 'downscale_multihour'
    I = c.I
    e, nn, t, p = C.nd(I, 'e', m()), C.nd(I, 'nn', m()), C.dtindex(I, 't', n()), prm(I)[0]
    s, d = C.nd(I, 'cs', num(1)), C.nd(I, 'cd', num(1))
    ms = [sc('mc%d' % i) for i in range(q)]
    g = c.call(fn, t, e, nn, s, d, C.lst(I, ms), p, seed=sc('seed'))
    w = [c.call(M_ + 'downscale', t, e, nn, s, d, x, p, seed=sc('seed')) for x in ms]
    c.eq(g, c.spec('synth.stack', C.lst(I, w)), 'a one-element array is used for every hour', fn)


@case('P36', stubs=SM.DOWNSCALE)
def mismatch(c):
    fn = M_ + 'downscale_multihour'
    I = c.I
    e, nn, t, p = C.nd(I, 'e', m()), C.nd(I, 'nn', m()), C.dtindex(I, 't', n()), prm(I)[0]
    ms = lambda: C.lst(I, [sc('mc0'), sc('mc1'), sc('mc2')])
    two = lambda nm: C.lst(I, [sc(nm + '0'), sc(nm + '1')])
    T2 = lambda k: C.lst(I, [C.dtindex(I, 't%d' % i, n()) for i in range(k)])
    rejects(c, ('ValueError',), fn, 'a list of times of another length is rejected', T2(2), e, nn, sc('cs'), sc('cd'), ms(), p)
    rejects(c, ('ValueError',), fn, 'times that are no time index are rejected', C.lst(I, [sc('a'), sc('b'), sc('d')]), e, nn, sc('cs'), sc('cd'), ms(), p)
    rejects(c, ('ValueError',), fn, 'a list of parameters of another length is rejected', t, e, nn, sc('cs'), sc('cd'), ms(), C.lst(I, [p, p]))
    rejects(c, ('ValueError',), fn, 'parameters that are no mapping are rejected', t, e, nn, sc('cs'), sc('cd'), ms(), C.lst(I, [sc('a'), sc('b'), sc('d')]))
    rejects(c, ('ValueError',), fn, 'speeds of another length are rejected', t, e, nn, two('cs'), sc('cd'), ms(), p)
    rejects(c, ('ValueError',), fn, 'directions of another length are rejected', t, e, nn, sc('cs'), two('cd'), ms(), p)
