"""Cloud motion vectors."""
from .util import *
from .. import summaries as SM

FN = 'cmv.compute_cmv'
JAM = dict(ktlim=num('0.4'), var_s_lim=num('0.05'), mincorr=num('0.8'), vmin=num(0), vmax=num(70))
OPT = dict(ktlim='ktlim', var_s_lim='var_s_lim', mincorr='mincorr', vmin='minvelocity', vmax='maxvelocity')


def setup(I, cols='s', nan=False):
    ts = C.frame(I, 'ts', n(), 't', ncol=m(), cname=cols, nan=nan)
    pos = C.frame(I, 'pos', L('mp'), 'p', cols=['E', 'N'])
    return ts, pos


def refs(c, pos, kind):
    """(argument, reference identifiers)"""
    if kind == 'all':
        return NONE, c.spec('util.ids', pos)
    if kind == 'one':
        return leaf('\u2020ref'), C.lst(c.I, [leaf('\u2020ref')], 'r1')
    if kind == 'number':
        return sc('refid'), C.lst(c.I, [sc('refid')], 'r1')
    r = C.lst(c.I, [leaf('\u2020r1'), leaf('\u2020r2')], 'r2')
    return r, r


def part(c, o, name):
    return c.spec('util.part', o, leaf(name))


def entry(c, o, name):
    return c.spec('util.entry', o, leaf(name))


def run(c, meth, be, rk, opts=NONE, o=JAM, **kw):
    ts, pos = setup(c.I, **kw)
    a, rf = refs(c, pos, rk)
    r = items(c, c.call(FN, ts, pos, a, leaf(meth), opts, leaf(be)))
    P_ = c.spec('cmv.pairs_of', c.spec('util.ids', pos), rf)
    x = items(c, c.spec('cmv.lags', ts, P_, leaf(be)))
    w = dict(zip(('A', 'B', 'lag', 'peak', 'mean', 'zero', 'coh'), x), pairs=P_, vecs=c.spec('cmv.offsets', pos, P_), ts=ts, pos=pos)
    return r, w


METH = [('jamaly', 'xcorr', 'all'), ('jamaly', 'xcorr', 'one'), ('jamaly', 'tf', 'two'),
        ('gagne', 'xcorr', 'all'), ('gagne', 'tf', 'one'), ('gagne', 'xcorr', 'two')]


@case('P16', params=METH, stubs=SM.DELAYS)
def vector(c, meth, be, rk):
    """speed and direction are functions of the lags and offsets of the pairs flagged good"""
    r, w = run(c, meth, be, rk)
    f = part(c, r[2], 'pair_flag')
    good = c.spec('cmv.is_good', f)
    few = c.spec('cmv.few', good)
    lag, vecs = c.spec('cmv.pick', w['lag'], good), c.spec('cmv.pick', w['vecs'], good)
    spd, ang, _ = items(c, c.spec('cmv.' + meth, lag, vecs))
    spd, ang = items(c, c.spec('cmv.polar', spd, ang))
    c.eq(r[0], ite(few, num(0), spd), 'the speed follows from the good pairs alone, zero with fewer than two', FN)
    c.eq(r[1], ite(few, num(0), ang), 'the direction follows from the good pairs alone, zero with fewer than two', FN)
    flag = part(c, r[2], 'flag')
    bad = c.spec('cmv.allbad')
    c.eq(ite(few, flag, bad), bad, 'fewer than two good pairs are announced by the all-bad flag', FN)
    same = c.spec('cmv.coincident', w['pairs'], f)
    c.true(lnot(same), 'a site paired with itself is never good', FN)


# ------------------------------------------------------------------ P15
@case('P15', params=METH, stubs=SM.DELAYS)
def result(c, meth, be, rk):
    """range of the result; the details describe the same vector and the same pairs"""
    r, w = run(c, meth, be, rk)
    o = r[2]
    c.check(len(r) == 3, 'returns speed, direction and details', FN, detail='returns %d' % len(r))
    f = part(c, o, 'pair_flag')
    good = c.spec('cmv.is_good', f)
    few = c.spec('cmv.few', good)
    z = num(0)
    c.true(lor(few, lnot(T.s_lt(r[0], z))), 'the speed is not negative', FN)
    c.eq(r[1], T.apply2('%', T._mod_leaf, r[1], T.s_mul(num(2), T.P(T.PI))) if False else c.spec('cmv.turn', r[1]), 'the direction lies in [0, 2 pi)', FN)
    for nm, val in (('wind_speed', r[0]), ('wind_angle', r[1])):
        c.eq(ite(few, z, part(c, o, nm)), ite(few, z, val), 'details: %s describes the returned vector' % nm, FN)
    c.eq(part(c, o, 'allpairs'), w['pairs'], 'details: the pairs of the given identifiers that contain a reference', FN)
    k = idx('k', shape(c, w['lag'])[0])
    for nm, x in (('pair_lag', 'lag'), ('corr_raw', 'zero'), ('corr_lag', 'peak'), ('pair_coh', 'coh')):
        g = part(c, o, nm)
        if w[x] is NONE or w[x] is None:
            c.eq(ite(few, NONE, g) if isinstance(g, S) else g, NONE, 'details: no %s' % nm, FN)
        else:
            c.eq(c.spec('cmv.unless', few, g), c.spec('cmv.unless', few, w[x]), 'details: %s of each pair' % nm, FN)
    c.eq(c.spec('cmv.unless', few, part(c, o, 'pair_dists')), c.spec('cmv.unless', few, c.spec('cmv.along', w['vecs'], r[1])),
         'details: the separation of each pair along the returned direction', FN)
    lag, vecs = c.spec('cmv.pick', w['lag'], good), c.spec('cmv.pick', w['vecs'], good)
    md = part(c, o, 'method_data')
    if meth == 'jamaly':
        t = items(c, c.spec('cmv.trend', lag, vecs))
        for nm, v in zip(('v60', 'v40', 'error_index', 'velocity'), t):
            c.eq(c.spec('cmv.unless_entry', few, md, leaf(nm)), c.spec('cmv.unless', few, v), 'details: %s' % nm, FN)
        c.eq(c.spec('cmv.unless_entry', few, md, leaf('ngood')), c.spec('cmv.unless', few, c.spec('cmv.ngood', good)), 'details: number of good pairs', FN)
        flag = part(c, o, 'flag')
        c.eq(c.spec('cmv.unless', few, flag), c.spec('cmv.unless', few, c.spec('cmv.trend_flag', c.spec('cmv.is_trend', t[2]))),
             'the trend flag is raised exactly when the error index exceeds 0.4', FN)


# ------------------------------------------------------------------ P17
def given(k):
    """an option dictionary with only the options of k, and the resulting thresholds"""
    o = dict(JAM)
    for x in k:
        o[x] = sc('my_' + x)
    return o


OPTS = [('jamaly', ()), ('jamaly', None), ('jamaly', ('ktlim',)), ('jamaly', ('var_s_lim',)), ('jamaly', ('mincorr',)), ('jamaly', ('vmin',)),
        ('jamaly', ('vmax',)), ('jamaly', ('ktlim', 'var_s_lim', 'mincorr', 'vmin', 'vmax')), ('gagne', ()), ('gagne', None), ('gagne', ('ktlim',))]


@case('P17', params=[(a, k, rk) for a, k in OPTS for rk in ('all', 'one') if rk == 'all' or k is None]
      + [(a, ('ktlim',), 'all', True) for a in ('jamaly', 'gagne')]
      + [('jamaly', ('ktlim', 'var_s_lim', 'mincorr', 'vmin', 'vmax'), 'all', False, True), ('gagne', ('ktlim',), 'all', False, True)], stubs=SM.DELAYS)
def flags(c, meth, k, rk, nan=False, zero=False):
    if meth == 'gagne':
        # typical data: enough pairs, most of them good, correlations around one of the levels
        c.hint(**{'in__ts': lambda r, s: r.uniform(.5, 1.2), 'sm:delay': lambda r, s: r.uniform(1, 9), 'sm:mean_corr': lambda r, s: r.uniform(.05, .2),
                  'sm:peak_corr': lambda r, s: (.85, .91, .96, .995)[(s // 2 if r.random() < .75 else r.randrange(4)) % 4],
                  'len__mp': lambda r, s: r.choice((5, 6)), 'len__n': lambda r, s: 2})
    o = given(k or ())
    if zero:
        o.update((x, num(0)) for x in k)
    d = NONE if k is None else C.dct(c.I, {OPT[x]: o[x] for x in k}, 'options')
    r, w = run(c, meth, 'xcorr', rk, d, o, nan=nan)
    f = c.spec('cmv.qc', w['pairs'], c.spec('cmv.distances', w['vecs']), w['A'], w['B'], w['lag'], w['peak'], w['mean'], leaf(meth),
               o['ktlim'], o['var_s_lim'], o['mincorr'], o['vmin'], o['vmax'])
    if meth == 'gagne':
        f, ok = items(c, c.spec('cmv.thin', f, w['peak']))
    c.eq(part(c, r[2], 'pair_flag'), f, 'each pair gets the documented flag at the given thresholds', FN)


@case('P17', params=[('jamaly', 'nosuch'), ('jamaly', 'KTLIM'), ('gagne', 'mincorr'), ('gagne', 'maxvelocity')], stubs=SM.DELAYS)
def unknown(c, meth, k):
    I = c.I
    ts, pos = setup(I)
    rejects(c, {'ValueError'}, FN, 'an option the method does not have is rejected', ts, pos, NONE, leaf(meth), C.dct(I, {k: sc('x')}, 'options'))


@case('P17', params=['JAMALY', 'Gagne'], stubs=SM.DELAYS)
def spelled(c, meth):
    I = c.I
    ts, pos = setup(I)
    a = items(c, c.call(FN, ts, pos, NONE, leaf(meth)))
    w = items(c, c.call(FN, ts, pos, NONE, leaf(meth.lower())))
    c.eq(Tup([a[0], a[1]]), Tup([w[0], w[1]]), 'the method name is not case sensitive', FN)


@case('P17', params=[('whatever', 'xcorr'), ('jamaly', 'whatever')], stubs=SM.DELAYS)
def no_method(c, meth, be):
    I = c.I
    ts, pos = setup(I)
    rejects(c, {'ValueError'}, FN, 'an unknown method or delay backend is rejected', ts, pos, NONE, leaf(meth), NONE, leaf(be))


# ------------------------------------------------------------------ P18
def moved(c, pos, dx, dy):
    a = av(c, pos)
    col = a.axes[1]
    return c.I.alloc(Arr(AV(a.axes, T.s_add(a.body, ite(T.s_eq(V(col.var), num(0)), dx, dy)), 'frame')))


@case('P18', params=METH, stubs=SM.DELAYS)
def translation(c, meth, be, rk):
    I = c.I
    ts, pos = setup(I)
    a, rf = refs(c, pos, rk)
    r = items(c, c.call(FN, ts, pos, a, leaf(meth), NONE, leaf(be)))
    q = items(c, c.call(FN, ts, moved(c, pos, sc('dx'), sc('dy')), a, leaf(meth), NONE, leaf(be)))
    c.eq(Tup([q[0], q[1]]), Tup([r[0], r[1]]), 'speed and direction do not change when all sites are moved alike', FN)
    for nm in ('pair_flag', 'flag', 'pair_dists'):
        c.eq(part(c, q[2], nm), part(c, r[2], nm), 'details: %s does not change when all sites are moved alike' % nm, FN)


# ------------------------------------------------------------------ P19
@case('P19', params=METH, stubs=SM.DELAYS)
def labels(c, meth, be, rk):
    """two tables holding the same series under the same identifiers, in unrelated column orders and with other series besides"""
    I = c.I
    ts, pos = setup(I)
    t2 = C.frame(I, 'ts', n(), 't', ncol=L('m2'), cname='other')
    a, rf = refs(c, pos, rk)
    r = items(c, c.call(FN, ts, pos, a, leaf(meth), NONE, leaf(be)))
    q = items(c, c.call(FN, t2, pos, a, leaf(meth), NONE, leaf(be)))
    c.eq(Tup([q[0], q[1]]), Tup([r[0], r[1]]), 'the result does not depend on the order of the series or on further series', FN)
    for nm in ('pair_flag', 'flag', 'pair_dists', 'allpairs'):
        c.eq(part(c, q[2], nm), part(c, r[2], nm), 'details: %s does not depend on the order of the series' % nm, FN)


# ------------------------------------------------------------------ P20
@case('P20', params=[None, 1, 2, 5])
def subset(c, k):
    I = c.I
    fn = 'cmv.optimum_subset'
    x, y = C.nd(I, 'cx', m()), C.nd(I, 'cy', m())
    nn = L('k') if k is None else num(k)
    g = c.call(fn, x, y, nn)
    c.eq(g, c.spec('cmv.subset', x, y, nn), 'positions of the vectors assigned to evenly spaced directions at the best rotation', fn)


@case('P20')
def default_size(c):
    I = c.I
    fn = 'cmv.optimum_subset'
    x, y = C.nd(I, 'cx', m()), C.nd(I, 'cy', m())
    c.eq(c.call(fn, x, y), c.call(fn, x, y, num(10)), 'ten vectors by default', fn)


@case('P19', params=['coherence', 'distance', 'all'], stubs=SM.DELAYS)
def labels_predicted(c, mode):
    """predicted positions: series matched by identifier in every data set"""
    I = c.I
    fn = 'field.compute_predicted_position'
    pos = C.frame(I, 'pos', m(), 's', cols=['E', 'N'])
    v = C.lst(I, [Tup([sc('vx0'), sc('vy0')]), Tup([sc('vx1'), sc('vy1')])], 'v')
    res = []
    for cn in ('u', 'w'):
        d = C.lst(I, [C.frame(I, 'ts%d' % k, n(), 't', ncol=L('c' + cn), cname=cn) for k in range(2)], 'dfs')
        res.append(items(c, c.call(fn, d, pos, leaf('\u2020ref'), v, leaf(mode), num(8))))
    c.eq(res[1][0], res[0][0], 'the predicted position does not depend on the order of the series or on further series', fn)

