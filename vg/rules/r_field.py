"""Predicted positions, assignment and remapping of field layouts."""
from .util import *
from .. import summaries as SM

MODES = ('coherence', 'preavg', 'global_coherence', 'distance', 'all')


def setup(I):
    ts0 = C.frame(I, 'ts0', n(), 't', ncol=L('c0'), cname='u')
    ts1 = C.frame(I, 'ts1', L('n2'), 'tb', ncol=L('c1'), cname='w')
    return C.lst(I, [ts0, ts1], 'dfs')


def poskind(I, k):
    cols = {'plain': ['E', 'N'], 'swapped': ['N', 'E'], 'extra': ['h', 'N', 'id', 'E']}[k]
    return C.frame(I, 'pos', m(), 's', cols=cols)


def vecs(I, k):
    v = [[sc('vx0'), sc('vy0')], [sc('vx1'), sc('vy1')]]
    if k == 'tuples':
        return C.lst(I, [Tup(x) for x in v], 'cld_vecs')
    return C.nd(I, 'cv', 2, 2)


def options():
    return dict(ndownsel=L('nd'), navgs=sc('navgs', pos=True), coh_limit=sc('cl'), freq_limit=sc('fl'))


@case('P42', params=[(md, pk, vk, dm) for md in MODES for pk, vk, dm in
                     (('plain', 'tuples', 'multi'), ('extra', 'nd', 'fit'), ('swapped', 'tuples', 'fit'))], stubs=SM.DELAYS)
def predicted(c, mode, pk, vk, dm):
    I = c.I
    fn = 'field.compute_predicted_position'
    dfs, pos, v = setup(I), poskind(I, pk), vecs(I, vk)
    o = options()
    r = items(c, c.call(fn, dfs, pos, leaf('\u2020ref'), v, leaf(mode), delay_method=leaf(dm), **o))
    ea, eb, ta, tb = items(c, c.spec('field.predicted', dfs, pos, leaf('\u2020ref'), v, leaf(mode), o['ndownsel'], o['navgs'],
                                     o['coh_limit'], o['freq_limit'], leaf(dm)))
    tabs = items(c, r[1])
    c.eq(Tup([tabs[0], tabs[1]]), Tup([ta, tb]), 'one table of the selected sites per cloud vector', fn)
    p, q = r[0], pos
    e = [ea, eb]
    E0, N0 = [c.spec('field.ref_coord', pos, leaf('\u2020ref'), leaf(k)) for k in ('E', 'N')]
    c.eq(Tup(shape(c, p)), Tup([num(2)]), 'one east and one north coordinate', fn)
    dx, dy = T.s_sub(at(c, p, 0), E0), T.s_sub(at(c, p, 1), N0)
    vv = [[sc('vx%d' % k), sc('vy%d' % k)] if vk != 'nd' else [at(c, v, k, 0), at(c, v, k, 1)] for k in range(2)]
    z = num(0)
    # two directions and two nonzero displacements are needed
    degenerate = lor(T.s_eq(T.s_mul(vv[0][0], vv[1][1]), T.s_mul(vv[0][1], vv[1][0])), lor(T.s_eq(ea, z), T.s_eq(eb, z)))
    for k in range(2):
        got = c.spec('field.component', dx, dy, vv[k][0], vv[k][1], e[k])
        c.eq(ite(degenerate, z, got), ite(degenerate, z, T.s_mul(e[k], e[k])),
             'the displacement from the listed position has the mean residual distance as its component along cloud vector %d' % k, fn)


@case('P42', params=['plain', 'extra'], stubs=dict(SM.DELAYS, **SM.CMV))
def predicted_default(c, pk):
    """cloud vectors computed from each data set; documented defaults of every option"""
    I = c.I
    fn = 'field.compute_predicted_position'
    dfs, pos = setup(I), poskind(I, pk)
    ref = leaf('\u2020ref')
    r = items(c, c.call(fn, dfs, pos, ref))
    v = c.spec('field.cloud_vectors', dfs, pos)
    w = items(c, c.spec('field.predicted', dfs, pos, ref, v, leaf('coherence'), num(8), num(5), num('0.6'), num('0.02'), leaf('multi')))
    tabs = items(c, r[1])
    c.eq(Tup([tabs[0], tabs[1]]), Tup([w[2], w[3]]), 'cloud vectors of each data set and the documented defaults are used', fn)
    q = items(c, c.call(fn, dfs, pos, ref, v))
    c.eq(r[0], q[0], 'computing the vectors inside equals passing them', fn)


@case('P43', params=['str', 'frame'], stubs=SM.DELAYS)
def deprecated(c, kind):
    I = c.I
    fn = 'field.compute_delays'
    df = C.frame(I, 'ts', n(), 't', ncol=m(), cname='s')
    ref = leaf('\u2020ref')
    a = [sc('navgs', pos=True), sc('cl'), sc('fl')]
    for md in ('multi', 'fit'):
        n0 = len(I.events)
        g = items(c, c.call(fn, df, ref, *a, leaf(md)))
        c.check(any(e.kind == 'warn' for e in I.events[n0:]), 'announces that it is deprecated', fn, detail='no warning is issued')
        w = items(c, c.spec('field.delays', df, ref, *a, leaf(md)))
        c.eq(Tup([g[0], g[1]]), Tup([w[0], w[1]]), 'returns the delays and mean coherences of the replacing function for the same arguments', fn)
        c.check(len(g) == 2, 'returns two values', fn, detail='returns %d' % len(g))
    g = items(c, c.call(fn, df, ref))
    w = items(c, c.spec('field.delays', df, ref, num(5), num('0.6'), num('0.02'), leaf('multi')))
    c.eq(Tup([g[0], g[1]]), Tup([w[0], w[1]]), 'documented defaults', fn)


# ------------------------------------------------------------------ P39, P41
def pairs(I, ps, nm='remap'):
    return C.lst(I, [Tup([leaf('\u2020' + a), leaf('\u2020' + b)]) for a, b in ps], nm)


MAPS = {
    'swap': ['ab', 'ba'], 'cycle': ['ab', 'bc', 'ca'], 'cycle back': ['ac', 'ba', 'cb'], 'chain': ['ab', 'bc'],
    'chain reversed': ['bc', 'ab'], 'self': ['aa', 'bb'], 'copy': ['ab', 'cb'], 'none': [], 'two swaps': ['ab', 'ba', 'cd', 'dc'],
    'four': ['ad', 'ba', 'cb', 'dc'], 'four shuffled': ['cb', 'ad', 'dc', 'ba'],
}


def frame_of_sites(I, kind, name='data'):
    if kind == 'sym':
        return C.frame(I, name, m(), 's', cols=['E', 'N'])
    if kind == 'wide':
        return C.frame(I, name, m(), 's', ncol=L('k'), cname='c')
    return C.frame(I, name, 5, 's', rows=['\u2020e', '\u2020c', '\u2020a', '\u2020d', '\u2020b'], cols=['E', 'N', 'h'])


@case('P39', params=[(k, mp) for k in ('sym', 'rows', 'wide') for mp in MAPS])
def remap(c, kind, mp):
    I = c.I
    fn = 'field.remap_positions'
    d = frame_of_sites(I, kind)
    g = c.call(fn, d, pairs(I, MAPS[mp]))
    a, w = av(c, d), av(c, g)
    c.eq(Tup(shape(c, g)), Tup(shape(c, d)), 'rows and columns are kept', fn)
    i = idx('i', a.axes[0].n)
    j = idx('j', a.axes[1].n)
    c.eq(axis_labels(c, g, 0, i), axis_labels(c, d, 0, i), 'row identifiers are kept in order', fn)
    c.eq(axis_labels(c, g, 1, j), axis_labels(c, d, 1, j), 'columns are kept in order', fn)
    lab, col = axis_labels(c, d, 0, i), axis_labels(c, d, 1, j)
    want = at(c, d, i, j)
    for t, s in MAPS[mp]:
        # the row of the target identifier: identifiers are unique
        here = T.s_eq(lab, leaf('\u2020' + t)) if kind == 'rows' else T.s_eq(c.spec('field.row_of', d, leaf('\u2020' + t)), i)
        want = ite(here, c.spec('field.cell', d, leaf('\u2020' + s), j), want)
    c.eq(at(c, g, i, j), want, 'every listed site takes the values its source had before the call, all others keep theirs', fn)


@case('P39', params=[('rows', mp, cols) for mp in ('swap', 'cycle') for cols in (('E',), ('N', 'h'), ())])
def remap_columns(c, kind, mp, cols):
    I = c.I
    fn = 'field.remap_positions'
    d = frame_of_sites(I, kind)
    g = c.call(fn, d, pairs(I, MAPS[mp]), C.lst(I, [leaf(x) for x in cols], 'columns'))
    i = idx('i', av(c, d).axes[0].n)
    for j, nm in enumerate(('E', 'N', 'h')):
        want = at(c, d, i, j)
        if nm in cols:
            for t, s in MAPS[mp]:
                want = ite(T.s_eq(axis_labels(c, d, 0, i), leaf('\u2020' + t)), c.spec('field.cell', d, leaf('\u2020' + s), num(j)), want)
        c.eq(at(c, g, i, j), want, 'only the requested columns are moved', fn)


PERM = ['cycle', 'cycle back', 'swapab', 'four', 'four shuffled']
TWO = [('cycle', 'cycle'), ('cycle', 'cycle back'), ('four', 'four shuffled'), ('four', 'two swaps'), ('two swaps', 'four shuffled'), ('four shuffled', 'four'), ('four shuffled', 'four shuffled')]


@case('P41', params=TWO)
def cascade(c, one, two):
    I = c.I
    fn = 'field.cascade_remap'
    A, B = pairs(I, MAPS[one], 'remap1'), pairs(I, MAPS[two], 'remap2')
    g = c.call(fn, A, B)
    da, db = dict(MAPS[one]), dict(MAPS[two])
    want = sorted((k, da[db[k]]) for k in da)
    c.eq(g, pairs(I, [a + b for a, b in want], 'w'), 'each identifier maps through the second, then the first remapping; sorted', fn)
    d = frame_of_sites(I, 'rows')
    seq = c.call('field.remap_positions', c.call('field.remap_positions', d, A), B)
    c.eq(c.call('field.remap_positions', d, g), seq, 'applying the cascade equals applying the two remappings one after the other', fn)


# ------------------------------------------------------------------ P40
def two_tables(I, ok, pk, size=None):
    cols = {'plain': ['E', 'N'], 'extra': ['E', 'N', 'id'], 'other': ['x', 'y', 'q', 'r']}
    if size:
        rows = ['\u2020%s' % x for x in 'dbaec'[:size]]
        return C.frame(I, 'orig', size, 's', rows=rows, cols=cols[ok]), C.frame(I, 'pred', size, 's', rows=rows, cols=cols[pk])
    return C.frame(I, 'orig', m(), 's', cols=cols[ok]), C.frame(I, 'pred', m(), 's', cols=cols[pk])


@case('P40', params=[(a, b, size) for a, b in (('plain', 'plain'), ('extra', 'plain'), ('plain', 'extra'), ('extra', 'other')) for size in (None,)])
def assign(c, ok, pk, size):
    I = c.I
    fn = 'field.assign_positions'
    o, p = two_tables(I, ok, pk, size)
    r = items(c, c.call(fn, o, p))
    want = c.spec('field.assignment', o, p)
    c.eq(r[0], want, 'pairs of the assignment of minimum total distance over east and north, sorted by identifier', fn)
    c.eq(r[1], c.call('field.remap_positions', o, want), 'the remapped table follows the returned pairs', fn)


def s_remap(I, env, node):
    return T.app('sm:remapped', T.app('tuple', I.term(env['data'])), num(0))


@case('P40', params=['plain', 'extra'], stubs={'field.remap_positions': s_remap})
def assign_missing(c, k):
    """sites without a prediction keep their own position, the others are assigned among themselves"""
    I = c.I
    fn = 'field.assign_positions'
    o = C.frame(I, 'orig', m(), 's', cols=['E', 'N'])
    p = C.frame(I, 'pred', m(), 's', cols=['E', 'N'] if k == 'plain' else ['E', 'N', 'q'], nan=True)
    r = items(c, c.call(fn, o, p))
    want = c.spec('field.assignment_missing', o, p)
    c.eq(r[0], want, 'pairs of the assignment', fn)
    j = C.frame(I, 'pred2', m(), 's', cols=['E', 'N'])
    full = items(c, c.call(fn, o, j))
    c.eq(full[0], c.spec('field.assignment', o, j), 'no missing prediction: all sites take part', fn)
