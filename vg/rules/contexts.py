"""Calling contexts of every public function, shared by the effect rules.

add(function, label, builder): builder(I) -> (args, kwargs)
"""
from .util import *
from .. import summaries as SM

LIST = []


def add(fn, label, build, stubs=None):
    LIST.append((fn, label, build, stubs))


def S1(I, nm, lab='t', **k):
    return C.series(I, nm, n(), lab, **k)


def A1(I, nm, nn=None, **k):
    return C.nd(I, nm, nn or n(), **k)


def F1(I, nm, lab='t', cols='s', nn=None, **k):
    return C.frame(I, nm, nn or n(), lab, ncol=T.s_add(num(1), m()), cname=cols, **k)


def POS(I, nm='pos', lab='s', cols=('E', 'N')):
    return C.frame(I, nm, m(), lab, cols=list(cols))


def opts(I, **kw):
    return C.dct(I, kw, 'options')


VEC = [('nd', A1), ('series', S1), ('frame', F1)]

# ---- stats, irradiance
for f in ('bias_error', 'absolute_error', 'squared_error', 'mbe', 'mae', 'mse', 'rmse'):
    for k, mk in VEC:
        add('stats.' + f, k, lambda I, mk=mk: ([mk(I, 'a'), mk(I, 'b')], {}))
for k, mk in VEC[1:]:
    for f in ('variability_score', 'darr'):
        add('stats.' + f, k, lambda I, mk=mk: ([mk(I, 'x')], {}))
        add('stats.' + f, k + ' options', lambda I, mk=mk: ([mk(I, 'x')], dict(moving_avg=TRUE, pct=FALSE)))
    add('stats.variability_index', k, lambda I, mk=mk: ([mk(I, 'x'), mk(I, 'cs')], {}))
    add('stats.variability_index', k + ' norm', lambda I, mk=mk: ([mk(I, 'x'), mk(I, 'cs')], dict(norm=TRUE)))
add('stats.calc_quantile', 'series', lambda I: ([S1(I, 'x')], {}))
for k, mk in VEC:
    add('irradiance.clearsky_index', k, lambda I, mk=mk: ([mk(I, 'g'), (mk if k != 'frame' else S1)(I, 'cs')], {}))
add('irradiance.clearsky_index', 'scalar', lambda I: ([sc('g'), sc('cs')], {}))

# ---- spatial
for k in ('nd', 'series', 'list'):
    add('spatial.latlon2utm', k, lambda I, k=k: ([vec(I, k, 'lat', n()), vec(I, k, 'lon', n())], {}))
    add('spatial.utm2latlon', k, lambda I, k=k: ([vec(I, k, 'e', n()), vec(I, k, 'n', n()), sc('zone')], {}))
    add('spatial.latlon2lcs', k, lambda I, k=k: ([vec(I, k, 'lat', n()), vec(I, k, 'lon', n()), sc('olat'), sc('olon')], {}))
    add('spatial.lcs2latlon', k, lambda I, k=k: ([vec(I, k, 'e', n()), vec(I, k, 'nn', n()), sc('olat'), sc('olon')], {}))
    add('spatial.compute_vectors', k, lambda I, k=k: ([vec(I, k, 'x', n()), vec(I, k, 'y', n()), C.nd(I, 'ref', 2)], {}))
    for md in ('matlab', 'tmerc'):
        add('spatial.lla2flat', k + ' ' + md, lambda I, k=k, md=md: ([vec(I, k, 'lat', n()), vec(I, k, 'lon', n()), sc('lat0'), sc('lon0')], dict(method=leaf(md))))
add('spatial.project_vectors', 'nd', lambda I: ([C.nd(I, 'v', n(), 2), C.nd(I, 'd', 2)], {}))
add('spatial.project_vectors', 'frame', lambda I: ([C.frame(I, 'v', n(), 's', cols=['dx', 'dy']), C.nd(I, 'd', 2)], {}))
add('spatial.compute_intersection', 'nd', lambda I: ([C.nd(I, 'a', n(), 2), C.nd(I, 'b', n(), 2)], {}))
add('spatial.rotate_vector', 'nd', lambda I: ([C.nd(I, 'v', 2), sc('th')], {}))
add('spatial.rotate_vector', 'stack', lambda I: ([C.nd(I, 'v', 2, n()), sc('th')], {}))
add('spatial.unit', 'nd', lambda I: ([C.nd(I, 'v', 2)], {}))
add('spatial.magnitude', 'nd', lambda I: ([C.nd(I, 'v', 2)], {}))
add('spatial.magnitude', 'stack', lambda I: ([C.nd(I, 'v', 2, n())], {}))
add('spatial.dot', 'nd', lambda I: ([C.nd(I, 'a', 2), C.nd(I, 'b', 2)], {}))
for f in ('pol2rect', 'rect2pol'):
    add('spatial.' + f, 'nd', lambda I: ([A1(I, 'a'), A1(I, 'b')], {}))
add('spatial.spacetime_distances', 'nd', lambda I: ([A1(I, 'e'), A1(I, 'n'), C.dtindex(I, 'tt', L('k')), sc('spd'), sc('dir')], {}))

# ---- signal processing
for s in ('coeff', 'none', 'energy', 'unbiased_energy', 'unbiased_coeff'):
    for k, mk in VEC[:2]:
        add('signalproc.correlation', k + ' ' + s, lambda I, mk=mk, s=s: ([mk(I, 'a'), mk(I, 'b'), leaf(s)], {}))
    add('signalproc.xcorr_delay', s, lambda I, s=s: ([S1(I, 'a'), S1(I, 'b'), leaf(s)], {}))
for s in ('coeff', 'none'):
    for md in ('loop', 'fft'):
        add('signalproc.compute_delays', s + ' ' + md, lambda I, s=s, md=md: ([F1(I, 'a'), F1(I, 'b')], dict(mode=leaf(md), scaling=leaf(s))))
for k, mk in VEC[1:]:
    add('signalproc.averaged_psd', k, lambda I, mk=mk: ([mk(I, 'x'), sc('navgs')], {}))
    add('signalproc.averaged_tf', k, lambda I, mk=mk: ([S1(I, 'x'), mk(I, 'y'), sc('navgs')], {}))
    add('signalproc.averaged_tf', k + ' in', lambda I, mk=mk: ([mk(I, 'x'), S1(I, 'y'), sc('navgs')], {}))
    for md in ('multi', 'fit'):
        for x in (TRUE, FALSE):
            add('signalproc.compute_delays_tf', '%s %s %s' % (k, md, x), lambda I, mk=mk, md=md, x=x: ([S1(I, 'x'), mk(I, 'y')], dict(method=leaf(md), compute_xcorr=x)))
    add('signalproc.interp_tf', k, lambda I, mk=mk: ([A1(I, 'fn', L('k')), mk(I, 'h', 'f', real=False)], {}))
for md in ('fit', 'diff', 'multi'):
    for lim in ('given', 'none'):
        l = (lambda: dict(coh_limit=sc('cl'), freq_limit=sc('fl'))) if lim == 'given' else (lambda: dict(coh_limit=NONE, freq_limit=NONE))
        add('signalproc.tf_delay', 'series %s %s' % (md, lim), lambda I, md=md, l=l: ([S1(I, 'h', 'f', real=False), S1(I, 'coh', 'f')], dict(l(), method=leaf(md))))
        if md == 'multi':
            add('signalproc.tf_delay', 'frame %s %s' % (md, lim), lambda I, md=md, l=l: ([F1(I, 'h', 'f', real=False), F1(I, 'coh', 'f')], dict(l(), method=leaf(md))))
add('signalproc.apply_delay', 'series', lambda I: ([S1(I, 'h', 'f', real=False), sc('d')], {}))
for s in ('square', 'triangle', 'gaussian'):
    add('signalproc.get_1d_plant', s, lambda I, s=s: ([A1(I, 'cen', m())], dict(shape=leaf(s), ref_center=sc('rc'), dx=sc('dx', pos=True), width=sc('w'))))
add('signalproc.get_1d_plant', 'frame', lambda I: ([C.frame(I, 'cen', m(), 's', cols=['dist'])], {}))
add('signalproc.plant1d_to_camfilter', 'nd', lambda I: ([A1(I, 'p'), A1(I, 'x'), sc('v')], {}))
add('signalproc.apply_filter', 'series', lambda I: ([S1(I, 'x'), C.series(I, 'h', L('k'), 'f', real=False)], {}))
add('signalproc.get_marcosfilter', 'nd', lambda I: ([sc('s', pos=True), A1(I, 'f')], {}))
for cs in (('E', 'N'), ('lat', 'lon')):
    add('signalproc.get_camfilter', cs[0], lambda I, cs=cs: ([POS(I, cols=cs), sc('v'), C.nd(I, 'd', 2), C.series(I, 'ref', None, None, labels=list(cs))], {}))
add('signalproc.cleanfreq', 'series', lambda I: ([S1(I, 'sig', 'f')], {}))

# ---- cloud motion vectors and field analysis
OPT = dict(jamaly=['minvelocity', 'maxvelocity', 'var_s_lim', 'ktlim', 'mincorr'], gagne=['ktlim'])
for md in ('jamaly', 'gagne'):
    for be in ('xcorr', 'tf'):
        for o in ('none', 'all', 'one'):
            def bld(I, md=md, be=be, o=o):
                kw = dict(method=leaf(md), delay_backend=leaf(be))
                if o != 'none':
                    kw['options'] = opts(I, **{k: sc(k) for k in (OPT[md] if o == 'all' else OPT[md][-1:])})
                return [C.frame(I, 'ts', n(), 't', ncol=m(), cname='s'), POS(I)], kw
            add('cmv.compute_cmv', '%s %s %s' % (md, be, o), bld, SM.DELAYS)
add('cmv.compute_cmv', 'reference', lambda I: ([C.frame(I, 'ts', n(), 't', ncol=m(), cname='s'), POS(I), leaf('a')], {}), SM.DELAYS)
add('cmv.compute_cmv', 'references', lambda I: ([C.frame(I, 'ts', n(), 't', ncol=m(), cname='s'), POS(I), C.lst(I, [leaf('a'), leaf('b')], 'refs')], {}), SM.DELAYS)
for k, mk in VEC[:2]:
    add('cmv.optimum_subset', k, lambda I, mk=mk: ([mk(I, 'cx'), mk(I, 'cy')], dict(n=L('nsel'))))
    add('cmv.optimum_subset', k + ' two', lambda I, mk=mk: ([mk(I, 'cx'), mk(I, 'cy')], dict(n=num(2))))


def two_dfs(I, nm='a'):
    return C.lst(I, [C.frame(I, 'ts0', n(), 't', ncol=m(), cname='s'), C.frame(I, 'ts1', L('n2'), 'tb', ncol=m(), cname='s')], 'dfs')


def vecs(I):
    return C.lst(I, [Tup([sc('vx0'), sc('vy0')]), Tup([sc('vx1'), sc('vy1')])], 'cld_vecs')


MODES = ('coherence', 'preavg', 'global_coherence', 'distance', 'all')
for md in MODES:
    add('field.compute_predicted_position', md, lambda I, md=md: ([two_dfs(I), POS(I), leaf('a'), vecs(I)], dict(mode=leaf(md))), SM.DELAYS)
add('field.compute_delays', 'frame', lambda I: ([C.frame(I, 'ts', n(), 't', ncol=m(), cname='s'), leaf('a')], {}), SM.DELAYS)
RM = lambda I, nm='remap': C.lst(I, [Tup([leaf('a'), leaf('b')]), Tup([leaf('b'), leaf('a')])], nm)
add('field.remap_positions', 'list', lambda I: ([C.frame(I, 'pos', 3, 's', rows=['a', 'b', 'c'], cols=['E', 'N']), RM(I)], {}))
add('field.remap_positions', 'columns', lambda I: ([C.frame(I, 'pos', 3, 's', rows=['a', 'b', 'c'], cols=['E', 'N']), RM(I)], dict(columns=C.lst(I, [leaf('E')], 'columns'))))
add('field.cascade_remap', 'list', lambda I: ([RM(I, 'remap1'), RM(I, 'remap2')], {}))
add('field.assign_positions', 'frame', lambda I: ([POS(I), POS(I, 'pp')], {}))
add('field.assign_positions', 'nan', lambda I: ([POS(I), C.frame(I, 'pp', m(), 's', cols=['E', 'N'], nan=True)], {}))

# ---- synthetic irradiance
D2 = lambda I, nm: C.nd(I, nm, n(), m())


def params(I):
    return C.dct(I, {'comp': C.lst(I, [sc('c0'), sc('c1'), sc('c2')], 'params'), 'mean': C.lst(I, [sc('m0'), sc('m1'), sc('m2')], 'params'),
                     'sdevClear': C.lst(I, [sc('s0'), sc('s1'), sc('s2')], 'params'), 'sdevCloud': C.lst(I, [sc('d0'), sc('d1'), sc('d2')], 'params'),
                     'corr_quadr': sc('cq')}, 'params')


def ds_args(I):
    return [C.dtindex(I, 'times', L('k')), A1(I, 'e', m()), A1(I, 'n', m()), sc('spd'), sc('dir'), sc('csi'), params(I)]


for sd in ('none', 'given'):
    for a in (TRUE, FALSE):
        for b2 in (TRUE, FALSE):
            add('synthirrad.copula.downscale', '%s %s %s' % (sd, a, b2), lambda I, sd=sd, a=a, b2=b2: (ds_args(I), dict(scale=a, noneg=b2, **({'seed': sc('seed')} if sd == 'given' else {}))))
add('synthirrad.copula.downscale_multihour', 'lists', lambda I: ([C.lst(I, [C.dtindex(I, 'ta', L('ka')), C.dtindex(I, 'tb', L('kb'))], 'times'), A1(I, 'e', m()), A1(I, 'n', m()),
    C.lst(I, [sc('spd0'), sc('spd1')], 'spd'), C.lst(I, [sc('dir0'), sc('dir1')], 'dir'), C.lst(I, [sc('csi0'), sc('csi1')], 'csi'), C.lst(I, [params(I), params(I)], 'plist')], dict(seed=sc('seed'))))
add('synthirrad.copula.downscale_multihour', 'single', lambda I: ([C.dtindex(I, 'times', L('k')), A1(I, 'e', m()), A1(I, 'n', m()), num(5), num(1), C.lst(I, [sc('csi0'), sc('csi1')], 'csi'), params(I)], dict(seed=sc('seed'))))
for sd in ('none', 'given'):
    add('synthirrad.copula._copularnd_gaussian', sd, lambda I, sd=sd: ([sc('k'), C.nd(I, 'cov', m(), m())] + ([sc('seed')] if sd == 'given' else []), {}))
add('synthirrad.copula._exponential_decay_parameter', 'nd', lambda I: ([A1(I, 'K'), sc('p')], {}))
add('synthirrad.copula._gmdistribution', 'nd', lambda I: ([A1(I, 'x'), C.lst(I, [sc('mu0'), sc('mu1')], 'mu'), C.lst(I, [sc('v0'), sc('v1')], 'var'), C.lst(I, [sc('p0'), sc('p1')], 'p')], {}))
add('synthirrad.copula._process_params', 'dict', lambda I: ([sc('csi'), params(I)], {}))
add('synthirrad.copula._solar_gmm', 'nd', lambda I: ([A1(I, 'x'), sc('csi'), params(I)], {}))
add('synthirrad.copula._inverse_sample', 'nd', lambda I: ([A1(I, 'x'), A1(I, 'cdf'), C.nd(I, 'r', L('k'), m())], {}))
add('synthirrad.copula._sigmoid', 'nd', lambda I: ([A1(I, 'x'), sc('a'), sc('c')], {}))
CF = 'synthirrad.cloudfield.'
add(CF + '_calc_wavelet_weights', 'nd', lambda I: ([D2(I, 'waves')], {}))
add(CF + '_calc_vs_weights', 'list', lambda I: ([C.lst(I, [num(1), num(2), num(5)], 'scales'), sc('vs')], {}))
add(CF + '_random_at_scale', 'sizes', lambda I: ([Tup([num(7), num(5)]), Tup([num(100), num(50)])], {}))
add(CF + '_random_at_scale', 'same', lambda I: ([Tup([num(7), num(5)]), Tup([num(7), num(5)])], {}))
add(CF + '_stack_random_field', 'nd', lambda I: ([C.lst(I, [sc('w0'), sc('w1')], 'weights'), C.lst(I, [num(1), num(2)], 'scales'), Tup([num(100), num(50)])], {}))
add(CF + '_calc_clear_mask', 'nd', lambda I: ([D2(I, 'field'), sc('frac')], {}))
add(CF + '_find_edges', 'nd', lambda I: ([D2(I, 'mask'), num(3)], {}))
for f in ('_scale_field_lave', '_scale_field_basic'):
    add(CF + f, 'nd', lambda I: ([D2(I, 'field'), D2(I, 'clear'), D2(I, 'edge'), sc('ktmean')], {}))
add(CF + 'get_timeseries_stats', 'series', lambda I: ([S1(I, 'kt')], {}))
add(CF + 'get_positional_ts', 'nd', lambda I: ([Tup([sc('x'), sc('y')]), D2(I, 'field'), sc('v')], {}))
for s in ('original', 'basic', 'default'):
    add(CF + 'cloudfield_timeseries', s, lambda I, s=s: ([C.lst(I, [sc('w0'), sc('w1')], 'weights'), C.lst(I, [num(1), num(2)], 'scales'), Tup([num(100), num(50)]), sc('fc'), sc('ktmean'), sc('ktmax'), sc('kt1')], dict(scaling=leaf(s)) if s != 'default' else {}))

# ---- campaign data
add('dataio.hope_campaign.flag_qc', 'frame', lambda I: ([F1(I, 'data', nan=True), F1(I, 'flag')], {}))
add('dataio.hope_campaign.null_qc', 'frame', lambda I: ([F1(I, 'data', nan=True)], {}))
add('dataio.hope_campaign.interp_nan', 'frame', lambda I: ([F1(I, 'data', nan=True)], {}))
