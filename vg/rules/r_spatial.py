"""Coordinate conversions and plane geometry."""
from .util import *


def geo(I, kind, nn=None):
    if kind == 'scalar':
        return sc('lat'), sc('lon')
    nn = nn or n()
    return vec(I, kind, 'lat', nn), vec(I, kind, 'lon', nn)


def elems(c, r):
    """(length, elem(i)) of a list / nd / series argument"""
    I = c.I
    rr = I.rec(r)
    if isinstance(rr, Lst):
        it = items(c, r)
        return num(len(it)), lambda i: M.select_at(it, i) if False else it[i]
    return av(c, r).axes[0].n, lambda i: at(c, r, i)


# ------------------------------------------------------------------ P07
@case('P07', params=['auto', 'given'])
def utm_scalar(c, zk):
    I = c.I
    lat, lon = sc('lat'), sc('lon')
    z = [] if zk == 'auto' else [sc('zone', isint=True, pos=True)]
    c.eq(c.call('spatial.latlon2utm', lat, lon, *z), c.spec('spatial.utm', lat, lon, *z),
         'projects with the requested (or the longitude\'s) zone, southern false northing below the equator', 'spatial.latlon2utm')


@case('P07')
def zone(c):
    lon = sc('lon')
    c.eq(c.call('spatial._calc_zone', lon), c.spec('spatial.zone_of', lon), '6 degree zones counted from -180, at most 60', 'spatial._calc_zone')
    for x, z in [(-180, 1), (-174, 2), (-174.01, 1), (0, 31), (-0.5, 30), (179.9, 60), (180, 60), (5.99, 31), (6, 32)]:
        c.eq(c.call('spatial._calc_zone', num(x)), num(z), 'zone numbers run from 1 to 60', 'spatial._calc_zone')


@case('P07', params=['north', 'south', 'pos', 'default'])
def utm_inverse(c, kind):
    e, nn, z = sc('e'), sc('n'), sc('zone', isint=True, pos=True)
    s = {'north': FALSE, 'south': TRUE, 'pos': sc('south', isbool=True), 'default': FALSE}[kind]
    a = [] if kind == 'default' else [s]
    c.eq(c.call('spatial.utm2latlon', e, nn, z, *a), c.spec('spatial.inv', e, nn, z, s),
         'inverse of the same projection', 'spatial.utm2latlon')


@case('P07', params=['auto', 'given'])
def utm_roundtrip(c, zk):
    lat, lon = sc('lat'), sc('lon')
    z = [] if zk == 'auto' else [sc('zone', isint=True, pos=True)]
    for south in (TRUE, FALSE):
        u = c.call('spatial.latlon2utm', lat, lon, *z)
        e, nn, zo = items(c, u)
        sv = T.s_lt(lat, num(0))
        r = c.call('spatial.utm2latlon', e, nn, zo, sv)
        c.eq(r, Tup([lat, lon]), 'projecting and unprojecting with the returned zone gives the point back', 'spatial.utm2latlon')


@case('P07', params=[(k, z) for k in ARR for z in ('auto', 'given')])
def utm_elementwise(c, kind, zk):
    I = c.I
    lat, lon = geo(I, kind)
    z = [] if zk == 'auto' else [sc('zone', isint=True, pos=True)]
    r = c.call('spatial.latlon2utm', lat, lon, *z)
    L, f = elems(c, lat)
    _, g = elems(c, lon)
    i = num(1) if kind == 'list' else idx('i', L)
    k = 1 if kind == 'list' else i
    want = items(c, c.spec('spatial.utm', f(k), g(k), *z))
    sh = shape(c, r)
    c.eq(Tup(sh), Tup([L, num(3)]), 'one (E, N, zone) row per point', 'spatial.latlon2utm')
    for j in range(3):
        c.eq(at(c, r, i, j), want[j], 'each row is the scalar conversion of its point', 'spatial.latlon2utm')
    if kind == 'series':
        c.eq(axis_labels(c, r, 0, i), axis_labels(c, lat, 0, i), 'the result keeps the index of the input', 'spatial.latlon2utm')
        c.eq(Tup([axis_labels(c, r, 1, j) for j in range(3)]), Tup([leaf('E'), leaf('N'), leaf('zone')]), 'columns E, N, zone', 'spatial.latlon2utm')


@case('P07', params=ARR)
def inverse_elementwise(c, kind):
    I = c.I
    nn = n()
    e, no = vec(I, kind, 'e', nn), vec(I, kind, 'n', nn)
    z, s = sc('zone', isint=True, pos=True), sc('south', isbool=True)
    r = c.call('spatial.utm2latlon', e, no, z, s)
    L, f = elems(c, e)
    _, g = elems(c, no)
    i = num(1) if kind == 'list' else idx('i', L)
    k = 1 if kind == 'list' else i
    want = items(c, c.spec('spatial.inv', f(k), g(k), z, s))
    c.eq(Tup(shape(c, r)), Tup([L, num(2)]), 'one (lat, lon) row per point', 'spatial.utm2latlon')
    for j in range(2):
        c.eq(at(c, r, i, j), want[j], 'each row is the scalar inverse of its point', 'spatial.utm2latlon')
    if kind == 'series':
        c.eq(axis_labels(c, r, 0, i), axis_labels(c, e, 0, i), 'the result keeps the index of the input', 'spatial.utm2latlon')
        c.eq(Tup([axis_labels(c, r, 1, j) for j in range(2)]), Tup([leaf('lat'), leaf('lon')]), 'columns lat, lon', 'spatial.utm2latlon')


@case('P07', params=['latlon2utm', 'utm2latlon'])
def length_mismatch(c, f):
    I = c.I
    a, b = C.nd(I, 'a', n()), C.nd(I, 'b', T.s_add(n(), num(1)))
    rejects(c, ('ValueError',), 'spatial.' + f, 'inputs of different length are rejected', a, b, *([num(30)] if f == 'utm2latlon' else []))


# ------------------------------------------------------------------ P08
@case('P08', params=['auto', 'given'])
def lcs_scalar(c, zk):
    z = [] if zk == 'auto' else [sc('zone', isint=True, pos=True)]
    lat, lon, la0, lo0 = sc('lat'), sc('lon'), sc('lat0'), sc('lon0')
    c.eq(c.call('spatial.latlon2lcs', lat, lon, la0, lo0, *z), c.spec('spatial.lcs', lat, lon, la0, lo0, *z),
         'target and origin are projected in one zone and hemisphere, then subtracted', 'spatial.latlon2lcs')
    r = c.call('spatial.latlon2lcs', la0, lo0, la0, lo0, *z)
    c.eq(r, Tup([num(0), num(0)]), 'the origin maps to (0, 0)', 'spatial.latlon2lcs')
    e, nn = sc('e'), sc('n')
    c.eq(c.call('spatial.lcs2latlon', e, nn, la0, lo0, *z), c.spec('spatial.unlcs', e, nn, la0, lo0, *z),
         'inverse uses the origin\'s zone and hemisphere for origin and target', 'spatial.lcs2latlon')
    r = c.call('spatial.lcs2latlon', num(0), num(0), la0, lo0, *z)
    c.eq(r, Tup([la0, lo0]), '(0, 0) maps to the origin', 'spatial.lcs2latlon')
    u = items(c, c.call('spatial.latlon2lcs', lat, lon, la0, lo0, *z))
    r = c.call('spatial.lcs2latlon', u[0], u[1], la0, lo0, *z)
    c.eq(r, Tup([lat, lon]), 'converting to the local system and back gives the point', 'spatial.lcs2latlon')


@case('P08', params=[(k, z) for k in ARR for z in ('auto', 'given')])
def lcs_array(c, kind, zk):
    I = c.I
    z = [] if zk == 'auto' else [sc('zone', isint=True, pos=True)]
    lat, lon = geo(I, kind)
    la0, lo0 = sc('lat0'), sc('lon0')
    r = items(c, c.call('spatial.latlon2lcs', lat, lon, la0, lo0, *z))
    L, f = elems(c, lat)
    _, g = elems(c, lon)
    i = num(1) if kind == 'list' else idx('i', L)
    k = 1 if kind == 'list' else i
    want = items(c, c.spec('spatial.lcs', f(k), g(k), la0, lo0, *z))
    for j in range(2):
        c.eq(at(c, r[j], i), want[j], 'each point is converted as a scalar would be', 'spatial.latlon2lcs')
        if kind == 'series':
            c.eq(axis_labels(c, r[j], 0, i), axis_labels(c, lat, 0, i), 'the result keeps the index of the input', 'spatial.latlon2lcs')


@case('P08', params=['nd', 'series'])
def lcs_paired(c, kind):
    """one origin per target, zone requested, all north of the equator: pairs are matched by position"""
    I = c.I
    z = sc('zone', isint=True, pos=True)
    la0, lo0 = vec(I, kind, 'lat0', n(), nonneg=True), vec(I, kind, 'lon0', n())
    lat, lon = vec(I, kind, 'lat', n(), nonneg=True), vec(I, kind, 'lon', n())
    L, f = elems(c, lat)
    i = num(1) if kind == 'list' else idx('i', L)
    k = 1 if kind == 'list' else i
    g = [elems(c, x)[1](k) for x in (lat, lon, la0, lo0)]
    want = items(c, c.spec('spatial.lcs', *g, z))
    r = items(c, c.call('spatial.latlon2lcs', lat, lon, la0, lo0, z))
    for j in range(2):
        c.eq(at(c, r[j], i), want[j], 'each point is converted about its own origin', 'spatial.latlon2lcs')


# ------------------------------------------------------------------ P09
@case('P09', params=['scalar', 'nd', 'series'])
def flat_earth(c, kind):
    I = c.I
    lat, lon = geo(I, kind)
    la0, lo0 = sc('lat0'), sc('lon0')
    for a in ([], [leaf('matlab')]):
        c.eq(c.call('spatial.lla2flat', lat, lon, la0, lo0, *a), c.spec('spatial.flat', lat, lon, la0, lo0),
             'flat-earth formula with WGS84 radii at the reference latitude', 'spatial.lla2flat')
    c.eq(c.call('spatial.lla2flat', lat, lon, la0, lo0, leaf('tmerc')), c.spec('spatial.tmerc', lat, lon, la0, lo0),
         'transverse mercator centred on the reference', 'spatial.lla2flat')
    if kind == 'scalar':
        c.eq(c.call('spatial.lla2flat', la0, lo0, la0, lo0), Tup([num(0), num(0)]), 'the reference maps to (0, 0)', 'spatial.lla2flat')


# ------------------------------------------------------------------ P10
def pts(I, kind, nn):
    if kind == 'nd':
        return C.nd(I, 'v', nn, 2)
    if kind == 'frame':
        return C.frame(I, 'v', nn, 's', cols=['E', 'N'])
    return C.lst(I, [Tup([sc('v%d0' % k), sc('v%d1' % k)]) for k in range(3)], 'v')


@case('P10', params=[(a, b) for a in ('nd', 'frame', 'list') for b in ('nd',)])
def project(c, vk, dk):
    I = c.I
    v = pts(I, vk, n())
    u = C.nd(I, 'u', 2) if dk == 'nd' else C.series(I, 'u', 2, 'x', labels=['E', 'N'])
    r = c.call('spatial.project_vectors', v, u)
    a = av(c, v)
    i = num(1) if vk == 'list' else idx('i', a.axes[0].n)
    want = c.spec('spatial.proj', at(c, v, i, 0), at(c, v, i, 1), at(c, u, 0), at(c, u, 1))
    got = at(c, r, i, 0) if vk == 'frame' else at(c, r, i)
    c.eq(got, want, 'signed length of each vector along the direction, whatever the direction\'s length', 'spatial.project_vectors')
    if vk == 'frame':
        c.eq(axis_labels(c, r, 0, i), axis_labels(c, v, 0, i), 'the result keeps the index of the input', 'spatial.project_vectors')
        c.eq(axis_labels(c, r, 1, 0), leaf('dist'), 'one column named dist', 'spatial.project_vectors')


@case('P10', params=['nd', 'frame'])
def project_scale(c, vk):
    """direction length does not matter; doubling vectors doubles; reversing direction negates"""
    I = c.I
    v = pts(I, vk, n())
    ux, uy, k = sc('ux'), sc('uy'), sc('k', pos=True)
    def arr2(x, y):
        return M.to_arr(I, C.lst(I, [x, y])) if hasattr(M, 'to_arr') else c.spec('util.arr', x, y)
    base = c.call('spatial.project_vectors', v, arr2(ux, uy))
    c.eq(c.call('spatial.project_vectors', v, arr2(T.s_mul(k, ux), T.s_mul(k, uy))), base,
         'the length of the direction vector does not matter', 'spatial.project_vectors')
    neg = c.call('spatial.project_vectors', v, arr2(T.s_neg(ux), T.s_neg(uy)))
    i = idx('i', n())
    z = (lambda r: at(c, r, i, 0)) if vk == 'frame' else (lambda r: at(c, r, i))
    c.eq(z(neg), T.s_neg(z(base)), 'reversing the direction changes the sign', 'spatial.project_vectors')


# ------------------------------------------------------------------ P11
@case('P11')
def polar(c):
    x, y, r, th = sc('x'), sc('y'), sc('r'), sc('th')
    c.eq(c.call('spatial.rect2pol', x, y), c.spec('spatial.polar', x, y), 'radius and counter-clockwise angle from east', 'spatial.rect2pol')
    c.eq(c.call('spatial.pol2rect', r, th), c.spec('spatial.rect', r, th), 'x along angle 0, y along pi/2', 'spatial.pol2rect')
    p = items(c, c.call('spatial.rect2pol', x, y))
    c.eq(c.call('spatial.pol2rect', *p), Tup([x, y]), 'polar and back is the identity', 'spatial.pol2rect')
    I = c.I
    for k in ('nd', 'series'):
        a, b = vec(I, k, 'a', n()), vec(I, k, 'b', n())
        i = idx('i', n())
        g = items(c, c.call('spatial.rect2pol', a, b))
        w = items(c, c.spec('spatial.polar', at(c, a, i), at(c, b, i)))
        for q in range(2):
            c.eq(at(c, g[q], i), w[q], 'arrays are converted elementwise', 'spatial.rect2pol')


def vec2(c, kind):
    I = c.I
    if kind == 'tuple':
        return Tup([sc('x'), sc('y')])
    if kind == 'list':
        return C.lst(I, [sc('x'), sc('y')], 'v')
    if kind == 'nd':
        return C.nd(I, 'v', 2)
    return C.series(I, 'v', 2, 's', labels=['E', 'N'])


def comp(c, v):
    it = items(c, v)
    if it is not None:
        return it
    return [at(c, v, 0), at(c, v, 1)]


@case('P11', params=['tuple', 'list', 'nd', 'series'])
def vectors(c, kind):
    I = c.I
    v = vec2(c, kind)
    x, y = comp(c, v)
    c.eq(c.call('spatial.magnitude', v), c.spec('spatial.mag', x, y), 'euclidean length', 'spatial.magnitude')
    if kind != 'series':
        w = Tup([sc('p'), sc('q')])
        c.eq(c.call('spatial.dot', v, w), c.spec('spatial.dot', x, y, *w.items), 'scalar product', 'spatial.dot')
    if kind in ('nd', 'series'):
        u = c.call('spatial.unit', v)
        m_ = c.spec('spatial.mag', x, y)
        c.eq(Tup(comp(c, u)), Tup([T.s_div(x, m_), T.s_div(y, m_)]), 'same direction, length one', 'spatial.unit')
    if kind != 'series':
        th = sc('th')
        r = c.call('spatial.rotate_vector', v, th)
        c.eq(Tup(comp(c, r)), c.spec('spatial.rotate', x, y, th), 'counter-clockwise rotation', 'spatial.rotate_vector')
        rr = c.I.rec(r) if isinstance(r, Ref) else r
        if kind in ('tuple', 'list'):
            c.check(isinstance(rr, Tup), 'tuple or list in, tuple out', 'spatial.rotate_vector')
        else:
            c.check(not isinstance(rr, Tup), 'array in, array out', 'spatial.rotate_vector')
        r2 = c.call('spatial.rotate_vector', r, T.s_neg(th))
        c.eq(Tup(comp(c, r2)), Tup([x, y]), 'rotating back restores the vector', 'spatial.rotate_vector')


@case('P11')
def rotate_stack(c):
    """2 x n array of column vectors"""
    I = c.I
    v = C.nd(I, 'v', 2, n())
    th = sc('th')
    r = c.call('spatial.rotate_vector', v, th)
    i = idx('i', n())
    c.eq(Tup([at(c, r, 0, i), at(c, r, 1, i)]), c.spec('spatial.rotate', at(c, v, 0, i), at(c, v, 1, i), th),
         'each column of a 2 x n array is rotated', 'spatial.rotate_vector')


# ------------------------------------------------------------------ P12
@case('P12', params=[(k, r) for k in ('nd', 'series', 'list') for r in ('tuple', 'nd', 'series', 'series3')])
def vectors_from(c, kind, rk):
    I = c.I
    x, y = vec(I, kind, 'x', n()), vec(I, kind, 'y', n())
    ref = {'tuple': lambda: Tup([sc('x0'), sc('y0')]), 'nd': lambda: C.nd(I, 'r', 2),
           'series': lambda: C.series(I, 'r', 2, 'q', labels=['E', 'N']),
           'series3': lambda: C.series(I, 'r', 3, 'q', labels=['E', 'N', 'zone'])}[rk]()
    r = c.call('spatial.compute_vectors', x, y, ref)
    L, f = elems(c, x)
    _, g = elems(c, y)
    i = num(1) if kind == 'list' else idx('i', L)
    k = 1 if kind == 'list' else i
    x0, y0 = comp(c, ref)[:2]
    c.eq(Tup(shape(c, r)), Tup([L, num(2)]), 'one vector per point', 'spatial.compute_vectors')
    c.eq(Tup([at(c, r, i, 0), at(c, r, i, 1)]), Tup([T.s_sub(f(k), x0), T.s_sub(g(k), y0)]),
         'vectors point from the reference to each point', 'spatial.compute_vectors')
    if kind == 'series':
        c.eq(axis_labels(c, r, 0, i), axis_labels(c, x, 0, i), 'the result keeps the index of the input', 'spatial.compute_vectors')
        c.eq(Tup([axis_labels(c, r, 1, 0), axis_labels(c, r, 1, 1)]), Tup([leaf('dx'), leaf('dy')]), 'columns dx and dy', 'spatial.compute_vectors')


# ------------------------------------------------------------------ P13
@case('P13')
def intersection(c):
    I = c.I
    A, B = C.nd(I, 'A', n(), 2), C.nd(I, 'B', n(), 2)
    r = c.call('spatial.compute_intersection', A, B)
    i = idx('i', n())
    c.eq(Tup(shape(c, r)), Tup([n(), num(2)]), 'one point per pair', 'spatial.compute_intersection')
    cx, cy = at(c, r, i, 0), at(c, r, i, 1)
    for nm, W in (('A', A), ('B', B)):
        wx, wy = at(c, W, i, 0), at(c, W, i, 1)
        d = T.s_add(T.s_mul(cx, wx), T.s_mul(cy, wy))
        c.eq(d, T.s_add(T.s_mul(wx, wx), T.s_mul(wy, wy)), 'the point lies on the perpendicular through the tip of each vector', 'spatial.compute_intersection')


# ------------------------------------------------------------------ P14
@case('P14', params=['nd', 'series', 'list'])
def spacetime(c, kind):
    I = c.I
    nt = L('nt')
    t = C.dtindex(I, 't', nt)
    x, y = vec(I, kind, 'x', n()), vec(I, kind, 'y', n())
    cs, cd = sc('cs'), sc('cd')
    D = c.call('spatial.spacetime_distances', x, y, t, cs, cd)
    Ln, f = elems(c, x)
    _, g = elems(c, y)
    c.eq(Tup(shape(c, D)), Tup([T.s_mul(Ln, nt)] * 2), 'one row and column per site and time', 'spatial.spacetime_distances')
    # generic site pair / time pair: row = site*nt + time
    if kind == 'list':
        s1, s2 = 1, 2
        S1, S2 = num(1), num(2)
    else:
        s1, s2 = idx('s', Ln), idx('r', Ln)
        S1, S2 = s1, s2
    a, b_ = idx('a', nt), idx('b', nt)
    d = at(c, D, T.s_add(T.s_mul(S1, nt), a), T.s_add(T.s_mul(S2, nt), b_))
    dt = T.s_sub(C.lab('t', a), C.lab('t', b_))
    dx = T.s_sub(T.s_sub(f(s1), f(s2)), T.s_mul(T.s_mul(cs, dt), T.app('cos', cd)))
    dy = T.s_sub(T.s_sub(g(s1), g(s2)), T.s_mul(T.s_mul(cs, dt), T.app('sin', cd)))
    c.eq(T.s_pow(d, num(2)), T.s_add(T.s_mul(dx, dx), T.s_mul(dy, dy)),
         'distance in the frame drifting with the clouds, site-major order', 'spatial.spacetime_distances')
