"""Modular summaries: repository functions that are decided by their own
properties are replaced, inside the analysis of their callers, by an
uninterpreted function of exactly the data they receive."""
from . import terms as T
from .terms import ite, num, leaf, app, P, atom_poly, ivar
from .values import Ax, AV, Arr, Tup, Dct, Lst, Obj, Ref, S
from . import models as M


def _V(a):
    return P(atom_poly(a))


def time_cols(I, x):
    """(column axis or None, time axis, body, dt) of a time signal"""
    av = M.to_av(I, x)
    if av is None or av.ndim not in (1, 2) or av.kind not in ('series', 'frame'):
        return None
    axes, b = av.opened()
    return axes[1] if av.ndim == 2 else None, axes[0], b


def step(ax):
    if ax.lab is None:
        return num(1)
    return T.s_sub(T.subst(ax.lab, {ax.var: num(1)}), T.subst(ax.lab, {ax.var: num(0)}))


def pairwise(I, env, names, fn_names, opts, node):
    a = time_cols(I, env[names[0]])
    b = time_cols(I, env[names[1]])
    if a is None or b is None:
        return None
    ca, ta, ba = a
    cb, tb, bb = b
    v = ivar()
    n = num(1)
    one = num(1)
    for c in (ca, cb):
        if c is not None and not T.same(c.n, one):
            n = c.n
    if ca is not None:
        ba = T.subst(ba, {ca.var: num(0) if T.same(ca.n, one) else _V(v)})
    if cb is not None:
        bb = T.subst(bb, {cb.var: num(0) if T.same(cb.n, one) else _V(v)})
    if ca is not None and cb is not None and not T.same(ca.n, cb.n) and not T.same(ca.n, one) and not T.same(cb.n, one):
        I.event('shape', a=ca.n, b=cb.n)
    La = T.lam([ta.var], [ta.n], ba)
    Lb = T.lam([tb.var], [tb.n], bb)
    dt = step(ta)
    out = []
    for f in fn_names:
        attrs = dict(nan=f != 'mean_coh')
        if f == 'mean_coh':
            attrs['nonneg'] = True
        if f == 'ix':
            attrs = dict(isbool=True)
        out.append(I.alloc(Arr(AV([Ax(v, n)], app('sm:' + f, La, Lb, dt, *opts, **attrs), 'nd'))))
    return out


def optterms(I, env, names):
    return [(k, I.term(env[k])) for k in names if k in env]


def s_compute_delays(I, env, node):
    r = pairwise(I, env, ('ts_in', 'ts_out'), ('delay', 'peak_corr', 'mean_corr', 'zero_corr'),
                 optterms(I, env, ('scaling',)), node)
    if r is None:
        return NotImplemented
    d, p, m, z = r
    return Tup([d, I.alloc(Dct([('kv', leaf('peak_corr'), p), ('kv', leaf('mean_corr'), m), ('kv', leaf('zero_corr'), z)]))])


def s_compute_delays_tf(I, env, node):
    o = optterms(I, env, ('navgs', 'coh_limit', 'freq_limit', 'method', 'overlap', 'window'))
    r = pairwise(I, env, ('ts_in', 'ts_out'), ('tfdelay', 'mean_coh', 'ix'), o, node)
    if r is None:
        return NotImplemented
    d, c, ix = r
    parts = [('kv', leaf('mean_coh'), c), ('kv', leaf('ix'), ix)]
    cx = env.get('compute_xcorr')
    if cx is not T.FALSE:
        p, m, z = pairwise(I, env, ('ts_in', 'ts_out'), ('peak_corr', 'mean_corr', 'zero_corr'), [('scaling', leaf('coeff'))], node)
        p = I.alloc(Arr(M.to_av(I, p)))
        parts += [('kv', leaf('peak_corr'), p), ('kv', leaf('mean_corr'), m), ('kv', leaf('zero_corr'), z)]
    return Tup([d, I.alloc(Dct(parts))])


DELAYS = {'signalproc.compute_delays': s_compute_delays, 'signalproc.compute_delays_tf': s_compute_delays_tf}


def s_compute_cmv(I, env, node):
    """uninterpreted function of the series (by site), the positions (by site) and the options"""
    ts, pos = M.to_av(I, env['timeseries']), M.to_av(I, env['positions'])
    if ts is None or pos is None or ts.ndim != 2 or pos.ndim != 2:
        return NotImplemented
    args = [I.term(env['timeseries']), I.term(env['positions'])]
    for k in ('reference_id', 'method', 'options', 'delay_backend'):
        if k in env:
            v = env[k]
            args.append((k, I.term(v)))
    return Tup([app('sm:cmv_speed', *args, nonneg=True), app('sm:cmv_theta', *args), app('sm:cmv_details', *args)])


CMV = {'cmv.compute_cmv': s_compute_cmv}


def s_downscale(I, env, node):
    """one row per time, one column per site: an uninterpreted function of everything passed"""
    if any(isinstance(env[k], Ref) and isinstance(I.rec(env[k]), Lst) for k in ('times', 'params')):
        return NotImplemented        # a list is neither a time index nor a parameter set: the function itself decides
    t, e = M.to_av(I, env['times']), M.to_av(I, env['e_pos'])
    if t is None or e is None or t.ndim != 1 or e.ndim != 1:
        return None
    names = ('times', 'e_pos', 'n_pos', 'cloud_spd', 'cloud_dir', 'mean_csi', 'params', 'seed', 'scale', 'noneg')
    i, j = ivar(), ivar()
    return I.alloc(Arr(AV([Ax(i, t.axes[0].n), Ax(j, e.axes[0].n)],
                          app('sm:downscale', *[I.term(env[k]) for k in names], _V(i), _V(j)), 'nd')))


DOWNSCALE = {'synthirrad.copula.downscale': s_downscale}


def s_noise(I, env, node):
    """the interpolated noise of one scale: an uninterpreted field of the sizes asked for and the number of the draw"""
    a, b = M.shape_items(I, env['rand_size']), M.shape_items(I, env['final_size'])
    if a is None or b is None or len(a) != 2 or len(b) != 2:
        return None
    I.rng_count += 1
    k = num(I.rng_count)
    i, j, p, q = ivar(), ivar(), ivar(), ivar()
    return Tup([I.alloc(Arr(AV([Ax(p, a[0]), Ax(q, a[1])], app('sm:draw', *a, k, _V(p), _V(q)), 'nd'))),
                I.alloc(Arr(AV([Ax(i, b[0]), Ax(j, b[1])], app('sm:noise', *a, *b, k, _V(i), _V(j)), 'nd')))])


NOISE = {'synthirrad.cloudfield._random_at_scale': s_noise}


def _grid(name, names, counted=False):
    """a field of the same size, uninterpreted in everything passed"""
    def f(I, env, node):
        t = [I.term(env[k]) for k in names]
        if counted:
            I.rng_count += 1
            t.append(num(I.rng_count))
            sh = M.shape_items(I, env['size'])
        else:
            av = M.to_av(I, env[names[0]])
            sh = None if av is None else [a.n for a in av.axes]
        if sh is None or len(sh) != 2:
            return None
        i, j = ivar(), ivar()
        return I.alloc(Arr(AV([Ax(i, sh[0]), Ax(j, sh[1])], app('sm:' + name, *t, _V(i), _V(j)), 'nd')))
    return f


def s_edges(I, env, node):
    names = ('base_mask', 'size', 'binarize_threshold')
    a, b = [_grid(k, names)(I, env, node) for k in ('edges', 'broad')]
    return None if a is None or b is None else Tup([a, b])


CLOUD = {'synthirrad.cloudfield._stack_random_field': _grid('stack', ('weights', 'scales', 'size', 'normalize'), True),
         'synthirrad.cloudfield._calc_clear_mask': _grid('mask', ('field', 'clear_frac')),
         'synthirrad.cloudfield._find_edges': s_edges,
         'synthirrad.cloudfield._scale_field_lave': _grid('lave', ('field', 'clear_mask', 'edge_mask', 'ktmean', 'ktmax', 'kt1pct', 'max_quant')),
         'synthirrad.cloudfield._scale_field_basic': _grid('basic', ('field', 'clear_mask', 'edge_mask', 'ktmean', 'ktmax', 'kt1pct', 'quant', 'flipdistr', 'cs_smoothing'))}
