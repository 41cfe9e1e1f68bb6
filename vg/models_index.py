"""Indexing, attributes and stores."""
import json
import os
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, app, ite, land, lor, lnot, const_of
from .values import *
from .models import *      # noqa: F401,F403
from . import models as M

with open(os.path.join(os.path.dirname(__file__), 'attrs.json')) as _f:
    ATTRS = {k: set(v) for k, v in json.load(_f).items()}


def V(a):
    return P(atom_poly(a))


# ------------------------------------------------------------------ lengths
def part_len(I, p):
    if p[0] == 'one':
        return num(1)
    if p[0] == 'map':
        return p[2] if p[4] is T.TRUE else FX.s_sum([p[1]], [p[2]], p[4])
    if p[0] == 'if':
        r = num(0)
        for q in p[2]:
            r = T.s_add(r, part_len(I, q))
        return ite(p[1], r, num(0))
    if p[0] == 'flat':
        r = num(0)
        sub = p[3].items if isinstance(p[3], Tup) else None
        if sub is not None:
            return T.s_mul(p[2], num(len(sub)))
        for q in p[3]:
            r = T.s_add(r, part_len(I, q))
        return FX.s_sum([p[1]], [p[2]], ite(p[4], r, num(0)))
    return T.opaque('partlen', *[x for x in p[1:] if isinstance(x, S)])


def length(I, v):
    from .interp import MaybeV
    v = unwrap(I, v)
    if isinstance(v, Tup):
        return num(len(v.items))
    if isinstance(v, Seq):
        return v.n if v.guard is T.TRUE else FX.s_sum([v.iv], [v.n], v.guard)
    if isinstance(v, MaybeV):
        return ite(v.c, length(I, v.a), length(I, v.b))
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Arr):
            return r.av.axes[0].n
        if isinstance(r, Lst):
            t = num(0)
            for p in r.parts:
                t = T.s_add(t, part_len(I, p))
            return t
        if isinstance(r, Dct):
            if all(p[0] == 'kv' for p in r.parts):
                return num(len(r.parts))
            t = num(0)
            for p in r.parts:
                if p[0] == 'kv':
                    t = T.s_add(t, num(1))
                elif p[0] == 'dmap':
                    t = T.s_add(t, FX.s_sum([p[1]], [p[2]], p[5]))
                else:
                    return T.opaque('dictlen', I.term(v))
            return t
        if isinstance(r, Obj) and '$len' in r.attrs:
            return r.attrs['$len']
    if isinstance(v, S):
        c = cstr(v)
        if c is not None:
            return num(len(c))
        if v.kind == 'N':
            return ite(T.bool_atom(v.atom), length(I, v.hi), length(I, v.lo))
        if v.kind == 'L' and isinstance(v.val, T.Poly) and not v.unmod:
            a = T.single_atom(v.val)
            if const_of(v.val) is not None or (a is not None and a.op == 'sym'):
                I.raise_('TypeError')
        if isinstance(v.val, T.SymC):
            return app('strlen', v, isint=True, nonneg=True)
    I.undecide('length of unmodelled value')
    return T.opaque('len', I.term(v))


# ------------------------------------------------------------------ positional indexing
def norm_pos(I, k, n):
    """normalise possibly negative integer position"""
    c = cint(k)
    if c is not None:
        return k if c >= 0 else T.s_add(n, k)
    k = T.as_num(k)
    if k.kind == 'L':
        p = T.as_poly(k.val)
        if p is None:
            return k
        sg = T.sign(p)
        if sg in ('+', '0+', '0'):
            return k
        if sg == '-':
            return T.s_add(n, k)
        # n - c style positions are non-negative on every reachable input
        if any(co > 0 for m, co in p.t if m) and not p.nan:
            return k
        return ite(T.s_lt(k, num(0)), T.s_add(n, k), k)
    return ite(T.bool_atom(k.atom), norm_pos(I, k.hi, n), norm_pos(I, k.lo, n))


def slice_bounds(I, s, n):
    """(lo, length, step) for a positional slice or None"""
    step = 1 if s.step is None or isnone(s.step) else cint(s.step)
    if step is None:
        return None
    lo = None if s.lo is None or isnone(s.lo) else s.lo
    hi = None if s.hi is None or isnone(s.hi) else s.hi
    if step < 0:
        if step == -1 and lo is None and hi is None:
            return T.s_sub(n, num(1)), n, -1
        if step == -1 and hi is None:
            l = bound(I, lo, n)
            return l, T.s_add(l, num(1)), -1
        return None
    l = num(0) if lo is None else bound(I, lo, n)
    h = n if hi is None else bound(I, hi, n)
    if l is None or h is None:
        return None
    if hi is not None:
        h = clip_hi(h, n)
    if lo is not None and cint(n) is not None:
        l = clip_hi(l, n)
    d = T.s_sub(h, l)
    cd = cint(d)
    if cd is not None and cd < 0:
        d = num(0)
    if step != 1:
        d = app('ceil', T.s_div(d, num(step)))
    return l, d, step


def clip_hi(h, n):
    d = T.s_sub(n, h)
    if d.kind == 'L':
        p = T.as_poly(d.val)
        if p is not None and T.sign(p) in ('+', '0+', '0'):
            return h
        if p is not None and T.sign(p) in ('-', '0-'):
            return n
        if cint(h) is not None or cint(n) is not None:
            return FX.s_min(h, n)
        return h
    return h


def bound(I, k, n):
    if not isinstance(k, S):
        return None
    c = cint(k)
    if c is not None:
        if c >= 0:
            return k
        r = T.s_add(n, k)
        cr = cint(r)
        return num(0) if cr is not None and cr < 0 else r
    if k.kind == 'L':
        p = T.as_poly(k.val)
        if p is None:
            return None
        sg = T.sign(p)
        if sg == '-':
            return T.s_add(n, k)
        if sg == '0-':
            return ite(T.s_eq(k, num(0)), num(0), T.s_add(n, k))
        if sg in ('+', '0+', '0'):
            return k
        if any(co > 0 for m, co in p.t if m):
            return k
        return ite(T.s_lt(k, num(0)), T.s_add(n, k), k)
    a, b = bound(I, k.hi, n), bound(I, k.lo, n)
    return None if a is None or b is None else ite(T.bool_atom(k.atom), a, b)


def is_mask(av):
    return av.dtype == 'bool' or (av.dtype is None and M._boolish(av.body) and not av.body.unmod)


def classify(I, k):
    """index component -> ('int',S)|('slice',Slice)|('new',)|('ell',)|('mask',AV)|('arr',AV)|('bad',)"""
    k = unwrap(I, k)
    if isinstance(k, EllipsisV):
        return ('ell',)
    if isinstance(k, Slice):
        return ('slice', k)
    if isinstance(k, S):
        if isnone(k):
            return ('new',)
        return ('int', k)
    av = to_av(I, k)
    if av is None:
        return ('bad',)
    if av.ndim == 0:
        return ('int', av.body)
    if is_mask(av):
        return ('mask', av)
    return ('arr', av)


def compress_axis(I, ax, mask_av):
    """axis selected by 1-D mask -> (new Ax, index expression into ax)"""
    maxes, mb = mask_av.opened()
    mv = maxes[0].var
    v = ivar()
    if ax.comp is not None:
        # compose masks over the base axis when the mask reads only via nth(comp)
        L = ax.comp
        if len(L.vars) == 1:
            nth = T.single_atom(app('nth', L, num(0), V(mv)).val)
            i = ivar()
            mb2 = T.subst(mb, {nth: V(i)})
            if mv not in mb2.free:
                base = T.lam_apply(L, [V(i)])
                newmask = land(base, T.as_bool(mb2))
                L2 = T.lam([i], [L.lens[0]], newmask)
                cnt = FX.s_sum([i], [L.lens[0]], newmask)
                return Ax(v, cnt, None, L2), ('comp', L, app('nth', L2, num(0), V(v)), nth)
    b = T.as_bool(mb)
    if b is T.TRUE:
        return Ax(v, ax.n), V(v)
    L = T.lam([mv], [ax.n], b)
    cnt = FX.s_sum([mv], [ax.n], b)
    return Ax(v, cnt, None, L), app('nth', L, num(0), V(v))


def index_nd(I, av, comps, node):
    """apply classified components; returns (AV, is_view) or None"""
    axes, body = av.opened()
    nd = len(axes)
    used = 0
    for c in comps:
        if c[0] in ('int', 'slice', 'arr'):
            used += 1
        elif c[0] == 'mask':
            used += c[1].ndim
    if used > nd:
        I.raise_('IndexError', node)
    comps = list(comps)
    ells = [k for k, c in enumerate(comps) if c[0] == 'ell']
    fill = [('slice', Slice(None, None, None))] * (nd - used)
    if ells:
        comps[ells[0]:ells[0] + 1] = fill
    else:
        comps += fill
    out_axes = []
    m = {}
    view = True
    k = 0
    fancy = None
    fancy_pos = None
    for c in comps:
        if c[0] == 'new':
            out_axes.append(Ax(ivar(), num(1)))
            continue
        if c[0] == 'bad':
            return None
        ax = axes[k]
        if c[0] == 'int':
            m[ax.var] = norm_pos(I, c[1], ax.n)
            n = cint(ax.n)
            ci = cint(c[1])
            if n is not None and ci is not None and not (-n <= ci < n):
                I.raise_('IndexError', node)
            k += 1
        elif c[0] == 'slice':
            sb = slice_bounds(I, c[1], ax.n)
            if sb is None:
                return None
            lo, n, step = sb
            if lo is num(0) and step == 1 and n is ax.n:
                out_axes.append(ax)
            else:
                v = ivar()
                e = T.s_add(lo, T.s_mul(num(step), V(v)))
                m[ax.var] = e
                out_axes.append(Ax(v, n, None if ax.lab is None else T.subst(ax.lab, {ax.var: e}), None, ax.lname))
            k += 1
        elif c[0] == 'mask':
            view = False
            if c[1].ndim == 1:
                nax, e = compress_axis(I, ax, c[1])
                if isinstance(e, tuple):
                    _, L, ne, nth0 = e
                    # rewrite nth(L,0,ax.var) -> ne
                    old = T.single_atom(app('nth', L, num(0), V(ax.var)).val)
                    body = T.subst(body, {old: ne})
                    if ax.lab is not None:
                        nax.lab = T.subst(ax.lab, {old: ne})
                    if ax.var in body.free:
                        return None
                else:
                    m[ax.var] = e
                    if ax.lab is not None:
                        nax.lab = T.subst(ax.lab, {ax.var: e})
                nax.lname = ax.lname
                out_axes.append(nax)
                k += 1
            else:
                mx, mb = c[1].opened()
                nn = len(mx)
                tot = FX.s_sum([a.var for a in mx], [a.n for a in mx], mb)
                L = T.lam([a.var for a in mx], [a.n for a in mx], T.as_bool(mb))
                v = ivar()
                for j in range(nn):
                    m[axes[k + j].var] = app('nth', L, num(j), V(v))
                out_axes.append(Ax(v, tot, None, L))
                k += nn
        elif c[0] == 'arr':
            view = False
            if fancy is None:
                fancy = []
                fancy_pos = len(out_axes)
            fancy.append((ax, c[1]))
            k += 1
    if fancy:
        baxes, bodies, _ = broadcast(I, [a.copy(kind='nd') for _, a in fancy], node)
        for (ax, _), b in zip(fancy, bodies):
            m[ax.var] = norm_pos(I, T.as_num(b), ax.n)
        labs = None
        if len(fancy) == 1 and len(baxes) == 1 and fancy[0][0].lab is not None:
            baxes[0].lab = T.subst(fancy[0][0].lab, {fancy[0][0].var: m[fancy[0][0].var]})
        out_axes[fancy_pos:fancy_pos] = baxes
    body = T.subst(body, m)
    out_axes = [Ax(a.var, T.subst(a.n, m), a.lab if a.lab is None else T.subst(a.lab, m), a.comp, a.lname) for a in out_axes]
    return AV(out_axes, body, av.kind, av.dtype), view


def comps_of(I, k):
    k = unwrap(I, k)
    if isinstance(k, Tup):
        return [classify(I, x) for x in k.items]
    return [classify(I, k)]


def wrap_result(I, ref, res, view, kind, name=None):
    av = res
    if not av.axes:
        return av.body
    r = I.rec(ref) if isinstance(ref, Ref) else None
    av = av.copy(kind=kind, name=name)
    if kind == 'nd':
        av = av.copy(axes=[Ax(a.var, a.n, None, a.comp) for a in av.axes])
    return I.alloc(Arr(av, r.roots if (view and r) else frozenset(), ref.oid if view and r else None))


def is_label_key(I, ax, k):
    return ax.lab is not None


def getitem(I, o, k, node):
    from .interp import MaybeV
    o, k = unwrap(I, o), unwrap(I, k)
    if isinstance(o, MaybeV):
        def at(x):
            try:
                return getitem(I, x, k, node)
            except Exception:
                raise
        a, b = at(o.a), at(o.b)
        return I.merge_val(o.c, a, b)
    if isinstance(k, MaybeV):
        a, b = getitem(I, o, k.a, node), getitem(I, o, k.b, node)
        return I.merge_val(k.c, a, b)
    if isinstance(o, Idx):
        return getitem_idx(I, o, k, node)
    if isinstance(o, Tup):
        return getitem_seq(I, [('one', x) for x in o.items], k, node, tup=True)
    if isinstance(o, Seq):
        if isinstance(k, S):
            return instantiate(I, o.elem, {o.iv: norm_pos(I, k, o.n)})
        return getitem_seq(I, [('map', o.iv, o.n, o.elem, o.guard)], k, node)
    if isinstance(o, Ref):
        r = I.rec(o)
        if isinstance(r, Lst):
            return getitem_seq(I, list(r.parts), k, node)
        if isinstance(r, Dct):
            v, pres = dict_get(I, o, keyterm(I, k), node)
            if v is None:
                I.raise_('KeyError', node)
            if pres is not T.TRUE:
                I.raise_('KeyError', node, cond=lnot(pres))
            return v
        if isinstance(r, Arr):
            if r.av.kind == 'frame':
                return getitem_frame(I, o, r, k, node)
            if r.av.kind == 'series':
                return getitem_series(I, o, r, k, node)
            comps = comps_of(I, k)
            if any(c[0] == 'int' and isinstance(c[1].val if c[1].kind == 'L' else None, str) for c in comps):
                I.raise_('IndexError', node)
            res = index_nd(I, r.av, comps, node)
            if res is None:
                I.undecide('array index', node)
                return T.opaque('index', I.term(o), I.term(k))
            x = wrap_result(I, o, res[0], res[1], r.av.kind)
            if isinstance(x, Ref) and comps and all(c[0] in ('int', 'slice') for c in comps):
                I.rec(x).attrs['place'] = tuple(cint(c[1]) if c[0] == 'int' else None for c in comps)
            return x
        if isinstance(r, Obj):
            if isinstance(r.cls, str):
                h = M.OBJM.get((r.cls, '__getitem__'))
                if h:
                    return h(I, o, [k], {}, node)
            else:
                m = I.find_method(r, '__getitem__')
                if m is not None:
                    return I.call_fn(m, [o, k], {}, node)
    if isinstance(o, Cls):
        if cstr(k) is not None and cstr(k) in o.attrs:
            return o.attrs[cstr(k)]
    if isinstance(o, Builtin):
        h = M.BUILTINS.get(o.name + '.__getitem__')
        if h:
            return h(I, [k], {}, node)
        return o                       # typing generics etc.
    if isinstance(o, S):
        c = cstr(o)
        if c is not None:
            if isinstance(k, Slice):
                lo = None if k.lo is None else cint(k.lo)
                hi = None if k.hi is None else cint(k.hi)
                if (k.lo is None or lo is not None) and (k.hi is None or hi is not None) and k.step is None:
                    return leaf(c[lo:hi])
            elif isinstance(k, S) and cint(k) is not None:
                try:
                    return leaf(c[cint(k)])
                except IndexError:
                    I.raise_('IndexError', node)
        if o.kind == 'L' and isinstance(o.val, T.Poly) and not o.unmod:
            a = T.single_atom(o.val)
            if const_of(o.val) is not None or (a is not None and a.op == 'sym'):
                I.raise_('TypeError', node)
        if o is T.NONE or o is T.TRUE or o is T.FALSE:
            I.raise_('TypeError', node)
        if o.kind == 'N':
            return I.merge_val(T.bool_atom(o.atom), getitem(I, o.hi, k, node), getitem(I, o.lo, k, node))
        return app('item', o, I.term(k), unmod=o.unmod, nan=True)
    I.undecide('index of unmodelled value', node)
    return T.opaque('index', I.term(o), I.term(k))


def getitem_seq(I, parts, k, node, tup=False):
    mk = (lambda ps: Tup([p[1] for p in ps])) if tup else (lambda ps: I.alloc(Lst(ps)))
    allone = all(p[0] == 'one' for p in parts)
    if isinstance(k, Slice):
        if allone:
            b = []
            for x in (k.lo, k.hi, k.step):
                b.append(None if x is None or isnone(x) else cint(x))
                if x is not None and not isnone(x) and b[-1] is None:
                    break
            else:
                return mk(parts[slice(*b)])
        if len(parts) == 1 and parts[0][0] == 'map' and parts[0][4] is T.TRUE:
            _, iv, n, e, g = parts[0]
            sb = slice_bounds(I, k, n)
            if sb is not None:
                lo, ln, st = sb
                v = ivar()
                return I.alloc(Lst([('map', v, ln, instantiate(I, e, {iv: T.s_add(lo, T.s_mul(num(st), V(v)))}), T.TRUE)]))
        I.undecide('list slice', node)
        return I.alloc(Lst([('opaque', T.opaque('lslice', I.term(I.alloc(Lst(parts))), I.term(k)))]))
    if not isinstance(k, S):
        I.undecide('list index', node)
        return T.opaque('lindex', I.term(I.alloc(Lst(parts))), I.term(k))
    c = cint(k)
    if allone:
        if c is not None:
            if not -len(parts) <= c < len(parts):
                I.raise_('IndexError', node)
            return parts[c][1]
        if isinstance(k.val if k.kind == 'L' else None, str):
            I.raise_('TypeError', node)
        if parts:
            v = parts[-1][1]
            for j in range(len(parts) - 2, -1, -1):
                v = I.merge_val(T.s_eq(T.as_num(k), num(j)), parts[j][1], v)
            return v
    if len(parts) == 1 and parts[0][0] == 'map':
        _, iv, n, e, g = parts[0]
        if g is T.TRUE:
            return instantiate(I, e, {iv: norm_pos(I, k, n)})
        L = T.lam([iv], [n], g)
        cnt = FX.s_sum([iv], [n], g)
        return instantiate(I, e, {iv: app('nth', L, num(0), norm_pos(I, k, cnt))})
    if c is not None and c >= 0 and all(p[0] == 'one' for p in parts[:c + 1]) and len(parts) > c:
        return parts[c][1]
    if c is not None and c < 0 and all(p[0] == 'one' for p in parts[c:]) and len(parts) >= -c:
        return parts[c][1]
    if parts and parts[0][0] in ('one', 'map') and all(p[0] in ('one', 'map') for p in parts):
        # piecewise
        off = num(0)
        pieces = []
        kk = norm_pos(I, k, length(I, I.alloc(Lst(parts))))
        for p in parts:
            ln = part_len(I, p)
            v = p[1] if p[0] == 'one' else getitem_seq(I, [p], T.s_sub(kk, off), node)
            off = T.s_add(off, ln)
            pieces.append((off, v))
        v = pieces[-1][1]
        for end, x in reversed(pieces[:-1]):
            v = I.merge_val(T.s_lt(kk, end), x, v)
        return v
    I.undecide('list index', node)
    return T.opaque('lindex', I.term(I.alloc(Lst(parts))), k)


def getitem_series(I, o, r, k, node):
    av = r.av
    ax = av.axes[0]
    if isinstance(k, Slice):
        strs = [x for x in (k.lo, k.hi) if x is not None and (is_strish(I, x) or is_timelike(x))]
        if strs:
            return label_slice(I, o, k, node)
        res = index_nd(I, av, [('slice', k)], node)
        return wrap_result(I, o, res[0], res[1], 'series', av.name) if res else fail_index(I, o, k, node)
    if isinstance(k, S):
        p = find_pos(I, ax, k, node)
        return T.subst(av.body, {ax.var: p})
    c = classify(I, k)
    if c[0] in ('mask',):
        mav = align_mask(I, c[1], ax, node)
        res = index_nd(I, av, [('mask', mav)], node)
    elif c[0] == 'arr':
        res = index_nd(I, av, [('arr', labels_to_pos(I, ax, c[1], node))], node)
    else:
        res = None
    if res is None:
        return fail_index(I, o, k, node)
    return wrap_result(I, o, res[0], res[1], 'series', av.name)


def is_timelike(s):
    if not isinstance(s, S):
        return False
    some = False
    for v in T.leaves(s):
        if v is T.NAN:
            continue
        if not isinstance(v, T.Poly) or not any(a.op in ('lab', 'tstep', 'time', 'datetime', 'reslab') for a in T.walk_atoms(v)):
            return False
        some = True
    return some


def label_slice(I, o, k, node):
    """label based slice on first axis: keep rows with lo<=label<=hi"""
    r = I.rec(o)
    av = r.av
    ax = av.axes[0]
    lab = ax.lab if ax.lab is not None else V(ax.var)
    c = T.TRUE
    if k.lo is not None and not isnone(k.lo):
        c = land(c, T.s_ge(lab, timeval(k.lo)))
    if k.hi is not None and not isnone(k.hi):
        c = land(c, T.s_le(lab, timeval(k.hi)))
    m = AV([Ax(ax.var, ax.n)], c, 'nd', 'bool')
    res = index_nd(I, av, [('mask', m)], node)
    if res is None:
        return fail_index(I, o, k, node)
    return wrap_result(I, o, res[0], False, av.kind, av.name)


def timeval(s):
    if cstr(s) is not None:
        return app('datetime', s)
    return s


def align_mask(I, mav, ax, node):
    if mav.kind == 'series' and mav.axes[0].lab is not None and ax.lab is not None:
        maxes, mb = mav.opened()
        l = T.subst(maxes[0].lab, {maxes[0].var: V(ax.var)})
        if not T.same(l, ax.lab):
            p = find_pos(I, maxes[0], ax.lab, node)
            v = ivar()
            return AV([Ax(v, ax.n)], T.subst(T.subst(mb, {maxes[0].var: p}), {ax.var: V(v)}), 'nd', 'bool')
    return mav


def labels_to_pos(I, ax, kav, node):
    axes, b = kav.opened()
    # constant number of labels: resolve one by one
    n = cint(axes[0].n)
    if n is not None and n <= 64 and len(axes) == 1:
        ps = [find_pos(I, ax, T.subst(b, {axes[0].var: num(j)}), node) for j in range(n)]
        v = ivar()
        if n == 0:
            return AV([Ax(v, num(0))], num(0), 'nd', 'int')
        return AV([Ax(v, num(n))], select(v, ps), 'nd', 'int')
    p = find_pos(I, ax, b, node)
    return AV([Ax(axes[0].var, axes[0].n)], p, 'nd', 'int')


def fail_index(I, o, k, node):
    I.undecide('index', node)
    return T.opaque('index', I.term(o), I.term(k))


def frame_col(I, o, r, key, node, missing='raise'):
    ax = r.av.axes[1]
    p = find_pos(I, ax, key, node)
    rows, cols = r.av.axes
    axes, body = r.av.opened()
    b = T.subst(body, {axes[1].var: p})
    return I.alloc(Arr(AV([axes[0]], b, 'series', r.av.dtype, key), r.roots, o.oid, {'place': (None, cint(p) if isinstance(p, S) else None)}))


def getitem_frame(I, o, r, k, node):
    av = r.av
    if isinstance(k, S):
        return frame_col(I, o, r, k, node)
    if isinstance(k, Slice):
        strs = [x for x in (k.lo, k.hi) if x is not None and (is_strish(I, x) or is_timelike(x))]
        if strs:
            return label_slice(I, o, k, node)
        res = index_nd(I, av, [('slice', k)], node)
        return wrap_result(I, o, res[0], res[1], 'frame') if res else fail_index(I, o, k, node)
    if isinstance(k, Tup):
        return frame_col(I, o, r, T.opaque('tuplekey', I.term(k)), node)
    c = classify(I, k)
    if c[0] == 'mask' and c[1].ndim == 1:
        res = index_nd(I, av, [('mask', align_mask(I, c[1], av.axes[0], node))], node)
        return wrap_result(I, o, res[0], False, 'frame') if res else fail_index(I, o, k, node)
    if c[0] == 'mask':
        e = elementwise(I, lambda x, m: ite(T.as_bool(m), x, P(T.NAN)), [o, k], node)
        return e
    if c[0] == 'arr':
        kav = c[1]
        if kav.kind == 'index' or kav.ndim == 1:
            pos = labels_to_pos(I, av.axes[1], kav, node)
            res = index_nd(I, av, [('slice', Slice(None, None, None)), ('arr', pos)], node)
            return wrap_result(I, o, res[0], False, 'frame') if res else fail_index(I, o, k, node)
    return fail_index(I, o, k, node)


def getitem_idx(I, idx, k, node):
    o = unwrap(I, idx.obj)
    from .interp import MaybeV
    if isinstance(o, MaybeV):
        return I.merge_val(o.c, getitem_idx(I, Idx(o.a, idx.kind), k, node), getitem_idx(I, Idx(o.b, idx.kind), k, node))
    r = I.rec(o)
    av = r.av
    ks = list(k.items) if isinstance(k, Tup) else [k]
    if len(ks) > av.ndim:
        I.raise_('IndexError', node)
    if idx.kind in ('iloc', 'iat'):
        comps = [classify(I, x) for x in ks]
        comps = [('mask', c[1].copy(kind='nd')) if c[0] == 'mask' else c for c in comps]
    else:
        comps = []
        for d, x in enumerate(ks):
            c = loc_comp(I, av.axes[d], x, node)
            if c is None:
                return fail_index(I, o, k, node)
            comps.append(c)
    res = index_nd(I, av, comps, node)
    if res is None:
        return fail_index(I, o, k, node)
    nav = res[0]
    if nav.ndim == 0:
        return nav.body
    kind = 'frame' if nav.ndim == 2 else 'series'
    name = None
    if kind == 'series' and av.kind == 'frame':
        # which axis vanished
        if comps and comps[0][0] == 'int':
            name = ks[0] if isinstance(ks[0], S) else None
        elif len(ks) > 1 and isinstance(ks[1], S):
            name = ks[1] if idx.kind == 'loc' else (T.subst(av.axes[1].lab, {av.axes[1].var: ks[1]}) if av.axes[1].lab is not None else None)
    elif av.kind == 'series':
        name = av.name
    return wrap_result(I, o, nav, res[1], kind, name)


def loc_comp(I, ax, x, node):
    x = unwrap(I, x)
    if isinstance(x, Slice):
        if x.lo is None and x.hi is None:
            return ('slice', x)
        lab = ax.lab if ax.lab is not None else V(ax.var)
        c = T.TRUE
        if x.lo is not None and not isnone(x.lo):
            c = land(c, T.s_ge(lab, timeval(x.lo)))
        if x.hi is not None and not isnone(x.hi):
            c = land(c, T.s_le(lab, timeval(x.hi)))
        return ('mask', AV([Ax(ax.var, ax.n)], c, 'nd', 'bool'))
    if isinstance(x, S):
        return ('int', find_pos(I, ax, x, node))
    c = classify(I, x)
    if c[0] == 'mask' and c[1].ndim == 2 and T.same(c[1].axes[1].n, num(1)):
        # a one-column mask selects rows
        mx, mb = c[1].opened()
        c = ('mask', AV([Ax(mx[0].var, mx[0].n)], T.subst(mb, {mx[1].var: num(0)}), 'nd', 'bool'))
    if c[0] == 'mask' and c[1].ndim != 1:
        return None
    if c[0] == 'mask':
        return ('mask', align_mask(I, c[1], ax, node))
    if c[0] == 'arr':
        return ('arr', labels_to_pos(I, ax, c[1], node))
    return None


# ------------------------------------------------------------------ stores
def setitem(I, o, k, v, node):
    from .interp import MaybeV
    o, k, v = unwrap(I, o), unwrap(I, k), unwrap(I, v)
    if isinstance(o, MaybeV):
        I.undecide('store into joined structure', node)
        for x in (o.a, o.b):
            if isinstance(x, Ref):
                I.mutate(x, 'item assignment', node)
                I.havoc_obj(x)
        return
    if isinstance(o, Idx):
        return setitem_idx(I, o, k, v, node)
    if isinstance(o, Ref):
        r = I.rec(o)
        if isinstance(r, Lst):
            I.mutate(o, 'item assignment', node)
            c = cint(k) if isinstance(k, S) else None
            if c is not None and all(p[0] == 'one' for p in r.parts) and -len(r.parts) <= c < len(r.parts):
                parts = list(r.parts)
                parts[c] = ('one', v)
                I.heap[o.oid] = Lst(parts, r.roots)
            elif isinstance(k, S) and len(r.parts) == 1 and r.parts[0][0] == 'map' and r.parts[0][4] is T.TRUE:
                _, iv, n, e, g = r.parts[0]
                nv = ivar()
                e2 = instantiate(I, e, {iv: V(nv)})
                I.heap[o.oid] = Lst([('map', nv, n, I.merge_val(T.s_eq(V(nv), norm_pos(I, k, n)), v, e2), T.TRUE)], r.roots)
            else:
                I.undecide('list store', node)
                I.heap[o.oid] = Lst([('opaque', T.opaque('lstore', I.term(o), I.term(k), I.term(v)))], r.roots)
            return
        if isinstance(r, Dct):
            I.mutate(o, 'key assignment', node)
            I.heap[o.oid] = Dct(dict_put(r.parts, keyterm(I, k), v), r.roots)
            return
        if isinstance(r, Arr):
            I.mutate(o, 'item assignment', node)
            r = I.rec(o)
            if r.av.kind == 'frame':
                return setcol(I, o, r, k, v, node)
            if r.av.kind == 'series' and isinstance(k, S):
                comps = [('int', find_pos(I, r.av.axes[0], k, node))]
            elif r.av.kind == 'series':
                c = classify(I, k)
                if c[0] == 'mask':
                    c = ('mask', align_mask(I, c[1], r.av.axes[0], node))
                comps = [c]
            else:
                comps = comps_of(I, k)
            return store_nd(I, o, comps, v, node)
        if isinstance(r, Obj):
            if isinstance(r.cls, str):
                h = M.OBJM.get((r.cls, '__setitem__'))
                if h:
                    return h(I, o, [k, v], {}, node)
            else:
                m = I.find_method(r, '__setitem__')
                if m is not None:
                    I.call_fn(m, [o, k, v], {}, node)
                    return
    if isinstance(o, S) and o.kind == 'L' and isinstance(o.val, T.Poly) and not o.unmod:
        I.raise_('TypeError', node)
    if isinstance(o, Builtin):
        I.event('global_write', node, name=o.name)
        return
    I.undecide('store into unmodelled value', node)


def value_for_store(I, v, target_axes, node):
    """value av broadcast against list of target axes -> body over those axes' vars"""
    av = to_av(I, v)
    if av is None:
        return None
    axes, b = av.opened()
    if len(axes) > len(target_axes):
        while len(axes) > len(target_axes) and cint(axes[0].n) == 1:
            b = T.subst(b, {axes[0].var: num(0)})
            axes = axes[1:]
        if len(axes) > len(target_axes):
            I.raise_('ValueError', node)
    m = {}
    for a, t in zip(reversed(axes), reversed(target_axes)):
        if cint(a.n) == 1 and cint(t.n) != 1:
            m[a.var] = num(0)
        else:
            if not T.same(a.n, t.n):
                I.event('shape', node, a=a.n, b=t.n)
            m[a.var] = V(t.var)
    return T.subst(b, m)


def store_nd(I, o, comps, v, node, col=None):
    r = I.rec(o)
    av = r.av
    axes, body = av.opened()
    nd = len(axes)
    comps = list(comps)
    used = sum(c[1].ndim if c[0] == 'mask' else 0 if c[0] in ('new', 'ell') else 1 for c in comps)
    if used > nd:
        I.raise_('IndexError', node)
    fill = [('slice', Slice(None, None, None))] * (nd - used)
    ells = [k for k, c in enumerate(comps) if c[0] == 'ell']
    if ells:
        comps[ells[0]:ells[0] + 1] = fill
    else:
        comps += fill
    cond = T.TRUE
    taxes = []
    back = {}
    k = 0
    unknown = False
    narr = sum(1 for c in comps if c[0] == 'arr')
    for c in comps:
        if c[0] == 'new':
            taxes.append(Ax(ivar(), num(1)))
            back[taxes[-1].var] = num(0)
            continue
        if c[0] == 'bad':
            unknown = True
            break
        ax = axes[k]
        t = V(ax.var)
        if c[0] == 'int':
            cond = land(cond, T.s_eq(t, norm_pos(I, c[1], ax.n)))
            n = cint(ax.n)
            ci = cint(c[1])
            if n is not None and ci is not None and not (-n <= ci < n):
                I.raise_('IndexError', node)
            k += 1
        elif c[0] == 'slice':
            sb = slice_bounds(I, c[1], ax.n)
            if sb is None or sb[2] not in (1, -1):
                unknown = True
                break
            lo, n, st = sb
            nv = ivar()
            taxes.append(Ax(nv, n))
            if st == 1:
                back[nv] = T.s_sub(t, lo)
                if lo is not num(0):
                    cond = land(cond, T.s_ge(t, lo))
                hi = T.s_add(lo, n)
                if hi is not ax.n:
                    cond = land(cond, T.s_lt(t, hi))
            else:
                back[nv] = T.s_sub(lo, t)
            k += 1
        elif c[0] == 'mask':
            mx, mb = c[1].opened()
            mm = {a.var: V(axes[k + j].var) for j, a in enumerate(mx)}
            g = T.as_bool(T.subst(mb, mm))
            cond = land(cond, g)
            L = T.lam([a.var for a in mx], [a.n for a in mx], T.as_bool(mb))
            nv = ivar()
            taxes.append(Ax(nv, FX.s_sum([a.var for a in mx], [a.n for a in mx], mb), None, L))
            back[nv] = ('mask', L, [axes[k + j].var for j in range(len(mx))])
            k += len(mx)
        elif c[0] == 'arr':
            if narr > 1 or c[1].ndim != 1:
                unknown = True
                break
            ka, kb = c[1].opened()
            kb = norm_pos(I, T.as_num(kb), ax.n)
            nv = ivar()
            taxes.append(Ax(nv, ka[0].n))
            e = M.solve_index(kb, ka[0].var, t)
            nn = cint(ka[0].n)
            if nn is not None and nn <= 16:
                g = T.FALSE
                pos = num(0)
                for j in range(nn):
                    cj = T.s_eq(T.subst(kb, {ka[0].var: num(j)}), t)
                    g = lor(g, cj)
                    pos = ite(cj, num(j), pos)
                cond = land(cond, g)
                back[nv] = pos
            elif e is not None:
                back[nv] = e
                cond = land(cond, FX.s_any([ka[0].var], [ka[0].n], T.s_eq(kb, t)))
            else:
                cond = land(cond, FX.s_any([ka[0].var], [ka[0].n], T.s_eq(kb, t)))
                back[nv] = app('idxof', T.lam([ka[0].var], [ka[0].n], kb), t, isint=True, nonneg=True)
            k += 1
    if unknown:
        I.undecide('array store', node)
        nb = T.opaque('store', I.term(o), num(I.next_oid), *[V(a.var) for a in axes])
        I.next_oid += 1
        I.set_arr(o, AV(axes, nb, av.kind, av.dtype, av.name))
        return
    val = value_for_store(I, v, taxes, node)
    if val is None:
        I.undecide('stored value', node)
        val = T.opaque('storeval', I.term(v))
    m = {}
    for nv, e in back.items():
        if isinstance(e, tuple):
            _, L, tv = e
            sub = {}
            for j, x in enumerate(tv):
                nth = app('nth', L, num(j), V(nv)).val
                at = T.single_atom(nth) if isinstance(nth, T.Poly) else None
                if at is not None:
                    sub[at] = V(x)
            val = T.subst(val, sub)
            if nv in val.free:
                m[nv] = app('rank_in', L, *[V(x) for x in tv])
        else:
            m[nv] = e
    val = T.subst(val, m)
    nb = ite(cond, T.as_num(val) if av.dtype not in ('bool',) and val.cls == 'bool' else val, body)
    dt = av.dtype
    if dt == 'int' and not is_int_body(val):
        if not val.unmod:
            nb = ite(cond, app('trunc', val), body)
    I.set_arr(o, AV(axes, nb, av.kind, dt, av.name))


def setcol(I, o, r, k, v, node):
    av = r.av
    v = unwrap(I, v)
    if is_arr(I, v) and I.rec(v).av.kind == 'frame' and I.rec(v).av.ndim == 2 and cint(I.rec(v).av.axes[1].n) == 1:
        # a one-column table stands for its column
        fx, fb = I.rec(v).av.opened()
        v = I.alloc(Arr(AV([fx[0]], T.subst(fb, {fx[1].var: num(0)}), 'series')))
    if isinstance(k, S):
        ax = av.axes[1]
        n = cint(ax.n)
        exists = None
        if n is not None and ax.lab is not None:
            eqs = [T.s_eq(T.subst(ax.lab, {ax.var: num(j)}), k) for j in range(n)]
            if any(e is T.TRUE for e in eqs):
                p = num([j for j, e in enumerate(eqs) if e is T.TRUE][0])
                exists = True
            elif all(e is T.FALSE for e in eqs):
                exists = False
        else:
            p = find_pos(I, ax, k, node)
            exists = None if cstr(k) is not None else True
            if cstr(k) is not None:
                exists = True if ax.lab is not None and any(a.op == 'lab' for a in T.walk_atoms(ax.lab)) else None
        if exists:
            # aligned on row labels
            vv = unwrap(I, v)
            if is_arr(I, vv) and I.rec(vv).av.kind == 'series':
                axes, b = align_series(I, I.rec(vv).av, av.axes[0], node)
            else:
                axes = None
            a2, body = av.opened()
            if axes is not None:
                val = T.subst(b, {axes.var: V(a2[0].var)})
            else:
                val = value_for_store(I, v, [a2[0]], node)
                if val is None:
                    I.undecide('column store', node)
                    val = T.opaque('colval', I.term(v))
            I.set_arr(o, AV(a2, ite(T.s_eq(V(a2[1].var), p), val, body), 'frame', None))
            return
        if exists is False:
            a2, body = av.opened()
            vv = unwrap(I, v)
            if n == 0 and cint(av.axes[0].n) == 0 or (n == 0 and av.axes[0].lab is None):
                vav = to_av(I, vv)
                if vav is not None and vav.ndim == 1:
                    va, vb = vav.opened()
                    c = ivar()
                    I.set_arr(o, AV([va[0], Ax(c, num(1), k)], vb, 'frame'))
                    return
            if is_arr(I, vv) and I.rec(vv).av.kind == 'series':
                ax1, b = align_series(I, I.rec(vv).av, av.axes[0], node)
                val = T.subst(b, {ax1.var: V(a2[0].var)})
            else:
                val = value_for_store(I, v, [a2[0]], node)
                if val is None:
                    I.undecide('column store', node)
                    val = T.opaque('colval', I.term(v))
            c = a2[1]
            nn = T.s_add(c.n, num(1))
            if n is not None:
                nv = ivar()
                nb = M.select(nv, [T.subst(body, {c.var: num(j)}) for j in range(n)] + [val])
                lab = M.select(nv, [T.subst(c.lab, {c.var: num(j)}) for j in range(n)] + [k])
                I.set_arr(o, AV([a2[0], Ax(nv, nn, lab)], nb, 'frame'))
                return
            nv = ivar()
            m = {c.var: V(nv)}
            g = T.s_lt(V(nv), c.n)
            nb = ite(g, T.subst(body, m), val)
            lab = ite(g, T.subst(c.lab, m), k)
            c = Ax(nv, nn)
            # canonicalise constant column selectors
            I.set_arr(o, AV([a2[0], Ax(c.var, nn, lab)], nb, 'frame'))
            return
    if isinstance(k, (Ref, Tup)):
        c = classify(I, k)
        if c[0] == 'mask':
            if c[1].ndim == 1:
                return store_nd(I, o, [c], v, node)
            if c[1].kind == 'frame' and (isinstance(v, S) or is_arr(I, v) and I.rec(v).av.kind in ('frame', 'nd') and I.rec(v).av.ndim == 2):
                # aligned on the labels, like DataFrame.mask
                e = elementwise(I, lambda s, cc, x: ite(T.as_bool(cc), x, s), [o, k, v], node)
                if is_arr(I, e) and I.rec(e).av.ndim == 2:
                    I.set_arr(o, I.rec(e).av)
                    return
            return store_nd(I, o, [('mask', c[1])], v, node)
    I.undecide('frame store', node)
    axes, body = av.opened()
    I.set_arr(o, AV(axes, T.opaque('framestore', num(I.next_oid), I.term(o), *[V(a.var) for a in axes]), 'frame'))


def align_series(I, sav, ax, node):
    """series body re-expressed over axis ax labels: returns (Ax var holder, body)"""
    axes, b = sav.opened()
    v = ivar()
    if axes[0].lab is None or ax.lab is None:
        return Ax(v, ax.n), T.subst(b, {axes[0].var: V(v)})
    l1 = T.subst(axes[0].lab, {axes[0].var: V(v)})
    l2 = T.subst(ax.lab, {ax.var: V(v)})
    if T.same(l1, l2):
        return Ax(v, ax.n), T.subst(b, {axes[0].var: V(v)})
    p = find_pos(I, axes[0], l2, node)
    return Ax(v, ax.n), T.subst(b, {axes[0].var: p})


def setitem_idx(I, idx, k, v, node):
    from .interp import MaybeV
    o = unwrap(I, idx.obj)
    if not is_arr(I, o):
        I.undecide('indexer store', node)
        return
    r = I.rec(o)
    I.mutate(o, idx.kind + ' assignment', node)
    r = I.rec(o)
    av = r.av
    ks = list(k.items) if isinstance(k, Tup) else [k]
    comps = []
    for d, x in enumerate(ks):
        if idx.kind in ('iloc', 'iat'):
            comps.append(classify(I, x))
        else:
            if d == 1 and av.kind == 'frame' and isinstance(x, S):
                ax = av.axes[1]
                n = cint(ax.n)
                if n is not None and ax.lab is not None and all(T.s_eq(T.subst(ax.lab, {ax.var: num(j)}), x) is T.FALSE for j in range(n)):
                    # setting with enlargement: new column of NaN first
                    setcol(I, o, r, x, P(T.NAN), node)
                    av = I.rec(o).av
            c = loc_comp(I, av.axes[d], x, node)
            comps.append(c or ('bad',))
    # label alignment of series values
    vv = unwrap(I, v)
    if idx.kind == 'loc' and is_arr(I, vv) and I.rec(vv).av.kind == 'series' and av.axes[0].lab is not None \
            and comps and comps[0][0] in ('slice', 'mask') and (len(comps) < 2 or comps[1][0] == 'int'):
        ax1, b = align_series(I, I.rec(vv).av, av.axes[0], node)
        full = AV([Ax(ax1.var, av.axes[0].n)], b)
        if comps[0][0] == 'mask':
            res = index_nd(I, full, [comps[0]], node)
            if res is not None:
                v = I.arr(res[0])
        else:
            v = I.arr(full)
    store_nd(I, o, comps, v, node)


def delitem(I, o, k, node):
    o = unwrap(I, o)
    if isinstance(o, Ref):
        r = I.rec(o)
        I.mutate(o, 'del', node)
        if isinstance(r, Dct):
            kk = keyterm(I, k)
            if all(p[0] == 'kv' for p in r.parts):
                I.heap[o.oid] = Dct([p for p in r.parts if p[1] != kk], r.roots)
                return
            I.undecide('del', node)
            I.heap[o.oid] = Dct([('opaque', T.opaque('del', I.term(o), kk))], r.roots)
            return
        I.undecide('del', node)
        I.havoc_obj(o)


# ------------------------------------------------------------------ attributes
def shape_tup(av):
    return Tup([a.n for a in av.axes])


def index_of(I, ref, axis):
    av = I.rec(ref).av
    ax, m = av.axes[axis].fresh()
    lab = ax.lab if ax.lab is not None else V(ax.var)
    dt = 'datetime' if is_timelike(lab) else None
    return I.alloc(Arr(AV([Ax(ax.var, ax.n, None, ax.comp)], lab, 'index', dt), frozenset()))


def get_attr(I, o, name, node):
    from .interp import MaybeV
    o = unwrap(I, o)
    if isinstance(o, Mod):
        if o.name in I.repo.modules:
            fr = I.load(o.name)
            if name in fr.env:
                return unwrap(I, fr.env[name])
            if o.name + '.' + name in I.repo.modules:
                I.load(o.name + '.' + name)
                return Mod(o.name + '.' + name)
            if name in ('__file__', '__name__', '__doc__'):
                return leaf(name)
            I.raise_('AttributeError', node)
        return ext_attr(I, o.name, name)
    if isinstance(o, Builtin):
        return ext_attr(I, o.name, name)
    if isinstance(o, Cls):
        c = o
        while isinstance(c, Cls):
            if name in c.attrs:
                return c.attrs[name]
            c = next((b for b in c.bases if isinstance(b, Cls)), None)
        if name in ('__name__', '__doc__'):
            return leaf(o.name)
        if name == '__members__':
            return I.alloc(Dct([('kv', leaf(k), v) for k, v in o.attrs.items() if isinstance(v, S) and v.kind == 'L' and isinstance(v.val, Enumv)]))
        if not any(isinstance(b, (Builtin, Type)) for b in o.bases):
            I.raise_('AttributeError', node)
        return Meth(o, name)
    if isinstance(o, Fn):
        if name in ('__name__', '__doc__'):
            return leaf(o.name)
        return Meth(o, name)
    if isinstance(o, MaybeV):
        if is_meth_name(name):
            return Meth(o, name)
        a = b = None
        da = db = False
        from .interp import DeadPath
        pc = I.pc
        try:
            I.pc = land(pc, o.c)
            a = get_attr(I, o.a, name, node)
        except DeadPath:
            da = True
        try:
            I.pc = land(pc, lnot(o.c))
            b = get_attr(I, o.b, name, node)
        except DeadPath:
            db = True
        if da and db:
            raise DeadPath()
        if da:
            I.pc = land(pc, lnot(o.c))
            return b
        if db:
            I.pc = land(pc, o.c)
            return a
        I.pc = pc
        if isinstance(a, Meth) or isinstance(b, Meth) or isinstance(a, Idx):
            return Meth(o, name) if not isinstance(a, Idx) else Idx(o, name)
        return I.merge_val(o.c, a, b)
    if isinstance(o, Ref):
        r = I.rec(o)
        if isinstance(r, Arr):
            return arr_attr(I, o, r, name, node)
        if isinstance(r, Lst):
            if name not in ATTRS['list']:
                I.raise_('AttributeError', node)
            return Meth(o, name)
        if isinstance(r, Dct):
            if name not in ATTRS['dict']:
                I.raise_('AttributeError', node)
            return Meth(o, name)
        if isinstance(r, Obj):
            if name in r.attrs:
                return r.attrs[name]
            if isinstance(r.cls, str):
                h = M.OBJM.get((r.cls, 'attr:' + name))
                if h:
                    return h(I, o, [], {}, node)
                return Meth(o, name)
            if name == '__class__':
                return r.cls
            m = I.find_method(r, name)
            if m is not None:
                if isinstance(m, Fn):
                    if any(isinstance(d, Builtin) and d.name == 'builtins.property' for d in m.decorators):
                        return I.call_fn(m, [o], {}, node)
                    if any(isinstance(d, Builtin) and d.name == 'builtins.staticmethod' for d in m.decorators):
                        return m
                    return Partial(m, (o,), {})
                return m
            if not any(isinstance(b, (Builtin, Type)) for b in r.cls.bases):
                I.raise_('AttributeError', node)
            return Meth(o, name)
    if isinstance(o, Tup):
        if name not in ATTRS['tuple']:
            I.raise_('AttributeError', node)
        return Meth(o, name)
    if isinstance(o, S):
        return scalar_attr(I, o, name, node)
    if isinstance(o, Seq):
        return Meth(o, name)
    if isinstance(o, Meth):
        # e.g. df.index.str / accessor chains
        return Meth(o, name)
    return Meth(o, name)


def is_meth_name(name):
    return name in M.ARRM and name not in ('T', 'values', 'index', 'columns', 'name', 'shape', 'size')


def scalar_attr(I, o, name, node):
    if o.kind == 'L' and isinstance(o.val, Enumv):
        if name == 'name':
            return leaf(o.val.name)
        if name == 'value':
            return app('enumvalue', o)
        return Meth(o, name)
    if o.kind == 'N' and all(isinstance(v, Enumv) for v in T.leaves(o)):
        if name == 'name':
            return T.apply1('enumname', lambda v: leaf(v.name), o)
        return Meth(o, name)
    if o is T.NONE or o is T.TRUE or o is T.FALSE:
        if not (o is not T.NONE and name in ('any', 'all', 'sum', 'astype')):
            I.raise_('AttributeError', node)
        return Meth(o, name)
    if o.kind == 'L' and isinstance(o.val, (str, T.SymC)):
        if name not in ATTRS['str']:
            I.raise_('AttributeError', node)
        return Meth(o, name)
    if is_text(o):
        if name not in ATTRS['str'] and not (name == 'decode' and T.single_atom(o.val).op in ('urlrow', 'str.encode', 'str.strip', 'str.rstrip', 'str.lstrip')):
            I.raise_('AttributeError', node)
        return Meth(o, name)
    if o.kind == 'N' and not o.unmod and name not in ('real', 'imag'):
        dead = []
        kinds = set()
        for v in T.leaves(o):
            kinds.add('num' if isinstance(v, T.Poly) else 'none' if v is None else 'other')
        if kinds == {'num', 'none'}:
            I.raise_('AttributeError', node, cond=T.s_eq(o, T.NONE))
    if name == 'real':
        return app('real', o)
    if name == 'imag':
        return app('imag', o)
    if name == 'T' or name == 'values':
        if name == 'values' and is_plain_num(o):
            I.raise_('AttributeError', node)
        return o
    if is_plain_num(o):
        if name not in ATTRS['float'] and name not in ATTRS['npf']:
            I.raise_('AttributeError', node)
        a = T.single_atom(o.val)
        if a is not None and a.op == 'sym' and name not in ATTRS['float']:
            I.raise_('AttributeError', node)
        if T._intpoly(o.val) and name in ('shape', 'size', 'ndim', 'dtype'):
            I.raise_('AttributeError', node)
        if name == 'shape':
            return Tup([])
        if name == 'size':
            return num(1)
        if name == 'ndim':
            return num(0)
        return Meth(o, name)
    if o.unmod:
        if name in ('shape', 'size', 'index', 'columns', 'dtype', 'name'):
            I.undecide('attribute %s of unmodelled value' % name, node)
            return T.opaque('attr:' + name, o)
        return Meth(o, name)
    if name in TIME_ATTRS:
        if name == 'seconds_total':
            return o
        return app('t:' + name, o)
    return Meth(o, name)


TIME_ATTRS = {'seconds', 'days', 'microseconds', 'hour', 'minute', 'second', 'day', 'month', 'year', 'tz', 'tzinfo',
              'dayofyear', 'value', 'nanoseconds', 'freq', 'microsecond', 'nanosecond', 'date'}


def is_plain_num(o):
    if not isinstance(o, S) or o.unmod or o.kind != 'L' or not isinstance(o.val, T.Poly):
        return False
    return not is_timelike(o) and not is_text(o)


TEXT_OPS = {'strcat', 'str', 'format', 'path', 'pathjoin', 'os.basename', 'os.dirname', 'os.root', 'os.ext', 'direntry', 'urlrow', 'strpart', 'input',
            'strformat', 'strjoin', 'str.lower', 'str.upper', 'str.strip', 'str.lstrip', 'str.rstrip', 'str.title', 'str.capitalize', 'str.replace',
            'str.zfill', 'str.encode', 'str.decode'}


def is_text(o):
    """a term that stands for a text (or bytes)"""
    if not isinstance(o, S) or o.kind != 'L' or not isinstance(o.val, T.Poly):
        return False
    a = T.single_atom(o.val)
    return a is not None and a.op in TEXT_OPS


def arr_attr(I, o, r, name, node):
    av = r.av
    kind = av.kind
    if name == 'shape':
        return shape_tup(av)
    if name == 'ndim':
        return num(av.ndim)
    if name == 'size':
        n = num(1)
        for a in av.axes:
            n = T.s_mul(n, a.n)
        return n
    if name == 'empty':
        n = num(1)
        for a in av.axes:
            n = T.s_mul(n, a.n)
        return T.s_eq(n, num(0))
    if name == 'dtype':
        return leaf(av.dtype) if av.dtype else app('dtype', I.term(o))
    if name == 'T':
        if av.ndim < 2:
            return o
        axes = list(reversed(av.axes))
        return I.alloc(Arr(AV(axes, av.body, kind, av.dtype), r.roots, o.oid))
    if name in ('real', 'imag'):
        axes, b = av.opened()
        return I.alloc(Arr(AV(axes, app(name, b), kind, av.dtype, av.name), r.roots, o.oid))
    if kind == 'nd':
        if name not in ATTRS['nd']:
            I.raise_('AttributeError', node)
        if name == 'flat':
            return call_method(I, o, 'ravel', [], {}, node)
        return Meth(o, name)
    if name in ('values', 'array', '_values'):
        axes, b = av.opened()
        return I.alloc(Arr(AV([Ax(a.var, a.n, None, a.comp) for a in axes], b, 'nd', av.dtype), r.roots, o.oid))
    if name == 'index' and kind in ('series', 'frame'):
        return index_of(I, o, 0)
    if name == 'columns' and kind == 'frame':
        return index_of(I, o, 1)
    if name in ('loc', 'iloc', 'at', 'iat') and kind in ('series', 'frame'):
        return Idx(o, {'at': 'loc', 'iat': 'iloc'}.get(name, name))
    if name == 'name':
        if kind == 'series':
            if isinstance(av.name, S):
                return av.name
            return leaf(None)
        if kind == 'index':
            return leaf(None)
    if name in ('dt', 'str'):
        return Obj_accessor(I, o, name)
    if kind == 'frame':
        if name in ATTRS['frame']:
            return Meth(o, name)
        ax = av.axes[1]
        n = cint(ax.n)
        if n is not None and ax.lab is not None:
            for j in range(n):
                if T.s_eq(T.subst(ax.lab, {ax.var: num(j)}), leaf(name)) is T.TRUE:
                    return frame_col(I, o, r, leaf(name), node)
            I.raise_('AttributeError', node)
        return frame_col(I, o, r, leaf(name), node)
    if kind == 'index':
        if av.dtype in ('datetime', 'timedelta') or is_timelike(av.body):
            if name in TIME_ATTRS:
                axes, b = av.opened()
                if name in ('tz', 'tzinfo', 'freq'):
                    return app('t:' + name, T.lam([axes[0].var], [axes[0].n], b))
                return I.alloc(Arr(AV(axes, app('t:' + name, b), 'index')))
            if name not in ATTRS['dtindex']:
                if name in ('total_seconds', 'to_pytimedelta'):
                    return Meth(o, name)
                I.raise_('AttributeError', node)
            return Meth(o, name)
        if name not in ATTRS['index'] and name not in ATTRS['dtindex']:
            I.raise_('AttributeError', node)
        return Meth(o, name)
    if kind == 'series':
        if name in ATTRS['series']:
            return Meth(o, name)
        ax = av.axes[0]
        if ax.lab is not None:
            n = cint(ax.n)
            if n is not None:
                p = find_pos(I, ax, leaf(name), node, miss='nan')
                if p is None:
                    I.raise_('AttributeError', node)
                return T.subst(av.body, {ax.var: p})
            if any(a.op == 'lab' for a in T.walk_atoms(ax.lab)) and not is_timelike_dt(ax.lab):
                return T.subst(av.body, {ax.var: find_pos(I, ax, leaf(name), node)})
        I.raise_('AttributeError', node)
    return Meth(o, name)


def is_timelike_dt(lab):
    return False


def Obj_accessor(I, o, name):
    return I.alloc(Obj('accessor:' + name, {'$of': o}))


def set_attr(I, o, name, v, node):
    r = I.rec(o)
    if isinstance(r, (Lst, Dct)) or isinstance(r, Arr) and r.av.kind == 'nd' and name not in ('shape', 'dtype', 'flags', 'strides', 'real', 'imag', 'flat', 'T'):
        I.raise_('AttributeError', node)
    I.mutate(o, 'attribute ' + name, node)
    r = I.rec(o)
    if isinstance(r, Arr):
        av = r.av
        if name in ('index', 'columns') and av.kind in ('frame', 'series'):
            d = 0 if name == 'index' else 1
            vav = to_av(I, v)
            axes, body = av.opened()
            if vav is not None and vav.ndim == 1:
                va, vb = vav.opened()
                axes[d] = Ax(axes[d].var, axes[d].n, T.subst(vb, {va[0].var: V(axes[d].var)}), axes[d].comp)
                I.set_arr(o, AV(axes, body, av.kind, av.dtype, av.name))
                return
        if name == 'name':
            I.set_arr(o, av.copy(name=v if isinstance(v, S) else None))
            return
        if name == 'shape':
            res = M.call_builtin(I, 'numpy.reshape', [o, v], {}, node)
            if is_arr(I, res):
                I.set_arr(o, I.rec(res).av)
                return
    I.undecide('attribute store', node)
    I.havoc_obj(o)
