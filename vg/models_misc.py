"""Python builtins, standard library, plotting, files, pyproj, pvlib, sklearn."""
from fractions import Fraction as F
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, app, ite, land, lor, lnot, const_of
from .values import *
from .models import *      # noqa: F401,F403
from .models_index import *      # noqa: F401,F403
from .models_np import *      # noqa: F401,F403
from .models_np import prefix, kwarg, may_raise, pure_call, call_builtin
from .models_pd import *      # noqa: F401,F403
from .models_pd import cast
from . import models as M
from .models import reg, BUILTINS, OBJM


# ------------------------------------------------------------------ python builtins
@reg('builtins.len')
def _len(I, a, kw, node):
    x = unwrap(I, a[0])
    if isinstance(x, S):
        s = cstr(x)
        if s is not None:
            return num(len(s))
        if is_plain_num(x):
            I.raise_('TypeError', node)
        return app('len', x, isint=True, nonneg=True)
    n = length(I, x)
    return n


@reg('builtins.range')
def _range(I, a, kw, node):
    if len(a) == 1:
        lo, hi, st = num(0), a[0], num(1)
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else num(1)
    for x in (lo, hi, st):
        if not isinstance(x, S):
            I.undecide('range of unmodelled', node)
            iv = ivar()
            return Seq(iv, T.opaque('len', I.term(x)), T.opaque('rng', V(iv)))
    cs = cint(st)
    iv = ivar()
    if cs is None or cs == 0:
        I.undecide('range step', node)
        return Seq(iv, T.opaque('len', lo, hi, st), T.s_add(lo, T.s_mul(st, V(iv))))
    n = T.s_sub(hi, lo) if cs > 0 else T.s_sub(lo, hi)
    if abs(cs) != 1:
        n = app('ceil', T.s_div(n, num(abs(cs))))
    n = clip0(n)
    return Seq(iv, n, T.s_add(lo, T.s_mul(st, V(iv))))


def clip0(n):
    c = T.s_lt(n, num(0))
    if c is T.FALSE:
        return n
    if c is T.TRUE:
        return num(0)
    return ite(c, num(0), n)


def as_seq(I, x, node):
    """-> (concrete list or None, Seq or None)"""
    items, seq = M.iterate(I, x, node)
    return items, seq


@reg('builtins.zip')
def _zip(I, a, kw, node):
    if len(a) == 1:
        items, seq = as_seq(I, a[0], node)
        if items is not None:
            return I.alloc(Lst([('one', Tup([x])) for x in items]))
        return Seq(seq.iv, seq.n, Tup([seq.elem]), seq.guard)
    its = [as_seq(I, x, node) for x in a]
    if not its:
        return I.alloc(Lst([]))
    if all(i[0] is not None for i in its):
        return I.alloc(Lst([('one', Tup(t)) for t in zip(*[i[0] for i in its])]))
    conc = [len(i[0]) for i in its if i[0] is not None]
    if conc:
        n = min(conc)
        cols = []
        for it, x in zip(its, a):
            if it[0] is not None:
                cols.append(it[0][:n])
            else:
                q = it[1]
                cols.append([M.instantiate(I, q.elem, {q.iv: num(k)}) for k in range(n)])
        return I.alloc(Lst([('one', Tup(t)) for t in zip(*cols)]))
    iv = ivar()
    n = None
    elems = []
    for it in its:
        q = it[1]
        elems.append(M.instantiate(I, q.elem, {q.iv: V(iv)}))
        if n is None:
            n = q.n
        elif not T.same(n, q.n):
            n = FX.s_min(n, q.n)
    return Seq(iv, n, Tup(elems))


@reg('builtins.enumerate')
def _enum(I, a, kw, node):
    st = kwarg(a, kw, 1, 'start', num(0))
    items, seq = as_seq(I, a[0], node)
    if items is not None:
        return I.alloc(Lst([('one', Tup([T.s_add(st, num(k)), x])) for k, x in enumerate(items)]))
    return Seq(seq.iv, seq.n, Tup([T.s_add(st, V(seq.iv)), seq.elem]), seq.guard)


@reg('builtins.list')
def _list(I, a, kw, node):
    if not a:
        return I.alloc(Lst([]))
    x = unwrap(I, a[0])
    from .interp import MaybeV
    if isinstance(x, MaybeV):
        return I.merge_val(x.c, _list(I, [x.a], kw, node), _list(I, [x.b], kw, node))
    if isinstance(x, Tup) or is_lst(I, x):
        return I.alloc(Lst(list_parts(I, x)))
    items, seq = as_seq(I, x, node)
    if items is not None:
        return I.alloc(Lst([('one', y) for y in items]))
    return I.alloc(Lst([('map', seq.iv, seq.n, seq.elem, seq.guard)]))


@reg('builtins.tuple')
def _tuple(I, a, kw, node):
    if not a:
        return Tup([])
    x = unwrap(I, a[0])
    if isinstance(x, Tup):
        return x
    items, seq = as_seq(I, x, node)
    if items is not None:
        return Tup(items)
    return I.alloc(Lst([('map', seq.iv, seq.n, seq.elem, seq.guard)]))


@reg('builtins.iter')
def _iter(I, a, kw, node):
    return a[0]


@reg('builtins.next')
def _next(I, a, kw, node):
    items, seq = as_seq(I, a[0], node)
    if items is not None:
        if items:
            return items[0]
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration', node)
    v = M.instantiate(I, seq.elem, {seq.iv: num(0)})
    if len(a) > 1:
        return I.merge_val(T.s_lt(num(0), seq.n), v, a[1])
    return v


@reg('builtins.reversed')
def _reversed(I, a, kw, node):
    items, seq = as_seq(I, a[0], node)
    if items is not None:
        return I.alloc(Lst([('one', x) for x in reversed(items)]))
    iv = ivar()
    return Seq(iv, seq.n, M.instantiate(I, seq.elem, {seq.iv: T.s_sub(T.s_sub(seq.n, num(1)), V(iv))}))


@reg('builtins.map')
def _map(I, a, kw, node):
    if len(a) > 2:
        z = _zip(I, a[1:], {}, node)
        items, seq = as_seq(I, z, node)
        if items is not None:
            return I.alloc(Lst([('one', I.call(a[0], list(t.items), {}, node)) for t in items]))
        return Seq(seq.iv, seq.n, I.call(a[0], list(seq.elem.items), {}, node))
    items, seq = as_seq(I, a[1], node)
    if items is not None:
        return I.alloc(Lst([('one', I.call(a[0], [x], {}, node)) for x in items]))
    saved = I.pc
    v = I.call(a[0], [seq.elem], {}, node)
    I.pc = saved
    return Seq(seq.iv, seq.n, v, seq.guard)


@reg('builtins.filter')
def _filter(I, a, kw, node):
    items, seq = as_seq(I, a[1], node)

    def test(x):
        return I.truth(x if isnone(a[0]) else I.call(a[0], [x], {}, node))
    if items is not None:
        out = []
        for x in items:
            c = test(x)
            if c is T.TRUE:
                out.append(('one', x))
            elif c is not T.FALSE:
                out.append(('if', c, (('one', x),)))
        return I.alloc(Lst(out))
    return I.alloc(Lst([('map', seq.iv, seq.n, seq.elem, land(seq.guard, test(seq.elem)))]))


@reg('builtins.dict')
def _dict(I, a, kw, node):
    parts = []
    if a:
        x = unwrap(I, a[0])
        from .interp import MaybeV
        if isinstance(x, MaybeV):
            return I.merge_val(x.c, _dict(I, [x.a], kw, node), _dict(I, [x.b], kw, node))
        if is_dct(I, x):
            parts = list(I.rec(x).parts)
        else:
            items, seq = as_seq(I, x, node)
            if items is not None:
                for it in items:
                    kv = M.concrete_items(I, it, 2)
                    if kv is None:
                        I.undecide('dict()', node)
                        continue
                    parts = dict_put(parts, keyterm(I, kv[0]), kv[1])
            else:
                kv = M.concrete_items(I, seq.elem, 2)
                if kv is None:
                    I.undecide('dict()', node)
                    parts = [('opaque', I.term(x))]
                else:
                    parts = [('dmap', seq.iv, seq.n, keyterm(I, kv[0]), kv[1], seq.guard)]
    for k, v in kw.items():
        parts = dict_put(parts, leaf(k), v)
    return I.alloc(Dct(parts))


@reg('builtins.set', 'builtins.frozenset')
def _set(I, a, kw, node):
    if not a:
        return I.alloc(Lst([]))
    x = _list(I, a, kw, node)
    r = I.rec(x)
    if isinstance(r, Lst) and all(p[0] == 'one' for p in r.parts):
        seen = []
        out = []
        for p in r.parts:
            t = I.term(p[1])
            if not any(t == s or t is s for s in seen):
                seen.append(t)
                out.append(p)
        return I.alloc(Lst(out))
    return I.alloc(Obj('set', {'$of': x, '$iter': x}))


@reg('builtins.str')
def _str(I, a, kw, node):
    return format_value(I, a[0]) if a else leaf('')


@reg('builtins.repr', 'builtins.ascii')
def _repr(I, a, kw, node):
    return format_value(I, a[0], '', 114)


@reg('builtins.format')
def _format(I, a, kw, node):
    spec = cstr(a[1]) if len(a) > 1 else ''
    return format_value(I, a[0], spec) if spec is not None else app('format', I.term(a[0]), I.term(a[1]), num(-1))


@reg('builtins.int')
def _int(I, a, kw, node):
    if not a:
        return num(0)
    x = unwrap(I, a[0])
    s = cstr(x) if isinstance(x, S) else None
    if s is not None:
        try:
            return num(int(s))
        except ValueError:
            I.raise_('ValueError', node)
    if is_arr(I, x):
        x = call_method(I, x, 'item', [], {}, node)
    if isinstance(x, S):
        if x is T.NONE:
            I.raise_('TypeError', node)
        x = T.as_num(x)
        if T.isnan(x) is T.TRUE:
            I.raise_('ValueError', node)
        if is_int_body(x):
            return x
        if any(a_.op.startswith('str') or a_.op in ('at',) for a_ in T.walk_atoms(x)):
            may_raise(I, node)
        return app('trunc', x)
    return T.opaque('int', I.term(x))


@reg('builtins.float', 'builtins.complex')
def _float(I, a, kw, node):
    if not a:
        return num(0)
    x = unwrap(I, a[0])
    s = cstr(x) if isinstance(x, S) else None
    if s is not None:
        sl = s.strip().lower()
        if sl == 'nan':
            return P(T.NAN)
        if sl in ('inf', '+inf', 'infinity'):
            return P(T.INF)
        if sl == '-inf':
            return T.s_neg(P(T.INF))
        try:
            return num(F(s.strip()))
        except ValueError:
            I.raise_('ValueError', node)
    if is_arr(I, x):
        x = call_method(I, x, 'item', [], {}, node)
    if isinstance(x, S):
        if x is T.NONE:
            I.raise_('TypeError', node)
        if len(a) > 1:
            return T.s_add(x, T.s_mul(P(T.IU), a[1]))
        return T.as_num(x)
    return T.opaque('float', I.term(x))


@reg('builtins.bool')
def _bool(I, a, kw, node):
    return I.truth(a[0]) if a else T.FALSE


@reg('builtins.abs')
def _abs(I, a, kw, node):
    return elementwise(I, T.s_abs, a[:1], node)


@reg('builtins.round')
def _round_b(I, a, kw, node):
    d = kwarg(a, kw, 1, 'ndigits', num(0))
    return elementwise(I, lambda s: app('round', s, num(0) if isnone(d) else d, **({'isint': True} if len(a) < 2 else {})), a[:1], node)


@reg('builtins.divmod')
def _divmod(I, a, kw, node):
    return Tup([I.binop('FloorDiv', a[0], a[1], node), I.binop('Mod', a[0], a[1], node)])


@reg('builtins.pow')
def _pow(I, a, kw, node):
    return I.binop('Pow', a[0], a[1], node)


@reg('builtins.sum')
def _sum(I, a, kw, node):
    st = kwarg(a, kw, 1, 'start', num(0))
    items, seq = as_seq(I, a[0], node)
    if items is not None:
        r = st
        for x in items:
            r = I.binop('Add', r, x, node)
        return r
    if isinstance(seq.elem, S):
        b = T.as_num(seq.elem)
        if seq.guard is not T.TRUE:
            b = ite(seq.guard, b, num(0))
        return T.s_add(st, FX.s_sum([seq.iv], [seq.n], b))
    av = to_av(I, seq.elem)
    if av is not None and av.ndim:
        axes, b = av.opened()
        if seq.guard is not T.TRUE:
            b = ite(seq.guard, b, num(0))
        r = I.alloc(Arr(AV(axes, FX.s_sum([seq.iv], [seq.n], b), av.kind)))
        return I.binop('Add', r, st, node)
    I.undecide('sum', node)
    return T.opaque('sum', I.term(a[0]))


def _minmax(fn):
    def h(I, a, kw, node):
        if 'key' in kw:
            k = kw['key']
            items = M.concrete_items(I, a[0], None) if len(a) == 1 else list(a)
            if items is not None:
                ks = [I.call(k, [x], {}, node) for x in items]
                r, rk = items[0], ks[0]
                for x, y in zip(items[1:], ks[1:]):
                    c = T.s_lt(y, rk) if fn == 'min' else T.s_lt(rk, y)
                    r, rk = I.merge_val(c, x, r), ite(c, y, rk)
                return r
            items, seq = as_seq(I, a[0], node)
            e = I.call(k, [seq.elem], {}, node)
            if isinstance(e, S):
                p = FX.reduce_('arg' + fn, [seq.iv], [seq.n], e)
                return M.instantiate(I, seq.elem, {seq.iv: p})
            return I.opaque_call('builtins.' + fn, a, kw, node)
        if len(a) > 1:
            r = a[0]
            for x in a[1:]:
                if isinstance(r, S) and isinstance(x, S):
                    # Python semantics: keep the first unless strictly better
                    c = T.s_lt(x, r) if fn == 'min' else T.s_lt(r, x)
                    if FX.maybe_nan(r) or FX.maybe_nan(x):
                        r = ite(c, x, r)
                    else:
                        r = FX.s_min(r, x) if fn == 'min' else FX.s_max(r, x)
                else:
                    c = I.truth(I.compare('Lt', *((x, r) if fn == 'min' else (r, x)), node))
                    r = I.merge_val(c, x, r)
            return r
        items, seq = as_seq(I, a[0], node)
        if items is not None:
            if not items:
                if 'default' in kw:
                    return kw['default']
                I.raise_('ValueError', node)
            if len(items) == 1:
                return items[0]
            return h(I, items, {}, node)
        if isinstance(seq.elem, S):
            b = seq.elem
            if seq.guard is not T.TRUE:
                return FX.reduce_('nan' + fn, [seq.iv], [seq.n], ite(seq.guard, b, P(T.NAN)))
            return FX.reduce_(fn, [seq.iv], [seq.n], b)
        return I.opaque_call('builtins.' + fn, a, kw, node)
    return h


BUILTINS['builtins.min'] = _minmax('min')
BUILTINS['builtins.max'] = _minmax('max')


def _anyall(fn):
    def h(I, a, kw, node):
        x = unwrap(I, a[0])
        items, seq = as_seq(I, x, node)
        if items is not None:
            r = T.TRUE if fn == 'all' else T.FALSE
            for y in items:
                t = I.truth(y)
                r = land(r, t) if fn == 'all' else lor(r, t)
            return r
        t = I.truth(seq.elem)
        g = seq.guard
        if fn == 'any':
            return FX.s_any([seq.iv], [seq.n], land(g, t))
        return FX.s_all([seq.iv], [seq.n], lor(lnot(g), t))
    return h


BUILTINS['builtins.any'] = _anyall('any')
BUILTINS['builtins.all'] = _anyall('all')


@reg('builtins.sorted')
def _sorted(I, a, kw, node):
    rev = kw.get('reverse', T.FALSE)
    items = M.concrete_items(I, a[0], None)
    if items is not None and (rev is T.FALSE or rev is T.TRUE):
        if len(items) <= 1:
            return I.alloc(Lst([('one', x) for x in items]))
        key = kw.get('key')
        ks = items if key is None or isnone(key) else [I.call(key, [y], {}, node) for y in items]

        def const(k):
            if isinstance(k, S):
                return cval(k, None)
            if isinstance(k, Tup):
                r = tuple(const(q) for q in k.items)
                return None if any(q is None for q in r) else r
            return None

        def shape(q):
            return tuple(shape(z) for z in q) if isinstance(q, tuple) else type(q)
        cs = [const(x) for x in ks]
        if all(isinstance(q, (F, str, tuple)) for q in cs) and len(set(shape(q) for q in cs)) == 1:
            return I.alloc(Lst([('one', items[k]) for k in sorted(range(len(cs)), key=lambda k: cs[k], reverse=rev is T.TRUE)]))
    ts = [(k, I.term(v)) for k, v in sorted(kw.items()) if not isinstance(v, (Fn, Partial)) and not isnone(v) and not (k == 'reverse' and v is T.FALSE)]
    items, seq = as_seq(I, a[0], node)
    if items is not None:
        x = I.alloc(Lst([('one', y) for y in items]))
        n = num(len(items))
        iv = ivar()
        pos = V(iv)
        seq = None
    key = kw.get('key')
    if seq is not None and isinstance(seq.elem, (S, Tup, Ref)) and seq.guard is T.TRUE:
        e = seq.elem
        ke = e if key is None or isnone(key) else I.call(key, [e], {}, node)
        if isinstance(ke, S) or isinstance(ke, Tup):
            if isinstance(ke, Tup) and ke.items and isinstance(ke.items[0], S):
                at0 = T.single_atom(ke.items[0].val) if ke.items[0].kind == 'L' and isinstance(ke.items[0].val, T.Poly) else None
                if at0 is not None and at0.op == 'lab':
                    ke = ke.items[0]        # labels are distinct: the first component settles the order
            kt = ke if isinstance(ke, S) else app('lexkey', *[I.term(q) for q in ke.items])
            L = T.lam([seq.iv], [seq.n], kt)
            v = ivar()
            p = app('argsort', L, *ts, V(v), isint=True, nonneg=True)
            return I.alloc(Lst([('map', v, seq.n, M.instantiate(I, e, {seq.iv: p}), T.TRUE)]))
    t = I.term(a[0])
    if items is not None and key is not None and not isnone(key):
        ks = [I.call(key, [y], {}, node) for y in items]
        ts.append(('keys', tuple(I.term(k) for k in ks)))
    v = ivar()
    n = length(I, a[0]) if not isinstance(a[0], S) else T.opaque('len', t)
    av = to_av(I, a[0])
    if av is not None and av.ndim == 1 and key is None:
        r = call_builtin(I, 'numpy.sort', [a[0]], {}, node)
        return _list(I, [r], {}, node) if not ts else app('sortedx', I.term(r), *ts)
    return I.alloc(Lst([('map', v, n, app('sortedlist', t, *ts, V(v)), T.TRUE)]))


def not_type(I, t):
    """definitely not something isinstance accepts as its second argument"""
    if isinstance(t, Tup):
        return any(not_type(I, x) for x in t.items)
    if isinstance(t, S):
        return t.kind != 'N' and not t.unmod
    return isinstance(t, Ref) and isinstance(I.rec(t), (Arr, Lst, Dct))


@reg('builtins.isinstance')
def _isinst(I, a, kw, node):
    if not_type(I, a[1]):
        I.raise_('TypeError', node)
    r = isinstance_(I, unwrap(I, a[0]), a[1])
    from .interp import MaybeV
    if r is None:
        x = unwrap(I, a[0])
        if isinstance(x, MaybeV):
            p, q = (isinstance_(I, y, a[1]) for y in (x.a, x.b))
            if p is not None and q is not None:
                return ite(x.c, leaf(p), leaf(q))
        if isinstance(x, S) and x.kind == 'N' and not x.unmod:
            return ite(T.bool_atom(x.atom), _isinst(I, [x.hi, a[1]], kw, node), _isinst(I, [x.lo, a[1]], kw, node))
        I.undecide('isinstance', node)
        return T.as_bool(T.opaque('isinstance', I.term(a[0]), I.term(a[1])))
    return leaf(r)


@reg('builtins.issubclass')
def _issub(I, a, kw, node):
    return app('issubclass', I.term(a[0]), I.term(a[1]), isbool=True)


@reg('builtins.type')
def _type(I, a, kw, node):
    x = unwrap(I, a[0])
    if isinstance(x, S) and x.unmod:
        return T.opaque('type', x)
    n = type_name(I, x)
    if n is None:
        return app('type', I.term(x))
    if is_obj(I, x) and isinstance(I.rec(x).cls, Cls):
        return I.rec(x).cls
    return Type(n)


@reg('builtins.hasattr')
def _hasattr(I, a, kw, node):
    if isinstance(a[1], (Tup, Ref)) and not (isinstance(a[1], Ref) and is_obj(I, a[1])):
        I.raise_('TypeError', node)
    nm = cstr(a[1])
    if nm is None:
        return T.as_bool(T.opaque('hasattr', I.term(a[0]), a[1]))
    return has_attr(I, a[0], nm, node)


def has_attr(I, x, nm, node):
    from .interp import MaybeV
    x = unwrap(I, x)
    if isinstance(x, MaybeV):
        return ite(x.c, has_attr(I, x.a, nm, node), has_attr(I, x.b, nm, node))
    if isinstance(x, S):
        if x.kind == 'N' and not x.unmod:
            return ite(T.bool_atom(x.atom), has_attr(I, x.hi, nm, node), has_attr(I, x.lo, nm, node))
        if x.unmod and not is_plain_num(x):
            return T.as_bool(T.opaque('hasattr', x, leaf(nm)))
        if x is T.NONE:
            return leaf(hasattr(None, nm))
        c = x.val if x.kind == 'L' else None
        if isinstance(c, (str, T.SymC)):
            return leaf(hasattr('', nm))
        if x.cls == 'bool':
            return leaf(hasattr(True, nm))
        if nm in ('__len__', '__iter__', '__getitem__', 'values', 'columns', 'index', 'iloc', 'loc', 'name'):
            return T.FALSE
        return leaf(nm in ATTRS['float'] or nm in ATTRS['npf'])
    if isinstance(x, Tup):
        return leaf(hasattr((), nm))
    if isinstance(x, Ref):
        r = I.rec(x)
        if isinstance(r, Lst):
            return leaf(hasattr([], nm))
        if isinstance(r, Dct):
            return leaf(hasattr({}, nm))
        if isinstance(r, Arr):
            key = {'nd': 'nd', 'series': 'series', 'frame': 'frame', 'index': 'dtindex' if r.av.dtype == 'datetime' else 'index'}[r.av.kind]
            base = nm in ATTRS[key] or nm.startswith('__') and hasattr([], nm)
            return leaf(base)
        if isinstance(r, Obj):
            if nm in r.attrs or I.find_method(r, nm) is not None:
                return T.TRUE
    return T.as_bool(T.opaque('hasattr', I.term(x), leaf(nm)))


@reg('builtins.getattr')
def _getattr(I, a, kw, node):
    nm = cstr(a[1])
    if nm is None:
        return T.opaque('getattr', I.term(a[0]), I.term(a[1]))
    if len(a) > 2:
        c = has_attr(I, a[0], nm, node)
        if c is T.TRUE:
            return I.getattr(a[0], nm, node)
        if c is T.FALSE:
            return a[2]
        return I.branch(c, lambda: I.getattr(a[0], nm, node), lambda: a[2])
    return I.getattr(a[0], nm, node)


@reg('builtins.setattr')
def _setattr(I, a, kw, node):
    nm = cstr(a[1])
    if nm is None:
        I.mutate(a[0], 'setattr', node)
        I.undecide('setattr', node)
        return T.NONE
    I.setattr(a[0], nm, a[2], node)
    return T.NONE


@reg('builtins.callable')
def _callable(I, a, kw, node):
    x = unwrap(I, a[0])
    if isinstance(x, (Fn, Partial, Builtin, Cls, Type, Meth)):
        return T.TRUE
    if isinstance(x, Ref) and not is_obj(I, x) or isinstance(x, Tup):
        return T.FALSE
    if isinstance(x, S) and not x.unmod:
        return T.FALSE
    return T.as_bool(T.opaque('callable', I.term(x)))


@reg('builtins.id', 'builtins.hash')
def _id(I, a, kw, node):
    return app('id', I.term(a[0]))


@reg('builtins.print')
def _print(I, a, kw, node):
    I.event('print', node, args=list(a))
    return T.NONE


@reg('builtins.input')
def _input(I, a, kw, node):
    I.event('input', node, args=list(a))
    I._inputs = getattr(I, '_inputs', 0) + 1
    return app('input', num(I._inputs), *[I.term(x) for x in a])


@reg('builtins.open', 'io.open')
def _open(I, a, kw, node):
    mode = kwarg(a, kw, 1, 'mode', leaf('r'))
    m = cstr(mode)
    writes = m is None or any(c in m for c in 'wax+')
    I.event('file_write' if writes else 'file_read', node, path=a[0] if a else kw.get('file'), mode=mode, how='open')
    may_raise(I, node)
    return I.alloc(Obj('file', {'path': a[0] if a else T.NONE, 'mode': mode}))


def _file_method(I, o, args, kw, node, name):
    r = I.rec(o)
    if name == 'close':
        I.event('close', node, obj=o)
        return T.NONE
    if name in ('write', 'writelines'):
        I.event('file_content', node, path=r.attrs['path'], data=list(args))
        return T.NONE
    if name in ('read', 'readline', 'readlines', 'seek', 'tell', 'decode'):
        return app('file.' + name, I.term(r.attrs['path']), *[I.term(x) for x in args])
    return app('file.' + name, I.term(r.attrs['path']), *[I.term(x) for x in args])


OBJM[('file', '*')] = _file_method


def _last_attr(node):
    f = getattr(node, 'func', None)
    return getattr(f, 'attr', getattr(f, 'id', ''))


@reg('builtins.vars', 'builtins.locals', 'builtins.globals')
def _vars(I, a, kw, node):
    if a and is_obj(I, a[0]):
        return I.alloc(Dct([('kv', leaf(k), v) for k, v in I.rec(a[0]).attrs.items()]))
    if a and isinstance(a[0], Cls):
        return I.alloc(Dct([('kv', leaf(k), v) for k, v in a[0].attrs.items()]))
    fr = I.frames[-1]
    if not a and not any(l.get('sym') for l in fr.loops) and _last_attr(node) in ('vars', 'locals') and I.callstack:
        from .interp import MaybeUnbound
        ps = []
        for k, v in fr.env.items():
            if isinstance(v, MaybeUnbound):
                ps.append(('if', v.cond, (('kv', leaf(k), v.v),)))
            else:
                ps.append(('kv', leaf(k), v))
        return I.alloc(Dct(ps))
    I.undecide('vars/locals/globals', node)
    return T.opaque('vars', num(id(fr) % 1000))


@reg('builtins.slice')
def _slice(I, a, kw, node):
    x = [None if isnone(y) else y for y in a]
    if len(x) == 1:
        return Slice(None, x[0], None)
    return Slice(x[0], x[1], x[2] if len(x) > 2 else None)


@reg('builtins.object')
def _object(I, a, kw, node):
    return I.alloc(Obj('object', {}))


@reg('builtins.exec', 'builtins.eval', 'builtins.__import__', 'builtins.super')
def _exec(I, a, kw, node):
    return I.opaque_call('exec', a, kw, node)


# ------------------------------------------------------------------ itertools / functools
def _combos(with_rep):
    def h(I, a, kw, node):
        r = cint(kwarg(a, kw, 1, 'r'))
        items = M.concrete_items(I, a[0], None)
        import itertools
        if items is not None and r is not None:
            f = itertools.combinations_with_replacement if with_rep else itertools.combinations
            return I.alloc(Lst([('one', Tup(t)) for t in f(items, r)]))
        if r != 2:
            return I.opaque_call('itertools.combinations', a, kw, node)
        its, seq = as_seq(I, a[0], node)
        n = seq.n
        k = ivar()
        nm = 'combr' if with_rep else 'comb'
        i = app(nm, n, num(0), V(k), isint=True, nonneg=True)
        j = app(nm, n, num(1), V(k), isint=True, nonneg=True)
        N = T.s_div(T.s_mul(n, T.s_add(n, num(1)) if with_rep else T.s_sub(n, num(1))), num(2))
        return Seq(k, N, Tup([M.instantiate(I, seq.elem, {seq.iv: i}), M.instantiate(I, seq.elem, {seq.iv: j})]))
    return h


BUILTINS['itertools.combinations'] = _combos(False)
BUILTINS['itertools.combinations_with_replacement'] = _combos(True)


@reg('itertools.product')
def _product(I, a, kw, node):
    its = [M.concrete_items(I, x, None) for x in a]
    import itertools
    if all(i is not None for i in its):
        return I.alloc(Lst([('one', Tup(t)) for t in itertools.product(*its)]))
    if len(a) == 2:
        i1, s1 = as_seq(I, a[0], node)
        i2, s2 = as_seq(I, a[1], node)
        if s1 is not None and s2 is not None:
            k = ivar()
            m1 = {s1.iv: app('floor', T.s_div(V(k), s2.n))}
            m2 = {s2.iv: app('mod', V(k), s2.n)}
            return Seq(k, T.s_mul(s1.n, s2.n), Tup([M.instantiate(I, s1.elem, m1), M.instantiate(I, s2.elem, m2)]))
    return I.opaque_call('itertools.product', a, kw, node)


@reg('itertools.chain')
def _chain(I, a, kw, node):
    ps = []
    for x in a:
        ps += list_parts(I, x)
    return I.alloc(Lst(ps))


@reg('itertools.count')
def _count_it(I, a, kw, node):
    iv = ivar()
    return Seq(iv, P(T.INF), T.s_add(kwarg(a, kw, 0, 'start', num(0)), V(iv)))


@reg('functools.partial')
def _partial(I, a, kw, node):
    return Partial(a[0], tuple(a[1:]), kw)


@reg('functools.reduce')
def _freduce(I, a, kw, node):
    items = M.concrete_items(I, a[1], None)
    if items is None:
        return I.opaque_call('functools.reduce', a, kw, node)
    acc = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {}, node)
    return acc


@reg('functools.wraps')
def _wraps(I, a, kw, node):
    return Builtin('vg.identity')


@reg('functools.lru_cache', 'functools.cache')
def _cache(I, a, kw, node):
    I.event('memo', node, what='functools cache')
    if a and isinstance(a[0], (Fn, Partial)):
        return a[0]
    return Builtin('vg.memoize')


@reg('vg.identity', 'vg.memoize')
def _ident(I, a, kw, node):
    return a[0]


BUILTINS['copy.copy'] = lambda I, a, kw, node: shallow(I, a[0], node)
BUILTINS['copy.deepcopy'] = lambda I, a, kw, node: shallow(I, a[0], node, True)


def shallow(I, x, node, deep=False):
    x = unwrap(I, x)
    if isinstance(x, (S, Fn, Builtin, Partial)):
        return x
    if isinstance(x, Ref):
        r = I.rec(x)
        if isinstance(r, Arr):
            return I.alloc(Arr(r.av))
        if isinstance(r, Lst):
            ps = r.parts
            if deep:
                ps = [('one', shallow(I, p[1], node, True)) if p[0] == 'one' else p for p in ps]
            return I.alloc(Lst(ps))
        if isinstance(r, Dct):
            ps = r.parts
            if deep:
                ps = [('kv', p[1], shallow(I, p[2], node, True)) if p[0] == 'kv' else p for p in ps]
            return I.alloc(Dct(ps))
        if isinstance(r, Obj):
            return I.alloc(Obj(r.cls, r.attrs))
    if isinstance(x, Tup):
        return Tup([shallow(I, y, node, True) for y in x.items]) if deep else x
    return x


# ------------------------------------------------------------------ files / OS / network
@reg('os.path.join')
def _join(I, a, kw, node):
    out = []
    for x in a:
        if not isinstance(x, S):
            return app('pathjoin', *[I.term(y) for y in a])
        out.append(x)
    if all(cstr(x) is not None for x in out):
        import posixpath
        return leaf(posixpath.join(*[cstr(x) for x in out]))
    flat = []
    for x in out:
        at = T.single_atom(x.val) if x.kind == 'L' and isinstance(x.val, T.Poly) else None
        if at is not None and at.op == 'pathjoin':
            flat += [y if isinstance(y, S) else leaf(y) for y in at.args]
        else:
            flat.append(x)
    return app('pathjoin', *out)


@reg('os.path.isfile', 'os.path.exists', 'os.path.isdir', 'os.path.lexists')
def _isfile(I, a, kw, node):
    I.event('fs_query', node, path=a[0])
    nm = {'isfile': 'isfile', 'exists': 'pathexists', 'isdir': 'isdir', 'lexists': 'pathexists'}[_fn(node, 'isfile')]
    t = I.term(a[0])
    r = app(nm, t, isbool=True)
    # what this call itself did to the path before
    for p, pc, there in getattr(I, 'fs_done', []):
        if T.same(p, t):
            r = ite(pc, leaf(there and nm != 'isdir'), r)
    return T.as_bool(r)


def fs_note(I, path, there):
    if I.loopdepth == 0 and isinstance(path, S):
        if not hasattr(I, 'fs_done'):
            I.fs_done = []
        I.fs_done.append((I.term(path), I.pc, there))


def _fn(node, d):
    f = getattr(node, 'func', None)
    n = getattr(f, 'attr', getattr(f, 'id', d))
    return n if n in ('isfile', 'exists', 'isdir', 'lexists') else d


@reg('os.path.split')
def _split_p(I, a, kw, node):
    t = I.term(a[0])
    return Tup([app('os.dirname', t), app('os.basename', t)])


BUILTINS['os.path.basename'] = lambda I, a, kw, node: app('os.basename', I.term(a[0]))
BUILTINS['os.path.dirname'] = lambda I, a, kw, node: app('os.dirname', I.term(a[0]))


@reg('os.path.splitext')
def _splitext(I, a, kw, node):
    s = cstr(a[0]) if isinstance(a[0], S) else None
    if s is not None:
        import posixpath
        x, y = posixpath.splitext(s)
        return Tup([leaf(x), leaf(y)])
    t = I.term(a[0])
    return Tup([app('os.root', t), app('os.ext', t)])


@reg('os.listdir')
def _listdir(I, a, kw, node):
    I.event('fs_query', node, path=a[0] if a else None)
    may_raise(I, node)
    if getattr(I, 'dirlist', None) is not None:
        return I.alloc(Lst([('one', leaf(x)) for x in I.dirlist]))
    t = I.term(a[0]) if a else num(0)
    u = app('os.listdir', t)
    iv = ivar()
    return I.alloc(Lst([('map', iv, app('len', u, isint=True, nonneg=True), app('direntry', u, V(iv)), T.TRUE)]))


def _fsop(kind):
    def h(I, a, kw, node):
        I.event(kind, node, path=a[0] if a else None, args=list(a), kw=dict(kw), how=getattr(getattr(node, 'func', None), 'attr', ''))
        may_raise(I, node)
        if kind == 'file_remove' and a:
            fs_note(I, a[0], False)
        return T.NONE
    return h


for _n in ('os.remove', 'os.unlink', 'os.rmdir', 'shutil.rmtree', 'os.removedirs', 'os.truncate'):
    BUILTINS[_n] = _fsop('file_remove')
for _n in ('os.makedirs', 'os.mkdir'):
    BUILTINS[_n] = _fsop('makedirs')
for _n in ('os.rename', 'os.replace', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'os.link', 'os.symlink'):
    BUILTINS[_n] = _fsop('file_move')
for _n in ('os.chdir', 'os.putenv', 'os.system', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'os.umask', 'os.setpriority'):
    BUILTINS[_n] = _fsop('process_state')


@reg('urllib.request.urlretrieve')
def _urlretrieve(I, a, kw, node):
    I.event('net', node, url=a[0])
    I.event('file_write', node, path=kwarg(a, kw, 1, 'filename', T.NONE), mode=leaf('w'), how='urlretrieve', data=a[0])
    may_raise(I, node)
    return T.opaque('urlretrieve', I.term(a[0]))


@reg('urllib.request.urlopen')
def _urlopen(I, a, kw, node):
    I.event('net', node, url=a[0])
    may_raise(I, node)
    iv = ivar()
    u = app('url', I.term(a[0]))
    it = I.alloc(Lst([('map', iv, app('len', u, isint=True, nonneg=True), app('urlrow', u, V(iv)), T.TRUE)]))
    return I.alloc(Obj('urlfile', {'path': u, '$iter': it}))


OBJM[('urlfile', '*')] = _file_method
OBJM[('file', '*')] = _file_method


@reg('netCDF4.Dataset')
def _dataset(I, a, kw, node):
    mode = kwarg(a, kw, 1, 'mode', leaf('r'))
    m = cstr(mode)
    if m != 'r':
        I.event('file_write', node, path=a[0], mode=mode, how='netCDF4')
    else:
        I.event('file_read', node, path=a[0])
    may_raise(I, node)
    o = I.alloc(Obj('ncdataset', {'$path': a[0], '$open': T.TRUE, '$mask': T.TRUE, '$scale': T.TRUE}))
    I.event('open', node, obj=o)
    return o


def _nc_set(I, o, **kw):
    r = I.rec(o)
    I.heap[o.oid] = Obj(r.cls, dict(r.attrs, **kw), r.roots)


def _nc_method(I, o, a, kw, node, name):
    if name == 'close':
        I.event('close', node, obj=o, how='call')
        if is_obj(I, o) and I.rec(o).cls == 'ncdataset':
            _nc_set(I, o, **{'$open': T.FALSE})
        return T.NONE
    if name in ('set_auto_mask', 'set_auto_scale', 'set_auto_maskandscale') and (a or kw):
        v = T.truth(a[0] if a else list(kw.values())[0])
        _nc_set(I, o, **{'$' + k: v for k in ('mask', 'scale') if k in name})
        return T.NONE
    if name.startswith('set_') and 'convert' not in name:
        return T.NONE
    I.undecide('netCDF ' + name, node)
    return app('nc.' + name, I.term(I.rec(o).attrs['$path']), *[I.term(x) for x in a])


OBJM[('ncdataset', '*')] = _nc_method


def _nc_attr(name):
    def h(I, o, a, kw, node):
        return I.alloc(Obj('ncgroup', {'$ds': o, '$what': leaf(name)}))
    return h


OBJM[('ncdataset', 'attr:variables')] = _nc_attr('variables')
OBJM[('ncdataset', 'attr:dimensions')] = _nc_attr('dimensions')
OBJM[('ncdataset', 'attr:groups')] = _nc_attr('groups')


def _nc_var(I, o, a, kw, node):
    r = I.rec(o)
    ds = o if r.cls == 'ncdataset' else r.attrs['$ds']
    nm = cstr(a[0]) if a and isinstance(a[0], S) else None
    if nm is None or cstr(r.attrs.get('$what', leaf('variables'))) != 'variables':
        I.undecide('netCDF item', node)
        return T.opaque('nc:item', I.term(o), *[I.term(x) for x in a])
    known = getattr(I, 'ncshape', None)
    if known is not None and nm not in known:
        I.raise_('KeyError' if r.cls == 'ncgroup' else 'IndexError', node)
    return I.alloc(Obj('ncvar', {'$ds': ds, '$name': leaf(nm)}))


OBJM[('ncdataset', '__getitem__')] = _nc_var
OBJM[('ncgroup', '__getitem__')] = _nc_var


def _nc_read(I, o, a, kw, node):
    r = I.rec(o)
    d = I.rec(r.attrs['$ds'])
    nm = cstr(r.attrs['$name'])
    if d.attrs['$open'] is not T.TRUE:
        I.raise_('RuntimeError', node, cond=lnot(d.attrs['$open']))
    shp = (getattr(I, 'ncshape', None) or {}).get(nm)
    idx = [I.term(x) for x in a]
    full = shp is not None and all(isinstance(x, Slice) and all(y is None or isnone(y) or (d_ is not None and cint(y) == d_) for y, d_ in ((x.lo, 0), (x.hi, None), (x.step, 1)))
                                   or isinstance(x, EllipsisV) for x in (a[0].items if a and isinstance(a[0], Tup) else a))
    if not full:
        I.undecide('netCDF selection', node)
        return T.opaque('nc:read', I.term(d.attrs['$path']), leaf(nm), *idx)
    axes = [Ax(ivar(), n) for n in shp]
    # kept apart by reading mode: masked readings lose the fill values, unscaled ones the packing
    at_ = ite(d.attrs['$mask'], leaf('masked'), leaf('plain'))
    sc_ = ite(d.attrs['$scale'], leaf('scaled'), leaf('raw'))
    return I.alloc(Arr(AV(axes, app('ncval', I.term(d.attrs['$path']), leaf(nm), at_, sc_, *[V(x.var) for x in axes], nan=True), 'nd')))


OBJM[('ncvar', '__getitem__')] = _nc_read


# ------------------------------------------------------------------ warnings, plotting, argparse, logging
@reg('warnings.warn', 'warnings.warn_explicit')
def _warn(I, a, kw, node):
    I.event('warn', node, args=list(a), kw=dict(kw))
    return T.NONE


@reg('warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings')
def _wf(I, a, kw, node):
    I.event('warnfilter', node, args=list(a))
    return T.NONE


@reg('warnings.catch_warnings')
def _cw(I, a, kw, node):
    return I.alloc(Obj('catch_warnings', {}))


def plot_call(I, name, a, kw, node):
    I.event('plot', node, what=name)
    short_ = name.rsplit('.', 1)[-1]
    if short_ in ('subplots', 'subplot_mosaic'):
        return Tup([I.alloc(Obj('mpl', {})), I.alloc(Obj('mpl', {}))])
    if short_ == 'hist':
        return Tup([app('mplhist', num(k), *[I.term(x) for x in a]) for k in range(3)])
    return I.alloc(Obj('mpl', {}))


prefix('matplotlib.', 'mpl_toolkits.', 'seaborn.')(plot_call)


def _mpl_method(I, o, a, kw, node, name):
    I.event('plot', node, what='.' + name)
    return I.alloc(Obj('mpl', {}))


OBJM[('mpl', '*')] = _mpl_method


@prefix('argparse.')
def _argparse(I, name, a, kw, node):
    return I.alloc(Obj('argparser', {}))


def _ap(I, o, a, kw, node, name):
    if name == 'parse_args':
        return I.alloc(Obj('argns', {}))
    if name == 'add_argument':
        I.event('cliarg', node, args=list(a), kw=dict(kw))
    if name in ('error', 'exit'):
        I.raise_('SystemExit', node)
    return I.alloc(Obj('argparser', {}))


OBJM[('argparser', '*')] = _ap


def _argns(I, o, a, kw, node, name):
    return app('arg', name)


OBJM[('argns', '*')] = _argns


@prefix('logging.')
def _logging(I, name, a, kw, node):
    if name in ('logging.basicConfig',):
        I.event('global_state', node, what=name)
    return I.alloc(Obj('logger', {}))


OBJM[('logger', '*')] = lambda I, o, a, kw, node, name: T.NONE


@prefix('time.', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'os.environ', 'os.getenv', 'os.getcwd', 'uuid.', 'secrets.', 'os.urandom', 'sys.')
def _ambient(I, name, a, kw, node):
    I.event('ambient', node, what=name)
    I._amb = getattr(I, '_amb', 0) + 1
    if name == 'sys.exit':
        I.raise_('SystemExit', node)
    return app('ambient:' + name, num(I._amb))


@prefix('datetime.', 'dateutil.', 'pytz.', 'zoneinfo.')
def _dt(I, name, a, kw, node):
    ts = [I.term(x) for x in a] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    if name == 'datetime.timedelta':
        u = {'days': 86400, 'seconds': 1, 'microseconds': F(1, 10**6), 'milliseconds': F(1, 1000), 'minutes': 60, 'hours': 3600, 'weeks': 604800}
        r = num(0)
        for k, x in list(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a)) + list(kw.items()):
            if not isinstance(x, S) or k not in u:
                return app('t:' + name, *ts)
            r = T.s_add(r, T.s_mul(x, num(u[k])))
        return r
    return app('t:' + name, *ts)


@reg('pandas.Timedelta')
def _timedelta(I, a, kw, node):
    if a and isinstance(a[0], S) and cstr(a[0]) is None and not is_strish(I, a[0]):
        unit = kwarg(a, kw, 1, 'unit')
        u = cstr(unit) if unit is not None else 'ns'
        if u in TIME_UNITS:
            return T.s_mul(a[0], num(TIME_UNITS[u]))
    f = freq_term(I, a[0]) if a else None
    if f is not None and len(a) == 1 and not kw:
        return f
    if not a and kw and all(isinstance(x, S) for x in kw.values()):
        r = num(0)
        for k, x in kw.items():
            if k not in TIME_UNITS:
                return T.opaque('call:pandas.Timedelta', *[I.term(x) for x in kw.values()])
            r = T.s_add(r, T.s_mul(x, num(TIME_UNITS[k])))
        return r
    return T.opaque('call:pandas.Timedelta', *[I.term(x) for x in a], *[(k, I.term(v)) for k, v in sorted(kw.items())])


# ------------------------------------------------------------------ pyproj
def _proj_term(I, a, kw):
    t = [I.term(x) for x in a] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    return t


@reg('pyproj.Proj')
def _proj(I, a, kw, node):
    d = {}
    for k, v in kw.items():
        d[k] = v
    o = I.alloc(Obj('proj', {'$args': Tup(a), '$kw': I.alloc(Dct([('kv', leaf(k), v) for k, v in sorted(kw.items())]))}))
    may_raise(I, node)
    if 'zone' in kw:
        z = kw['zone']
        if isinstance(z, S):
            I.event('projzone', node, zone=z)
    return o


def proj_desc(I, o):
    r = I.rec(o)
    kv = []
    for p in I.rec(r.attrs['$kw']).parts:
        k = cstr(p[1])
        v = p[2]
        if k == 'south':
            # falsy flag is the same as the absent flag
            t = T.as_bool(I.truth(v)) if isinstance(v, S) else I.term(v)
            if t is T.FALSE:
                continue
            kv.append((k, t))
        elif k in ('preserve_units',):
            continue
        else:
            kv.append((k, I.term(v)))
    return ('desc', tuple(I.term(x) for x in r.attrs['$args'].items), tuple(kv))


def call_proj(I, o, a, kw, node):
    desc = proj_desc(I, o)
    inv = kw.get('inverse', a[2] if len(a) > 2 and isinstance(a[2], S) else T.FALSE)
    if inv is not T.TRUE and inv is not T.FALSE:
        I.undecide('symbolic inverse flag', node)
    nm = 'projinv' if inv is T.TRUE else 'projfwd'
    opp = 'projfwd' if inv is T.TRUE else 'projinv'
    ex = tuple((k, I.term(v)) for k, v in sorted(kw.items()) if k not in ('inverse',) and v is not T.FALSE)

    def mk(k):
        def f(x, y):
            def g(vx, vy):
                return app(nm, desc, *ex, leaf(vx), leaf(vy), num(k), real=True, nan=False)
            # inverse pair
            ax = T.single_atom(x.val) if x.kind == 'L' and isinstance(x.val, T.Poly) else None
            ay = T.single_atom(y.val) if y.kind == 'L' and isinstance(y.val, T.Poly) else None
            if ax is not None and ay is not None and ax.op == opp and ay.op == opp and ax.args[:-1] == ay.args[:-1] \
                    and ax.args[0] == desc and len(ax.args) == 4 and not ex:
                if const_of(ax.args[-1]) == 0 and const_of(ay.args[-1]) == 1:
                    z = ax.args[1 + k]
                    return z if isinstance(z, S) else leaf(z)
            return app(nm, desc, *ex, x, y, num(k), real=True)
        return f
    x, y = a[0], a[1]
    return Tup([elementwise(I, mk(0), [x, y], node), elementwise(I, mk(1), [x, y], node)])


M.OBJ_CALL['proj'] = call_proj


# ------------------------------------------------------------------ sklearn / pvlib
@reg('sklearn.mixture.GaussianMixture')
def _gm(I, a, kw, node):
    conf = tuple(I.term(x) for x in a) + tuple((k, I.term(v)) for k, v in sorted(kw.items()))
    return I.alloc(Obj('gmm', {'$conf': app('gmmconf', *conf)}))


def _const_len(n):
    if isinstance(n, S):
        if n.kind != 'L' or T.as_poly(n.val) is None:
            return None
        n = T.as_poly(n.val)
    c = const_of(n)
    return int(c) if c is not None else None


def _gm_logdensity(I, at, axes, b):
    """one feature, full covariances: log of the sum over components of w/sqrt(2 pi var) exp(-(x-mu)^2/(2 var)) with
    1/sqrt(var) read from the precision factors"""
    if _const_len(axes[1].n) != 1:
        return None
    try:
        w, mu, pc = [to_av(I, at[k]) for k in ('weights_', 'means_', 'precisions_cholesky_')]
    except KeyError:
        return None
    if w is None or mu is None or pc is None or (w.ndim, mu.ndim, pc.ndim) != (1, 2, 3):
        return None
    k = _const_len(w.axes[0].n)
    if k is None or _const_len(mu.axes[0].n) != k or [_const_len(x.n) for x in pc.axes] != [k, 1, 1] or _const_len(mu.axes[1].n) != 1:
        return None
    z = num(0)
    x = T.subst(b, {axes[1].var: num(0)})
    tot = num(0)
    for i in range(k):
        wi = T.subst(w.body, {w.axes[0].var: num(i)})
        mi = T.subst(mu.body, {mu.axes[0].var: num(i), mu.axes[1].var: z})
        pi_ = T.subst(pc.body, {pc.axes[0].var: num(i), pc.axes[1].var: z, pc.axes[2].var: z})
        d = T.s_mul(T.s_sub(x, mi), pi_)
        g = T.s_div(T.s_mul(wi, pi_), T.s_pow(T.s_mul(num(2), leaf(T.atom_poly(T.PI_ATOM))), num('1/2')))
        tot = T.s_add(tot, T.s_mul(g, app('exp', T.s_div(T.s_neg(T.s_mul(d, d)), num(2)))))
    return app('log', tot)


@reg('sklearn.mixture._gaussian_mixture._compute_precision_cholesky')
def _prec_chol(I, a, kw, node):
    cov = to_av(I, kwarg(a, kw, 0, 'covariances'))
    ct = kwarg(a, kw, 1, 'covariance_type')
    if cov is not None and cov.ndim == 3 and isinstance(ct, S) and cstr(ct) == 'full' and [_const_len(x.n) for x in cov.axes[1:]] == [1, 1]:
        axes, b = cov.opened()
        return I.alloc(Arr(AV(axes, T.s_div(num(1), T.s_pow(b, num('1/2'))), 'nd')))
    return pure_call(I, 'sklearn.mixture._gaussian_mixture._compute_precision_cholesky', a, kw)


def _gm_method(I, o, a, kw, node, name):
    r = I.rec(o)
    fit = tuple((k, I.term(v)) for k, v in sorted(r.attrs.items()) if k.endswith('_'))
    if name == 'score_samples':
        av = to_av(I, a[0])
        if av is not None and av.ndim == 2:
            axes, b = av.opened()
            ld = _gm_logdensity(I, r.attrs, axes, b)
            if ld is not None:
                return I.alloc(Arr(AV([Ax(axes[0].var, axes[0].n)], ld, 'nd')))
            pt = T.lam([axes[1].var], [axes[1].n], b)
            return I.alloc(Arr(AV([Ax(axes[0].var, axes[0].n)], app('gmmlogpdf', fit, pt), 'nd')))
    if name in ('fit', 'fit_predict', 'sample'):
        I.event('rng_entropy', node, fn='GaussianMixture.' + name)
    return app('gmm.' + name, fit, *[I.term(x) for x in a])


OBJM[('gmm', '*')] = _gm_method


@reg('pvlib.irradiance.clearsky_index')
def _csi(I, a, kw, node):
    """elementwise: ghi/clearsky, non-finite -> 0, clipped to [0, max]"""
    ghi = kwarg(a, kw, 0, 'ghi')
    cs = kwarg(a, kw, 1, 'clearsky_ghi', kw.get('ghi_clear', kw.get('clearsky_ghi')))
    mx = kwarg(a, kw, 2, 'max_clearsky_index', num(2))
    x = unwrap(I, ghi)
    y = unwrap(I, cs)
    nfr = sum(1 for v in (x, y) if is_arr(I, v) and I.rec(v).av.kind == 'frame')
    f = lambda g, c, m: app('csi', g, c, m, nonneg=True, real=True)
    if isinstance(mx, S):
        return elementwise(I, lambda g, c: f(g, c, mx), [ghi, cs], node)
    return elementwise(I, f, [ghi, cs, mx], node)


@reg('pvlib.scaling._compute_wavelet')
def _wavelet(I, a, kw, node):
    av = to_av(I, a[0])
    ts = [I.term(x) for x in a[1:]] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    if av is None:
        return I.opaque_call('pvlib wavelet', a, kw, node)
    L = I.term(a[0])
    i, j, k = ivar(), ivar(), ivar()
    n = av.axes[0].n
    m = T.s_add(num(1), app('wavn', L, *ts, isint=True, nonneg=True))     # at least the residual level
    w = I.alloc(Arr(AV([Ax(i, m), Ax(j, n)], app('wavelet', L, *ts, V(i), V(j), real=True, nan=True), 'nd')))
    t = I.alloc(Lst([('map', k, m, app('wavscale', L, *ts, V(k), real=True, pos=True), T.TRUE)]))
    return Tup([w, t])


# ------------------------------------------------------------------ context managers
def ctx_name(I, v):
    if isinstance(v, Ref) and is_obj(I, v):
        c = I.rec(v).cls
        return c if isinstance(c, str) else c.name
    return type(v).__name__


def ctx_enter(I, v):
    return v


def ctx_guard(I, v, node):
    """the block closes it however it is left"""
    if is_obj(I, v) and I.rec(v).cls in ('file', 'urlfile', 'ncdataset', 'hdfstore'):
        I.event('close', node, obj=v, how='with')


def ctx_exit(I, v, node):
    if is_obj(I, v) and I.rec(v).cls == 'ncdataset':
        _nc_set(I, v, **{'$open': T.FALSE})


@reg('contextlib.closing')
def _closing(I, a, kw, node):
    return a[0]
