"""Method calls: ndarray / pandas objects / containers / strings."""
from fractions import Fraction as F
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, app, ite, land, lor, lnot, const_of
from .values import *
from .models import *      # noqa: F401,F403
from .models_index import *      # noqa: F401,F403
from .models_np import *      # noqa: F401,F403
from . import models as M
from .models import reg, arrm, BUILTINS, ARRM, OBJM

# methods that do not modify the receiver and are deterministic: structure-preserving (same axes)
SAME_SHAPE = {
    'rank', 'pct_change', 'ewm', 'cummax', 'cummin', 'cumprod', 'duplicated', 'sort_index', 'interpolate',
    'bfill', 'backfill', 'pad', 'infer_objects', 'convert_dtypes',
}
# methods whose value is an uninterpreted function of the receiver and arguments
PURE_METH = {
    'strftime', 'isoformat', 'day_name', 'month_name', 'strptime', 'as_unit', 'isocalendar', 'tobytes', 'dot', 'corr', 'cov',
    'skew', 'kurt', 'mode', 'nunique', 'value_counts', 'get_loc', 'get_indexer', 'searchsorted', 'asof', 'at_time', 'between_time',
    'autocorr', 'nlargest', 'nsmallest', 'memory_usage', 'describe', 'sample', 'weekday', 'timetuple', 'timestamp', 'hex', 'as_integer_ratio',
    'is_integer', 'conjugate', 'to_julian_date', 'utcoffset', 'zfill', 'rjust', 'ljust', 'center', 'expandtabs', 'encode', 'decode',
    'partition', 'rpartition', 'splitlines', 'isdigit', 'isalpha', 'isnumeric', 'isalnum', 'isspace', 'istitle', 'casefold', 'swapcase',
    'translate', 'count', 'find', 'rfind', 'index', 'to_pydatetime', 'timedelta', 'normalize', 'month_end',
}
RENAME_OPS = {'add': 'Add', 'radd': 'rAdd', 'sub': 'Sub', 'subtract': 'Sub', 'rsub': 'rSub', 'mul': 'Mult', 'multiply': 'Mult', 'rmul': 'Mult',
              'div': 'Div', 'divide': 'Div', 'truediv': 'Div', 'rdiv': 'rDiv', 'rtruediv': 'rDiv', 'pow': 'Pow', 'mod': 'Mod', 'floordiv': 'FloorDiv',
              '__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__pow__': 'Pow', '__radd__': 'rAdd', '__rsub__': 'rSub'}
CMP_OPS = {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq',
           '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE', '__eq__': 'Eq', '__ne__': 'NotEq'}


def call_method(I, o, name, args, kw, node):
    from .interp import MaybeV
    o = unwrap(I, o)
    args = list(args)
    if isinstance(o, MaybeV):
        c = o.c
        return I.branch(c, lambda: I.call(I.getattr(o.a, name, node), args, kw, node), lambda: I.call(I.getattr(o.b, name, node), args, kw, node))
    if isinstance(o, Ref):
        r = I.rec(o)
        if isinstance(r, Arr):
            return arr_method(I, o, r, name, args, kw, node)
        if isinstance(r, Lst):
            return list_method(I, o, r, name, args, kw, node)
        if isinstance(r, Dct):
            return dict_method(I, o, r, name, args, kw, node)
        if isinstance(r, Obj):
            cls = r.cls if isinstance(r.cls, str) else 'user'
            h = OBJM.get((cls, name)) or OBJM.get((cls, '*'))
            if h is not None:
                return h(I, o, args, kw, node) if OBJM.get((cls, name)) else h(I, o, args, kw, node, name)
            if cls.startswith('accessor:'):
                return accessor_method(I, r, cls[9:], name, args, kw, node)
            may_raise(I, node)
            I.undecide('method %s of %s object' % (name, cls), node)
            return T.opaque('ometh:%s.%s' % (cls, name), I.term(o), *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())])
    if isinstance(o, Tup):
        if name == 'index':
            for i, x in enumerate(o.items):
                if x == args[0] or x is args[0]:
                    return num(i)
            return app('tupindex', I.term(o), I.term(args[0]))
        if name == 'count':
            return app('tupcount', I.term(o), I.term(args[0]))
    if isinstance(o, (Builtin, Mod)):
        return call_builtin(I, '%s.%s' % (o.name, name), args, kw, node)
    if isinstance(o, S):
        return scalar_method(I, o, name, args, kw, node)
    if isinstance(o, Meth):
        base = o.obj
        if isinstance(base, S) and not base.unmod:
            I.undecide('method chain %s.%s' % (o.name, name), node)
        return T.opaque('mchain:%s.%s' % (o.name, name), I.term(base), *[I.term(a) for a in args])
    if isinstance(o, Seq):
        return call_method(I, I.alloc(Lst([('map', o.iv, o.n, o.elem, o.guard)])), name, args, kw, node)
    may_raise(I, node)
    return I.opaque_call('method ' + name, [o] + args, kw, node)


# =============================================================== scalars and strings
def scalar_method(I, o, name, args, kw, node):
    s = cstr(o)
    if s is not None:
        cargs = [cval(a, None) if isinstance(a, S) else None for a in args]
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'split', 'startswith', 'endswith', 'rsplit',
                    'isdigit', 'zfill', 'find', 'count', 'swapcase', 'isupper', 'islower', 'removeprefix', 'removesuffix', 'partition', 'isalpha') and not kw:
            ca = []
            ok = True
            for a, c in zip(args, cargs):
                if isinstance(c, str):
                    ca.append(c)
                elif isinstance(c, F):
                    ca.append(int(c))
                elif isinstance(a, Tup) and all(cstr(x) is not None for x in a.items):
                    ca.append(tuple(cstr(x) for x in a.items))
                elif isnone(a):
                    ca.append(None)
                else:
                    ok = False
            if ok:
                r = getattr(s, name)(*ca)
                if isinstance(r, list):
                    return I.alloc(Lst([('one', leaf(x)) for x in r]))
                if isinstance(r, tuple):
                    return Tup([leaf(x) for x in r])
                return leaf(r) if isinstance(r, (str, bool)) else num(r)
    if name == 'format' and s is not None:
        r = format_text(I, s, args, kw, node)
        if r is not None:
            return r
    if name == 'format':
        return app('strformat', o, *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())])
    if name == 'join':
        items = concrete_items(I, args[0], None)
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(o)
                parts.append(x)
            return str_concat(I, parts) if parts else leaf('')
        return app('strjoin', o, I.term(args[0]))
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'zfill', 'encode', 'decode'):
        u = T.single_atom(o.val) if isinstance(o, S) and o.kind == 'L' else None
        if u is not None and not args and not kw:
            if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip') and u.op == 'str.' + name and len(u.args) == 1:
                return o
            if name in ('strip', 'lstrip', 'rstrip') and (u.op == 'str.strip' and len(u.args) == 1 or u.op == 'strpart' and split_ws(u.args[0])):
                return o        # nothing left to strip
        if name == 'decode' and not kw and (not args or (cstr(args[0]) or '').lower().replace('_', '-') in ('utf-8', 'utf8')):
            args = [leaf('utf-8')]
        elif name == 'decode' and kw:
            args = [kw.get('encoding', leaf('utf-8'))]
        r = app('str.' + name, o, *[I.term(a) for a in args])
        return r
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
        return app('str.' + name, o, *[I.term(a) for a in args], isbool=True)
    if name in ('split', 'rsplit'):
        mx = kwarg(args, kw, 1, 'maxsplit')
        sep = kwarg(args, kw, 0, 'sep')
        args = [] if isnone(sep) or sep is None else [sep]
        if mx is not None and cval(mx, None) != -1:
            if name == 'rsplit':
                I.undecide('rsplit with a limit', node)
            args = [leaf(None) if not args else args[0], mx]
        u = T.single_atom(o.val) if isinstance(o, S) and o.kind == 'L' else None
        if not args and u is not None and u.op in ('str.strip', 'str.lstrip', 'str.rstrip') and len(u.args) == 1:
            o = u.args[0]
        t = app('str.split', o, *[I.term(a) for a in args])
        iv = ivar()
        return I.alloc(Lst([('map', iv, app('len', t, isint=True, nonneg=True), app('strpart', t, V(iv)), T.TRUE)]))
    if name == 'total_seconds':
        return o
    if name in ('item', 'copy', '__copy__', 'flatten', 'ravel', 'squeeze', 'conj', 'conjugate', 'astype', 'tolist', 'mean', 'sum', 'max', 'min',
                'round', 'any', 'all', 'clip', 'std', 'abs', 'reshape', 'transpose'):
        if name in ('conj', 'conjugate'):
            return app('conj', o)
        if name == 'astype':
            return cast(I, o, args[0] if args else kw.get('dtype'), node)
        if name in ('flatten', 'ravel', 'reshape'):
            v = ivar()
            return I.alloc(Arr(AV([Ax(v, num(1))], o)))
        if name == 'clip':
            return clip(I, o, kwarg(args, kw, 0, 'min'), kwarg(args, kw, 1, 'max'), node)
        if name == 'std':
            return num(0)
        if name == 'abs':
            return T.s_abs(o)
        if name in ('any', 'all'):
            return T.truth(o)
        if name == 'round':
            return app('round', o, args[0] if args else num(0))
        return o
    if name in ('tz_localize', 'tz_convert'):
        return tzterm(o, [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())], name)
    if name in ('floor', 'ceil') and args:
        return app('t:' + name, o, *[I.term(a) for a in args])
    if name in PURE_METH:
        return app('sm:' + name, o, *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())])
    if o.unmod:
        I.undecide('method %s of unmodelled value' % name, node)
        may_raise(I, node)
        return T.opaque('meth:' + name, o, *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())])
    if o.kind == 'N':
        return T.opaque('meth:' + name, o, *[I.term(a) for a in args])
    may_raise(I, node)
    I.undecide('method %s of scalar' % name, node)
    return T.opaque('meth:' + name, o, *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())])


def cast(I, x, d, node):
    from .models_np import dtype_of
    dt = dtype_of(d) if d is not None else None
    if dt == 'bool':
        return elementwise(I, lambda s: T.truth(s) if s.cls != 'bool' else s, [x], node, 'bool')
    if dt == 'int':
        return elementwise(I, lambda s: s if is_int_body(T.as_num(s)) else app('trunc', T.as_num(s)), [x], node, 'int')
    if dt == 'str':
        return elementwise(I, lambda s: format_value(I, s), [x], node, 'str')
    if dt is not None and dt.startswith('complex'):
        return elementwise(I, T.as_num, [x], node)
    return elementwise(I, lambda s: T.as_num(s), [x], node, 'float' if isinstance(x, Ref) else None)


# =============================================================== lists
def list_method(I, o, r, name, args, kw, node):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
        I.mutate(o, 'list.' + name, node)
        r = I.rec(o)
        parts = list(r.parts)
        if name == 'append':
            parts.append(('one', args[0]))
            I.heap[o.oid] = Lst(parts, r.roots)
            return T.NONE
        if name == 'extend':
            I.heap[o.oid] = Lst(parts + list_parts(I, args[0]), r.roots)
            return T.NONE
        allone = all(p[0] == 'one' for p in parts)
        if name == 'clear':
            I.heap[o.oid] = Lst([], r.roots)
            return T.NONE
        if allone:
            if name == 'insert' and cint(args[0]) is not None:
                parts.insert(cint(args[0]), ('one', args[1]))
                I.heap[o.oid] = Lst(parts, r.roots)
                return T.NONE
            if name == 'pop' and (not args or cint(args[0]) is not None):
                if not parts:
                    I.raise_('IndexError', node)
                k = cint(args[0]) if args else -1
                if not -len(parts) <= k < len(parts):
                    I.raise_('IndexError', node)
                v = parts.pop(k)
                I.heap[o.oid] = Lst(parts, r.roots)
                return v[1]
            if name == 'reverse':
                I.heap[o.oid] = Lst(parts[::-1], r.roots)
                return T.NONE
            if name == 'remove':
                for i, p in enumerate(parts):
                    e = key_eq(I, I.term(p[1]), I.term(args[0]))
                    if e is T.TRUE:
                        parts.pop(i)
                        I.heap[o.oid] = Lst(parts, r.roots)
                        return T.NONE
                    if e is not T.FALSE:
                        break
                else:
                    I.raise_('ValueError', node)
        if name == 'sort' and not args:
            x = call_builtin(I, 'builtins.sorted', [I.alloc(Lst(parts))], kw, node)
            if isinstance(x, Ref) and isinstance(I.rec(x), Lst):
                I.heap[o.oid] = Lst(I.rec(x).parts, r.roots)
                return T.NONE
        if name == 'insert' and cint(args[0]) == 0:
            I.heap[o.oid] = Lst([('one', args[1])] + parts, r.roots)
            return T.NONE
        I.undecide('list.%s' % name, node)
        t = I.term(o)
        iv = ivar()
        I.heap[o.oid] = Lst([('map', iv, T.opaque('len', t), T.opaque('list.' + name, t, V(iv)), T.TRUE)], r.roots)
        return T.opaque('list.' + name, t)
    if name == 'copy':
        return I.alloc(Lst(r.parts))
    if name == 'index':
        if all(p[0] == 'one' for p in r.parts):
            kt = I.term(args[0])
            res = None
            for i, p in enumerate(r.parts):
                e = key_eq(I, I.term(p[1]), kt)
                if e is T.TRUE and res is None:
                    return num(i)
                if e is not T.FALSE:
                    break
            else:
                I.raise_('ValueError', node)
        if len(r.parts) == 1 and r.parts[0][0] == 'map' and isinstance(r.parts[0][3], S) and isinstance(args[0], S) and r.parts[0][4] is T.TRUE:
            e = solve_index(r.parts[0][3], r.parts[0][1], args[0])
            if e is not None:
                return e
        return app('listindex', I.term(o), I.term(args[0]), isint=True, nonneg=True)
    if name == 'count':
        return app('listcount', I.term(o), I.term(args[0]), isint=True, nonneg=True)
    return I.opaque_call('list.' + name, [o] + args, kw, node)


# =============================================================== dicts
def dict_method(I, o, r, name, args, kw, node):
    if name in ('get', 'pop', 'setdefault'):
        k = keyterm(I, args[0])
        v, pres = dict_get(I, o, k, node)
        d = args[1] if len(args) > 1 else kw.get('default', T.NONE)
        if name == 'pop':
            I.mutate(o, 'dict.pop', node)
            r = I.rec(o)
            I.heap[o.oid] = Dct([p for p in r.parts if not (p[0] == 'kv' and p[1] == k)], r.roots)
            if len(args) < 2:
                if pres is T.FALSE:
                    I.raise_('KeyError', node)
                return v
        if name == 'setdefault':
            I.mutate(o, 'dict.setdefault', node)
            if pres is T.FALSE:
                dict_store(I, o, args[0], d)
                return d
        if pres is T.TRUE:
            return v
        if pres is T.FALSE or v is None:
            return d
        return I.merge_val(pres, v, d)
    if name in ('keys', 'values', 'items'):
        ps = []
        for p in r.parts:
            if p[0] == 'kv':
                k = unkey(I, p[1])
                ps.append(('one', k if name == 'keys' else p[2] if name == 'values' else Tup([k, p[2]])))
            elif p[0] == 'dmap':
                _, iv, n, k, v, g = p
                k = unkey(I, k)
                ps.append(('map', iv, n, k if name == 'keys' else v if name == 'values' else Tup([k, v]), g))
            else:
                I.undecide('dict.' + name, node)
                iv = ivar()
                t = I.term(o)
                e = T.opaque('d' + name, t, V(iv))
                return I.alloc(Lst([('map', iv, T.opaque('len', t), e if name != 'items' else Tup([T.opaque('dkeys', t, V(iv)), T.opaque('dvalues', t, V(iv))]), T.TRUE)]))
        return I.alloc(Lst(ps))
    if name == 'copy':
        return I.alloc(Dct(r.parts))
    if name == 'update':
        I.mutate(o, 'dict.update', node)
        r = I.rec(o)
        parts = list(r.parts)
        if args:
            a = unwrap(I, args[0])
            if is_dct(I, a):
                for p in I.rec(a).parts:
                    parts = list(dict_put_part(parts, p))
            else:
                items = concrete_items(I, a, None)
                if items is None:
                    I.undecide('dict.update', node)
                    parts.append(('opaque', I.term(a)))
                else:
                    for it in items:
                        kv = concrete_items(I, it, 2)
                        parts = dict_put(parts, keyterm(I, kv[0]), kv[1])
        for k, v in kw.items():
            parts = dict_put(parts, leaf(k), v)
        I.heap[o.oid] = Dct(parts, r.roots)
        return T.NONE
    if name == 'clear':
        I.mutate(o, 'dict.clear', node)
        I.heap[o.oid] = Dct([], r.roots)
        return T.NONE
    if name == 'popitem':
        I.mutate(o, 'dict.popitem', node)
    return I.opaque_call('dict.' + name, [o] + args, kw, node)


def dict_store(I, o, k, v):
    r = I.rec(o)
    I.heap[o.oid] = Dct(dict_put(r.parts, keyterm(I, k), v), r.roots)


# =============================================================== arrays
def rewrap(I, o, av):
    return I.alloc(Arr(av))


def same_axes(I, av, fn, args, kw, node, axis=0, extra=None):
    """uninterpreted function of the vector along `axis`, same shape"""
    axes, b = av.opened()
    x = axes[axis]
    L = T.lam([x.var], [x.n], b)
    ts = [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    if extra is not None:
        ts.append(extra)
    v = ivar()
    lab = None if x.lab is None else T.subst(x.lab, {x.var: V(v)})
    if x.lab is not None and fn in ('m:interpolate', 'm:rolling', 'm:resample'):
        ts.append(T.lam([x.var], [x.n], x.lab))
    axes[axis] = Ax(v, x.n, lab, x.comp)
    return I.alloc(Arr(AV(axes, app(fn, L, *ts, V(v), nan=True), av.kind, None, av.name)))


def axis_of(kw, args, i, default=0):
    a = kwarg(args, kw, i, 'axis')
    if a is None or isnone(a):
        return default
    c = cint(a)
    if c is None:
        c = {'index': 0, 'columns': 1, 'rows': 0}.get(cstr(a), default)
    return c


def arr_method(I, o, r, name, args, kw, node):
    av = r.av
    kind = av.kind
    pd_ = kind in ('series', 'frame')
    if name in RENAME_OPS and (pd_ or name.startswith('__')):
        op = RENAME_OPS[name]
        other = args[0]
        axis = axis_of(kw, args, 1, 1)
        if kind == 'frame' and is_arr(I, unwrap(I, other)) and I.rec(unwrap(I, other)).av.kind == 'series' and axis == 0:
            axes, b = av.opened()
            ax1, sb = align_series(I, I.rec(unwrap(I, other)).av, axes[0], node)
            sb = T.subst(sb, {ax1.var: V(axes[0].var)})
            from .models import OPS
            f = OPS[op.lstrip('r')]
            nb = f(sb, b) if op[0] == 'r' else f(b, sb)
            res = I.alloc(Arr(AV(axes, nb, 'frame')))
        elif op[0] == 'r':
            res = I.binop(op[1:], other, o, node)
        else:
            res = I.binop(op, o, other, node)
        if 'fill_value' in kw and not isnone(kw['fill_value']):
            I.undecide('fill_value', node)
        return res
    if name in CMP_OPS and (pd_ or name.startswith('__')):
        return I.compare(CMP_OPS[name], o, args[0], node)
    h = ARRM.get(name)
    if h is not None:
        inplace = kw.get('inplace')
        if inplace is T.TRUE:
            kw = {k: v for k, v in kw.items() if k != 'inplace'}
            res = h(I, o, av, args, kw, node)
            I.mutate(o, name + '(inplace=True)', node)
            if is_arr(I, res):
                I.set_arr(o, I.rec(res).av)
            else:
                I.havoc_obj(o)
            return T.NONE
        if inplace is not None:
            kw = {k: v for k, v in kw.items() if k != 'inplace'}
        return h(I, o, av, args, kw, node)
    if kw.get('inplace') is T.TRUE:
        I.mutate(o, name + '(inplace=True)', node)
        I.undecide('inplace ' + name, node)
        I.havoc_obj(o)
        return T.NONE
    may_raise(I, node)
    if name in SAME_SHAPE:
        return same_axes(I, av, 'm:' + name, args, kw, node, axis_of(kw, [], 0) if av.ndim > 1 else 0)
    if name in PURE_METH:
        return app('m:' + name, I.term(o), *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())], nan=True)
    I.undecide('method %s.%s' % (kind, name), node)
    return T.opaque('m:' + name, I.term(o), *[I.term(a) for a in args], *[(k, I.term(v)) for k, v in sorted(kw.items())])


def reduction(name):
    def h(I, o, av, args, kw, node):
        pd_ = av.kind in ('series', 'frame', 'index')
        axis = kwarg(args, kw, 0, 'axis')
        skipna = kw.get('skipna', T.TRUE)
        fn = name
        ddof = kw.get('ddof', 0)
        if pd_:
            if name in ('sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'prod') and skipna is not T.FALSE:
                fn = 'nan' + name
                if name == 'prod':
                    fn = 'prod'
            if name in ('std', 'var') and 'ddof' not in kw:
                ddof = 1
            if av.kind == 'frame' and axis is None:
                axis = num(0)
            if skipna is not T.TRUE and skipna is not T.FALSE:
                I.undecide('symbolic skipna', node)
            if 'min_count' in kw:
                I.undecide('min_count', node)
                return T.opaque('m:' + name, I.term(o), I.term(kw['min_count']))
        kd = kw.get('keepdims', T.FALSE) is T.TRUE
        if 'out' in kw or 'where' in kw or 'initial' in kw:
            return I.opaque_call(name, [o] + args, kw, node)
        return reduce_axes(I, fn, av, axis, node, keepdims=kd, ddof=ddof)
    ARRM[name] = h


for _n in 'sum mean max min std var prod any all argmax argmin median'.split():
    reduction(_n)


@arrm('count')
def _count(I, o, av, args, kw, node):
    return reduce_axes(I, 'count', av, kwarg(args, kw, 0, 'axis', num(0) if av.ndim > 1 else None), node)


@arrm('abs', '__abs__')
def _abs(I, o, av, args, kw, node):
    return elementwise(I, T.s_abs, [o], node)


@arrm('conj', 'conjugate')
def _conj(I, o, av, args, kw, node):
    return elementwise(I, lambda s: app('conj', s), [o], node)


@arrm('round')
def _round_m(I, o, av, args, kw, node):
    d = kwarg(args, kw, 0, 'decimals', num(0))
    return elementwise(I, lambda s: app('round', s, d), [o], node)


@arrm('clip')
def _clip_m(I, o, av, args, kw, node):
    nm = ('min', 'max') if av.kind == 'nd' else ('lower', 'upper')
    if kw.get('axis') is not None:
        return I.opaque_call('clip(axis)', [o] + args, kw, node)
    return clip(I, o, kwarg(args, kw, 0, nm[0], kw.get('a_min')), kwarg(args, kw, 1, nm[1], kw.get('a_max')), node)


@arrm('astype')
def _astype(I, o, av, args, kw, node):
    return cast(I, o, kwarg(args, kw, 0, 'dtype'), node)


@arrm('copy', '__copy__', '__deepcopy__')
def _copy(I, o, av, args, kw, node):
    deep = kwarg(args, kw, 0, 'deep', T.TRUE)
    # pandas >= 3: copy-on-write, also for shallow copies
    return I.alloc(Arr(av))


@arrm('view', '__array__')
def _view(I, o, av, args, kw, node):
    if args:
        return I.opaque_call('view', [o] + args, kw, node)
    r = I.rec(o)
    return I.alloc(Arr(av, r.roots, o.oid))


@arrm('to_numpy')
def _tonumpy(I, o, av, args, kw, node):
    axes, b = av.opened()
    if 'dtype' in kw or args:
        return array(I, o, kw, node, [o] + args)
    return I.alloc(Arr(AV([Ax(a.var, a.n, None, a.comp) for a in axes], b, 'nd', av.dtype)))


@arrm('item')
def _item(I, o, av, args, kw, node):
    if args:
        return getitem(I, o, args[0] if len(args) == 1 else Tup(args), node)
    m = {}
    for a in av.axes:
        n = cint(a.n)
        if n is not None and n != 1:
            I.raise_('ValueError', node)
        m[a.var] = num(0)
    return T.subst(av.body, m)


@arrm('tolist', 'to_list')
def _tolist(I, o, av, args, kw, node):
    axes, b = av.opened()
    n = cint(axes[0].n)
    if len(axes) == 1:
        if n is not None and n <= 64:
            return I.alloc(Lst([('one', T.subst(b, {axes[0].var: num(k)})) for k in range(n)]))
        return I.alloc(Lst([('map', axes[0].var, axes[0].n, b, T.TRUE)]))
    inner = I.alloc(Arr(AV([Ax(a.var, a.n) for a in axes[1:]], b)))
    return I.alloc(Lst([('map', axes[0].var, axes[0].n, inner, T.TRUE)]))


@arrm('transpose')
def _transpose_m(I, o, av, args, kw, node):
    if not args and not kw:
        return get_attr(I, o, 'T', node)
    a = Tup(args) if len(args) > 1 else args[0] if args else kw.get('axes')
    if isinstance(a, S) and not isnone(a):
        a = Tup([a])
    return call_builtin(I, 'numpy.transpose', [o, a], {}, node)


@arrm('flatten')
def _flatten(I, o, av, args, kw, node):
    res = ravel(I, o, node, *( [cstr(args[0])] if args and cstr(args[0]) else []))
    if is_arr(I, res):
        return I.alloc(Arr(I.rec(res).av))
    return res


def _via_np(name, npname, nargs=None):
    def h(I, o, av, args, kw, node):
        return call_builtin(I, 'numpy.' + npname, [o] + list(args), kw, node)
    ARRM[name] = h


for _n in ('ravel squeeze swapaxes cumsum nonzero argsort take compress trace diagonal ptp'):
    pass
_via_np('ravel', 'ravel')
_via_np('squeeze', 'squeeze')
_via_np('swapaxes', 'swapaxes')
_via_np('nonzero', 'nonzero')
_via_np('trace', 'trace')
_via_np('dot', 'dot')


@arrm('reshape')
def _reshape_m(I, o, av, args, kw, node):
    sh = Tup(args) if len(args) > 1 else args[0] if args else kw.get('shape')
    k = {x: y for x, y in kw.items() if x == 'order'}
    return call_builtin(I, 'numpy.reshape', [o, sh], k, node)


@arrm('argsort')
def _argsort_m(I, o, av, args, kw, node):
    return call_builtin(I, 'numpy.argsort', [o] + args, {}, node)


@arrm('cumsum')
def _cumsum_m(I, o, av, args, kw, node):
    ax = kwarg(args, kw, 0, 'axis')
    if av.ndim == 1:
        return cumul(I, av, 0)
    if ax is None:
        if av.kind == 'frame':
            return cumul(I, av, 0)
        return call_builtin(I, 'numpy.cumsum', [o], {}, node)
    return cumul(I, av, cint(ax) % av.ndim)


@arrm('repeat')
def _repeat_m(I, o, av, args, kw, node):
    return call_builtin(I, 'numpy.repeat', [o] + args, kw, node)


@arrm('fill')
def _fill(I, o, av, args, kw, node):
    I.mutate(o, 'fill', node)
    store_nd(I, o, [('ell',)], args[0], node)
    return T.NONE


@arrm('sort')
def _sort_m(I, o, av, args, kw, node):
    I.mutate(o, 'sort', node)
    res = call_builtin(I, 'numpy.sort', [o] + args, kw, node)
    if is_arr(I, res):
        I.set_arr(o, I.rec(res).av)
    return T.NONE


@arrm('partition', 'put', 'resize', 'itemset', 'setfield', 'setflags', 'byteswap')
def _inpl(I, o, av, args, kw, node):
    I.mutate(o, 'in-place method', node)
    I.undecide('in-place ndarray method', node)
    I.havoc_obj(o)
    return T.NONE


# --------------------------------------------------------------- pandas
def nullmap(f, dtype=None):
    def h(I, o, av, args, kw, node):
        return elementwise(I, f, [o], node, dtype)
    return h


ARRM['isna'] = ARRM['isnull'] = nullmap(lambda s: T.isnan(T.as_num(s)), 'bool')
ARRM['notna'] = ARRM['notnull'] = nullmap(lambda s: lnot(T.isnan(T.as_num(s))), 'bool')


@arrm('total_seconds')
def _ts(I, o, av, args, kw, node):
    axes, b = av.opened()
    return I.alloc(Arr(AV(axes, b, av.kind, 'float', av.name)))


@arrm('tz_localize', 'tz_convert')
def _tz(I, o, av, args, kw, node):
    nm = getattr(getattr(node, 'func', None), 'attr', 'tz_localize')
    ts = [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    axes, b = av.opened()
    if av.kind == 'index':
        return I.alloc(Arr(AV(axes, tzterm(b, ts, nm), 'index', av.dtype)))
    x = axes[0]
    lab = tzterm(x.lab if x.lab is not None else V(x.var), ts, nm)
    axes[0] = Ax(x.var, x.n, lab, x.comp)
    return I.alloc(Arr(AV(axes, b, av.kind, av.dtype, av.name)))


def tzterm(b, ts, name='tz_localize'):
    ts = [x[1] if isinstance(x, tuple) and x[0] == 'tz' else x for x in ts]
    return app('t:tz' if name == 'tz_localize' else 't:tzconv', b, *ts)


def split_ws(t):
    """the pieces of a split at white space"""
    t = t.val if isinstance(t, S) and t.kind == 'L' else t
    u = T.single_atom(t) if isinstance(t, T.Poly) else t
    return getattr(u, 'op', None) == 'str.split' and len(u.args) == 1


@arrm('head', 'tail')
def _head(I, o, av, args, kw, node):
    return I.opaque_call('head/tail', [o] + args, kw, node)


ARRM['head'] = lambda I, o, av, a, kw, node: getitem(I, Idx(o, 'iloc'), Slice(None, kwarg(a, kw, 0, 'n', num(5)), None), node)
ARRM['tail'] = lambda I, o, av, a, kw, node: getitem(I, Idx(o, 'iloc'), Slice(T.s_neg(kwarg(a, kw, 0, 'n', num(5))), None, None), node)


@arrm('diff')
def _diff_m(I, o, av, args, kw, node):
    p = kwarg(args, kw, 0, 'periods', num(1))
    sh = _shift(I, o, av, [p], {k: v for k, v in kw.items() if k == 'axis'}, node)
    return I.binop('Sub', o, sh, node)


@arrm('shift')
def _shift(I, o, av, args, kw, node):
    p = kwarg(args, kw, 0, 'periods', num(1))
    if 'freq' in kw or not isinstance(p, S):
        return I.opaque_call('shift', [o] + args, kw, node)
    d = axis_of(kw, args, 2)
    fill = kw.get('fill_value', P(T.NAN))
    axes, b = av.opened()
    x = axes[d]
    k = T.s_sub(V(x.var), p)
    body = T.subst(b, {x.var: k})
    body = ite(T.s_lt(k, num(0)), fill, ite(T.s_ge(k, x.n), fill, body))
    return I.alloc(Arr(AV(axes, body, av.kind, av.dtype, av.name)))


@arrm('dropna')
def _dropna(I, o, av, args, kw, node):
    d = axis_of(kw, args, 0)
    how = cstr(kw.get('how', leaf('any')))
    axes, b = av.opened()
    if 'subset' in kw or 'thresh' in kw:
        sub = kw.get('subset')
        if 'thresh' not in kw and av.kind == 'frame' and d == 0:
            f = getitem(I, o, sub if not (isinstance(sub, S)) else I.alloc(Lst([('one', sub)])), node)
            fa = to_av(I, f)
            if fa is not None and fa.ndim == 2:
                xs, fb = fa.opened()
                nb = T.isnan(T.as_num(fb))
                m = FX.s_any([xs[1].var], [xs[1].n], nb) if how == 'any' else FX.s_all([xs[1].var], [xs[1].n], nb)
                mk = I.alloc(Arr(AV([Ax(xs[0].var, xs[0].n, xs[0].lab)], lnot(m), 'series', 'bool')))
                return getitem(I, o, mk, node)
        return I.opaque_call('dropna', [o] + args, kw, node)
    nb = T.isnan(T.as_num(b))
    if av.ndim == 1:
        m = lnot(nb)
        if m is T.TRUE:
            return I.alloc(Arr(av))
        mk = I.alloc(Arr(AV([Ax(axes[0].var, axes[0].n)], m, 'nd', 'bool')))
        return getitem(I, o, mk, node)
    other = axes[1 - d]
    m = FX.s_any([other.var], [other.n], nb) if how == 'any' else FX.s_all([other.var], [other.n], nb)
    if m is T.FALSE:
        return I.alloc(Arr(av))
    mk = I.alloc(Arr(AV([Ax(axes[d].var, axes[d].n)], lnot(m), 'nd', 'bool')))
    if d == 0:
        return getitem(I, o, mk, node)
    return getitem(I, Idx(o, 'loc'), Tup([Slice(None, None, None), mk]), node)


@arrm('fillna')
def _fillna(I, o, av, args, kw, node):
    v = kwarg(args, kw, 0, 'value')
    if v is None or 'method' in kw or 'limit' in kw:
        return same_axes(I, av, 'm:fillna', args, kw, node)
    return elementwise(I, lambda s, f: ite(T.isnan(T.as_num(s)), f, s), [o, v], node) if isinstance(v, S) else \
        same_axes(I, av, 'm:fillna', args, kw, node)


@arrm('ffill', 'pad')
def _ffill(I, o, av, args, kw, node):
    return same_axes(I, av, 'm:ffill', args, {k: v for k, v in kw.items() if k != 'axis'}, node, axis_of(kw, [], 0))


@arrm('where')
def _where_m(I, o, av, args, kw, node):
    other = kwarg(args, kw, 1, 'other', P(T.NAN))
    return elementwise(I, lambda s, c, x: ite(T.as_bool(c), s, x), [o, args[0] if args else kw['cond'], other], node)


@arrm('mask')
def _mask_m(I, o, av, args, kw, node):
    other = kwarg(args, kw, 1, 'other', P(T.NAN))
    return elementwise(I, lambda s, c, x: ite(T.as_bool(c), x, s), [o, args[0] if args else kw['cond'], other], node)


@arrm('between')
def _between(I, o, av, args, kw, node):
    inc = cstr(kw.get('inclusive', leaf('both')))
    lo = T.s_le if inc in ('both', 'left') else T.s_lt
    hi = T.s_le if inc in ('both', 'right') else T.s_lt
    return elementwise(I, lambda s, a, b: land(lo(a, s), hi(s, b)), [o, kwarg(args, kw, 0, 'left'), kwarg(args, kw, 1, 'right')], node, 'bool')


@arrm('get_loc')
def _get_loc(I, o, av, args, kw, node):
    if av.ndim == 1 and len(args) == 1 and isinstance(args[0], S) and av.kind not in ('series', 'frame'):
        axes, b = av.opened()
        x = axes[0]
        r = M.find_pos(I, Ax(x.var, x.n, b), args[0], node)
        if r is not None:
            return r
    return I.opaque_call('get_loc', [o] + list(args), kw, node)


@arrm('isin')
def _isin_m(I, o, av, args, kw, node):
    r = call_builtin(I, 'numpy.isin', [o] + args, kw, node)
    if is_arr(I, r) and av.kind in ('series', 'frame'):
        a = I.rec(r).av
        axes, b = a.opened()
        a0, _ = av.opened()
        axes = [Ax(x.var, x.n, None if y.lab is None else T.subst(y.lab, {y.var: V(x.var)}), x.comp) for x, y in zip(axes, a0)]
        return I.alloc(Arr(AV(axes, b, av.kind, 'bool')))
    return r


@arrm('quantile')
def _quantile_m(I, o, av, args, kw, node):
    q = kwarg(args, kw, 0, 'q', num(F(1, 2)))
    meth = kw.get('interpolation', kw.get('method'))
    extra = ()
    if meth is not None and cstr(meth) != 'linear':
        extra = (meth,)
    ax = kwarg(args, kw, 1, 'axis', num(0) if av.ndim > 1 else None)
    if isinstance(q, S):
        return reduce_axes(I, 'nanquantile', av, ax, node, (q,) + extra)
    qa = to_av(I, q)
    if qa is None:
        return I.opaque_call('quantile', [o] + args, kw, node)
    qx, qb = qa.opened()
    r = to_av(I, reduce_axes(I, 'nanquantile', av, ax, node, (qb,) + extra))
    rx, rb = r.opened()
    return I.alloc(Arr(AV([Ax(qx[0].var, qx[0].n, qb)] + rx, rb, 'frame' if rx else 'series')))


@arrm('idxmax', 'idxmin')
def _idx_m(I, o, av, args, kw, node):
    return I.opaque_call('idxmax/idxmin', [o] + args, kw, node)


def _mk_idx(fn):
    def h(I, o, av, args, kw, node):
        if av.ndim == 1:
            p = reduce_axes(I, fn, av, None, node)
            ax = av.axes[0]
            return p if ax.lab is None else T.subst(ax.lab, {ax.var: p})
        d = axis_of(kw, args, 0)
        p = reduce_axes(I, fn, av, num(d), node)
        ax = av.axes[d]
        if ax.lab is None:
            return p
        return elementwise(I, lambda s: T.subst(ax.lab, {ax.var: s}), [p], node)
    return h


ARRM['idxmax'] = _mk_idx('argmax')
ARRM['idxmin'] = _mk_idx('argmin')


@arrm('rename')
def _rename(I, o, av, args, kw, node):
    axes, b = av.opened()
    if av.kind == 'series':
        x = kwarg(args, kw, 0, 'index')
        if isinstance(x, S):
            return I.alloc(Arr(AV(axes, b, av.kind, av.dtype, x)))
        return I.opaque_call('rename', [o] + args, kw, node)
    for key, d in (('index', 0), ('columns', 1)):
        if key in kw:
            m = kw[key]
            axes[d] = rename_axis(I, axes[d], m, node)
            if axes[d] is None:
                return I.opaque_call('rename', [o] + args, kw, node)
    if args:
        return I.opaque_call('rename', [o] + args, kw, node)
    return I.alloc(Arr(AV(axes, b, av.kind, av.dtype, av.name)))


def rename_axis(I, ax, m, node):
    m = unwrap(I, m)
    if is_dct(I, m) and ax.lab is not None:
        parts = I.rec(m).parts
        if all(p[0] == 'kv' and isinstance(p[2], S) and isinstance(p[1], S) for p in parts):
            n = cint(ax.n)
            if n is not None:
                labs = []
                for j in range(n):
                    l = T.subst(ax.lab, {ax.var: num(j)})
                    for p in parts:
                        l = ite(T.s_eq(l, p[1]), p[2], l)
                    labs.append(l)
                return Ax(ax.var, ax.n, select(ax.var, labs), ax.comp)
            l0 = ax.lab
            l = l0
            for p in parts:
                l = ite(T.s_eq(l0, p[1]), p[2], l)
            return Ax(ax.var, ax.n, l, ax.comp)
        return None
    if isinstance(m, (Fn, Partial, Builtin)) and ax.lab is not None:
        v = eval_callback(I, m, [ax.lab], node)
        if isinstance(v, S):
            return Ax(ax.var, ax.n, v, ax.comp)
    return None


@arrm('reindex')
def _reindex(I, o, av, args, kw, node):
    tgt = kwarg(args, kw, 0, 'index', kw.get('labels'))
    cols = kw.get('columns')
    axes, b = av.opened()
    ts = tuple((k, I.term(v)) for k, v in sorted(kw.items()) if k in ('method', 'fill_value', 'limit', 'tolerance'))
    d = 0
    if cols is not None:
        tgt, d = cols, 1
    if tgt is None:
        return I.opaque_call('reindex', [o] + args, kw, node)
    if kw.get('axis') is not None and (cint(kw['axis']) == 1 or cstr(kw['axis']) == 'columns'):
        d = 1
    ta = to_av(I, tgt)
    if ta is None or ta.ndim != 1:
        return I.opaque_call('reindex', [o] + args, kw, node)
    tx, tb = ta.opened()
    x = axes[d]
    if x.lab is None:
        lab = V(x.var)
    else:
        lab = x.lab
    if cint(tx[0].n) is not None and cint(x.n) is not None:
        p = find_pos(I, Ax(x.var, x.n, lab), tb, node, 'nan') if cint(tx[0].n) == 0 else None
        bodies = []
        for k in range(cint(tx[0].n)):
            key = T.subst(tb, {tx[0].var: num(k)})
            q = find_pos(I, Ax(x.var, x.n, lab), key, node, 'nan')
            bodies.append(P(T.NAN) if q is None else T.subst(b, {x.var: q}))
        v = ivar()
        axes[d] = Ax(v, tx[0].n, T.subst(tb, {tx[0].var: V(v)}))
        body = select(v, bodies) if bodies else num(0)
        return I.alloc(Arr(AV(axes, body, av.kind, None, av.name)))
    L = T.lam([x.var], [x.n], lab)
    if not ts:
        e = find_pos(I, Ax(x.var, x.n, lab), tb, node)
        present = True
        if isinstance(e, S) and not any(a.op == 'posof' for a in T.walk_atoms(e)):
            body = T.subst(b, {x.var: e})
            same_set = T.same(T.subst(tb, {tx[0].var: V(x.var)}), lab)
            if not same_set:
                has = app('haslabel', L, tb, isbool=True)
                body = ite(T.as_bool(has), body, P(T.NAN))
            axes[d] = Ax(tx[0].var, tx[0].n, tb)
            return I.alloc(Arr(AV(axes, body, av.kind, None, av.name)))
    Lb = T.lam([x.var], [x.n], b)
    axes[d] = Ax(tx[0].var, tx[0].n, tb)
    return I.alloc(Arr(AV(axes, app('reindexed', L, Lb, tb, *ts, nan=True), av.kind, None, av.name)))


@arrm('set_index')
def _set_index(I, o, av, args, kw, node):
    k = kwarg(args, kw, 0, 'keys')
    drop = kw.get('drop', T.TRUE)
    if av.kind != 'frame':
        I.raise_('AttributeError', node)
    axes, b = av.opened()
    if isinstance(k, S):
        c = I.rec(frame_col(I, o, I.rec(o), k, node)).av
        cx, cb = c.opened()
        lab = T.subst(cb, {cx[0].var: V(axes[0].var)})
        axes[0] = Ax(axes[0].var, axes[0].n, lab, axes[0].comp)
        res = I.alloc(Arr(AV(axes, b, 'frame')))
        if drop is T.TRUE:
            return drop_cols(I, res, [k], node)
        return res
    ka = to_av(I, k)
    if ka is not None and ka.ndim == 1 and is_arr(I, unwrap(I, k)):
        cx, cb = ka.opened()
        lab = T.subst(cb, {cx[0].var: V(axes[0].var)})
        axes[0] = Ax(axes[0].var, axes[0].n, lab, axes[0].comp)
        return I.alloc(Arr(AV(axes, b, 'frame')))
    return I.opaque_call('set_index', [o] + args, kw, node)


def drop_cols(I, o, keys, node, d=1, errors='raise'):
    av = I.rec(o).av
    axes, b = av.opened()
    ax = axes[d]
    n = cint(ax.n)
    if n is None or ax.lab is None:
        L = T.lam([ax.var], [ax.n], ax.lab if ax.lab is not None else V(ax.var))
        c = T.TRUE
        for k in keys:
            c = land(c, lnot(T.s_eq(ax.lab if ax.lab is not None else V(ax.var), k)))
        mk = I.alloc(Arr(AV([Ax(ax.var, ax.n)], c, 'nd', 'bool')))
        sl = Slice(None, None, None)
        return getitem(I, Idx(o, 'loc'), Tup([sl, mk]) if d == 1 else mk, node)
    keep = []
    found = set()
    for j in range(n):
        l = T.subst(ax.lab, {ax.var: num(j)})
        hit = False
        for i, k in enumerate(keys):
            e = T.s_eq(l, k)
            if e is T.TRUE:
                hit = True
                found.add(i)
            elif e is not T.FALSE:
                return I.opaque_call('drop', [o] + keys, {}, node)
        if not hit:
            keep.append(j)
    if len(found) < len(keys) and errors == 'raise':
        I.raise_('KeyError', node)
    v = ivar()
    labs = [T.subst(ax.lab, {ax.var: num(j)}) for j in keep]
    bodies = [T.subst(b, {ax.var: num(j)}) for j in keep]
    axes[d] = Ax(v, num(len(keep)), select(v, labs) if labs else num(0))
    return I.alloc(Arr(AV(axes, select(v, bodies) if bodies else num(0), av.kind, av.dtype, av.name)))


@arrm('drop')
def _drop(I, o, av, args, kw, node):
    keys = kwarg(args, kw, 0, 'labels')
    d = axis_of(kw, args, 1)
    if 'columns' in kw:
        keys, d = kw['columns'], 1
    if 'index' in kw:
        keys, d = kw['index'], 0
    ks = [keys] if isinstance(keys, S) else concrete_items(I, keys, None)
    if ks is None or not all(isinstance(k, S) for k in ks):
        return I.opaque_call('drop', [o] + args, kw, node)
    return drop_cols(I, o, ks, node, d, cstr(kw.get('errors', leaf('raise'))))


@arrm('reset_index')
def _reset_index(I, o, av, args, kw, node):
    if kw.get('drop') is T.TRUE:
        axes, b = av.opened()
        axes[0] = Ax(axes[0].var, axes[0].n, V(axes[0].var), axes[0].comp)
        return I.alloc(Arr(AV(axes, b, av.kind, av.dtype, av.name)))
    return I.opaque_call('reset_index', [o] + args, kw, node)


@arrm('sort_index')
def _sort_index(I, o, av, args, kw, node):
    d = axis_of(kw, args, 0)
    return permute(I, av, d, av.axes[d].lab, kw, node)


def permute(I, av, d, keybody, kw, node):
    axes, b = av.opened()
    x = axes[d]
    if keybody is None:
        return I.alloc(Arr(av))
    kb = T.subst(keybody, {av.axes[d].var: V(x.var)})
    L = T.lam([x.var], [x.n], kb)
    v = ivar()
    asc = kw.get('ascending', T.TRUE)
    ex = () if asc is T.TRUE else (('ascending', I.term(asc)),)
    p = app('argsort', L, *ex, V(v), isint=True, nonneg=True)
    m = {x.var: p}
    axes[d] = Ax(v, x.n, None if x.lab is None else T.subst(x.lab, m))
    return I.alloc(Arr(AV(axes, T.subst(b, m), av.kind, av.dtype, av.name)))


@arrm('sort_values')
def _sort_values(I, o, av, args, kw, node):
    if av.kind == 'series':
        return permute(I, av, 0, av.body, kw, node)
    if av.kind == 'index':
        return permute(I, av, 0, av.body, kw, node)
    by = kwarg(args, kw, 0, 'by')
    if isinstance(by, S):
        c = I.rec(frame_col(I, o, I.rec(o), by, node)).av
        cx, cb = c.opened()
        return permute(I, av, 0, T.subst(cb, {cx[0].var: V(av.axes[0].var)}), kw, node)
    bys = concrete_items(I, by, None)
    if bys is not None and all(isinstance(x, S) for x in bys) and len(bys) == 1:
        return _sort_values(I, o, av, [bys[0]], {k: v for k, v in kw.items() if k != 'by'}, node)
    if bys is not None and all(isinstance(x, S) for x in bys):
        ks = []
        for x in bys:
            c = I.rec(frame_col(I, o, I.rec(o), x, node)).av
            cx, cb = c.opened()
            ks.append(T.subst(cb, {cx[0].var: V(av.axes[0].var)}))
        return permute(I, av, 0, app('lexkey', *ks), {k: v for k, v in kw.items() if k != 'by'}, node)
    return I.opaque_call('sort_values', [o] + args, kw, node)


@arrm('assign')
def _assign(I, o, av, args, kw, node):
    c = I.alloc(Arr(av))
    for k, v in kw.items():
        if isinstance(v, (Fn, Partial)):
            v = I.call(v, [c], {}, node)
        setcol(I, c, I.rec(c), leaf(k), v, node)
    return c


@arrm('items', 'iteritems')
def _items(I, o, av, args, kw, node):
    if av.kind == 'series':
        axes, b = av.opened()
        x = axes[0]
        lab = x.lab if x.lab is not None else V(x.var)
        n = cint(x.n)
        if n is not None and n <= 64:
            return I.alloc(Lst([('one', Tup([T.subst(lab, {x.var: num(k)}), T.subst(b, {x.var: num(k)})])) for k in range(n)]))
        return Seq(x.var, x.n, Tup([lab, b]))
    x = av.axes[1]
    n = cint(x.n)

    def col(k):
        axes, b = av.opened()
        l = k if x.lab is None else T.subst(x.lab, {x.var: k})
        return Tup([l, I.alloc(Arr(AV([axes[0]], T.subst(b, {axes[1].var: k}), 'series', None, l)))])
    if n is not None and n <= 64:
        return I.alloc(Lst([('one', col(num(k))) for k in range(n)]))
    iv = ivar()
    return Seq(iv, x.n, col(V(iv)))


@arrm('iterrows')
def _iterrows(I, o, av, args, kw, node):
    x = av.axes[0]

    def row(k):
        axes, b = av.opened()
        l = k if x.lab is None else T.subst(x.lab, {x.var: k})
        return Tup([l, I.alloc(Arr(AV([axes[1]], T.subst(b, {axes[0].var: k}), 'series', None, l)))])
    n = cint(x.n)
    if n is not None and n <= 64:
        return I.alloc(Lst([('one', row(num(k))) for k in range(n)]))
    iv = ivar()
    return Seq(iv, x.n, row(V(iv)))


@arrm('keys')
def _keys(I, o, av, args, kw, node):
    return index_of(I, o, 1 if av.kind == 'frame' else 0)


@arrm('to_dict')
def _todict(I, o, av, args, kw, node):
    if av.kind == 'series':
        axes, b = av.opened()
        x = axes[0]
        lab = x.lab if x.lab is not None else V(x.var)
        n = cint(x.n)
        if n is not None and n <= 64:
            return I.alloc(Dct([('kv', T.subst(lab, {x.var: num(k)}), T.subst(b, {x.var: num(k)})) for k in range(n)]))
        return I.alloc(Dct([('dmap', x.var, x.n, lab, b, T.TRUE)]))
    return I.opaque_call('to_dict', [o] + args, kw, node)


@arrm('to_frame')
def _toframe(I, o, av, args, kw, node):
    axes, b = av.opened()
    c = ivar()
    nm = kwarg(args, kw, 0, 'name', av.name if isinstance(av.name, S) else num(0))
    return I.alloc(Arr(AV([axes[0], Ax(c, num(1), nm)], b, 'frame')))


@arrm('to_series')
def _toseries(I, o, av, args, kw, node):
    axes, b = av.opened()
    x = axes[0]
    return I.alloc(Arr(AV([Ax(x.var, x.n, b, x.comp)], b, 'series')))


@arrm('unique')
def _unique_m(I, o, av, args, kw, node):
    return call_builtin(I, 'pandas.unique', [o], {}, node)


@arrm('map')
def _map_m(I, o, av, args, kw, node):
    f = unwrap(I, args[0])
    if isinstance(f, (Fn, Partial)):
        return elementwise(I, lambda s: _as_s(I, eval_callback(I, f, [s], node)), [o], node)
    if is_dct(I, f):
        def look(s):
            v, p = dict_get(I, f, s, node)
            return P(T.NAN) if v is None or not isinstance(v, S) else ite(p, v, P(T.NAN))
        return elementwise(I, look, [o], node)
    if isinstance(f, Builtin):
        return elementwise(I, lambda s: _as_s(I, I.call(f, [s], {}, node)), [o], node)
    return I.opaque_call('map', [o] + args, kw, node)


def _as_s(I, v):
    return v if isinstance(v, S) else T.opaque('cell', I.term(v))


ARRM['applymap'] = _map_m


@arrm('apply', 'agg', 'aggregate')
def _apply(I, o, av, args, kw, node):
    f = unwrap(I, args[0] if args else kw.get('func'))
    extra = kw.get('args')
    ex = list(extra.items) if isinstance(extra, Tup) else []
    fk = {k: v for k, v in kw.items() if k not in ('axis', 'args', 'raw', 'func', 'result_type')}
    if isinstance(f, S) and cstr(f):
        return call_method(I, o, cstr(f), args[1:], kw, node)
    if av.kind == 'series':
        if isinstance(f, (Fn, Partial)):
            def g(s):
                return _as_s(I, eval_cb(I, f, [s] + ex, fk, node))
            return elementwise(I, g, [o], node)
        if isinstance(f, Builtin):
            return I.call(f, [o] + ex, fk, node)
        return I.opaque_call('apply', [o] + args, kw, node)
    d = axis_of(kw, args, 1)
    # apply along axis d: function receives the vector along d for each position of the other axis
    axes, b = av.opened()
    keep = axes[1 - d]
    vec = axes[d]
    vr = I.alloc(Arr(AV([vec], b, 'series', None, keep.lab if keep.lab is not None else V(keep.var))))
    if not isinstance(f, (Fn, Partial, Builtin)):
        return I.opaque_call('apply', [o] + args, kw, node)
    res = eval_cb(I, f, [vr] + ex, fk, node)
    if isinstance(res, S):
        return I.alloc(Arr(AV([keep], res, 'series')))
    ra = to_av(I, res)
    if ra is not None and ra.ndim == 1 and is_arr(I, res) and I.rec(res).av.kind == 'series':
        rx, rb = ra.opened()
        nx = [rx[0], keep] if d == 0 else [keep, rx[0]]
        return I.alloc(Arr(AV(nx, rb, 'frame')))
    if ra is not None and ra.ndim == 1 and d == 0 and is_arr(I, res):
        rx, rb = ra.opened()
        return I.alloc(Arr(AV([Ax(rx[0].var, rx[0].n, vec.lab and T.subst(vec.lab, {vec.var: V(rx[0].var)})), keep], rb, 'frame')))
    I.undecide('apply result', node)
    return T.opaque('apply', I.term(o), I.term(res))


def eval_cb(I, f, args, kw, node):
    saved = I.pc
    try:
        return I.call(f, args, kw, node)
    finally:
        I.pc = saved


@arrm('rolling')
def _rolling(I, o, av, args, kw, node):
    return I.alloc(Obj('rolling', {'$of': o, '$av': None, '$args': Tup([I_term(I, a) for a in args]),
                                   '$kw': Tup([Tup([leaf(k), v]) for k, v in sorted(kw.items())])}))


def I_term(I, a):
    return a


def _roll_method(I, o, args, kw, node, name):
    r = I.rec(o)
    src = r.attrs['$of']
    av = to_av(I, src)
    conf = {cstr(x.items[0]): x.items[1] for x in r.attrs['$kw'].items}
    win = r.attrs['$args'].items[0] if r.attrs['$args'].items else conf.get('window')
    d = axis_of(conf, [], 0)
    ts = [('window', I.term(win))] + [(k, I.term(v)) for k, v in sorted(conf.items()) if k not in ('window', 'axis')]
    ts += [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    axes, b = av.opened()
    x = axes[d]
    v = ivar()
    ex = []
    if x.lab is not None and not (isinstance(win, S) and is_int_body(win)):
        ex = [T.lam([x.var], [x.n], x.lab)]
    body = linear_app('roll:' + name, x.var, x.n, b, tuple(ts + ex + [V(v)]), nan=True) if name in ('mean', 'sum') else \
        app('roll:' + name, T.lam([x.var], [x.n], b), *ts, *ex, V(v), nan=True)
    axes[d] = Ax(v, x.n, None if x.lab is None else T.subst(x.lab, {x.var: V(v)}), x.comp)
    return I.alloc(Arr(AV(axes, body, av.kind, None, av.name)))


OBJM[('rolling', '*')] = _roll_method


@arrm('resample', 'groupby')
def _resample(I, o, av, args, kw, node):
    if getattr(node.func, 'attr', '') == 'groupby' and len(args) == 1 and not kw and av.ndim == 1 and av.kind == 'series':
        k = to_av(I, args[0])
        if k is not None and k.ndim == 1 and k.kind == 'series' and T.same(k.axes[0].n, av.axes[0].n):
            axes, b = av.opened()
            kx, kb = align_series(I, k, axes[0], node)
            return I.alloc(Obj('groups', {'$of': o, '$key': T.lam([kx.var], [kx.n], kb)}))
    return I.alloc(Obj('resample', {'$of': o, '$args': Tup(args), '$kw': Tup([Tup([leaf(k), v]) for k, v in sorted(kw.items())])}))


def _resample_method(I, o, args, kw, node, name):
    r = I.rec(o)
    av = to_av(I, r.attrs['$of'])
    axes, b = av.opened()
    x = axes[0]
    lab = x.lab if x.lab is not None else V(x.var)
    ra, rk = list(r.attrs['$args'].items), [(cstr(p.items[0]), p.items[1]) for p in r.attrs['$kw'].items]
    if not ra and any(k == 'rule' for k, _ in rk):
        ra, rk = [v for k, v in rk if k == 'rule'], [(k, v) for k, v in rk if k != 'rule']
    f = freq_term(I, ra[0]) if ra else None
    if f is not None:
        ra[0] = f
    ts = [I.term(a) for a in ra] + [(k, I.term(v)) for k, v in rk]
    ts += [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    Ll = T.lam([x.var], [x.n], lab)
    v = ivar()
    n = app('resn', Ll, *ts, isint=True, nonneg=True)
    body = app('resample:' + name, T.lam([x.var], [x.n], b), Ll, *ts, V(v), nan=True)
    axes[0] = Ax(v, n, app('reslab', Ll, *ts, V(v)))
    return I.alloc(Arr(AV(axes, body, av.kind, None, av.name)))


OBJM[('resample', '*')] = _resample_method


def _groups_method(I, o, args, kw, node, name):
    """values of a series grouped by a key series of the same length"""
    r = I.rec(o)
    av = to_av(I, r.attrs['$of'])
    how = cstr(args[0]) if args and isinstance(args[0], S) else None
    if name == 'transform' and len(args) == 1 and not kw and how in ('sum', 'count', 'size'):
        axes, b = av.opened()
        x = axes[0]
        K = r.attrs['$key']
        if any(isinstance(p, T.Poly) and len(p.t) > 1 and T.const_of(T.mk_poly({m: c for m, c in p.t if m == ()})) for a in T.walk_atoms(K)
               if a.op in ('lab', 'ts', 'in', 'at') for p in a.args):
            I.undecide('groups numbered by comparison with a neighbour', node)
        bn = T.as_num(b)
        j = ivar()
        bj = T.subst(bn, {x.var: V(j)})
        nanj = T.isnan(bj)
        one = ite(nanj, num(0), bj if how == 'sum' else num(1)) if how != 'size' else num(1)
        s_ = FX.s_sum([j], [x.n], ite(T.s_eq(T.lam_apply(K, [V(j)]), T.lam_apply(K, [V(x.var)])), one, num(0)))
        return I.alloc(Arr(AV(axes, s_, 'series', None, av.name)))
    return I.opaque_call('groupby', [r.attrs['$of'], r.attrs['$key']] + list(args), kw, node)


OBJM[('groups', '*')] = _groups_method


@arrm('interpolate')
def _interpolate_m(I, o, av, args, kw, node):
    """column-wise filling of missing values; known values are kept"""
    opt = dict(kw)
    for k, v in zip(('method',), args):
        opt[k] = v
    if len(args) > 1 or av.kind not in ('series', 'frame') or opt.get('inplace', T.FALSE) is not T.FALSE:
        return I.opaque_call('interpolate', [o] + list(args), kw, node)
    opt.pop('inplace', None)
    dflt = {'method': leaf('linear'), 'axis': num(0), 'limit': T.NONE, 'limit_direction': T.NONE, 'limit_area': T.NONE}
    for k in list(opt):
        if k not in dflt or not isinstance(opt[k], S):
            return I.opaque_call('interpolate', [o] + list(args), kw, node)
        if T.same(opt[k], dflt[k]) or (k == 'axis' and cstr(opt[k]) in ('index', 'rows')):
            del opt[k]
    if 'axis' in opt:
        return I.opaque_call('interpolate', [o] + list(args), kw, node)
    if 'limit' not in opt and cstr(opt.get('limit_area', T.NONE)) == 'inside' and cstr(opt.get('limit_direction', leaf('forward'))) in ('forward', 'backward', 'both'):
        opt.pop('limit_direction', None)
    axes, b = av.opened()
    x = axes[0]
    b = T.as_num(b)
    ts = [(k, v) for k, v in sorted(opt.items())]
    if 'method' in opt:
        ts.append(T.lam([x.var], [x.n], x.lab if x.lab is not None else V(x.var)))
    f = app('interpolate', T.lam([x.var], [x.n], b), *ts, V(x.var), nan=True)
    return I.alloc(Arr(AV(axes, ite(T.isnan(b), f, b), av.kind, None, av.name)))


@arrm('equals')
def _equals(I, o, av, args, kw, node):
    return app('equals', I.term(o), I.term(args[0]), isbool=True)


@arrm('update')
def _update_m(I, o, av, args, kw, node):
    I.mutate(o, 'update', node)
    if av.kind == 'index':
        I.raise_('AttributeError', node)
    # non-NaN values of `other` overwrite, aligned on labels
    other = to_av(I, args[0])
    if other is not None and other.ndim == 1 and av.ndim == 1 and other.kind == 'series':
        axes, b = av.opened()
        ax, ob = align_series(I, other, axes[0], node)
        ob = T.subst(ob, {ax.var: V(axes[0].var)})
        ox, _b = other.opened()
        has = T.TRUE
        if ox[0].lab is not None and axes[0].lab is not None:
            l1 = T.subst(ox[0].lab, {ox[0].var: V(axes[0].var)})
            if not T.same(l1, axes[0].lab):
                has = T.as_bool(app('haslabel', T.lam([ox[0].var], [ox[0].n], ox[0].lab), axes[0].lab, isbool=True))
        I.set_arr(o, AV(axes, ite(land(has, lnot(T.isnan(T.as_num(ob)))), ob, b), av.kind, av.dtype, av.name))
        return T.NONE
    I.undecide('update', node)
    I.havoc_obj(o)
    return T.NONE


@arrm('insert')
def _insert_m(I, o, av, args, kw, node):
    I.mutate(o, 'insert', node)
    if len(args) >= 3 and isinstance(args[1], S):
        setcol(I, o, I.rec(o), args[1], args[2], node)
        return T.NONE
    I.undecide('insert', node)
    I.havoc_obj(o)
    return T.NONE


@arrm('pop')
def _pop_m(I, o, av, args, kw, node):
    I.mutate(o, 'pop', node)
    c = frame_col(I, o, I.rec(o), args[0], node)
    res = drop_cols(I, o, [args[0]], node)
    if is_arr(I, res):
        I.set_arr(o, I.rec(res).av)
    return c


@arrm('get')
def _get_m(I, o, av, args, kw, node):
    return getitem(I, o, args[0], node)


@arrm('xs')
def _xs(I, o, av, args, kw, node):
    return getitem(I, Idx(o, 'loc'), args[0], node)


@arrm('append')
def _append_m(I, o, av, args, kw, node):
    if av.kind in ('series', 'frame'):
        I.raise_('AttributeError', node)
    return I.opaque_call('append', [o] + args, kw, node)


@arrm('to_hdf', 'to_csv', 'to_pickle', 'to_excel', 'to_parquet', 'to_json', 'tofile')
def _to_file(I, o, av, args, kw, node):
    fn = kwarg(args, kw, 0, 'path_or_buf')
    if len(args) > 1:
        I.raise_('TypeError', node)     # the other arguments are keyword-only
    mode = kw.get('mode', leaf('a'))
    I.event('file_write', node, path=fn, mode=mode, how='pandas.to_*', data=o, av=I.rec(o).av, kw=dict(kw), args=list(args))
    return T.NONE


@arrm('plot', 'hist', 'boxplot')
def _plot_m(I, o, av, args, kw, node):
    I.event('plot', node, what='pandas plot')
    return T.opaque('axes')


@arrm('isnull_any')
def _x(I, o, av, args, kw, node):
    return T.NONE


del ARRM['isnull_any']


@arrm('intersection', 'union', 'difference', 'symmetric_difference', 'append_index')
def _setop(I, o, av, args, kw, node):
    t = I.term(o)
    nm = 'idx:' + _last_name(node)
    u = app(nm, t, *[I.term(a) for a in args])
    v = ivar()
    return I.alloc(Arr(AV([Ax(v, app('len', u, isint=True, nonneg=True))], app('at', u, V(v)), 'index')))


def _last_name(node):
    f = getattr(node, 'func', None)
    return getattr(f, 'attr', '?')


@arrm('strftime')
def _strftime(I, o, av, args, kw, node):
    ts = [I.term(a) for a in args]
    return elementwise(I, lambda s: app('t:strftime', s, *ts), [o], node, 'str')


@arrm('floor', 'ceil')
def _tfloor(I, o, av, args, kw, node):
    ts = [I.term(a) for a in args]
    nm = _last_name(node)
    return elementwise(I, lambda s: app('t:' + nm, s, *ts), [o], node)


@arrm('corrwith')
def _corrwith(I, o, av, args, kw, node):
    return I.opaque_call('corrwith', [o] + args, kw, node)


def accessor_method(I, r, acc, name, args, kw, node):
    o = r.attrs['$of']
    ts = [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    if acc == 'dt':
        if name == 'total_seconds':
            return elementwise(I, lambda s: s, [o], node)
        if name in ('tz_localize', 'tz_convert'):
            return elementwise(I, lambda s: tzterm(s, ts, name), [o], node)
        return elementwise(I, lambda s: app('t:' + name, s, *ts), [o], node)
    if name in ('startswith', 'endswith', 'contains', 'match', 'isdigit'):
        return elementwise(I, lambda s: app('str.' + name, s, *ts, isbool=True), [o], node, 'bool')
    return elementwise(I, lambda s: app('str.' + name, s, *ts), [o], node, 'str')


# =============================================================== constructors
def labels_arg(I, x, axis, n, node):
    """labels for a given axis argument -> (Ax label S over axis.var, n)"""
    a = to_av(I, x)
    if a is None or a.ndim != 1:
        I.undecide('index argument', node)
        return None
    xs, b = a.opened()
    return xs[0], b


@reg('pandas.DataFrame')
def _df(I, a, kw, node):
    data = unwrap(I, kwarg(a, kw, 0, 'data'))
    index, columns = kwarg(a, kw, 1, 'index'), kwarg(a, kw, 2, 'columns')
    if index is not None and isnone(index):
        index = None
    if columns is not None and isnone(columns):
        columns = None
    if data is None or isnone(data):
        nx = ivar()
        cx = ivar()
        n, lab = num(0), V(nx)
        if index is not None:
            la = labels_arg(I, index, 0, None, node)
            if la:
                n, lab = la[0].n, T.subst(la[1], {la[0].var: V(nx)})
        m, clab = num(0), V(cx)
        if columns is not None:
            la = labels_arg(I, columns, 1, None, node)
            if la:
                m, clab = la[0].n, T.subst(la[1], {la[0].var: V(cx)})
        return I.alloc(Arr(AV([Ax(nx, n, lab), Ax(cx, m, clab)], P(T.NAN), 'frame')))
    if is_dct(I, data):
        return df_from_dict(I, I.rec(data).parts, index, columns, node)
    if is_lst(I, data):
        ps = I.rec(data).parts
        if ps and all(p[0] == 'one' and is_dct(I, p[1]) for p in ps):
            # list of records
            keys = [q[1] for q in I.rec(ps[0][1]).parts if q[0] == 'kv']
            cols = []
            for k in keys:
                cols.append([dict_get(I, p[1], k, node)[0] for p in ps])
            if all(isinstance(x, S) for c in cols for x in c):
                v, c = ivar(), ivar()
                body = select(c, [select(v, xs) for xs in cols])
                res = I.alloc(Arr(AV([Ax(v, num(len(ps)), V(v)), Ax(c, num(len(keys)), select(c, keys))], body, 'frame')))
                return res
        if ps and len(ps) == 1 and ps[0][0] == 'map' and is_dct(I, ps[0][3]) and ps[0][4] is T.TRUE:
            dd = I.rec(ps[0][3])
            if all(q[0] == 'kv' and isinstance(q[2], S) for q in dd.parts):
                v, c = ivar(), ivar()
                m = {ps[0][1]: V(v)}
                body = select(c, [T.subst(q[2], m) for q in dd.parts])
                return I.alloc(Arr(AV([Ax(v, ps[0][2], V(v)), Ax(c, num(len(dd.parts)), select(c, [q[1] for q in dd.parts]))], body, 'frame')))
        if ps and all(p[0] == 'one' and is_arr(I, unwrap(I, p[1])) and I.rec(unwrap(I, p[1])).av.kind == 'series' for p in ps):
            avs = [I.rec(unwrap(I, p[1])).av for p in ps]
            x0, b0 = avs[0].opened()
            v = ivar()
            bodies = [b0]
            for q in avs[1:]:
                ax1, bb = align_series(I, q, x0[0], node)
                bodies.append(T.subst(bb, {ax1.var: V(x0[0].var)}))
            names = [q.name if isinstance(q.name, S) else num(i) for i, q in enumerate(avs)]
            res = AV([Ax(v, num(len(avs)), select(v, names)), x0[0]], select(v, bodies), 'frame')
            return finish_df(I, res, index, columns, node, False, True)
    av = to_av(I, data)
    if av is None:
        return I.opaque_call('pandas.DataFrame', a, kw, node)
    if av.ndim == 0:
        if index is not None and columns is not None:
            base = _df(I, [], {'index': index, 'columns': columns}, node)
            fa = I.rec(base).av
            return I.alloc(Arr(fa.copy(body=av.body)))
        return I.opaque_call('pandas.DataFrame', a, kw, node)
    axes, b = av.opened()
    if av.ndim == 1:
        c = ivar()
        nm = av.name if isinstance(av.name, S) else num(0)
        x = axes[0]
        res = AV([Ax(x.var, x.n, x.lab if av.kind in ('series',) else None, x.comp), Ax(c, num(1), nm)], b, 'frame', av.dtype)
        return finish_df(I, res, index, columns, node, av.kind == 'series', isinstance(av.name, S))
    if av.ndim > 2:
        I.raise_('ValueError', node)
    labd = av.kind == 'frame'
    res = AV([Ax(x.var, x.n, x.lab if labd else None, x.comp) for x in axes], b, 'frame', av.dtype)
    return finish_df(I, res, index, columns, node, labd, labd)


def finish_df(I, av, index, columns, node, idx_labelled, col_labelled):
    axes, b = av.opened()
    for d, (arg, labelled) in enumerate(((index, idx_labelled), (columns, col_labelled))):
        if arg is None:
            if axes[d].lab is None:
                axes[d] = Ax(axes[d].var, axes[d].n, V(axes[d].var), axes[d].comp)
            continue
        la = labels_arg(I, arg, d, axes[d].n, node)
        if la is None:
            axes[d] = Ax(axes[d].var, axes[d].n, T.opaque('label', I.term(arg), V(axes[d].var)))
            continue
        ax, lb = la
        if labelled:
            # constructor reindexes labelled data
            tmp = I.alloc(Arr(AV(axes, b, 'frame')))
            r = call_method(I, tmp, 'reindex', [], {('index' if d == 0 else 'columns'): arg}, node)
            ra = to_av(I, r)
            if ra is not None and ra.ndim == 2:
                axes, b = ra.opened()
                continue
        if not T.same(ax.n, axes[d].n):
            c1, c2 = cint(ax.n), cint(axes[d].n)
            if c1 is not None and c2 is not None:
                I.raise_('ValueError', node)
            I.event('shape', node, a=ax.n, b=axes[d].n)
        axes[d] = Ax(axes[d].var, axes[d].n, T.subst(lb, {ax.var: V(axes[d].var)}), axes[d].comp)
    return I.alloc(Arr(AV(axes, b, 'frame', av.dtype)))


def df_from_dict(I, parts, index, columns, node):
    if not parts:
        return _df(I, [], {k: v for k, v in (('index', index), ('columns', columns)) if v is not None}, node)
    if len(parts) == 1 and parts[0][0] == 'dmap':
        _, iv, n, k, v, g = parts[0]
        inner = to_av(I, v)
        if g is T.TRUE and inner is not None and inner.ndim == 1 and isinstance(k, S):
            axes, b = inner.opened()
            lab = axes[0].lab if inner.kind in ('series',) else None
            cv = ivar()
            m = {iv: V(cv)}
            x = axes[0]
            res = AV([Ax(x.var, T.subst(x.n, m), lab and T.subst(lab, m), x.comp), Ax(cv, n, T.subst(k, m))], T.subst(b, m), 'frame')
            return finish_df(I, res, index, columns, node, inner.kind == 'series', True)
    if not all(p[0] == 'kv' for p in parts):
        I.undecide('DataFrame from dict', node)
        return T.opaque('DataFrame', I.term(I.alloc(Dct(parts))))
    keys = [p[1] for p in parts]
    if not all(isinstance(k, S) for k in keys):
        I.undecide('DataFrame from dict', node)
        return T.opaque('DataFrame', I.term(I.alloc(Dct(parts))))
    avs = [to_av(I, p[2]) for p in parts]
    if any(a is None or a.ndim > 1 for a in avs):
        I.undecide('DataFrame from dict', node)
        return T.opaque('DataFrame', I.term(I.alloc(Dct(parts))))
    vecs = [a for a in avs if a.ndim == 1]
    if not vecs and index is None:
        I.raise_('ValueError', node)
    lead = next((a for a in vecs if a.kind == 'series'), vecs[0] if vecs else None)
    if lead is None:
        la = labels_arg(I, index, 0, None, node)
        if la is None:
            return T.opaque('DataFrame', I.term(I.alloc(Dct(parts))))
        x0 = Ax(la[0].var, la[0].n, la[1])
        labelled = False
    else:
        ax, _ = lead.opened()
        x0 = Ax(ax[0].var, ax[0].n, ax[0].lab if lead.kind == 'series' else None, ax[0].comp)
        labelled = lead.kind == 'series'
    bodies = []
    for a in avs:
        axs, b = a.opened()
        if a.ndim == 0:
            bodies.append(b)
        elif a.kind == 'series' and labelled:
            ax1, bb = align_series(I, a, x0, node)
            bodies.append(T.subst(bb, {ax1.var: V(x0.var)}))
        else:
            if not T.same(axs[0].n, x0.n):
                c1, c2 = cint(axs[0].n), cint(x0.n)
                if c1 is not None and c2 is not None:
                    I.raise_('ValueError', node)
                I.event('shape', node, a=axs[0].n, b=x0.n)
            bodies.append(T.subst(b, {axs[0].var: V(x0.var)}))
    c = ivar()
    av = AV([x0, Ax(c, num(len(keys)), select(c, keys))], select(c, bodies), 'frame')
    if lead is None:
        index = None
    return finish_df(I, av, index, columns, node, labelled, True)


@reg('pandas.Series')
def _series(I, a, kw, node):
    data = unwrap(I, kwarg(a, kw, 0, 'data'))
    index, name = kwarg(a, kw, 1, 'index'), kwarg(a, kw, 3, 'name')
    nm = name if isinstance(name, S) and not isnone(name) else None
    if index is not None and isnone(index):
        index = None
    if is_dct(I, data):
        ps = I.rec(data).parts
        if len(ps) == 1 and ps[0][0] == 'dmap' and isinstance(ps[0][4], S) and ps[0][5] is T.TRUE and isinstance(ps[0][3], S):
            v = ivar()
            m = {ps[0][1]: V(v)}
            av = AV([Ax(v, ps[0][2], T.subst(ps[0][3], m))], T.subst(ps[0][4], m), 'series', None, nm)
            r = I.alloc(Arr(av))
            return r if index is None else call_method(I, r, 'reindex', [index], {}, node)
        if ps and all(p[0] == 'kv' and isinstance(p[2], S) and isinstance(p[1], S) for p in ps):
            v = ivar()
            av = AV([Ax(v, num(len(ps)), select(v, [p[1] for p in ps]))], select(v, [p[2] for p in ps]), 'series', None, nm)
            r = I.alloc(Arr(av))
            return r if index is None else call_method(I, r, 'reindex', [index], {}, node)
        return I.opaque_call('pandas.Series', a, kw, node)
    if data is None or isnone(data):
        data = P(T.NAN)
        if index is None:
            v = ivar()
            return I.alloc(Arr(AV([Ax(v, num(0), V(v))], P(T.NAN), 'series')))
    if isinstance(data, S):
        if index is None:
            v = ivar()
            return I.alloc(Arr(AV([Ax(v, num(1), V(v))], data, 'series', None, nm)))
        la = labels_arg(I, index, 0, None, node)
        if la is None:
            return T.opaque('Series', data, I.term(index))
        v = ivar()
        return I.alloc(Arr(AV([Ax(v, la[0].n, T.subst(la[1], {la[0].var: V(v)}))], data, 'series', None, nm)))
    av = to_av(I, data)
    if av is None or av.ndim != 1:
        if av is not None and av.ndim > 1:
            I.raise_('ValueError', node)
        return I.opaque_call('pandas.Series', a, kw, node)
    axes, b = av.opened()
    x = axes[0]
    if nm is None and av.kind == 'series' and isinstance(av.name, S):
        nm = av.name
    if index is None:
        lab = x.lab if av.kind == 'series' and x.lab is not None else V(x.var)
        return I.alloc(Arr(AV([Ax(x.var, x.n, lab, x.comp)], b, 'series', av.dtype, nm)))
    if av.kind == 'series':
        r = call_method(I, I.alloc(Arr(av)), 'reindex', [index], {}, node)
        if is_arr(I, r):
            I.set_arr(r, I.rec(r).av.copy(name=nm))
        return r
    la = labels_arg(I, index, 0, None, node)
    lab = T.opaque('label', I.term(index), V(x.var)) if la is None else T.subst(la[1], {la[0].var: V(x.var)})
    if la is not None and not T.same(la[0].n, x.n):
        c1, c2 = cint(la[0].n), cint(x.n)
        if c1 is not None and c2 is not None:
            I.raise_('ValueError', node)
        I.event('shape', node, a=la[0].n, b=x.n)
    return I.alloc(Arr(AV([Ax(x.var, x.n, lab, x.comp)], b, 'series', av.dtype, nm)))


@reg('pandas.Index', 'pandas.DatetimeIndex', 'pandas.TimedeltaIndex', 'pandas.RangeIndex')
def _index(I, a, kw, node):
    av = to_av(I, kwarg(a, kw, 0, 'data'))
    if av is None or av.ndim != 1:
        return I.opaque_call('pandas.Index', a, kw, node)
    axes, b = av.opened()
    ex = [(k, I.term(v)) for k, v in sorted(kw.items()) if k in ('tz', 'freq')]
    if ex:
        b = tzterm(b, ex)
    return I.alloc(Arr(AV([Ax(axes[0].var, axes[0].n, None, axes[0].comp)], b, 'index', av.dtype)))


@reg('pandas.to_datetime', 'pandas.to_timedelta')
def _todt(I, a, kw, node):
    nm = 't:to_datetime'
    f = getattr(getattr(node, 'func', None), 'attr', '')
    if f == 'to_timedelta':
        nm = 't:to_timedelta'
    utc = nm == 't:to_datetime' and kw.get('utc') is T.TRUE and kw.get('unit') is not None
    if utc:         # numbers counted from the epoch
        kw = {k: v for k, v in kw.items() if k != 'utc'}
    if nm == 't:to_datetime':
        kw = {k: v for k, v in kw.items() if not (k == 'utc' and v is T.FALSE) and not (k == 'origin' and cstr(v) == 'unix')
              and not (k == 'errors' and cstr(v) == 'raise') and k != 'cache'}
    ts = [I.term(x) for x in a[1:]] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    may_raise(I, node)
    unit = cstr(kwarg(a, kw, 1, 'unit')) if nm == 't:to_timedelta' else None

    def g(s):
        if nm == 't:to_timedelta' and isinstance(s, S) and s.kind == 'L' and isinstance(s.val, T.Poly):
            # seconds are the unit of time terms
            k = {None: F(1, 10**9), 's': 1, 'ns': F(1, 10**9), 'ms': F(1, 1000), 'us': F(1, 10**6), 'm': 60, 'min': 60, 'h': 3600,
                 'D': 86400, 'd': 86400, 'seconds': 1, 'H': 3600, 'S': 1, 'hours': 3600, 'minutes': 60, 'days': 86400, 'second': 1, 'sec': 1}.get(unit)
            if k is not None and not any(x.op.startswith('t:') or x.op in ('lab',) for x in T.walk_atoms(s)):
                return T.s_mul(s, num(k))
        return tzterm(app(nm, s, *ts), [leaf('UTC')]) if utc else app(nm, s, *ts)
    x = unwrap(I, a[0])
    if is_arr(I, x) and I.rec(x).av.kind == 'frame':
        return app(nm, I.term(x), *ts)
    r = elementwise(I, g, [x], node)
    if is_arr(I, r):
        av = I.rec(r).av
        if av.kind != 'series':
            I.set_arr(r, av.copy(kind='index'))
    return r


@reg('pandas.concat')
def _concat_pd(I, a, kw, node):
    objs = unwrap(I, kwarg(a, kw, 0, 'objs'))
    d = axis_of(kw, a, 1)
    ign = kw.get('ignore_index') is T.TRUE
    keys = kw.get('keys')
    if is_dct(I, objs):
        return I.opaque_call('pandas.concat', a, kw, node)
    if d == 1 and is_lst(I, objs):
        ps = I.rec(objs).parts
        if len(ps) == 1 and ps[0][0] == 'map' and ps[0][4] is T.TRUE:
            inner = to_av(I, ps[0][3])
            if inner is not None and inner.ndim == 1 and inner.kind == 'series':
                axes, b = inner.opened()
                cv = ivar()
                m = {ps[0][1]: V(cv)}
                nm = inner.name if isinstance(inner.name, S) else V(ps[0][1])
                if keys is not None:
                    ka = to_av(I, keys)
                    kx, kb = ka.opened()
                    nm = T.subst(kb, {kx[0].var: V(ps[0][1])})
                x = axes[0]
                return I.alloc(Arr(AV([Ax(x.var, T.subst(x.n, m), x.lab and T.subst(x.lab, m)), Ax(cv, ps[0][2], T.subst(nm, m))], T.subst(b, m), 'frame')))
    items = concrete_items(I, objs, None)
    if items is None:
        if d == 0 and is_lst(I, objs):
            ps = I.rec(objs).parts
            t = I.term(objs)
            return concat_opaque(I, t, ps, node, ign)
        return I.opaque_call('pandas.concat', a, kw, node)
    items = [x for x in items if not isnone(x)]
    if not items:
        I.raise_('ValueError', node)
    avs = [to_av(I, x) for x in items]
    if any(x is None or x.ndim == 0 for x in avs):
        return I.opaque_call('pandas.concat', a, kw, node)
    if d == 0:
        if all(x.ndim == 1 for x in avs):
            r = concat_avs(I, avs, 0)
            if r is None:
                return I.opaque_call('pandas.concat', a, kw, node)
            r = r.copy(kind='series')
            if ign:
                axes, b = r.opened()
                r = AV([Ax(axes[0].var, axes[0].n, V(axes[0].var))], b, 'series')
            return I.alloc(Arr(r))
        # align columns on the first frame
        x0, b0 = avs[0].opened()
        al = [avs[0]]
        for q in avs[1:]:
            if q.ndim != 2:
                return I.opaque_call('pandas.concat', a, kw, node)
            xs, b = q.opened()
            l1 = xs[1].lab and T.subst(xs[1].lab, {xs[1].var: V(x0[1].var)})
            if x0[1].lab is not None and l1 is not None and T.same(l1, x0[1].lab):
                al.append(q)
            elif cint(xs[1].n) is not None and cint(x0[1].n) is not None and xs[1].lab is not None and x0[1].lab is not None:
                return I.opaque_call('pandas.concat', a, kw, node)
            else:
                return I.opaque_call('pandas.concat', a, kw, node)
        r = concat_avs(I, al, 0)
        if r is None:
            return I.opaque_call('pandas.concat', a, kw, node)
        return I.alloc(Arr(r.copy(kind='frame')))
    # columns side by side, aligned on index of the first
    cols = []
    labs = []
    x0, _ = avs[0].opened()
    row = x0[0]
    names = concrete_items(I, keys, None) if keys is not None else None
    for i, q in enumerate(avs):
        if q.ndim == 1:
            ax1, b = align_series(I, q, row, node) if q.kind == 'series' else (q.opened()[0][0], None)
            cols.append(T.subst(b, {ax1.var: V(row.var)}))
            labs.append(names[i] if names else q.name if isinstance(q.name, S) else num(i))
        else:
            n = cint(q.axes[1].n)
            if n is None:
                return I.opaque_call('pandas.concat', a, kw, node)
            for j in range(n):
                xs, b = q.opened()
                s = AV([xs[0]], T.subst(b, {xs[1].var: num(j)}), 'series')
                ax1, bb = align_series(I, s, row, node)
                cols.append(T.subst(bb, {ax1.var: V(row.var)}))
                labs.append(T.subst(xs[1].lab, {xs[1].var: num(j)}) if xs[1].lab is not None else num(j))
    c = ivar()
    if ign:
        labs = [num(j) for j in range(len(labs))]
    return I.alloc(Arr(AV([row, Ax(c, num(len(cols)), select(c, labs))], select(c, cols), 'frame')))


def concat_opaque(I, t, ps, node, ign):
    I.undecide('concat of symbolic list', node)
    return T.opaque('concat', t)


@reg('pandas.isna')
def _isna(I, a, kw, node):
    return elementwise(I, lambda s: T.isnan(T.as_num(s)), a[:1], node, 'bool')


@reg('pandas.notna')
def _notna(I, a, kw, node):
    return elementwise(I, lambda s: lnot(T.isnan(T.as_num(s))), a[:1], node, 'bool')


@reg('pandas.unique')
def _pdunique(I, a, kw, node):
    t = I.term(a[0])
    v = ivar()
    n = app('nuniq', t, isint=True, nonneg=True)
    return I.alloc(Arr(AV([Ax(v, n)], app('uniq', t, V(v)), 'nd')))


@reg('pandas.pivot', 'pandas.pivot_table', 'pandas.merge', 'pandas.cut', 'pandas.get_dummies', 'pandas.melt')
def _pivot(I, a, kw, node):
    nm = getattr(getattr(node, 'func', None), 'attr', 'pivot')
    u = app('pd:' + nm, *[I.term(x) for x in a], *[(k, I.term(v)) for k, v in sorted(kw.items())])
    i, j = ivar(), ivar()
    n1, n2 = app('len', u, num(0), isint=True, nonneg=True), app('len', u, num(1), isint=True, nonneg=True)
    return I.alloc(Arr(AV([Ax(i, n1, app('lab', u, V(i))), Ax(j, n2, app('lab', app('cols', u), V(j)))], app('at', u, V(i), V(j), nan=True), 'frame')))


@reg('pandas.date_range', 'pandas.timedelta_range')
def _daterange(I, a, kw, node):
    u = app('pd:date_range', *[I.term(x) for x in a], *[(k, I.term(v)) for k, v in sorted(kw.items())])
    i = ivar()
    n = kw.get('periods') or app('len', u, isint=True, nonneg=True)
    return I.alloc(Arr(AV([Ax(i, n)], app('at', u, V(i)), 'index', 'datetime')))


@reg('pandas.Timestamp')
def _timestamp(I, a, kw, node):
    return app('t:Timestamp', *[I.term(x) for x in a], *[(k, I.term(v)) for k, v in sorted(kw.items())])


READ_DEFAULTS = {'read_hdf': {'mode': 'r', 'errors': 'strict', 'where': None, 'start': None, 'stop': None, 'columns': None},
                 'read_csv': {'sep': ',', 'header': 'infer', 'index_col': None, 'usecols': None, 'dtype': None, 'encoding': 'utf-8', 'decimal': '.',
                              'skiprows': None, 'nrows': None, 'parse_dates': None, 'names': None, 'comment': None, 'thousands': None}}
READ_NEUTRAL = {'low_memory', 'engine', 'memory_map', 'cache_dates', 'encoding_errors', 'storage_options'}


def read_table(I, name, a, kw, node):
    fn = kwarg(a, kw, 0, 'filepath_or_buffer', kw.get('path_or_buf'))
    I.event('file_read', node, path=fn)
    may_raise(I, node)
    kw = {k: v for k, v in kw.items() if k not in ('filepath_or_buffer', 'path_or_buf')}
    pos = list(a[1:])
    if name == 'read_hdf':
        for k, v in zip(('key', 'mode', 'errors', 'where', 'start', 'stop', 'columns'), pos):
            kw[k] = v
    elif pos:
        I.raise_('TypeError', node)     # keyword-only
    opts = READ_DEFAULTS.get(name, {})
    kw = {k: v for k, v in kw.items() if not (k in opts and (isnone(v) and opts[k] is None or isinstance(v, S) and v.kind == 'L'
                                                            and (cstr(v) if isinstance(opts[k], str) else cval(v, '?')) == opts[k]))}
    for k in [k for k in kw if k in READ_NEUTRAL]:
        kw.pop(k)
    icol = kw.pop('index_col', None) if cstr(kw.get('index_col')) is not None else None
    if icol is not None:
        return call_method(I, read_table(I, name, [fn], kw, node), 'set_index', [icol], {}, node)
    if any(k in ('usecols', 'parse_dates', 'index_col', 'dtype', 'converters', 'chunksize', 'iterator', 'columns', 'date_format') for k in kw):
        I.undecide('option %s of %s' % (sorted(kw), name), node)
    u = app('pd:' + name, I.term(fn), *[(k, I.term(v)) for k, v in sorted(kw.items())])
    i, j = ivar(), ivar()
    n1, n2 = app('len', u, num(0), isint=True, nonneg=True), app('len', u, num(1), isint=True, nonneg=True)
    names = kw.get('names')
    clab = app('lab', app('cols', u), V(j))
    cn = n2
    if names is not None:
        ca = to_av(I, names)
        if ca is not None and ca.ndim == 1:
            cx, cb = ca.opened()
            clab, cn = T.subst(cb, {cx[0].var: V(j)}), cx[0].n
    return I.alloc(Arr(AV([Ax(i, n1, app('lab', u, V(i))), Ax(j, cn, clab)], app('at', u, V(i), V(j) if names is None else clab, nan=cstr(kw.get('key')) not in getattr(I, 'whole_tables', ())), 'frame')))


for _n in ('read_csv', 'read_hdf', 'read_table', 'read_parquet', 'read_excel', 'read_pickle'):
    BUILTINS['pandas.' + _n] = (lambda nm: lambda I, a, kw, node: read_table(I, nm, a, kw, node))(_n)
