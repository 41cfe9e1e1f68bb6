"""numpy / scipy numeric models and builtin-call dispatch."""
from fractions import Fraction as F
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, app, ite, land, lor, lnot, const_of
from .values import *
from .models import *      # noqa: F401,F403
from .models_index import *      # noqa: F401,F403
from . import models as M
from .models import reg, arrm, BUILTINS, ARRM, OBJM, ALIAS


def kwarg(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if len(args) > i:
        return args[i]
    return default


# external functions treated as pure, deterministic and uninterpreted
PURE_EXT = {
    'scipy.stats.linregress', 'numpy.linalg.inv', 'numpy.linalg.det', 'scipy.signal.detrend', 'scipy.stats.norm.pdf', 'numpy.spacing',
    'os.path.basename', 'os.path.dirname', 'os.path.abspath', 'os.path.expanduser', 'os.path.normpath',
    'os.path.getsize', 'math.comb', 'datetime.datetime.strptime', 'os.fspath',
}


EXACT = {'hasattr': (2, 2), 'isinstance': (2, 2), 'issubclass': (2, 2), 'len': (1, 1), 'abs': (1, 1), 'getattr': (2, 3),
         'enumerate': (1, 2), 'sorted': (1, 1), 'range': (1, 3), 'sum': (1, 2), 'any': (1, 1), 'all': (1, 1), 'divmod': (2, 2)}
MINARGS = {}
for _n, _l in ((1, 'sqrt exp log log2 log10 sin cos tan arcsin arccos arctan deg2rad rad2deg degrees radians abs absolute floor ceil isnan '
                   'isfinite sum mean nanmean nansum std nanstd var median nanmedian max min amax amin nanmax nanmin argmax argmin argsort sort '
                   'array asarray ndim shape size cumsum diff zeros ones empty zeros_like ones_like full_like atleast_1d atleast_2d unique '
                   'where concatenate hstack vstack column_stack stack transpose ravel squeeze any all logical_not'),
               (2, 'arctan2 power dot cross maximum minimum searchsorted digitize isin percentile quantile nanpercentile full reshape '
                   'linspace multiply subtract divide add logical_and logical_or mod hypot isclose allclose array_equal tile repeat'),
               (3, 'interp clip')):
    for _x in _l.split():
        MINARGS['numpy.' + _x] = _n
for _x, _p in EXACT.items():
    MINARGS['builtins.' + _x] = _p[0]
MINARGS['numpy.clip'] = 1


def call_builtin(I, name, args, kw, node):
    name = ALIAS.get(name, name)
    if len(args) + len(kw) < MINARGS.get(name, 0) or name[:9] == 'builtins.' and len(args) > EXACT.get(name[9:], (0, 99))[1]:
        I.raise_('TypeError', node)
    h = BUILTINS.get(name)
    if h is not None:
        out = kw.get('out')
        if out is not None and name.startswith('numpy.') and not isnone(out):
            kw = {k: v for k, v in kw.items() if k != 'out'}
            res = h(I, list(args), kw, node)
            if isinstance(out, Tup) and len(out.items) == 1:
                out = out.items[0]
            I.mutate(out, 'out=', node)
            if isinstance(out, Ref) and is_arr(I, out):
                store_nd(I, out, [('ell',)], res, node)
            return out
        return h(I, list(args), kw, node)
    for pre, hh in PREFIX:
        if name.startswith(pre):
            return hh(I, name, list(args), kw, node)
    if name.startswith('builtins.') and name[9:] in M.EXCS:
        return I.alloc(Obj(name, {}))
    if name in PURE_EXT:
        may_raise(I, node)
        return pure_call(I, name, args, kw)
    for k, v in list(kw.items()):
        if k == 'inplace' and v is T.TRUE and args:
            I.mutate(args[0], 'inplace', node)
    may_raise(I, node)
    return I.opaque_call(name, args, kw, node)


def pure_call(I, name, args, kw):
    ts = [I.term(a) for a in args] + [(k, I.term(v)) for k, v in sorted(kw.items())]
    return app('ext:' + name, *ts, nan=True)


def may_raise(I, node, exc='Exception*'):
    """an external call inside a try block may raise"""
    if I.raises and getattr(I, 'try_depth', 0):
        c = T.bool_atom(T.mk_atom('extraise', (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                                                I.frames[-1].func if I.frames else ''), isbool=True))
        I.raise_(exc, node, cond=c)


PREFIX = []


def prefix(*ps):
    def d(f):
        for p in ps:
            PREFIX.append((p, f))
        return f
    return d


# ------------------------------------------------------------------ elementwise
def ew(name, f, dtype=None, n=1):
    def h(I, args, kw, node):
        a = args[:n]
        if len(args) < n:
            I.raise_('TypeError', node)
        w = kw.get('where')
        r = elementwise(I, f, a, node, dtype)
        if w is not None and w is not T.TRUE:
            I.undecide('where= argument', node)
            return T.opaque('ufuncwhere', I.term(r), I.term(w))
        return r
    for nm in name.split():
        BUILTINS['numpy.' + nm] = h
    return h


def s_hypot(a, b):
    return T.s_pow(T.s_add(T.s_mul(a, a), T.s_mul(b, b)), num(F(1, 2)))


def s_sign(a):
    return ite(T.s_lt(a, num(0)), num(-1), ite(T.s_lt(num(0), a), num(1), num(0)))


# values that are finite by construction (mean coherence lies between 0 and 1)
FINITE = {'sm:mean_coh'}


def _either_inf(p):
    i = P(T.INF)
    return lor(T.s_eq(P(p), i), T.s_eq(P(p), T.s_neg(i)))


def s_isfinite(a):
    def f(v):
        p = T.as_poly(v)
        if p is None:
            return T.opaque('isfinite', leaf(v))
        if p is T.NAN or T._inf_sign(p):
            return T.FALSE
        if const_of(p) is not None:
            return T.TRUE
        if not p.nan and all(a.op in FINITE and e > 0 for m, _ in p.t for a, e in m):
            return T.TRUE
        inner = _either_inf(p)
        if not p.nan:
            return lnot(inner)
        return land(lnot(T.isnan(leaf(p))), lnot(inner))
    return T.apply1('isfinite', f, T.as_num(a))


def s_isinf(a):
    def f(v):
        p = T.as_poly(v)
        if p is None:
            return T.opaque('isinf', leaf(v))
        if p is T.NAN or const_of(p) is not None:
            return T.FALSE
        if T._inf_sign(p):
            return T.TRUE
        return _either_inf(p)
    return T.apply1('isinf', f, T.as_num(a))


def s_tan(a):
    return T.s_div(app('sin', a), app('cos', a))


def s_maximum(a, b):
    r = FX.s_max(a, b)
    na, nb = T.isnan(a), T.isnan(b)
    return ite(na, P(T.NAN), ite(nb, P(T.NAN), r))


def s_minimum(a, b):
    r = FX.s_min(a, b)
    return ite(T.isnan(a), P(T.NAN), ite(T.isnan(b), P(T.NAN), r))


ew('absolute', T.s_abs)
ew('sqrt', lambda a: T.s_pow(a, num(F(1, 2))))
ew('cbrt', lambda a: T.s_pow(a, num(F(1, 3))))
ew('square', lambda a: T.s_mul(a, a))
ew('negative', T.s_neg)
ew('positive', lambda a: a)
ew('reciprocal', lambda a: T.s_div(num(1), a))
ew('sin', lambda a: app('sin', a))
ew('cos', lambda a: app('cos', a))
ew('tan', s_tan)
ew('arctan', lambda a: app('arctan2', a, num(1)))
ew('arcsin', lambda a: app('arcsin', a))
ew('arccos', lambda a: app('arccos', a))
ew('tanh', lambda a: app('tanh', a))
ew('exp', lambda a: app('exp', a))
ew('expm1', lambda a: T.s_sub(app('exp', a), num(1)))
ew('log', lambda a: app('log', a))
ew('log2', lambda a: T.s_div(app('log', a), app('log', num(2))))
ew('log10', lambda a: T.s_div(app('log', a), app('log', num(10))))
ew('log1p', lambda a: app('log', T.s_add(num(1), a)))
ew('deg2rad', lambda a: T.s_div(T.s_mul(a, P(T.PI)), num(180)))
ew('rad2deg', lambda a: T.s_div(T.s_mul(a, num(180)), P(T.PI)))
ew('conj', lambda a: app('conj', a))
ew('real', lambda a: app('real', a))
ew('imag', lambda a: app('imag', a))
ew('floor', lambda a: app('floor', a))
ew('ceil', lambda a: app('ceil', a))
ew('trunc fix', lambda a: app('trunc', a))
ew('rint', lambda a: app('round', a, num(0)))
ew('sign', s_sign)
ew('isnan', lambda a: T.isnan(T.as_num(a)), 'bool')
ew('isfinite', s_isfinite, 'bool')
ew('isinf', s_isinf, 'bool')
ew('signbit', lambda a: T.s_lt(a, num(0)), 'bool')
ew('logical_not', lambda a: lnot(T.as_bool(a)), 'bool')
ew('logical_and', lambda a, b: land(T.as_bool(a), T.as_bool(b)), 'bool', 2)
ew('logical_or', lambda a, b: lor(T.as_bool(a), T.as_bool(b)), 'bool', 2)
ew('logical_xor', lambda a, b: ite(T.as_bool(a), lnot(T.as_bool(b)), T.as_bool(b)), 'bool', 2)
ew('add', T.s_add, None, 2)
ew('subtract', T.s_sub, None, 2)
ew('multiply', T.s_mul, None, 2)
ew('true_divide', T.s_div, None, 2)
ew('power float_power', T.s_pow, None, 2)
ew('mod', s_mod, None, 2)
ew('floor_divide', floordiv, None, 2)
ew('hypot', s_hypot, None, 2)
ew('arctan2', lambda a, b: app('arctan2', a, b), None, 2)
ew('maximum', s_maximum, None, 2)
ew('minimum', s_minimum, None, 2)
ew('fmax', lambda a, b: ite(T.isnan(a), b, ite(T.isnan(b), a, FX.s_max(a, b))), None, 2)
ew('fmin', lambda a, b: ite(T.isnan(a), b, ite(T.isnan(b), a, FX.s_min(a, b))), None, 2)
ew('less', T.s_lt, 'bool', 2)
ew('greater', T.s_gt, 'bool', 2)
ew('less_equal', T.s_le, 'bool', 2)
ew('greater_equal', T.s_ge, 'bool', 2)
ew('equal', T.s_eq, 'bool', 2)
ew('not_equal', T.s_ne, 'bool', 2)
ew('heaviside', lambda a, b: ite(T.s_lt(a, num(0)), num(0), ite(T.s_eq(a, num(0)), b, num(1))), None, 2)
ew('copysign', lambda a, b: T.s_mul(T.s_abs(a), ite(T.s_lt(b, num(0)), num(-1), num(1))), None, 2)
ew('fmod', lambda a, b: T.s_sub(a, T.s_mul(b, app('trunc', T.s_div(a, b)))), None, 2)


@reg('numpy.bitwise_and')
def _band(I, a, kw, node):
    return binop(I, 'BitAnd', a[0], a[1], node)


@reg('numpy.bitwise_or')
def _bor(I, a, kw, node):
    return binop(I, 'BitOr', a[0], a[1], node)


@reg('numpy.bitwise_xor')
def _bxor(I, a, kw, node):
    return binop(I, 'BitXor', a[0], a[1], node)


@reg('numpy.invert')
def _inv(I, a, kw, node):
    return unop(I, 'Invert', a[0], node)


@reg('numpy.angle')
def _angle(I, a, kw, node):
    deg = kwarg(a, kw, 1, 'deg', T.FALSE)
    av = to_av(I, a[0])
    x = a[0]
    if av is not None and av.kind in ('frame', 'series', 'index'):
        x = I.arr(av.copy(kind='nd', axes=[Ax(q.var, q.n, None, q.comp) for q in av.axes]))
    r = elementwise(I, lambda s: app('angle', s), [x], node)
    if deg is T.FALSE:
        return r
    return elementwise(I, lambda s, d: ite(T.as_bool(d), T.s_div(T.s_mul(s, num(180)), P(T.PI)), s), [r, deg], node)


@reg('numpy.round', 'numpy.around', 'numpy.round_')
def _round(I, a, kw, node):
    d = kwarg(a, kw, 1, 'decimals', num(0))
    return elementwise(I, lambda s: app('round', s, d), a[:1], node)


@reg('numpy.nan_to_num')
def _n2n(I, a, kw, node):
    v = kwarg(a, kw, 2, 'nan', num(0))
    return elementwise(I, lambda s: ite(T.isnan(s), v, s), a[:1], node)


@reg('numpy.clip')
def _clip(I, a, kw, node):
    lo = kwarg(a, kw, 1, 'a_min', kw.get('min'))
    hi = kwarg(a, kw, 2, 'a_max', kw.get('max'))
    return clip(I, a[0], lo, hi, node)


def clip(I, x, lo, hi, node):
    r = x
    if lo is not None and not isnone(lo):
        r = elementwise(I, lambda s, l: ite(T.s_lt(s, l), l, s), [r, lo], node)
    if hi is not None and not isnone(hi):
        r = elementwise(I, lambda s, l: ite(T.s_lt(l, s), l, s), [r, hi], node)
    return r


@reg('numpy.isclose')
def _isclose(I, a, kw, node):
    rt = kwarg(a, kw, 2, 'rtol', num(1e-5))
    at = kwarg(a, kw, 3, 'atol', num(1e-8))
    return elementwise(I, lambda x, y: T.s_le(T.s_abs(T.s_sub(x, y)), T.s_add(at, T.s_mul(rt, T.s_abs(y)))), a[:2], node, 'bool')


@reg('numpy.where')
def _where(I, a, kw, node):
    if len(a) == 1:
        return nonzero(I, a[0], node)
    if all(isinstance(unwrap(I, x), S) for x in a):
        return elementwise(I, lambda c, x, y: ite(T.as_bool(c), x, y), a, node)
    avs = [to_av(I, x) for x in a]
    vals = [I.arr(v.copy(kind='nd')) if v is not None and v.kind != 'nd' else x for v, x in zip(avs, a)]
    return elementwise(I, lambda c, x, y: ite(T.as_bool(c), x, y), vals, node)


@reg('numpy.select')
def _select(I, a, kw, node):
    cs = concrete_items(I, a[0], None)
    vs = concrete_items(I, a[1], None)
    d = kwarg(a, kw, 2, 'default', num(0))
    if cs is None or vs is None:
        return I.opaque_call('numpy.select', a, kw, node)
    r = d
    for c, v in reversed(list(zip(cs, vs))):
        r = _where(I, [c, v, r], {}, node)
    return r


def nonzero(I, x, node):
    av = to_av(I, x)
    if av is None or av.ndim == 0:
        return I.opaque_call('nonzero', [x], {}, node)
    axes, b = av.opened()
    b = T.as_bool(b)
    L = T.lam([q.var for q in axes], [q.n for q in axes], b)
    cnt = FX.s_sum([q.var for q in axes], [q.n for q in axes], b)
    out = []
    for j in range(len(axes)):
        v = ivar()
        out.append(I.alloc(Arr(AV([Ax(v, cnt, None, L)], app('nth', L, num(j), V(v)), 'nd', 'int'))))
    return Tup(out)


BUILTINS['numpy.nonzero'] = lambda I, a, kw, node: nonzero(I, a[0], node)


@reg('numpy.flatnonzero')
def _fnz(I, a, kw, node):
    return nonzero(I, ravel(I, a[0], node), node).items[0]


@reg('numpy.argwhere')
def _argwhere(I, a, kw, node):
    t = nonzero(I, a[0], node)
    r = stack(I, list(t.items), 1, node)
    return r


# ------------------------------------------------------------------ creation
DTYPES = {'builtins.int': 'int', 'builtins.float': None, 'builtins.bool': 'bool', 'numpy.bool_': 'bool', 'numpy.bool': 'bool',
          'builtins.complex': 'complex', 'numpy.int64': 'int', 'numpy.int32': 'int', 'numpy.complex128': 'complex', 'numpy.complex64': 'complex',
          'numpy.float64': None, 'numpy.float32': 'float32', 'builtins.object': 'object', 'builtins.str': 'str', 'numpy.intp': 'int',
          'bool': 'bool', 'int': 'int', 'float': None, 'complex': 'complex', 'object': 'object', 'numpy.uint8': 'int', 'numpy.float16': 'float16',
          'int64': 'int', 'float64': None, 'complex128': 'complex', 'float32': 'float32'}


def dtype_of(v):
    if v is None or isnone(v):
        return None
    if isinstance(v, (Builtin, Type)):
        return DTYPES.get(v.name, v.name)
    if isinstance(v, S):
        c = cstr(v)
        if c is not None:
            return DTYPES.get(c, c)
    return None


def shape_items(I, s):
    if isinstance(s, S):
        return [s]
    it = concrete_items(I, s, None)
    return it


def full(I, shape, val, dtype, node):
    it = shape_items(I, shape)
    if it is None or any(not isinstance(x, S) for x in it):
        I.undecide('array shape', node)
        return T.opaque('full', I.term(shape), I.term(val))
    axes = [Ax(ivar(), x) for x in it]
    if not axes:
        return val if isinstance(val, S) else T.opaque('full0', I.term(val))
    if isinstance(val, S):
        b = val
    else:
        b = value_for_store(I, val, axes, node)
        if b is None:
            b = T.opaque('fullval', I.term(val))
    if dtype == 'bool':
        b = T.as_bool(b)
    return I.alloc(Arr(AV(axes, b, 'nd', dtype)))


@reg('numpy.zeros', 'numpy.empty')
def _zeros(I, a, kw, node):
    d = dtype_of(kwarg(a, kw, 1, 'dtype'))
    return full(I, kwarg(a, kw, 0, 'shape'), T.FALSE if d == 'bool' else num(0), d, node)


@reg('numpy.ones')
def _ones(I, a, kw, node):
    d = dtype_of(kwarg(a, kw, 1, 'dtype'))
    return full(I, kwarg(a, kw, 0, 'shape'), T.TRUE if d == 'bool' else num(1), d, node)


@reg('numpy.full')
def _full(I, a, kw, node):
    d = dtype_of(kwarg(a, kw, 2, 'dtype'))
    v = kwarg(a, kw, 1, 'fill_value')
    if d is None and kwarg(a, kw, 2, 'dtype') is None and isinstance(v, S) and v.kind == 'L' and isinstance(v.val, bool):
        d = 'bool'
    return full(I, kwarg(a, kw, 0, 'shape'), v, d, node)


def like(valf):
    def h(I, a, kw, node):
        av = to_av(I, a[0])
        val = valf(a, kw)
        d = dtype_of(kw.get('dtype')) if 'dtype' in kw else (av.dtype if av is not None else None)
        if av is None:
            return I.opaque_call('like', a, kw, node)
        if av.ndim == 0:
            return val
        if d == 'bool':
            val = T.as_bool(val)
        axes, _ = av.opened()
        return I.alloc(Arr(AV([Ax(x.var, x.n, None, x.comp) for x in axes], val, 'nd', d)))
    return h


BUILTINS['numpy.zeros_like'] = BUILTINS['numpy.empty_like'] = like(lambda a, kw: num(0))
BUILTINS['numpy.ones_like'] = like(lambda a, kw: num(1))
BUILTINS['numpy.full_like'] = like(lambda a, kw: kwarg(a, kw, 1, 'fill_value'))


@reg('numpy.eye', 'numpy.identity')
def _eye(I, a, kw, node):
    n = a[0]
    i, j = ivar(), ivar()
    return I.alloc(Arr(AV([Ax(i, n), Ax(j, kwarg(a, kw, 1, 'M', n) if len(a) > 1 else n)], ite(T.s_eq(V(i), V(j)), num(1), num(0)), 'nd')))


@reg('numpy.arange')
def _arange(I, a, kw, node):
    if len(a) == 1:
        lo, hi, st = num(0), a[0], num(1)
    else:
        lo, hi = a[0], a[1]
        st = kwarg(a, kw, 2, 'step', num(1))
    if not all(isinstance(x, S) for x in (lo, hi, st)):
        return I.opaque_call('numpy.arange', a, kw, node)
    n = T.s_div(T.s_sub(hi, lo), st)
    if not is_int_body(n):
        n = app('ceil', n)
    v = ivar()
    body = T.s_add(lo, T.s_mul(st, V(v)))
    return I.alloc(Arr(AV([Ax(v, n)], body, 'nd', 'int' if is_int_body(body) else None)))


@reg('numpy.linspace')
def _linspace(I, a, kw, node):
    lo, hi = kwarg(a, kw, 0, 'start'), kwarg(a, kw, 1, 'stop')
    n = kwarg(a, kw, 2, 'num', num(50))
    ep = kwarg(a, kw, 3, 'endpoint', T.TRUE)
    if not all(isinstance(x, S) for x in (lo, hi, n)) or kw.get('retstep') not in (None, T.FALSE):
        return I.opaque_call('numpy.linspace', a, kw, node)
    v = ivar()
    d = ite(T.as_bool(ep), T.s_sub(n, num(1)), n)
    return I.alloc(Arr(AV([Ax(v, n)], T.s_add(lo, T.s_div(T.s_mul(T.s_sub(hi, lo), V(v)), d)), 'nd')))


@reg('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfarray', 'numpy.atleast_1d', 'numpy.copy')
def _array(I, a, kw, node):
    return array(I, a[0] if a else kw.get('object', kw.get('a')), kw, node, a)


def array(I, x, kw, node, a=(), copy=True):
    x = unwrap(I, x)
    from .interp import MaybeV
    if isinstance(x, MaybeV):
        return I.merge_val(x.c, array(I, x.a, kw, node), array(I, x.b, kw, node))
    d = dtype_of(kwarg(list(a), kw, 1, 'dtype'))
    av = to_av(I, x)
    if av is None:
        I.undecide('array() of unmodelled value', node)
        return T.opaque('array', I.term(x))
    if av.ndim == 0:
        b = av.body
        if d == 'int':
            b = app('trunc', b)
        if M.is_plain_num(b) and (T._intpoly(b.val) or getattr(T.single_atom(b.val), 'op', '') == 'sym'):
            return I.alloc(Arr(AV([], b, 'nd', d)))
        return b
    axes, b = av.opened()
    dt = av.dtype
    if d == 'bool':
        b = T.as_bool(b)
        dt = 'bool'
    elif d == 'int':
        if not is_int_body(b):
            b = app('trunc', b)
        dt = 'int'
    elif d:
        dt = d
        b = T.as_num(b)
    elif kwarg(list(a), kw, 1, 'dtype') is not None:
        dt = None
        b = T.as_num(b)
    if dt is None and M._boolish(b) and not b.unmod:
        dt = 'bool'
    return I.alloc(Arr(AV([Ax(q.var, q.n, None, q.comp) for q in axes], b, 'nd', dt)))


@reg('numpy.asarray')
def _asarray(I, a, kw, node):
    x = unwrap(I, a[0])
    if is_arr(I, x) and I.rec(x).av.kind == 'nd' and kwarg(a, kw, 1, 'dtype') is None:
        return x
    r = _array(I, a, kw, node)
    if is_arr(I, x) and isinstance(r, Ref) and kwarg(a, kw, 1, 'dtype') is None:
        rr = I.rec(r)
        I.heap[r.oid] = Arr(rr.av, I.rec(x).roots, x.oid)
    return r


@reg('numpy.atleast_1d')
def _al1(I, a, kw, node):
    x = unwrap(I, a[0])
    if isinstance(x, S):
        if x.unmod and M._pure_opaque(x):
            return x
        return I.alloc(Arr(AV([Ax(ivar(), num(1))], x, 'nd')))
    if is_arr(I, x) and I.rec(x).av.kind == 'nd':
        return x
    return _array(I, a, kw, node)


@reg('numpy.atleast_2d')
def _al2(I, a, kw, node):
    x = _al1(I, a, kw, node)
    if is_arr(I, x) and I.rec(x).av.ndim == 1:
        return getitem(I, x, Tup([T.NONE, Slice(None, None, None)]), node)
    return x


@reg('numpy.ndim')
def _ndim(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None or (av.ndim == 0 and M._pure_opaque(av.body)):
        I.undecide('ndim', node)
        return T.opaque('ndim', I.term(a[0]))
    return num(av.ndim)


@reg('numpy.shape')
def _shape(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None or (av.ndim == 0 and M._pure_opaque(av.body)):
        I.undecide('shape', node)
        return T.opaque('shape', I.term(a[0]))
    return shape_tup(av)


@reg('numpy.size')
def _size(I, a, kw, node):
    av = to_av(I, a[0])
    ax = kwarg(a, kw, 1, 'axis')
    if av is None or (av.ndim == 0 and M._pure_opaque(av.body)):
        I.undecide('size', node)
        return T.opaque('size', I.term(a[0]))
    if ax is not None and not isnone(ax):
        return av.axes[cint(ax)].n
    n = num(1)
    for x in av.axes:
        n = T.s_mul(n, x.n)
    return n


# ------------------------------------------------------------------ reductions
def uncompress(axes, body, fill):
    """replace compressed axes by masked base axes; body outside the mask := fill"""
    out = []
    changed = False
    for ax in axes:
        if ax.comp is None:
            out.append(ax)
            continue
        L = ax.comp
        nth = [T.as_poly(app('nth', L, num(j), V(ax.var))) for j in range(len(L.vars))]
        nth = [x and T.single_atom(x) for x in nth]
        if None in nth:
            out.append(ax)
            continue
        vs = [ivar() for _ in L.vars]
        b2 = T.subst(body, {a: V(v) for a, v in zip(nth, vs)})
        if ax.var in b2.free:
            out.append(ax)
            continue
        mask = T.as_bool(T.lam_apply(L, [V(v) for v in vs]))
        body = ite(mask, b2, fill)
        changed = True
        for v, l in zip(vs, L.lens):
            out.append(Ax(v, l))
    return out, body, changed


def reduce_axes(I, fn, av, axis, node, extra=(), keepdims=False, ddof=0, skipna=False):
    axes, body = av.opened()
    nd = len(axes)
    if nd == 0:
        axes = [Ax(ivar(), num(1))]
        nd = 1
        axis = None
    if axis is None or isnone(axis):
        red = list(range(nd))
    else:
        if isinstance(axis, S):
            c = cint(axis)
            if c is None:
                c = {'index': 0, 'columns': 1, 'rows': 0}.get(cstr(axis))
            if c is None:
                I.undecide('symbolic axis', node)
                return T.opaque('reduce:' + fn, I.term(I.arr(av)), axis)
            cs = [c]
        else:
            cs = [cint(x) for x in concrete_items(I, axis, None) or []]
            if None in cs:
                I.undecide('symbolic axis', node)
                return T.opaque('reduce:' + fn, I.term(I.arr(av)))
        for c in cs:
            if not -nd <= c < nd:
                I.raise_('AxisError', node)
        red = [c % nd for c in cs]
    raxes = [axes[k] for k in red]
    kept = [a for k, a in enumerate(axes) if k not in red]
    b = reduce_body(I, fn, raxes, body, extra, ddof, node)
    if keepdims:
        kept = [Ax(ivar(), num(1)) if k in red else a for k, a in enumerate(axes)]
    kind = 'nd'
    if av.kind == 'frame' and len(kept) == 1:
        kind = 'series'
    elif av.kind == 'frame' and len(kept) == 2:
        kind = 'frame'
    dt = 'bool' if fn in ('any', 'all') else None
    if not kept:
        return b
    kept = [Ax(a.var, a.n, a.lab if kind in ('series', 'frame') else None, a.comp) for a in kept]
    return I.alloc(Arr(AV(kept, b, kind, dt)))


def reduce_body(I, fn, raxes, body, extra=(), ddof=0, node=None):
    if fn in ('any', 'all'):
        body = T.as_bool(body)
        raxes, body, ch = uncompress(raxes, body, leaf(fn == 'all'))
        vs, ns = [a.var for a in raxes], [a.n for a in raxes]
        return FX.s_any(vs, ns, body) if fn == 'any' else FX.s_all(vs, ns, body)
    body = T.as_num(body)
    if fn in ('sum', 'nansum', 'count'):
        if fn == 'nansum':
            body = ite(T.isnan(body), num(0), body)
        if fn == 'count':
            body = ite(T.isnan(body), num(0), num(1))
        raxes, body, ch = uncompress(raxes, body, num(0))
        return FX.s_sum([a.var for a in raxes], [a.n for a in raxes], body)
    if fn in ('mean', 'nanmean'):
        n = num(1)
        for a in raxes:
            n = T.s_mul(n, a.n)
        if fn == 'nanmean' and FX.maybe_nan(body):
            n = reduce_body(I, 'count', raxes, body)
            return T.s_div(reduce_body(I, 'nansum', raxes, body), n)
        return T.s_div(reduce_body(I, 'sum', raxes, body), n)
    comp = any(a.comp is not None for a in raxes)
    if comp and fn in FX.RED and fn not in ('argmax', 'argmin', 'prod'):
        base = fn[3:] if fn.startswith('nan') else fn
        if fn.startswith('nan') or not FX.maybe_nan(body):
            r2, b2, ch = uncompress(raxes, body, P(T.NAN))
            if ch:
                raxes, body, fn = r2, b2, 'nan' + base
    if fn in ('std', 'var', 'nanstd', 'nanvar'):
        if ddof is not None and ddof is not num(0) and ddof != 0:
            d = ddof if isinstance(ddof, S) else num(ddof)
            n = num(1)
            for a in raxes:
                n = T.s_mul(n, a.n)
            if fn.startswith('nan') and FX.maybe_nan(body):
                n = reduce_body(I, 'count', raxes, body)
            v = reduce_body(I, fn[:-3] + 'var', raxes, body, (), 0, node)
            v = T.s_div(T.s_mul(v, n), T.s_sub(n, d))
            return v if fn.endswith('var') else T.s_pow(v, num(F(1, 2)))
        if fn == 'nanstd':
            if FX.maybe_nan(body):
                return T.s_pow(FX.reduce_('nanvar', [a.var for a in raxes], [a.n for a in raxes], body), num(F(1, 2)))
    vs, ns = [a.var for a in raxes], [a.n for a in raxes]
    if fn in ('median', 'nanmedian'):
        fn = fn.replace('median', 'quantile')
        extra = (num(F(1, 2)),)
    return FX.reduce_(fn, vs, ns, body, *extra)


def red(names, fn, pd_=True):
    def h(I, a, kw, node):
        x = unwrap(I, a[0]) if a else kw.get('a')
        av = to_av(I, x)
        if av is None:
            from .interp import MaybeV
            if isinstance(x, MaybeV):
                return I.merge_val(x.c, h(I, [x.a] + a[1:], kw, node), h(I, [x.b] + a[1:], kw, node))
            return I.opaque_call('numpy.' + fn, a, kw, node)
        axis = kwarg(a, kw, 1, 'axis')
        f = fn
        if fn.startswith('nan') and av.kind in ('series', 'frame', 'index'):
            # the nan-aware reductions convert to plain arrays first
            av = av.copy(kind='nd', axes=[Ax(q.var, q.n, None, q.comp) for q in av.axes])
        if av.kind in ('series', 'frame') and fn in ('sum', 'mean', 'max', 'min', 'std', 'var', 'median'):
            # numpy reductions defer to the pandas method (skipna)
            f = 'nan' + fn
            if av.kind == 'frame' and axis is None and fn in ('std', 'var', 'mean', 'median', 'sum', 'max', 'min'):
                axis = None if fn in () else num(0) if fn in ('sum', 'std', 'var', 'max', 'min') else None
        kd = kw.get('keepdims', T.FALSE) is T.TRUE
        for k in kw:
            if k not in ('axis', 'keepdims', 'ddof', 'dtype', 'a', 'skipna', 'numeric_only', 'out'):
                I.undecide('argument %s of %s' % (k, fn), node)
                return T.opaque(fn, I.term(x), (k, I.term(kw[k])))
        if 'initial' in kw or 'where' in kw:
            return I.opaque_call('numpy.' + fn, a, kw, node)
        return reduce_axes(I, f, av, axis, node, keepdims=kd, ddof=kw.get('ddof', 0))
    for n in names.split():
        BUILTINS['numpy.' + n] = h
    return h


for _n in ('sum mean max min std var prod any all nansum nanmean nanmax nanmin nanstd nanvar median nanmedian '
           'argmax argmin').split():
    red(_n, _n)
BUILTINS['numpy.average'] = lambda I, a, kw, node: average(I, a, kw, node)
BUILTINS['numpy.ptp'] = lambda I, a, kw, node: binop(I, 'Sub', BUILTINS['numpy.max'](I, a, kw, node), BUILTINS['numpy.min'](I, a, kw, node), node)
BUILTINS['numpy.count_nonzero'] = lambda I, a, kw, node: BUILTINS['numpy.sum'](I, [elementwise(I, lambda s: T.as_num(T.truth(s) if s.cls != 'bool' else s), a[:1], node)] + a[1:], kw, node)


@reg('numpy.nanargmax')
def _nanargmax(I, a, kw, node):
    return BUILTINS['numpy.argmax'](I, a, kw, node)


def average(I, a, kw, node):
    w = kwarg(a, kw, 2, 'weights')
    ax = kwarg(a, kw, 1, 'axis')
    if w is None or isnone(w):
        return BUILTINS['numpy.mean'](I, [a[0]] + ([ax] if ax is not None else []), {}, node)
    if to_av(I, w) is not None and to_av(I, a[0]) is not None and to_av(I, w).ndim == to_av(I, a[0]).ndim:
        p = binop(I, 'Mult', a[0], w, node)
        k = {} if ax is None else {'axis': ax}
        return binop(I, 'Div', BUILTINS['numpy.sum'](I, [p], k, node), BUILTINS['numpy.sum'](I, [w], k, node), node)
    return I.opaque_call('numpy.average', a, kw, node)


def quantile(fn, scale):
    def h(I, a, kw, node):
        av = to_av(I, a[0])
        q = kwarg(a, kw, 1, 'q')
        axis = kwarg(a, kw, 2, 'axis')
        meth = kw.get('method', kw.get('interpolation'))
        extra = ()
        if meth is not None and cstr(meth) != 'linear':
            extra = (meth,)
        if av is None:
            return I.opaque_call('numpy.' + fn, a, kw, node)
        if isinstance(q, S):
            return reduce_axes(I, fn, av, axis, node, (T.s_div(q, num(scale)),) + extra)
        qa = to_av(I, q)
        if qa is None or qa.ndim != 1:
            return I.opaque_call('numpy.' + fn, a, kw, node)
        qx, qb = qa.opened()
        r = reduce_axes(I, fn, av, axis, node, (T.s_div(qb, num(scale)),) + extra)
        ra = to_av(I, r)
        rx, rb = ra.opened()
        return I.alloc(Arr(AV([qx[0]] + rx, rb, 'nd')))
    return h


BUILTINS['numpy.quantile'] = quantile('quantile', 1)
BUILTINS['numpy.percentile'] = quantile('quantile', 100)
BUILTINS['numpy.nanquantile'] = quantile('nanquantile', 1)
BUILTINS['numpy.nanpercentile'] = quantile('nanquantile', 100)


# ------------------------------------------------------------------ shape
def axis_norm(I, ax, nd, default=None):
    if ax is None or isnone(ax):
        return default
    c = cint(ax)
    if c is None:
        return None
    return c % nd if nd else c


@reg('numpy.expand_dims')
def _expand(I, a, kw, node):
    av = to_av(I, a[0])
    ax = kwarg(a, kw, 1, 'axis')
    if av is None:
        return I.opaque_call('numpy.expand_dims', a, kw, node)
    cs = [cint(ax)] if isinstance(ax, S) else [cint(x) for x in concrete_items(I, ax, None)]
    if None in cs:
        return I.opaque_call('numpy.expand_dims', a, kw, node)
    axes, b = av.opened()
    axes = [Ax(x.var, x.n, None, x.comp) for x in axes]
    nd = len(axes) + len(cs)
    cs = sorted(c % nd for c in cs)
    for c in cs:
        axes.insert(c, Ax(ivar(), num(1)))
    ref = unwrap(I, a[0])
    roots = I.rec(ref).roots if is_arr(I, ref) else frozenset()
    return I.alloc(Arr(AV(axes, b, 'nd', av.dtype), roots, ref.oid if is_arr(I, ref) else None))


@reg('numpy.squeeze')
def _squeeze(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None:
        return I.opaque_call('numpy.squeeze', a, kw, node)
    axes, b = av.opened()
    ax = kwarg(a, kw, 1, 'axis')
    c = None if ax is None or isnone(ax) else cint(ax) % len(axes)
    m = {}
    out = []
    for k, x in enumerate(axes):
        if (c is None and cint(x.n) == 1) or c == k:
            m[x.var] = num(0)
        else:
            out.append(x)
    return I.arr(AV(out, T.subst(b, m), 'nd' if av.kind == 'nd' else ('series' if len(out) == 1 else av.kind), av.dtype))


@reg('numpy.transpose')
def _transpose(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None:
        return I.opaque_call('numpy.transpose', a, kw, node)
    ax = kwarg(a, kw, 1, 'axes')
    ref = unwrap(I, a[0])
    axes, b = av.opened()
    if ax is not None and not isnone(ax):
        order = [cint(x) for x in concrete_items(I, ax, None)]
        if None not in order and sorted(k % av.ndim if -av.ndim <= k < av.ndim else -1 for k in order) != list(range(av.ndim)):
            I.raise_('ValueError', node)
        axes = [axes[k] for k in order]
    else:
        axes = list(reversed(axes))
    if not axes:
        return b
    roots = I.rec(ref).roots if is_arr(I, ref) else frozenset()
    return I.alloc(Arr(AV(axes, b, av.kind, av.dtype), roots, ref.oid if is_arr(I, ref) else None))


@reg('numpy.swapaxes', 'numpy.moveaxis')
def _swap(I, a, kw, node):
    av = to_av(I, a[0])
    i, j = cint(a[1]), cint(a[2])
    if av is None or i is None or j is None or av.ndim != 2:
        return I.opaque_call('numpy.swapaxes', a, kw, node)
    if i % 2 == j % 2:
        return a[0]
    return _transpose(I, a[:1], {}, node)


def ravel(I, x, node, order='C'):
    av = to_av(I, x)
    if av is None:
        return I.opaque_call('ravel', [x], {}, node)
    axes, b = av.opened()
    axes = [Ax(a.var, a.n, None, a.comp) for a in axes]
    if len(axes) == 1:
        ref = unwrap(I, x)
        if is_arr(I, ref):
            if av.kind == 'nd':
                return ref          # a view of the whole array
            return I.alloc(Arr(AV(axes, b, 'nd', av.dtype), I.rec(ref).roots, ref.oid))
        return I.alloc(Arr(AV(axes, b, 'nd', av.dtype)))
    if len(axes) == 0:
        return I.alloc(Arr(AV([Ax(ivar(), num(1))], b, 'nd', av.dtype)))
    return reshape_av(I, AV(axes, b, 'nd', av.dtype), [None], node, order)


def reshape_av(I, av, shape, node, order='C'):
    """shape items S; None for -1"""
    axes, b = av.opened()
    # drop/insert unit axes quickly
    nz = [a for a in axes if cint(a.n) != 1]
    tot = num(1)
    for a in axes:
        tot = T.s_mul(tot, a.n)
    known = num(1)
    for s in shape:
        if s is not None:
            known = T.s_mul(known, s)
    shape = [T.s_div(tot, known) if s is None else s for s in shape]
    tot2 = num(1)
    for s in shape:
        tot2 = T.s_mul(tot2, s)
    if not T.same(tot, tot2):
        ca, cb = cint(tot), cint(tot2)
        if ca is not None and cb is not None and ca != cb:
            I.raise_('ValueError', node)
        I.event('shape', node, a=tot, b=tot2)
    m = {a.var: num(0) for a in axes if cint(a.n) == 1}
    tgt = [s for s in shape if cint(s) != 1]
    if len(tgt) == len(nz) and all(T.same(s, a.n) for s, a in zip(tgt, nz)) and order == 'C':
        out = []
        it = iter(nz)
        for s in shape:
            if cint(s) == 1:
                out.append(Ax(ivar(), num(1)))
            else:
                x = next(it)
                out.append(Ax(x.var, x.n, None, x.comp))
        if not out:
            return T.subst(b, m)
        return I.alloc(Arr(AV(out, T.subst(b, m), 'nd', av.dtype)))
    # general: row-major linear index
    vs = [ivar() for _ in shape]
    lin = num(0)
    seqv = list(zip(vs, shape))
    if order == 'F':
        seqv = list(reversed(seqv))
    for v, s in seqv:
        lin = T.s_add(T.s_mul(lin, s), V(v)) if cint(s) != 1 else lin
    src = list(nz)
    if order == 'F':
        src = list(reversed(src))
    if len(src) == 1:
        m[src[0].var] = lin
    else:
        rem = lin
        # split from the last axis
        single = len(tgt) == 1
        for a in reversed(src[1:]):
            m[a.var] = modi(rem, a.n)
            rem = divi(rem, a.n)
        if src:
            m[src[0].var] = rem
    return I.alloc(Arr(AV([Ax(v, s) for v, s in zip(vs, shape)], T.subst(b, m), 'nd', av.dtype)))


def modi(x, n):
    """x mod n for integer linear index forms a*n+b with 0<=b<n (b an index < n)"""
    q, r = split_lin(x, n)
    if q is not None:
        return r
    return app('mod', x, n)


def divi(x, n):
    q, r = split_lin(x, n)
    if q is not None:
        return q
    return app('floor', T.s_div(x, n))


def split_lin(x, n):
    if x.kind != 'L' or n.kind != 'L':
        return None, None
    p, d = T.as_poly(x.val), T.as_poly(n.val)
    if p is None or d is None or len(d.t) != 1:
        return None, None
    q, r = {}, {}
    dm, dc = d.t[0]
    if dm == ():
        return None, None
    for m, c in p.t:
        dd = dict(m)
        ok = True
        for a, e in dm:
            if dd.get(a, 0) < e:
                ok = False
        if ok:
            for a, e in dm:
                dd[a] -= e
            q[tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda z: z[0].id))] = c / dc
        else:
            r[m] = c
    # remainder must be a single index variable (assumed < n by construction)
    if q and len(r) <= 1:
        return P(T.mk_poly(q)), P(T.mk_poly(r))
    return None, None


@reg('numpy.ravel')
def _ravel(I, a, kw, node):
    return ravel(I, a[0], node, cstr(kwarg(a, kw, 1, 'order', leaf('C'))))


@reg('numpy.reshape')
def _reshape(I, a, kw, node):
    av = to_av(I, a[0])
    sh = kwarg(a, kw, 1, 'newshape', kw.get('shape'))
    return do_reshape(I, av, sh, kw, node)


def do_reshape(I, av, sh, kw, node):
    it = shape_items(I, sh)
    if av is None or it is None:
        I.undecide('reshape', node)
        return T.opaque('reshape', I.term(sh))
    it = [None if cint(x) == -1 else x for x in it]
    if av.ndim == 0:
        return I.alloc(Arr(AV([Ax(ivar(), num(1)) for _ in it], av.body, 'nd')))
    av = av.copy(kind='nd', axes=[Ax(a.var, a.n, None, a.comp) for a in av.axes])
    return reshape_av(I, av, it, node, cstr(kw.get('order', leaf('C'))) or 'C')


@reg('numpy.concatenate', 'numpy.hstack')
def _concat(I, a, kw, node):
    items = concrete_items(I, a[0], None)
    axis = kwarg(a, kw, 1, 'axis', num(0))
    if items is None:
        return I.opaque_call('numpy.concatenate', a, kw, node)
    avs = [to_av(I, x) for x in items]
    if any(v is None for v in avs):
        return I.opaque_call('numpy.concatenate', a, kw, node)
    avs = [v.copy(kind='nd', axes=[Ax(q.var, q.n, None, None) for q in v.axes]) for v in avs]
    if isnone(axis):
        avs = [to_av(I, ravel(I, I.arr(v), node)) for v in avs]
        axis = num(0)
    if any(v.ndim == 0 for v in avs):
        I.raise_('ValueError', node)
    if len({v.ndim for v in avs}) > 1:
        I.raise_('ValueError', node)
    r = concat_avs(I, avs, cint(axis))
    return I.arr(r)


def _hstack(I, a, kw, node):
    items = concrete_items(I, a[0], None)
    if items is None:
        return I.opaque_call('numpy.hstack', a, kw, node)
    items = [_al1(I, [x], {}, node) for x in items]
    nd = to_av(I, items[0]).ndim
    return _concat(I, [Tup(items), num(0 if nd == 1 else 1)], {}, node)


BUILTINS['numpy.hstack'] = _hstack


@reg('numpy.vstack')
def _vstack(I, a, kw, node):
    items = concrete_items(I, a[0], None)
    if items is None:
        av = to_av(I, a[0])
        if av is not None and av.ndim == 2:
            return I.arr(av.copy(kind='nd'))
        return I.opaque_call('numpy.vstack', a, kw, node)
    items = [_al2(I, [x], {}, node) for x in items]
    return _concat(I, [Tup(items), num(0)], {}, node)


@reg('numpy.column_stack')
def _colstack(I, a, kw, node):
    items = concrete_items(I, a[0], None)
    if items is None:
        return I.opaque_call('numpy.column_stack', a, kw, node)
    out = []
    for x in items:
        av = to_av(I, x)
        if av is not None and av.ndim == 1:
            x = getitem(I, array(I, x, {}, node), Tup([Slice(None, None, None), T.NONE]), node)
        out.append(x)
    return _concat(I, [Tup(out), num(1)], {}, node)


def stack(I, items, axis, node):
    r = array(I, Tup(items), {}, node)
    av = to_av(I, r)
    if av is None or av.ndim == 0:
        return r
    axis = axis % av.ndim
    axes = list(av.axes)
    a0 = axes.pop(0)
    axes.insert(axis, a0)
    return I.alloc(Arr(AV(axes, av.body, 'nd', av.dtype)))


@reg('numpy.stack')
def _stack(I, a, kw, node):
    items = concrete_items(I, a[0], None)
    ax = cint(kwarg(a, kw, 1, 'axis', num(0)))
    if ax is None:
        return I.opaque_call('numpy.stack', a, kw, node)
    if items is None:
        av = to_av(I, a[0])
        if av is None or av.ndim == 0:
            return I.opaque_call('numpy.stack', a, kw, node)
        axes, b = av.opened()
        a0 = axes.pop(0)
        axes.insert(ax % (len(axes) + 1), a0)
        return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], b, 'nd', av.dtype)))
    return stack(I, items, ax, node)


@reg('numpy.append')
def _append(I, a, kw, node):
    ax = kwarg(a, kw, 2, 'axis')
    x, y = a[0], a[1]
    if ax is None or isnone(ax):
        x, y = ravel(I, x, node), ravel(I, y, node)
        return _concat(I, [Tup([x, y]), num(0)], {}, node)
    return _concat(I, [Tup([x, y]), ax], {}, node)


@reg('numpy.insert')
def _insert(I, a, kw, node):
    k = cint(a[1]) if isinstance(a[1], S) else None
    ax = kwarg(a, kw, 3, 'axis')
    av = to_av(I, a[0])
    if k is None or av is None or av.ndim != 1:
        return I.opaque_call('numpy.insert', a, kw, node)
    lo = getitem(I, a[0], Slice(None, a[1], None), node)
    hi = getitem(I, a[0], Slice(a[1], None, None), node)
    return _concat(I, [Tup([lo, _al1(I, [a[2]], {}, node), hi])], {}, node)


@reg('numpy.delete')
def _delete(I, a, kw, node):
    av = to_av(I, a[0])
    ax = kwarg(a, kw, 2, 'axis')
    k = a[1]
    if av is None or not isinstance(k, S) or not (av.ndim == 1 or cint(ax) is not None if ax is not None else av.ndim == 1):
        return I.opaque_call('numpy.delete', a, kw, node)
    d = 0 if ax is None else cint(ax) % av.ndim
    axes, b = av.opened()
    v = ivar()
    kk = norm_pos(I, k, axes[d].n)
    e = ite(T.s_lt(V(v), kk), V(v), T.s_add(V(v), num(1)))
    b = T.subst(b, {axes[d].var: e})
    axes[d] = Ax(v, T.s_sub(axes[d].n, num(1)))
    return I.alloc(Arr(AV([Ax(x.var, x.n) for x in axes], b, 'nd', av.dtype)))


@reg('numpy.tile')
def _tile(I, a, kw, node):
    av = to_av(I, a[0])
    reps = a[1]
    it = [reps] if isinstance(reps, S) else concrete_items(I, reps, None)
    if av is None or it is None:
        return I.opaque_call('numpy.tile', a, kw, node)
    axes, b = av.opened()
    axes = [Ax(x.var, x.n) for x in axes]
    while len(axes) < len(it):
        axes.insert(0, Ax(ivar(), num(1)))
    it = [num(1)] * (len(axes) - len(it)) + list(it)
    out = []
    m = {}
    for x, r in zip(axes, it):
        if cint(r) == 1:
            out.append(x)
            continue
        v = ivar()
        m[x.var] = num(0) if cint(x.n) == 1 else app('mod', V(v), x.n)
        out.append(Ax(v, T.s_mul(x.n, r)))
    return I.alloc(Arr(AV(out, T.subst(b, m), 'nd', av.dtype)))


@reg('numpy.repeat')
def _repeat(I, a, kw, node):
    av = to_av(I, a[0])
    n = kwarg(a, kw, 1, 'repeats')
    ax = kwarg(a, kw, 2, 'axis')
    if av is None or not isinstance(n, S):
        return I.opaque_call('numpy.repeat', a, kw, node)
    if ax is None or isnone(ax):
        av = to_av(I, ravel(I, a[0], node))
        d = 0
    else:
        d = cint(ax)
        if d is None:
            return I.opaque_call('numpy.repeat', a, kw, node)
        d %= av.ndim
    axes, b = av.opened()
    x = axes[d]
    v = ivar()
    m = {x.var: num(0) if cint(x.n) == 1 else app('floor', T.s_div(V(v), n))}
    axes[d] = Ax(v, T.s_mul(x.n, n))
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], T.subst(b, m), 'nd', av.dtype)))


@reg('numpy.broadcast_to')
def _bto(I, a, kw, node):
    av = to_av(I, a[0])
    it = shape_items(I, a[1])
    if av is None or it is None:
        return I.opaque_call('numpy.broadcast_to', a, kw, node)
    axes = [Ax(ivar(), s) for s in it]
    b = value_for_store(I, a[0], axes, node)
    return I.alloc(Arr(AV(axes, b, 'nd', av.dtype)))


@reg('numpy.broadcast_arrays')
def _barr(I, a, kw, node):
    avs = [to_av(I, x) for x in a]
    if any(v is None for v in avs):
        return I.opaque_call('numpy.broadcast_arrays', a, kw, node)
    axes, bodies, kind = broadcast(I, [v.copy(kind='nd') for v in avs], node)
    return Tup([I.arr(AV(axes, b, 'nd')) for b in bodies])


@reg('numpy.meshgrid')
def _meshgrid(I, a, kw, node):
    ij = cstr(kw.get('indexing', leaf('xy'))) == 'ij'
    avs = [to_av(I, ravel(I, x, node)) for x in a]
    if any(v is None for v in avs):
        return I.opaque_call('numpy.meshgrid', a, kw, node)
    op = [v.opened() for v in avs]
    axes = [o[0][0] for o in op]
    order = list(range(len(axes)))
    if not ij and len(axes) >= 2:
        order[0], order[1] = 1, 0
    out = []
    for k in range(len(axes)):
        fx = [axes[j].fresh() for j in order]
        m = {}
        for _, mm in fx:
            m.update(mm)
        out.append(I.alloc(Arr(AV([Ax(f.var, f.n) for f, _ in fx], T.subst(op[k][1], m), 'nd', avs[k].dtype))))
    return I.alloc(Lst([('one', x) for x in out]))


@reg('numpy.flip', 'numpy.flipud', 'numpy.fliplr')
def _flip(I, a, kw, node):
    ax = kwarg(a, kw, 1, 'axis')
    av = to_av(I, a[0])
    if av is None:
        return I.opaque_call('numpy.flip', a, kw, node)
    axes, b = av.opened()
    ds = range(len(axes)) if ax is None or isnone(ax) else [cint(ax) % len(axes)]
    m = {}
    for d in ds:
        x = axes[d]
        v = ivar()
        m[x.var] = T.s_sub(T.s_sub(x.n, num(1)), V(v))
        axes[d] = Ax(v, x.n)
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], T.subst(b, m), 'nd', av.dtype)))


@reg('numpy.roll')
def _roll(I, a, kw, node):
    av = to_av(I, a[0])
    sh = kwarg(a, kw, 1, 'shift')
    ax = kwarg(a, kw, 2, 'axis')
    if av is None or av.ndim == 0:
        return I.opaque_call('numpy.roll', a, kw, node)
    if ax is None or isnone(ax):
        if av.ndim > 1:
            return I.opaque_call('numpy.roll', a, kw, node)
        ax = num(0)
    shs = [sh] if isinstance(sh, S) else concrete_items(I, sh, None)
    axs = [ax] if isinstance(ax, S) else concrete_items(I, ax, None)
    if shs is None or axs is None:
        return I.opaque_call('numpy.roll', a, kw, node)
    axes, b = av.opened()
    for s, x in zip(shs, axs):
        d = cint(x)
        if d is None:
            return I.opaque_call('numpy.roll', a, kw, node)
        d %= len(axes)
        v = ivar()
        q = axes[d]
        b = T.subst(b, {q.var: app('mod', T.s_sub(V(v), s), q.n)})
        axes[d] = Ax(v, q.n)
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], b, 'nd', av.dtype)))


@reg('numpy.pad')
def _pad(I, a, kw, node):
    av = to_av(I, a[0])
    pw = kwarg(a, kw, 1, 'pad_width')
    mode = cstr(kwarg(a, kw, 2, 'mode', leaf('constant')))
    if av is None:
        return I.opaque_call('numpy.pad', a, kw, node)
    nd = av.ndim
    widths = None
    if isinstance(pw, S):
        widths = [(pw, pw)] * nd
    else:
        it = concrete_items(I, pw, None)
        if it is not None:
            if all(isinstance(x, S) for x in it):
                widths = [(it[0], it[-1])] * nd
            else:
                widths = []
                for x in it:
                    y = concrete_items(I, x, None)
                    widths.append((y[0], y[-1]))
    if widths is None or len(widths) != nd:
        return I.opaque_call('numpy.pad', a, kw, node)
    axes, b = av.opened()
    cond = T.TRUE
    m = {}
    out = []
    for (lo, hi), x in zip(widths, axes):
        v = ivar()
        p = T.s_sub(V(v), lo)
        if mode == 'edge':
            p = ite(T.s_lt(p, num(0)), num(0), ite(T.s_lt(p, x.n), p, T.s_sub(x.n, num(1))))
        elif mode == 'constant':
            if lo is not num(0):
                cond = land(cond, T.s_ge(p, num(0)))
            if hi is not num(0):
                cond = land(cond, T.s_lt(p, x.n))
        else:
            return I.opaque_call('numpy.pad', a, kw, node)
        m[x.var] = p
        out.append(Ax(v, T.s_add(T.s_add(lo, hi), x.n)))
    b = T.subst(b, m)
    if mode == 'constant':
        cv = kw.get('constant_values', num(0))
        if not isinstance(cv, S):
            return I.opaque_call('numpy.pad', a, kw, node)
        b = ite(cond, b, cv)
    return I.alloc(Arr(AV(out, b, 'nd', av.dtype)))


@reg('numpy.diff')
def _diff(I, a, kw, node):
    n = cint(kwarg(a, kw, 1, 'n', num(1)))
    ax = kwarg(a, kw, 2, 'axis', num(-1))
    av = to_av(I, a[0])
    if av is None or av.ndim == 0 or n != 1 or 'prepend' in kw or 'append' in kw:
        return I.opaque_call('numpy.diff', a, kw, node)
    axes, b = av.opened()
    d = cint(ax) % len(axes)
    x = axes[d]
    v = ivar()
    nb = T.s_sub(T.subst(b, {x.var: T.s_add(V(v), num(1))}), T.subst(b, {x.var: V(v)}))
    axes[d] = Ax(v, T.s_sub(x.n, num(1)))
    dt = 'timedelta' if av.dtype == 'datetime' else av.dtype
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], nb, 'nd', dt)))


@reg('numpy.cumsum', 'numpy.nancumsum')
def _cumsum(I, a, kw, node):
    av = to_av(I, a[0])
    ax = kwarg(a, kw, 1, 'axis')
    if av is None or (av.ndim > 1 and (ax is None or isnone(ax))):
        return I.opaque_call('numpy.cumsum', a, kw, node)
    return cumul(I, av, 0 if ax is None or isnone(ax) else cint(ax) % av.ndim)


def cumul(I, av, d):
    axes, b = av.opened()
    x = axes[d]
    v, j = ivar(), ivar()
    s = FX.s_sum([j], [x.n], ite(T.s_le(V(j), V(v)), T.subst(T.as_num(b), {x.var: V(j)}), num(0)))
    axes[d] = Ax(v, x.n, None if x.lab is None else T.subst(x.lab, {x.var: V(v)}))
    return I.alloc(Arr(AV(axes, s, av.kind, av.dtype, av.name)))


@reg('numpy.cumprod')
def _cumprod(I, a, kw, node):
    return I.opaque_call('numpy.cumprod', a, kw, node)


@reg('numpy.interp')
def _interp(I, a, kw, node):
    x, xp, fp = kwarg(a, kw, 0, 'x'), kwarg(a, kw, 1, 'xp'), kwarg(a, kw, 2, 'fp')
    left, right = kwarg(a, kw, 3, 'left'), kwarg(a, kw, 4, 'right')
    per = kw.get('period')
    pa, fa = to_av(I, xp), to_av(I, fp)
    if pa is None or fa is None or pa.ndim != 1 or fa.ndim != 1 or per is not None:
        return I.opaque_call('numpy.interp', a, kw, node)
    px, pb = pa.opened()
    fx, fb = fa.opened()
    j = ivar()
    last = T.s_sub(px[0].n, num(1))
    L1 = T.lam([px[0].var], [px[0].n], pb)
    L2 = T.lam([fx[0].var], [fx[0].n], fb)

    def f(s):
        core = app('interp', L1, L2, s)
        r = core
        if left is not None and not isnone(left):
            r = ite(T.s_lt(s, T.subst(pb, {px[0].var: num(0)})), left, r)
        if right is not None and not isnone(right):
            r = ite(T.s_gt(s, T.subst(pb, {px[0].var: last})), right, r)
        return r
    xa = to_av(I, x)
    if xa is not None and xa.kind != 'nd' and xa.ndim:
        x = I.arr(xa.copy(kind='nd', axes=[Ax(q.var, q.n, None, q.comp) for q in xa.axes]))
    return elementwise(I, f, [x], node)


@reg('numpy.sort')
def _sort(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None or av.ndim == 0:
        return I.opaque_call('numpy.sort', a, kw, node)
    ax = kwarg(a, kw, 1, 'axis', num(-1))
    d = cint(ax) % av.ndim
    axes, b = av.opened()
    x = axes[d]
    L = T.lam([x.var], [x.n], b)
    v = ivar()
    axes[d] = Ax(v, x.n)
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], app('sorted', L, V(v), nan=FX.maybe_nan(b)), 'nd', av.dtype)))


@reg('numpy.argsort')
def _argsort(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None or av.ndim == 0:
        return I.opaque_call('numpy.argsort', a, kw, node)
    ax = kwarg(a, kw, 1, 'axis', num(-1))
    d = cint(ax) % av.ndim
    axes, b = av.opened()
    x = axes[d]
    L = T.lam([x.var], [x.n], b)
    v = ivar()
    axes[d] = Ax(v, x.n)
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], app('argsort', L, V(v), isint=True, nonneg=True), 'nd', 'int')))


@reg('numpy.unique')
def _unique(I, a, kw, node):
    t = I.term(ravel(I, a[0], node))
    n = app('nunique', t, isint=True, nonneg=True)

    def mk(nm, extra):
        v = ivar()
        return I.alloc(Arr(AV([Ax(v, n)], app(nm, t, V(v), **extra), 'nd')))
    out = [mk('unique', dict(nan=True))]
    for k in ('return_index', 'return_inverse', 'return_counts'):
        if kw.get(k) is T.TRUE:
            if k == 'return_inverse':
                av = to_av(I, a[0])
                ax, b = av.opened()
                out.append(I.arr(AV(ax, app('uniqinv', t, b, isint=True, nonneg=True), 'nd', 'int')))
            else:
                out.append(mk('uniq:' + k, dict(isint=True, nonneg=True)))
    return out[0] if len(out) == 1 else Tup(out)


# ------------------------------------------------------------------ products
@reg('numpy.matmul', 'numpy.dot')
def _matmul(I, a, kw, node):
    x, y = to_av(I, a[0]), to_av(I, a[1])
    if x is None or y is None:
        return I.opaque_call('numpy.matmul', a, kw, node)
    if x.ndim == 0 or y.ndim == 0:
        return binop(I, 'Mult', a[0], a[1], node)
    if x.ndim > 2 or y.ndim > 2:
        return I.opaque_call('numpy.matmul', a, kw, node)
    xa, xb = x.opened()
    ya, yb = y.opened()
    if not T.same(xa[-1].n, ya[0].n):
        I.event('shape', node, a=xa[-1].n, b=ya[0].n)
        if cint(xa[-1].n) is not None and cint(ya[0].n) is not None:
            I.raise_('ValueError', node)
    j = ivar()
    body = FX.s_sum([j], [xa[-1].n], T.s_mul(T.subst(xb, {xa[-1].var: V(j)}), T.subst(yb, {ya[0].var: V(j)})))
    axes = xa[:-1] + ya[1:]
    return I.arr(AV([Ax(q.var, q.n) for q in axes], body, 'nd'))


@reg('numpy.vdot', 'numpy.inner')
def _vdot(I, a, kw, node):
    return BUILTINS['numpy.sum'](I, [binop(I, 'Mult', a[0], a[1], node)], {}, node)


def _ufunc_outer(op):
    def h(I, a, kw, node):
        x, y = to_av(I, a[0]), to_av(I, a[1])
        if len(a) != 2 or kw or x is None or y is None:
            return I.opaque_call('numpy.%s.outer' % op, a, kw, node)
        xa, xb = x.opened()
        ya, yb = y.opened()
        b = {'add': T.s_add, 'subtract': T.s_sub, 'multiply': T.s_mul, 'divide': T.s_div}[op](xb, yb)
        return I.alloc(Arr(AV([Ax(z.var, z.n) for z in xa + ya], b, 'nd')))
    return h


for _o in ('add', 'subtract', 'multiply', 'divide'):
    BUILTINS['numpy.%s.outer' % _o] = _ufunc_outer(_o)


@reg('numpy.outer')
def _outer(I, a, kw, node):
    x, y = to_av(I, ravel(I, a[0], node)), to_av(I, ravel(I, a[1], node))
    xa, xb = x.opened()
    ya, yb = y.opened()
    return I.alloc(Arr(AV([Ax(xa[0].var, xa[0].n), Ax(ya[0].var, ya[0].n)], T.s_mul(xb, yb), 'nd')))


@reg('numpy.cross')
def _cross(I, a, kw, node):
    x, y = to_av(I, a[0]), to_av(I, a[1])
    if kw or len(a) != 2 or x is None or y is None or not x.ndim or not y.ndim or cint(x.axes[-1].n) != 2 or cint(y.axes[-1].n) != 2:
        return I.opaque_call('numpy.cross', a, kw, node)

    def part(v, k):
        axes, b = v.opened()
        b = T.subst(b, {axes[-1].var: num(k)})
        return I.alloc(Arr(AV([Ax(z.var, z.n) for z in axes[:-1]], b, 'nd'))) if len(axes) > 1 else b
    return I.binop('Sub', I.binop('Mult', part(x, 0), part(y, 1), node), I.binop('Mult', part(x, 1), part(y, 0), node), node)


@reg('numpy.linalg.norm')
def _norm(I, a, kw, node):
    o = kwarg(a, kw, 1, 'ord')
    ax = kwarg(a, kw, 2, 'axis')
    if o is not None and not isnone(o) and cint(o) != 2:
        return I.opaque_call('numpy.linalg.norm', a, kw, node)
    x = elementwise(I, lambda s: T.s_mul(T.s_abs(s), T.s_abs(s)), a[:1], node)
    k = {} if ax is None else {'axis': ax}
    if 'keepdims' in kw:
        k['keepdims'] = kw['keepdims']
    s = BUILTINS['numpy.sum'](I, [x], k, node)
    return elementwise(I, lambda q: T.s_pow(q, num(F(1, 2))), [s], node)


@reg('numpy.einsum')
def _einsum(I, a, kw, node):
    spec = cstr(a[0])
    ops = a[1:]
    avs = [to_av(I, x) for x in ops]
    if spec is None or '.' in spec or any(v is None for v in avs):
        return I.opaque_call('numpy.einsum', a, kw, node)
    spec = spec.replace(' ', '')
    ins, _, out = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        from collections import Counter
        c = Counter(''.join(ins))
        out = ''.join(sorted(k for k in c if c[k] == 1))
    var = {}
    lens = {}
    body = num(1)
    for sp, av in zip(ins, avs):
        axes, b = av.opened()
        m = {}
        for ch, x in zip(sp, axes):
            if ch not in var:
                var[ch] = ivar()
                lens[ch] = x.n
            m[x.var] = V(var[ch])
        body = T.s_mul(body, T.subst(b, m))
    red_ = [c for c in var if c not in out]
    if red_:
        body = FX.s_sum([var[c] for c in red_], [lens[c] for c in red_], body)
    return I.arr(AV([Ax(var[c], lens[c]) for c in out], body, 'nd'))


# ------------------------------------------------------------------ spectral
def linear_app(name, v, n, body, extra, **attrs):
    """app linear in `body` over index v: constant factors come out, sums split"""
    t = FX._indep_guard(body, {v})
    if t is not None:
        return ite(T.bool_atom(t), linear_app(name, v, n, T.cof(body, t, True), extra, **attrs),
                   linear_app(name, v, n, T.cof(body, t, False), extra, **attrs))
    body = T.as_num(body)
    vs = frozenset([v])
    if body.kind == 'L' and T.as_poly(body.val) is not None:
        out = num(0)
        for m, c in T.as_poly(body.val).t:
            ind = tuple((a, e) for a, e in m if not (a.free & vs))
            dep = tuple((a, e) for a, e in m if a.free & vs)
            L = T.lam([v], [n], P(T.mk_poly({dep: F(1)})))
            out = T.s_add(out, T.s_mul(P(T.mk_poly({ind: c})), app(name, L, *extra, **attrs)))
        return out
    polys = [T.as_poly(x) for x in T.leaves(body)]
    f = T.ONE
    if not any(p is None for p in polys):
        f = FX.common_factor(polys, vs, positive=False)
        if f is not T.ONE:
            body = T.s_div(body, P(f))
    return T.s_mul(P(f), app(name, T.lam([v], [n], body), *extra, **attrs))


def padded(L):
    """Lam over one index whose body vanishes from some n on: (n, AV of the support)"""
    if len(L.vars) != 1:
        return None
    (v,), b = T.lam_open(L)
    if b.kind != 'N' or b.atom.op != 'lt':
        return None
    q = b.atom.args[0]
    zero = [s.kind == 'L' and T.as_poly(s.val) is not None and T.is_zero(T.as_poly(s.val)) for s in (b.hi, b.lo)]
    c = dict(q.t).get(((v, F(1)),))
    if c is None or abs(c) != 1:
        return None
    rest = T.sub(q, T.scale(atom_poly(v), c))
    if v in rest.free:
        return None
    if c == 1 and zero[1]:          # v + rest < 0  <=> v < -rest
        n, body = T.neg(rest), b.hi
    elif c == -1 and zero[0]:       # rest - v < 0 -> zero; support v <= rest
        n, body = T.add(rest, T.ONE), b.lo
    else:
        return None
    w = ivar()
    return P(n), AV([Ax(w, P(n))], T.subst(body, {v: V(w)}), 'nd')


def spectral_product(b, v, N, k):
    """inverse transform of fft(x)*conj(fft(y)) with enough zero padding is the linear cross-correlation"""
    if b.kind != 'L' or T.as_poly(b.val) is None:
        return None
    out = num(0)
    vp = atom_poly(v)
    for m, c in T.as_poly(b.val).t:
        fx = fy = None
        rest = {}
        for a, e in m:
            if a.op == 'fft' and a.args[1] is vp and e == 1 and fx is None:
                fx = a
            elif a.op == 'conj' and e == 1 and fy is None and T.single_atom(a.args[0]) is not None and \
                    T.single_atom(a.args[0]).op == 'fft' and T.single_atom(a.args[0]).args[1] is vp:
                fy = T.single_atom(a.args[0])
            elif a.op == 'abs' and e == 2 and fx is None and fy is None and T.single_atom(a.args[0]) is not None and \
                    T.single_atom(a.args[0]).op == 'fft' and T.single_atom(a.args[0]).args[1] is vp:
                fx = fy = T.single_atom(a.args[0])
            elif v in a.free:
                return None
            else:
                rest[a] = e
        if fx is None or fy is None:
            return None
        px, py = padded(fx.args[0]), padded(fy.args[0])
        if px is None or py is None or not T.same(px[0], py[0]):
            return None
        n = px[0]
        if T.s_lt(N, T.s_sub(T.s_mul(num(2), n), num(1))) is not T.FALSE:
            return None
        f = P(T.mk_poly({tuple(sorted(rest.items(), key=lambda x: x[0].id)): c}))
        lo = xcorr_term(None, px[1], py[1], k)
        hi = xcorr_term(None, px[1], py[1], T.s_sub(k, N))
        if T.same(N, T.s_sub(T.s_mul(num(2), n), num(1))):
            r = ite(T.s_lt(k, n), lo, hi)
        else:
            r = ite(T.s_lt(k, n), lo, ite(T.s_lt(T.s_sub(N, n), k), hi, num(0)))
        out = T.s_add(out, T.s_mul(f, r))
    return out


def fft_model(name, inv):
    def h(I, a, kw, node):
        av = to_av(I, a[0])
        n = kwarg(a, kw, 1, 'n')
        ax = kwarg(a, kw, 2, 'axis', num(-1))
        if av is None or av.ndim == 0 or 'norm' in kw:
            return I.opaque_call(name, a, kw, node)
        c = cint(ax)
        if c is None:
            return I.opaque_call(name, a, kw, node)
        d = c % av.ndim
        axes, b = av.opened()
        x = axes[d]
        nn = x.n if n is None or isnone(n) else n
        if nn is not x.n:
            b = ite(T.s_lt(V(x.var), x.n), b, num(0))
        v = ivar()
        # inverse pair
        other = 'fft' if inv else 'ifft'
        if b.kind == 'L' and T.as_poly(b.val) is not None:
            at = T.single_atom(T.as_poly(b.val))
            if at is not None and at.op == other and T.as_poly(at.args[1]) is atom_poly(x.var) and T.same(at.args[0].lens[0], nn):
                res = T.lam_apply(at.args[0], [V(v)])
                axes[d] = Ax(v, nn)
                return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], res, 'nd')))
        if inv:
            res = spectral_product(b, x.var, nn, V(v))
            if res is not None:
                axes[d] = Ax(v, nn)
                return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], res, 'nd')))
        res = linear_app('ifft' if inv else 'fft', x.var, nn, b, (V(v),), real=False, nan=FX.maybe_nan(b))
        axes[d] = Ax(v, nn)
        return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], res, 'nd', 'complex')))
    BUILTINS[name] = h


fft_model('numpy.fft.fft', False)
fft_model('numpy.fft.ifft', True)


@reg('numpy.fft.fftfreq')
def _fftfreq(I, a, kw, node):
    n = kwarg(a, kw, 0, 'n')
    d = kwarg(a, kw, 1, 'd', num(1))
    v = ivar()
    half = app('ceil', T.s_div(n, num(2)))
    k = V(v)
    body = ite(T.s_lt(k, half), T.s_div(k, T.s_mul(n, d)), T.s_div(T.s_sub(k, n), T.s_mul(n, d)))
    return I.alloc(Arr(AV([Ax(v, n)], body, 'nd')))


@reg('numpy.fft.fftshift', 'numpy.fft.ifftshift', 'scipy.fft.fftshift')
def _fftshift(I, a, kw, node):
    return pure_call(I, 'fftshift', a, kw)


def xcorr_term(I, x, y, lag):
    """sum_i x[i+lag]*conj(y[i]) : bilinear normal form"""
    xa, xb = x.opened()
    ya, yb = y.opened()
    xv, yv = xa[0].var, ya[0].var
    t = FX._indep_guard(xb, {xv})
    vsx = frozenset([xv])
    vsy = frozenset([yv])

    def parts(b, v, n, vs):
        b = T.as_num(b)
        if b.kind == 'L' and T.as_poly(b.val) is not None:
            for m, c in T.as_poly(b.val).t:
                ind = tuple((a, e) for a, e in m if not (a.free & vs))
                dep = tuple((a, e) for a, e in m if a.free & vs)
                yield P(T.mk_poly({ind: c})), T.lam([v], [n], P(T.mk_poly({dep: F(1)})))
        else:
            yield num(1), T.lam([v], [n], b)
    out = num(0)
    for f, L in parts(xb, xv, xa[0].n, vsx):
        for g, K in parts(app('conj', yb), yv, ya[0].n, vsy):
            out = T.s_add(out, T.s_mul(T.s_mul(f, g), app('xcorr', L, K, lag)))
    return out


@reg('scipy.signal.correlate', 'numpy.correlate')
def _correlate(I, a, kw, node):
    x, y = to_av(I, kwarg(a, kw, 0, 'in1', kw.get('a'))), to_av(I, kwarg(a, kw, 1, 'in2', kw.get('v')))
    mode = kwarg(a, kw, 2, 'mode', leaf('full'))
    if x is None or y is None or x.ndim != 1 or y.ndim != 1 or cstr(mode) not in ('full', 'same', 'valid'):
        return I.opaque_call('scipy.signal.correlate', a, kw, node)
    nx, ny = x.axes[0].n, y.axes[0].n
    v = ivar()
    lag, n = corr_lag(cstr(mode), V(v), nx, ny)
    return I.alloc(Arr(AV([Ax(v, n)], xcorr_term(I, x, y, lag), 'nd')))


def corr_lag(mode, k, nx, ny):
    one = num(1)
    if mode == 'full':
        return T.s_sub(k, T.s_sub(ny, one)), T.s_sub(T.s_add(nx, ny), one)
    if mode == 'same':
        return T.s_sub(T.s_add(k, app('floor', T.s_div(T.s_sub(ny, one), num(2)))), T.s_sub(ny, one)), nx
    m = FX.s_min(nx, ny) if not T.same(nx, ny) else nx
    M_ = FX.s_max(nx, ny) if not T.same(nx, ny) else nx
    return T.s_sub(T.s_add(k, T.s_sub(m, one)), T.s_sub(ny, one)), T.s_add(T.s_sub(M_, m), one)


@reg('scipy.signal.correlation_lags')
def _corrlags(I, a, kw, node):
    nx, ny = a[0], a[1]
    mode = cstr(kwarg(a, kw, 2, 'mode', leaf('full')))
    if mode not in ('full', 'same', 'valid'):
        return I.opaque_call('scipy.signal.correlation_lags', a, kw, node)
    v = ivar()
    lag, n = corr_lag(mode, V(v), nx, ny)
    return I.alloc(Arr(AV([Ax(v, n)], lag, 'nd', 'int')))


@reg('scipy.signal.choose_conv_method')
def _ccm(I, a, kw, node):
    return app('convmethod', *[I.term(x) for x in a])


def spec_def():
    return {'window': leaf('hann'), 'detrend': leaf('constant'), 'scaling': leaf('density'), 'noverlap': leaf(None), 'nperseg': leaf(None),
            'nfft': leaf(None), 'fs': num(1), 'return_onesided': leaf(True), 'average': leaf('mean'), 'axis': num(-1)}


def spec_args(I, a, kw, npos):
    order = ['fs', 'window', 'nperseg', 'noverlap', 'nfft', 'detrend', 'return_onesided', 'scaling', 'axis', 'average']
    d = {}
    for nm, v in zip(order, a[npos:]):
        d[nm] = v
    d.update({k: v for k, v in kw.items() if k in order})
    for k, v in spec_def().items():
        d.setdefault(k, v)
    return d


def csd_common(I, x, y, d, node, npos_name):
    """(freq AV, csd AV). The spectrum is linear in x, antilinear in y; density scaling divides by fs"""
    xav, yav = to_av(I, x), to_av(I, y)
    if xav is None or yav is None or xav.ndim < 1 or yav.ndim < 1:
        return None
    axis = d.get('axis', num(-1))
    axis = cint(axis) if isinstance(axis, S) else None
    if axis is None:
        return None
    fs = d['fs']
    nper = d['nperseg']
    for k in ('fs', 'nperseg'):
        if not isinstance(d[k], S):
            return None
    params = tuple((k, I.term(d[k])) for k in ('window', 'nperseg', 'noverlap', 'nfft', 'detrend', 'return_onesided', 'average'))
    nfft = d['nfft'] if not isnone(d['nfft']) else nper
    nfft_t = ite(T.s_eq(nfft, T.NONE), num(256), nfft) if isinstance(nfft, S) else num(256)
    nfft_t = T.apply1('nfftnum', lambda v: leaf(v) if isinstance(v, T.Poly) else num(256), nfft_t)
    v = ivar()
    nf = T.s_add(app('floor', T.s_div(nfft_t, num(2))), num(1))
    freq = I.alloc(Arr(AV([Ax(v, nf)], T.s_div(T.s_mul(V(v), fs), nfft_t), 'nd')))
    xa, xb = xav.opened()
    ya, yb = yav.opened()
    if xav.ndim != yav.ndim:
        return None
    axis %= xav.ndim
    tx, ty = xa.pop(axis), ya.pop(axis)
    batch = []
    for p, q in zip(xa, ya):
        if p.n is q.n or T.same(p.n, q.n):
            yb = T.subst(yb, {q.var: V(p.var)})
            batch.append(Ax(p.var, p.n))
        elif T.same(q.n, num(1)):
            yb = T.subst(yb, {q.var: num(0)})
            batch.append(Ax(p.var, p.n))
        elif T.same(p.n, num(1)):
            xb = T.subst(xb, {p.var: num(0)})
            batch.append(Ax(q.var, q.n))
        else:
            I.event('shape', a=p.n, b=q.n)
            return None
    w = ivar()
    t = csd_term(T.as_num(xb), tx, T.as_num(yb), ty, params, V(w))
    sc = d['scaling']
    if not isinstance(sc, S):
        return None
    # 'density' divides by the sampling frequency
    t = ite(T.s_eq(sc, leaf('density')), T.s_div(t, fs),
            ite(T.s_eq(sc, leaf('spectrum')), T.s_mul(app('specscale', params, pos=True), t), T.opaque('badscaling', sc)))
    batch.insert(axis, Ax(w, nf))
    return freq, I.alloc(Arr(AV(batch, t, 'nd', 'complex')))


def csd_term(xb, xax, yb, yax, params, k):
    fx, Lx = lin1(xb, xax)
    fy, Ly = lin1(yb, yax)
    f = T.s_mul(fx, fy)
    nn = FX.maybe_nan(xb) or FX.maybe_nan(yb)
    if Lx is Ly:
        return T.s_mul(f, app('psd', Lx, params, k, nonneg=True, nan=nn))
    if Lx.id < Ly.id:
        return T.s_mul(f, app('csd', Lx, Ly, params, k, real=False, nan=nn))
    return T.s_mul(f, app('conj', app('csd', Ly, Lx, params, k, real=False, nan=nn)))


def lin1(b, ax):
    vs = frozenset([ax.var])
    polys = [T.as_poly(x) for x in T.leaves(b)]
    if any(p is None for p in polys):
        return num(1), T.lam([ax.var], [ax.n], b)
    f = FX.common_factor(polys, vs, positive=False)
    c = F(1)
    if b.kind == 'L' and b.val.t:
        c = T.div(b.val, f).t[0][1]
    f = T.scale(f, c)
    return P(f), T.lam([ax.var], [ax.n], T.s_div(b, P(f)))


@reg('numpy.unwrap')
def _unwrap(I, a, kw, node):
    p = kwarg(a, kw, 0, 'p')
    disc, axis, per = kwarg(a, kw, 1, 'discont'), kwarg(a, kw, 2, 'axis', num(-1)), kw.get('period')
    av = to_av(I, p)
    ax = cint(axis) if isinstance(axis, S) else None
    if av is None or av.ndim == 0 or ax is None or disc is not None or per is not None:
        return I.opaque_call('numpy.unwrap', a, kw, node)
    axes, b = av.opened()
    ax %= len(axes)
    L = T.lam([axes[ax].var], [axes[ax].n], b)
    return I.arr(AV([Ax(q.var, q.n, None, q.comp) for q in axes], app('unwrap', L, V(axes[ax].var), nan=FX.maybe_nan(b)), 'nd'))


@reg('scipy.signal.welch')
def _welch(I, a, kw, node):
    x = kwarg(a, kw, 0, 'x')
    r = csd_common(I, x, x, spec_args(I, a, kw, 1), node, 1)
    if r is None:
        o = I.opaque_call('scipy.signal.welch', a, kw, node)
        return Tup([app('item', o, num(0), unmod=True), app('item', o, num(1), unmod=True)])
    av = I.rec(r[1]).av
    I.heap[r[1].oid] = Arr(av.copy(dtype=None))
    return Tup(r)


@reg('scipy.signal.csd')
def _csd(I, a, kw, node):
    # scipy: Pxy = conj(X) Y averaged
    x, y = kwarg(a, kw, 0, 'x'), kwarg(a, kw, 1, 'y')
    r = csd_common(I, x, y, spec_args(I, a, kw, 2), node, 2)
    if r is None:
        o = I.opaque_call('scipy.signal.csd', a, kw, node)
        return Tup([app('item', o, num(0), unmod=True), app('item', o, num(1), unmod=True)])
    return Tup(r)


@reg('scipy.signal.coherence')
def _coh(I, a, kw, node):
    d = spec_args(I, a, kw, 2)
    x, y = a[0], a[1]
    r = csd_common(I, x, y, d, node, 2)
    rx, ry = csd_common(I, x, x, d, node, 2), csd_common(I, y, y, d, node, 2)
    if r is None or rx is None or ry is None:
        return I.opaque_call('scipy.signal.coherence', a, kw, node)
    z = elementwise(I, lambda c, p, q: T.s_div(T.s_mul(T.s_abs(c), T.s_abs(c)), T.s_mul(p, q)), [r[1], rx[1], ry[1]], node)
    return Tup([r[0], z])


# ------------------------------------------------------------------ scipy misc
@reg('scipy.stats.norm.cdf')
def _ncdf(I, a, kw, node):
    if len(a) > 1 or kw:
        return pure_call(I, 'scipy.stats.norm.cdf', a, kw)
    return elementwise(I, lambda s: app('normcdf', s, pos=True), a[:1], node)


@reg('scipy.interpolate.interp1d')
def _interp1d(I, a, kw, node):
    x, y = kwarg(a, kw, 0, 'x'), kwarg(a, kw, 1, 'y')
    opts = {k: v for k, v in kw.items() if k not in ('x', 'y')}
    if len(a) > 2:
        opts['kind'] = a[2]
    return I.alloc(Obj('interp1d', {'x': x, 'y': y, '$opts': I.alloc(Dct([('kv', leaf(k), v) for k, v in sorted(opts.items())]))}))


def call_interp1d(I, f, args, kw, node):
    r = I.rec(f)
    xa, ya = to_av(I, r.attrs['x']), to_av(I, r.attrs['y'])
    opts = {p[1].val: p[2] for p in I.rec(r.attrs['$opts']).parts}
    axv = opts.get('axis', num(-1))
    axis = cint(axv) if isinstance(axv, S) else None
    if xa is None or ya is None or xa.ndim != 1 or ya.ndim < 1 or axis is None:
        return I.opaque_call('interp1d', [r.attrs['x'], r.attrs['y']] + args, {}, node)
    axis %= ya.ndim
    x1, xb = xa.opened()
    y1, yb = ya.opened()
    yt = y1.pop(axis)
    if not T.same(yt.n, x1[0].n):
        I.event('shape', a=x1[0].n, b=yt.n)
    L1 = T.lam([x1[0].var], [x1[0].n], xb)
    L2 = T.lam([yt.var], [yt.n], yb)
    kind = opts.get('kind', leaf('linear'))
    fv = opts.get('fill_value')
    be = opts.get('bounds_error')
    last = T.s_sub(x1[0].n, num(1))

    def g(s):
        core = app('interp', L1, L2, s) if cstr(kind) == 'linear' else app('interp:' + str(cstr(kind)), L1, L2, s)
        if isinstance(fv, S) and cstr(fv) == 'extrapolate':
            return app('extrap', core)
        lo = T.subst(xb, {x1[0].var: num(0)})
        hi = T.subst(xb, {x1[0].var: last})
        out = lor(T.s_lt(s, lo), T.s_gt(s, hi))
        if isinstance(fv, S):
            return ite(out, fv, core)
        if isinstance(fv, Tup) and all(isinstance(q, S) for q in fv.items):
            return ite(T.s_lt(s, lo), fv.items[0], ite(T.s_gt(s, hi), fv.items[1], core))
        return core
    xx = to_av(I, args[0])
    arg = args[0]
    if xx is not None and xx.ndim and xx.kind != 'nd':
        arg = I.arr(xx.copy(kind='nd', axes=[Ax(q.var, q.n, None, q.comp) for q in xx.axes]))
    if not y1:
        return elementwise(I, g, [arg], node)
    q, qb = (xx.opened() if xx is not None else (None, None))
    if q is None:
        return I.opaque_call('interp1d', [r.attrs['x'], r.attrs['y']] + args, {}, node)
    axes = [Ax(z.var, z.n) for z in y1]
    axes[axis:axis] = [Ax(z.var, z.n) for z in q]
    return I.arr(AV(axes, g(qb), 'nd'))


M.OBJ_CALL['interp1d'] = call_interp1d


def fn_lam(I, f, nargs, pre=(), post=(), shapes=None):
    """repository function as closed term over `nargs` fresh scalar parameters"""
    if isinstance(f, (Fn, Partial)):
        syms = [T.mk_atom('param', (k, nargs), deps=()) for k in range(nargs)]
        return syms
    return None


def eval_callback(I, f, args, node):
    saved = I.pc
    try:
        v = I.call(f, args, {}, node)
    finally:
        I.pc = saved
    return v


@reg('scipy.optimize.curve_fit')
def _curvefit(I, a, kw, node):
    f, x, y = a[0], a[1], a[2]
    nparam = None
    if isinstance(f, Fn):
        nparam = len(f.node.args.args) - 1
    xa, ya = to_av(I, x), to_av(I, y)
    if nparam is None or xa is None or ya is None:
        return I.opaque_call('curve_fit', a, kw, node)
    ps = [P(atom_poly(T.mk_atom('fitp', (k,), real=True))) for k in range(nparam)]
    ax, b = xa.opened()
    m = eval_callback(I, f, [b] + ps, node) if xa.ndim == 1 else eval_callback(I, f, [x] + ps, node)
    t = I.term(m) if not isinstance(m, S) else T.lam([ax[0].var], [ax[0].n], m)
    args = [t, I.term(y)] + [(k, I.term(v)) for k, v in sorted(kw.items())] + [I.term(z) for z in a[3:]]
    may_raise(I, node, 'ValueError')
    v = ivar()
    popt = I.alloc(Arr(AV([Ax(v, num(nparam))], app('curvefit', *args, V(v), nan=True), 'nd')))
    c, d = ivar(), ivar()
    pcov = I.alloc(Arr(AV([Ax(c, num(nparam)), Ax(d, num(nparam))], app('curvefitcov', *args, V(c), V(d)), 'nd')))
    return Tup([popt, pcov])


@reg('scipy.optimize.leastsq')
def _leastsq(I, a, kw, node):
    f, x0 = kwarg(a, kw, 0, 'func'), kwarg(a, kw, 1, 'x0')
    extra = kwarg(a, kw, 2, 'args', Tup([]))
    xs = to_av(I, x0)
    ex = list(extra.items) if isinstance(extra, Tup) else [extra]
    if xs is None:
        return I.opaque_call('leastsq', a, kw, node)
    n = num(1)
    for q in xs.axes:
        n = T.s_mul(n, q.n)
    v0 = ivar()
    par = I.alloc(Arr(AV([Ax(v0, n)], app('lsqp', V(v0)), 'nd')))
    res = eval_callback(I, f, [par] + ex, node)
    v = ivar()
    t = I.term(res)
    may_raise(I, node)
    sol = I.alloc(Arr(AV([Ax(v, n)], app('leastsq', t, I.term(x0), V(v)), 'nd')))
    return Tup([sol, app('leastsq_ier', t, I.term(x0), isint=True)])


@reg('scipy.optimize.minimize_scalar')
def _minscalar(I, a, kw, node):
    f = kwarg(a, kw, 0, 'fun')
    p = P(atom_poly(T.mk_atom('pvar', ())))
    ex = kw.get('args', Tup([]))
    ex = list(ex.items) if isinstance(ex, Tup) else [ex]
    res = eval_callback(I, f, [p] + ex, node)
    opts = tuple((k, I.term(v)) for k, v in sorted(kw.items()) if k not in ('fun', 'args'))
    t = I.term(res)
    may_raise(I, node)
    return I.alloc(Obj('optres', {'x': app('argmin_scalar', t, opts), 'fun': app('min_scalar', t, opts), 'success': T.bool_atom(T.mk_atom('optok', (t,), isbool=True))}))


@reg('scipy.optimize.shgo', 'scipy.optimize.minimize', 'scipy.optimize.differential_evolution')
def _shgo(I, a, kw, node):
    f = kwarg(a, kw, 0, 'func')
    ex = kwarg([], kw, 9, 'args', Tup([]))
    ex = list(ex.items) if isinstance(ex, Tup) else [ex]
    b = kwarg(a, kw, 1, 'bounds')
    n = length(I, b)
    v0 = ivar()
    par = I.alloc(Arr(AV([Ax(v0, n)], app('lsqp', V(v0)), 'nd')))
    res = eval_callback(I, f, [par] + ex, node)
    v = ivar()
    t = (I.term(res), I.term(b))
    may_raise(I, node)
    return I.alloc(Obj('optres', {'x': I.alloc(Arr(AV([Ax(v, n)], app('shgo', t, V(v)), 'nd'))), 'fun': app('shgo_fun', t)}))


@reg('scipy.optimize.linear_sum_assignment')
def _lsa(I, a, kw, node):
    c = kwarg(a, kw, 0, 'cost_matrix')
    av = to_av(I, c)
    mx = kwarg(a, kw, 1, 'maximize', T.FALSE)
    if av is None or av.ndim != 2:
        return I.opaque_call('linear_sum_assignment', a, kw, node)
    n = av.axes[0].n
    if not T.same(n, av.axes[1].n):
        n = FX.s_min(n, av.axes[1].n)
    t = I.term(I.arr(av))
    v, w = ivar(), ivar()
    rows = I.alloc(Arr(AV([Ax(v, n)], V(v) if T.same(av.axes[0].n, n) else app('lsarow', t, mx, V(v), isint=True, nonneg=True), 'nd', 'int')))
    cols = I.alloc(Arr(AV([Ax(w, n)], app('lsacol', t, mx, V(w), isint=True, nonneg=True), 'nd', 'int')))
    return Tup([rows, cols])


@reg('scipy.stats.linregress')
def _linreg(I, a, kw, node):
    t = tuple(I.term(array(I, x, {}, node)) for x in a)
    fs = ['slope', 'intercept', 'rvalue', 'pvalue', 'stderr']
    vals = {f: app('linregress', f, t) for f in fs}
    may_raise(I, node)
    return I.alloc(Obj('linregress', dict(vals, **{'$items': Tup([vals[f] for f in fs])})))


@reg('scipy.ndimage.sobel', 'scipy.ndimage.uniform_filter')
def _ndfilter(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None or av.ndim == 0:
        return pure_call(I, 'ndfilter', a, kw)
    axes, b = av.opened()
    sob = 'sobel' in _fname(node)
    names = ['axis', 'output', 'mode', 'cval'] if sob else ['size', 'output', 'mode', 'cval', 'origin']
    opt = {'axis': num(-1), 'mode': leaf('reflect')} if sob else {'size': num(3), 'mode': leaf('reflect'), 'origin': num(0)}
    opt.update(zip(names, a[1:]))
    opt.update((k, v) for k, v in kw.items() if k != 'input')
    if sob and isinstance(opt['axis'], S) and cint(opt['axis']) is not None:
        opt['axis'] = num(cint(opt['axis']) % len(axes))
    L = T.lam([x.var for x in axes], [x.n for x in axes], T.as_num(b))
    vs = [ivar() for _ in axes]
    return I.alloc(Arr(AV([Ax(v, x.n) for v, x in zip(vs, axes)], app('ndimage:' + ('sobel' if sob else 'uniform'), L, tuple((k, I.term(q)) for k, q in sorted(opt.items())), *[V(v) for v in vs]), 'nd')))


def _fname(node):
    f = getattr(node, 'func', None)
    return getattr(f, 'attr', getattr(f, 'id', '')) if f is not None else ''


@reg('scipy.interpolate.RegularGridInterpolator')
def _rgi(I, a, kw, node):
    return I.alloc(Obj('rgi', {'points': kwarg(a, kw, 0, 'points'), 'values': kwarg(a, kw, 1, 'values'),
                               'opts': I.alloc(Dct([('kv', leaf(k), v) for k, v in sorted(kw.items()) if k not in ('points', 'values')]))}))


def call_rgi(I, f, args, kw, node):
    r = I.rec(f)
    q = to_av(I, args[0])
    if isinstance(unwrap(I, args[0]), Tup):
        its = [to_av(I, x) for x in args[0].items]
        if all(x is not None for x in its):
            axes, bodies, _ = broadcast(I, [x.copy(kind='nd') for x in its], node)
            return I.arr(AV(axes, app('rgi', I.term(r.attrs['points']), I.term(r.attrs['values']), I.term(r.attrs['opts']), tuple(bodies), nan=True), 'nd'))
    if q is None or q.ndim < 1:
        return I.opaque_call('rgi', [f] + args, kw, node)
    axes, b = q.opened()
    d = cint(axes[-1].n)
    if d is None:
        return I.opaque_call('rgi', [f] + args, kw, node)
    bodies = tuple(T.subst(b, {axes[-1].var: num(k)}) for k in range(d))
    return I.arr(AV([Ax(x.var, x.n) for x in axes[:-1]], app('rgi', I.term(r.attrs['points']), I.term(r.attrs['values']), I.term(r.attrs['opts']), bodies, nan=True), 'nd'))


M.OBJ_CALL['rgi'] = call_rgi


# ------------------------------------------------------------------ randomness
@prefix('numpy.random.')
def _nprandom(I, name, a, kw, node):
    fn = name[len('numpy.random.'):]
    if fn in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox'):
        seed = kwarg(a, kw, 0, 'seed', leaf(None))
        from_ent = isnone(seed)
        I.event('rng_new', node, seed=I.term(seed), fn=fn)
        return I.alloc(Obj('rng', {'seed': seed, 'n': num(0)}))
    I.event('rng_global', node, fn=fn, write=fn in ('seed', 'set_state', 'shuffle'))
    I.rng_count += 1
    if fn in ('seed', 'set_state'):
        return leaf(None)
    if fn in ('shuffle',) and a:
        I.mutate(a[0], 'shuffle', node)
        I.havoc_obj(a[0]) if isinstance(a[0], Ref) else None
        return leaf(None)
    shape = kw.get('size')
    if fn in ('rand', 'randn') and a:
        shape = Tup(a)
    elif fn in ('random', 'random_sample') and a:
        shape = a[0]
    return rand_array(I, 'grand', (fn, I.rng_count), shape, node)


def rand_array(I, op, key, shape, node):
    if shape is None or isnone(shape):
        return app(op, key)
    it = shape_items(I, shape)
    if it is None:
        I.undecide('random shape', node)
        return T.opaque(op, leaf(str(key)))
    axes = [Ax(ivar(), s) for s in it]
    return I.arr(AV(axes, app(op, key, *[V(x.var) for x in axes]), 'nd'))


def rng_draw(meth):
    def h(I, o, a, kw, node):
        r = I.rec(o)
        n = r.attrs['n']
        I.heap[o.oid] = Obj('rng', dict(r.attrs, n=T.s_add(n, num(1))), r.roots)
        seed = I.term(r.attrs['seed'])
        key = (meth, seed, n)
        if isnone(r.attrs['seed']):
            I.event('rng_entropy', node, fn=meth)
        if r.roots:
            I.event('mutate', node, roots=tuple(sorted(r.roots)), what='rng state')
        rest = a
        shape = kw.get('size')
        if meth == 'multivariate_normal':
            mean = to_av(I, kwarg(a, kw, 0, 'mean'))
            size = kwarg(a, kw, 2, 'size', leaf(None))
            cov = kwarg(a, kw, 1, 'cov')
            opts = tuple((k, I.term(v)) for k, v in sorted(kw.items()) if k not in ('mean', 'cov', 'size'))
            key = key + (I.term(kwarg(a, kw, 0, 'mean')), I.term(cov), opts)
            d = to_av(I, cov).axes[0].n if to_av(I, cov) is not None and to_av(I, cov).ndim == 2 else T.opaque('dim')
            sh = [] if isnone(size) else shape_items(I, size)
            axes = [Ax(ivar(), s) for s in list(sh) + [d]]
            return I.arr(AV(axes, app('rand', key + (T.s_mul(num(1), size) if isinstance(size, S) and not isnone(size) else I.term(size),), *[V(x.var) for x in axes]), 'nd'))
        if meth in ('random', 'standard_normal') and a:
            shape = a[0]
            rest = a[1:]
        elif meth in ('uniform', 'normal') and len(a) > 2:
            shape = a[2]
            rest = a[:2]
        elif meth == 'integers' and len(a) > 2:
            shape = a[2]
            rest = a[:2]
        opts = tuple(I.term(x) for x in rest) + tuple((k, I.term(v)) for k, v in sorted(kw.items()) if k != 'size')
        return rand_array(I, 'rand', key + opts, shape, node)
    return h


for _m in 'random normal uniform integers standard_normal multivariate_normal choice permutation exponential beta gamma poisson'.split():
    OBJM[('rng', _m)] = rng_draw(_m)


@prefix('random.')
def _pyrandom(I, name, a, kw, node):
    I.event('rng_global', node, fn=name, write=name.endswith(('seed', 'shuffle')))
    I.rng_count += 1
    return app('grand', (name, I.rng_count))


# ------------------------------------------------------------------ mutating numpy functions
@reg('numpy.put', 'numpy.place', 'numpy.copyto', 'numpy.putmask', 'numpy.fill_diagonal')
def _mutf(I, a, kw, node):
    if is_arr(I, a[0]):
        I.mutate(a[0], 'in-place numpy function', node)
        nm = _fname(node)
        if nm == 'copyto' and 'where' not in kw and len(a) == 2:
            store_nd(I, a[0], [('ell',)], a[1], node)
        elif nm == 'copyto' and 'where' in kw:
            r = _where(I, [kw['where'], a[1], a[0]], {}, node)
            store_nd(I, a[0], [('ell',)], r, node)
        elif nm == 'fill_diagonal' and I.rec(a[0]).av.ndim == 2 and isinstance(a[1], S):
            axes, b = I.rec(a[0]).av.opened()
            I.set_arr(a[0], AV(axes, ite(T.s_eq(V(axes[0].var), V(axes[1].var)), a[1], b), 'nd', I.rec(a[0]).av.dtype))
        elif nm in ('putmask', 'place') and isinstance(a[2], S):
            store_nd(I, a[0], [classify(I, a[1])], a[2], node)
        else:
            I.undecide(nm, node)
            I.havoc_obj(a[0])
    return leaf(None)


@prefix('numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at', 'numpy.maximum.at', 'numpy.minimum.at')
def _ufuncat(I, name, a, kw, node):
    if is_arr(I, a[0]):
        I.mutate(a[0], name, node)
        I.undecide(name, node)
        I.havoc_obj(a[0])
    return leaf(None)


@reg('numpy.add.reduce')
def _addred(I, a, kw, node):
    if 'axis' not in kw and len(a) < 2:
        kw = dict(kw, axis=num(0))
    return BUILTINS['numpy.sum'](I, a, kw, node)


@reg('numpy.vectorize')
def _vectorize(I, a, kw, node):
    return I.alloc(Obj('vectorize', {'f': a[0]}))


def call_vectorize(I, f, args, kw, node):
    fn = I.rec(f).attrs['f']
    return elementwise_call(I, fn, args, node)


def elementwise_call(I, fn, args, node):
    avs = [to_av(I, x) for x in args]
    if any(v is None for v in avs):
        return I.opaque_call('vectorize', args, {}, node)
    if all(v.ndim == 0 for v in avs):
        return I.call(fn, args, {}, node)
    axes, bodies, kind = broadcast(I, avs, node)
    pc = I.pc
    r = I.call(fn, list(bodies), {}, node)
    I.pc = pc
    if not isinstance(r, S):
        return I.opaque_call('vectorize', args, {}, node)
    return I.alloc(Arr(AV(axes, r, kind)))


M.OBJ_CALL['vectorize'] = call_vectorize


@reg('numpy.apply_along_axis')
def _aaa(I, a, kw, node):
    f, ax, arr = a[0], cint(a[1]), to_av(I, a[2])
    if ax is None or arr is None:
        return I.opaque_call('apply_along_axis', a, kw, node)
    axes, b = arr.opened()
    d = ax % len(axes)
    x = axes.pop(d)
    inner = I.alloc(Arr(AV([Ax(x.var, x.n)], b, 'nd', arr.dtype)))
    pc = I.pc
    r = I.call(f, [inner] + a[3:], kw, node)
    I.pc = pc
    rv = to_av(I, r)
    if rv is None:
        return I.opaque_call('apply_along_axis', a, kw, node)
    ra, rb = rv.opened()
    axes[d:d] = ra
    return I.arr(AV([Ax(q.var, q.n) for q in axes], rb, 'nd'))


@reg('numpy.iscomplexobj', 'numpy.isrealobj')
def _isc(I, a, kw, node):
    av = to_av(I, a[0])
    c = av is not None and any(isinstance(v, T.Poly) and not v.real for v in T.leaves(av.body))
    return leaf(c if 'complex' in _fname(node) else not c)


@reg('numpy.isscalar')
def _isscalar(I, a, kw, node):
    v = unwrap(I, a[0])
    if isinstance(v, S):
        if v.unmod:
            I.undecide('isscalar', node)
            return T.as_bool(T.opaque('isscalar', v))
        return leaf(v is not T.NONE)
    return T.FALSE


@reg('numpy.iterable')
def _iterable(I, a, kw, node):
    v = unwrap(I, a[0])
    return leaf(not isinstance(v, S))


for _t in ('float64', 'float32', 'float16', 'float_'):
    BUILTINS['numpy.' + _t] = lambda I, a, kw, node: (elementwise(I, T.as_num, a[:1], node) if a else num(0))
for _t in ('int64', 'int32', 'intp', 'int_', 'uint8', 'int8', 'int16'):
    BUILTINS['numpy.' + _t] = lambda I, a, kw, node: elementwise(I, lambda s: app('trunc', T.as_num(s)), a[:1], node)
BUILTINS['numpy.bool_'] = lambda I, a, kw, node: elementwise(I, T.as_bool, a[:1], node)


@reg('numpy.triu', 'numpy.tril')
def _triu(I, a, kw, node):
    av = to_av(I, a[0])
    k = kwarg(a, kw, 1, 'k', num(0))
    if av is None or av.ndim != 2:
        return I.opaque_call('numpy.triu', a, kw, node)
    axes, b = av.opened()
    d = T.s_sub(V(axes[1].var), V(axes[0].var))
    c = T.s_ge(d, k) if 'triu' in _fname(node) else T.s_le(d, k)
    return I.alloc(Arr(AV([Ax(q.var, q.n) for q in axes], ite(c, b, T.FALSE if av.dtype == 'bool' else num(0)), 'nd', av.dtype)))


@reg('numpy.diag', 'numpy.diagonal')
def _diag(I, a, kw, node):
    av = to_av(I, a[0])
    if av is None or len(a) > 1 or kw:
        return I.opaque_call('numpy.diag', a, kw, node)
    axes, b = av.opened()
    if av.ndim == 2:
        v = ivar()
        return I.alloc(Arr(AV([Ax(v, axes[0].n)], T.subst(b, {axes[0].var: V(v), axes[1].var: V(v)}), 'nd', av.dtype)))
    if av.ndim == 1:
        v = ivar()
        return I.alloc(Arr(AV([Ax(axes[0].var, axes[0].n), Ax(v, axes[0].n)], ite(T.s_eq(V(v), V(axes[0].var)), b, num(0)), 'nd')))
    return I.opaque_call('numpy.diag', a, kw, node)


@reg('numpy.trace')
def _trace(I, a, kw, node):
    return BUILTINS['numpy.sum'](I, [_diag(I, a[:1], {}, node)], {}, node)


@reg('numpy.isin', 'numpy.in1d')
def _isin(I, a, kw, node):
    t = to_av(I, a[1])
    if t is None:
        return I.opaque_call('numpy.isin', a, kw, node)

    def f(s):
        ta, tb = t.opened()
        return FX.s_any([x.var for x in ta], [x.n for x in ta], T.s_eq(s, tb)) if ta else T.s_eq(s, tb)
    return elementwise(I, f, a[:1], node, 'bool')


@reg('numpy.array_equal', 'numpy.allclose', 'numpy.array_equiv')
def _aeq(I, a, kw, node):
    x, y = to_av(I, a[0]), to_av(I, a[1])
    if x is None or y is None or x.ndim != y.ndim:
        return T.FALSE if x is not None and y is not None else T.as_bool(T.opaque('array_equal', I.term(a[0]), I.term(a[1])))
    if _fname(node) == 'allclose':
        c = _isclose(I, a, kw, node)
    else:
        c = elementwise(I, T.s_eq, a[:2], node, 'bool')
    return BUILTINS['numpy.all'](I, [c], {}, node)


@reg('numpy.indices')
def _indices(I, a, kw, node):
    it = shape_items(I, a[0])
    if it is None:
        return I.opaque_call('numpy.indices', a, kw, node)
    out = []
    for k in range(len(it)):
        vs = [ivar() for _ in it]
        out.append(I.alloc(Arr(AV([Ax(v, n) for v, n in zip(vs, it)], V(vs[k]), 'nd', 'int'))))
    return array(I, Tup(out), {}, node)


@reg('numpy.take')
def _take(I, a, kw, node):
    ax = kwarg(a, kw, 2, 'axis')
    if ax is None or isnone(ax):
        return getitem(I, ravel(I, a[0], node), a[1], node)
    c = cint(ax)
    return getitem(I, a[0], Tup([Slice(None, None, None)] * c + [a[1]]), node)


@reg('numpy.compress')
def _compress(I, a, kw, node):
    ax = kwarg(a, kw, 2, 'axis')
    if ax is None:
        return getitem(I, a[1], a[0], node)
    return getitem(I, a[1], Tup([Slice(None, None, None)] * cint(ax) + [a[0]]), node)


@reg('numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions')
def _seterr(I, a, kw, node):
    I.event('seterr', node, args=tuple(sorted(kw)))
    return I.alloc(Obj('errstate_dict', {}))


@reg('numpy.errstate')
def _errstate(I, a, kw, node):
    return I.alloc(Obj('numpy.errstate', {}))


@reg('numpy.geterr')
def _geterr(I, a, kw, node):
    return I.alloc(Obj('errstate_dict', {}))


@reg('numpy.finfo', 'numpy.iinfo')
def _finfo(I, a, kw, node):
    return I.alloc(Obj('finfo', {'eps': app('eps', num(0), pos=True), 'max': app('fmax', num(0), pos=True), 'tiny': app('tiny', num(0), pos=True),
                                 'min': T.s_neg(app('fmax', num(0), pos=True))}))


@reg('numpy.array_split', 'numpy.split')
def _split(I, a, kw, node):
    return I.opaque_call('numpy.split', a, kw, node)


@reg('numpy.ix_')
def _ix(I, a, kw, node):
    out = []
    n = len(a)
    for k, x in enumerate(a):
        av = to_av(I, x)
        if av is None:
            return I.opaque_call('numpy.ix_', a, kw, node)
        if is_mask(av):
            x = nonzero(I, x, node).items[0]
        out.append(getitem(I, array(I, x, {}, node), Tup([T.NONE] * k + [Slice(None, None, None)] + [T.NONE] * (n - k - 1)), node))
    return Tup(out)
