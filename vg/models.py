"""Models of Python builtins, numpy, pandas and scipy over abstract values."""
import ast
from fractions import Fraction as F
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, app, ite, land, lor, lnot, const_of
from .values import *

BUILTINS = {}      # dotted name -> handler(I, args, kw, node)
ARRM = {}          # array method name -> handler(I, ref, av, args, kw, node)
OBJM = {}          # (objclass, method) -> handler
OBJ_CALL = {}

ALIAS = {
    'numpy.abs': 'numpy.absolute', 'numpy.fabs': 'numpy.absolute',
    'numpy.bitwise_not': 'numpy.invert', 'numpy.radians': 'numpy.deg2rad',
    'numpy.degrees': 'numpy.rad2deg', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.conjugate': 'numpy.conj', 'numpy.remainder': 'numpy.mod', 'numpy.divide': 'numpy.true_divide',
    'numpy.atan2': 'numpy.arctan2', 'numpy.pow': 'numpy.power', 'numpy.concat': 'numpy.concatenate',
    'numpy.permute_dims': 'numpy.transpose', 'numpy.alltrue': 'numpy.all',
    'scipy.fftpack.fft': 'numpy.fft.fft', 'scipy.fft.fft': 'numpy.fft.fft', 'scipy.fft.ifft': 'numpy.fft.ifft',
    'scipy.fft.fftfreq': 'numpy.fft.fftfreq', 'numpy.acos': 'numpy.arccos',
    'scipy.fft.rfft': 'numpy.fft.rfft', 'scipy.fft.irfft': 'numpy.fft.irfft', 'scipy.fft.rfftfreq': 'numpy.fft.rfftfreq',
    'pandas.core.frame.DataFrame': 'pandas.DataFrame', 'math.fabs': 'numpy.absolute',
    'math.sqrt': 'numpy.sqrt', 'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos', 'math.tan': 'numpy.tan',
    'math.atan2': 'numpy.arctan2', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log', 'math.hypot': 'numpy.hypot',
    'math.radians': 'numpy.deg2rad', 'math.degrees': 'numpy.rad2deg', 'math.isnan': 'numpy.isnan',
    'math.floor': 'numpy.floor', 'math.ceil': 'numpy.ceil', 'math.pow': 'numpy.power', 'math.trunc': 'numpy.trunc',
    'math.fmod': 'numpy.fmod', 'math.isfinite': 'numpy.isfinite', 'math.isinf': 'numpy.isinf',
    'pandas.core.series.Series': 'pandas.Series', 'numpy.asanyarray': 'numpy.asarray',
    'numpy.row_stack': 'numpy.vstack',
    'pandas.isnull': 'pandas.isna', 'pandas.notnull': 'pandas.notna',
    'scipy.signal.spectral.welch': 'scipy.signal.welch', 'matplotlib.pyplot': 'matplotlib.pyplot',
    'numpy.ma.masked': 'numpy.ma.masked',
}

CONSTS = {
    'numpy.pi': lambda: P(T.PI), 'math.pi': lambda: P(T.PI), 'scipy.pi': lambda: P(T.PI),
    'numpy.inf': lambda: P(T.INF), 'math.inf': lambda: P(T.INF), 'numpy.Inf': lambda: P(T.INF),
    'numpy.nan': lambda: P(T.NAN), 'math.nan': lambda: P(T.NAN), 'numpy.NaN': lambda: P(T.NAN),
    'pandas.NA': lambda: P(T.NAN), 'pandas.NaT': lambda: P(T.NAN),
    'numpy.newaxis': lambda: leaf(None), 'math.tau': lambda: T.s_mul(num(2), P(T.PI)),
    'numpy.e': lambda: app('exp', num(1)), 'math.e': lambda: app('exp', num(1)),
}

EXTERNAL_MODS = set()


def reg(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


def arrm(*names):
    def d(f):
        for n in names:
            ARRM[n] = f
        return f
    return d


# =============================================================== names
PYBUILTINS = ('len range zip enumerate list tuple dict set frozenset str int float bool complex abs sum max min any all '
              'sorted reversed map filter isinstance issubclass hasattr getattr setattr type print round '
              'callable iter next repr id vars locals globals input open super object divmod pow slice '
              'bytes bytearray chr ord format hash dir exec eval delattr staticmethod classmethod property __import__').split()
EXCS = ('Exception BaseException ValueError TypeError KeyError IndexError AttributeError RuntimeError '
        'NotImplementedError AssertionError OSError IOError FileExistsError FileNotFoundError UserWarning '
        'DeprecationWarning RuntimeWarning Warning FutureWarning ZeroDivisionError ArithmeticError LookupError '
        'StopIteration ImportError ModuleNotFoundError NameError SyntaxWarning OverflowError PermissionError').split()


def builtin_name(I, name):
    if name in PYBUILTINS or name in EXCS:
        return Builtin('builtins.' + name)
    if name == 'NotImplemented':
        return leaf('NotImplemented')
    if name == 'Ellipsis':
        return EllipsisV()
    return None


def ext_attr(I, base, name):
    full = base + '.' + name
    full = ALIAS.get(full, full)
    if full in CONSTS:
        return CONSTS[full]()
    return Builtin(full)


# =============================================================== helpers
def cint(v):
    """concrete int of S or None"""
    try:
        c = T.s_const(v)
    except (KeyError, AttributeError):
        return None
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, F) and c.denominator == 1:
        return int(c)
    return None


def cstr(v):
    try:
        c = T.s_const(v)
    except (KeyError, AttributeError):
        return None
    return c if isinstance(c, str) else None


def cval(v, default=None):
    """python constant of S (Fraction->int/float) or default"""
    try:
        c = T.s_const(v)
    except (KeyError, AttributeError):
        return default
    return c


def isnone(v):
    return isinstance(v, S) and v is T.NONE


def unwrap(I, v):
    from .interp import MaybeUnbound, MaybeV
    if isinstance(v, MaybeUnbound):
        v = v.v
    return v


def is_arr(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.oid), Arr)


def is_lst(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.oid), Lst)


def is_dct(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.oid), Dct)


def is_obj(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.oid), Obj)


def opq_av(I, reason, axes, *args):
    I.undecide(reason)
    return T.opaque(reason, *args, *[P(atom_poly(a.var)) for a in axes])


def to_av(I, v, depth=0):
    """array-like -> AV (or None)"""
    from .interp import MaybeV
    v = unwrap(I, v)
    if isinstance(v, S):
        return AV((), v, 'nd')
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Arr):
            return r.av
        if isinstance(r, Lst):
            return parts_av(I, r.parts, depth)
        if isinstance(r, Obj) and r.cls == 'opaque':
            return AV((), T.opaque('obj', num(v.oid)))
        return None
    if isinstance(v, Tup):
        return parts_av(I, [('one', x) for x in v.items], depth)
    if isinstance(v, Seq):
        return parts_av(I, [('map', v.iv, v.n, v.elem, v.guard)], depth)
    if isinstance(v, MaybeV):
        a, b = to_av(I, v.a), to_av(I, v.b)
        if a is not None and b is not None:
            if a.ndim == b.ndim:
                return I.merge_av(v.c, a, b)
        I.undecide('join of different structures')
        return AV((), T.opaque('maybe', I.term(v)))
    return None


def select(var, bodies):
    """ite chain over position constant"""
    r = bodies[-1]
    for k in range(len(bodies) - 2, -1, -1):
        r = ite(T.s_eq(P(atom_poly(var)), num(k)), bodies[k], r)
    return r


def parts_av(I, parts, depth=0):
    parts = list(parts)
    if not parts:
        return AV((Ax(ivar(), num(0)),), num(0))
    if all(p[0] == 'one' for p in parts):
        avs = [to_av(I, p[1], depth + 1) for p in parts]
        if any(a is None for a in avs):
            return None
        nd = avs[0].ndim
        if any(a.ndim != nd for a in avs):
            I.undecide('ragged array')
            return None
        opened = [a.opened() for a in avs]
        ax0, b0 = opened[0]
        bodies = [b0]
        for ax, b in opened[1:]:
            m = {}
            for x, y in zip(ax, ax0):
                m[x.var] = P(atom_poly(y.var))
                if not T.same(x.n, y.n):
                    I.event('shape', a=x.n, b=y.n)
            bodies.append(T.subst(b, m))
        v = ivar()
        for x in ax0:
            x.lab = None
        return AV([Ax(v, num(len(parts)))] + [Ax(x.var, x.n) for x in ax0], select(v, bodies))
    if len(parts) == 1 and parts[0][0] == 'map':
        _, iv, n, v, g = parts[0]
        inner = to_av(I, v, depth + 1)
        if inner is None:
            return None
        axes, body = inner.opened()
        nv = ivar()
        if g is T.TRUE:
            m = {iv: P(atom_poly(nv))}
            return AV([Ax(nv, n)] + [Ax(a.var, T.subst(a.n, m)) for a in axes], T.subst(body, m))
        L = T.lam([iv], [n], g)
        cnt = FX.s_sum([iv], [n], g)
        m = {iv: app('nth', L, num(0), P(atom_poly(nv)))}
        return AV([Ax(nv, cnt, None, L)] + [Ax(a.var, T.subst(a.n, m)) for a in axes], T.subst(body, m))
    # mixed: concatenate pieces
    avs = []
    for p in parts:
        if p[0] == 'one':
            a = to_av(I, p[1], depth + 1)
            if a is None:
                return None
            avs.append(AV([Ax(ivar(), num(1))] + list(a.axes), a.body))
        elif p[0] == 'map':
            a = parts_av(I, [p], depth)
            if a is None:
                return None
            avs.append(a)
        else:
            I.undecide('list of unmodelled structure')
            return None
    return concat_avs(I, avs, 0)


def concat_avs(I, avs, axis):
    if len(avs) == 1:
        return avs[0]
    nd = avs[0].ndim
    if any(a.ndim != nd for a in avs):
        I.undecide('concatenate of different ranks')
        return None
    if axis < 0:
        axis += nd
    opened = [a.opened() for a in avs]
    ax0, _ = opened[0]
    v = ivar()
    pieces = []
    off = num(0)
    labs = []
    for (ax, b) in opened:
        m = {}
        for k, (x, y) in enumerate(zip(ax, ax0)):
            if k == axis:
                m[x.var] = T.s_sub(P(atom_poly(v)), off)
            else:
                m[x.var] = P(atom_poly(y.var))
                if not T.same(x.n, y.n):
                    I.event('shape', a=x.n, b=y.n)
        end = T.s_add(off, ax[axis].n)
        pieces.append((end, T.subst(b, m), None if ax[axis].lab is None else T.subst(ax[axis].lab, m)))
        off = end
    body = pieces[-1][1]
    lab = pieces[-1][2]
    for end, b, l in reversed(pieces[:-1]):
        g = T.s_lt(P(atom_poly(v)), end)
        body = ite(g, b, body)
        if lab is not None and l is not None:
            lab = ite(g, l, lab)
        else:
            lab = None
    axes = [Ax(v, off, lab) if k == axis else Ax(x.var, x.n, x.lab) for k, x in enumerate(ax0)]
    return AV(axes, body, avs[0].kind, avs[0].dtype)


def instantiate(I, v, m):
    """substitute index atoms inside a value (deep)"""
    from .interp import MaybeUnbound, MaybeV
    if isinstance(v, S):
        return T.subst(v, m)
    if isinstance(v, Tup):
        items = [instantiate(I, x, m) for x in v.items]
        if all(a is b for a, b in zip(items, v.items)):
            return v
        return Tup(items)
    if isinstance(v, Ref):
        r = I.heap.get(v.oid)
        if isinstance(r, Arr):
            if any(k in x.free for k in m for x in [r.av.body] + [a.n for a in r.av.axes] + [a.lab for a in r.av.axes if a.lab is not None]):
                axes, body = r.av.opened()
                axes = [Ax(a.var, T.subst(a.n, m), None if a.lab is None else T.subst(a.lab, m), a.comp, a.lname) for a in axes]
                nm = r.av.name
                if isinstance(nm, S):
                    nm = T.subst(nm, m)
                return I.alloc(Arr(AV(axes, T.subst(body, m), r.av.kind, r.av.dtype, nm), r.roots, r.base))
            return v
        if isinstance(r, Lst):
            parts = [inst_part(I, p, m) for p in r.parts]
            if all(a == b for a, b in zip(parts, r.parts)):
                return v
            return I.alloc(Lst(parts, r.roots))
        if isinstance(r, Dct):
            parts = [inst_part(I, p, m) for p in r.parts]
            if all(a == b for a, b in zip(parts, r.parts)):
                return v
            return I.alloc(Dct(parts, r.roots))
        if isinstance(r, Obj):
            at = {k: instantiate(I, x, m) for k, x in r.attrs.items()}
            if all(at[k] is r.attrs[k] for k in at):
                return v
            return I.alloc(Obj(r.cls, at, r.roots))
        return v
    if isinstance(v, MaybeUnbound):
        return MaybeUnbound(instantiate(I, v.v, m), T.subst(v.cond, m))
    if isinstance(v, MaybeV):
        c = T.subst(v.c, m)
        if c is T.TRUE:
            return instantiate(I, v.a, m)
        if c is T.FALSE:
            return instantiate(I, v.b, m)
        return MaybeV(c, instantiate(I, v.a, m), instantiate(I, v.b, m))
    if isinstance(v, Seq):
        return Seq(v.iv, T.subst(v.n, m), instantiate(I, v.elem, m), T.subst(v.guard, m))
    return v


def inst_part(I, p, m):
    out = [p[0]]
    for x in p[1:]:
        if isinstance(x, (S, Tup, Ref)):
            out.append(instantiate(I, x, m))
        elif isinstance(x, T.Atom):
            out.append(x)
        elif isinstance(x, tuple) and x and isinstance(x[0], tuple):
            out.append(tuple(inst_part(I, q, m) for q in x))
        elif isinstance(x, tuple):
            out.append(T._subst_arg(x, m, {}))
        else:
            out.append(instantiate(I, x, m))
    return tuple(out)


# =============================================================== iteration
def iterate(I, v, node):
    from .interp import MaybeV
    v = unwrap(I, v)
    if isinstance(v, Tup):
        return list(v.items), None
    if isinstance(v, Seq):
        n = cint(v.n)
        if n is not None and n <= 64 and v.guard is T.TRUE:
            return [instantiate(I, v.elem, {v.iv: num(k)}) for k in range(n)], None
        return None, fresh_seq(I, v)
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Lst):
            if all(p[0] == 'one' for p in r.parts):
                return [p[1] for p in r.parts], None
            if len(r.parts) == 1 and r.parts[0][0] == 'map':
                _, iv, n, e, g = r.parts[0]
                c = cint(n)
                if c is not None and c <= 64 and g is T.TRUE:
                    return [instantiate(I, e, {iv: num(k)}) for k in range(c)], None
                if g is T.TRUE:
                    return None, fresh_seq(I, Seq(iv, n, e))
                L = T.lam([iv], [n], g)
                nv = ivar()
                return None, Seq(nv, FX.s_sum([iv], [n], g), instantiate(I, e, {iv: app('nth', L, num(0), P(atom_poly(nv)))}))
            av = to_av(I, v)
            if av is not None:
                return iterate(I, I.arr(av), node)
            I.undecide('iteration over unmodelled list', node)
            iv = ivar()
            return None, Seq(iv, T.opaque('len', I.term(v)), T.opaque('iter', I.term(v), P(atom_poly(iv))))
        if isinstance(r, Dct):
            if all(p[0] == 'kv' for p in r.parts):
                return [unkey(I, p[1]) for p in r.parts], None
            if len(r.parts) == 1 and r.parts[0][0] == 'dmap':
                _, iv, n, k, val, g = r.parts[0]
                return iterate(I, I.alloc(Lst([('map', iv, n, unkey(I, k), g)])), node)
            I.undecide('iteration over dict', node)
            iv = ivar()
            return None, Seq(iv, T.opaque('len', I.term(v)), T.opaque('iter', I.term(v), P(atom_poly(iv))))
        if isinstance(r, Arr):
            av = r.av
            if av.kind == 'frame':
                ax = av.axes[1]
                n = cint(ax.n)
                if n is not None and n <= 64:
                    return [T.subst(ax.lab, {ax.var: num(k)}) if ax.lab is not None else num(k) for k in range(n)], None
                f, m = ax.fresh()
                return None, Seq(f.var, f.n, f.lab if f.lab is not None else P(atom_poly(f.var)))
            n = cint(av.axes[0].n)
            if n is not None and n <= 64:
                return [index_first(I, v, num(k)) for k in range(n)], None
            iv = ivar()
            return None, Seq(iv, av.axes[0].n, index_first(I, v, P(atom_poly(iv))))
        if isinstance(r, Obj):
            it = r.attrs.get('$iter')
            if it is not None:
                return iterate(I, it, node)
    if isinstance(v, S):
        c = cstr(v)
        if c is not None:
            return [leaf(x) for x in c], None
        if not v.unmod and v.kind == 'L' and isinstance(v.val, T.Poly):
            a = T.single_atom(v.val)
            if a is not None and a.op == 'sym' and a.real and not a.unmod:
                I.raise_('TypeError', node)
        iv = ivar()
        I.undecide('iteration over unmodelled value', node)
        return None, Seq(iv, T.opaque('len', v, nonneg=True) if False else T.opaque('len', v), T.opaque('iter', v, P(atom_poly(iv))))
    if isinstance(v, MaybeV):
        I.undecide('iteration over joined structures', node)
    iv = ivar()
    I.undecide('iteration over ' + type(v).__name__, node)
    return None, Seq(iv, T.opaque('len', I.term(v)), T.opaque('iter', I.term(v), P(atom_poly(iv))))


def fresh_seq(I, q):
    nv = ivar()
    m = {q.iv: P(atom_poly(nv))}
    if q.guard is not T.TRUE:
        L = T.lam([q.iv], [q.n], q.guard)
        m = {q.iv: app('nth', L, num(0), P(atom_poly(nv)))}
        return Seq(nv, FX.s_sum([q.iv], [q.n], q.guard), instantiate(I, q.elem, m))
    return Seq(nv, q.n, instantiate(I, q.elem, m))


def index_first(I, ref, k):
    """ref[k] along first axis, positional"""
    r = I.rec(ref)
    av = r.av
    ax = av.axes[0]
    rest = av.axes[1:]
    m = {ax.var: k}
    if not rest:
        return T.subst(av.body, m)
    n = AV([Ax(a.var, T.subst(a.n, m), a.lab, a.comp) for a in rest], T.subst(av.body, m), 'nd', av.dtype)
    axes, body = n.opened()
    return I.alloc(Arr(AV(axes, body, 'nd', av.dtype), r.roots, ref.oid, {'place': (cint(k),)}))


def concrete_items(I, v, n):
    from .interp import MaybeV
    v = unwrap(I, v)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, MaybeV):
        a = concrete_items(I, v.a, n)
        b = concrete_items(I, v.b, n)
        if a is not None and b is not None and len(a) == len(b):
            return [I.merge_val(v.c, x, y) for x, y in zip(a, b)]
        return None
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Lst):
            if all(p[0] == 'one' for p in r.parts):
                return [p[1] for p in r.parts]
            if len(r.parts) == 1 and r.parts[0][0] == 'map' and r.parts[0][4] is T.TRUE:
                c = cint(r.parts[0][2])
                if c is None and n is not None:
                    c = n
                if c is not None and c <= 64:
                    return [instantiate(I, r.parts[0][3], {r.parts[0][1]: num(k)}) for k in range(c)]
            return None
        if isinstance(r, Arr):
            if r.av.kind == 'frame':
                items, _ = iterate(I, v, None)
                return items
            c = cint(r.av.axes[0].n)
            if c is None:
                c = n
            if c is not None and c <= 64:
                return [index_first(I, v, num(k)) for k in range(c)]
            return None
        if isinstance(r, Dct) and all(p[0] == 'kv' for p in r.parts):
            return [unkey(I, p[1]) for p in r.parts]
        if isinstance(r, Obj) and '$items' in r.attrs:
            return list(r.attrs['$items'].items)
    if isinstance(v, Seq):
        c = cint(v.n)
        if c is None and n is not None:
            c = n
        if c is not None and c <= 64:
            return [instantiate(I, v.elem, {v.iv: num(k)}) for k in range(c)]
    if isinstance(v, S):
        c = cstr(v)
        if c is not None:
            return [leaf(x) for x in c]
    return None


def list_parts(I, v):
    v = unwrap(I, v)
    if isinstance(v, Tup):
        return [('one', x) for x in v.items]
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Lst):
            return list(r.parts)
    items, seq = iterate(I, v, None)
    if items is not None:
        return [('one', x) for x in items]
    return [('map', seq.iv, seq.n, seq.elem, seq.guard)]


def keyterm(I, k):
    t = I.term(k)
    return t


def unkey(I, t):
    if isinstance(t, S):
        return t
    if isinstance(t, tuple) and t and t[0] == 'tup':
        return Tup([unkey(I, x) for x in t[1:]])
    return T.opaque('key', t)


def dict_put(parts, k, v):
    parts = list(parts)
    for i, p in enumerate(parts):
        if p[0] == 'kv' and p[1] == k and all(q[0] == 'kv' for q in parts[i:]):
            parts[i] = ('kv', k, v)
            return parts
    parts.append(('kv', k, v))
    return parts


def dict_put_part(parts, p):
    if p[0] == 'kv':
        return dict_put(parts, p[1], p[2])
    return list(parts) + [p]


def key_eq(I, a, b):
    if a == b or a is b:
        return T.TRUE
    if isinstance(a, S) and isinstance(b, S):
        return T.s_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = T.TRUE
        for x, y in zip(a, b):
            if isinstance(x, (S, tuple)) and isinstance(y, (S, tuple)):
                r = land(r, key_eq(I, x, y))
            elif x != y:
                return T.FALSE
        return r
    return T.FALSE


def solve_index(key, iv, target):
    """find S e with key[iv:=e] == target (structural), else None"""
    if isinstance(key, tuple) or isinstance(target, tuple):
        if not (isinstance(key, tuple) and isinstance(target, tuple) and len(key) == len(target)):
            return None
        for x, y in zip(key, target):
            if isinstance(x, S) and iv in x.free:
                e = solve_index(x, iv, y)
                if e is not None:
                    return e
        return None
    if not isinstance(key, S) or not isinstance(target, S):
        return None
    if key.kind == 'L' and isinstance(key.val, T.Poly) and target.kind == 'L' and isinstance(target.val, T.Poly):
        # affine in iv with coefficient +-1
        d = T.sub(key.val, atom_poly(iv))
        if iv not in d.free:
            return T.s_sub(target, P(d))
        a = T.single_atom(key.val)
        b = T.single_atom(target.val)
        if a is not None and a.op == 'lab' and a.args[1] is not None:
            p = a.args[1]
            d = T.sub(p, atom_poly(iv))
            if iv not in d.free:
                return T.s_sub(app('pos', a.args[0], target, deps=tuple(a.deps)), P(d))
    cands = set()
    for at in T.walk_atoms(target):
        if at.op in ('ivar', 'bound', 'nth', 'pos'):
            cands.add(at)
    for at in sorted(cands, key=lambda x: x.id):
        e = P(atom_poly(at))
        if T.subst(key, {iv: e}) is target:
            return e
    return None


def dict_get(I, ref, k, node, default=None):
    """returns (value or None, present-condition)"""
    r = I.rec(ref)
    return _dict_get_parts(I, r.parts, k, node)


def _dict_get_parts(I, parts, k, node):
    val, pres = None, T.FALSE
    for p in parts:
        if p[0] == 'kv':
            c = key_eq(I, p[1], k)
            v = p[2]
        elif p[0] == 'dmap':
            _, iv, n, kk, vv, g = p
            e = solve_index(kk, iv, k)
            if e is None:
                I.undecide('symbolic dict lookup', node)
                c = T.TRUE
                v = T.opaque('dget', I.part_term(p, 0) if False else I.term(I.alloc(Dct([p]))), k)
            else:
                c = T.subst(g, {iv: e})
                v = instantiate(I, vv, {iv: e})
        elif p[0] == 'if':
            v, c = _dict_get_parts(I, p[2], k, node)
            c = land(p[1], c)
            if v is None:
                continue
        elif p[0] == 'carry':
            c = T.TRUE
            v = app('carry', p[1], k if isinstance(k, S) else app('struct', k))
        else:
            c = T.TRUE
            v = T.opaque('dget', p[1] if len(p) > 1 else num(0), k)
        if c is T.FALSE:
            continue
        val = v if val is None else I.merge_val(c, v, val)
        pres = lor(c, pres)
    return val, pres


# =============================================================== truth / compare
def truth(I, v):
    from .interp import MaybeV
    v = unwrap(I, v)
    if isinstance(v, S):
        return T.truth(v) if v.cls != 'bool' else v
    if isinstance(v, Tup):
        return leaf(len(v.items) > 0)
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Arr):
            if r.av.kind in ('frame', 'series', 'index'):
                I.raise_('ValueError')
            if all(cint(a.n) == 1 for a in r.av.axes):
                return T.truth(T.subst(r.av.body, {a.var: num(0) for a in r.av.axes}))
            # ambiguous truth value of an array with more than one element
            I.raise_('ValueError')
        if isinstance(r, Lst):
            if not r.parts:
                return T.FALSE
            if any(p[0] == 'one' for p in r.parts):
                return T.TRUE
            return T.s_lt(num(0), length(I, v))
        if isinstance(r, Dct):
            return leaf(len(r.parts) > 0) if all(p[0] == 'kv' for p in r.parts) else T.as_bool(T.opaque('truth', I.term(v)))
        return T.TRUE
    if isinstance(v, MaybeV):
        return ite(v.c, truth(I, v.a), truth(I, v.b))
    if isinstance(v, Seq):
        return T.s_lt(num(0), v.n)
    return T.TRUE


def type_name(I, v):
    """python type of abstract value"""
    v = unwrap(I, v)
    if isinstance(v, Tup):
        return 'tuple'
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Arr):
            k = r.av.kind
            if k == 'nd':
                return 'numpy.ndarray'
            if k == 'series':
                return 'pandas.Series'
            if k == 'frame':
                return 'pandas.DataFrame'
            if k == 'index':
                return 'pandas.DatetimeIndex' if r.av.dtype == 'datetime' else 'pandas.Index'
        if isinstance(r, Lst):
            return 'list'
        if isinstance(r, Dct):
            return 'dict'
        if isinstance(r, Obj):
            return r.cls if isinstance(r.cls, str) else r.cls.name
    if isinstance(v, S):
        if v.kind == 'L':
            x = v.val
            if isinstance(x, T.Poly):
                a = T.single_atom(x)
                if a is not None and (a.unmod):
                    return None
                return 'int' if T._intpoly(x) else 'float'
            if isinstance(x, bool):
                return 'bool'
            if isinstance(x, str):
                return 'str'
            if x is None:
                return 'NoneType'
            if isinstance(x, T.SymC):
                return 'str'
            if isinstance(x, Enumv):
                return x.cls
        else:
            ts = {type_name(I, v.hi), type_name(I, v.lo)}
            if len(ts) == 1:
                return ts.pop()
            if ts <= {'int', 'float'}:
                return 'float'
        return None
    if isinstance(v, (Fn, Meth, Builtin, Partial)):
        return 'function'
    if isinstance(v, Seq):
        return 'range'
    return None


NUMERIC = {'int', 'float', 'builtins.int', 'builtins.float'}


def isinstance_(I, v, t):
    """True/False/None"""
    from .interp import MaybeV
    if isinstance(v, MaybeV):
        a, b = isinstance_(I, v.a, t), isinstance_(I, v.b, t)
        return a if a == b else None
    if isinstance(t, Tup):
        rs = [isinstance_(I, v, x) for x in t.items]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    tn = t.name if isinstance(t, (Builtin, Type)) else (t.name if isinstance(t, Cls) else None)
    if tn is None:
        return None
    tn = tn.replace('builtins.', '')
    n = type_name(I, v)
    if n is None:
        return None
    if isinstance(t, Cls):
        if is_obj(I, v):
            c = I.rec(v).cls
            while isinstance(c, Cls):
                if c.name == t.name:
                    return True
                c = next((b for b in c.bases if isinstance(b, Cls)), None)
        return n == t.name
    if tn == n or tn == 'object':
        return True
    if n in ('int', 'float'):
        if tn in ('numbers.Number', 'numbers.Real', 'numpy.number', 'numpy.generic'):
            return True
        if tn in ('float', 'int'):
            # generic numeric parameter is treated as a float; integer terms may be either
            return tn == n if n == 'float' else None if tn == 'float' else True
        if tn in ('numpy.floating', 'numpy.float64', 'numpy.integer', 'numpy.int64', 'numbers.Integral'):
            return None if tn != 'numbers.Integral' else (n == 'int')
    if n == 'bool' and tn in ('int', 'numbers.Number', 'numbers.Integral', 'numpy.bool_'):
        return tn != 'numpy.bool_'
    if tn == 'pandas.Index' and n == 'pandas.DatetimeIndex':
        return True
    if tn in ('collections.abc.Sequence', 'typing.Sequence', 'collections.abc.Collection') and n in ('list', 'tuple', 'str', 'range'):
        return True
    if tn in ('collections.abc.Iterable', 'collections.abc.Sized') and n in ('list', 'tuple', 'str', 'numpy.ndarray', 'pandas.Series', 'pandas.DataFrame', 'pandas.Index', 'pandas.DatetimeIndex', 'dict', 'range'):
        return True
    if tn in ('collections.abc.Mapping', 'collections.abc.MutableMapping') and n == 'dict':
        return True
    if tn in ('pandas.core.generic.NDFrame',) and n in ('pandas.Series', 'pandas.DataFrame'):
        return True
    if tn in KNOWN_TYPES:
        return False
    return None


KNOWN_TYPES = {'int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'bool', 'complex', 'bytes', 'numpy.ndarray', 'pandas.Series',
               'pandas.DataFrame', 'pandas.Index', 'pandas.DatetimeIndex', 'range', 'frozenset',
               'numbers.Number', 'numbers.Real', 'collections.abc.Sequence', 'collections.abc.Iterable', 'pandas.MultiIndex',
               'collections.abc.Mapping', 'pandas.core.generic.NDFrame', 'datetime.datetime', 'datetime.date', 'pandas.Timestamp',
               'pandas.Timedelta', 'numpy.generic', 'numpy.number', 'collections.abc.Sized', 'numpy.bool_', 'collections.abc.Collection',
               'numpy.floating', 'numpy.integer', 'numbers.Integral', 'collections.abc.Callable', 'numpy.str_', 'datetime.timedelta'}

CMP = {'Eq': T.s_eq, 'NotEq': T.s_ne, 'Lt': T.s_lt, 'LtE': T.s_le, 'Gt': T.s_gt, 'GtE': T.s_ge}


def compare(I, op, a, b, node):
    from .interp import MaybeV
    a, b = unwrap(I, a), unwrap(I, b)
    if op in ('Is', 'IsNot'):
        r = is_(I, a, b)
        return r if op == 'Is' else lnot(r)
    if op in ('In', 'NotIn'):
        r = contains(I, b, a, node)
        return r if op == 'In' else lnot(r)
    if isinstance(a, (Type, Builtin, Cls, Fn)) or isinstance(b, (Type, Builtin, Cls, Fn)):
        if isinstance(a, (Type, Builtin)) and isinstance(b, (Type, Builtin)):
            eq = a == b or b == a
        else:
            eq = a is b
        return leaf(eq if op == 'Eq' else not eq)
    if isinstance(a, MaybeV) or isinstance(b, MaybeV):
        m = a if isinstance(a, MaybeV) else b
        x = compare(I, op, m.a if m is a else a, m.a if m is b else b, node)
        y = compare(I, op, m.b if m is a else a, m.b if m is b else b, node)
        return I.merge_val(m.c, x, y)
    if isinstance(a, S) and isinstance(b, S):
        return CMP[op](a, b)
    if (isinstance(a, Tup) or is_lst(I, a)) and (isinstance(b, Tup) or is_lst(I, b)):
        x, y = concrete_items(I, a, None), concrete_items(I, b, None)
        if op in ('Eq', 'NotEq') and x is not None and y is not None:
            if len(x) != len(y) or isinstance(a, Tup) != isinstance(b, Tup):
                r = T.FALSE
            else:
                r = T.TRUE
                for p, q in zip(x, y):
                    r = land(r, truth(I, compare(I, 'Eq', p, q, node)))
            return r if op == 'Eq' else lnot(r)
    if not is_arr(I, a) and not is_arr(I, b):
        if op in ('Eq', 'NotEq'):
            ta, tb = I.term(a), I.term(b)
            if ta == tb:
                return leaf(op == 'Eq')
            na, nb = type_name(I, a), type_name(I, b)
            if na and nb and na != nb and not ({na, nb} <= {'int', 'float'}):
                return leaf(op != 'Eq')
        I.undecide('comparison of structures', node)
        return T.as_bool(T.opaque('cmp' + op, I.term(a), I.term(b)))
    return elementwise(I, lambda x, y: CMP[op](x, y), [a, b], node, dtype='bool')


def is_(I, a, b):
    from .interp import MaybeV
    if isinstance(a, MaybeV) or isinstance(b, MaybeV):
        m = a if isinstance(a, MaybeV) else b
        x = is_(I, m.a if m is a else a, m.a if m is b else b)
        y = is_(I, m.b if m is a else a, m.b if m is b else b)
        return ite(m.c, x, y)
    if isinstance(a, S) and isinstance(b, S):
        return T.s_eq(a, b)
    if isinstance(a, (Type, Builtin)) and isinstance(b, (Type, Builtin)):
        return leaf(a == b or b == a)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return leaf(a.oid == b.oid)
    if isnone(a) or isnone(b):
        return T.FALSE
    return leaf(a is b)


def contains(I, c, x, node):
    c = unwrap(I, c)
    if is_dct(I, c):
        v, pres = dict_get(I, c, keyterm(I, x), node)
        return pres
    if isinstance(c, S):
        a, b = cstr(c), cstr(x) if isinstance(x, S) else None
        if a is not None and b is not None:
            return leaf(b in a)
        return T.as_bool(app('contains', c, I.term(x), isbool=True))
    if is_arr(I, c) and I.rec(c).av.kind in ('frame', 'series'):
        av = I.rec(c).av
        ax = av.axes[1] if av.kind == 'frame' else av.axes[0]
        n = cint(ax.n)
        if n is not None and ax.lab is not None and isinstance(x, S):
            return lor(*[T.s_eq(T.subst(ax.lab, {ax.var: num(k)}), x) for k in range(n)])
        if isinstance(x, S):
            # label membership in a symbolic label set
            return T.as_bool(app('haslabel', T.lam([ax.var], [ax.n], ax.lab if ax.lab is not None else P(atom_poly(ax.var))), x, isbool=True))
    items = concrete_items(I, c, None)
    if items is not None:
        r = T.FALSE
        for y in items:
            r = lor(r, truth(I, compare(I, 'Eq', x, y, node)))
        return r
    items, seq = iterate(I, c, node)
    if seq is not None and isinstance(seq.elem, S) and isinstance(x, S):
        return FX.s_any([seq.iv], [seq.n], T.s_eq(seq.elem, x))
    I.undecide('membership test', node)
    return T.as_bool(T.opaque('in', I.term(x), I.term(c)))


# =============================================================== broadcasting
def lab_of(ax, v):
    if ax.lab is None:
        return None
    return T.subst(ax.lab, {ax.var: P(atom_poly(v))})


def find_pos(I, ax, key, node=None, miss='raise'):
    """position of label `key` on axis"""
    if ax.lab is None:
        return key
    n = cint(ax.n)
    if n is not None and n <= 64:
        conds = []
        for k in range(n):
            c = T.s_eq(T.subst(ax.lab, {ax.var: num(k)}), key)
            if c is T.TRUE:
                return num(k)
            conds.append(c)
        if all(c is T.FALSE for c in conds):
            if miss == 'raise':
                I.raise_('KeyError', node)
            return None
        pos = num(n - 1)
        live = [(k, c) for k, c in enumerate(conds) if c is not T.FALSE]
        pos = num(live[-1][0])
        for k, c in reversed(live[:-1]):
            pos = ite(c, num(k), pos)
        return pos
    if ax.lab.kind == 'L' and isinstance(ax.lab.val, T.Poly):
        a = T.single_atom(ax.lab.val)
        if a is not None and a.op == 'lab' and a.args[1] is atom_poly(ax.var):
            return app('pos', a.args[0], key, deps=tuple(a.deps))
    L = T.lam([ax.var], [ax.n], ax.lab)
    e = solve_index(ax.lab, ax.var, key)
    if e is not None:
        return e
    return app('posof', L, key, isint=True, nonneg=True)


def broadcast(I, avs, node=None, align=True):
    """-> axes, bodies (list), kind"""
    kinds = [a.kind for a in avs]
    nd = max(a.ndim for a in avs)
    opened = [a.opened() for a in avs]
    new_axes = []
    maps = [dict() for _ in avs]
    # pandas series (op) nd arrays are positional
    pos_axes = []
    for k in range(nd):        # from the right
        cand = []
        for ai, (axs, b) in enumerate(opened):
            j = len(axs) - 1 - k
            if j >= 0:
                cand.append((ai, axs[j]))
        v = ivar()
        vp = P(atom_poly(v))
        chosen = None
        labref = None
        comp = None
        for ai, ax in cand:
            if cint(ax.n) == 1 and any(cint(y.n) != 1 for _, y in cand):
                maps[ai][ax.var] = num(0)
                continue
            if chosen is None:
                chosen = ax.n
                comp = ax.comp
            elif not T.same(chosen, ax.n):
                c1, c2 = cint(chosen), cint(ax.n)
                ispd = kinds[ai] in ('series', 'frame') and labref is not None and ax.lab is not None
                if not ispd:
                    I.event('shape', node, a=chosen, b=ax.n)
                    if c1 is not None and c2 is not None:
                        I.raise_('ValueError', node)
            if ax.lab is not None and kinds[ai] in ('series', 'frame'):
                l = T.subst(ax.lab, {ax.var: vp})
                if labref is None:
                    labref = l
                    maps[ai][ax.var] = vp
                elif T.same(l, labref):
                    maps[ai][ax.var] = vp
                else:
                    I.event('align', node, a=labref, b=l)
                    if kinds[ai] == 'frame' and False:
                        pass
                    p = find_pos(I, ax, labref, node, miss='nan')
                    maps[ai][ax.var] = p if p is not None else num(0)
                    if p is None:
                        maps[ai]['nan'] = True
            else:
                maps[ai][ax.var] = vp
        if chosen is None:
            chosen = num(1)
        lname = None
        new_axes.append(Ax(v, chosen, labref, comp, lname))
    new_axes.reverse()
    bodies = []
    for (axs, b), m in zip(opened, maps):
        isn = m.pop('nan', False)
        b2 = T.subst(b, m)
        bodies.append(P(T.NAN) if isn else b2)
    if 'frame' in kinds:
        kind = 'frame'
    elif 'series' in kinds:
        kind = 'series' if nd <= 1 else 'nd'
    elif 'index' in kinds and nd == 1:
        kind = 'index'
    else:
        kind = 'nd'
    if kind == 'nd':
        for a in new_axes:
            a.lab = None
    return new_axes, bodies, kind


def elementwise(I, f, vals, node=None, dtype=None):
    avs = []
    for v in vals:
        a = to_av(I, v)
        if a is None:
            I.undecide('operand of unmodelled type', node)
            return T.opaque('ew', *[I.term(x) for x in vals])
        avs.append(a)
    if all(a.ndim == 0 for a in avs):
        return f(*[a.body for a in avs])
    if any(a.ndim == 0 and a.body.unmod and _pure_opaque(a.body) for a in avs):
        # unknown rank operand
        I.undecide('broadcast with unmodelled operand', node)
    axes, bodies, kind = broadcast(I, avs, node)
    body = f(*bodies)
    if dtype == 'bool':
        dt = 'bool'
        if kind == 'index':
            kind = 'nd'
            for a in axes:
                a.lab = None
    else:
        dts = {a.dtype for a in avs if a.ndim}
        dt = dtype
        if 'datetime' in dts or 'timedelta' in dts:
            dt = 'timedelta'
    name = None
    nms = [a.name for a in avs if a.kind == 'series']
    if kind == 'series' and nms and all(n is nms[0] for n in nms):
        name = nms[0]
    return I.alloc(Arr(AV(axes, body, kind, dt, name)))


def _pure_opaque(s):
    if s.kind == 'L' and isinstance(s.val, T.Poly):
        a = T.single_atom(s.val)
        return a is not None and a.op.startswith('?')
    return False


def floordiv(a, b):
    return app('floor', T.s_div(a, b))


def s_mod(a, b):
    return app('mod', a, b)


def bitop(fn):
    def f(a, b):
        if _boolish(a) and _boolish(b):
            x, y = T.as_bool(a), T.as_bool(b)
            return land(x, y) if fn == 'and' else lor(x, y) if fn == 'or' else ite(x, lnot(y), y)
        ca, cb = cint(a), cint(b)
        if ca is not None and cb is not None:
            return num(ca & cb if fn == 'and' else ca | cb if fn == 'or' else ca ^ cb)
        for x, y in ((a, b), (b, a)):
            if x.kind == 'L' and isinstance(x.val, bool) and fn in ('or', 'and') and is_int_body(y) and not y.unmod:
                if not x.val:
                    return y if fn == 'or' else num(0)
                if fn == 'or' and y.kind == 'L' and T.sign(T.as_poly(y.val)) in ('+', '0+'):
                    return app('bitor', x, y, isint=True, pos=True)
        return app('bit' + fn, a, b)
    return f


def _float_body(I, x):
    """certainly holds a non-integer number type"""
    av = to_av(I, x)
    if av is None:
        return False
    b = av.body
    return not b.unmod and not any(a.unmod for a in T.walk_atoms(b)) and any(
        isinstance(v, T.Poly) and not T._intpoly(v) and not _boolish(leaf(v)) for v in T.leaves(b))


def _boolish(s):
    if s.kind == 'L':
        if isinstance(s.val, bool):
            return True
        if isinstance(s.val, T.Poly):
            a = T.single_atom(s.val)
            return a is not None and (a.isbool or a.unmod)
        return False
    return _boolish(s.hi) and _boolish(s.lo)


OPS = {'Add': T.s_add, 'Sub': T.s_sub, 'Mult': T.s_mul, 'Div': T.s_div, 'Pow': T.s_pow,
       'FloorDiv': floordiv, 'Mod': s_mod, 'BitAnd': bitop('and'), 'BitOr': bitop('or'), 'BitXor': bitop('xor')}


def str_concat(I, parts):
    r = None
    out = []
    for p in parts:
        if isinstance(p, S) and p.kind == 'L' and isinstance(p.val, str):
            if out and isinstance(out[-1], str):
                out[-1] += p.val
            else:
                out.append(p.val)
        elif isinstance(p, S):
            a = T.single_atom(p.val) if p.kind == 'L' and isinstance(p.val, T.Poly) else None
            c = cint(p)
            if a is not None and a.op == 'strcat':
                for x in a.args[0][1:]:
                    if isinstance(x, str) and out and isinstance(out[-1], str):
                        out[-1] += x
                    else:
                        out.append(x)
            elif c is not None:
                s = str(c)
                if out and isinstance(out[-1], str):
                    out[-1] += s
                else:
                    out.append(s)
            else:
                out.append(p)
        else:
            out.append(I.term(p))
    out = [x for x in out if x != '']
    if not out:
        return leaf('')
    if len(out) == 1 and isinstance(out[0], str):
        return leaf(out[0])
    return app('strcat', ('s',) + tuple(out))


TIME_UNITS = {'s': 1, 'S': 1, 'sec': 1, 'second': 1, 'seconds': 1, 'ms': F(1, 1000), 'milliseconds': F(1, 1000), 'us': F(1, 10**6), 'microseconds': F(1, 10**6),
              'ns': F(1, 10**9), 'nanoseconds': F(1, 10**9), 'min': 60, 'T': 60, 'minute': 60, 'minutes': 60, 'm': 60, 'h': 3600, 'H': 3600, 'hour': 3600, 'hours': 3600,
              'D': 86400, 'd': 86400, 'day': 86400, 'days': 86400, 'weeks': 604800}


def freq_term(I, v):
    """seconds of a fixed frequency given as a text such as '5s' or as a time span; None when it is neither"""
    import re
    v = unwrap(I, v)
    if not isinstance(v, S) or v.kind != 'L':
        return None
    c = cstr(v)
    if c is not None:
        m = re.fullmatch(r'\s*(\d*)\s*([A-Za-z]+)\s*', c)
        return num(int(m.group(1) or 1) * TIME_UNITS[m.group(2)]) if m and m.group(2) in TIME_UNITS and m.group(2) not in ('m', 'd') else None
    if not isinstance(v.val, T.Poly) or v.unmod:
        return None
    a = T.single_atom(v.val)
    if a is not None and a.op == 'strcat':
        ps = a.args[0][1:]
        if len(ps) == 2 and isinstance(ps[1], str) and ps[1].strip() in TIME_UNITS:
            x = T.single_atom(ps[0].val) if isinstance(ps[0], S) and ps[0].kind == 'L' and isinstance(ps[0].val, T.Poly) else None
            if x is not None and x.op == 'str' and isinstance(x.args[0], (S, T.Poly)):
                y = x.args[0] if isinstance(x.args[0], S) else leaf(x.args[0])
                return T.s_mul(y, num(TIME_UNITS[ps[1].strip()]))
        return None
    return None if is_strish(I, v) else v


STR_OPS = {'strcat', 'str', 'repr', 'format', 'path', 'strformat', 'strjoin', 'str.lower', 'str.upper', 'str.strip', 'str.lstrip', 'str.rstrip',
           'str.title', 'str.capitalize', 'str.replace', 'str.zfill'}


def format_value(I, x, spec='', conv=-1):
    """text of one replacement field of an f-string, str.format or % template"""
    x = unwrap(I, x)
    if isinstance(x, S):
        c = cstr(x)
        if c is not None and conv != 114:
            try:
                return leaf(format(c, spec))
            except ValueError:
                pass
        k = cint(x)
        if k is not None and is_int_body(x):
            try:
                return leaf(format(int(k), spec))
            except ValueError:
                pass
        if spec == 's' and (is_strish(I, x)) or spec == 'd' and is_int_body(x):
            spec = ''
        if spec == '' and conv in (-1, 115):
            return x if is_strish(I, x) else app('str', x)
    t = I.term(x)
    if spec == '' and conv in (-1, 115):
        return app('str', t)
    if spec == '' and conv == 114:
        return app('repr', t)
    return app('format', t, leaf(spec), num(conv))


def format_text(I, tpl, args, kw, node):
    """'...'.format(...) as a concatenation; None when a field is too involved"""
    import string
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(tpl))
    except ValueError:
        I.raise_('ValueError', node)
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(leaf(lit))
        if name is None:
            continue
        if '{' in spec or not (name == '' or name.isdigit() or name.isidentifier()):
            return None
        if name == '' or name.isdigit():
            k = auto if name == '' else int(name)
            auto += name == ''
            if k >= len(args):
                I.raise_('IndexError', node)
            v = args[k]
        else:
            if name not in kw:
                I.raise_('KeyError', node)
            v = kw[name]
        parts.append(format_value(I, v, spec, -1 if conv is None else ord(conv)))
    return str_concat(I, parts)


def percent_text(I, tpl, b, node):
    """'...' % values"""
    import re
    vals = list(b.items) if isinstance(b, Tup) else [b]
    parts, k = [], 0
    for lit, fl, cv in re.findall(r'((?:[^%]|%%)*)(?:%([-+ #0-9.]*)([a-zA-Z]))?', tpl):
        if lit:
            parts.append(leaf(lit.replace('%%', '%')))
        if not cv:
            continue
        if k >= len(vals):
            I.raise_('TypeError', node)
        v = vals[k]
        k += 1
        if fl == '' and cv == 's':
            parts.append(format_value(I, v))
        elif fl == '' and cv in 'di' and isinstance(v, S):
            parts.append(format_value(I, v if is_int_body(v) else app('trunc', v), 'd') if not is_strish(I, v) else app('format', v, leaf('%d'), num(-1)))
        elif re.fullmatch(r'[-+ 0-9.]*', fl) and cv in 'dfeEgG' and isinstance(v, S) and '-' not in fl and not (cv == 'd' and '.' in fl):
            parts.append(format_value(I, v if cv != 'd' or is_int_body(v) else app('trunc', v), fl + cv))
        else:
            return None
    if k < len(vals):
        I.raise_('TypeError', node)
    return str_concat(I, parts)


def is_strish(I, v):
    if isinstance(v, S) and v.kind == 'L':
        if isinstance(v.val, (str, T.SymC)):
            return True
        if isinstance(v.val, T.Poly):
            a = T.single_atom(v.val)
            return a is not None and a.op in STR_OPS
    return False


def _nonint(s):
    """a number that is not known to be a python integer"""
    p = T.as_poly(s.val) if s.kind == 'L' and isinstance(s.val, T.Poly) else None
    if s.kind == 'N':
        return True
    return p is not None and const_of(p) is None and not T._intpoly(p)


def binop(I, op, a, b, node):
    from .interp import MaybeV
    a, b = unwrap(I, a), unwrap(I, b)
    if isinstance(a, MaybeV) or isinstance(b, MaybeV):
        m = a if isinstance(a, MaybeV) else b
        x = binop(I, op, m.a if m is a else a, m.a if m is b else b, node)
        y = binop(I, op, m.b if m is a else a, m.b if m is b else b, node)
        return I.merge_val(m.c, x, y)
    if op == 'MatMult':
        return call_builtin(I, 'numpy.matmul', [a, b], {}, node)
    if isinstance(a, S) and isinstance(b, S):
        if op == 'Add' and (is_strish(I, a) or is_strish(I, b)):
            if isinstance(a.val if a.kind == 'L' else None, bool) or not (is_strish(I, a) and is_strish(I, b)):
                for x in (a, b):
                    if x.kind == 'L' and (x.val is None or (isinstance(x.val, T.Poly) and const_of(x.val) is not None)):
                        I.raise_('TypeError', node)
            return str_concat(I, [a, b])
        if op == 'Mod' and cstr(a) is not None:
            r = percent_text(I, cstr(a), b, node)
            return r if r is not None else app('format', a, b)
        if op == 'Mult' and (cstr(a) is not None or cstr(b) is not None):
            s, n = (a, b) if cstr(a) is not None else (b, a)
            if cint(n) is not None:
                return leaf(cstr(s) * cint(n))
        if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow') and (a is T.NONE or b is T.NONE):
            I.raise_('TypeError', node)
        if op in OPS:
            return OPS[op](a, b)
        return app('op' + op, a, b)
    if op == 'Mod' and isinstance(a, S) and cstr(a) is not None:
        r = percent_text(I, cstr(a), b, node) if isinstance(b, Tup) else None
        if r is not None:
            return r
        return app('format', a, I.term(b))
    la = isinstance(a, Tup) or is_lst(I, a)
    lb = isinstance(b, Tup) or is_lst(I, b)
    if op == 'Add' and la and lb:
        parts = list_parts(I, a) + list_parts(I, b)
        if isinstance(a, Tup) and all(p[0] == 'one' for p in parts):
            return Tup([p[1] for p in parts])
        return I.alloc(Lst(parts))
    if op == 'Mult' and (la or lb) and (isinstance(a, S) or isinstance(b, S)):
        l, n = (a, b) if la else (b, a)
        c = cint(n)
        parts = list_parts(I, l)
        if c is not None:
            parts = parts * c
            if isinstance(l, Tup):
                return Tup([p[1] for p in parts])
            return I.alloc(Lst(parts))
        if len(parts) == 1 and parts[0][0] == 'one' and not (isinstance(l, Tup) and _nonint(n)):
            return I.alloc(Lst([('map', ivar(), n, parts[0][1], T.TRUE)]))
    if op == 'BitOr' and is_dct(I, a) and is_dct(I, b):
        parts = list(I.rec(a).parts)
        for p in I.rec(b).parts:
            parts = dict_put_part(parts, p)
        return I.alloc(Dct(parts))
    if (la and not is_arr(I, b)) or (lb and not is_arr(I, a)):
        if op in ('Add', 'Sub', 'Mult', 'Div') and (isinstance(a, S) or isinstance(b, S)):
            o = a if isinstance(a, S) else b
            if not o.unmod and (op == 'Mult' and not _nonint(o) or o.kind == 'L' and (not isinstance(o.val, T.Poly) or const_of(o.val) is not None)):
                I.raise_('TypeError', node)
    if op in ('BitAnd', 'BitOr', 'BitXor') and (is_arr(I, a) or is_arr(I, b)) and (_float_body(I, a) or _float_body(I, b)):
        I.raise_('TypeError', node)
    if op in OPS:
        if is_arr(I, a) and I.rec(a).av.kind == 'index' and is_strish(I, b) or is_arr(I, b) and I.rec(b).av.kind == 'index' and is_strish(I, a) or \
                op == 'Add' and any(is_arr(I, x) and I.rec(x).av.dtype == 'str' for x in (a, b)):
            return elementwise(I, lambda x, y: str_concat(I, [x, y]), [a, b], node, dtype='str')
        return elementwise(I, OPS[op], [a, b], node)
    I.undecide('operator ' + op, node)
    return T.opaque('op' + op, I.term(a), I.term(b))


def unop(I, op, v, node):
    v = unwrap(I, v)
    if op == 'Not':
        return lnot(truth(I, v))
    if op == 'USub':
        return elementwise(I, T.s_neg, [v], node)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        def f(s):
            if _boolish(s):
                return lnot(T.as_bool(s))
            return T.s_sub(T.s_neg(s), num(1))
        return elementwise(I, f, [v], node, dtype='bool' if is_arr(I, v) and I.rec(v).av.dtype == 'bool' else None)
    I.undecide('unary ' + op, node)
    return T.opaque(op, I.term(v))


def is_int_body(s):
    if s.kind == 'L':
        p = T.as_poly(s.val)
        return p is not None and T._intpoly(p)
    return is_int_body(s.hi) and is_int_body(s.lo)


from .models_index import *      # noqa: E402,F401,F403
from .models_np import *         # noqa: E402,F401,F403
from .models_pd import *         # noqa: E402,F401,F403
from .models_misc import *       # noqa: E402,F401,F403
