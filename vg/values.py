"""Abstract values."""
from . import terms as T
from .terms import S, P, num, leaf, atom_poly, ivar


class Ax:
    """array axis: index atom, length, pandas label (S over var) or None"""
    __slots__ = ('var', 'n', 'lab', 'comp', 'lname')

    def __init__(self, var, n, lab=None, comp=None, lname=None):
        self.var, self.n, self.lab, self.comp, self.lname = var, n, lab, comp, lname
        T.set_ub(var, n)

    def fresh(self):
        v = ivar('i')
        m = {self.var: P(atom_poly(v))}
        return Ax(v, self.n, None if self.lab is None else T.subst(self.lab, m),
                  self.comp, self.lname), m


class AV:
    """immutable abstract array. kind: nd | series | frame | index"""
    __slots__ = ('axes', 'body', 'kind', 'dtype', 'name')

    def __init__(self, axes, body, kind='nd', dtype=None, name=None):
        self.axes = tuple(axes)
        self.body = body
        self.kind = kind
        self.dtype = dtype
        self.name = name

    @property
    def ndim(self):
        return len(self.axes)

    def opened(self):
        """fresh copy of axes + body"""
        axes = []
        m = {}
        for a in self.axes:
            f, mm = a.fresh()
            axes.append(f)
            m.update(mm)
        return axes, T.subst(self.body, m)

    def copy(self, **kw):
        d = dict(axes=self.axes, body=self.body, kind=self.kind, dtype=self.dtype, name=self.name)
        d.update(kw)
        return AV(**d)

    def lam(self):
        return T.lam([a.var for a in self.axes], [a.n for a in self.axes], self.body)

    def __repr__(self):
        return 'AV<%s %s>(%s)' % (self.kind, ', '.join('%s<%r%s' % (a.var, a.n, '' if a.lab is None else '@%r' % a.lab) for a in self.axes), T.short(self.body, 400))


class Arr:
    """heap record of an array"""
    __slots__ = ('av', 'roots', 'base', 'attrs')

    def __init__(self, av, roots=frozenset(), base=None, attrs=None):
        self.av, self.roots, self.base, self.attrs = av, roots, base, attrs or {}

    def with_av(self, av):
        return Arr(av, self.roots, self.base, self.attrs)

    def __repr__(self):
        return 'Arr%r' % self.av


class Lst:
    """list: parts ('one', v) | ('map', iv, n, v, guardS) | ('if', cond, parts) | ('carry', id) | ('opaque', S)"""
    __slots__ = ('parts', 'roots')

    def __init__(self, parts, roots=frozenset()):
        self.parts, self.roots = tuple(parts), roots

    def __repr__(self):
        return 'Lst%r' % (self.parts,)


class Dct:
    """dict: parts ('kv', keyvalue, v) | ('map', iv, n, k, v) | ('if', cond, parts) | ('carry', id)"""
    __slots__ = ('parts', 'roots')

    def __init__(self, parts, roots=frozenset()):
        self.parts, self.roots = tuple(parts), roots

    def __repr__(self):
        return 'Dct%r' % (self.parts,)


class Obj:
    __slots__ = ('cls', 'attrs', 'roots')

    def __init__(self, cls, attrs, roots=frozenset()):
        self.cls, self.attrs, self.roots = cls, dict(attrs), roots

    def __repr__(self):
        return 'Obj<%s>%r' % (self.cls, self.attrs)


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Ref%d' % self.oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('ref', self.oid))


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(('tup', self.items))


class Seq:
    """symbolic-length iterable: element value as function of iv"""
    __slots__ = ('iv', 'n', 'elem', 'guard')

    def __init__(self, iv, n, elem, guard=None):
        self.iv, self.n, self.elem, self.guard = iv, n, elem, guard or T.TRUE

    def __repr__(self):
        return 'Seq<%s<%r: %r>' % (self.iv, self.n, self.elem)


class Fn:
    __slots__ = ('node', 'module', 'frame', 'name', 'qual', 'defaults', 'kwdefaults', 'decorators', 'cls')

    def __init__(self, node, module, frame, name, qual, defaults=(), kwdefaults=None, cls=None):
        self.node, self.module, self.frame, self.name, self.qual = node, module, frame, name, qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.decorators = ()
        self.cls = cls

    def __repr__(self):
        return 'Fn<%s>' % self.qual


class Builtin:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin<%s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(('bi', self.name))


class Partial:
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Meth:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return 'Meth<%r.%s>' % (self.obj, self.name)


class Mod:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Mod<%s>' % self.name

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(('mod', self.name))


class Cls:
    """repository class"""
    __slots__ = ('name', 'node', 'module', 'attrs', 'bases')

    def __init__(self, name, node, module, attrs, bases):
        self.name, self.node, self.module, self.attrs, self.bases = name, node, module, attrs, bases

    def __repr__(self):
        return 'Cls<%s>' % self.name


class Type:
    """result of type(x) / builtin types as values"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Type<%s>' % self.name

    def __eq__(self, o):
        return isinstance(o, (Type, Builtin)) and _tn(o.name) == _tn(self.name)

    def __hash__(self):
        return hash(('type', _tn(self.name)))


def _tn(n):
    return {'pandas.DataFrame': 'pandas.DataFrame'}.get(n, n.replace('builtins.', ''))


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Idx:
    """.loc / .iloc / .at accessor"""
    __slots__ = ('obj', 'kind')

    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class EllipsisV:
    pass


class Enumv:
    """enum member constant (leaf)"""
    _pool = {}

    def __new__(cls, c, n):
        k = (c, n)
        if k not in cls._pool:
            o = object.__new__(cls)
            o.cls, o.name = c, n
            cls._pool[k] = o
        return cls._pool[k]

    def __repr__(self):
        return '%s.%s' % (self.cls, self.name)
