"""Abstract inputs."""
from . import terms as T
from .terms import S, P, num, leaf, atom_poly, ivar, app, sym
from .values import *


def V(a):
    return P(atom_poly(a))


def scal(name, **kw):
    kw.setdefault('nan', False)
    return P(atom_poly(sym(name, **kw))) if not isinstance(sym(name, **kw), S) else sym(name, **kw)


def strv(name):
    """arbitrary string"""
    return leaf(T.SymC(name))


def length(name, **kw):
    return T.app('len', T.leaf(name), isint=True, nonneg=True, pos=kw.get('pos', True))


def cell(name, *idx, **kw):
    return app('in', name, *idx, **kw)


def nd(I, name, *dims, **kw):
    """ndarray parameter; dims are S lengths or ints"""
    roots = kw.pop('roots', None)
    axes = [Ax(ivar(), d if isinstance(d, S) else num(d)) for d in dims]
    kw.setdefault('nan', False)
    body = cell(name, *[V(a.var) for a in axes], **kw)
    return I.alloc(Arr(AV(axes, body, 'nd'), frozenset([roots or name])))


def lab(lname, i, **kw):
    return app('lab', lname, i, **kw)


def series(I, name, n, lname, dtype=None, sname=None, roots=None, labels=None, **kw):
    v = ivar()
    kw.setdefault('nan', False)
    if labels is not None:
        from .models import select
        l = select(v, [leaf(x) for x in labels])
        n = num(len(labels))
    else:
        l = lab(lname, V(v))
    body = cell(name, l, **kw)
    return I.alloc(Arr(AV([Ax(v, n if isinstance(n, S) else num(n), l)], body, 'series', dtype, sname), frozenset([roots or name])))


def frame(I, name, n, lname, cols=None, ncol=None, cname=None, rows=None, roots=None, **kw):
    """cols: list of constant column labels, else symbolic with lab(cname, j); rows: constant row labels"""
    from .models import select
    v, c = ivar(), ivar()
    kw.setdefault('nan', False)
    if rows is not None:
        l = select(v, [leaf(x) for x in rows])
        n = num(len(rows))
    else:
        l = lab(lname, V(v))
    if cols is not None:
        ncol = num(len(cols))
        cl = select(c, [leaf(x) if isinstance(x, str) else num(x) for x in cols])
    else:
        cl = lab(cname or name + '.cols', V(c))
    body = cell(name, l, cl, **kw)
    return I.alloc(Arr(AV([Ax(v, n if isinstance(n, S) else num(n), l), Ax(c, ncol if isinstance(ncol, S) else num(ncol), cl)], body, 'frame'),
                       frozenset([roots or name])))


def dtindex(I, name, n, lname=None, roots=None):
    v = ivar()
    return I.alloc(Arr(AV([Ax(v, n)], lab(lname or name, V(v)), 'index', 'datetime'), frozenset([roots or name])))


def lst(I, items, name=None):
    return I.alloc(Lst([('one', x) for x in items], frozenset([name]) if name else frozenset()))


def dct(I, d, name=None):
    return I.alloc(Dct([('kv', leaf(k), v) for k, v in d.items()], frozenset([name]) if name else frozenset()))
