from .. import ctx as C, terms as T, models as M
from ..terms import num, leaf, S, app, ite, land, lor, lnot
from ..values import *
from ..check import case, Dead, diff, sdiff, tainted

TRUE, FALSE, NONE = leaf(True), leaf(False), leaf(None)


def b(x):
    return leaf(bool(x))


def n():
    return C.length('n')


def m():
    return C.length('m')


def L(name):
    return C.length(name)


sc = C.scal


def V(a):
    return T.P(T.atom_poly(a))


def av(c, r):
    a = M.to_av(c.I, r)
    if a is None:
        raise NotImplementedError('not an array: %r' % (r,))
    return a


def at(c, r, *idx):
    """cell of an abstract array at the given index terms"""
    a = av(c, r)
    m = {x.var: (i if isinstance(i, S) else num(i)) for x, i in zip(a.axes, idx)}
    return T.subst(a.body, m)


def shape(c, r):
    return [x.n for x in av(c, r).axes]


def items(c, r):
    from ..check import items as it
    r = c.I.rec(r) if isinstance(r, Ref) else r
    return it(r)


def axis_labels(c, r, k, i):
    x = av(c, r).axes[k]
    if x.lab is None:
        return None
    return T.subst(x.lab, {x.var: i if isinstance(i, S) else num(i)})


def idx(nm, n):
    """fresh generic index below n"""
    v = T.ivar(nm)
    T.set_ub(v, n)
    return V(v)


def rejects(c, exc, name, what, *a, **kw):
    """the call must certainly raise exc"""
    try:
        r = c.call_any(name, *a, **kw)
    except Dead as e:
        xs = set(x[0] for x in e.excs)
        return c.check(all(x in exc for x in xs), what, name, detail='raises %s' % sorted(xs))
    return c.ob('undecided' if c.taint() else 'violated', what, name, detail='returns %s' % (str(r)[:200]))


ARR = ['nd', 'list', 'series']


def vec(I, kind, name, nn, lname='s', **kw):
    if kind == 'nd':
        return C.nd(I, name, nn, **kw)
    if kind == 'series':
        return C.series(I, name, nn, lname, **kw)
    if kind == 'list':
        k = T.s_const(nn) if isinstance(nn, S) and nn.kind == 'L' and not T.as_poly(nn.val).deps and _isconst(nn) else nn if isinstance(nn, int) else 3
        return C.lst(I, [sc('%s%d' % (name, i)) for i in range(int(k))], name)


def _isconst(s):
    try:
        T.s_const(s)
        return True
    except KeyError:
        return False


def ext_as(c, r, val):
    """the value r when external routines inside try blocks fail (TRUE) or do not (FALSE)"""
    if isinstance(r, S):
        m_ = {a: val for a in T.walk_atoms(r) if a.op == 'extraise'}
        return T.subst(r, m_) if m_ else r
    a = av(c, r)
    m_ = {x: val for x in T.walk_atoms(a.body) if x.op == 'extraise'}
    return c.I.alloc(Arr(AV(a.axes, T.subst(a.body, m_), a.kind))) if m_ else r
