"""Hash-consed value-graph terms.

A scalar abstract value is a *decision DAG* (class S): inner nodes test a guard
atom, leaves are either exact polynomials over atoms (class Poly) or constants
(strings, booleans, None, enum members).  Poly arithmetic is exact (Fraction
coefficients, rational exponents), so that two expressions which are equal as
rational functions of their atoms get the same value number.
Arrays and functions inside terms are closed lambda terms (class Lam), compared
modulo renaming of bound indices.
"""
from fractions import Fraction as F
from math import gcd as _gcd
import random

_EMPTY = frozenset()


class Atom:
    __slots__ = ('id', 'op', 'args', 'real', 'nonneg', 'pos', 'isint', 'nan',
                 'deps', 'free', 'level', 'unmod', 'isbool')

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('id', 't', 'deps', 'free', 'level', 'unmod', 'nan', 'real', 'hard', 'nc', 'k0')

    def __repr__(self):
        return show_poly(self)


class S:
    """Decision DAG. kind 'L' leaf (val) or 'N' node (atom, hi, lo)."""
    __slots__ = ('id', 'kind', 'val', 'atom', 'hi', 'lo', 'deps', 'free',
                 'level', 'unmod', 'cls')

    def __repr__(self):
        return show(self)


class Lam:
    """Closed lambda over `n` index variables; lens is tuple of S."""
    __slots__ = ('id', 'vars', 'lens', 'body', 'deps', 'free', 'level', 'unmod')

    def __repr__(self):
        return show_lam(self)


class Const:
    """A non-numeric constant leaf value (str, bool, None, enum...)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'C(%r)' % (self.v,)


_counter = [0]


def _nid():
    _counter[0] += 1
    return _counter[0]


_atoms = {}
_polys = {}
_ss = {}
_lams = {}
_consts = {}
_by_fn = {}


def reset():
    """Forget all terms (used between independent checks)."""
    for d in (_atoms, _polys, _ss, _lams, _consts, _by_fn, _memo_ap, _memo_ass, UB, _fpa, _fpp, _intern, _hoist,
              _monomemo):
        d.clear()
    for d, base in _BASE:
        d.update(base)


# ------------------------------------------------------------------ attributes
def _meta(args):
    deps = set()
    free = set()
    level = 0
    unmod = False
    nan = False
    for a in args:
        if isinstance(a, (Atom, Poly, S, Lam)):
            deps |= a.deps
            free |= a.free
            level = max(level, a.level)
            unmod = unmod or a.unmod
            if isinstance(a, (Atom, Poly)):
                nan = nan or a.nan
        elif isinstance(a, tuple):
            d, f, l, u, n = _meta(a)
            deps |= d
            free |= f
            level = max(level, l)
            unmod = unmod or u
            nan = nan or n
    return deps, free, level, unmod, nan


def mk_atom(op, args=(), real=True, nonneg=False, pos=False, isint=False,
            nan=None, deps=(), unmod=False, isbool=False, ivar=False):
    key = (op, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    # semantic hash-consing: same op, args equal as rational functions
    if args and any(isinstance(x, Poly) and x.hard for x in args):
        shape = (op, len(args), tuple(x if not isinstance(x, Poly) else fprint(x) for x in args))
        for cand in _by_fn.get(shape, ()):
            if all((x is y) or (isinstance(x, Poly) and isinstance(y, Poly) and poly_eq(x, y)) or
                   (not isinstance(x, Poly) and x == y)
                   for x, y in zip(args, cand.args)):
                _atoms[key] = cand
                return cand
    a = Atom()
    a.id = _nid()
    a.op = op
    a.args = args
    d, f, l, u, n = _meta(args)
    a.deps = frozenset(d | set(deps))
    a.free = frozenset(f | ({a} if ivar else set()))
    a.level = l
    if op == 'bound':
        a.level = args[0]
    a.unmod = u or unmod
    a.nan = n if nan is None else nan
    a.real = real
    a.nonneg = nonneg or pos
    a.pos = pos
    a.isint = isint
    a.isbool = isbool
    _atoms[key] = a
    if args and any(isinstance(x, Poly) for x in args):
        shape = (op, len(args), tuple(x if not isinstance(x, Poly) else fprint(x) for x in args))
        _by_fn.setdefault(shape, []).append(a)
    return a


def sym(name, **kw):
    kw.setdefault('deps', (name,))
    return mk_atom('sym', (name,), **kw)


_ivc = [0]


def ivar(hint='i'):
    _ivc[0] += 1
    return mk_atom('ivar', ('%s%d' % (hint, _ivc[0]),), isint=True, nonneg=True,
                   ivar=True)


# ------------------------------------------------------------------ polynomials
def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def mk_poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    for m, c in items:
        for a, e in m:
            if a is NAN_ATOM:
                items = [(((NAN_ATOM, F(1)),), F(1))]
                break
        else:
            continue
        break
    items.sort(key=lambda mc: _mono_key(mc[0]))
    key = tuple((m, c) for m, c in items)
    p = _polys.get(key)
    if p is not None:
        return p
    p = Poly()
    p.id = _nid()
    p.t = key
    deps = set()
    free = set()
    level = 0
    un = False
    nan = False
    real = True
    hard = False
    for m, c in key:
        for a, e in m:
            deps |= a.deps
            free |= a.free
            level = max(level, a.level)
            un = un or a.unmod
            nan = nan or a.nan
            if not a.real:
                real = False
            if a.op == 'sum' or e.denominator != 1 or a.op in HARDOPS:
                hard = True
            elif not hard and any(isinstance(x, Poly) and x.hard for x in a.args):
                hard = False
    p.deps = frozenset(deps)
    p.free = frozenset(free)
    p.level = level
    p.unmod = un
    p.nan = nan
    p.real = real
    p.hard = hard
    p.nc = None
    _polys[key] = p
    return p


HARDOPS = ('abs',)


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if c != c:
            return NAN
        if c in (float('inf'), float('-inf')):
            return INF if c > 0 else neg(INF)
        c = F(repr(c))
    c = F(c)
    return mk_poly({(): c}) if c else mk_poly({})


def atom_poly(a):
    return mk_poly({((a, F(1)),): F(1)})


def const_of(p):
    """Fraction if p is a rational constant else None."""
    if not p.t:
        return F(0)
    if len(p.t) == 1 and p.t[0][0] == ():
        return p.t[0][1]
    return None


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    d = dict(p.t)
    for m, c in q.t:
        d[m] = d.get(m, 0) + c
    return mk_poly(d)


def scale(p, c):
    if c == 1:
        return p
    return mk_poly({m: k * c for m, k in p.t})


def neg(p):
    return scale(p, F(-1))


def sub(p, q):
    return add(p, neg(q))


_monomemo = {}


def _mono_norm(d):
    """d: dict atom->exp. Returns Poly equal to product."""
    extra = []
    out = {}
    coeff = F(1)
    for a, e in d.items():
        if e == 0:
            continue
        if a is I_ATOM:
            k = int(e) % 4
            if k == 2:
                coeff = -coeff
            elif k == 3:
                coeff = -coeff
                out[a] = F(1)
            elif k == 1:
                out[a] = F(1)
            continue
        if a.op == 'sum':
            if e.denominator == 1 and e > 0:
                extra.append((a.args[0], int(e)))
                continue
            if e > 1:
                k = e.numerator // e.denominator
                extra.append((a.args[0], k))
                e = e - k
                if e == 0:
                    continue
            elif e < -1 and e.denominator != 1:
                pass
            out[a] = e
            continue
        if a.op == 'abs' and a.args[0].real and e.denominator == 1 and (e >= 2 or e <= -2):
            k = (abs(int(e)) // 2) * 2
            if e > 0:
                extra.append((a.args[0], k))
                e = e - k
            else:
                extra.append((powr(a.args[0], F(-1)), k))
                e = e + k
            if e:
                out[a] = e
            continue
        if a.op == 'sin' and e.denominator == 1 and e >= 2:
            k = int(e) // 2
            extra.append((sub(ONE, powr(atom_poly(mk_atom('cos', a.args)), F(2))), k))
            if int(e) % 2:
                out[a] = F(1)
            continue
        if a.op == 'ind' and e.denominator == 1 and e > 1:
            out[a] = F(1)
            continue
        out[a] = e
    # X * conj(X) -> |X|^2
    for a in list(out):
        if a.op == 'conj' and a in out:
            base = a.args[0]
            ba = single_atom(base)
            if ba is not None and ba in out and out[a] > 0 and out[ba] > 0:
                k = min(out[a], out[ba])
                out[a] -= k
                out[ba] -= k
                ab = mk_atom('abs', (base,), nonneg=True)
                out[ab] = out.get(ab, F(0)) + 2 * k
                for z in (a, ba):
                    if out.get(z) == 0:
                        del out[z]
    res = mk_poly({tuple(sorted(((a, e) for a, e in out.items() if e != 0), key=lambda x: x[0].id)): coeff})
    for p, k in extra:
        for _ in range(k):
            res = mul(res, p)
    return res


def single_atom(p):
    if len(p.t) == 1:
        m, c = p.t[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def _mono_mul(m1, m2):
    key = (m1, m2)
    r = _monomemo.get(key)
    if r is not None:
        return r
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, F(0)) + e
    r = _mono_norm(d)
    _monomemo[key] = r
    return r


def mul(p, q):
    cp = const_of(p)
    if cp is not None:
        return scale(q, cp) if cp else ZERO
    cq = const_of(q)
    if cq is not None:
        return scale(p, cq) if cq else ZERO
    if len(p.t) * len(q.t) > EXPAND:
        # keep the larger factor unexpanded: same value, same fingerprint
        if len(p.t) < len(q.t):
            p, q = q, p
        p = atom_poly(mk_atom('poly', (p,), real=p.real, nonneg=sign(p) in ('+', '0+'), pos=sign(p) == '+'))
        if len(q.t) > EXPAND:
            q = atom_poly(mk_atom('poly', (q,), real=q.real, nonneg=sign(q) in ('+', '0+'), pos=sign(q) == '+'))
    d = {}
    for m1, c1 in p.t:
        for m2, c2 in q.t:
            r = _mono_mul(m1, m2)
            for m, c in r.t:
                d[m] = d.get(m, 0) + c * c1 * c2
    return mk_poly(d)


EXPAND = 1500


def _root(c, e):
    """c**e for Fraction c>0 exact or None."""
    if e.denominator == 1:
        return c ** int(e)
    k = e.denominator

    def iroot(n):
        r = round(n ** (1.0 / k))
        for x in (r - 1, r, r + 1):
            if x >= 0 and x ** k == n:
                return x
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return F(a, b) ** e.numerator


def content(p):
    """(c, mono, rest) with p = c*mono*rest, rest lead coeff +1 and no common atoms."""
    if not p.t:
        return F(0), (), ONE
    common = None
    for m, _ in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            new = {}
            for a in set(common) | set(d):
                ea, eb = common.get(a, F(0)), d.get(a, F(0))
                if ea > 0 and eb > 0:
                    new[a] = min(ea, eb)
                elif (ea < 0 or eb < 0):
                    mn = min(ea, eb)
                    if mn < 0:
                        new[a] = mn
            common = new
        if not common:
            break
    common = {a: e for a, e in common.items() if e}
    c = p.t[0][1]
    mono = tuple(sorted(common.items(), key=lambda x: x[0].id))
    if mono:
        inv = tuple((a, -e) for a, e in mono)
        d = {}
        for m, k in p.t:
            dd = dict(m)
            for a, e in inv:
                dd[a] = dd.get(a, F(0)) + e
            mm = tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda x: x[0].id))
            d[mm] = d.get(mm, 0) + k
        p = mk_poly(d)
        c = p.t[0][1]
    rest = scale(p, 1 / c)
    return c, mono, rest


def powr(p, e):
    e = F(e)
    if p is NAN and e != 0:
        return NAN
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = const_of(p)
    if c is not None:
        if c == 0:
            return ZERO if e > 0 else INF
        if c > 0 or e.denominator == 1:
            r = _root(c, e) if c > 0 else c ** int(e)
            if r is not None:
                return const(r)
    if e.denominator == 1 and e > 0 and (len(p.t) <= 1 or e <= 6):
        if e <= 6:
            r = ONE
            for _ in range(int(e)):
                r = mul(r, p)
            return r
        m, k = p.t[0]
        if e * max(k.numerator.bit_length(), k.denominator.bit_length()) < 20000:
            return scale(_mono_norm({a: x * e for a, x in m}), k ** int(e))
        return atom_poly(mk_atom('bigpow', (p, const(e))))
    c, mono, rest = content(p)
    out = ONE
    inside_c = F(1)
    if e.denominator == 1:
        out = const(c ** int(e))
    else:
        if c < 0:
            rest = neg(rest)
            c = -c
        r = _root(c, e)
        if r is None:
            # normalise to squarefree-ish constant atom
            ca = mk_atom('sum', (const(c),), pos=True)
            out = _mono_norm({ca: e})
        else:
            out = const(r)
        if rest is not ONE and const_of(rest) == -1:
            # sqrt of negative content: keep sign inside
            rest = neg(ONE)
    inside = rest
    for a, x in mono:
        xe = x * e
        if e.denominator == 1 or a.nonneg:
            out = mul(out, _mono_norm({a: xe}))
        elif x.denominator == 1 and int(x) % 2 == 0 and a.real:
            out = mul(out, powr(absp(atom_poly(a)), xe))
        else:
            inside = mul(inside, _mono_norm({a: x}))
    ci = const_of(inside)
    if ci == 1:
        return out
    c2, m2, r2 = (F(1), (), inside)
    if len(inside.t) == 1 and inside.t[0][1] == 1 and len(inside.t[0][0]) == 1 and inside.t[0][0][0][1] == 1:
        return mul(out, _mono_norm({inside.t[0][0][0][0]: e}))
    sa = mk_atom('sum', (inside,), nonneg=(sign(inside) in ('+', '0+')), pos=sign(inside) == '+',
                 real=inside.real)
    if sa.op != 'sum':
        return mul(out, _mono_norm({sa: e}))
    return mul(out, _mono_norm({sa: e}))


def div(p, q):
    return mul(p, powr(q, F(-1)))


def absp(p):
    if p is NAN:
        return NAN
    c = const_of(p)
    if c is not None:
        return const(abs(c))
    sg = sign(p)
    if sg in ('+', '0+'):
        return p
    if sg in ('-', '0-'):
        return neg(p)
    c, mono, rest = content(p)
    out = const(abs(c))
    for a, e in mono:
        if a is I_ATOM:
            continue
        if a.op == 'expm' and not a.real:
            continue
        if a.nonneg:
            out = mul(out, _mono_norm({a: e}))
        elif e.denominator == 1 and int(e) % 2 == 0 and a.real:
            out = mul(out, _mono_norm({a: e}))
        elif a.op == 'abs':
            out = mul(out, _mono_norm({a: e}))
        elif a.op == 'conj':
            out = mul(out, powr(absp(a.args[0]), e))
        else:
            ab = mk_atom('abs', (atom_poly(a),), nonneg=True)
            out = mul(out, _mono_norm({ab: e}))
    if const_of(rest) is None:
        sg = sign(rest)
        if sg in ('+', '0+'):
            out = mul(out, rest)
        elif sg in ('-', '0-'):
            out = mul(out, neg(rest))
        else:
            ab = mk_atom('abs', (rest,), nonneg=True)
            out = mul(out, _mono_norm({ab: F(1)}))
    return out


def sign(p):
    """'+', '0+', '-', '0-', '0' or None (unknown)."""
    if not p.t:
        return '0'
    if not p.real:
        return None
    pos = neg_ = True
    strict = False
    for m, c in p.t:
        nn = True
        st = True
        for a, e in m:
            if a.pos:
                continue
            st = False
            if a.nonneg or (e.denominator == 1 and int(e) % 2 == 0):
                continue
            nn = False
        if not nn:
            return _sign2(p)
        if c > 0:
            neg_ = False
        else:
            pos = False
        if st:
            strict = True
    if pos:
        return '+' if strict else '0+'
    if neg_:
        return '-' if strict else '0-'
    return _sign2(p)


def _sign2(p):
    # p = c*(rest) where rest is a perfect-square-like difference? Try common content
    c, mono, rest = content(p)
    if mono:
        ok = all(a.nonneg or (e.denominator == 1 and int(e) % 2 == 0) for a, e in mono)
        if ok and not rest.t == p.t:
            s = sign(rest) if len(rest.t) < len(p.t) or mono else None
            if s and c < 0:
                s = s.translate(str.maketrans('+-', '-+'))
            if s in ('+', '-') and not all(a.pos for a, e in mono):
                s = '0' + s
            return s
    return None


def poly_eq(p, q):
    if p is q:
        return True
    return is_zero(sub(p, q))


# ---- fingerprints: values in a prime field, equal for polynomials that are
# equal as rational functions (a necessary condition used to bucket candidates)

_FP = 2305843009213693921
_FPI = 583529827753931384
_fpa = {}
_fpp = {}


def _fproot(a, e):
    """random value of atom a to the power e"""
    x = random.Random(a.id * 7919 + 17).randrange(2, _FP - 1)
    y = pow(x, 27720 * e.numerator // e.denominator if 27720 % e.denominator == 0 else 27720 * e.numerator, _FP) if e > 0 else \
        pow(pow(x, 27720 * -e.numerator // e.denominator if 27720 % e.denominator == 0 else -27720 * e.numerator, _FP), _FP - 2, _FP)
    return y


def _fpow(v, k):
    k = int(k)
    return pow(v, k, _FP) if k >= 0 else pow(pow(v, -k, _FP), _FP - 2, _FP)


def _fatom(a, e):
    if a is I_ATOM:
        return _fpow(_FPI, e)
    if a.op == 'ind':
        return 1
    if a.op in ('sum', 'poly') or a.op == 'abs' and a.args[0].real:
        k = e.numerator // e.denominator
        v = _fpow(fprint(a.args[0]), k)
        f = e - k
        return v * _fproot(a, f) % _FP if f else v
    if a.op in ('sin', 'cos') and e.denominator == 1:
        t = fprint(a.args[0]) + 12345
        d = _fpow(1 + t * t, -1)
        return _fpow((2 * t if a.op == 'sin' else 1 - t * t) * d % _FP, e)
    if a.op == 'conj' and e.denominator == 1:
        b = single_atom(a.args[0])
        if b is not None:
            return _fpow(_fproot(mk_atom('abs', a.args, nonneg=True), F(2)) * _fpow(_fproot(b, F(1)), -1) % _FP, e)
    return _fproot(a, e)


def fprint(p):
    r = _fpp.get(p)
    if r is None:
        r = 0
        for m, c in p.t:
            v = c.numerator * pow(c.denominator, _FP - 2, _FP)
            for a, e in m:
                w = _fpa.get((a, e))
                if w is None:
                    w = _fpa[(a, e)] = _fatom(a, e)
                v = v * w % _FP
            r = (r + v) % _FP
        _fpp[p] = r
    return r


def is_zero(p):
    if not p.t:
        return True
    for _ in range(6):
        mins = {}
        for m, c in p.t:
            for a, e in m:
                if a.op == 'sum' and e < 0:
                    mins[a] = min(mins.get(a, F(0)), e)
        if not mins:
            break
        for a, e in mins.items():
            k = -e
            k = F(-((-k.numerator) // k.denominator))  # ceil
            d = {}
            for m, c in p.t:
                dd = dict(m)
                dd[a] = dd.get(a, F(0)) + k
                r = _mono_norm(dd)
                for mm, cc in r.t:
                    d[mm] = d.get(mm, 0) + cc * c
            p = mk_poly(d)
        if not p.t:
            return True
    return not p.t


# ------------------------------------------------------------------ S nodes
def leaf(v):
    if isinstance(v, Poly):
        key = ('P', v)
    else:
        key = ('C', type(v).__name__, v)
    s = _ss.get(key)
    if s is not None:
        return s
    s = S()
    s.id = _nid()
    s.kind = 'L'
    s.val = v
    s.atom = s.hi = s.lo = None
    if isinstance(v, Poly):
        s.deps, s.free, s.level, s.unmod = v.deps, v.free, v.level, v.unmod
        s.cls = 'num'
    else:
        s.deps = s.free = _EMPTY
        s.level = 0
        s.unmod = False
        s.cls = 'bool' if isinstance(v, bool) else 'const'
    _ss[key] = s
    return s


def num(c):
    return leaf(const(c))


def P(p):
    return leaf(p)


def _related(a):
    """poly tested by guard atom a (for theory simplification)."""
    return a.op in ('lt', 'eq')


_memo_ass = {}


def assume(s, atom, val):
    """Simplify s knowing guard atom has value val (theory-aware)."""
    if s.kind == 'L':
        return s
    key = (s, atom, val)
    r = _memo_ass.get(key)
    if r is not None:
        return r
    k = implied(s.atom, atom, val)
    if k is True:
        r = assume(s.hi, atom, val)
    elif k is False:
        r = assume(s.lo, atom, val)
    else:
        hi = assume(s.hi, atom, val)
        lo = assume(s.lo, atom, val)
        if hi is s.hi and lo is s.lo:
            r = s
        else:
            r = _mk_node(s.atom, hi, lo)
    _memo_ass[key] = r
    return r


def _ncof(p):
    """(interned non-constant part, its negation, constant)"""
    if p.nc is None:
        k0 = F(0)
        items = []
        for m, c in p.t:
            if m:
                items.append((m, c))
            else:
                k0 = c
        t = tuple(items)
        n = tuple((m, -c) for m, c in items)
        p.nc = (_intern.setdefault(t, t), _intern.setdefault(n, n))
        p.k0 = k0
    return p.nc


_intern = {}


def implied(a, b, bv):
    """value of guard a implied by guard b == bv, or None."""
    if a is b:
        return bv
    if a.op in ('lt', 'eq') and b.op in ('lt', 'eq'):
        p, q = a.args[0], b.args[0]
        # a: p<0 | p==0 ; b: q<0 | q==0.  relate p = s*q + c
        pn, qn = _ncof(p), _ncof(q)
        for sg in (1, -1):
            if pn[0] is not qn[0 if sg == 1 else 1]:
                continue
            d = p.k0 - sg * q.k0
            # p = sg*q + d
            nonan = not q.nan
            if b.op == 'eq' and bv:
                # q == 0 -> p == d
                return (d < 0) if a.op == 'lt' else (d == 0)
            if b.op == 'lt':
                if bv:
                    # q<0 ; p = sg*q+d
                    isint = _intpoly(q)
                    if sg == 1:
                        # p < d
                        bound = d - 1 if isint else d
                        if a.op == 'lt' and (d <= 0 or (isint and d - 1 < 0)):
                            return True
                        if a.op == 'eq' and (d <= 0 or (isint and d < 1)):
                            return False
                    else:
                        # p > d  (p >= d+1 if int)
                        if a.op == 'lt' and (d >= 0 or (isint and d + 1 >= 0)):
                            return False
                        if a.op == 'eq' and (d >= 0 or (isint and d + 1 > 0)):
                            return False
                elif nonan:
                    # q >= 0
                    if sg == 1:
                        # p >= d
                        if a.op == 'lt' and d >= 0:
                            return False
                        if a.op == 'eq' and d > 0:
                            return False
                    else:
                        # p <= d
                        if a.op == 'lt' and d < 0:
                            return True
                        if a.op == 'eq' and d < 0:
                            return False
    if a.op == 'streq' and b.op == 'streq' and bv and a.args[0] is b.args[0]:
        return a.args[1] == b.args[1]
    if a.op == 'isnan' and b.op in ('lt', 'eq') and bv:
        if set(x for m, _ in a.args[0].t for x, _e in m) <= set(x for m, _ in b.args[0].t for x, _e in m) and len(a.args[0].t) == 1:
            return False
    if b.op == 'isnan' and bv and a.op in ('lt', 'eq'):
        x = single_atom(b.args[0])
        if x is not None and any(x is y for m, _ in a.args[0].t for y, _e in m):
            return False
    return None


def _intpoly(p):
    return all(c.denominator == 1 and all(a.isint and e.denominator == 1 and e > 0 for a, e in m) for m, c in p.t)


def _mk_node(atom, hi, lo):
    hi = assume(hi, atom, True)
    lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    # trichotomy: not eq(p), then lt(p)/lt(-p) complementary when non-NaN is
    # handled through atom normalisation in cmp_lt (see there).
    key = ('N', atom, hi, lo)
    s = _ss.get(key)
    if s is not None:
        return s
    s = S()
    s.id = _nid()
    s.kind = 'N'
    s.val = None
    s.atom, s.hi, s.lo = atom, hi, lo
    s.deps = atom.deps | hi.deps | lo.deps
    s.free = atom.free | hi.free | lo.free
    s.level = max(atom.level, hi.level, lo.level)
    s.unmod = atom.unmod or hi.unmod or lo.unmod
    s.cls = hi.cls if hi.cls == lo.cls else 'mixed'
    _ss[key] = s
    return s


TRUE = FALSE = NONE = None
_memo_ap = {}


def top_atom(*ss):
    best = None
    for s in ss:
        if s.kind == 'N' and (best is None or s.atom.id < best.id):
            best = s.atom
    return best


def cof(s, a, v):
    if s.kind == 'L':
        return s
    if s.atom is a:
        return s.hi if v else s.lo
    return assume(s, a, v)


def ite(c, a, b):
    if c.kind == 'L':
        return a if c.val is True else b if c.val is False else truth_ite(c, a, b)
    if a is b:
        return a
    key = ('ite', c, a, b)
    r = _memo_ap.get(key)
    if r is not None:
        return r
    t = top_atom(c, a, b)
    r = _mk_node(t, ite(cof(c, t, True), cof(a, t, True), cof(b, t, True)),
                 ite(cof(c, t, False), cof(a, t, False), cof(b, t, False)))
    _memo_ap[key] = r
    return r


def truth_ite(c, a, b):
    return ite(truth(c), a, b)


def truth(s):
    """Python truthiness of scalar S -> bool S."""
    return apply1('truth', _truth_leaf, s)


def _truth_leaf(v):
    if isinstance(v, Poly):
        c = const_of(v)
        if c is not None:
            return leaf(c != 0)
        sg = sign(v)
        if sg in ('+', '-'):
            return TRUE
        return lnot(cmp_eq(v, ZERO))
    return leaf(bool(v))


def apply1(name, f, s):
    key = (name, s)
    r = _memo_ap.get(key)
    if r is not None:
        return r
    if s.kind == 'L':
        r = f(s.val)
    else:
        h, l = apply1(name, f, s.hi), apply1(name, f, s.lo)
        r = ite(bool_atom(s.atom), h, l)
    _memo_ap[key] = r
    return r


def apply2(name, f, a, b):
    key = (name, a, b)
    r = _memo_ap.get(key)
    if r is not None:
        return r
    if a.kind == 'L' and b.kind == 'L':
        r = f(a.val, b.val)
    else:
        t = top_atom(a, b)
        h = apply2(name, f, cof(a, t, True), cof(b, t, True))
        l = apply2(name, f, cof(a, t, False), cof(b, t, False))
        r = ite(bool_atom(t), h, l)
    _memo_ap[key] = r
    return r


def applyn(name, f, args):
    args = tuple(args)
    key = (name, args)
    try:
        r = _memo_ap.get(key)
    except TypeError:
        r = None
        key = None
    if r is not None:
        return r
    ss = [a for a in args if isinstance(a, S)]
    t = top_atom(*ss) if ss else None
    if t is None:
        r = f(*[a.val if isinstance(a, S) else a for a in args])
    else:
        h = applyn(name, f, [cof(a, t, True) if isinstance(a, S) else a for a in args])
        l = applyn(name, f, [cof(a, t, False) if isinstance(a, S) else a for a in args])
        r = ite(bool_atom(t), h, l)
    if key is not None:
        _memo_ap[key] = r
    return r


def bool_atom(a):
    key = ('N', a, TRUE, FALSE)
    s = _ss.get(key)
    if s is None:
        s = _mk_node(a, TRUE, FALSE)
    return s


def lnot(s):
    return ite(s, FALSE, TRUE)


def land(*ss):
    r = TRUE
    for s in ss:
        r = ite(s, r, FALSE) if r is TRUE else ite(r, s, FALSE)
    return r


def lor(*ss):
    r = FALSE
    for s in ss:
        r = ite(r, TRUE, s)
    return r


def as_poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return const(int(v))
    return None


def _bin(name, f):
    def g(a, b):
        pa, pb = as_poly(a), as_poly(b)
        if pa is None or pb is None:
            return opaque('bin:' + name, leaf(a), leaf(b))
        return leaf(f(pa, pb))

    def h(a, b):
        return apply2(name, g, a, b)
    return h


s_add = _bin('+', add)
s_sub = _bin('-', sub)
s_mul = _bin('*', mul)
s_div = _bin('/', div)


def s_neg(a):
    return s_sub(num(0), a)


def _pow_leaf(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None:
        return opaque('pow', leaf(a), leaf(b))
    c = const_of(pb)
    if c is not None:
        if not pa.real and c.denominator != 1:
            return app('pow', leaf(pa), leaf(pb))
        return leaf(powr(pa, c))
    return app('pow', leaf(pa), leaf(pb))


def s_pow(a, b):
    return apply2('**', _pow_leaf, a, b)


def _abs_leaf(a):
    pa = as_poly(a)
    if pa is None:
        return opaque('abs', leaf(a))
    return leaf(absp(pa))


def s_abs(a):
    return apply1('abs', _abs_leaf, a)


# comparisons -----------------------------------------------------------------
def _norm_cmp(p):
    """divide by positive constants/positive atoms so that guards are canonical"""
    c, mono, rest = content(p)
    out = rest if c > 0 else neg(rest)
    for a, e in mono:
        if a.pos:
            continue
        out = mul(out, _mono_norm({a: e}))
    den = num_ = 0
    for m, k in out.t:
        den = k.denominator if not den else den * k.denominator // _gcd(den, k.denominator)
        num_ = _gcd(num_, abs(k.numerator))
    if den > 1 or num_ > 1:
        out = scale(out, F(den, num_))
        num_ = 0
        for m, k in out.t:
            num_ = _gcd(num_, abs(k.numerator))
        if num_ > 1:
            out = scale(out, F(1, num_))
    return out


UB = {}


def set_ub(v, n):
    """index atom v ranges over 0..n-1"""
    if n.kind == 'L' and isinstance(n.val, Poly):
        old = UB.get(v)
        if old is None and v not in UB:
            UB[v] = n.val
        elif old is not n.val:
            UB[v] = None


def _bnd(p, lower):
    """polynomial bounding p from below (above) using index ranges; None if not expressible"""
    ivs = [a for m, c in p.t for a, e in m if a.op == 'ivar']
    if not ivs and not any(a.op in ('len',) for m, c in p.t for a, e in m):
        return None
    if not _intpoly(p):
        if not ivs or not all(c.denominator == 1 or True for m, c in p.t):
            return None
    out = ZERO
    for m, c in p.t:
        if len(m) == 1 and m[0][0].op == 'ivar' and m[0][1] == 1:
            if (c > 0) == lower:
                continue
            u = UB.get(m[0][0])
            if u is None:
                return None
            out = add(out, scale(sub(u, ONE), c))
        else:
            if any(a.op == 'ivar' for a, e in m):
                return None
            out = add(out, mk_poly({m: c}))
    # positive integer atoms are at least one: a = 1 + slack
    res = ZERO
    for m, c in out.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].pos and m[0][0].isint:
            sl = mk_atom('slack', (m[0][0],), nonneg=True, isint=True)
            res = add(res, add(const(c), scale(atom_poly(sl), c)))
        else:
            res = add(res, mk_poly({m: c}))
    if res is p:
        return None
    return res


def _bsign(p):
    if p.nan or not p.real or len(p.t) > 6:
        return None
    lo = _bnd(p, True)
    if lo is not None:
        sg = sign(lo)
        if sg == '+':
            return '+'
        if sg in ('0+', '0'):
            return '0+'
    hi = _bnd(p, False)
    if hi is not None:
        sg = sign(hi)
        if sg == '-':
            return '-'
        if sg in ('0-', '0'):
            return '0-'
    return None


def cmp_lt0(p):
    """p < 0 as S bool"""
    c = const_of(p)
    if c is not None:
        return leaf(c < 0)
    if p is NAN:
        return FALSE
    sg = sign(p) or _bsign(p)
    if sg in ('+', '0+'):
        return FALSE
    if sg == '-' and not p.nan:
        return TRUE
    if not p.real:
        return bool_atom(mk_atom('ltc', (p,), isbool=True))
    inf = _inf_sign(p)
    if inf == -1:
        return TRUE
    if inf == 1:
        return FALSE
    q = _norm_cmp(p)
    if not q.nan:
        # canonical orientation for total order: keep lead coeff positive
        nq = neg(q)
        if _intpoly(q):
            lead = next((c for m, c in q.t if m), 1)
            if lead < 0:
                # q<0 over the integers <=> not (nq - 1 < 0)
                return lnot(bool_atom(mk_atom('lt', (sub(nq, ONE),), isbool=True)))
        elif q.t[0][1] < 0:
            # q<0  <=> not (q>=0) <=> not( nq<=0 ) <=> not(nq<0 or nq==0)
            return lnot(lor(cmp_eq0(nq), bool_atom(mk_atom('lt', (nq,), isbool=True))))
    return bool_atom(mk_atom('lt', (q,), isbool=True))


def _inf_sign(p):
    for m, c in p.t:
        if len(m) == 1 and m[0][0] is INF_ATOM and m[0][1] == 1:
            if all(not any(a is INF_ATOM for a, e in m2) for m2, c2 in p.t if m2 is not m):
                rest = [a for m2, c2 in p.t if m2 is not m for a, e in m2]
                if all(a.op == 'finite' for a in rest):
                    return 1 if c > 0 else -1
    return None


def cmp_eq0(p):
    c = const_of(p)
    if c is not None:
        return leaf(c == 0)
    if p is NAN:
        return FALSE
    sg = sign(p) or _bsign(p)
    if sg in ('+', '-'):
        return FALSE
    if is_zero(p) and not p.nan:
        return TRUE
    q = _norm_cmp(p)
    if q.t[0][1] < 0:
        q = neg(q)
    # factor atoms with non-strict positivity are kept
    return bool_atom(mk_atom('eq', (q,), isbool=True))


def cmp_lt(p, q):
    return cmp_lt0(sub(p, q))


def cmp_eq(p, q):
    return cmp_eq0(sub(p, q))


def _lt_leaf(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is None or pb is None:
        if isinstance(a, str) and isinstance(b, str):
            return leaf(a < b)
        return as_bool(opaque('lt', leaf(a), leaf(b)))
    return cmp_lt(pa, pb)


def s_lt(a, b):
    return apply2('<', _lt_leaf, a, b)


def s_gt(a, b):
    return s_lt(b, a)


def _le_leaf(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is not None and pb is not None:
        d = sub(pa, pb)
        if const_of(d) is None and not d.nan and d.real and _intpoly(_norm_cmp(d)) and _inf_sign(d) is None:
            q = _norm_cmp(d)
            sg = sign(d) or _bsign(d)
            if sg is None and all(m and m[0][0].op != 'slack' for m, c in q.t if m):
                return cmp_lt0(sub(q, ONE))
    return lor(_lt_leaf(a, b), _eq_leaf(a, b))


def s_le(a, b):
    return apply2('<=', _le_leaf, a, b)


def s_ge(a, b):
    return s_le(b, a)


def _eq_leaf(a, b):
    pa, pb = as_poly(a), as_poly(b)
    if pa is not None and pb is not None:
        return cmp_eq(pa, pb)
    if isinstance(a, SymC) or isinstance(b, SymC):
        if a is b:
            return TRUE
        if not isinstance(a, SymC):
            a, b = b, a
        return bool_atom(mk_atom('streq', (leaf(a), b), isbool=True, deps=a.deps))
    if (pa is None) != (pb is None):
        # number against constant: symbolic atom could be anything if opaque
        p = pa if pa is not None else pb
        o = b if pa is not None else a
        if const_of(p) is not None:
            return FALSE
        if o is None and not p.unmod and p.t:
            return FALSE
        return as_bool(app('eqc', leaf(p), o))
    return leaf(a == b)


def s_eq(a, b):
    return apply2('==', _eq_leaf, a, b)


def s_ne(a, b):
    return lnot(s_eq(a, b))


class SymC:
    """symbolic constant (e.g. unknown string)"""

    def __init__(self, name):
        self.name = name
        self.deps = (name,)

    def __repr__(self):
        return '<%s>' % self.name


def as_bool(s):
    """coerce numeric S used as boolean"""
    def f(v):
        if isinstance(v, bool):
            return leaf(v)
        if isinstance(v, Poly):
            a = single_atom(v)
            if a is not None and a.isbool:
                return bool_atom(a)
            c = const_of(v)
            if c is not None:
                return leaf(c != 0)
            if a is not None:
                return bool_atom(mk_atom('istrue', (a,), isbool=True))
            return lnot(cmp_eq0(v))
        return leaf(bool(v))
    return apply1('asbool', f, s)


def as_num(s):
    """booleans -> 0/1"""
    def f(v):
        if isinstance(v, bool):
            return num(int(v))
        return leaf(v)
    return apply1('asnum', f, s)


def is_const(s, v):
    return s.kind == 'L' and not isinstance(s.val, Poly) and s.val is v


def s_const(s):
    """python constant for a const leaf (Fraction/str/bool/None) or raise KeyError"""
    if s.kind == 'L':
        if isinstance(s.val, Poly):
            c = const_of(s.val)
            if c is not None:
                return c
        elif not isinstance(s.val, SymC):
            return s.val
    raise KeyError


def isnan(s):
    def f(v):
        p = as_poly(v)
        if p is None:
            return FALSE
        if p is NAN:
            return TRUE
        if not p.nan:
            return FALSE
        while len(p.t) == 1:
            m, c = p.t[0]
            if len(m) == 1 and m[0][0].op == 'abs' and m[0][1] > 0:
                q = m[0][0].args[0]
                if isinstance(q, Poly):
                    p = q
                    continue
                if isinstance(q, S):
                    return isnan(q)
            break
        if p.t and p.t[0][1] != 1:
            p = scale(p, 1 / p.t[0][1])
        r = bool_atom(mk_atom('isnan', (p,), isbool=True, nan=False))
        # the k-th index satisfying a mask satisfies it
        for x in walk_atoms(p):
            if x.op == 'nth' and len(x.args[0].vars) == 1 and id(x) not in _in_nth and 'isnan' in _ops(x.args[0].body):
                _in_nth.add(id(x))
                try:
                    g = subst_lam(x.args[0], leaf(atom_poly(x)))
                    if land(truth(g), r) is FALSE:
                        return FALSE
                finally:
                    _in_nth.discard(id(x))
        return r
    return apply1('isnan', f, s)


_in_nth = set()


def subst_lam(L, v):
    return lam_apply(L, [v])


def _ops(s):
    out = set()
    for a in walk_atoms(s):
        out.add(a.op)
    return out


# ------------------------------------------------------------------ apps
SIMP = {}
ATTR = {}


ATTR['carry'] = dict(nan=True)
CARRY = {}          # loop id -> value before the loop (while closing a loop over own lines)


def app(fn, *args, **attrs):
    """Application of named function; S args distribute over guards."""
    if fn == 'carry' and CARRY and args[0] in CARRY:
        return CARRY[args[0]](args[1:])
    if any(isinstance(x, Lam) for x in args):
        h = [t for x in args if isinstance(x, Lam) for t in hoistable(x)]
        if h:
            t = min(h, key=lambda a: a.id)
            return ite(bool_atom(t), app(fn, *[_cof_arg(x, t, True) for x in args], **attrs),
                       app(fn, *[_cof_arg(x, t, False) for x in args], **attrs))
    at = dict(ATTR.get(fn, {}))
    at.update(attrs)

    def go(*vals):
        vals = tuple(vals)
        simp = SIMP.get(fn)
        if simp is not None:
            r = simp(vals)
            if r is not None:
                return r
        a = mk_atom(fn, vals, **at)
        if a.isbool:
            return bool_atom(a)
        return leaf(atom_poly(a))
    key = 'app:' + fn + (repr(sorted(attrs.items())) if attrs else '')
    return applyn(key, go, args)


def opaque(reason, *args):
    """unmodelled operation: uninterpreted, marks term as undecided"""
    return app('?' + reason, *args, unmod=True, real=True, nan=True)


# ------------------------------------------------------------------ lambda
def lam(vars_, lens, body):
    """close body over vars_ (list of ivar atoms); body is S."""
    level = 1 + max([body.level] + [l.level for l in lens])
    m = {}
    bs = []
    for k, v in enumerate(vars_):
        b = mk_atom('bound', (level, k), isint=True, nonneg=True)
        bs.append(b)
        m[v] = P(atom_poly(b))
    body2 = subst(body, m)
    lens2 = tuple(lens)
    key = (tuple(bs), lens2, body2)
    L = _lams.get(key)
    if L is not None:
        return L
    L = Lam()
    L.id = _nid()
    L.vars = tuple(bs)
    L.lens = lens2
    L.body = body2
    deps = set(body2.deps)
    free = set(body2.free)
    for l in lens2:
        deps |= l.deps
        free |= l.free
    L.deps = frozenset(deps)
    L.free = frozenset(free)
    L.level = level
    L.unmod = body2.unmod or any(l.unmod for l in lens2)
    _lams[key] = L
    return L


_hoist = {}
HOIST_CAP = 4


def hoistable(L):
    """guards inside a lambda that do not depend on its bound variables"""
    r = _hoist.get(L)
    if r is None:
        out, body = set(), set()
        for k, s in enumerate(L.lens + (L.body,)):
            if not isinstance(s, S):
                continue
            seen, st = set(), [s]
            while st:
                y = st.pop()
                if y in seen or y.kind != 'N':
                    continue
                seen.add(y)
                if y.atom.level < L.level:
                    (out if k < len(L.lens) else body).add(y.atom)
                st.append(y.hi)
                st.append(y.lo)
        if len(body) <= HOIST_CAP:
            out |= body
        r = _hoist[L] = tuple(out)
    return r


def _cof_arg(x, t, v):
    if isinstance(x, S):
        return cof(x, t, v)
    if isinstance(x, Lam) and t in hoistable(x):
        vs, b = lam_open(x)
        lens = [cof(l, t, v) if isinstance(l, S) else l for l in x.lens]
        b = cof(b, t, v)
        m, ws = {}, []
        for o, l0, l in zip(vs, x.lens, lens):
            w = o
            if l is not l0:
                w = ivar()
                set_ub(w, l)
                m[o] = P(atom_poly(w))
            ws.append(w)
        return lam(ws, lens, subst(b, m))
    return x


def lam_open(L, hint='b'):
    """(fresh ivars, body)"""
    vs = [ivar(hint) for _ in L.vars]
    for v, n in zip(vs, L.lens):
        set_ub(v, n)
    return vs, subst(L.body, {b: P(atom_poly(v)) for b, v in zip(L.vars, vs)})


def lam_apply(L, args):
    return subst(L.body, {b: a for b, a in zip(L.vars, args)})


# ------------------------------------------------------------------ substitution
def subst(x, m, memo=None):
    """replace atoms by S terms. m: {Atom: S}"""
    if not m:
        return x
    if memo is None:
        memo = {}
    return _subst(x, m, memo)


def _touches(x, m):
    for k in m:
        if k.op == 'ivar':
            if k in x.free:
                return True
        elif k.op == 'bound':
            if x.level >= k.args[0]:
                return True
        else:
            return True
    return False


def _subst(x, m, memo):
    if isinstance(x, (S, Lam, Poly, Atom)):
        if not _touches(x, m):
            return x if not isinstance(x, (Poly,)) else leaf(x)
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, S):
            if x.kind == 'L':
                r = _subst(x.val, m, memo) if isinstance(x.val, Poly) else x
            else:
                c = _subst_guard(x.atom, m, memo)
                r = ite(c, _subst(x.hi, m, memo), _subst(x.lo, m, memo))
        elif isinstance(x, Poly) and len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0][1] == 1:
            r = _subst_atom(x.t[0][0][0][0], m, memo)
        elif isinstance(x, Poly):
            r = num(0)
            const_part = {}
            for mono, c in x.t:
                if not any(_touches(a, m) for a, e in mono):
                    const_part[mono] = c
                    continue
                t = num(c)
                for a, e in mono:
                    s = _subst_atom(a, m, memo)
                    if e != 1:
                        s = s_pow(s, num(e))
                    t = s_mul(t, s)
                r = s_add(r, t)
            if const_part:
                r = s_add(leaf(mk_poly(const_part)), r)
        elif isinstance(x, Lam):
            vs, body = lam_open(x)
            body = _subst(body, m, memo)
            r = lam(vs, [_subst(l, m, memo) for l in x.lens], body)
        else:
            r = _subst_atom(x, m, memo)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, m, memo) for y in x)
    return x


def _subst_arg(y, m, memo):
    if isinstance(y, Poly):
        return _subst(y, m, memo)
    return _subst(y, m, memo)


def _subst_guard(a, m, memo):
    if a in m:
        return as_bool(m[a])
    if not _touches(a, m):
        return bool_atom(a)
    if a.op == 'lt':
        return apply1('lt0', lambda v: cmp_lt0(as_poly(v)) if as_poly(v) is not None else as_bool(opaque('lt', leaf(v))), _subst(a.args[0], m, memo))
    if a.op == 'eq':
        return apply1('eq0', lambda v: cmp_eq0(as_poly(v)) if as_poly(v) is not None else as_bool(opaque('eq', leaf(v))), _subst(a.args[0], m, memo))
    if a.op == 'isnan':
        return isnan(_subst(a.args[0], m, memo))
    if a.op == 'istrue':
        return as_bool(_subst_atom(a.args[0], m, memo))
    return as_bool(_subst_atom(a, m, memo))


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    if not _touches(a, m):
        if a.isbool:
            return bool_atom(a)
        return leaf(atom_poly(a))
    if a.op in ('sum', 'poly'):
        return _subst(a.args[0], m, memo)
    if a.op == 'abs':
        return s_abs(_subst(a.args[0], m, memo))
    if a.op in ('lt', 'eq', 'isnan', 'istrue'):
        return _subst_guard(a, m, memo)
    args = [_subst_arg(y, m, memo) for y in a.args]
    attrs = dict(real=a.real, nonneg=a.nonneg, pos=a.pos, isint=a.isint, isbool=a.isbool)
    if a.op.startswith('?'):
        attrs['unmod'] = True
        attrs['nan'] = True
    if a.op in ('sym', 'in', 'lab', 'time'):
        attrs['deps'] = tuple(a.deps)
        attrs['nan'] = a.nan
        attrs['unmod'] = a.unmod
    elif a.nan and not _meta(a.args)[4]:
        attrs['nan'] = True
    return app(a.op, *args, **attrs)


# ------------------------------------------------------------------ init
def _init():
    global NAN_ATOM, INF_ATOM, I_ATOM, PI_ATOM, ONE, ZERO, NAN, INF, TRUE, FALSE, NONE, PI, IU
    NAN_ATOM = mk_atom('nanconst', (), nan=True)
    INF_ATOM = mk_atom('infconst', (), pos=True)
    I_ATOM = mk_atom('I', (), real=False)
    PI_ATOM = mk_atom('pi', (), pos=True)
    ZERO = mk_poly({})
    ONE = mk_poly({(): F(1)})
    NAN = atom_poly(NAN_ATOM)
    INF = atom_poly(INF_ATOM)
    PI = atom_poly(PI_ATOM)
    IU = atom_poly(I_ATOM)
    TRUE = leaf(True)
    FALSE = leaf(False)
    NONE = leaf(None)


NAN_ATOM = INF_ATOM = I_ATOM = PI_ATOM = None
_init()
_BASE = [(d, dict(d)) for d in (_atoms, _polys, _ss, _lams, _consts, _by_fn)]


# ------------------------------------------------------------------ equality
def s_equal(a, b):
    """S bool: where are a and b equal (value-graph equality)"""
    def f(x, y):
        if x is y:
            return TRUE
        px, py = as_poly(x), as_poly(y)
        if px is not None and py is not None:
            return leaf(poly_eq(px, py))
        return leaf(type(x) == type(y) and x == y)
    return apply2('equal', f, a, b)


def same(a, b):
    return a is b or s_equal(a, b) is TRUE


def leaves(s, seen=None):
    if seen is None:
        seen = set()
    if s in seen:
        return
    seen.add(s)
    if s.kind == 'L':
        yield s.val
    else:
        yield from leaves(s.hi, seen)
        yield from leaves(s.lo, seen)


def paths(s, pred, pre=()):
    """guard cubes leading to leaves satisfying pred (for reports)"""
    if s.kind == 'L':
        if pred(s.val):
            yield pre, s.val
        return
    yield from paths(s.hi, pred, pre + ((s.atom, True),))
    yield from paths(s.lo, pred, pre + ((s.atom, False),))


def consistent(cube):
    """light theory check of a conjunction of guard literals"""
    for i, (a, v) in enumerate(cube):
        for b, w in cube[i + 1:]:
            k = implied(b, a, v)
            if k is not None and k != w:
                return False
    return True


def walk_atoms(x, seen=None):
    """all atoms reachable inside term x"""
    if seen is None:
        seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, (Atom, Poly, S, Lam)):
            continue
        if y in seen:
            continue
        seen.add(y)
        if isinstance(y, Atom):
            yield y
            st.extend(y.args)
        elif isinstance(y, Poly):
            for m, c in y.t:
                for a, e in m:
                    st.append(a)
        elif isinstance(y, S):
            if y.kind == 'L':
                st.append(y.val)
            else:
                st.extend((y.atom, y.hi, y.lo))
        else:
            st.append(y.body)
            st.extend(y.lens)


# ------------------------------------------------------------------ display
_BUDGET = [10 ** 9]


def show_atom(a, d=0):
    if d > 7 or _BUDGET[0] < 0:
        return '..'
    _BUDGET[0] -= 8
    if a.op == 'sym':
        return a.args[0]
    if a.op == 'ivar':
        return a.args[0]
    if a.op == 'bound':
        return '#%d.%d' % a.args
    if a.op in ('sum', 'poly'):
        return '(' + show_poly(a.args[0], d + 1) + ')'
    if a.op == 'pi':
        return 'pi'
    if a.op == 'I':
        return 'j'
    if a.op == 'in':
        return '%s[%s]' % (a.args[0], ', '.join(show_any(x, d + 1) for x in a.args[1:]))
    if a.op == 'lt':
        return show_poly(a.args[0], d + 1) + ' < 0'
    if a.op == 'eq':
        return show_poly(a.args[0], d + 1) + ' == 0'
    return '%s(%s)' % (a.op, ', '.join(show_any(x, d + 1) for x in a.args))


def show_any(x, d=0):
    if isinstance(x, Atom):
        return show_atom(x, d)
    if isinstance(x, Poly):
        return show_poly(x, d)
    if isinstance(x, S):
        return show(x, d)
    if isinstance(x, Lam):
        return show_lam(x, d)
    if isinstance(x, tuple):
        return '(' + ', '.join(show_any(y, d) for y in x) + ')'
    return repr(x)


def show_poly(p, d=0):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        if _BUDGET[0] < 0:
            out.append('..')
            break
        fs = []
        for a, e in m:
            s = show_atom(a, d)
            fs.append(s if e == 1 else '%s^%s' % (s, e))
        if c != 1 or not fs:
            fs.insert(0, str(c))
        out.append('*'.join(fs))
    return ' + '.join(out)


def show(s, d=0):
    if d > 7 or _BUDGET[0] < 0:
        return '..'
    _BUDGET[0] -= 4
    if s.kind == 'L':
        return show_poly(s.val, d) if isinstance(s.val, Poly) else repr(s.val)
    if s.hi is TRUE and s.lo is FALSE:
        return '[%s]' % show_atom(s.atom, d)
    return 'ite(%s, %s, %s)' % (show_atom(s.atom, d), show(s.hi, d + 1), show(s.lo, d + 1))


def show_lam(L, d=0):
    return 'λ%s<%s. %s' % (','.join(show_atom(v) for v in L.vars), ','.join(show(l, d + 1) for l in L.lens), show(L.body, d + 1))


def short(x, n=300):
    _BUDGET[0] = 4 * n + 2000
    s = show_any(x)
    return s if len(s) <= n else s[:n] + '…'
