"""Curated algebra of mathematical functions used by the value graph."""
from fractions import Fraction as F
from . import terms as T
from .terms import (SIMP, ATTR, P, num, leaf, const, const_of, atom_poly, mk_atom,
                    mul, add, neg, sub, powr, div, sign, as_poly, single_atom, app,
                    Lam, lam, lam_open, s_add, s_sub, s_mul, s_div, s_pow, ite, opaque)


def _pi_coeff(p):
    """p == c*pi ? return c"""
    if not p.t:
        return F(0)
    if len(p.t) == 1:
        m, c = p.t[0]
        if len(m) == 1 and m[0][0] is T.PI_ATOM and m[0][1] == 1:
            return c
    return None


def _split_pi(p):
    """p = rest + c*pi"""
    rest = {}
    c = F(0)
    for m, k in p.t:
        if len(m) == 1 and m[0][0] is T.PI_ATOM and m[0][1] == 1:
            c += k
        else:
            rest[m] = k
    return T.mk_poly(rest), c


def _trig(fn):
    def simp(vals):
        p = as_poly(vals[0])
        if p is None:
            return None
        if p is T.NAN:
            return leaf(T.NAN)
        rest, c = _split_pi(p)
        c2 = c * 2
        k = c2.numerator // c2.denominator
        frac = (c2 - k) / 2
        k = k % 4
        if frac:
            rest = add(rest, mul(const(frac), T.PI))
        f = fn
        sgn = 1
        # shift by k*pi/2
        for _ in range(k):
            if f == 'cos':
                f, sgn = 'sin', -sgn
            else:
                f = 'cos'
        if not rest.t:
            v = const(1 if f == 'cos' else 0)
            return leaf(T.scale(v, F(sgn)))
        if rest.t[0][1] < 0:
            rest = neg(rest)
            if f == 'sin':
                sgn = -sgn
        a = single_atom(rest)
        if a is not None and a.op == 'arctan2':
            y, x = a.args
            h = powr(add(mul(x, x), mul(y, y)), F(1, 2))
            r = div(x if f == 'cos' else y, h)
            return leaf(T.scale(r, F(sgn)))
        if len(rest.t) > 1:
            # angle addition, canonical expansion
            m0, c0 = rest.t[0]
            a_ = T.mk_poly({m0: c0})
            b_ = sub(rest, a_)
            ca, sa = app('cos', leaf(a_)), app('sin', leaf(a_))
            cb, sb = app('cos', leaf(b_)), app('sin', leaf(b_))
            if f == 'cos':
                r = s_sub(s_mul(ca, cb), s_mul(sa, sb))
            else:
                r = s_add(s_mul(sa, cb), s_mul(ca, sb))
            return s_mul(num(sgn), r)
        at = mk_atom(f, (rest,))
        return leaf(T.scale(atom_poly(at), F(sgn)))
    return simp


SIMP['sin'] = _trig('sin')
SIMP['cos'] = _trig('cos')


def _arctan2(vals):
    y, x = as_poly(vals[0]), as_poly(vals[1])
    if y is None or x is None:
        return None
    # positive common factor cancels
    cy, my, ry = T.content(y)
    cx, mx, rx = T.content(x)
    if y.t and x.t:
        dm = dict(my)
        common = {a: min(e, dict(mx)[a]) for a, e in dm.items() if a in dict(mx) and a.pos}
        # any factor present only on one side cannot cancel
        if common:
            inv = T.mk_poly({tuple(sorted(((a, -e) for a, e in common.items()), key=lambda q: q[0].id)): F(1)})
            y, x = mul(y, inv), mul(x, inv)
        # common positive 'sum' factor with differing exponents (e.g. 1/norm)
        for a in set(dict(my)) | set(dict(mx)):
            if a.pos or a.nonneg:
                ey, ex = dict(T.content(y)[1]).get(a, F(0)), dict(T.content(x)[1]).get(a, F(0))
                e = min(ey, ex) if ey and ex and (ey > 0) == (ex > 0) else F(0)
                if ey < 0 and ex < 0:
                    e = max(ey, ex)
                if e:
                    inv = T.mk_poly({((a, -e),): F(1)})
                    y, x = mul(y, inv), mul(x, inv)
        cy, cx = abs(T.content(y)[0]), abs(T.content(x)[0])
        y, x = T.scale(y, 1 / cy), T.scale(x, 1 / cy)
        # polar pair (r sin t, r cos t), r>0 -> t only modulo 2*pi: kept symbolic
    return leaf(atom_poly(mk_atom('arctan2', (y, x))))


SIMP['arctan2'] = _arctan2


def _exp(vals):
    p = as_poly(vals[0])
    if p is None:
        return None
    if p is T.NAN:
        return leaf(T.NAN)
    r = T.ONE
    for m, c in p.t:
        # exp(I*pi*c)
        has_i = any(a is T.I_ATOM for a, e in m)
        other = tuple((a, e) for a, e in m if a is not T.I_ATOM)
        if has_i and len(other) == 1 and other[0][0] is T.PI_ATOM and other[0][1] == 1:
            k = (c * 2)
            if k.denominator == 1:
                r = mul(r, powr(T.IU, F(int(k) % 4)))
                continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log':
            lp = as_poly(m[0][0].args[0])
            if lp is not None and T.sign(lp) in ('+', '0+'):
                r = mul(r, powr(lp, c))
                continue
        at = mk_atom('expm', (T.mk_poly({m: F(1)}),), real=not has_i, pos=not has_i)
        r = mul(r, T._mono_norm({at: c}))
    return leaf(r)


SIMP['exp'] = _exp


def _expm(vals):
    return _exp(vals)


SIMP['expm'] = _expm


def _conj(vals):
    p = as_poly(vals[0])
    if p is None:
        return None
    if p.real:
        return leaf(p)
    r = T.ZERO
    for m, c in p.t:
        t = const(c)
        for a, e in m:
            if a.real:
                f = T._mono_norm({a: e})
            elif a is T.I_ATOM:
                f = T._mono_norm({a: -e}) if int(e) % 2 else T._mono_norm({a: e})
                f = T.scale(T._mono_norm({a: e}), F(-1)) if int(e) % 2 else T._mono_norm({a: e})
            elif a.op == 'expm':
                f = T._mono_norm({a: -e})
            elif a.op == 'conj':
                f = powr(a.args[0], e)
            elif a.op in ('sum', 'poly'):
                inner = _conj((a.args[0],))
                f = powr(inner.val, e)
            else:
                f = T._mono_norm({mk_atom('conj', (atom_poly(a),), real=False): e})
            t = mul(t, f)
        r = add(r, t)
    return leaf(r)


SIMP['conj'] = _conj


def _csd(vals):
    a, b_, params, k = vals
    nn = any(isinstance(x, Lam) and maybe_nan(x.body) for x in (a, b_))
    if a is b_:
        return T.app('psd', a, params, k, nonneg=True, nan=nn)
    if b_.id < a.id:
        return T.app('conj', T.app('csd', b_, a, params, k, real=False, nan=nn))


SIMP['csd'] = _csd


def _real_imag(fn):
    def simp(vals):
        p = as_poly(vals[0])
        if p is None:
            return None
        if p.real:
            return leaf(p if fn == 'real' else T.ZERO)
        r = T.ZERO
        for m, c in p.t:
            re = tuple((a, e) for a, e in m if a.real)
            cx = tuple((a, e) for a, e in m if not a.real)
            rp = T.mk_poly({re: c})
            if not cx:
                if fn == 'real':
                    r = add(r, rp)
                continue
            if len(cx) == 1 and cx[0][0] is T.I_ATOM:
                if fn == 'imag':
                    r = add(r, rp)
                continue
            cp = T.mk_poly({cx: F(1)})
            # canonical between z and conj(z)
            cj = _conj((cp,)).val
            sg = 1
            if cj.id < cp.id:
                cp = cj
                sg = 1 if fn == 'real' else -1
            r = add(r, mul(rp, T.scale(atom_poly(mk_atom(fn, (cp,))), F(sg))))
        return leaf(r)
    return simp


SIMP['real'] = _real_imag('real')
SIMP['imag'] = _real_imag('imag')


def _angle(vals):
    p = as_poly(vals[0])
    if p is None:
        return None
    # positive real factors do not change the angle
    c, mono, rest = T.content(p)
    out = rest if c > 0 else neg(rest)
    for a, e in mono:
        if a.pos:
            continue
        out = mul(out, T._mono_norm({a: e}))
    return leaf(atom_poly(mk_atom('angle', (out,))))


SIMP['angle'] = _angle


def _mod(vals):
    a, b = as_poly(vals[0]), as_poly(vals[1])
    if a is None or b is None:
        return None
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb:
        return num(ca - cb * ((ca / cb).numerator // (ca / cb).denominator))
    # drop whole multiples of b
    if b.t:
        m, c = b.t[0]
        if len(b.t) == 1:
            k = F(0)
            drop = T.ZERO
            for mm, cc in a.t:
                q = cc / c
                if mm == m:
                    k = F(q.numerator // q.denominator)
                elif m and mm and q.denominator == 1:
                    # whole integer-valued multiple of b
                    quo = T.mul(T.mk_poly({mm: F(1)}), T.powr(T.mk_poly({m: F(1)}), F(-1))) if any(x is m[0][0] for x, e in mm) else None
                    if quo is not None and len(quo.t) == 1 and all(x.isint and e.denominator == 1 and e > 0 for x, e in quo.t[0][0]) and sign(b) == '+':
                        drop = T.add(drop, T.mk_poly({mm: cc}))
            if k:
                a = sub(a, mul(const(k), b))
            if drop.t:
                a = sub(a, drop)
    at = single_atom(a)
    if at is not None and at.op == 'mod' and T.poly_eq(at.args[1], b):
        return leaf(a)
    if not a.t:
        return num(0)
    if a.free:
        neg = T.cmp_lt0(a)
        over = T.cmp_lt0(sub(a, b))
        if neg is T.FALSE and over is T.TRUE:
            return leaf(a)
        if neg is T.TRUE and T.cmp_lt0(add(a, b)) is T.FALSE:
            return leaf(add(a, b))
        if over is T.TRUE and T.cmp_lt0(add(a, b)) is T.FALSE:
            return T.ite(neg, leaf(add(a, b)), leaf(a))
        if neg is T.FALSE and T.cmp_lt0(sub(a, T.scale(b, F(2)))) is T.TRUE:
            return T.ite(over, leaf(a), leaf(sub(a, b)))
    sg = sign(b)
    isint = T._intpoly(a) and T._intpoly(b)
    return leaf(atom_poly(mk_atom('mod', (a, b), nonneg=sg in ('+',), isint=isint)))


SIMP['mod'] = _mod


def _floor(fn):
    def simp(vals):
        p = as_poly(vals[0])
        if p is None:
            if isinstance(vals[0], str):
                try:
                    return num(int(vals[0]))
                except ValueError:
                    return None
            return None
        c = const_of(p)
        if c is not None:
            fl = c.numerator // c.denominator
            if fn == 'floor':
                return num(fl)
            if fn == 'ceil':
                return num(-((-c.numerator) // c.denominator))
            return num(fl if c >= 0 else -((-c.numerator) // c.denominator))
        if T._intpoly(p):
            return leaf(p)
        f = fn
        if fn == 'trunc' and sign(p) in ('+', '0+'):
            f = 'floor'
        nn = sign(p) in ('+', '0+')
        if f in ('floor', 'ceil'):
            # floor(x + k) = floor(x)+k for integer-valued k
            ip = {}
            for m, k in p.t:
                kk = F(k.numerator // k.denominator)
                if kk and all(a.isint and e.denominator == 1 and e > 0 for a, e in m):
                    ip[m] = kk
            if ip:
                ip = T.mk_poly(ip)
                r = SIMP[f]((sub(p, ip),))
                return s_add(r, leaf(ip))
        if f == 'floor' and p.free and not p.nan:
            # 0 <= x < 1 from index ranges: x = r / d with positive d
            d = {}
            for m, k in p.t:
                for a, e in m:
                    if e < 0 and a.pos:
                        d[a] = max(d.get(a, 0), -e)
            if d:
                den = T.mk_poly({(): F(1)})
                for a, e in d.items():
                    den = mul(den, T.powr(atom_poly(a), e))
                r = mul(p, den)
                if T.cmp_lt0(r) is T.FALSE and T.cmp_lt0(sub(r, den)) is T.TRUE:
                    return num(0)
        return leaf(atom_poly(mk_atom(f, (p,), isint=True, nonneg=nn)))
    return simp


simp_floor = _floor('floor')
SIMP['floor'] = simp_floor
SIMP['ceil'] = _floor('ceil')
SIMP['trunc'] = _floor('trunc')


def _log(vals):
    p = as_poly(vals[0])
    if p is None:
        return None
    if const_of(p) == 1:
        return num(0)
    return None


SIMP['log'] = _log


def s_min(a, b):
    return ite(T.s_lt(b, a), b, a)


def s_max(a, b):
    return ite(T.s_lt(a, b), b, a)


# ------------------------------------------------------------------ reductions
# fn -> (homogeneous degree under positive factors, shift-equivariant?, negation)
RED = {
    'max': (1, 1), 'min': (1, 1), 'median': (1, 1), 'std': (1, 0), 'var': (2, 0),
    'nanmax': (1, 1), 'nanmin': (1, 1), 'nanmedian': (1, 1), 'nanstd': (1, 0),
    'nanvar': (2, 0), 'quantile': (1, 1), 'nanquantile': (1, 1),
    'nansum': (1, None), 'nanmean': (1, 1), 'pmax': (1, 1), 'pmin': (1, 1),
    'argmax': (0, 0), 'argmin': (0, 0), 'prod': (None, None),
}
NEGMAP = {'max': 'min', 'min': 'max', 'nanmax': 'nanmin', 'nanmin': 'nanmax',
          'argmax': None, 'argmin': None, 'pmax': 'pmin', 'pmin': 'pmax'}


def split_indep(p, vs):
    """poly -> (dependent part, independent part) wrt index atoms vs"""
    dep, ind = {}, {}
    for m, c in p.t:
        if any(a.free & vs for a, e in m):
            dep[m] = c
        else:
            ind[m] = c
    return T.mk_poly(dep), T.mk_poly(ind)


def common_factor(polys, vs, positive=True):
    """common monomial factor (independent of vs) of nonzero polys"""
    common = None
    for p in polys:
        if not p.t:
            continue
        for m, c in p.t:
            d = {a: e for a, e in m if not (a.free & vs) and (a.pos or not positive) and a.real}
            if common is None:
                common = d
            else:
                common = {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in common.items()
                          if a in d and (e > 0) == (d[a] > 0)}
            if not common:
                return T.ONE
    if not common:
        return T.ONE
    return T.mk_poly({tuple(sorted(common.items(), key=lambda x: x[0].id)): F(1)})


def rat_content(body):
    """rational content (with the sign of the first nonzero leaf) of a decision term"""
    from math import gcd
    nu = de = None
    sg = 1
    for v in T.leaves(body):
        p = as_poly(v)
        if p is None or p is T.NAN:
            continue
        for m, c in p.t:
            if isinstance(c, F):
                a, b = abs(c.numerator), c.denominator
            else:
                return F(1)
            if nu is None:
                nu, de = a, b
                sg = 1 if c > 0 else -1
            else:
                nu, de = gcd(nu, a), de * b // gcd(de, b)
    return F(sg * nu, de) if nu else F(1)


def _expands(n, body):
    """constant-length sums are written out unless that would multiply many guards"""
    if n > 12:
        return False
    if n <= 4:
        return True
    seen, st = set(), [body]
    while st:
        x = st.pop()
        if isinstance(x, T.S) and x not in seen and x.kind == 'N':
            seen.add(x)
            if (len(seen) + 1) ** n > 64:
                return False
            st.extend((x.hi, x.lo))
    return True


def _sum_over_selected(v, n, body):
    """sum over the selected elements = masked sum over all elements"""
    a = T.single_atom(n.val) if n.kind == 'L' and isinstance(n.val, T.Poly) else None
    if a is None or a.op != 'Sum':
        return None
    L = None
    hits = {}
    for x in T.walk_atoms(body):
        if x.op == 'nth' and v in x.free:
            q = x.args[2]
            q = T.as_poly(q.val) if isinstance(q, T.S) and q.kind == 'L' else q
            if not isinstance(q, T.Poly) or T.single_atom(q) is not v:
                continue
            if L is None:
                L = x.args[0]
            if x.args[0] is not L:
                return None
            hits[x] = x.args[1]
    if L is None or not isinstance(L, Lam):
        return None
    vs, b = lam_open(L)
    b = T.truth(b)
    if not T.same(s_sum(vs, list(L.lens), ite(b, num(1), num(0))), n):
        return None
    m = {x: P(atom_poly(vs[int(T.s_const(k) if isinstance(k, T.S) else T.const_of(k) if isinstance(k, T.Poly) else k)])) for x, k in hits.items()}
    body = T.subst(body, m)
    if any(v in x.free for x in T.walk_atoms(body)) or v in T.walk_atoms(body):
        return None
    return s_sum(vs, list(L.lens), ite(b, body, num(0)))


def s_sum(vars_, lens, body):
    """Sum over index vars (linear normal form)."""
    vars_ = list(vars_)
    lens = list(lens)
    # expand constant small lengths
    for k, l in enumerate(lens):
        try:
            n = T.s_const(l)
        except KeyError:
            continue
        if isinstance(n, F) and n.denominator == 1 and _expands(n, body):
            rest_v = vars_[:k] + vars_[k + 1:]
            rest_l = lens[:k] + lens[k + 1:]
            r = num(0)
            for i in range(int(n)):
                b = T.subst(body, {vars_[k]: num(i)})
                r = s_add(r, s_sum(rest_v, rest_l, b) if rest_v else b)
            return r
    if not vars_:
        return body
    body = T.as_num(body)
    if len(vars_) == 1:
        r = _sum_over_selected(vars_[0], lens[0], body)
        if r is not None:
            return r
    # guards independent of the indices come out
    t = _indep_guard(body, set(vars_))
    if t is not None:
        return ite(T.bool_atom(t), s_sum(vars_, lens, T.cof(body, t, True)), s_sum(vars_, lens, T.cof(body, t, False)))
    # eliminate delta guards: ite(var == e, v, 0)
    vs = frozenset(vars_)
    if body.kind == 'L':
        p = as_poly(body.val)
        if p is None:
            return opaque('Sum', lam(vars_, lens, body))
        out = num(0)
        for m, c in p.t:
            ind = tuple((a, e) for a, e in m if not (a.free & vs))
            dep = tuple((a, e) for a, e in m if a.free & vs)
            used = frozenset().union(*[a.free for a, e in dep]) & vs if dep else frozenset()
            t = T.mk_poly({ind: c})
            s = P(t)
            bv = [v for v in vars_ if v in used]
            bl = [l for v, l in zip(vars_, lens) if v in used]
            for v, l in zip(vars_, lens):
                if v not in used:
                    s = s_mul(s, l)
            if bv:
                L = lam(bv, bl, P(T.mk_poly({dep: F(1)})))
                nn = all(a.nonneg or (e.denominator == 1 and int(e) % 2 == 0 and a.real) for a, e in dep)
                s = s_mul(s, app('Sum', L, nonneg=nn, real=T.mk_poly({dep: F(1)}).real))
            out = s_add(out, s)
        return out
    polys = [as_poly(v) for v in T.leaves(body)]
    if any(p is None for p in polys):
        return opaque('Sum', lam(vars_, lens, body))
    f = T.mul(common_factor(polys, vs, positive=False), T.const(rat_content(body)))
    if f is not T.ONE:
        body = s_div(body, P(f))
        polys = [as_poly(v) for v in T.leaves(body)]
    nn = all(sign(p) in ('+', '0+', '0') for p in polys)
    L = lam(vars_, lens, body)
    return s_mul(P(f), app('Sum', L, nonneg=nn, isint=all(T._intpoly(p) and not p.nan and p is not T.NAN for p in polys)))


def _indep_guard(s, vs):
    seen = set()
    st = [s]
    while st:
        x = st.pop()
        if x in seen or x.kind == 'L':
            continue
        seen.add(x)
        if not (x.atom.free & vs):
            return x.atom
        st.extend((x.hi, x.lo))
    return None


def _sum_resimp(vals):
    L = vals[0]
    if isinstance(L, Lam):
        vs, b = lam_open(L)
        return s_sum(vs, list(L.lens), b) if not _sum_canon(vs, L, b) else None
    return None


def _sum_canon(vs, L, b):
    for l in L.lens:
        try:
            n = T.s_const(l)
            if _expands(n, b):
                return False
        except KeyError:
            pass
    if b.kind == 'L':
        p = as_poly(b.val)
        if p is None:
            return True
        if len(p.t) != 1 or p.t[0][1] != 1:
            return False
        return all(a.free & frozenset(vs) for a, e in p.t[0][0])
    if _indep_guard(b, set(vs)) is not None:
        return False
    polys = [as_poly(v) for v in T.leaves(b)]
    if any(p is None for p in polys):
        return True
    return common_factor(polys, frozenset(vs), positive=False) is T.ONE and rat_content(b) == 1


SIMP['Sum'] = _sum_resimp


def reduce_(fn, vars_, lens, body, *extra):
    """generic reduction with affine normalisation"""
    vars_ = list(vars_)
    lens = list(lens)
    body = T.as_num(body)
    t = _indep_guard(body, set(vars_))
    if t is not None:
        return ite(T.bool_atom(t), reduce_(fn, vars_, lens, T.cof(body, t, True), *extra),
                   reduce_(fn, vars_, lens, T.cof(body, t, False), *extra))
    if fn.startswith('nan') and fn[3:] in RED and not maybe_nan(body):
        fn = fn[3:]
    if fn == 'nansum' and not maybe_nan(body):
        return s_sum(vars_, lens, body)
    if fn in ('nanmean', 'mean') and not maybe_nan(body):
        n = num(1)
        for l in lens:
            n = s_mul(n, l)
        return s_div(s_sum(vars_, lens, body), n)
    if fn in ('std', 'var') and not extra:
        n = num(1)
        for l in lens:
            n = s_mul(n, l)
        m1 = s_div(s_sum(vars_, lens, body), n)
        d = s_sub(body, m1)
        v = s_div(s_sum(vars_, lens, s_mul(d, d)), n)
        # keep as named nonneg atom so that sqrt/positivity is known
        vs = frozenset(vars_)
        return _var_atom(fn, vars_, lens, body)
    deg, shift = RED.get(fn, (None, None))
    vs = frozenset(vars_)
    small = None
    if len(lens) == 1 and fn in ('max', 'min', 'pmax', 'pmin'):
        try:
            n = T.s_const(lens[0])
            if isinstance(n, F) and 1 <= n <= 4:
                vals = [T.subst(body, {vars_[0]: num(i)}) for i in range(int(n))]
                r = vals[0]
                for v in vals[1:]:
                    r = (s_max if fn.endswith('max') else s_min)(r, v)
                return r
        except KeyError:
            pass
    if body.kind == 'L' and deg is not None:
        p = as_poly(body.val)
        if p is None:
            return opaque(fn, lam(vars_, lens, body), *extra)
        off = T.ZERO
        if shift is not None:
            p, off = split_indep(p, vs)
            if not shift:
                off = T.ZERO
        if not p.t and fn not in ('argmax', 'argmin'):
            return leaf(off) if shift else num(0)
        f = common_factor([p], vs)
        q = div(p, f) if f is not T.ONE else p
        c = abs(q.t[0][1])
        sgn = 1 if q.t[0][1] > 0 else -1
        q = T.scale(q, 1 / c)
        f = T.scale(f, c)
        g = fn
        out_s = 1
        if sgn < 0 and fn in ('median', 'nanmedian', 'nansum', 'nanmean'):
            q = neg(q)
            out_s = -1
        elif sgn < 0 and NEGMAP.get(fn):
            q = neg(q)
            out_s = -1
            g = NEGMAP[fn]
        L = lam(vars_, lens, P(q))
        nn = sign(q) in ('+', '0+') if g not in ('std', 'nanstd', 'var', 'nanvar') else True
        if g in ('argmax', 'argmin'):
            return app(g, L, *extra, isint=True, nonneg=True)
        a = app(g, L, *extra, nonneg=nn, nan=maybe_nan(P(q)))
        return s_add(leaf(off), s_mul(s_mul(num(out_s), P(powr(f, deg))), a))
    polys = [as_poly(v) for v in T.leaves(body)]
    f = T.ONE
    if deg is not None and not any(p is None for p in polys):
        f = common_factor(polys, vs)
        if f is not T.ONE:
            body = s_div(body, P(f))
    if any(p is None for p in polys):
        return opaque(fn, lam(vars_, lens, body), *extra)
    kw = {}
    if fn in ('argmax', 'argmin'):
        kw = dict(isint=True, nonneg=True)
    a = app(fn, lam(vars_, lens, body), *extra, nan=maybe_nan(body), **kw)
    return s_mul(P(powr(f, deg)), a) if f is not T.ONE and deg else a


def _var_atom(fn, vars_, lens, body):
    """var/std with affine normal form: var(c*f+d)=c^2 var(f)"""
    vs = frozenset(vars_)
    if body.kind == 'L' and as_poly(body.val) is not None:
        p, off = split_indep(as_poly(body.val), vs)
        if not p.t:
            return num(0)
        # common factor of any sign: std takes |f|
        f = common_factor([p], vs, positive=False)
        q = div(p, f) if f is not T.ONE else p
        c = q.t[0][1]
        q = T.scale(q, 1 / c)
        f = T.scale(f, c)
        L = lam(vars_, lens, P(q))
        v = app('var', L, nonneg=True)
        r = s_mul(P(powr(f, 2)), v)
        return r if fn == 'var' else T.s_mul(P(T.absp(f)), s_pow(v, num(F(1, 2))))
    L = lam(vars_, lens, body)
    v = app('var', L, nonneg=True)
    return v if fn == 'var' else s_pow(v, num(F(1, 2)))


def maybe_nan(s):
    if s.kind == 'L':
        p = as_poly(s.val)
        return p is not None and (p.nan or p is T.NAN)
    return maybe_nan(s.hi) or maybe_nan(s.lo)


def _red_resimp(fn):
    def simp(vals):
        L = vals[0]
        if not isinstance(L, Lam):
            return None
        if L in _busy:
            return None
        _busy.add(L)
        try:
            vs, b = lam_open(L)
            r = reduce_(fn, vs, list(L.lens), b, *[leaf(x) if not isinstance(x, (T.S, Lam, tuple, T.Atom)) else x for x in vals[1:]])
        finally:
            _busy.discard(L)
        return r
    return simp


_busy = set()
for _f in RED:
    SIMP[_f] = _red_resimp(_f)


# any / all / count over boolean bodies
def s_any(vars_, lens, body):
    body = T.as_bool(body)
    if body is T.TRUE or body is T.FALSE:
        return body
    for k, l in enumerate(lens):
        try:
            n = T.s_const(l)
        except KeyError:
            continue
        if isinstance(n, F) and n <= 12:
            r = T.FALSE
            for i in range(int(n)):
                b = T.subst(body, {vars_[k]: num(i)})
                rv, rl = vars_[:k] + vars_[k + 1:], lens[:k] + lens[k + 1:]
                r = T.lor(r, s_any(rv, rl, b) if rv else b)
            return r
    t = _indep_guard(body, set(vars_))
    if t is not None:
        return ite(T.bool_atom(t), s_any(vars_, lens, T.cof(body, t, True)), s_any(vars_, lens, T.cof(body, t, False)))
    return T.as_bool(app('any', lam(vars_, lens, body), isbool=True))


def _any_resimp(vals):
    L = vals[0]
    if isinstance(L, Lam):
        vs, b = lam_open(L)
        bb = T.as_bool(b)
        if bb is T.TRUE or bb is T.FALSE:
            return bb
        if _indep_guard(bb, set(vs)) is not None:
            return s_any(list(vs), list(L.lens), bb)
    return None


SIMP['any'] = _any_resimp


def s_all(vars_, lens, body):
    return T.lnot(s_any(vars_, lens, T.lnot(T.as_bool(body))))


def walk_bound(p):
    return set(a for a in T.walk_atoms(p) if a.op == 'bound')


# selection of the j-th index at which a boolean mask holds -------------------
def _nth_simp(vals):
    L = vals[0]
    if isinstance(L, Lam) and len(L.vars) == 1 and L.body is T.TRUE:
        return leaf(vals[2])
    if isinstance(L, Lam) and len(L.vars) == 1 and L.body.kind == 'N' and L.body.atom.op == 'eq' and \
            L.body.hi is T.TRUE and L.body.lo is T.FALSE:
        # a single solution of a linear equation, known to be in range
        q, v = L.body.atom.args[0], L.vars[0]
        c = dict(q.t).get(((v, F(1)),))
        if c is not None:
            rest = sub(q, T.scale(atom_poly(v), c))
            s = T.scale(rest, -1 / c)
            if v not in walk_bound(rest) and T._intpoly(s) and T.cmp_lt0(s) is T.FALSE and \
                    T.s_lt(leaf(s), L.lens[0]) is T.TRUE:
                return leaf(s)
    if isinstance(L, Lam) and len(L.vars) > 1:
        ones = [k for k, n in enumerate(L.lens) if T.same(n, num(1))]
        j = const_of(as_poly(vals[1])) if as_poly(vals[1]) is not None else None
        if ones and len(ones) < len(L.vars) and j is not None:
            j = int(j)
            if j in ones:
                return num(0)
            vs, b = lam_open(L)
            b = T.subst(b, {vs[k]: num(0) for k in ones})
            keep = [k for k in range(len(vs)) if k not in ones]
            return app('nth', lam([vs[k] for k in keep], [L.lens[k] for k in keep], b), num(keep.index(j)), leaf(vals[2]))
    return None


SIMP['nth'] = _nth_simp


ATTR['nth'] = dict(isint=True, nonneg=True)
ATTR['rank_in'] = dict(isint=True, nonneg=True)


# labels ---------------------------------------------------------------------
def _lab(vals):
    # lab(name, pos(name, l)) -> l
    p = as_poly(vals[1])
    if p is not None:
        c = const_of(p)
        if c is not None and c > 0 and c.denominator == 1 and isinstance(vals[0], str) and vals[0][:1] == 't':
            # time indexes are increasing: t[c] = t[0] + (positive step)
            return T.s_add(app('lab', vals[0], num(0)), app('tstep', vals[0], num(c), pos=True))
        a = single_atom(p)
        if a is not None and a.op == 'pos' and a.args[0] == vals[0]:
            return leaf(a.args[1])
    return None


def _pos(vals):
    p = as_poly(vals[1])
    if p is not None:
        a = single_atom(p)
        if a is not None and a.op == 'lab' and a.args[0] == vals[0]:
            return leaf(a.args[1])
    return None


SIMP['lab'] = _lab
SIMP['pos'] = _pos
ATTR['pos'] = dict(isint=True, nonneg=True)
