"""Random interpretation of value-graph terms (Gulwani & Necula style).

Two normal forms that are not syntactically equal may still denote the same
function (an identity the normaliser does not know).  Before an inequality is
reported, both terms are interpreted over randomly chosen values of their
input symbols; uninterpreted functions become random (but consistent)
functions of their argument values.  Terms that agree on every sampled
interpretation are *not distinguished* and the obligation stays undecided.
This only ever withdraws alarms; it looks at terms, never at running code.
"""
import cmath
import math
import random
import time
from . import terms as T
from .terms import Atom, Poly, S, Lam


class Unsup(Exception):
    pass


def _r(x):
    """rounded key of a value"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        x = float(x)
        if x != x:
            return 'nan'
        if x in (math.inf, -math.inf):
            return x
        if abs(x) < 1e-9:
            return 0.0
        return float('%.8g' % x)
    if isinstance(x, complex):
        return ('c', _r(x.real), _r(x.imag)) if abs(x.imag) > 1e-9 else _r(x.real)
    if isinstance(x, tuple):
        return tuple(_r(y) for y in x)
    return x


HINTS = {}      # op or (op, name) -> value in every second valuation: what a rule knows about the usual range of its inputs


# inputs that only make sense in a range: no value outside of it counts as a counterexample
DOMAIN = [('lat', -90, 90), ('lon', -180, 180), ('kt', 0, 1.5), ('coh', 0, 1), ('cl', 0, 1), ('comp', 0, 1), ('fl', 0, 1e12), ('freq', 0, 1e12)]


def domain(a, key):
    if a.op in ('sym', 'in') and key:
        nm = key[0].strip('<>') if isinstance(key[0], str) else ''
        for p, lo, hi in DOMAIN:
            if nm.startswith(p):
                return lo, hi
    return -1e12, 1e12


class Env:
    shift = 0

    def __init__(self, seed, forced=()):
        self.rng = random.Random(seed)
        self.seed = seed
        self.tab = {}
        self.forced = dict(forced)
        self.memo = {}
        self.fb = {}
        self.work = 0
        self.style = seed % 3
        self.nanp = (0.0, 0.15, 0.4)[(seed // 3) % 3]
        self.pool = ()          # values around the constants the two sides compare with
        self.big = 0            # added to every size where sizes are compared with constants only
        self.peak = 0.0         # largest intermediate value
        self.wide = False

    # ------------------------------------------------------------ values
    def rand(self, a, lim=(-1e12, 1e12)):
        r = self.rng
        if a.isbool:
            return r.random() < .5
        if a.nan and r.random() < self.nanp:
            return math.nan
        if self.pool and r.random() < .4:
            v = r.choice(self.pool) * r.choice((1, 1, 1, -1)) * r.choice((1, 1, .5, .999, 1.001, 2, 10))
            if a.isint:
                v = float(round(v) + r.choice((-1, 0, 0, 1)))
            if not (v <= 0 and a.pos or v < 0 and a.nonneg) and lim[0] <= v <= lim[1]:
                return complex(v, r.gauss(0, 1) * abs(v)) if not a.real else v
        if a.isint:
            v = r.randint(1 if a.pos else 0 if a.nonneg else -4, 6)
            return float(v)
        if self.style == 0:
            v = r.randint(-6, 6) / 2
        elif self.style == 1:
            v = r.gauss(0, 2)
        else:
            v = r.uniform(-1, 1)
        if a.pos:
            v = abs(v) + .25
        elif a.nonneg:
            v = abs(v)
        if not a.real:
            return complex(v, r.gauss(0, 1))
        return v

    def fun(self, a, key):
        """value of an uninterpreted function/symbol at key; depends only on key"""
        k = (a.op, key, a.isbool, a.isint, a.nonneg, a.pos, a.real)
        v = self.tab.get(k)
        if v is None and HINTS and self.seed % 2:
            h = HINTS.get(a.op) or key and isinstance(key[0], str) and HINTS.get((a.op, key[0]))
            if h:
                v = self.tab[k] = h(random.Random('%s|%r' % (self.seed, k)), self.seed)
        if v is None:
            self.rng = random.Random('%s|%r' % (self.seed, k))
            v = self.tab[k] = self.rand(a, domain(a, key) if self.pool else None)
        return v

    def free_bounds(self, x):
        r = self.fb.get(x)
        if r is None:
            s = set()
            if isinstance(x, Atom):
                if x.op == 'bound':
                    s.add(x)
                elif x.level:
                    for y in x.args:
                        s |= self.free_bounds(y)
            elif isinstance(x, Poly):
                if x.level:
                    for m, c in x.t:
                        for a, e in m:
                            s |= self.free_bounds(a)
            elif isinstance(x, S):
                if x.kind == 'L':
                    if isinstance(x.val, Poly):
                        s |= self.free_bounds(x.val)
                elif x.level:
                    s |= self.free_bounds(x.atom) | self.free_bounds(x.hi) | self.free_bounds(x.lo)
            elif isinstance(x, Lam):
                for l in x.lens:
                    s |= self.free_bounds(l)
                s |= self.free_bounds(x.body)
                s -= set(x.vars)
            elif isinstance(x, tuple):
                for y in x:
                    s |= self.free_bounds(y)
                return frozenset(s)
            r = self.fb[x] = frozenset(s)
        return r

    def ev(self, x, b):
        if isinstance(x, S):
            while x.kind == 'N':
                x = x.hi if self.truth(self.ev(x.atom, b)) else x.lo
            v = x.val
            return self.ev(v, b) if isinstance(v, Poly) else v
        if isinstance(x, Poly):
            tot = 0.0
            for m, c in x.t:
                p = float(c)
                for a, e in m:
                    v = self.ev(a, b)
                    if isinstance(v, bool):
                        v = float(v)
                    if not isinstance(v, (int, float, complex)):
                        raise Unsup('non numeric %r' % (v,))
                    p = p * self.power(v, e)
                tot = tot + p
                if self.wide and abs(p) > self.peak:
                    self.peak = abs(p)
            return tot
        if isinstance(x, Atom):
            fb = self.free_bounds(x)
            key = (x, tuple((v, b.get(v)) for v in sorted(fb, key=lambda a: a.id))) if fb else x
            if key in self.memo:
                return self.memo[key]
            v = self.memo[key] = self.atom(x, b)
            return v
        if isinstance(x, Lam):
            return self.lam(x, b)
        if isinstance(x, tuple):
            return tuple(self.ev(y, b) for y in x)
        if isinstance(x, T.SymC):
            return '<%s>' % (x,)
        return x

    def truth(self, v):
        if isinstance(v, float) and v != v:
            return True
        return bool(v)

    def power(self, v, e):
        if e == 1:
            return v
        try:
            if e.denominator == 1:
                return v ** int(e)
            if isinstance(v, complex):
                return v ** float(e)
            if v < 0:
                return math.nan
            return v ** float(e)
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            raise Unsup('overflow')

    def lam(self, L, b):
        lens = []
        for l in L.lens:
            n = self.ev(l, b)
            if not isinstance(n, (int, float)) or n != n or n < 0 or n > 40 or abs(n - round(n)) > 1e-6:
                raise Unsup('length %r' % (n,))
            lens.append(int(round(n)))
        out = []
        bb = dict(b)

        def rec(k):
            if k == len(lens):
                self.work += 1
                if self.work > 20000:
                    raise Unsup('work')
                out.append(self.ev(L.body, bb))
                return
            for i in range(lens[k]):
                bb[L.vars[k]] = float(i)
                rec(k + 1)
        rec(0)
        return ('lam', tuple(lens), tuple(out))

    def compare(self, a, b):
        p = a.args[0]
        if self.big and sizeonly(p):
            e = Env(self.seed)
            e.tab, e.forced, e.shift = self.tab, self.forced, self.big
            v, m = e.ev(p, b), 1e-6
        else:
            v = m = 0.0
            for t, c in p.t:
                w = float(c)
                for x, k in t:
                    y = self.ev(x, b)
                    if isinstance(y, bool):
                        y = float(y)
                    if not isinstance(y, (int, float, complex)):
                        raise Unsup('non numeric %r' % (y,))
                    w = w * self.power(y, k)
                v, m = v + w, max(m, abs(w))
        if a.op == 'eq':
            return abs(v) <= 1e-12 * m
        return v < -1e-12 * m

    # ------------------------------------------------------------ atoms
    def atom(self, a, b):
        if a in self.forced:
            return self.forced[a]
        f = OPS.get(a.op)
        if a.op == 'bound':
            return b[a]
        if a.op == 'ivar':
            u = T.UB.get(a)
            n = 4
            if u is not None:
                n = self.ev(u, b)
                if n != n or n < 1:
                    raise Unsup('empty range')
            return float(random.Random('%s|%r' % (self.seed, a.args)).randrange(max(1, int(n))))
        if a.op in ('sum', 'poly') and len(a.args) == 1:
            return self.ev(a.args[0], b)
        if self.wide and a.op in ('lt', 'eq') and isinstance(a.args[0], Poly):
            return self.compare(a, b)
        args = tuple(self.ev(x, b) for x in a.args)
        if f is not None:
            try:
                return f(*args)
            except Unsup:
                raise
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
            except TypeError:
                pass
        if a.op == 'len':
            h = HINTS and self.seed % 2 and args and isinstance(args[0], str) and HINTS.get(('len', args[0]))
            if h:
                return float(h(random.Random('%s|%r' % (self.seed, _r(args))), self.seed))
            return float(self.shift + 2 + random.Random('%s|%r' % (self.seed, _r(args))).randrange(4))
        return self.fun(a, _r(args))


def _num(*xs):
    for x in xs:
        if not isinstance(x, (int, float)) or isinstance(x, bool) and False:
            raise TypeError


def _real(f):
    def g(*xs):
        _num(*xs)
        if any(x != x for x in xs):
            return math.nan
        return float(f(*xs))
    return g


def _cx(f, fc):
    def g(x):
        if isinstance(x, complex):
            return fc(x)
        _num(x)
        return float(f(x)) if x == x else math.nan
    return g


def _isnan(x):
    if isinstance(x, complex):
        return x != x
    return isinstance(x, float) and x != x


def _Sum(l):
    if not (isinstance(l, tuple) and l and l[0] == 'lam'):
        raise TypeError
    return sum(float(v) if isinstance(v, bool) else v for v in l[2])


def _lamvals(l):
    if not (isinstance(l, tuple) and l and l[0] == 'lam'):
        raise TypeError
    return l[2]


def _streq(*xs):
    if len(xs) != 2:
        raise TypeError
    return xs[0] == xs[1]


def _mod(x, y):
    _num(x, y)
    if y == 0:
        return math.nan
    r = math.fmod(x, y)
    if r and (r < 0) != (y < 0):
        r += y
    if abs(r - y) < 1e-9:
        r = 0.0
    return r


OPS = {
    'abs': lambda x: abs(x),
    'floor': _real(lambda x: math.floor(x + 1e-9)), 'ceil': _real(lambda x: math.ceil(x - 1e-9)),
    'trunc': _real(lambda x: math.trunc(x + (1e-9 if x > 0 else -1e-9))), 'mod': _mod,
    'sin': _cx(math.sin, cmath.sin), 'cos': _cx(math.cos, cmath.cos), 'exp': _cx(math.exp, cmath.exp),
    'tanh': _real(math.tanh), 'log': _real(lambda x: math.log(x) if x > 0 else -math.inf if x == 0 else math.nan),
    'arctan2': _real(math.atan2), 'arcsin': _real(math.asin), 'arccos': _real(math.acos),
    'isnan': _isnan, 'isinf': lambda x: isinstance(x, float) and abs(x) == math.inf,
    'lt': lambda x: x < -1e-9, 'eq': lambda x: abs(x) < 1e-9,
    'I': lambda: 1j, 'pi': lambda: math.pi, 'infconst': lambda: math.inf, 'nanconst': lambda: math.nan,
    'conj': lambda x: x.conjugate() if isinstance(x, complex) else x,
    'real': lambda x: x.real if isinstance(x, complex) else x,
    'imag': lambda x: x.imag if isinstance(x, complex) else 0.0,
    'angle': lambda x: cmath.phase(x) if not _isnan(x) else math.nan,
    'Sum': _Sum, 'streq': _streq, 'istrue': lambda x: bool(x),
    'prod': lambda l: math.prod(_lamvals(l)),
}


def _vals(l, nan=None):
    v = [float(x) if isinstance(x, bool) else x for x in _lamvals(l)]
    for x in v:
        if not isinstance(x, (int, float, complex)):
            raise TypeError
    if nan == 'skip':
        v = [x for x in v if not _isnan(x)]
    elif nan == 'prop' and any(_isnan(x) for x in v):
        return None
    return v


def _redop(f, skip=False):
    def g(l, *ex):
        v = _vals(l, 'skip' if skip else 'prop')
        if v is None or not v:
            return math.nan
        if any(isinstance(x, complex) for x in v):
            raise TypeError
        return f(v, *ex)
    return g


def _quant(v, q):
    v = sorted(v)
    k = q * (len(v) - 1)
    a = int(math.floor(k))
    b = min(a + 1, len(v) - 1)
    return v[a] + (v[b] - v[a]) * (k - a)


def _var(v):
    mu = sum(v) / len(v)
    return sum((x - mu) ** 2 for x in v) / len(v)


def _arg(pick):
    def g(l, *ex):
        if ex:
            raise TypeError
        v = _vals(l)
        if any(_isnan(x) for x in v):
            return float(next(i for i, x in enumerate(v) if _isnan(x)))
        b = pick(v)
        if sum(1 for x in v if abs(x - b) <= 1e-9 * (1 + abs(b))) > 1:
            raise Unsup('tie')
        return float(v.index(b))
    return g


def _unravel(l, i):
    out = []
    for n in reversed(l[1]):
        out.append(float(i % n))
        i //= n
    return out[::-1]


def _nth(l, j, k):
    v = _lamvals(l)
    hits = [i for i, x in enumerate(v) if x is True or (not isinstance(x, bool) and x)]
    k = int(round(k))
    if not 0 <= k < len(hits):
        raise Unsup('nth out of range')
    return _unravel(l, hits[k])[int(j)]


def _rank_in(l, *idx):
    v = _lamvals(l)
    p = 0
    for n, i in zip(l[1], idx):
        p = p * n + int(round(i))
    return float(sum(1 for x in v[:p] if x))


def _xcorr(a, b, lag):
    x, y = _vals(a), _vals(b)
    lag = int(round(lag))
    return sum(x[i + lag] * (y[i].conjugate() if isinstance(y[i], complex) else y[i])
               for i in range(len(y)) if 0 <= i + lag < len(x)) + 0.0


def _dft(sign):
    def g(l, k):
        v = _vals(l)
        n = len(v)
        s = sum(x * cmath.exp(sign * 2j * math.pi * k * i / n) for i, x in enumerate(v))
        return s / n if sign > 0 else s
    return g


def _sorted(l, k):
    v = sorted(_vals(l), key=lambda x: (x != x, x))
    return v[int(round(k))]


def _argsort(l, k):
    v = _vals(l)
    return float(sorted(range(len(v)), key=lambda i: (v[i] != v[i], v[i]))[int(round(k))])


def _interp(lx, ly, s):
    x, y = _vals(lx), _vals(ly)
    if any(b <= a for a, b in zip(x, x[1:])):
        # nodes in any order: interpolation takes them sorted
        if any(v != v for v in x) or len(set(x)) < len(x) or len(x) != len(y):
            raise Unsup('unsorted')
        x, y = zip(*sorted(zip(x, y), key=lambda p: p[0]))
    if s != s:
        return math.nan
    if s <= x[0]:
        return y[0]
    for i in range(len(x) - 1):
        if s <= x[i + 1]:
            return y[i] + (y[i + 1] - y[i]) * (s - x[i]) / (x[i + 1] - x[i])
    return y[-1]


def _unwrap(l, k):
    v = _vals(l)
    out = v[0]
    for a, b in zip(v[:int(round(k))], v[1:]):
        d = b - a
        m = (d + math.pi) % (2 * math.pi) - math.pi
        if m == -math.pi and d > 0:
            m = math.pi
        out += m
    return out


def _lsa(which):
    def g(l, mx, k):
        v = _vals(l)
        (n, m_), k = l[1], int(round(k))
        if not 0 <= k < min(n, m_):
            raise Unsup('assignment row out of range')
        r = random.Random(repr((_r(l), mx)))
        if n <= m_:
            rows, cols = list(range(n)), r.sample(range(m_), n)
        else:
            rows = sorted(r.sample(range(n), m_))
            cols = r.sample(range(m_), m_)
        return float((rows, cols)[which][k])
    return g


def _round(x, d=0):
    _num(x)
    return round(x, int(d)) if x == x else math.nan


OPS.update({
    'max': _redop(max), 'min': _redop(min), 'nanmax': _redop(max, True), 'nanmin': _redop(min, True),
    'quantile': _redop(_quant), 'nanquantile': _redop(_quant, True), 'var': _redop(_var), 'nanvar': _redop(_var, True),
    'nansum': lambda l: float(sum(_vals(l, 'skip'))), 'nanmean': _redop(lambda v: sum(v) / len(v), True),
    'argmax': _arg(max), 'argmin': _arg(min), 'nth': _nth, 'rank_in': _rank_in,
    'lsarow': _lsa(0), 'lsacol': _lsa(1), 'any': lambda l: any(bool(x) for x in _lamvals(l)), 'xcorr': _xcorr, 'fft': _dft(-1), 'ifft': _dft(1),
    'sorted': _sorted, 'argsort': _argsort, 'interp': _interp, 'unwrap': _unwrap, 'round': _round,
})


def close(x, y, slack=0.0):
    if isinstance(x, bool):
        x = float(x)
    if isinstance(y, bool):
        y = float(y)
    nx, ny = isinstance(x, (int, float, complex)), isinstance(y, (int, float, complex))
    if nx and ny:
        if _isnan(x) or _isnan(y):
            return _isnan(x) and _isnan(y)
        if x == y:
            return True
        return abs(x - y) <= 3e-8 * (1 + max(abs(x), abs(y))) + slack
    if slack and isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(close(u, v, slack) for u, v in zip(x, y))
    return _r(x) == _r(y)


def sizeonly(p):
    """a polynomial in sizes and constants"""
    n = 0
    for m, c in p.t:
        for a, e in m:
            if a.op == 'len':
                n += 1
            elif a.op in ('floor', 'ceil', 'trunc', 'mod', 'abs', 'sum', 'poly') and all(isinstance(x, Poly) and (not x.level or sizeonly(x)) for x in a.args):
                n += any(isinstance(x, Poly) and x.level and sizeonly(x) for x in a.args)
            elif a.op != 'pi':
                return False
    return n > 0


def thresholds(*ts):
    """constants that values (a list) and sizes (the largest) are compared with in the terms"""
    vals, size, seen = set(), 0, set()
    for t in ts:
        for a in T.walk_atoms(t, seen):
            if a.op not in ('lt', 'eq') or len(a.args) != 1 or not isinstance(a.args[0], Poly):
                continue
            c0, rest = 0.0, []
            for m, c in a.args[0].t:
                if all(x.op == 'pi' for x, e in m):
                    v = float(c)
                    for x, e in m:
                        v *= math.pi ** float(e)
                    c0 += v
                else:
                    rest.append((m, float(c)))
            if not c0 or not rest:
                continue
            so = sizeonly(a.args[0])
            for m, c in rest:
                v = abs(c0 / c)
                if so:
                    size = max(size, v)
                    continue
                cand = [v]
                if len(m) == 1 and m[0][1] not in (0, 1):
                    cand.append(v ** (1 / float(m[0][1])))
                for v in cand:
                    if 1e-14 < v < 1e9 and (a.op == 'eq' or v > 4 or v < .05):
                        vals.add(v)
    return sorted(vals)[:40], size


def _cands(p):
    out = []
    for m, c in p.t:
        for a, e in m:
            if e == 1 and a.op not in OPS and a.op not in ('bound', 'ivar', 'len', 'sum', 'poly') and a not in out:
                out.append(a)
    return out


def _settab(e, a, v):
    args = tuple(e.ev(x, {}) for x in a.args)
    k = (a.op, _r(args), a.isbool, a.isint, a.nonneg, a.pos, a.real)
    e.tab[k] = v
    e.memo.clear()


def _solve(e, p, target, rng):
    """choose a value of one uninterpreted atom of p so that p takes the target value"""
    cs = _cands(p)
    rng.shuffle(cs)
    for a in cs:
        lin = [(m, c) for m, c in p.t if any(x is a for x, _ in m)]
        if any(x is a and k != 1 for m, c in lin for x, k in m) or any(a in T.walk_atoms(y) for m, c in p.t for y, _ in m if y is not a):
            continue
        co = T.ZERO
        for m, c in lin:
            co = T.add(co, T.mk_poly({tuple((x, k) for x, k in m if x is not a): c}))
        rest = T.mk_poly({m: c for m, c in p.t if not any(x is a for x, _ in m)})
        cv, rv = e.ev(co, {}), e.ev(rest, {})
        if not isinstance(cv, float) or not isinstance(rv, (int, float)) or abs(cv) < 1e-12 or rv != rv:
            continue
        v = (target - rv) / cv
        if a.isint:
            if abs(v - round(v)) > 1e-9 and target == 0:
                continue
            v = float(round(v))
        if (a.nonneg and v < 0) or (a.pos and v <= 0):
            continue
        lo, hi = domain(a, _r(tuple(e.ev(x, {}) for x in a.args)))
        if not lo <= v <= hi:
            continue
        _settab(e, a, v)
        return True
    return False


def _steer(e, cube, k):
    """move the environment towards the cube"""
    rng = random.Random('%s!%s' % (e.seed, k))
    for t, v in cube:
        if e.truth(e.ev(t, {})) == v:
            continue
        if t.op in ('eq', 'lt') and len(t.args) == 1 and isinstance(t.args[0], Poly):
            tgt = abs(rng.gauss(0, 1)) + .01
            if t.op == 'eq':
                tgt = 0.0 if v else tgt
            else:
                tgt = -tgt if v else rng.choice([0.0, tgt])
            _solve(e, t.args[0], tgt, rng)
        elif t.op == 'isnan' and isinstance(t.args[0], Poly):
            cs = [a for a in _cands(t.args[0]) if a.nan or not v]
            if cs:
                _settab(e, cs[0], math.nan if v else rng.gauss(0, 1))


DEEP = 1      # times as many valuations (check -t)


def distinguish(a, b, cube=(), tries=120, need=4):
    """'same' when a and b agree on every sampled interpretation of the cube
    (at least `need` of them), 'differ' with a witness, 'infeasible' when no
    sampled interpretation satisfies the cube, 'budget' when the time is used up, None when
    terms could not be evaluated"""
    tries *= DEEP
    t0 = time.process_time()
    if SPENT[0] > LIMIT * DEEP:
        return 'budget'
    try:
        return _distinguish(a, b, cube, tries, need)
    finally:
        SPENT[0] += time.process_time() - t0


LIMIT = 120.0       # seconds of valuations per case; later comparisons of the case stay undecided
SPENT = [0.0]


def _distinguish(a, b, cube, tries, need):
    forced = {}
    for t, v in cube:
        if t.isbool and (t.op not in OPS or t.op in ('streq', 'istrue')):
            forced[t] = v
    r, sat, refused = _sample(a, b, cube, forced, range(tries), 25 * DEEP, need, None)
    if r == 'differ':
        return r
    vals, size = thresholds(a, b, tuple(t for t, v in cube))
    if vals or size > 4:
        # values around, and sizes beyond, the constants that decide which branch is taken
        r2, sat2, refused2 = _sample(a, b, cube, forced, range(1000, 1000 + tries // 2), 20 * DEEP, need, (vals, size))
        if r2 == 'differ':
            return r2
        if sat2:
            if r2 == 'same' and r is None and not sat:
                return r2
            sat += sat2
            refused += refused2
    if r == 'same':
        return r
    if not sat and refused < tries // 2:
        return 'infeasible'
    return None


def _sample(a, b, cube, forced, seeds, enough, need, wide):
    ok = sat = refused = 0
    for k in seeds:
        e = Env(k, forced)
        if wide:
            e.wide = True
            e.pool = wide[0]
            e.big = int(wide[1] * 2 + 7) if wide[1] > 4 and (k % 2 or not e.pool) else 0
        try:
            try:
                if (k >= 20 or wide) and sat < 10:
                    for r in range(3):
                        if all(e.truth(e.ev(t, {})) == v for t, v in cube):
                            break
                        _steer(e, cube, r)
                if any(e.truth(e.ev(t, {})) != v for t, v in cube):
                    continue
            except Exception:
                refused += 1
                raise
            sat += 1
            e.peak = 0.0
            x, y = e.ev(a, {}), e.ev(b, {})
        except (Unsup, RecursionError, TypeError, AttributeError, KeyError, OverflowError, ValueError, IndexError):
            continue
        if not close(x, y, 1e-11 * e.peak if wide else 0.0):
            return 'differ', sat, refused
        ok += 1
        if ok >= enough:
            break
    return ('same' if ok >= need else None), sat, refused


def refutable(t, cube=()):
    """same for a boolean claim that should be true"""
    return distinguish(t, T.TRUE, cube)
