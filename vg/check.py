"""Obligation framework and command line.

    python3 -m vg.check P29            (from /verif; reads /repo's current tree)

Every obligation analyses the repository's source with the value-graph
interpreter under an abstract calling context and decides one claim.
"""
import ast
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import terms as T
from . import interp, pit, values as VV, models as M
from .terms import S, leaf, num
from .values import Ref, Tup, Arr, Lst, Dct, Obj, AV, Ax

REPO = os.environ.get('VG_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RULES = {}      # prop -> [Case]


class Case:
    def __init__(self, prop, name, fn, stubs=None, limit=400, needs=()):
        self.prop, self.name, self.fn, self.stubs, self.limit = prop, name, fn, stubs, limit
        self.needs = needs


def case(prop, name=None, stubs=None, limit=400, params=None):
    """register obligations; params: list of tuples -> one case each"""
    def deco(fn):
        props = [prop] if isinstance(prop, str) else list(prop)
        for p in props:
            if params is None:
                RULES.setdefault(p, []).append(Case(p, name or fn.__name__, fn, stubs, limit))
            else:
                for a in params:
                    aa = a if isinstance(a, tuple) else (a,)
                    RULES.setdefault(p, []).append(Case(
                        p, '%s[%s]' % (name or fn.__name__, ','.join(str(x) for x in aa)),
                        (lambda c, aa=aa, fn=fn: fn(c, *aa)), stubs, limit))
        return fn
    return deco


class Dead(Exception):
    """the analysed call certainly raises in this context"""

    def __init__(self, excs):
        self.excs = excs


class AnchorMissing(Exception):
    pass


_CACHE = {}


def load_repo():
    k = 'repo'
    if k not in _CACHE:
        r = interp.Repo(REPO)
        sd = os.path.join(VERIF, 'vg', 'spec')
        import ast
        for f in sorted(os.listdir(sd)):
            if f.endswith('.py'):
                p = os.path.join(sd, f)
                src = open(p).read()
                m = interp.Module('spec.' + f[:-3], p, ast.parse(src), src)
                m.rel = 'spec/' + f
                m.is_pkg = False
                r.modules['spec.' + f[:-3]] = m
        _CACHE[k] = r
    r = _CACHE[k]
    return r


class Ctx:
    """handed to obligation functions"""

    def __init__(self, c):
        self.case = c
        self.obs = []
        self.I = None
        self.fns = set()
        self.ncalls = 0
        self.fresh()

    def fresh(self):
        """new abstract world"""
        if self.I is not None:
            self.fns |= self.I.functions_seen
        T.reset()
        repo = load_repo()
        for m in repo.modules.values():
            m.frame = None
        I = interp.Interp(repo)
        I.stubs = dict(self.case.stubs or {})
        for n in sorted(repo.modules):
            if not n.startswith('spec.'):
                I.load(n)
        I.phase = 'call'
        self.I = I
        self.mark = 0
        return I

    # ---------------------------------------------------------------- calls
    def fn(self, name, optional=False):
        if name.startswith('spec.'):
            mod, f = name.rsplit('.', 1)
            v = self.I.load(mod).env.get(f)
        else:
            v = self.I.get_func(name)
        if v is None and not optional:
            raise AnchorMissing(name)
        return v

    def call(self, name, *args, **kw):
        """abstract call on valid input; raises Dead when the call certainly raises"""
        r = self.call_any(name, *args, **kw)
        if not (isinstance(name, str) and name.startswith('spec.')):
            t = self.raised()
            if t is not T.FALSE:
                self.true(T.lnot(t), 'valid input is not rejected', name if isinstance(name, str) else None, pc=T.TRUE)
            e = T.FALSE
            xs = [x for x in self.uncaught() if not isinstance(x['node'], ast.Raise) and not x['exc'].endswith('*')]
            for x in xs:
                e = T.lor(e, x['cond'])
            if e is not T.FALSE:
                self.true(T.lnot(e), 'valid input runs into no %s' % ', '.join(sorted({x['exc'] for x in xs})),
                          dict(file=xs[0]['file'], line=getattr(xs[0]['node'], 'lineno', 0), function=xs[0]['func']), pc=T.TRUE)
        return r

    def raised(self, *excs):
        """condition under which the last call reaches an explicit raise statement"""
        c = T.FALSE
        for x in self.uncaught():
            if isinstance(x['node'], (ast.Raise, ast.Assert) if excs else ast.Raise) and (not excs or x['exc'] in excs):
                c = T.lor(c, x['cond'])
        return c

    def call_any(self, name, *args, **kw):
        """abstract call whose explicit errors are examined by the caller"""
        f = self.fn(name) if isinstance(name, str) else name
        I = self.I
        self.ncalls += 1
        u0 = len(I.uncaught)
        pc0, fr0, cs0, node0, ra0 = I.pc, list(I.frames), list(I.callstack), I.node, list(I.raises)
        self.last_ev = len(I.events)
        self.last_unc = u0
        try:
            return I.call(f, list(args), kw, None)
        except interp.DeadPath:
            I.pc = pc0
            I.frames, I.callstack, I.node, I.raises = fr0, cs0, node0, ra0
            raise Dead([(x['exc'], x['func'], getattr(x['node'], 'lineno', 0), x['cond']) for x in I.uncaught[u0:]])

    def hint(self, **kw):
        """usual range of some inputs, used in part of the valuations that compare two terms"""
        for k, f in kw.items():
            k = tuple(k.split('__')) if '__' in k else k
            pit.HINTS[k] = f

    def spec(self, name, *args, **kw):
        return self.call('spec.' + name, *args, **kw)

    def events(self, *kinds, since=None):
        s = self.last_ev if since is None else since
        return [e for e in self.I.events[s:] if e.kind in kinds and not e.file.startswith('spec/')]

    def uncaught(self):
        return self.I.uncaught[self.last_unc:]

    # ---------------------------------------------------------------- results
    def where(self, name):
        f = self.fn(name, True) if isinstance(name, str) else name
        if isinstance(f, VV.Fn):
            return dict(file=f.module.rel, line=f.node.lineno, function=f.qual)
        return dict(file='?', line=0, function=str(name))

    def ob(self, status, what, at=None, **detail):
        w = at if isinstance(at, dict) else self.where(at) if at else {}
        self.obs.append(dict(status=status, what=what, case=self.case.name, where=w, **detail))
        return status

    def taint(self):
        return [u for u in self.I.undecided if not u[1].startswith('spec/')]

    def check(self, cond, what, at=None, **detail):
        """cond: python bool decided by the analysis"""
        return self.ob('holds' if cond else 'violated', what, at, **detail)

    def eq(self, got, want, what, at=None, **opt):
        """value-graph equality"""
        d = diff(self.I, got, want, **opt)
        return self.verdict(d, what, at)

    def verdict(self, d, what, at):
        if not d:
            return self.ob('holds', what, at)
        if all(x[0] == 'ri' for x in d):
            return self.ob('agrees', what, at, detail=d[0][1])
        sure = [x for x in d if x[0] == 'diff']
        if sure and not self.taint():
            return self.ob('violated', what, at, detail=sure[0][1])
        return self.ob('undecided', what, at, detail=(d[0][1] + ' | ' + '; '.join('%s@%s:%s' % u for u in self.taint()[:3])))

    def true(self, t, what, at=None, pc=None):
        """boolean term must hold wherever the call returned"""
        I = self.I
        t = T.truth(t) if isinstance(t, S) else leaf(bool(t))
        c = T.lor(T.lnot(pc if pc is not None else I.pc), t)
        d = []
        cubes = [(cube, v) for cube, v in T.paths(c, lambda v: v is not True) if T.consistent(cube)]
        cubes.sort(key=lambda cv: sum(1 for at, val in cv[0] if at.op == 'eq' and val))
        agree = 0
        for cube, v in cubes:
            bad = tainted(leaf(v)) or unforeseen(cube) or any(tainted(leaf(T.atom_poly(a)) if False else a) for a, _ in cube)
            kind = 'unk' if bad else 'diff'
            r = None if bad else pit.refutable(c, cube)
            if r == 'budget':
                kind = 'unk'
            if r in ('same', 'infeasible'):
                kind = 'ri'
                agree += 1
                if agree > RI_LIMIT:
                    d.append(('unk', 'more than %d guard paths left to interpretation' % RI_LIMIT))
                    break
                if agree > 8:
                    continue
            d.append((kind, 'fails when ' + show_cube(cube) + ('' if v is False else ' leaf ' + repr(v))))
            if kind == 'diff' or len(d) > 16:
                break
        return self.verdict(d, what, at)


def tainted(x):
    if isinstance(x, (S,)):
        return getattr(x, 'unmod', False) or any(a.unmod for a in T.walk_atoms(x))
    return any(a.unmod for a in T.walk_atoms(x))


def unforeseen(cube):
    """only when some external call inside a try block fails, which nothing says it can"""
    return any(v and a.op == 'extraise' for a, v in cube)


def show_cube(cube, n=500):
    T._BUDGET[0] = 6000
    s = ' & '.join(('' if v else 'not ') + T.show_atom(a) for a, v in cube)
    return s[:n] or 'always'


def sdiff(a, b, what='', out=None, limit=6):
    """differences of two S terms: list of (kind, message)"""
    out = [] if out is None else out
    if a is b:
        return out
    e = T.s_equal(a, b)
    if e is T.TRUE:
        return out
    k = agree = 0
    cubes = []
    for cube, v in T.paths(e, lambda v: v is not True):
        k += 1
        if k > 2000:
            out.append(('unk', what + 'too many guard paths'))
            break
        if T.consistent(cube):
            cubes.append(cube)
    # regions with an interior first: boundaries are rarely hit by sampling
    cubes.sort(key=lambda c: sum(1 for at, val in c if at.op == 'eq' and val))
    for cube in cubes:
        x, y = a, b
        for at, val in cube:
            x, y = T.cof(x, at, val), T.cof(y, at, val)
        # x,y reduced under the cube (may still carry implied atoms)
        bad = tainted(x) or tainted(y) or unforeseen(cube) or any(tainted(at) for at, _ in cube)
        kind = 'unk' if bad else 'diff'
        if not bad:
            r = pit.distinguish(a, b, cube)
            kind = 'ri' if r in ('same', 'infeasible') else 'unk' if r == 'budget' else kind
        if kind == 'ri':
            agree += 1
            if agree > limit:
                if agree > RI_LIMIT:
                    out.append(('unk', what + 'more than %d guard paths left to interpretation' % RI_LIMIT))
                    break
                continue
        out.append((kind, '%s%s  !=  %s  when %s' % (what, T.short(x, 400), T.short(y, 400), show_cube(cube))))
        if kind == 'diff' or len(out) - min(agree, limit) >= limit:
            break
    return out


RI_LIMIT = 60


def norm_av(I, v):
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Arr):
            return r.av
    return None


def assume(I, v, at, val):
    """v under the assumption that guard at has value val"""
    if isinstance(v, S):
        return T.cof(v, at, val)
    if isinstance(v, interp.MaybeV):
        c = T.cof(v.c, at, val)
        if c is T.TRUE:
            return assume(I, v.a, at, val)
        if c is T.FALSE:
            return assume(I, v.b, at, val)
        return interp.MaybeV(c, assume(I, v.a, at, val), assume(I, v.b, at, val))
    if isinstance(v, Tup):
        return Tup([assume(I, x, at, val) for x in v.items])
    if isinstance(v, Ref):
        r = I.rec(v)
        if isinstance(r, Arr) and r.av.axes:
            av = r.av
            return I.alloc(Arr(AV([Ax(x.var, T.cof(x.n, at, val), None if x.lab is None else T.cof(x.lab, at, val)) for x in av.axes],
                                  T.cof(av.body, at, val), av.kind)))
    return v


def diff(I, a, b, labels=True, kinds=False, what='', depth=0):
    """[] when equal; ('diff'|'unk', msg) entries otherwise"""
    if depth > 8:
        return [('unk', 'depth')]
    ra = I.rec(a) if isinstance(a, Ref) else a
    rb = I.rec(b) if isinstance(b, Ref) else b
    if isinstance(ra, (int, float, bool)) or ra is None or isinstance(ra, str):
        ra = num(ra) if isinstance(ra, (int, float)) and not isinstance(ra, bool) else leaf(ra)
    if isinstance(rb, (int, float, bool)) or rb is None or isinstance(rb, str):
        rb = num(rb) if isinstance(rb, (int, float)) and not isinstance(rb, bool) else leaf(rb)
    if isinstance(ra, S) and isinstance(rb, S):
        return sdiff(ra, rb, what)
    if isinstance(ra, interp.MaybeV) or isinstance(rb, interp.MaybeV):
        g = ra.c if isinstance(ra, interp.MaybeV) else rb.c
        out = []
        for cube, v in T.paths(g, lambda v: True):
            if not T.consistent(cube):
                continue
            x, y = a, b
            for at, val in cube:
                x, y = assume(I, x, at, val), assume(I, y, at, val)
            if any(isinstance(z, interp.MaybeV) and z.c is g for z in (x, y)):
                return [('unk', what + 'decision between objects %r %r' % (ra, rb))]
            out += diff(I, x, y, labels, kinds, what, depth + 1)
        return out
    if isinstance(ra, Arr) and isinstance(rb, Arr):
        return diff_av(ra.av, rb.av, labels, kinds, what)
    if isinstance(ra, Arr) or isinstance(rb, Arr):
        # array vs sequence of known length
        def seq(r):
            if isinstance(r, Tup):
                return list(r.items)
            if isinstance(r, Lst) and all(p[0] == 'one' for p in r.parts):
                return [p[1] for p in r.parts]
            return None
        s = seq(rb) if isinstance(ra, Arr) else seq(ra)
        arr = ra if isinstance(ra, Arr) else rb
        if s is not None:
            o = M.to_av(I, I.alloc(Lst([('one', x) for x in s])))
            if o is not None:
                return diff_av(arr.av, o, labels, kinds, what) if isinstance(ra, Arr) else diff_av(o, arr.av, labels, kinds, what)
        o = M.to_av(I, b if isinstance(ra, Arr) else a)
        if o is not None:
            return diff_av(ra.av, o, labels, kinds, what) if isinstance(ra, Arr) else diff_av(o, rb.av, labels, kinds, what)
        t = isinstance(ra, S) and tainted(ra) or isinstance(rb, S) and tainted(rb)
        return [('unk' if t else 'diff', what + 'array vs %s' % short(ra if isinstance(rb, Arr) else rb))]
    if isinstance(ra, (Tup, Lst)) and isinstance(rb, (Tup, Lst)):
        ia, ib = items(ra), items(rb)
        if ia is not None and ib is not None:
            if len(ia) != len(ib):
                return [('diff', what + 'length %d vs %d' % (len(ia), len(ib)))]
            out = []
            for k, (x, y) in enumerate(zip(ia, ib)):
                out += diff(I, x, y, labels, kinds, what + '[%d] ' % k, depth + 1)
            return out
    if isinstance(ra, Lst) and isinstance(rb, Lst):
        d = parts_diff(I, ra.parts, rb.parts, labels, kinds, what, depth)
        if d is not None:
            return d
        if not T.same(T.app('tuple', *I.term(a)), T.app('tuple', *I.term(b))):
            try:
                d = [x for x in sdiff(M.length(I, a), M.length(I, b), what + 'number of items: ') if x[0] == 'diff']
            except (TypeError, AttributeError, KeyError):
                d = []
            if d:
                return d
            return [('unk', what + 'lists of different structure: %s vs %s' % (short(ra), short(rb)))]
    if isinstance(ra, Dct) and isinstance(rb, Dct):
        if all(p[0] == 'kv' and T.s_const(p[1]) is not None for p in ra.parts + rb.parts):
            da = {T.s_const(p[1]): p[2] for p in ra.parts}
            db = {T.s_const(p[1]): p[2] for p in rb.parts}
            if set(da) != set(db):
                return [('diff', what + 'keys %s vs %s' % (sorted(map(str, da)), sorted(map(str, db))))]
            out = []
            for k in da:
                out += diff(I, da[k], db[k], labels, kinds, what + '[%r] ' % (k,), depth + 1)
            return out
    if isinstance(ra, Obj) and isinstance(rb, Obj) and ra.attrs and set(ra.attrs) == set(rb.attrs):
        out = []
        for k in ra.attrs:
            out += diff(I, ra.attrs[k], rb.attrs[k], labels, kinds, what + '.%s ' % k, depth + 1)
        return out
    ta, tb = I.term(a), I.term(b)
    if isinstance(ta, tuple):
        ta = T.app('tuple', *ta)
    if isinstance(tb, tuple):
        tb = T.app('tuple', *tb)
    if T.same(ta, tb):
        return []
    if isinstance(ta, S) and isinstance(tb, S) and type(ra) == type(rb):
        return sdiff(ta, tb, what)
    t = (isinstance(ta, S) and tainted(ta)) or (isinstance(tb, S) and tainted(tb))
    return [('unk' if t else 'diff', what + '%s vs %s' % (short(ra), short(rb)))]


def parts_diff(I, pa, pb, labels, kinds, what, depth):
    """comprehension-like lists with the same structure; None when the structures differ"""
    pa = list(pa.items) if isinstance(pa, Tup) else list(pa)
    pb = list(pb.items) if isinstance(pb, Tup) else list(pb)
    pa, pb = [q if isinstance(q, tuple) else ('one', q) for q in pa], [q if isinstance(q, tuple) else ('one', q) for q in pb]
    if pa and pb and all(p[0] == 'if' for p in pa + pb) and (len(pa) > 1 or len(pb) > 1):
        # alternatives: compare those that can hold together
        excl = all(T.land(T.truth(x[1]), T.truth(y[1])) is T.FALSE for ps in (pa, pb) for i, x in enumerate(ps) for y in ps[:i])
        if excl:
            ca = cb = T.FALSE
            for p in pa:
                ca = T.lor(ca, T.truth(p[1]))
            for q in pb:
                cb = T.lor(cb, T.truth(q[1]))
            out = sdiff(ca, cb, what + 'non-empty when: ')
            for p in pa:
                for q in pb:
                    if T.land(T.truth(p[1]), T.truth(q[1])) is not T.FALSE:
                        d = parts_diff(I, p[2], q[2], labels, kinds, what, depth + 1)
                        if d is None:
                            return None
                        out += d
            return out
    if len(pa) != len(pb) or any(p[0] != q[0] or p[0] not in ('one', 'map', 'if', 'flat') for p, q in zip(pa, pb)) or depth > 8:
        return None
    out = []
    for k, (p, q) in enumerate(zip(pa, pb)):
        if p[0] == 'one':
            out += diff(I, p[1], q[1], labels, kinds, what + '[%d] ' % k, depth + 1)
            continue
        if p[0] == 'if':
            out += sdiff(T.truth(p[1]), T.truth(q[1]), what + 'condition of item %d: ' % k)
            d = parts_diff(I, p[2], q[2], labels, kinds, what, depth + 1)
            if d is None:
                return None
            out += d
            continue
        w = T.ivar()
        T.set_ub(w, p[2])
        m1, m2 = {p[1]: T.P(T.atom_poly(w))}, {q[1]: T.P(T.atom_poly(w))}
        out += sdiff(p[2], q[2], what + 'number of items: ')
        out += sdiff(T.truth(T.subst(p[4], m1)), T.truth(T.subst(q[4], m2)), what + 'items kept: ')
        if any(x[0] == 'diff' for x in out):
            return out
        if p[0] == 'map':
            out += diff(I, M.instantiate(I, p[3], m1), M.instantiate(I, q[3], m2), labels, kinds, what + 'item: ', depth + 1)
        else:
            if isinstance(p[3], Tup) != isinstance(q[3], Tup):
                return None
            if isinstance(p[3], Tup):
                d = diff(I, M.instantiate(I, p[3], m1), M.instantiate(I, q[3], m2), labels, kinds, what + 'items: ', depth + 1)
            else:
                d = parts_diff(I, tuple(M.inst_part(I, x, m1) for x in p[3]), tuple(M.inst_part(I, x, m2) for x in q[3]), labels, kinds, what, depth + 1)
            if d is None:
                return None
            out += d
    return out


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def items(r):
    if isinstance(r, Tup):
        return list(r.items)
    if isinstance(r, Lst) and all(p[0] == 'one' for p in r.parts):
        return [p[1] for p in r.parts]
    return None


def diff_av(x, y, labels, kinds, what):
    if x.ndim != y.ndim:
        t = tainted(x.body) or tainted(y.body)
        return [('unk' if t else 'diff', what + 'ndim %d vs %d: %s vs %s' % (x.ndim, y.ndim, short(x), short(y)))]
    if kinds and x.kind != y.kind:
        return [('diff', what + 'kind %s vs %s' % (x.kind, y.kind))]
    out = []
    ax, bx = x.opened()
    m = {}
    for i, (p, q) in enumerate(zip(ax, y.axes)):
        out += sdiff(p.n, T.subst(q.n, m), what + 'length of axis %d: ' % i)
        m[q.var] = T.P(T.atom_poly(p.var))
    if any(k == 'diff' for k, _ in out):
        return out
    if labels:
        for i, (p, q) in enumerate(zip(ax, y.axes)):
            if p.lab is not None and q.lab is not None:
                out += sdiff(p.lab, T.subst(q.lab, m), what + 'labels of axis %d: ' % i)
    by = T.subst(y.body, m)
    out += sdiff(bx, by, what + 'cell: ')
    return out


# ----------------------------------------------------------------- running
def _alarm(*a):
    raise TimeoutError()


def run_case(c):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    res = dict(case=c.name, obs=[], err=None, fns=[], undecided=[])
    cx = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, c.limit)      # processor time: a busy machine does not change the outcome
    left = max(2, int(DEADLINE - time.time())) if DEADLINE else 10**6
    signal.alarm(min(max(c.limit, min(3 * c.limit, 400)), left))
    pit.HINTS.clear()
    pit.SPENT[0] = 0.0
    try:
        cx = Ctx(c)
        c.fn(cx)
    except Dead as e:
        if cx.taint():
            cx.ob('undecided', 'call raises (tainted)', None, detail=repr(e.excs)[:400])
        else:
            x = e.excs[-1] if e.excs else ('?', '?', 0, None)
            cx.ob('violated', 'the call raises %s in this calling context' % x[0], dict(function=x[1], line=x[2], file='?'),
                  detail=repr([(a, b, l, T.short(cc, 200) if cc is not None else '') for a, b, l, cc in e.excs])[:600])
    except AnchorMissing as e:
        if str(e).split('.')[-1].startswith('_'):      # a private helper may be renamed or inlined
            cx.ob('undecided', 'the helper %s no longer exists' % e)
        else:
            res['err'] = 'anchor vanished: %s' % e
    except TimeoutError:
        cx.ob('undecided', 'analysis budget exhausted') if cx else None
    except interp.Budget:
        cx.ob('undecided', 'analysis budget exhausted')
    except RecursionError:
        cx.ob('undecided', 'recursion limit')
    except Exception as e:
        if cx is not None:
            cx.ob('undecided', 'internal: %r' % e, None, detail=traceback.format_exc(limit=-5))
        else:
            res['err'] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    if cx is not None:
        res['obs'] = cx.obs
        res['fns'] = sorted(f for f in (cx.fns | cx.I.functions_seen) if not f.startswith('spec'))
        res['ncalls'] = cx.ncalls
    res['wall'] = round(time.time() - t0, 2)
    return res


def load_rules():
    import importlib
    d = os.path.join(VERIF, 'vg', 'rules')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('vg.rules.' + f[:-3])


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


DEADLINE = None


def main(argv):
    global DEADLINE
    t0 = time.time()
    DEADLINE = t0 + 700                # what is left then is reported as not decided
    prop = argv[0]
    verbose = '-v' in argv
    if '-t' in argv:
        pit.DEEP = 3
    sel = [a for a in argv[1:] if not a.startswith('-')]
    load_rules()
    cases = RULES.get(prop, [])
    if sel:
        cases = [c for c in cases if any(s in c.name for s in sel)]
    if not cases:
        print('no obligations for', prop)
        return 2
    load_repo()
    if len(cases) == 1 or '-1' in argv:
        results = [run_case(c) for c in cases]
    else:
        global _CASES
        _CASES = cases
        ctx = mp.get_context('fork')
        with ctx.Pool(min(8, len(cases))) as pool:
            results = pool.map(_run_idx, range(len(cases)), chunksize=1)
    obs = [o for r in results for o in r['obs']]
    errs = [r['case'] + ': ' + r['err'] for r in results if r['err']]
    viol = [o for o in obs if o['status'] == 'violated']
    kf = [k for k in known() if k.get('property') == prop and k.get('kind') == 'known']
    new, old = [], []
    for v in viol:
        k = next((k for k in kf if k['function'] == v['where'].get('function') and k['what'] == v['what']), None)
        (old if k else new).append(v)
    for k in kf:
        hit = [v for v in old if k['function'] == v['where'].get('function') and k['what'] == v['what']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['summary']))
    und = [o for o in obs if o['status'] == 'undecided']
    holds = [o for o in obs if o['status'] in ('holds', 'agrees')]
    ri = [o for o in obs if o['status'] == 'agrees']
    if verbose:
        for r in results:
            print('%-50s %6.1fs %s %s' % (r['case'], r['wall'], [o['status'][0] for o in r['obs']], r['err'] or ''))
        for o in viol + und + (ri if '-r' in argv else []):
            print('  ', o['status'].upper(), o['case'], '|', o['what'], '|', o['where'], '\n       ', o.get('detail', ''))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    fns = sorted(set(f for r in results for f in r['fns']))
    ev = dict(property=prop, tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='other',
              coverage=dict(
                  explanation='value-graph dataflow analysis of the current source: %d obligations in %d abstract calling contexts, %d functions analysed; %d hold, %d undecided, %d violated' % (
                      len(obs), len(results), len(fns), len(holds), len(und), len(viol)),
                  obligations=len(obs), holds=len(holds) - len(ri), agree_under_random_interpretation=len(ri), undecided=len(und), violated=len(viol),
                  contexts=[r['case'] for r in results], functions=fns,
                  rules=sorted(set(o['what'] for o in obs)),
                  undecided_detail=[dict(case=o['case'], what=o['what'], detail=str(o.get('detail', ''))[:600]) for o in und][:40],
                  known=[k['summary'] for k in kf]),
              wall_s=round(time.time() - t0, 2))
    if not sel:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    print('%s: %d obligations, %d hold (%d by random interpretation), %d undecided, %d violated, %d functions, %.1fs' % (
        prop, len(obs), len(holds), len(ri), len(und), len(viol), len(fns), time.time() - t0))
    if new:
        path = os.path.join(VERIF, 'evidence', 'replay', prop + '.json')
        with open(path, 'w') as fh:
            json.dump(new, fh, indent=1, default=str)
        for v in new[:6] if not verbose else []:
            w = v['where']
            print('  %s:%s %s: %s [%s] %s' % (w.get('file'), w.get('line'), w.get('function'), v['what'], v['case'], str(v.get('detail', ''))[:700]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        for e in errs:
            print('ANALYSIS-BROKEN', e)
        return 2
    return 0


def _run_idx(i):
    return run_case(_CASES[i])


_CASES = []

if __name__ == '__main__':
    # run as the imported module so that rules register in the same table
    from vg import check as _self
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'vg.check'] + sys.argv[1:])
    sys.exit(_self.main(sys.argv[1:]))
