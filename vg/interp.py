"""Abstract interpreter (value-graph dataflow) over the repository's Python AST.

Branches are joined with decision nodes (never enumerated as paths), loops over
symbolic ranges are summarised by one generic iteration, repository functions
are inlined, external functions go through curated models (models.py) and
anything else becomes an uninterpreted, 'unmodelled' term.
"""
import ast
import os
from . import terms as T
from . import funcs as FX
from .terms import S, P, num, leaf, atom_poly, ivar, sym, app, ite, land, lor, lnot
from .values import *


class DeadPath(Exception):
    """current abstract path has no continuation (everything raised)"""


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Frame:
    def __init__(self, func, module, parent=None):
        self.env = {}
        self.func = func
        self.module = module
        self.parent = parent
        self.exits = []
        self.loops = []
        self.globals_decl = set()


class Event:
    __slots__ = ('kind', 'pc', 'file', 'line', 'func', 'data', 'phase', 'stack')

    def __init__(self, kind, pc, file, line, func, data, phase, stack):
        self.kind, self.pc, self.file, self.line = kind, pc, file, line
        self.func, self.data, self.phase, self.stack = func, data, phase, stack

    def __repr__(self):
        return '%s@%s:%s(%s) %r' % (self.kind, self.file, self.line, self.func, self.data)


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.frame = None
        self.rel = path


class Repo:
    """parsed repository"""

    def __init__(self, root, pkg='solarspatialtools'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, 'src')
        for dp, dn, fn in os.walk(os.path.join(base, pkg)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, base)[:-3].replace(os.sep, '.')
                    is_pkg = False
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                        is_pkg = True
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src)
                    m = Module(rel, p, tree, src)
                    m.rel = os.path.relpath(p, root)
                    m.is_pkg = is_pkg
                    self.modules[rel] = m


MAX_CONCRETE = 64


WHILES = {}


def counting(s):
    """while k < n: ... k += 1 ...   as (k, the same as a for loop, whether it can be left early); None when it is not of this form"""
    if id(s) in WHILES:
        return WHILES[id(s)][1]
    WHILES[id(s)] = (s, None)
    t = s.test
    if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
    if not isinstance(l, ast.Name) or not isinstance(op, (ast.Lt, ast.LtE)):
        return None
    k = l.id

    def is_step(x):
        if isinstance(x, ast.AugAssign):
            return isinstance(x.target, ast.Name) and x.target.id == k and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
        return (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == k
                and ast.unparse(x.value) in ('%s + 1' % k, '1 + %s' % k))
    steps = [i for i, x in enumerate(s.body) if is_step(x)]
    stores = [n for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
    if len(steps) != 1 or sum(n.id == k for n in stores) != 1:
        return None
    p = steps[0]

    def own(b):     # statements that leave or restart this loop
        for x in b:
            if isinstance(x, (ast.Break, ast.Continue)):
                yield x
            elif isinstance(x, (ast.For, ast.While)):
                yield from own(x.orelse)
            elif not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from own(getattr(x, f, []))
                for h in getattr(x, 'handlers', []):
                    yield from own(h.body)
    if any(isinstance(x, ast.Continue) for x in own(s.body[:p])) or any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for x in s.body for n in ast.walk(x)):
        return None
    used = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
    if used & {n.id for n in stores}:
        return None
    for x in s.body:
        for n in ast.walk(x):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value if isinstance(n, ast.Call) else n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in used and not (isinstance(n, ast.Call) and n.func.attr in ('copy', 'index', 'mean', 'sum', 'get', 'items', 'keys')) \
                        and not (isinstance(n, ast.Subscript) and 'len' not in used):
                    return None
    if any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('len', 'int', 'min', 'max')) for n in ast.walk(r)):
        return None

    class Next(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id == k and isinstance(n.ctx, ast.Load):
                return ast.copy_location(ast.BinOp(n, ast.Add(), ast.Constant(1)), n)
            return n
    import copy
    rest = [Next().visit(copy.deepcopy(x)) for x in s.body[p + 1:]]
    if isinstance(op, ast.LtE):
        r = ast.copy_location(ast.BinOp(r, ast.Add(), ast.Constant(1)), r)
    it = ast.Call(ast.Name('range', ast.Load()), [ast.Name(k, ast.Load()), r], [])
    loop = ast.copy_location(ast.For(ast.Name(k, ast.Store()), it, s.body[:p] + rest or [ast.Pass()], []), s)
    ast.fix_missing_locations(loop)
    WHILES[id(s)] = (s, (k, loop, any(isinstance(x, ast.Break) for x in own(s.body))))
    return WHILES[id(s)][1]


class Interp:
    def __init__(self, repo, budget=400000):
        self.repo = repo
        self.heap = {}
        self.pc = T.TRUE
        self.events = []
        self.raises = []          # list of handler collectors (stack)
        self.frames = []
        self.next_oid = 1
        self.phase = 'import'
        self.callstack = []
        self.undecided = []       # reasons (construct, file, line)
        self.steps = 0
        self.budget = budget
        self.loopdepth = 0
        self.quiet = 0
        self.uncaught = []
        self.node = None
        self.calls_seen = []
        self.functions_seen = set()
        self.stubs = {}
        self.rng_count = 0
        self.frozen = None
        self.errstate = 0
        self.nonan_guards = True
        from . import models
        self.models = models
        self._modstack = []
        self.modranges = []       # object ids created while loading modules

    # ------------------------------------------------------------ heap
    def alloc(self, rec):
        oid = self.next_oid
        self.next_oid += 1
        self.heap[oid] = rec
        return Ref(oid)

    def rec(self, ref):
        return self.heap[ref.oid]

    def arr(self, av, roots=frozenset(), base=None):
        if not av.axes:
            return av.body
        return self.alloc(Arr(av, roots, base))

    def roots_of(self, v):
        if isinstance(v, Ref):
            return self.rec(v).roots
        return frozenset()

    # ------------------------------------------------------------ events
    def event(self, kind, node=None, **data):
        if self.quiet:
            return
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        self.events.append(Event(kind, self.pc, fr.module.rel if fr else '?',
                                 getattr(node, 'lineno', 0), fr.func if fr else '?',
                                 data, self.phase, tuple(self.callstack)))

    def undecide(self, reason, node=None):
        if self.quiet:
            return
        node = node or self.node
        fr = self.frames[-1] if self.frames else None
        r = (reason, fr.module.rel if fr else '?', getattr(node, 'lineno', 0))
        if r not in self.undecided:
            self.undecided.append(r)

    def mutate(self, ref, what, node=None):
        """record in-place modification of object"""
        if not isinstance(ref, Ref):
            return
        r = self.rec(ref)
        roots = r.roots
        if self.phase == 'call' and self.modranges:
            ids = [ref.oid]
            if isinstance(r, Arr) and r.base is not None:
                ids.append(r.base)
            if any(a <= i < b for i in ids for a, b in self.modranges):
                self.event('global_write', node, name=what + ' on a module-level object')
        if roots:
            self.event('mutate', node, roots=tuple(sorted(roots)), what=what)
        # views of this object and its base become stale
        if isinstance(r, Arr):
            top = self._top(ref.oid)
            for o, rr in list(self.heap.items()):
                if o != ref.oid and isinstance(rr, Arr) and (o == top or rr.base is not None) and self._top(o) == top and not self._apart(o, ref.oid):
                    self.heap[o] = rr.with_av(rr.av.copy(body=T.opaque('stale', num(self.next_oid), *[P(atom_poly(a.var)) for a in rr.av.axes])))

    def _apart(self, a, b):
        """views of different rows (columns) of the same array"""
        def chain(o):
            out = []
            for _ in range(50):
                r = self.heap.get(o)
                out.append((o, r.attrs.get('place') if isinstance(r, Arr) and r.attrs else None))
                if not isinstance(r, Arr) or r.base is None or r.base not in self.heap:
                    return out
                o = r.base
            return out
        ca, cb = chain(a), chain(b)
        ib = {o: k for k, (o, _) in enumerate(cb)}
        for k, (o, _) in enumerate(ca):
            if o in ib:
                if not k or not ib[o]:
                    return False
                p, q = ca[k - 1][1], cb[ib[o] - 1][1]
                return bool(p and q and any(x is not None and y is not None and x != y and (x < 0) == (y < 0) for x, y in zip(p, q)))
        return False

    def _top(self, o):
        """the object that owns the storage o looks at"""
        for _ in range(50):
            r = self.heap.get(o)
            if not isinstance(r, Arr) or r.base is None or r.base not in self.heap:
                return o
            o = r.base
        return o

    def set_arr(self, ref, av):
        r = self.rec(ref)
        self.heap[ref.oid] = Arr(av, r.roots, r.base, r.attrs)

    # ------------------------------------------------------------ modules
    def load_all(self):
        for n in sorted(self.repo.modules):
            self.load(n)
        self.phase = 'call'

    def load(self, name):
        m = self.repo.modules[name]
        if m.frame is not None:
            return m.frame
        fr = Frame('<module>', m)
        m.frame = fr
        fr.env['__name__'] = leaf(name)
        fr.env['__file__'] = leaf(m.path)
        saved = (self.frames, self.pc, self.phase, self.raises)
        self.frames = [fr]
        self.pc = T.TRUE
        self.phase = 'import'
        self.raises = []
        first = self.next_oid
        try:
            self.exec_block(m.tree.body)
        except DeadPath:
            pass
        finally:
            self.modranges.append((first, self.next_oid))
            self.frames, self.pc, self.phase, self.raises = saved
        return fr

    def fresh_modules(self):
        for m in self.repo.modules.values():
            m.frame = None

    def global_lookup(self, module, name):
        fr = module.frame
        if fr is not None and name in fr.env:
            return fr.env[name]
        return None

    def get_func(self, dotted):
        """'spatial.dot' -> Fn (relative to package)"""
        parts = dotted.split('.')
        for k in range(len(parts), 0, -1):
            mn = '.'.join([self.repo.pkg] + parts[:k])
            if mn in self.repo.modules:
                v = self.load(mn).env.get(parts[k]) if k < len(parts) else None
                for p in parts[k + 1:]:
                    if isinstance(v, Cls):
                        v = v.attrs.get(p)
                return v
        return None

    # ------------------------------------------------------------ calling
    def call(self, f, args, kwargs, node=None):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, node)
        if isinstance(f, Builtin):
            return self.models.call_builtin(self, f.name, args, kwargs, node)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.fn, list(f.args) + list(args), kw, node)
        if isinstance(f, Meth):
            return self.models.call_method(self, f.obj, f.name, args, kwargs, node)
        if isinstance(f, Type):
            return self.models.call_builtin(self, f.name, args, kwargs, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, S):
            if f.kind == 'N':
                # decision between callables is not modelled
                self.undecide('call through decision', node)
            return self.opaque_call('call', [f] + list(args), kwargs, node)
        if isinstance(f, Ref):
            r = self.rec(f)
            if isinstance(r, Obj):
                m = self.find_method(r, '__call__')
                if m is not None:
                    return self.call_fn(m, [f] + list(args), kwargs, node)
                h = self.models.OBJ_CALL.get(r.cls if isinstance(r.cls, str) else '')
                if h:
                    return h(self, f, args, kwargs, node)
        return self.opaque_call('call', [f] + list(args), kwargs, node)

    def opaque_call(self, name, args, kwargs, node=None):
        self.undecide('unmodelled call ' + name, node)
        ts = [self.term(a) for a in args] + [(k, self.term(v)) for k, v in sorted(kwargs.items())]
        # an unknown callee may modify what it receives: forget contents of fresh objects
        return T.opaque('call:' + name, *ts)

    def find_method(self, obj, name):
        c = obj.cls
        while isinstance(c, Cls):
            if name in c.attrs:
                return c.attrs[name]
            nxt = None
            for b in c.bases:
                if isinstance(b, Cls):
                    nxt = b
                    break
            c = nxt
        return None

    def instantiate(self, c, args, kwargs, node):
        ref = self.alloc(Obj(c, {}))
        init = self.find_method(self.rec(ref), '__init__')
        if isinstance(init, Fn):
            self.call_fn(init, [ref] + list(args), kwargs, node)
        elif any(isinstance(d, ast.Name) and d.id == 'dataclass' or
                 (isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'dataclass') or
                 (isinstance(d, ast.Attribute) and d.attr == 'dataclass') for d in c.node.decorator_list) or \
                any(isinstance(b, Builtin) and b.name.endswith('NamedTuple') for b in c.bases):
            fields = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            at = {}
            for f_, a in zip(fields, args):
                at[f_] = a
            at.update(kwargs)
            for f_ in fields:
                if f_ not in at and f_ in c.attrs:
                    at[f_] = c.attrs[f_]
            self.heap[ref.oid] = Obj(c, at)
        return ref

    def bind(self, f, args, kwargs, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        pos = args[:len(names)]
        for n, v in zip(names, pos):
            env[n] = v
        extra = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.raise_('TypeError', node)
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    self.raise_('TypeError', node)
                env[n] = kw.pop(n)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(Dct([('kv', leaf(k), v) for k, v in kw.items() if k != '**']))
            if '**' in kw:
                env[a.kwarg.arg] = kw['**']
        elif kw:
            if '**' in kw:
                self.undecide('unknown **kwargs')
            else:
                self.raise_('TypeError', node)
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n not in env:
                j = k - (len(names) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    self.raise_('TypeError', node)
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_('TypeError', node)
        return env

    def call_fn(self, f, args, kwargs, node=None, inner=False):
        if len(self.callstack) > 40 or self.callstack.count(f.qual) > 6:
            self.undecide('recursion bound in ' + f.qual, node)
            return T.opaque('recursion:' + f.qual, *[self.term(a) for a in args])
        for d in f.decorators:
            dn = d.name if isinstance(d, Builtin) else ''
            if dn.startswith('numpy.errstate') or dn in ('builtins.staticmethod', 'functools.wraps'):
                continue
            if not inner and dn.startswith(('functools.lru_cache', 'functools.cache', 'vg.memoize')):
                # remembering a plain value computed from plain values alone cannot be observed
                n0 = len(self.events)
                r = self.call_fn(f, args, kwargs, node, True)
                plain = all(isinstance(x, S) for x in [*args, *kwargs.values()])
                if not plain or len(self.events) > n0 or not all(isinstance(x, S) for x in (r.items if isinstance(r, Tup) else [r])):
                    self.event('memo', node, fn=f.qual)
                return r
        self.functions_seen.add(f.qual)
        env = self.bind(f, args, kwargs, node)
        st = self.stubs.get(f.qual)
        if st is not None:
            r = st(self, env, node)
            if r is not NotImplemented:
                return r
        fr = Frame(f.qual, f.module, f.frame)
        fr.env = env
        saved_node = self.node
        self.frames.append(fr)
        self.callstack.append(f.qual)
        pc0 = self.pc
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))
            if is_gen:
                fr.yields = self.alloc(Lst([]))
            dead = False
            try:
                dead = self.exec_block(f.node.body)
            except DeadPath:
                dead = True
            if not dead:
                fr.exits.append((self.pc, leaf(None), self.heap))
            if not fr.exits:
                raise DeadPath()
            cond, val, heap = fr.exits[-1]
            tot = cond
            for c, v, h in reversed(fr.exits[:-1]):
                # reads from both heaps
                heap, val = self.merge_heaps_vals(c, h, v, heap, val)
                tot = lor(tot, c)
            self.heap = heap
            self.pc = tot
            if is_gen:
                return fr.yields
            return val
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.node = saved_node

    def merge_heaps_vals(self, c, h1, v1, h2, v2):
        heap = self.merge_heap(c, h1, h2)
        self.heap = heap
        v = self.merge_val(c, v1, v2, h1, h2)
        return self.heap, v

    # ------------------------------------------------------------ merging
    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        for o, r in h1.items():
            if o not in h2:
                out[o] = r
            elif h2[o] is not r:
                out[o] = self.merge_rec(c, r, h2[o], h1, h2)
        return out

    def merge_rec(self, c, a, b, h1, h2):
        if type(a) is not type(b):
            return Obj('opaque', {}, a.roots | b.roots)
        roots = a.roots | b.roots
        if isinstance(a, Arr):
            av = self.merge_av(c, a.av, b.av)
            return Arr(av, roots, a.base if a.base == b.base else None, a.attrs)
        if isinstance(a, Lst):
            k = 0
            while k < len(a.parts) and k < len(b.parts) and a.parts[k] == b.parts[k]:
                k += 1
            pa, pb = a.parts[k:], b.parts[k:]
            parts = list(a.parts[:k])
            if len(pa) == len(pb) and all(x[0] == 'one' and y[0] == 'one' for x, y in zip(pa, pb)):
                parts += [('one', self.merge_val(c, x[1], y[1], h1, h2)) for x, y in zip(pa, pb)]
            elif len(pa) == 1 and len(pb) == 1 and pa[0][0] == 'map' and pb[0][0] == 'map' and pa[0][2] is pb[0][2] \
                    and pa[0][4] is T.TRUE and pb[0][4] is T.TRUE and isinstance(pa[0][3], S) and isinstance(pb[0][3], S):
                parts.append(('map', pa[0][1], pa[0][2], ite(c, pa[0][3], T.subst(pb[0][3], {pb[0][1]: P(atom_poly(pa[0][1]))})), T.TRUE))
            else:
                if pa:
                    parts.append(('if', c, tuple(pa)))
                if pb:
                    parts.append(('if', lnot(c), tuple(pb)))
            return Lst(parts, roots)
        if isinstance(a, Dct):
            return Dct(self.merge_dct(c, a.parts, b.parts, h1, h2), roots)
        if isinstance(a, Obj):
            at = {}
            for k in list(a.attrs) + [x for x in b.attrs if x not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    at[k] = self.merge_val(c, a.attrs[k], b.attrs[k], h1, h2)
                else:
                    at[k] = a.attrs.get(k, b.attrs.get(k))
            return Obj(a.cls, at, roots)
        return a

    def merge_dct(self, c, pa, pb, h1, h2):
        ka = [p[1] for p in pa if p[0] == 'kv']
        kb = [p[1] for p in pb if p[0] == 'kv']
        if all(p[0] == 'kv' for p in pa) and all(p[0] == 'kv' for p in pb):
            da = dict((p[1], p[2]) for p in pa)
            db = dict((p[1], p[2]) for p in pb)
            out = []
            for k in ka + [x for x in kb if x not in da]:
                if k in da and k in db:
                    out.append(('kv', k, self.merge_val(c, da[k], db[k], h1, h2)))
                elif k in da:
                    out.append(('if', c, (('kv', k, da[k]),)))
                else:
                    out.append(('if', lnot(c), (('kv', k, db[k]),)))
            return out
        k = 0
        while k < len(pa) and k < len(pb) and pa[k] == pb[k]:
            k += 1
        out = list(pa[:k])
        if pa[k:]:
            out.append(('if', c, tuple(pa[k:])))
        if pb[k:]:
            out.append(('if', lnot(c), tuple(pb[k:])))
        return out

    def merge_av(self, c, a, b):
        if a.ndim != b.ndim:
            self.undecide('join of arrays of different rank')
            return a.copy(body=T.opaque('joinrank', a.body, b.body))
        axes = []
        m1, m2 = {}, {}
        for x, y in zip(a.axes, b.axes):
            v = ivar('i')
            p = P(atom_poly(v))
            m1[x.var] = p
            m2[y.var] = p
            lx = None if x.lab is None else T.subst(x.lab, {x.var: p})
            ly = None if y.lab is None else T.subst(y.lab, {y.var: p})
            if lx is None or ly is None:
                lab = lx if ly is None else ly
                if (lx is None) != (ly is None) and a.kind != b.kind:
                    lab = None
            else:
                lab = ite(c, lx, ly)
            axes.append(Ax(v, ite(c, x.n, y.n), lab, x.comp if x.comp == y.comp else None, x.lname))
        kind = a.kind if a.kind == b.kind else 'nd'
        if a.kind != b.kind:
            self.undecide('join of %s and %s' % (a.kind, b.kind))
        return AV(axes, ite(c, T.subst(a.body, m1), T.subst(b.body, m2)), kind,
                  a.dtype if a.dtype == b.dtype else None, a.name if a.name == b.name else None)

    def merge_val(self, c, a, b, h1=None, h2=None):
        if a is b or (not isinstance(a, S) and not isinstance(b, S) and a == b):
            return a
        if c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        if isinstance(a, S) and isinstance(b, S):
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y, h1, h2) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra = (h1 or self.heap).get(a.oid) or self.heap.get(a.oid)
            rb = (h2 or self.heap).get(b.oid) or self.heap.get(b.oid)
            if type(ra) is type(rb):
                r = self.merge_rec(c, ra, rb, h1 or self.heap, h2 or self.heap)
                if isinstance(r, Arr):
                    r.base = None
                n = self.alloc(r)
                return n
        # Arr vs scalar: broadcast scalar to the array's shape
        for x, y, cc, hx in ((a, b, c, h1), (b, a, lnot(c), h2)):
            if isinstance(x, Ref) and isinstance(y, S):
                rx = (hx or self.heap).get(x.oid) or self.heap.get(x.oid)
                if isinstance(rx, Arr) and y.kind == 'L' and not isinstance(y.val, T.Poly):
                    break
        return MaybeV.make(self, c, a, b)

    # ------------------------------------------------------------ raising
    def raise_(self, exc, node=None, cond=None, msg=None, definite=True):
        """raise under current pc (and cond); never returns when cond is None"""
        c = self.pc if cond is None else land(self.pc, cond)
        if c is T.FALSE:
            return
        rec = dict(cond=c, exc=exc, heap=dict(self.heap), node=node or self.node,
                   file=self.frames[-1].module.rel if self.frames else '?',
                   func=self.frames[-1].func if self.frames else '?',
                   frames=[(f, dict(f.env)) for f in self.frames], msg=msg)
        if not self.quiet or self.raises:
            if self.raises:
                self.raises[-1].append(rec)
            elif not self.quiet:
                self.uncaught.append(rec)
        if cond is None:
            raise DeadPath()
        self.pc = land(self.pc, lnot(cond))
        if self.pc is T.FALSE:
            raise DeadPath()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """True if dead afterwards"""
        for k, s in enumerate(stmts):
            self.node = s
            try:
                if self.exec(s):
                    return True
            except DeadPath:
                return True
        return False

    def env(self):
        return self.frames[-1].env

    def exec(self, s):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.undecide('statement ' + type(s).__name__, s)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.env()[n.id] = T.opaque('stmt', num(self.next_oid))
            return False
        return m(s)

    def x_Expr(self, s):
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            self.import_event(a.name, s)
            full = self.import_module(a.name)
            if a.asname:
                self.env()[a.asname] = full
            else:
                top = a.name.split('.')[0]
                self.env()[top] = self.import_module(top)

    def import_event(self, name, node):
        self.event('import', node, name=name)

    def import_module(self, name):
        if name in self.repo.modules:
            self.load(name)
            return Mod(name)
        return Mod(name)

    def x_ImportFrom(self, s):
        base = s.module or ''
        cur = self.frames[-1].module
        if s.level:
            parts = cur.name.split('.')
            if not cur.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        else:
            self.import_event(base, s)
        for a in s.names:
            if a.name == '*':
                if base in self.repo.modules:
                    fr = self.load(base)
                    for k, v in fr.env.items():
                        if not k.startswith('_'):
                            self.env()[k] = v
                else:
                    self.undecide('star import', s)
                continue
            self.env()[a.asname or a.name] = self.import_from(base, a.name)

    def import_from(self, base, name):
        if base in self.repo.modules:
            fr = self.load(base)
            if name in fr.env:
                return fr.env[name]
            if base + '.' + name in self.repo.modules:
                self.load(base + '.' + name)
                return Mod(base + '.' + name)
            return T.opaque('import', leaf(base + '.' + name))
        if base + '.' + name in self.repo.modules:
            self.load(base + '.' + name)
            return Mod(base + '.' + name)
        return self.models.ext_attr(self, base, name)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        q = (fr.func + '.' if fr.func != '<module>' else fr.module.name.replace(self.repo.pkg + '.', '') + '.') + s.name
        f = Fn(s, fr.module, fr if fr.func != '<module>' else None, s.name, q,
               tuple(self.eval(d) for d in s.args.defaults),
               {a.arg: self.eval(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in f.defaults:
            if isinstance(d, Ref):
                r = self.rec(d)
                r.roots = r.roots | {'<default>' + q}
        decs = []
        val = f
        for d in reversed(s.decorator_list):
            dv = self.eval_decorator(d)
            if isinstance(dv, Fn):
                val = self.call(dv, [val], {}, s)
            else:
                decs.append(dv)
        f.decorators = tuple(decs)
        self.env()[s.name] = val

    def eval_decorator(self, d):
        if isinstance(d, ast.Call):
            fn = self.eval(d.func)
            if isinstance(fn, Builtin):
                return fn
            if isinstance(fn, Fn):
                return self.eval(d)
            return fn
        return self.eval(d)

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.eval(b) for b in s.bases]
        sub = Frame(fr.func, fr.module, fr if fr.func != '<module>' else None)
        sub.env = {}
        isenum = any(isinstance(b, (Builtin, Type)) and b.name.startswith('enum.') for b in bases)
        self.frames.append(sub)
        try:
            for st in s.body:
                self.node = st
                if isenum and isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    nm = st.targets[0].id
                    self.exec(st)
                    sub.env['=' + nm] = sub.env[nm]
                    continue
                self.exec(st)
        finally:
            self.frames.pop()
        attrs = {}
        for k, v in sub.env.items():
            if k.startswith('='):
                continue
            if isenum and ('=' + k) in sub.env:
                attrs[k] = leaf(Enumv(s.name, k))
            else:
                attrs[k] = v
        c = Cls(s.name, s, fr.module, attrs, bases)
        for v in attrs.values():
            if isinstance(v, Fn):
                v.cls = c
                v.qual = (fr.module.name.replace(self.repo.pkg + '.', '') + '.' + s.name + '.' + v.name)
        c_isenum = isenum
        c.attrs['__enum__'] = leaf(c_isenum)
        self.env()[s.name] = c

    def x_Return(self, s):
        v = leaf(None) if s.value is None else self.eval(s.value)
        fr = self.frames[-1]
        if fr.loops and any(l.get('sym') for l in fr.loops):
            fr.loops[-1]['escape'].append(('return', self.pc, v))
            for l in fr.loops:
                l['returned'] = True
            return True
        fr.exits.append((self.pc, v, dict(self.heap)))
        return True

    def x_Raise(self, s):
        exc = 'Exception'
        msg = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                try:
                    args = [self.eval(a) for a in e.args]
                    msg = args
                except DeadPath:
                    raise
                e = e.func
            if isinstance(e, ast.Name):
                exc = e.id
            elif isinstance(e, ast.Attribute):
                exc = e.attr
        self.raise_(exc, s, msg=msg)

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.event('assert', s, cond=c)
        self.raise_('AssertionError', s, cond=lnot(c))

    def x_Global(self, s):
        self.frames[-1].globals_decl |= set(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals = getattr(self.frames[-1], 'nonlocals', set()) | set(s.names)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env().pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval_index(t.slice)
                self.models.delitem(self, o, k, s)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, s)
            rhs = self.eval(s.value)
            new = self.inplace(op, cur, rhs, s)
            self.assign(s.target, new)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            cur = self.getattr(o, s.target.attr, s)
            rhs = self.eval(s.value)
            new = self.inplace(op, cur, rhs, s)
            self.setattr(o, s.target.attr, new, s)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value)
            k = self.eval_index(s.target.slice)
            cur = self.models.getitem(self, o, k, s)
            rhs = self.eval(s.value)
            if isinstance(cur, Ref) and isinstance(self.rec(cur), (Arr,)) and self.rec(cur).base is None:
                new = self.binop(op, cur, rhs, s)
            elif isinstance(cur, Ref) and isinstance(self.rec(cur), Arr) and isinstance(o, Ref) and isinstance(self.rec(o), (Arr,)):
                new = self.binop(op, cur, rhs, s)
            else:
                new = self.inplace(op, cur, rhs, s)
            self.models.setitem(self, o, k, new, s)

    def inplace(self, op, cur, rhs, node):
        if isinstance(cur, Ref):
            r = self.rec(cur)
            if isinstance(r, Arr):
                res = self.binop(op, cur, rhs, node)
                self.mutate(cur, 'augmented assignment', node)
                if isinstance(res, Ref) and isinstance(self.rec(res), Arr):
                    av = self.rec(res).av
                    if av.ndim == r.av.ndim:
                        av = av.copy(kind=r.av.kind, name=r.av.name)
                        if r.av.dtype == 'int' and not self.models.is_int_body(av.body):
                            av = av.copy(dtype='int')
                        self.set_arr(cur, av)
                        return cur
                    self.raise_('ValueError', node)
                return res
            if isinstance(r, Lst) and op == 'Add':
                self.mutate(cur, 'list +=', node)
                self.heap[cur.oid] = Lst(r.parts + tuple(self.models.list_parts(self, rhs)), r.roots)
                return cur
            if isinstance(r, Dct) and op == 'BitOr':
                return self.models.call_method(self, cur, 'update', [rhs], {}, node) and cur or cur
        return self.binop(op, cur, rhs, node)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals_decl:
                self.event('global_write', t, name=t.id)
                fr.module.frame.env[t.id] = v
                return
            if t.id in getattr(fr, 'nonlocals', ()):
                p = fr.parent
                while p is not None:
                    if t.id in p.env:
                        p.env[t.id] = v
                        return
                    p = p.parent
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.models.setitem(self, o, k, v, t)
        else:
            self.undecide('assignment target', t)

    def unpack(self, t, v):
        n = len(t.elts)
        star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.models.concrete_items(self, v, None if star else n)
        if items is None:
            tv = self.term(v)
            for k, e in enumerate(t.elts):
                self.assign(e, app('item', tv, num(k), unmod=_un(tv), nan=True))
            self.undecide('unpacking of unmodelled value', t) if _un(tv) else None
            return
        if star:
            k = star[0]
            after = n - k - 1
            for e, x in zip(t.elts[:k], items[:k]):
                self.assign(e, x)
            self.assign(t.elts[k].value, self.alloc(Lst([('one', x) for x in items[k:len(items) - after]])))
            for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x)
            return
        if len(items) != n:
            self.raise_('ValueError', t)
        for e, x in zip(t.elts, items):
            self.assign(e, x)

    def setattr(self, o, name, v, node):
        if isinstance(o, Ref):
            r = self.rec(o)
            if isinstance(r, Obj):
                if r.roots:
                    self.event('mutate', node, roots=tuple(sorted(r.roots)), what='attribute ' + name)
                at = dict(r.attrs)
                at[name] = v
                self.heap[o.oid] = Obj(r.cls, at, r.roots)
                return
            self.models.set_attr(self, o, name, v, node)
            return
        if isinstance(o, (Mod, Cls, Builtin)):
            self.event('global_write', node, name='%s.%s' % (getattr(o, 'name', o), name))
            return
        if isinstance(o, Fn):
            self.event('global_write', node, name='%s.%s' % (o.qual, name))
            return
        if isinstance(o, (Tup, S)) and not (isinstance(o, S) and (o.kind == 'N' or o.unmod)):
            self.raise_('AttributeError', node)
        self.undecide('attribute store', node)

    # -- control flow
    def snapshot(self):
        return (dict(self.heap), [(f, dict(f.env)) for f in self.frames], self.pc)

    def restore(self, snap):
        self.heap = dict(snap[0])
        for f, e in snap[1]:
            f.env = dict(e)
        self.pc = snap[2]

    def under_pc(self, c):
        """simplify guard c with what the path condition decides"""
        if c.kind == 'L':
            return c
        if self.pc.kind == 'N':
            if land(self.pc, c) is T.FALSE:
                return T.FALSE
            if land(self.pc, lnot(c)) is T.FALSE:
                return T.TRUE
        return c

    def x_If(self, s):
        c = self.under_pc(self.truth(self.eval(s.test)))
        if c is T.TRUE:
            return self.exec_block(s.body)
        if c is T.FALSE:
            return self.exec_block(s.orelse)
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f1, f2):
        snap = self.snapshot()
        self.pc = land(snap[2], c)
        try:
            d1 = bool(f1())
        except DeadPath:
            d1 = True
        st1 = self.snapshot()
        self.restore(snap)
        self.pc = land(snap[2], lnot(c))
        try:
            d2 = bool(f2())
        except DeadPath:
            d2 = True
        if d1 and d2:
            return True
        if d1:
            return False
        if d2:
            self.restore(st1)
            return False
        st2 = self.snapshot()
        self.merge_states(c, st1, st2)
        return False

    def merge_states(self, c, st1, st2):
        h1, e1, p1 = st1
        h2, e2, p2 = st2
        self.heap = self.merge_heap(c, h1, h2)
        for (f, a), (g, b) in zip(e1, e2):
            out = {}
            for k in list(a) + [x for x in b if x not in a]:
                if k in a and k in b:
                    out[k] = self.merge_val(c, a[k], b[k], h1, h2)
                else:
                    out[k] = MaybeUnbound(a.get(k, b.get(k)), c if k in a else lnot(c))
            f.env = out
        self.pc = lor(p1, p2)

    def x_Try(self, s):
        self.raises.append([])
        snap = self.snapshot()
        self.try_depth = getattr(self, 'try_depth', 0) + bool(s.handlers)
        exits_before = [len(f.exits) for f in self.frames]
        try:
            try:
                dead = self.exec_block(s.body)
            except DeadPath:
                dead = True
            if not dead and s.orelse:
                dead = self.exec_block(s.orelse)
        finally:
            self.try_depth -= bool(s.handlers)
        caught = self.raises.pop()
        normal = None if dead else self.snapshot()
        outs = []
        if normal is not None:
            outs.append((self.pc, normal))
        nfr = len(self.frames)
        for rec in caught:
            h = self.match_handler(s.handlers, rec)
            if h is None:
                self.node = rec['node']
                if self.raises:
                    self.raises[-1].append(rec)
                elif not self.quiet:
                    self.uncaught.append(rec)
                continue
            self.heap = dict(rec['heap'])
            for f, e in rec['frames'][:nfr]:
                f.env = dict(e)
            self.pc = rec['cond']
            if h.name:
                self.env()[h.name] = T.opaque('exc:' + rec['exc'])
            try:
                d = self.exec_block(h.body)
            except DeadPath:
                d = True
            if not d:
                outs.append((self.pc, self.snapshot()))
        if not outs:
            if s.finalbody:
                self.restore(snap)
                self.exec_block(s.finalbody)
            return True
        c0, st = outs[-1]
        self.restore(st)
        for c, st1 in reversed(outs[:-1]):
            cur = self.snapshot()
            self.merge_states(c, st1, cur)
        if s.finalbody:
            return self.exec_block(s.finalbody)
        return False

    x_TryStar = x_Try

    EXC_PARENTS = {
        'KeyError': ['LookupError'], 'IndexError': ['LookupError'],
        'AttributeError': [], 'TypeError': [], 'ValueError': [],
        'ZeroDivisionError': ['ArithmeticError'], 'FileNotFoundError': ['OSError', 'IOError'],
        'FileExistsError': ['OSError', 'IOError'], 'ModuleNotFoundError': ['ImportError'],
    }

    def match_handler(self, handlers, rec):
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                n = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
                if n in ('Exception', 'BaseException') or n == rec['exc'] or n in self.EXC_PARENTS.get(rec['exc'], ()):
                    return h
        return None

    def x_With(self, s):
        opened = []
        for it in s.items:
            v = self.eval(it.context_expr)
            nm = self.models.ctx_name(self, v)
            self.event('with', s, ctx=nm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.models.ctx_enter(self, v))
            if isinstance(v, Ref):
                self.models.ctx_guard(self, v, s)
            opened.append(v)
        dead = self.exec_block(s.body)
        for v in reversed(opened):
            if isinstance(v, Ref):
                self.models.ctx_exit(self, v, s)
        return dead

    def x_Match(self, s):
        subj = self.eval(s.subject)

        def go(cases):
            if not cases:
                return False
            c = cases[0]
            cond = self.match_pattern(c.pattern, subj)
            if c.guard is not None:
                cond = land(cond, self.truth(self.eval(c.guard)))
            cond = self.under_pc(cond)
            if cond is T.TRUE:
                return self.exec_block(c.body)
            if cond is T.FALSE:
                return go(cases[1:])
            return self.branch(cond, lambda: self.exec_block(c.body), lambda: go(cases[1:]))
        return go(s.cases)

    def match_pattern(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', subj, self.eval(p.value), p))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', subj, leaf(p.value), p))
        if isinstance(p, ast.MatchOr):
            return lor(*[self.match_pattern(q, subj) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.env()[p.name] = subj
                return T.TRUE
            c = self.match_pattern(p.pattern, subj)
            if p.name:
                self.env()[p.name] = subj
            return c
        self.undecide('match pattern', p)
        return T.as_bool(T.opaque('match', num(self.next_oid)))

    def x_Break(self, s):
        fr = self.frames[-1]
        fr.loops[-1]['breaks'].append((self.pc, self.snapshot()))
        return True

    def x_Continue(self, s):
        fr = self.frames[-1]
        fr.loops[-1]['continues'].append((self.pc, self.snapshot()))
        return True

    def fixed_range(self, loop):
        a = [self.eval(x) for x in loop.iter.args]
        return all(isinstance(x, S) and x.kind == 'L' and isinstance(x.val, T.Poly) and T.const_of(x.val) is not None for x in a)

    def x_While(self, s):
        c = self.truth(self.eval(s.test))
        if c is T.FALSE:
            return self.exec_block(s.orelse)
        w = counting(s)
        if w is not None and not self.fixed_range(w[1]):
            k, loop, brk = w
            start, stop = self.eval(ast.copy_location(ast.Name(k, ast.Load()), s)), self.eval(loop.iter.args[1])
            d = self.exec(loop)
            if not d:
                end = FX.s_max(start, stop) if not brk and isinstance(start, S) and isinstance(stop, S) else T.opaque('counter', num(self.next_oid))
                self.env()[k] = end
            return d
        # try concrete unrolling
        fr = self.frames[-1]
        for _ in range(MAX_CONCRETE):
            c = self.under_pc(self.truth(self.eval(s.test)))
            if c is T.FALSE:
                return self.exec_block(s.orelse) if s.orelse else False
            if c is not T.TRUE:
                break
            fr.loops.append(dict(breaks=[], continues=[], escape=[], sym=False))
            d = self.exec_block(s.body)
            info = fr.loops.pop()
            d = self.join_list(d, info['continues'])
            if info['breaks']:
                d2 = self.join_list(d, info['breaks'])
                if all(c is T.TRUE or c is self.pc for c, _ in info['breaks']) and d:
                    return d2
                self.undecide('conditional break in while', s)
                self.havoc(s)
                return False
            if d:
                return True
        self.undecide('while loop', s)
        self.havoc(s)
        return False

    def havoc(self, s):
        """forget everything the statement can assign"""
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        base = {}
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                v = self.env().get(n.id)
                if isinstance(v, (Ref, S)):
                    base[n.id] = v
        deps = [self.term(v) for k, v in sorted(base.items())]
        for n in names:
            self.env()[n] = T.opaque('havoc:' + n, num(self.next_oid), *deps)
        for n in ast.walk(s):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                r = n.value
                while isinstance(r, (ast.Subscript, ast.Attribute)):
                    r = r.value
                if isinstance(r, ast.Name):
                    v = self.env().get(r.id)
                    if isinstance(v, Ref):
                        self.havoc_obj(v, deps)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                v = self.env().get(n.func.value.id)
                if isinstance(v, Ref) and n.func.attr in ('append', 'extend', 'insert', 'pop', 'update', 'sort', 'remove', 'clear', 'setdefault'):
                    self.havoc_obj(v, deps)

    def havoc_obj(self, v, deps=()):
        r = self.rec(v)
        if isinstance(r, Arr):
            self.set_arr(v, r.av.copy(body=T.opaque('havoc', num(self.next_oid), *deps, *[P(atom_poly(a.var)) for a in r.av.axes])))
        elif isinstance(r, Lst):
            self.heap[v.oid] = Lst([('opaque', T.opaque('havoc', num(self.next_oid), *deps))], r.roots)
        elif isinstance(r, Dct):
            self.heap[v.oid] = Dct([('opaque', T.opaque('havoc', num(self.next_oid), *deps))], r.roots)

    def join_list(self, dead, states):
        """join current state (unless dead) with a list of (cond, snapshot)"""
        states = list(states)
        if dead:
            if not states:
                return True
            c, st = states.pop()
            self.restore(st)
        for c, st in reversed(states):
            cur = self.snapshot()
            self.merge_states(c, st, cur)
        return False

    def x_For(self, s):
        it = self.eval(s.iter)
        items, seq = self.models.iterate(self, it, s)
        fr = self.frames[-1]
        if items is not None:
            allbreaks = []
            dead = False
            for v in items:
                self.assign(s.target, v)
                fr.loops.append(dict(breaks=[], continues=[], escape=[], sym=False))
                try:
                    dead = self.exec_block(s.body)
                except DeadPath:
                    dead = True
                info = fr.loops.pop()
                dead = self.join_list(dead, info['continues'])
                allbreaks += info['breaks']
                if dead:
                    break
            if not dead and s.orelse:
                dead = self.exec_block(s.orelse)
            return self.join_list(dead, allbreaks)
        from .loops import exec_for_sym
        return exec_for_sym(self, s, seq)

    x_AsyncFor = x_For

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        saved = self.node
        self.node = e
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.undecide('expression ' + type(e).__name__, e)
            v = T.opaque('expr:' + type(e).__name__, num(self.next_oid))
        else:
            v = m(e)
        self.node = saved
        return v

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return leaf(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, complex):
            return T.s_add(num(v.real), T.s_mul(num(v.imag), P(T.IU)))
        if v is Ellipsis:
            return EllipsisV()
        return leaf(v)

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(leaf(x.value))
            else:
                v = self.eval(x.value)
                fs = self.models.cstr(self.eval(x.format_spec)) if x.format_spec is not None else ''
                if fs is None:
                    v = app('format', self.term(v), self.term(self.eval(x.format_spec)), num(x.conversion))
                elif isinstance(v, S) or fs or x.conversion != -1:
                    v = self.models.format_value(self, v, fs, x.conversion)
                parts.append(v)
        return self.models.str_concat(self, parts)

    def e_FormattedValue(self, e):
        return self.eval(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def lookup(self, name, node):
        fr = self.frames[-1]
        f = fr
        first = True
        while f is not None:
            if name in f.env and not (first and name in fr.globals_decl):
                v = f.env[name]
                if isinstance(v, MaybeUnbound):
                    self.event('maybe_unbound', node, name=name, cond=lnot(v.cond))
                    return v.v
                return v
            f = f.parent
            first = False
        m = fr.module.frame
        if m is not None and name in m.env:
            v = m.env[name]
            if isinstance(v, MaybeUnbound):
                v = v.v
            if isinstance(v, Ref):
                r = self.rec(v) if v.oid in self.heap else None
                if r is not None and not r.roots and self.phase == 'call':
                    pass
            self.event_global_read(name, v, node)
            return v
        b = self.models.builtin_name(self, name)
        if b is not None:
            return b
        # unresolved
        if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
               for n in ast.walk(getattr(self.cur_fn_node(), 'body', None) and self.cur_fn_node() or ast.Module([], []))):
            self.raise_('UnboundLocalError', node)
        self.raise_('NameError', node)

    def cur_fn_node(self):
        fr = self.frames[-1]
        return getattr(fr, 'fnode', None) or ast.Module([], [])

    def event_global_read(self, name, v, node):
        pass

    def e_Attribute(self, e):
        o = self.eval(e.value)
        self.node = e
        return self.getattr(o, e.attr, e)

    def getattr(self, o, name, node):
        return self.models.get_attr(self, o, name, node)

    def e_Call(self, e):
        # vars() idiom
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                items = self.models.concrete_items(self, v, None)
                if items is None:
                    self.undecide('*args of symbolic length', a)
                    args.append(v)
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.rec(v), Dct) and all(p[0] == 'kv' for p in self.rec(v).parts):
                    for p in self.rec(v).parts:
                        try:
                            kw[T.s_const(p[1])] = p[2]
                        except KeyError:
                            self.undecide('symbolic ** key', e)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        self.node = e
        return self.call(f, args, kw, e)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        self.node = e
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        return self.models.binop(self, op, a, b, node)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.models.unop(self, type(e.op).__name__, v, e)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        res = None
        v = self.eval(e.values[0])
        return self.boolop(isand, v, e.values[1:])

    def boolop(self, isand, v, rest):
        if not rest:
            return v
        c = self.under_pc(self.truth(v))
        if c.kind == 'L':
            if c.val is True:
                return self.boolop(isand, self.eval(rest[0]), rest[1:]) if isand else v
            return v if isand else self.boolop(isand, self.eval(rest[0]), rest[1:])
        pc0 = self.pc
        self.pc = land(pc0, c if isand else lnot(c))
        try:
            r = self.boolop(isand, self.eval(rest[0]), rest[1:])
        except DeadPath:
            self.pc = land(pc0, lnot(c) if isand else c)
            return v
        newpc = lor(self.pc, land(pc0, lnot(c) if isand else c))
        self.pc = newpc
        if isinstance(v, S) and isinstance(r, S):
            return ite(c, r, v) if isand else ite(c, v, r)
        rt = self.truth(r)
        return land(c, rt) if isand else lor(c, rt)

    def e_Compare(self, e):
        l = self.eval(e.left)
        res = None
        for op, rhs in zip(e.ops, e.comparators):
            r = self.eval(rhs)
            self.node = e
            c = self.compare(type(op).__name__, l, r, e)
            if res is None:
                res = c
            else:
                if isinstance(res, S) and isinstance(c, S):
                    res = land(T.truth(res), T.truth(c))
                else:
                    res = self.models.binop(self, 'BitAnd', res, c, e)
            l = r
        return res

    def compare(self, op, a, b, node):
        return self.models.compare(self, op, a, b, node)

    def truth(self, v):
        return self.models.truth(self, v)

    def e_IfExp(self, e):
        c = self.under_pc(self.truth(self.eval(e.test)))
        if c is T.TRUE:
            return self.eval(e.body)
        if c is T.FALSE:
            return self.eval(e.orelse)
        out = {}

        def f1():
            out['a'] = self.eval(e.body)
            self.env()['$ifexp'] = out['a']

        def f2():
            out['b'] = self.eval(e.orelse)
            self.env()['$ifexp'] = out['b']
        dead = self.branch(c, f1, f2)
        if dead:
            raise DeadPath()
        v = self.env().pop('$ifexp')
        return v.v if isinstance(v, MaybeUnbound) else v

    def e_Tuple(self, e):
        return Tup(self.eval_elts(e.elts))

    def eval_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                items = self.models.concrete_items(self, v, None)
                if items is None:
                    self.undecide('starred symbolic', x)
                    out.append(v)
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.models.list_parts(self, self.eval(x.value)))
            else:
                parts.append(('one', self.eval(x)))
        return self.alloc(Lst(parts))

    def e_Set(self, e):
        return Tup(self.eval_elts(e.elts))

    def e_Dict(self, e):
        parts = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.eval(v)
                if isinstance(vv, Ref) and isinstance(self.rec(vv), Dct):
                    for p in self.rec(vv).parts:
                        parts = self.models.dict_put_part(parts, p)
                else:
                    parts.append(('opaque', self.term(vv)))
            else:
                kk = self.eval(k)
                parts = self.models.dict_put(parts, self.models.keyterm(self, kk), self.eval(v))
        return self.alloc(Dct(parts))

    def e_Lambda(self, e):
        fr = self.frames[-1]
        return Fn(e, fr.module, fr if fr.func != '<module>' else None, '<lambda>', fr.func + '.<lambda>',
                  tuple(self.eval(d) for d in e.args.defaults),
                  {a.arg: self.eval(d) for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults) if d is not None})

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        self.node = e
        return self.models.getitem(self, o, k, e)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return Slice(None if s.lower is None else self.eval(s.lower),
                         None if s.upper is None else self.eval(s.upper),
                         None if s.step is None else self.eval(s.step))
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(x) for x in s.elts])
        return self.eval(s)

    def e_Slice(self, e):
        return self.eval_index(e)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_ListComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'list')

    def e_GeneratorExp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'gen')

    def e_SetComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'set')

    def e_DictComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'dict')

    def e_Yield(self, e):
        fr = self.frames[-1]
        v = leaf(None) if e.value is None else self.eval(e.value)
        y = getattr(fr, 'yields', None)
        if y is not None:
            r = self.rec(y)
            self.heap[y.oid] = Lst(r.parts + (('one', v),), r.roots)
        return leaf(None)

    def e_YieldFrom(self, e):
        fr = self.frames[-1]
        v = self.eval(e.value)
        y = getattr(fr, 'yields', None)
        if y is not None:
            r = self.rec(y)
            self.heap[y.oid] = Lst(r.parts + tuple(self.models.list_parts(self, v)), r.roots)
        return leaf(None)

    # ------------------------------------------------------------ terms
    def term(self, v, depth=0):
        """value -> hashable term usable as app argument"""
        if isinstance(v, S):
            return v
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.term(x, depth + 1) for x in v.items)
        if isinstance(v, Ref):
            if depth > 8:
                return ('deep',)
            r = self.heap.get(v.oid)
            if isinstance(r, Arr):
                if not r.av.axes:
                    return r.av.body
                return r.av.lam()
            if isinstance(r, Lst):
                return ('list',) + tuple(self.part_term(p, depth) for p in r.parts)
            if isinstance(r, Dct):
                return ('dict',) + tuple(self.part_term(p, depth) for p in r.parts)
            if isinstance(r, Obj):
                return ('obj', r.cls if isinstance(r.cls, str) else r.cls.name) + tuple((k, self.term(x, depth + 1)) for k, x in sorted(r.attrs.items()))
            return ('?',)
        if isinstance(v, Fn):
            return ('fn', v.qual)
        if isinstance(v, (Builtin, Mod, Type)):
            return ('name', v.name)
        if isinstance(v, Cls):
            return ('cls', v.name)
        if isinstance(v, Slice):
            return ('slice',) + tuple(None if x is None else self.term(x, depth + 1) for x in (v.lo, v.hi, v.step))
        if isinstance(v, Meth):
            return ('meth', self.term(v.obj, depth + 1), v.name)
        if isinstance(v, Idx):
            return ('idx', self.term(v.obj, depth + 1), v.kind)
        if isinstance(v, Seq):
            return ('seq', self.lam_val([v.iv], [v.n], v.elem, depth))
        if isinstance(v, MaybeUnbound):
            return self.term(v.v, depth)
        if isinstance(v, MaybeV):
            return ('maybe', v.c, self.term(v.a, depth + 1), self.term(v.b, depth + 1))
        if isinstance(v, Partial):
            return ('partial', self.term(v.fn), tuple(self.term(a) for a in v.args), tuple(sorted((k, self.term(x)) for k, x in v.kwargs.items())))
        if isinstance(v, EllipsisV):
            return ('...',)
        if v is None:
            return None
        return ('val', repr(v))

    def lam_val(self, vs, ns, v, depth=0):
        t = self.term(v, depth + 1)
        if isinstance(t, S):
            return T.lam(vs, ns, t)
        # wrap structured element into a body tuple-lambda: use app 'tuple'
        return T.lam(vs, ns, app('struct', t))

    def part_term(self, p, depth):
        if p[0] == 'one':
            return ('one', self.term(p[1], depth + 1))
        if p[0] == 'map':
            return ('map', self.lam_val([p[1]], [p[2]], Tup([p[3], p[4]]), depth))
        if p[0] == 'kv':
            return ('kv', p[1], self.term(p[2], depth + 1))
        if p[0] == 'if':
            return ('if', p[1]) + tuple(self.part_term(q, depth + 1) for q in p[2])
        if p[0] == 'dmap':
            return ('dmap', self.lam_val([p[1]], [p[2]], Tup([p[3], p[4]]), depth))
        return tuple(x if isinstance(x, (str, S, int)) else self.term(x, depth + 1) for x in p)


class MaybeUnbound:
    __slots__ = ('v', 'cond')

    def __init__(self, v, cond):
        if isinstance(v, MaybeUnbound):
            cond = land(cond, v.cond)
            v = v.v
        self.v, self.cond = v, cond


class MaybeV:
    """decision between two structurally different values"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    @staticmethod
    def make(I, c, a, b):
        return MaybeV(c, a, b)

    def __repr__(self):
        return 'MaybeV(%s, %r, %r)' % (T.short(self.c), self.a, self.b)

    def __eq__(self, o):
        return isinstance(o, MaybeV) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash(('maybe', self.c))


def _un(t):
    if isinstance(t, tuple):
        return any(_un(x) for x in t)
    return bool(getattr(t, 'unmod', False))


def walk_own(fn):
    """walk function body without nested functions"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
