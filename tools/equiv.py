"""Behaviour-preserving rewrites of the whole source tree, to see that the checks stay quiet.

usage: equiv.py OUTDIR TRANSFORM...   writes OUTDIR/<transform>/src with the transform applied everywhere
       equiv.py -l                    lists the transforms
Used while building the checks (run them with VG_REPO=OUTDIR/<transform>); no registered command uses it."""
import ast
import copy
import os
import shutil
import sys

SRC = os.environ.get('VG_REPO', '/repo')
TR = {}


def U(n):
    return ast.unparse(ast.fix_missing_locations(n))


def transform(f):
    TR[f.__name__] = f
    return f


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def call(f, *a):
    return ast.Call(f if isinstance(f, ast.AST) else name(f), list(a), [])


def textual(e):
    return any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(e))


def simple(e):
    """evaluating it early or twice changes nothing"""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context, ast.Subscript,
                              ast.Slice, ast.Tuple)) for x in ast.walk(e))


class Blocks(ast.NodeTransformer):
    """rewrites statement lists"""
    k = 0

    def fresh(self, p='_v'):
        self.k += 1
        return '%s%d' % (p, self.k)

    def stmt(self, s):
        return [s]

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                out = []
                for s in v:
                    out += self.stmt(s)
                setattr(node, f, out)
        return node


class Fn(ast.NodeTransformer):
    pass


@transform
class commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not textual(n) or isinstance(n.op, ast.Add) and not textual(n) and MODULE not in ('iotools.py', 'hope_campaign.py'):
            return ast.BinOp(n.right, n.op, n.left)
        return n


@transform
class flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and not isinstance(n.left, ast.Constant) and 'name__' not in U(n):
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n


@transform
class invert_if(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and '__name__' not in U(n.test):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


@transform
class early_return(Blocks):
    """if c: ...; else: rest   with a body that always leaves -> no else"""
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            e = s.orelse
            s.orelse = []
            return [s] + e
        return [s]


@transform
class add_else(ast.NodeTransformer):
    """if c: leave; rest -> if c: leave else: rest"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:]:
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


@transform
class temps(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.BinOp):
            a, b = self.fresh(), self.fresh()
            l, r = s.value.left, s.value.right
            s.value.left, s.value.right = name(a), name(b)
            return [ast.Assign([name(a, ast.Store())], l), ast.Assign([name(b, ast.Store())], r), s]
        return [s]


@transform
class arg_temps(Blocks):
    """arguments of calls go through variables"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args):
            out = []
            for i, a in enumerate(s.value.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda, ast.GeneratorExp)):
                    v = self.fresh()
                    out.append(ast.Assign([name(v, ast.Store())], a))
                    s.value.args[i] = name(v)
            for k in s.value.keywords:
                if k.arg and not isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda)):
                    v = self.fresh()
                    out.append(ast.Assign([name(v, ast.Store())], k.value))
                    k.value = name(v)
            return out + [s]
        return [s]


@transform
class return_var(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
            v = self.fresh('result')
            return [ast.Assign([name(v, ast.Store())], s.value), ast.Return(name(v))]
        return [s]


@transform
class rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if 'vars()' in U(n):
            return n
        own = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        own -= {a.arg for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for a in f.args.args + f.args.kwonlyargs + [y for y in (f.args.vararg, f.args.kwarg) if y]}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in own:
                x.id = x.id + '_r'
        return n


@transform
class while_loops(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and 'vars()' not in U(s):
            it, k = self.fresh('_it'), self.fresh('_k')
            return [ast.Assign([name(it, ast.Store())], call('list', s.iter)), ast.Assign([name(k, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [call('len', name(it))]),
                              [ast.Assign([s.target], ast.Subscript(name(it), name(k), ast.Load())), ast.AugAssign(name(k, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])]
        return [s]


@transform
class index_loops(Blocks):
    """for x in list -> for k in range(len(list))"""
    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and not isinstance(s.iter, ast.Call):
            it, k = self.fresh('_it'), self.fresh('_k')
            return [ast.Assign([name(it, ast.Store())], call('list', s.iter)),
                    ast.For(name(k, ast.Store()), call('range', call('len', name(it))), [ast.Assign([s.target], ast.Subscript(name(it), name(k), ast.Load()))] + s.body, [])]
        return [s]


@transform
class comp_loops(Blocks):
    """v = [f for x in y if c] -> a loop that appends"""
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            v = self.fresh('_l')
            g = s.value.generators[0]
            body = [ast.Expr(call(ast.Attribute(name(v), 'append', ast.Load()), s.value.elt))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            s.value = name(v)
            t = ast.Assign([name(v, ast.Store())], ast.List([], ast.Load()))
            return [t, ast.For(g.target, g.iter, body, []), s]
        return [s]


@transform
class to_comp(ast.NodeTransformer):
    """v = []; for x in y: v.append(f) -> v = [f for x in y]"""
    def generic_visit(self, node):
        super().generic_visit(node)
        b = getattr(node, 'body', None)
        if isinstance(b, list):
            for i in range(len(b) - 1):
                a, f = b[i], b[i + 1]
                if (isinstance(a, ast.Assign) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(f, ast.For) and len(f.body) == 1
                        and isinstance(f.body[0], ast.Expr) and U(f.body[0]).startswith(U(a.targets[0]) + '.append(')):
                    a.value = ast.ListComp(f.body[0].value.args[0], [ast.comprehension(f.target, f.iter, [], 0)])
                    b[i + 1] = ast.Pass()
        return node


@transform
class extract(ast.NodeTransformer):
    """every function body moves to a helper of the module"""
    def visit_Module(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and 'vars()' not in U(s):
                h = copy.deepcopy(s)
                h.name = '_do_' + s.name.strip('_')
                h.args.defaults = []
                h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
                a = s.args
                doc = s.body[:1] if ast.get_docstring(s) is not None else []
                c = ast.Call(name(h.name), [name(x.arg) for x in a.posonlyargs + a.args] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                             [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                s.body = doc + [ast.Return(c)]
                out += [h, s]
            else:
                out.append(s)
        n.body = out
        return n


@transform
class inner(ast.NodeTransformer):
    """every right-hand side is computed by a local function of no arguments"""
    def visit_FunctionDef(self, n):
        if 'vars()' in U(n):
            return n
        out = []
        k = 0
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s)):
                tg = {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                us = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                if tg & us:
                    out.append(s)
                    continue
                k += 1
                f = ast.FunctionDef('_step%d' % k, ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [], None, None)
                f.type_params = []
                s.value = call('_step%d' % k)
                out += [f, s]
            else:
                out.append(s)
        n.body = out
        return n


@transform
class noop(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.FunctionDef):
            s.body.insert(1 if ast.get_docstring(s) is not None else 0, ast.Assign([name('_unused', ast.Store())], ast.Constant(0)))
        if isinstance(s, (ast.If, ast.For, ast.Return)):
            return [ast.Pass(), ast.If(ast.Constant(False), [ast.Expr(call('print', ast.Constant('x')))], []), s]
        return [s]


@transform
class augment(ast.NodeTransformer):
    """x = x + y <- x += y   (only names)"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Mult, ast.Sub, ast.Div)):
            return ast.Assign([name(n.target.id, ast.Store())], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


@transform
class square(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and simple(n.left):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if U(n.func) == 'np.sqrt' and len(n.args) == 1:
            return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n


@transform
class ufuncs(ast.NodeTransformer):
    """operators <-> numpy functions"""
    B = {'np.bitwise_and': ast.BitAnd, 'np.bitwise_or': ast.BitOr, 'np.logical_and': ast.BitAnd}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = U(n.func)
        if f in self.B and len(n.args) == 2 and not n.keywords:
            return ast.BinOp(n.args[0], self.B[f](), n.args[1])
        if f == 'np.bitwise_not':
            return ast.UnaryOp(ast.Invert(), n.args[0])
        if f in ('np.abs', 'np.max', 'np.min'):
            n.func.attr = {'abs': 'absolute', 'max': 'amax', 'min': 'amin'}[n.func.attr]
        if f == 'np.dot' and len(n.args) == 2:
            return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
        if f == 'np.size' and n.keywords:
            return ast.Subscript(call(ast.Attribute(name('np'), 'shape', ast.Load()), n.args[0]), n.keywords[0].value, ast.Load())
        if f == 'np.expand_dims' and n.keywords and U(n.keywords[0].value) in '01' and 'index' not in U(n.args[0]):
            return call(ast.Attribute(name('np'), 'expand_dims', ast.Load()), n.args[0], n.keywords[0].value)
        return n


@transform
class unpack(Blocks):
    """a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) \
                and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts) and 'fig' not in U(s.targets[0]):
            v = self.fresh('_t')
            return [ast.Assign([name(v, ast.Store())], s.value)] + [
                ast.Assign([e], ast.Subscript(name(v), ast.Constant(i), ast.Load())) for i, e in enumerate(s.targets[0].elts)]
        return [s]


@transform
class pair_assign(Blocks):
    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                out = []
                for s in v:
                    p = out[-1] if out else None
                    if isinstance(s, ast.Assign) and isinstance(p, ast.Assign) and all(len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, p)) \
                            and p.targets[0].id not in {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)} and s.targets[0].id != p.targets[0].id:
                        out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
                    else:
                        out.append(s)
                setattr(node, f, out)
        return node


@transform
class full_names(ast.NodeTransformer):
    """import numpy as np -> import numpy"""
    def visit_Import(self, n):
        for a in n.names:
            if a.asname in ('np', 'pd'):
                a.asname = None
        return n

    def visit_Name(self, n):
        if n.id in ('np', 'pd'):
            n.id = {'np': 'numpy', 'pd': 'pandas'}[n.id]
        return n


@transform
class demorgan(ast.NodeTransformer):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), [ast.UnaryOp(ast.Not(), v) for v in n.values]))

    def test(self, n):
        self.generic_visit(n)
        return n

    def visit_Assign(self, n):      # values, not only truth
        return n

    visit_Return = visit_Assign
    visit_Call = visit_Assign


@transform
class nested_if(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            b = n.body
            for t in reversed(n.test.values):
                b = [ast.If(t, b, [])]
            return b[0]
        return n


@transform
class ternary(ast.NodeTransformer):
    """if c: x = a else: x = b -> x = a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 == len(n.orelse):
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and U(a.targets[0]) == U(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
        return n


@transform
class no_ternary(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return [ast.If(s.value.test, [a], [b])]
        return [s]


@transform
class keywords(ast.NodeTransformer):
    """arguments of the functions of the module are given by name"""
    def visit_Module(self, n):
        self.sig = {s.name: [a.arg for a in s.args.args] for s in n.body if isinstance(s, ast.FunctionDef) and not s.args.vararg}
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.sig and not any(isinstance(a, ast.Starred) for a in n.args):
            p = self.sig[n.func.id]
            n.keywords = [ast.keyword(k, v) for k, v in zip(p, n.args)] + n.keywords
            n.args = []
        return n


@transform
class kw_order(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if all(simple(k.value) for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


@transform
class slices(ast.NodeTransformer):
    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.ctx, ast.Load) and U(n.slice.elts[1]) == ':' \
                and not isinstance(n.slice.elts[0], ast.Slice) and 'loc' not in U(n.value):
            return n
        if isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            z = ast.Constant(None)
            n.slice = call('slice', n.slice.lower or z, n.slice.upper or z, n.slice.step or z)
        return n


@transform
class negate(ast.NodeTransformer):
    """a - b -> a + (-b)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub) and simple(n.right) and not any(isinstance(x, ast.Attribute) for x in ast.walk(n)):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


@transform
class div_mul(ast.NodeTransformer):
    """a / c -> a * (1 / c) for constants, a / b / c -> a / (b * c)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Div):
            return ast.BinOp(n.left.left, ast.Div(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        return n


@transform
class copies(Blocks):
    """parameters are read through local names"""
    def stmt(self, s):
        return [s]

    def visit_FunctionDef(self, n):
        if any(isinstance(x, ast.FunctionDef) and x is not n for x in ast.walk(n)) or 'vars()' in U(n):
            return n
        doc = n.body[:1] if ast.get_docstring(n) is not None else []
        body = n.body[len(doc):]
        ps = [a.arg for a in n.args.args]
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in ps:
                    x.id += '_in'
        n.body = doc + [ast.Assign([name(p + '_in', ast.Store())], name(p)) for p in ps] + body
        return n


@transform
class lambdas(ast.NodeTransformer):
    """nested one-line functions become lambdas"""
    def visit_FunctionDef(self, n):
        n.body = [self.nested(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
        return n

    def nested(self, s):
        b = s.body[1:] if ast.get_docstring(s) is not None else s.body
        if len(b) == 1 and isinstance(b[0], ast.Return):
            return ast.Assign([name(s.name, ast.Store())], ast.Lambda(s.args, b[0].value))
        return s


@transform
class checks(ast.NodeTransformer):
    """try: ... finally: pass around every body"""
    def visit_FunctionDef(self, n):
        doc = n.body[:1] if ast.get_docstring(n) is not None else []
        n.body = doc + [ast.Try(n.body[len(doc):], [], [], [ast.Pass()])]
        return n


@transform
class methods(ast.NodeTransformer):
    """np.f(a.values) etc.: reductions of arrays known by construction to be arrays"""
    R = {'np.real': 'real', 'np.conj': 'conj'}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = U(n.func)
        if f == 'np.conj' and isinstance(n.args[0], ast.Name):
            return ast.Call(ast.Attribute(n.args[0], 'conj', ast.Load()), [], [])
        if f == 'np.real' and isinstance(n.args[0], ast.Call) and 'fft' in U(n.args[0]):
            return ast.Attribute(n.args[0], 'real', ast.Load())
        return n


MODULE = ''


def main(argv):
    global MODULE
    if argv[:1] == ['-l'] or not argv:
        print(' '.join(TR))
        return
    for t in argv[1:] or TR:
        d = os.path.join(argv[0], t)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(SRC, 'src'), os.path.join(d, 'src'))
        for f in ('pyproject.toml', 'setup.cfg'):
            shutil.copy(os.path.join(SRC, f), d)
        n = 0
        for r, _, fs in os.walk(os.path.join(d, 'src')):
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(r, f)
                    s = open(p).read()
                    a = ast.parse(s)
                    b = U(a)
                    MODULE = f
                    c = TR[t]().visit(a)
                    ast.fix_missing_locations(c)
                    out = U(c)
                    ast.parse(out)
                    n += out != b
                    open(p, 'w').write(out + '\n')
        print(t, n, 'files changed')


if __name__ == '__main__':
    main(sys.argv[1:])
