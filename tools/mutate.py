#!/usr/bin/python3
"""Developer tool: small syntactic changes to one module of a scratch copy of the repository, checked one by one.

    python3 tools/mutate.py MODULE.py PROP,PROP... [-f function] [-n per-function] [-s seed] [-l]

Prints the changes no check reports.  Never touches /repo: every change lives in a copy below /tmp/mut that is removed."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/solarspatialtools'
SW = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BW = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.FloorDiv: '/', ast.Mod: '*', ast.MatMult: '*'}
NM = {'mean': 'nanmean', 'nanmean': 'mean', 'min': 'max', 'max': 'min', 'sum': 'mean', 'argmax': 'argmin', 'argmin': 'argmax', 'sin': 'cos', 'cos': 'sin',
      'nansum': 'sum', 'nanmax': 'nanmin', 'nanmin': 'nanmax', 'median': 'mean', 'nanmedian': 'nanmean', 'loc': 'iloc', 'floor': 'ceil', 'ceil': 'floor', 'round': 'floor',
      'any': 'all', 'all': 'any', 'isnan': 'isinf', 'dropna': 'copy', 'index': 'columns', 'columns': 'index', 'std': 'var', 'zeros_like': 'ones_like',
      'real': 'imag', 'imag': 'real', 'deg2rad': 'rad2deg', 'rad2deg': 'deg2rad', 'abs': 'negative', 'ffill': 'bfill', 'values': 'T', 'conj': 'copy'}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.out = []
        self.fn = []
        self.locals = []
        self.plot = 0

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def put(self, n, text, kind):
        a, b = self.span(n)
        self.out.append((a, b, text, kind, '.'.join(self.fn), n.lineno))

    def txt(self, n):
        return ast.get_source_segment(self.src, n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        loc = [x.arg for x in n.args.args]
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.append(x.id)
        self.locals.append(sorted(set(loc)))
        for d in n.args.defaults:
            self.visit(d)
        body = n.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for s in body:
            self.visit(s)
        self.locals.pop()
        self.fn.pop()

    def visit_If(self, n):
        t = self.txt(n.test)
        if t and ('plot' in t or 'debug' in t):
            return
        self.put(n.test, 'not (%s)' % t, 'neg')
        self.put(n.test, 'False', 'iffalse')
        self.put(n.test, 'True', 'iftrue')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, 'pass', 'noraise')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            self.put(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Subscript):
            self.put(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in SW:
            l, r = self.txt(n.left), self.txt(n.comparators[0])
            self.put(n, '%s %s %s' % (l, SW[type(n.ops[0])], r), 'cmp')
            if type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
                self.put(n, '%s %s %s' % (r, {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(n.ops[0])], l), 'cmpswap')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BW:
            l, r = self.txt(n.left), self.txt(n.right)
            self.put(n, '((%s) %s (%s))' % (l, BW[type(n.op)], r), 'bin')
            if isinstance(n.op, (ast.Sub, ast.Div)):
                o = '-' if isinstance(n.op, ast.Sub) else '/'
                self.put(n, '((%s) %s (%s))' % (r, o, l), 'binswap')
            else:
                self.put(n, '(%s)' % l, 'binleft')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(' + o.join('(%s)' % self.txt(v) for v in n.values) + ')', 'bool')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.put(n, '(%s)' % self.txt(n.operand), 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), 'const')
        elif isinstance(v, int):
            self.put(n, '(%d)' % (v + 1), 'const')
            if v:
                self.put(n, '(%d)' % (v - 1), 'const')
        elif isinstance(v, float):
            self.put(n, repr(v * 1.25 + (0.1 if v == 0 else 0)), 'const')
        elif isinstance(v, str) and self.fn:
            self.put(n, repr(v + 'x'), 'str')
        elif v is None:
            self.put(n, '0', 'none')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        t = self.txt(n.func)
        if t in ('print', 'warnings.warn') or t and t.startswith(('plt.', 'ax.', 'axs')):
            return
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a = [self.txt(x) for x in n.args]
            for i in range(len(a) - 1):
                b = list(a)
                b[i], b[i + 1] = b[i + 1], b[i]
                self.put(n, '%s(%s)' % (t, ', '.join(b + [self.txt(k) for k in n.keywords])), 'swapargs')
        for k in n.keywords:
            rest = [self.txt(x) for x in n.args] + [self.txt(x) for x in n.keywords if x is not k]
            self.put(n, '%s(%s)' % (t, ', '.join(rest)), 'dropkw ' + str(k.arg))
        if len(n.args) >= 2:
            self.put(n, '%s(%s)' % (t, ', '.join([self.txt(x) for x in n.args[:-1]] + [self.txt(x) for x in n.keywords])), 'droparg')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr in NM and isinstance(n.ctx, ast.Load):
            self.put(n, '%s.%s' % (self.txt(n.value), NM[n.attr]), 'attr')
        if n.attr in ('copy',):
            pass
        self.generic_visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and self.locals and n.id in self.locals[-1]:
            other = [x for x in self.locals[-1] if x != n.id]
            if other:
                self.put(n, random.choice(other), 'name')

    def visit_Import(self, n):
        pass

    visit_ImportFrom = visit_Import


RUN = r'''
import sys, os, json
sys.setrecursionlimit(20000)
sys.path.insert(0, %r)
from vg import check as ck
ck.load_rules()
hot = json.loads(sys.argv[2]) if len(sys.argv) > 2 else []
cs = [(p, c) for p in sys.argv[1].split(',') for c in ck.RULES.get(p, [])]
cs.sort(key=lambda pc: hot.index(pc[1].name) if pc[1].name in hot else 999)
und = []
for p, c in cs:
    r = ck.run_case(c)
    for o in r['obs']:
        if o['status'] == 'violated':
            print('KILL', p, c.name, o['what']); sys.stdout.flush(); os._exit(1)
        if o['status'] == 'undecided':
            und.append((p, c.name, o['what'][:100]))
print('SURVIVE', len(und), und[:2]); sys.stdout.flush()
os._exit(0)
''' % HERE


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('props')
    ap.add_argument('-f')
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=6)
    ap.add_argument('-t', type=int, default=240)
    ap.add_argument('-l', action='store_true')
    a = ap.parse_args()
    random.seed(a.s)
    src = open('/repo/%s/%s' % (SRC, a.module)).read()
    g = Gen(src)
    g.visit(ast.parse(src))
    by = {}
    for m in g.out:
        by.setdefault(m[4], []).append(m)
    todo = []
    for f, ms in by.items():
        if a.f and f not in a.f.split(','):
            continue
        random.shuffle(ms)
        todo += ms[:a.n]
    raw = src.encode()
    base = '/tmp/mut'
    os.makedirs(base, exist_ok=True)
    hot = []
    stat = {}

    def one(i):
        s, e, text, kind, fn, line = todo[i]
        new = raw[:s] + text.encode() + raw[e:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        d = '%s/%d_%d' % (base, os.getpid(), i)
        shutil.copytree('/repo/src', d + '/src')
        with open('%s/%s/%s' % (d, SRC, a.module), 'wb') as f:
            f.write(new)
        desc = '%s:%d [%s] %s -> %s' % (fn, line, kind, raw[s:e].decode().replace('\n', ' ')[:60], text.replace('\n', ' ')[:60])
        try:
            p = subprocess.run([sys.executable, '-c', RUN, a.props, json.dumps(hot[:20])], env=dict(os.environ, VG_REPO=d, PYTHONHASHSEED='0'),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=a.t)
            out = p.stdout.decode().strip().split('\n')[-1]
            if not out:
                out = 'ERROR ' + p.stderr.decode()[-200:].replace('\n', ' ')
        except subprocess.TimeoutExpired:
            out = 'TIMEOUT'
        shutil.rmtree(d)
        k = out.split(' ')[0]
        stat[k] = stat.get(k, 0) + 1
        if k == 'KILL':
            nm = out.split(' ')[2]
            if nm in hot:
                hot.remove(nm)
            hot.insert(0, nm)
        if k != 'KILL' or a.l:
            print(out[:160], '|', desc, flush=True)

    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, range(len(todo))))
    print(stat)


main()
