"""P06: every import statement resolves within the package, the standard
library or the declared requirements."""
import ast
import configparser
import os
import re
import sys
from .util import *
from ..check import load_repo, REPO

DIST = {'scikit-learn': 'sklearn', 'netcdf4': 'netCDF4', 'pyyaml': 'yaml', 'pillow': 'PIL', 'python-dateutil': 'dateutil',
        'beautifulsoup4': 'bs4', 'opencv-python': 'cv2', 'pytables': 'tables'}


def declared():
    """import names of the declared requirements (setup.cfg, pyproject.toml, setup.py literals)"""
    req = []
    p = os.path.join(REPO, 'setup.cfg')
    if os.path.exists(p):
        cp = configparser.ConfigParser()
        cp.read(p)
        if cp.has_option('options', 'install_requires'):
            req += cp.get('options', 'install_requires').split('\n')
    p = os.path.join(REPO, 'pyproject.toml')
    if os.path.exists(p):
        import tomllib
        with open(p, 'rb') as f:
            req += tomllib.load(f).get('project', {}).get('dependencies', [])
    out = set()
    for r in req:
        d = re.split(r'[\s<>=!~;\[(#]', r.strip())[0]
        if d:
            out.add(DIST.get(d.lower(), d).lower().replace('-', '_'))
            out.add(DIST.get(d.lower(), d))
    return out


def guarded(parents, node):
    """inside a try body whose handler catches ImportError"""
    while node in parents:
        up = parents[node]
        if isinstance(up, ast.Try) and node in up.body:
            for h in up.handlers:
                ns = [x for x in ast.walk(h.type)] if h.type is not None else [None]
                if h.type is None or any(getattr(x, 'id', getattr(x, 'attr', '')) in ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException') for x in ns):
                    return True
        if isinstance(up, ast.If) and 'TYPE_CHECKING' in ast.dump(up.test):
            return True
        node = up
    return False


def imports(m):
    parents = {}
    for x in ast.walk(m.tree):
        for y in ast.iter_child_nodes(x):
            parents[y] = x
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                yield x, a.name, None, guarded(parents, x)
        elif isinstance(x, ast.ImportFrom):
            base = x.module or ''
            if x.level:
                pk = m.name.split('.')
                pk = pk if m.is_pkg else pk[:-1]
                pk = pk[:len(pk) - (x.level - 1)]
                base = '.'.join(pk + ([x.module] if x.module else []))
            for a in x.names:
                yield x, base, a.name, guarded(parents, x)
        elif isinstance(x, ast.Call):
            f = x.func
            nm = getattr(f, 'attr', getattr(f, 'id', ''))
            if nm in ('import_module', '__import__') and x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str):
                yield x, x.args[0].value, None, guarded(parents, x)


def defines(repo, mod, name):
    m = repo.modules.get(mod)
    if m is None:
        return False
    if name == '*' or mod + '.' + name in repo.modules:
        return True
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name:
            return True
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name:
            return True
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                if (a.asname or a.name.split('.')[0]) == name:
                    return True
                if a.name == '*':
                    return True
    return False


def _mk(mod):
    @case('P06', name=mod)
    def p06(c):
        repo = load_repo()
        m = repo.modules.get(mod)
        if m is None:
            return
        c.fns.add(mod)
        dec = declared()
        for node, base, name, ok in imports(m):
            top = base.split('.')[0]
            w = dict(file=m.rel, line=node.lineno, function=mod)
            if top == repo.pkg:
                c.check(base in repo.modules and (name is None or defines(repo, base, name)), 'import of %s resolves inside the package' % '.'.join(x for x in (base, name) if x), w,
                        detail='no such module or name')
                continue
            c.check(ok or top in sys.stdlib_module_names or top in dec or top.lower() in dec, 'import of %s is covered by the declared requirements' % top, w,
                    detail='%s is neither in the standard library nor declared: %s' % (top, sorted(dec)))


for mod in sorted(m for m in load_repo().modules if not m.startswith('spec.')):
    _mk(mod)
