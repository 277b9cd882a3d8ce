"""Reads the Python 2 sources of /repo into syntax trees.

Only lexical Python 2 constructs are rewritten (print statement, except/raise
syntax, <>, backquotes, octal literals, tuple parameters); the semantics of
Python 2 (classic division, list-returning map, implicit relative imports) are
the business of the interpreter.
"""
import ast
import hashlib
import os
import sys
import time

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'pykrylov'

_FIX = ['except', 'exec', 'ne', 'numliterals', 'print', 'raise', 'repr', 'tuple_params', 'paren']

_tool = None


def tool():
    global _tool
    if _tool is None:
        from lib2to3.refactor import RefactoringTool
        _tool = RefactoringTool(['lib2to3.fixes.fix_' + f for f in _FIX])
    return _tool


class AnalysisBroken(Exception):
    """The sources cannot be analysed (a vanished anchor, a syntax error)."""


class Module(object):
    def __init__(self, name, path, tree, is_pkg, src):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree = tree
        self.is_pkg = is_pkg
        self.src = src
        self.digest = hashlib.sha256(src.encode()).hexdigest()
        self.true_division = any(
            isinstance(n, ast.ImportFrom) and n.module == '__future__' and
            any(a.name == 'division' for a in n.names) for n in tree.body)


_cache = {}
consulted = {}


def read(path):
    import tokenize
    with open(path, 'rb') as f:
        enc, _ = tokenize.detect_encoding(f.readline)
    with open(path, encoding=enc) as f:
        return f.read()


def parse_file(path):
    src = read(path)
    if not src.strip():
        return ast.parse(''), src
    if not src.endswith('\n'):
        src += '\n'
    try:
        text = str(tool().refactor_string(src, path))
        tree = ast.parse(text, path)
    except Exception as e:
        raise AnalysisBroken('%s cannot be parsed: %s' % (path, e))
    return tree, src


def find(name):
    """Dotted module name -> (path, is_pkg) or None."""
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isfile(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.isfile(p + '.py'):
        return p + '.py', False
    return None


def load(name):
    m = _cache.get(name)
    if m is None:
        f = find(name)
        if f is None:
            raise AnalysisBroken('module %s not found in %s' % (name, REPO))
        tree, src = parse_file(f[0])
        m = Module(name, f[0], tree, f[1], src)
        _cache[name] = m
        consulted[m.rel] = m.digest
    return m


def all_modules():
    """Names of every module of the package (without tests and setup files)."""
    out = []
    root = os.path.join(REPO, PKG)
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', 'build', '__pycache__'))
        for f in sorted(files):
            if not f.endswith('.py') or f == 'setup.py':
                continue
            rel = os.path.relpath(os.path.join(d, f), REPO)[:-3]
            parts = rel.split(os.sep)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            out.append('.'.join(parts))
    return out


if __name__ == '__main__':
    t = time.time()
    for n in all_modules():
        m = load(n)
        print(n, len(m.src.splitlines()))
    print('%.1f s' % (time.time() - t))
