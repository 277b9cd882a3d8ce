"""Which names every subpackage exports (C22), from the import and __all__ statements."""
import ast
from check import Ob, PROVED, VIOLATED, UNDECIDED
import load

# the documented public names (doc/source and README)
PUBLIC = {
    'pykrylov.generic': ['KrylovMethod'],
    'pykrylov.cg': ['CG'],
    'pykrylov.cgs': ['CGS'],
    'pykrylov.bicgstab': ['BiCGSTAB'],
    'pykrylov.tfqmr': ['TFQMR'],
    'pykrylov.minres': ['Minres'],
    'pykrylov.symmlq': ['Symmlq'],
    'pykrylov.lls': ['LSQRFramework', 'LSMRFramework', 'CRAIGFramework', 'CRAIGMRFramework'],
    'pykrylov.linop': ['BaseLinearOperator', 'LinearOperator', 'IdentityOperator', 'DiagonalOperator', 'ZeroOperator',
                       'ReducedLinearOperator', 'SymmetricallyReducedLinearOperator', 'PysparseLinearOperator',
                       'linop_from_ndarray', 'CoordLinearOperator', 'BlockLinearOperator', 'BlockDiagonalLinearOperator',
                       'BlockPreconditioner', 'BlockDiagonalPreconditioner',
                       'InverseLBFGSOperator', 'LBFGSOperator', 'CompactLBFGSOperator', 'StructuredLBFGSOperator',
                       'ShapeError'],
    'pykrylov.gallery': ['Poisson1dMatvec', 'Poisson2dMatvec'],
    'pykrylov.tools': ['check_symmetric', 'check_positive_definite', 'roots_quadratic', 'machine_epsilon'],
    'pykrylov': ['__version__'],
}
SOLVE = ['CG', 'CGS', 'BiCGSTAB', 'TFQMR', 'Minres', 'Symmlq', 'LSQRFramework', 'LSMRFramework', 'CRAIGFramework',
         'CRAIGMRFramework']


class Unknown(Exception):
    pass


def resolve(mod, level, name):
    """Module an import statement of mod names: implicit relative first (Python 2)."""
    pkg = mod.name if mod.is_pkg else mod.name.rpartition('.')[0]
    if level:
        base = pkg.split('.')
        base = base[:len(base) - (level - 1)]
        full = '.'.join(base + ([name] if name else []))
        return full if load.find(full) else None
    rel = pkg + '.' + name
    if load.find(rel):
        return rel
    if name.split('.')[0] == load.PKG:
        return name if load.find(name) else None
    return None


def bound(stmts, mod, seen):
    """(names surely bound, names perhaps bound, complete?)"""
    sure, maybe, whole = {}, {}, True

    def add(k, v=None):
        sure[k] = v

    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            add(s.name, s)
        elif isinstance(s, ast.Import):
            for a in s.names:
                add(a.asname or a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            m = resolve(mod, s.level, s.module or '')
            for a in s.names:
                if a.name == '*':
                    if m is None:
                        whole = False
                        continue
                    ns, ms, w = exported(m, seen)
                    sure.update(ns)
                    maybe.update(ms)
                    whole = whole and w
                elif m is None and s.module and s.module.split('.')[0] == load.PKG:
                    raise load.AnalysisBroken('%s imports from %s, which does not exist' % (mod.rel, s.module))
                else:
                    v = None
                    if m is not None:
                        ns, ms, w = namespace(m, seen)
                        if a.name not in ns and a.name not in ms and w and not load.find(m + '.' + a.name):
                            missing.append((mod.rel, m, a.name, s.lineno))
                            continue
                        v = ns.get(a.name)
                    add(a.asname or a.name, v)
        elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    v = s.value if isinstance(s, ast.Assign) else None
                    if isinstance(v, ast.Name) and v.id in sure:
                        v = sure[v.id]
                    add(n.id, v)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    sure.pop(t.id, None)
                    maybe.pop(t.id, None)
        elif isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
            parts = [getattr(s, f, []) for f in ('body', 'orelse', 'finalbody')]
            for h in getattr(s, 'handlers', []):
                parts.append(h.body)
            branch = []
            for p in parts:
                if not p:
                    continue
                ns, ms, w = bound(p, mod, seen)
                whole = whole and w
                branch.append(ns)
                maybe.update(ms)
            for ns in branch:
                for k, v in ns.items():
                    if isinstance(s, ast.With) or len(branch) > 1 and not isinstance(s, ast.Try) and \
                            all(k in b for b in branch):
                        sure[k] = v
                    else:
                        maybe[k] = v
    return sure, maybe, whole


missing = []
_ns = {}


def namespace(name, seen=()):
    if name in _ns:
        return _ns[name]
    if name in seen:
        return {}, {}, False
    m = load.load(name)
    r = bound(m.tree.body, m, tuple(seen) + (name,))
    for b in ('__name__', '__doc__', '__file__'):
        r[0].setdefault(b, None)
    _ns[name] = r
    return r


def all_list(name):
    """('list', names) | ('public',) | None when there is no __all__ | ('unknown',)"""
    m = load.load(name)
    val = None
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
            val = value(s.value)
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == '__all__':
            more = value(s.value)
            if val is None or more is None:
                raise load.AnalysisBroken('%s extends an __all__ it does not define' % m.rel)
            if val[0] == 'unknown' or more[0] == 'unknown':
                val = ('unknown', [])
            else:
                val = (val[0] if 'public' not in (val[0], more[0]) else 'public', val[1] + more[1])
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == '__all__':
            a = s.value.args[0] if len(s.value.args) == 1 else None
            more = value(a) if s.value.func.attr == 'extend' else \
                ('list', [text(a)]) if s.value.func.attr == 'append' and text(a) else ('unknown', [])
            val = (val[0], val[1] + more[1]) if val and more[0] == 'list' else ('unknown', [])
    return val


def text(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    return getattr(n, 's', None) if isinstance(n, ast.Str) else None


def value(n):
    if isinstance(n, (ast.List, ast.Tuple)):
        ts = [text(e) for e in n.elts]
        return ('unknown', []) if None in ts else ('list', ts)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = value(n.left), value(n.right)
        if 'unknown' in (a[0], b[0]):
            return ('unknown', [])
        return ('public' if 'public' in (a[0], b[0]) else 'list', a[1] + b[1])
    # filter(lambda s: not s.startswith('_'), dir()) and the like
    names = [x for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
             and x.func.id in ('dir', 'globals', 'vars', 'locals')]
    if names:
        tests = [x for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                 and x.func.attr == 'startswith' and x.args and text(x.args[0]) in ('_', '__')]
        neg = [x for x in ast.walk(n) if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)]
        comps = [x for x in ast.walk(n) if isinstance(x, (ast.Compare, ast.BoolOp))]
        if len(tests) == 1 and len(neg) == 1 and not comps:
            return ('public', [])
    return ('unknown', [])


def exported(name, seen=()):
    """Names from a star import of the module."""
    sure, maybe, whole = namespace(name, seen)
    al = all_list(name)
    if al is None or al[0] == 'public':
        extra = al[1] if al else []
        ok = lambda k: not k.startswith('_') or k in extra
    elif al[0] == 'list':
        ok = lambda k: k in al[1]
    else:
        return {}, dict(sure, **maybe), False
    return (dict((k, v) for k, v in sure.items() if ok(k)), dict((k, v) for k, v in maybe.items() if ok(k)), whole)


def methods(cls):
    return [s.name for s in cls.body if isinstance(s, ast.FunctionDef)]


def scan():
    obs = []
    del missing[:]
    names = load.all_modules()
    n = 0

    def ob(rule, key, ok, msg, sure=True):
        obs.append(Ob(rule, key, PROVED if ok else VIOLATED if sure else UNDECIDED, msg, key.split(':')[0], 'exports'))
    for name in names:
        if name.endswith('.cholesky'):
            continue        # needs a package that is not there
        m = load.load(name)
        sure, maybe, whole = namespace(name)
        al = all_list(name)
        if al is not None:
            if al[0] == 'unknown':
                ob('all-names-exist', m.rel, False, 'the value of __all__ is not understood', False)
            for k in al[1]:
                n += 1
                ob('all-names-exist', '%s:%s' % (m.rel, k), k in sure, '__all__ lists %s, which %s' % (
                    k, 'may not exist' if k in maybe else 'does not exist'), whole and k not in maybe)
            if not al[1]:
                ob('all-names-exist', m.rel, al[0] == 'public', '', False)
    for pkg, want in sorted(PUBLIC.items()):
        m = load.load(pkg)
        sure, maybe, whole = exported(pkg)
        for k in want:
            n += 1
            ob('documented-name-exported', '%s:%s' % (m.rel, k), k in sure,
               '%s does not export the documented %s' % (pkg, k), whole and k not in maybe)
            if k in sure and k in SOLVE and isinstance(sure[k], ast.ClassDef):
                # solve() is overridden by the class or a base below KrylovMethod
                ob('solve-overridden', '%s:%s' % (m.rel, k), overrides(sure[k], 'solve', pkg),
                   '%s does not override solve()' % k)
    for rel, mod, nm, line in missing:
        ob('imported-name-exists', '%s:%s' % (rel, nm), False, 'imports %s from %s, which does not define it (line %d)' %
           (nm, mod, line))
    ob('imported-name-exists', 'all modules', True, '')
    return obs, {'modules': len(names), 'names': n}


def overrides(cls, meth, pkg, depth=0):
    if meth in methods(cls) or any(isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == meth for t in s.targets)
                                   for s in cls.body):
        return True
    if depth > 5:
        return False
    for b in cls.bases:
        nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        if nm is None or nm == 'KrylovMethod':
            continue
        for mod in load.all_modules():
            for s in load.load(mod).tree.body:
                if isinstance(s, ast.ClassDef) and s.name == nm and s is not cls and overrides(s, meth, pkg, depth + 1):
                    return True
    return False


if __name__ == '__main__':
    o, i = scan()
    print(i, len(o))
    for x in o:
        if x.status != PROVED:
            print(x.row())
