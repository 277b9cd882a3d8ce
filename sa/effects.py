"""Effect analysis of every function of the package (C20).

Flow-insensitive: a call or store inside a function that reaches process-wide
state, a module global, a class attribute or a mutable default argument is
reported, whichever path leads to it. Names are resolved through the import
statements of the module and of the function."""
import ast
from check import Ob, PROVED, VIOLATED, UNDECIDED
import load

# calls which change (or advance) process-wide state
DENY = {
    'numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize', 'numpy.set_printoptions', 'numpy.set_string_function',
    'numpy.set_numeric_ops', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings',
    'os.chdir', 'os.fchdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.environ.update', 'os.environ.setdefault',
    'os.environ.pop', 'os.environ.clear', 'os.environ.popitem', 'os.nice', 'os.setuid', 'os.setgid',
    'sys.setrecursionlimit', 'sys.settrace', 'sys.setprofile', 'sys.setcheckinterval', 'sys.setswitchinterval',
    'sys.setdefaultencoding', 'sys.path.append', 'sys.path.insert', 'sys.path.extend', 'sys.path.remove',
    'sys.modules.update', 'sys.modules.clear', 'sys.modules.pop', 'sys.modules.setdefault',
    'logging.basicConfig', 'logging.disable', 'logging.setLoggerClass', 'logging.addLevelName', 'logging.captureWarnings',
    'logging.shutdown', 'locale.setlocale', 'signal.signal', 'signal.alarm', 'signal.setitimer', 'gc.disable', 'gc.enable',
    'gc.set_threshold', 'gc.set_debug', 'socket.setdefaulttimeout', 'decimal.setcontext', 'atexit.register',
    'resource.setrlimit', 'time.tzset', 'faulthandler.enable', 'threading.settrace', 'threading.stack_size',
}
# modules whose module-level functions all use one shared generator
SHARED = {'random': {'Random', 'SystemRandom'},
          'numpy.random': {'RandomState', 'Generator', 'default_rng', 'SeedSequence', 'PCG64', 'MT19937', 'get_state'}}
# module attributes that are process-wide state when stored into
STATEFUL = {'sys', 'os', 'numpy', 'warnings', 'logging', 'random', 'numpy.random', 'locale', 'signal', 'time', 'math', 'types'}
ROOTLOG = {'addHandler', 'removeHandler', 'setLevel', 'addFilter', 'removeFilter'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem',
            'add', 'discard', 'fill', 'put', 'itemset', 'appendleft', 'popleft'}
# (setter, the calls that put the old value back)
RESTORING = {'numpy.seterr': 'numpy.seterr', 'numpy.set_printoptions': 'numpy.set_printoptions'}


def imports(nodes, mod):
    env = {}
    for n in nodes:
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    env[a.asname] = a.name
                else:
                    env[a.name.split('.')[0]] = a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                env[a.asname or a.name] = n.module + '.' + a.name
    return env


def dotted(node, env):
    """Full dotted name of an expression naming an imported thing."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name) or node.id not in env:
        return None
    return '.'.join([env[node.id]] + parts[::-1])


def mutable(node):
    if isinstance(node, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
        'list', 'dict', 'set', 'bytearray', 'defaultdict', 'OrderedDict', 'deque', 'Counter')


def own(fn):
    """Nodes of a function, not those of functions and classes inside it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            if isinstance(n, ast.Lambda):
                todo.append(n.body)
            continue
        todo.extend(ast.iter_child_nodes(n))


def stores(n):
    """Targets a statement stores into or deletes, flattened."""
    if isinstance(n, ast.Assign):
        ts = list(n.targets)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        ts = [n.target]
    elif isinstance(n, ast.Delete):
        ts = list(n.targets)
    elif isinstance(n, ast.For):
        ts = [n.target]
    else:
        return []
    out = []
    while ts:
        t = ts.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            ts.extend(t.elts)
        elif isinstance(t, ast.Starred):
            ts.append(t.value)
        else:
            out.append(t)
    return out


def main_guard(s):
    """if __name__ == '__main__': the module run as a script."""
    return isinstance(s, ast.If) and any(isinstance(x, ast.Name) and x.id == '__name__' for x in ast.walk(s.test)) \
        and any(getattr(x, 'value', getattr(x, 's', None)) == '__main__' for x in ast.walk(s.test)
                if isinstance(x, (ast.Constant, ast.Str)))


class Scan(object):
    def __init__(self, name):
        self.m = load.load(name)
        self.obs = []
        self.stats = {'functions': 0, 'calls': 0, 'stores': 0}
        tree = self.m.tree
        self.top = imports(ast.walk(ast.Module(body=[s for s in tree.body if not isinstance(
            s, (ast.FunctionDef, ast.ClassDef))], type_ignores=[])), self.m)
        self.classes = set(n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef))
        for n in tree.body:
            if isinstance(n, ast.ImportFrom):
                # classes of the package imported by name
                for a in n.names:
                    if (a.asname or a.name)[:1].isupper() and (n.level or (n.module or '').startswith('pykrylov')):
                        self.classes.add(a.asname or a.name)
        self.globals = {}
        for n in tree.body:
            for t in stores(n):
                if isinstance(t, ast.Name) and hasattr(n, 'value'):
                    self.globals[t.id] = n.value
        self.module_code()
        self.walk(tree, '', {}, None)

    def ob(self, rule, where, ok, msg='', line=0, und=False):
        self.obs.append(Ob(rule, '%s:%s' % (self.m.rel, where), PROVED if ok else UNDECIDED if und else VIOLATED, msg,
                           '%s:%d' % (self.m.rel, line), 'effects'))

    def walk(self, node, prefix, env, cls):
        for n in ast.iter_child_nodes(node):
            if main_guard(n):
                continue
            if isinstance(n, ast.FunctionDef):
                e = self.function(n, prefix + n.name, env, cls)
                self.walk(n, prefix + n.name + '.', e, cls)
            elif isinstance(n, ast.ClassDef):
                self.walk(n, prefix + n.name + '.', env, n)
            else:
                self.walk(n, prefix, env, cls)

    def module_code(self):
        """Statements executed at import."""
        class F(object):
            body = [s for s in self.m.tree.body if not main_guard(s)]
            args = None
        self.calls(F, '<module>', self.top)

    def restored(self, fn, env, name, call):
        """name is called again in a finally clause of the function."""
        for n in own(fn):
            if isinstance(n, ast.Try) and n.finalbody:
                for s in n.finalbody:
                    for c in ast.walk(s):
                        if isinstance(c, ast.Call) and dotted(c.func, env) == name:
                            return True
        return False

    def calls(self, fn, where, env):
        bad = 0
        for n in own(fn):
            if not isinstance(n, ast.Call):
                continue
            self.stats['calls'] += 1
            d = dotted(n.func, env)
            if d is None:
                # logging.getLogger().setLevel(...): the root logger
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ROOTLOG and isinstance(f.value, ast.Call) and \
                        dotted(f.value.func, env) == 'logging.getLogger' and not f.value.args:
                    bad += 1
                    self.ob('process-wide-call', where, False, 'configures the root logger', n.lineno)
                continue
            mod, _, last = d.rpartition('.')
            shared = mod in SHARED and last not in SHARED[mod]
            if d in DENY or shared:
                if d in RESTORING and self.restored(fn, env, d, n):
                    continue
                bad += 1
                self.ob('process-wide-call', where, False,
                        'calls %s, which %s' % (d, 'uses the shared random generator' if shared else
                                                'changes process-wide state'), n.lineno)
        if not bad:
            self.ob('process-wide-call', where, True)

    def function(self, fn, where, env, cls):
        env = dict(self.top, **env)
        env.update(imports(own(fn), self.m))
        names = set()
        a = fn.args
        params = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs]
        for x in (a.vararg, a.kwarg):
            if x:
                params.append(x.arg)
        declared = set()
        local = set(params)
        for n in own(fn):
            if isinstance(n, ast.Global):
                declared |= set(n.names)
            for t in stores(n):
                if isinstance(t, ast.Name):
                    local.add(t.id)
        local -= declared
        for p in local:
            env.pop(p, None) if p in params else None
        self.stats['functions'] += 1
        self.calls(fn, where, env)
        # stores
        bad = 0

        def is_class(node):
            """The expression is a class object of the package."""
            if isinstance(node, ast.Name):
                return node.id in self.classes and node.id not in local or \
                    node.id == 'cls' and any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in fn.decorator_list)
            if isinstance(node, ast.Attribute) and node.attr == '__class__':
                return True
            return isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'type' and \
                len(node.args) == 1

        def shared_state(node):
            """What process-wide thing an expression denotes, or None."""
            if is_class(node):
                return 'a class attribute'
            if isinstance(node, ast.Name):
                if node.id in local:
                    return None
                if node.id in declared or node.id in self.globals and (mutable(self.globals[node.id])):
                    return 'module global %s' % node.id
                d = env.get(node.id)
                if d in STATEFUL or d == 'os.environ':
                    return 'state of module %s' % d
                return None
            d = dotted(node, env)
            if d is not None and (d in STATEFUL or d == 'os.environ' or d.split('.')[0] in STATEFUL):
                return 'state of module %s' % d
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'globals':
                return 'module globals'
            if isinstance(node, (ast.Attribute, ast.Subscript)):
                return shared_state(node.value)
            return None
        defaults = {}
        pos = [x.arg for x in a.args]
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if mutable(d):
                defaults[p] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None and mutable(d):
                defaults[p.arg] = d
        rebound = set(t.id for n in own(fn) for t in stores(n) if isinstance(t, ast.Name)
                      and not isinstance(n, ast.AugAssign))
        classlevel = {}
        if cls is not None:
            inst = set()
            for g in ast.walk(cls):
                for t in stores(g):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        inst.add(t.attr)
            for s in cls.body:
                for t in stores(s):
                    if isinstance(t, ast.Name) and isinstance(s, ast.Assign) and mutable(s.value) and t.id not in inst:
                        classlevel[t.id] = s.value

        def held(node):
            """A mutable default argument or a class-level container."""
            while isinstance(node, ast.Subscript):
                node = node.value
            if isinstance(node, ast.Name) and node.id in defaults and node.id not in rebound:
                return 'mutable default of argument %s' % node.id
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'self' \
                    and node.attr in classlevel:
                return 'class-level container %s' % node.attr
            return None
        for n in own(fn):
            for t in stores(n):
                self.stats['stores'] += 1
                what = None
                if isinstance(t, ast.Name):
                    if t.id in declared:
                        what = 'module global %s' % t.id
                    elif isinstance(n, ast.AugAssign):
                        what = held(t)
                elif isinstance(t, (ast.Attribute, ast.Subscript)):
                    what = shared_state(t.value) or (held(t.value) if isinstance(t, ast.Subscript) else None)
                    if what is None and isinstance(n, ast.AugAssign):
                        what = held(t)
                if what:
                    bad += 1
                    self.ob('shared-state-store', where, False, 'stores into %s' % what, n.lineno)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                what = shared_state(n.func.value) or held(n.func.value)
                if what and dotted(n.func, env) is None:
                    bad += 1
                    self.ob('shared-state-store', where, False, 'changes %s (%s)' % (what, n.func.attr), n.lineno)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                if shared_state(n.args[0]):
                    bad += 1
                    self.ob('shared-state-store', where, False, 'sets an attribute of %s' % shared_state(n.args[0]), n.lineno)
            # a mutable default kept beyond the call: stored into an attribute
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in defaults and \
                    n.value.id not in rebound and any(isinstance(t, ast.Attribute) for t in n.targets):
                self.ob('shared-state-store', where, False, 'the object keeps the mutable default of argument %s'
                        % n.value.id, n.lineno, und=True)
        if not bad:
            self.ob('shared-state-store', where, True)
        return env


def scan():
    obs = []
    stats = {}
    for n in load.all_modules():
        s = Scan(n)
        obs += s.obs
        for k, v in s.stats.items():
            stats[k] = stats.get(k, 0) + v
    if stats.get('functions', 0) < 100:
        raise load.AnalysisBroken('only %s functions found' % stats.get('functions', 0))
    return obs, stats


if __name__ == '__main__':
    o, st = scan()
    print(st, len(o))
    for x in o:
        if x.status != PROVED:
            print(x.row())
