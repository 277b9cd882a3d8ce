"""Code objects: scopes, liveness and use classification of functions."""
import ast


class Code(object):
    def __init__(self, node, name, module, cls, qual):
        self.node = node
        self.name = name
        self.module = module
        self.cls = cls            # class name for mangling, or None
        self.qual = qual
        self.is_lambda = isinstance(node, ast.Lambda)
        a = node.args
        self.params = [x.arg for x in a.args]
        self.ndef = len(a.defaults)
        self.defaults = a.defaults
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwonly_defaults = a.kw_defaults
        body = [node.body] if self.is_lambda else node.body
        self.body = body
        self.globals = set()
        self.locals = set(self.params) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.is_gen = False
        self.captured = set()
        self.arith = set()
        for s in body:
            self._scan(s)
        self.locals -= self.globals
        self.live = None
        if not self.is_lambda:
            Live(self).run()

    def __repr__(self):
        return '<%s>' % self.qual

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._scan(d)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    self._scan(d)
            self._names(n)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults:
                self._scan(d)
            self._names(n)
            return
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*':
                    self.locals.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, ast.BinOp) and not (isinstance(n.op, ast.Mod)):
            for side in (n.left, n.right):
                if isinstance(side, ast.Name):
                    self.arith.add(side.id)
                elif isinstance(side, ast.UnaryOp) and isinstance(side.operand, ast.Name):
                    self.arith.add(side.operand.id)
        if isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                self.arith.add(n.target.id)
            if isinstance(n.value, ast.Name):
                self.arith.add(n.value.id)
        if isinstance(n, ast.Subscript):
            # indices are not arithmetic uses
            self._scan(n.value)
            for c in ast.walk(n.slice):
                if isinstance(c, (ast.Lambda, ast.Yield)):
                    self._scan(c)
            return
        for c in ast.iter_child_nodes(n):
            self._scan(c)

    def _names(self, n):
        for c in ast.walk(n):
            if isinstance(c, ast.Name):
                self.captured.add(c.id)


def reads(n, out):
    """Names read in an expression or simple statement (not in nested defs)."""
    for c in ast.walk(n):
        if isinstance(c, ast.Name):
            if isinstance(c.ctx, ast.Load):
                out.add(c.id)
                if c.id in ('locals', 'vars', 'eval', 'exec', 'dir'):
                    out.add('*')
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
        out.add(n.target.id)
    return out


def writes(n):
    """Names surely written by a simple statement."""
    out = set()
    if isinstance(n, ast.Assign):
        for t in n.targets:
            _tgt(t, out)
    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        out.add(n.name)
    return out


def _tgt(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            _tgt(x, out)


class Live(object):
    """Structured backward liveness; code.live maps id(stmt) -> names live after it."""

    def __init__(self, code):
        self.code = code

    def run(self):
        self.after = {}
        self.block(self.code.body, frozenset(), None, frozenset())
        self.code.live = self.after

    def block(self, stmts, out, loop, exc):
        cur = out
        for s in reversed(stmts):
            self.after[id(s)] = cur if id(s) not in self.after else self.after[id(s)] | cur
            cur = self.stmt(s, cur, loop, exc)
        return cur

    def stmt(self, s, out, loop, exc):
        t = type(s)
        if t is ast.If:
            a = self.block(s.body, out, loop, exc)
            b = self.block(s.orelse, out, loop, exc)
            return frozenset(reads(s.test, set(a | b)))
        if t is ast.While:
            head = frozenset(reads(s.test, set()))
            els = self.block(s.orelse, out, loop, exc)
            inv = head | els
            for _ in range(20):
                b = self.block(s.body, inv, (inv, out), exc)
                new = inv | b
                if new == inv:
                    break
                inv = new
            self.after['head', id(s)] = inv
            return inv
        if t is ast.For:
            tg = set()
            _tgt(s.target, tg)
            els = self.block(s.orelse, out, loop, exc)
            inv = els
            for _ in range(20):
                b = self.block(s.body, inv, (inv, out), exc)
                new = inv | (b - tg)
                if new == inv:
                    break
                inv = new
            self.after['head', id(s)] = inv
            r = set(inv)
            reads(s.iter, r)
            return frozenset(r)
        if t is ast.Try:
            fin = self.block(s.finalbody, out | exc, loop, exc) if s.finalbody else out
            hs = frozenset()
            for h in s.handlers:
                r = set(self.block(h.body, fin, loop, exc))
                if h.type is not None:
                    reads(h.type, r)
                hs |= frozenset(r)
            if s.finalbody:
                hs |= fin
            els = self.block(s.orelse, fin, loop, exc | hs)
            b = self.block(s.body, els | hs, loop, exc | hs)
            # anything live in a handler is live throughout the body
            for x in s.body:
                for y in ast.walk(x):
                    if id(y) in self.after:
                        self.after[id(y)] = self.after[id(y)] | hs
            return b | hs
        if t is ast.With:
            b = self.block(s.body, out, loop, exc)
            r = set(b)
            for i in s.items:
                reads(i.context_expr, r)
            return frozenset(r)
        if t is ast.Return:
            return frozenset(reads(s, set())) | exc
        if t is ast.Raise:
            return frozenset(reads(s, set())) | exc
        if t is ast.Break:
            return loop[1] if loop else out
        if t is ast.Continue:
            return loop[0] if loop else out
        if t in (ast.FunctionDef, ast.ClassDef):
            r = set(out) - writes(s)
            for d in s.decorator_list:
                reads(d, r)
            return frozenset(r)
        r = set(out) - writes(s)
        reads(s, r)
        return frozenset(r) | (exc if exc else frozenset())
