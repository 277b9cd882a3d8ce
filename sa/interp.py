"""Abstract interpreter for the Python 2 sources of the library.

Nothing of the library is executed: statements transform abstract states
(values.St), joins are anti-unification (join.py), loops run to a fixpoint.
"""
import ast
import sys

import load
import dtypes as D
import terms as T
import signs as S
import join as J
import values as V
from terms import Poly, Form, ZERO, ONE, FZERO, pconst, patom, padd, psub, pmul, pneg, atom, single_atom
from values import *
from code import Code

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The analysis cannot follow the program here."""


class Loc(object):
    __slots__ = ('rel', 'line', 'func', 'text')

    def __init__(self, rel, line, func, text):
        self.rel, self.line, self.func, self.text = rel, line, func, text

    def __repr__(self):
        return '%s:%s in %s: %s' % (self.rel, self.line, self.func, self.text)

    def tup(self):
        return (self.rel, self.line, self.func, self.text)


class Event(object):
    def __init__(self, kind, msg, loc, imp, bf, data, chain=()):
        self.kind, self.msg, self.loc, self.imp, self.bf, self.data = kind, msg, loc, imp, bf, data
        self.chain = chain

    def __repr__(self):
        return '%s: %s at %r%s' % (self.kind, self.msg, self.loc, ' [imprecise]' if self.imp else '')


class ClassInfo(object):
    def __init__(self, id, name, bases, attrs, module):
        self.id, self.name, self.bases, self.attrs, self.module = id, name, bases, attrs, module
        self.mro = None


BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'StandardError': 'Exception',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'AttributeError': 'Exception',
    'TypeError': 'Exception', 'ValueError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RuntimeError': 'Exception', 'ImportError': 'Exception', 'AssertionError': 'Exception',
    'StopIteration': 'Exception', 'IOError': 'Exception', 'OSError': 'Exception', 'EnvironmentError': 'Exception',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning',
    'ModuleNotFoundError': 'ImportError', 'UnicodeDecodeError': 'ValueError',
}

EXTMODS = {'numpy', 'math', 'logging', 'itertools', 'sys', 'os', 'time', 'warnings', 'functools', 'operator',
           'random', 'copy', 'string', 'types', 're', 'collections', 'contextlib', 'cmath', 'numbers', 'locale',
           'signal', 'gc', 'threading', 'decimal', 'tempfile', 'io', 'builtins', '__builtin__', 'scipy'}
ABSENT = {'pysparse', 'nlpy', 'sksparse', 'scikits', 'pkg_resources', 'pykrylov_ext'}

TOPLEVEL = object()


class Interp(object):
    def __init__(self):
        self.codes = {}
        self.classes = {}
        self.modules = {}        # name -> globals cell address
        self.sinks = [[]]
        self.events = []
        self.ops = {}            # abstract operator name -> dict
        self.hooks = {}
        self.depth = 0
        self.symloop = 0
        self.in_loop = 0
        self.loop_start = None   # callbacks of the outermost fixpoint loop
        self.loop_back = None
        self.after_call = None
        self.guarded = {}
        self.assume_real = False
        self.mat_ok = True
        self.compare_hooks = []
        self.split_compare = None
        self.peel_only = False
        self.fork_sizes = False   # max/min of dimensions splits the path
        self.peel = 0          # passes of outermost while loops followed without joining
        self.apply_hooks = []
        self.domain_hooks = []
        self.loopsite = None
        self.loading = False
        self.steps = 0
        self.maxsteps = 4000000
        self.visited = set()     # ids of functions analysed
        self.sites = set()
        self.apart = 16
        self.attrlog = {}        # (address, attribute) -> where first assigned
        self.mutlog = {}         # address of a container or array -> where first modified
        self.unmodelled = {}
        self.nloops = 0
        import models
        self.M = models
        models.setup(self)
        V.BASE.clear()

    # ------------------------------------------------------------ utilities
    def frame(self, st):
        return st.cell(st.stack[-1])

    def loc(self, st, node):
        if not st.stack:
            return Loc('?', 0, '?', '')
        fr = self.frame(st)
        code = fr.code
        mod = code.module
        try:
            text = ast.unparse(node) if node is not None else ''
        except Exception:
            text = ''
        text = text.split('\n')[0][:100]
        return Loc(mod.rel, getattr(node, 'lineno', 0), code.qual, text)

    def chain(self, st):
        return tuple(st.cell(a).code.qual for a in st.stack if st.cell(a).code is not None)

    def event(self, kind, msg, st, node, data=None):
        self.events.append(Event(kind, msg, self.loc(st, node), st.imp, dict(st.bf), data, self.chain(st)))

    def top(self, st, why):
        self.unmodelled[why] = self.unmodelled.get(why, 0) + 1
        return Top(why)

    def throw(self, st, name, msg, node, internal=True, val=None):
        """Records an exception leaving this state; returns []."""
        l = self.loc(st, node)
        self.sinks[-1].append((st, ExcV(name, ('internal' if internal else 'raise', msg, l.tup()))))
        return []

    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('analysis budget exhausted')

    def code(self, node, module, cls, qual):
        c = self.codes.get(id(node))
        if c is None:
            name = getattr(node, 'name', '<lambda>')
            c = Code(node, name, module, cls, qual)
            self.codes[id(node)] = c
        return c

    def mangle(self, st, name):
        if name.startswith('__') and not name.endswith('__'):
            c = self.frame(st).code
            if c is not None and c.cls:
                return '_' + c.cls.lstrip('_') + name
        return name

    def on_compare(self, st, rel, d, node):
        for h in self.compare_hooks:
            h(self, st, rel, d, node)

    def on_apply(self, st, op, form, node):
        for h in self.apply_hooks:
            h(self, st, op, form, node)

    def on_domain(self, st, fn, p, sign, node):
        for h in self.domain_hooks:
            h(self, st, fn, p, sign, node)

    # ------------------------------------------------------------ variables
    def lookup(self, st, name, node):
        fr = self.frame(st)
        code = fr.code
        if name in fr.vars and not (code is not None and name in code.globals):
            return [(st, fr.vars[name])]
        up = fr.up
        if code is None or name not in code.globals:
            if code is not None and name in code.locals and fr.up is not TOPLEVEL and code.name != '<module>' \
                    and code.name != '<class>':
                return self.throw(st, 'UnboundLocalError', 'local variable %r is used before assignment' % name, node)
            while up is not None:
                u = st.cell(up)
                if name in u.vars:
                    return [(st, u.vars[name])]
                if u.code is not None and name in u.code.locals and u.code.name not in ('<module>', '<class>'):
                    return self.throw(st, 'NameError', 'free variable %r is used before assignment' % name, node)
                up = u.up
        g = st.cell(fr.mod)
        if name in g.vars:
            return [(st, g.vars[name])]
        b = self.M.builtin(name)
        if b is not None:
            return [(st, b)]
        return self.throw(st, 'NameError', 'name %r is not defined' % name, node)

    def setvar(self, st, name, v, node=None):
        a = st.stack[-1]
        fr = st.cell(a)
        code = fr.code
        if code is not None and name in code.globals:
            g = st.cell(fr.mod)
            if not self.loading:
                self.event('globalwrite', 'module global %r is assigned' % name, st, node)
            vs = dict(g.vars)
            vs[name] = v
            st.put(fr.mod, g.replace(vars=vs))
            return
        if type(v) is Num and v.lit and code is not None and name in code.arith:
            v = Num(v.p, v.dt, False)
        vs = dict(fr.vars)
        vs[name] = v
        st.put(a, fr.replace(vars=vs))

    def delvar(self, st, name):
        a = st.stack[-1]
        fr = st.cell(a)
        vs = dict(fr.vars)
        vs.pop(name, None)
        st.put(a, fr.replace(vars=vs))

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        """-> list of (state, bool)"""
        t = type(v)
        if t is Const:
            if v.v is Ellipsis:
                return [(st, True)]
            return [(st, bool(v.v))]
        if t is BSym:
            k = st.bf.get(v.key)
            if k is not None:
                return [(st, k != v.neg)]
            a, b = st, st.fork()
            a.bf[v.key] = True
            b.bf[v.key] = False
            return [(a, not v.neg), (b, v.neg)]
        if t is BCmp:
            return self.fork_cmp(st, v.rel, v.d)
        if t is Num:
            return self.fork_cmp(st, frozenset('-+n'), v.p)
        if t is Ref:
            c = st.cell(v.a)
            tc = type(c)
            if tc in (ListC, SetC):
                return [(st, len(c.items) > 0)]
            if tc is DictC:
                if c.items:
                    return [(st, True)]
                if c.open:
                    return self.truth(st, BSym(('open', v.a), False))
                return [(st, False)]
            if tc is ListS:
                return self.fork_cmp(st, frozenset('+'), c.count)
            if tc is InstC:
                for nm in ('__nonzero__', '__bool__', '__len__'):
                    m = self.class_lookup(c.cls, nm)
                    if m is not None:
                        out = []
                        for s, r in self.call(st, Bound(m, v), [], {}, None):
                            out.extend(self.truth(s, r))
                        return out
                return [(st, True)]
            if tc in (ArrC, ViewC):
                dims = c.dims
                if all(d.const() == 1 for d in dims):
                    return self.truth(st, BSym(('arr', self.M.aform(st, v)), False))
                if any(d.const() is not None and d.const() > 1 for d in dims) or \
                        any(d.const() is None for d in dims):
                    return self.throw(st, 'ValueError', 'the truth value of an array is ambiguous', None)
                return [(st, False)]
            return [(st, True)]
        if t in (FnV, Bound, Cls, Mod, Ext, ExtM, OpV, DT, SliceV, MethV, ExcV):
            return [(st, True)]
        if t is TupV:
            return [(st, len(v.items) > 0)]
        if t is RangeV:
            return self.fork_cmp(st, frozenset('+'), psub(v.b.p, v.a.p))
        if t is StrV:
            return self.both(st, ('str', id(v)))
        # unknown
        a, b = st, st.fork()
        a.blame('branch on an unknown value (%s)' % (v,))
        b.blame('branch on an unknown value (%s)' % (v,))
        return [(a, True), (b, False)]

    def both(self, st, key):
        b = st.fork()
        return [(st, True), (b, False)]

    def fork_cmp(self, st, rel, d):
        s = S.sign(st, d)
        yes, no = s & rel, s - rel
        if not no:
            return [(st, True)]
        if not yes:
            return [(st, False)]
        b = st.fork()
        out = []
        if S.assume(st, d, rel):
            out.append((st, True))
        if S.assume(b, d, frozenset('-0+n') - rel):
            out.append((b, False))
        return out

    def bval(self, st, rel, d):
        """Truth value of sign(d) in rel, folded when decided."""
        s = S.sign(st, d)
        if not (s - rel):
            return TRUE
        if not (s & rel):
            return FALSE
        return BCmp(rel, d)

    # ------------------------------------------------------------ classes
    def mro(self, cid):
        ci = self.classes[cid]
        if ci.mro is None:
            seqs = []
            out = [cid]
            for b in ci.bases:
                if isinstance(b, Cls):
                    seqs.extend(self.mro(b.id))
            res = []
            for x in reversed(seqs):
                if x not in res:
                    res.append(x)
            ci.mro = out + res[::-1]
        return ci.mro

    def class_lookup(self, cid, name):
        for c in self.mro(cid):
            a = self.classes[c].attrs
            if name in a:
                return a[name]
        return None

    def exc_bases(self, cid):
        """Names of builtin exception classes among the ancestors."""
        out = set()
        for c in self.mro(cid):
            for b in self.classes[c].bases:
                if isinstance(b, Ext):
                    n = b.path
                    while n is not None:
                        out.add(n)
                        n = BUILTIN_EXC.get(n)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.tick()
        f = getattr(self, 'ev_' + type(n).__name__, None)
        if f is None:
            st.blame('unsupported expression ' + type(n).__name__)
            return [(st, self.top(st, 'expression ' + type(n).__name__))]
        return f(n, st)

    def ev_seq(self, nodes, st):
        """Evaluates nodes left to right -> [(state, [values])]"""
        cur = [st]
        k = 0
        for n in nodes:
            nxt = []
            for s in cur:
                for s2, v in self.ev(n, s):
                    s2.temps.append(v)
                    nxt.append(s2)
            cur = nxt
            k += 1
        out = []
        for s in cur:
            if k:
                vals = s.temps[-k:]
                del s.temps[-k:]
            else:
                vals = []
            out.append((s, vals))
        return out

    def ev_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or v is Ellipsis:
            return [(st, Const(v))]
        if isinstance(v, bytes):
            return [(st, Const(v.decode('latin1')))]
        return [(st, num(v))]

    def ev_Name(self, n, st):
        return self.lookup(st, n.id, n)

    def ev_Tuple(self, n, st):
        return self.seq_lit(n, st, lambda s, vs: TupV(tuple(vs)))

    def ev_List(self, n, st):
        return self.seq_lit(n, st, lambda s, vs: s.alloc(ListC(tuple(vs))))

    def ev_Set(self, n, st):
        return self.seq_lit(n, st, lambda s, vs: s.alloc(SetC(tuple(vs))))

    def seq_lit(self, n, st, mk):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            out = []
            for s, vs in self.ev_seq([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st):
                res = []
                ok = True
                for e, v in zip(n.elts, vs):
                    if isinstance(e, ast.Starred):
                        it = self.M.items_of(self, s, v)
                        if it is None:
                            ok = False
                            break
                        res.extend(it)
                    else:
                        res.append(v)
                out.append((s, mk(s, res) if ok else self.top(s, 'starred')))
            return out
        return [(s, mk(s, vs)) for s, vs in self.ev_seq(n.elts, st)]

    def ev_Dict(self, n, st):
        if any(k is None for k in n.keys):
            st.blame('dict unpacking')
            return [(st, self.top(st, 'dict unpacking'))]
        out = []
        for s, vs in self.ev_seq([x for kv in zip(n.keys, n.values) for x in kv], st):
            d = ()
            for k, v in zip(vs[::2], vs[1::2]):
                d = self.M.dset(d, k, v)
            out.append((s, s.alloc(DictC(d, False))))
        return out

    def ev_Lambda(self, n, st):
        return self.make_fn(n, st)

    def make_fn(self, n, st):
        fr = self.frame(st)
        code = fr.code
        base = code.qual if code is not None and code.name not in ('<module>',) else ''
        nm = getattr(n, 'name', '<lambda>')
        mod = code.module
        cls = code.cls
        qual = (base + '.' if base else '') + nm
        c = self.code(n, mod, cls, qual)
        nodes = list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
        out = []
        for s, vs in self.ev_seq(nodes, st):
            defs = tuple(vs[:len(n.args.defaults)])
            kwdefs = tuple(vs[len(n.args.defaults):])
            up = s.stack[-1]
            upc = s.cell(up)
            if upc.code.name == '<module>':
                up = None
            elif upc.code.name == '<class>':
                up = upc.up
            out.append((s, FnV(c, up if up is not None else None, defs, kwdefs)))
        # a function defined at module level closes over its module only
        return [(s, FnV(v.code, v.up, v.defs, v.kwdefs)) for s, v in out]

    def ev_IfExp(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            for s2, b in self.truth(s, v):
                out.extend(self.ev(n.body if b else n.orelse, s2))
        return self.squash(out)

    def squash(self, res):
        """Joins (state, value) pairs when there are many."""
        if len(res) <= 6:
            return res
        for s, v in res:
            s.temps.append(v)
        out = []
        for s in J.join([s for s, v in res]):
            out.append((s, s.temps.pop()))
        return out

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = [(st, None)]
        done = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s, _ in cur:
                for s2, v in self.ev(e, s):
                    if last:
                        done.append((s2, v))
                        continue
                    if type(v) in (Ref, Num, BCmp, BSym, Top, StrV) or True:
                        s2.temps.append(v)
                        for s3, b in self.truth(s2, v):
                            v3 = s3.temps.pop() if s3.temps else v
                            if b == isand:
                                nxt.append((s3, None))
                            else:
                                if type(v3) in (BCmp, BSym):
                                    v3 = TRUE if b else FALSE
                                done.append((s3, v3))
            cur = nxt
        return done

    def ev_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                t = type(v)
                if t is BCmp:
                    out.append((s, BCmp(frozenset('-0+n') - v.rel, v.d)))
                elif t is BSym:
                    out.append((s, BSym(v.key, not v.neg)))
                else:
                    for s2, b in self.truth(s, v):
                        out.append((s2, FALSE if b else TRUE))
            else:
                out.extend(self.M.unary(self, s, n.op, v, n))
        return out

    def ev_BinOp(self, n, st):
        out = []
        for s, (a, b) in self.ev_seq([n.left, n.right], st):
            out.extend(self.binop(s, n.op, a, b, n))
        return out

    def binop(self, st, op, a, b, node):
        return self.M.binop(self, st, op, a, b, node)

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            out = []
            for s, (a, b) in self.ev_seq([n.left, n.comparators[0]], st):
                out.extend(self.M.compare(self, s, n.ops[0], a, b, n))
            return out
        out = []
        for s, vs in self.ev_seq([n.left] + n.comparators, st):
            cur = [s]
            for i, op in enumerate(n.ops):
                nxt = []
                for s1 in cur:
                    for s2, r in self.M.compare(self, s1, op, vs[i], vs[i + 1], n):
                        for s3, b in self.truth(s2, r):
                            if b:
                                nxt.append(s3)
                            else:
                                out.append((s3, FALSE))
                cur = nxt
            out.extend((s1, TRUE) for s1 in cur)
        return out

    def ev_Attribute(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            out.extend(self.getattr(s, v, n.attr, n))
        return out

    def ev_Subscript(self, n, st):
        out = []
        for s, (v, i) in self.ev_seq([n.value, n.slice], st):
            out.extend(self.M.getitem(self, s, v, i, n))
        return out

    def ev_Slice(self, n, st):
        parts = [n.lower, n.upper, n.step]
        out = []
        for s, vs in self.ev_seq([p for p in parts if p is not None], st):
            it = iter(vs)
            out.append((s, SliceV(*[NONE if p is None else next(it) for p in parts])))
        return out

    def ev_Index(self, n, st):
        return self.ev(n.value, st)

    def ev_ExtSlice(self, n, st):
        return [(s, TupV(tuple(vs))) for s, vs in self.ev_seq(n.dims, st)]

    def ev_Starred(self, n, st):
        return self.ev(n.value, st)

    def ev_JoinedStr(self, n, st):
        out = []
        for s, vs in self.ev_seq([x.value for x in n.values if isinstance(x, ast.FormattedValue)], st):
            out.append((s, StrV()))
        return out

    def ev_Yield(self, n, st):
        out = []
        if n.value is None:
            res = [(st, NONE)]
        else:
            res = self.ev(n.value, st)
        for s, v in res:
            fr = self.frame(s)
            y = fr.vars.get('.yield')
            c = s.cell(y.a)
            s.put(y.a, ListC(c.items + (v,)))
            out.append((s, NONE))
        return out

    # comprehensions --------------------------------------------------------
    def ev_ListComp(self, n, st):
        return self.comp(n, st, lambda s, items: s.alloc(ListC(items)))

    def ev_SetComp(self, n, st):
        return self.comp(n, st, lambda s, items: s.alloc(SetC(items)))

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, st, lambda s, items: s.alloc(ListC(items)))

    def ev_DictComp(self, n, st):
        m = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(m, n)
        k = ast.ListComp(elt=m, generators=n.generators)

        def mk(s, items):
            d = ()
            for kv in items:
                d = self.M.dset(d, kv.items[0], kv.items[1])
            return s.alloc(DictC(d, False))
        return self.comp(k, st, mk)

    def comp(self, n, st, mk):
        acc = st.alloc(ListC(()))
        st.temps.append(acc)
        sts = self.comp_gen(n, st, 0, len(st.temps) - 1)
        out = []
        for s in sts:
            r = s.temps.pop()
            c = s.cell(r.a)
            if type(c) is ListS:
                out.append((s, r))
            else:
                out.append((s, mk(s, c.items)))
        return self.squash(out)

    def comp_gen(self, n, st, k, slot):
        if k == len(n.generators):
            out = []
            for s, v in self.ev(n.elt, st):
                r = s.temps[slot]
                c = s.cell(r.a)
                if type(c) is ListS:
                    s.put(r.a, ListS(padd(c.count, ONE), v))
                else:
                    s.put(r.a, ListC(c.items + (v,)))
                out.append(s)
            return out
        g = n.generators[k]
        out = []
        for s, it in self.ev(g.iter, st):
            items = self.M.items_of(self, s, it)
            if items is None:
                cnt, el = self.M.sym_items(self, s, it)
                for s2 in self.assign(g.target, el, s):
                    sub = [s2]
                    for s3 in self.comp_gen(n, s2, k + 1, slot):
                        r = s3.temps[slot]
                        c = s3.cell(r.a)
                        last = c.items[-1] if type(c) is ListC and c.items else getattr(c, 'last', NONE)
                        s3.put(r.a, ListS(cnt, last))
                        out.append(s3)
                continue
            s.temps.append(TupV(tuple(items)))
            cur = [s]
            for i in range(len(items)):
                nxt = []
                for s1 in cur:
                    x = s1.temps[-1].items[i]
                    for s2 in self.assign(g.target, x, s1):
                        conds = [s2]
                        for c in g.ifs:
                            cc = []
                            for s3 in conds:
                                for s4, v in self.ev(c, s3):
                                    for s5, b in self.truth(s4, v):
                                        if b:
                                            cc.append(s5)
                                        else:
                                            nxt.append(s5)
                            conds = cc
                        for s3 in conds:
                            nxt.extend(self.comp_gen(n, s3, k + 1, slot))
                cur = J.join(nxt) if len(nxt) > 1 else nxt
            for s1 in cur:
                s1.temps.pop()
            out.extend(cur)
        return out

    # calls -------------------------------------------------------------------
    def ev_Call(self, n, st):
        nodes = [n.func]
        for a in n.args:
            nodes.append(a.value if isinstance(a, ast.Starred) else a)
        for k in n.keywords:
            nodes.append(k.value)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = self.frame(st)
            if fr.code.cls and fr.code.params:
                cid = None
                for c in self.classes.values():
                    if c.name == fr.code.cls and c.module is fr.code.module:
                        cid = c.id
                return [(st, SuperV(cid, fr.vars.get(fr.code.params[0])))]
        out = []
        for s, vs in self.ev_seq(nodes, st):
            f = vs[0]
            args, kw = [], {}
            ok = True
            i = 1
            for a in n.args:
                v = vs[i]
                i += 1
                if isinstance(a, ast.Starred):
                    it = self.M.items_of(self, s, v)
                    if it is None:
                        ok = False
                        break
                    args.extend(it)
                else:
                    args.append(v)
            if ok:
                for k in n.keywords:
                    v = vs[i]
                    i += 1
                    if k.arg is None:
                        c = s.cell(v.a) if type(v) is Ref else None
                        if type(c) is not DictC:
                            ok = False
                            break
                        for kk, vv in c.items:
                            if not (isinstance(kk, Const) and isinstance(kk.v, str)):
                                ok = False
                                break
                            if kk.v in kw:
                                self.throw(s, 'TypeError', 'multiple values for keyword argument %r' % kk.v, n)
                                ok = None
                                break
                            kw[kk.v] = vv
                    else:
                        if k.arg in kw:
                            self.throw(s, 'TypeError', 'multiple values for keyword argument %r' % k.arg, n)
                            ok = None
                            break
                        kw[k.arg] = v
            if ok is None:
                continue
            if not ok:
                s.blame('call with an unknown argument list')
                out.append((s, self.top(s, 'star arguments')))
                continue
            out.extend(self.call(s, f, args, kw, n))
        return out

    def call(self, st, f, args, kw, node):
        self.tick()
        t = type(f)
        if t is FnV:
            return self.call_fn(st, f, args, kw, node)
        if t is Bound:
            return self.call(st, f.fn, [f.self] + list(args), kw, node)
        if t is Cls:
            return self.instantiate(st, f, args, kw, node)
        if t is MethV:
            return self.call(st, f.fn, args, kw, node)
        if t is OpV:
            return self.M.op_apply(self, st, f, args[0] if args else NONE, node)
        if t is Ext:
            if f.path.startswith('hook:'):
                return self.hooks[f.path[5:]](self, st, args, kw, node)
            return self.M.call_ext(self, st, f.path, args, kw, node)
        if t is ExtM:
            return self.M.call_method(self, st, f.recv, f.name, args, kw, node)
        if t is DT:
            return self.M.call_ext(self, st, 'numpy.float64', args, kw, node)
        if t is Top:
            self.havoc(st, list(args) + list(kw.values()), 'call of an unknown function')
            return [(st, Top(f.why))]
        if t is Ref:
            c = st.cell(f.a)
            if type(c) is InstC:
                m = self.class_lookup(c.cls, '__call__')
                if m is not None:
                    return self.call(st, Bound(m, f), args, kw, node)
        return self.throw(st, 'TypeError', '%s object is not callable' % self.M.tyname(self, st, f), node)

    def havoc(self, st, vals, why):
        for v in vals:
            if type(v) is Ref and type(st.cell(v.a)) in (ArrC, ViewC, ListC, ListS, DictC, InstC, MatC):
                st.blame(why)
                return
            if type(v) in (FnV, Bound, OpV, Top):
                st.blame(why)
                return

    def bind(self, st, f, args, kw, node):
        """-> vars dict or None (exception thrown)"""
        code = f.code
        vars = {}
        np_ = len(code.params)
        args = list(args)
        kw = dict(kw)
        what = code.qual + '()'
        for i, v in enumerate(args[:np_]):
            vars[code.params[i]] = v
        extra = args[np_:]
        if extra and not code.vararg:
            self.throw(st, 'TypeError', '%s takes %d arguments (%d given)' % (what, np_, len(args)), node)
            return None
        for k in list(kw):
            if k in code.params:
                if k in vars:
                    self.throw(st, 'TypeError', '%s got multiple values for argument %r' % (what, k), node)
                    return None
                vars[k] = kw.pop(k)
            elif k in code.kwonly:
                vars[k] = kw.pop(k)
        nd = len(f.defs)
        for i, p in enumerate(code.params):
            if p not in vars:
                j = i - (np_ - nd)
                if j < 0:
                    self.throw(st, 'TypeError', '%s missing required argument %r' % (what, p), node)
                    return None
                vars[p] = f.defs[j]
        j = 0
        for p, d in zip(code.kwonly, code.kwonly_defaults):
            if d is not None:
                if p not in vars:
                    vars[p] = f.kwdefs[j]
                j += 1
            elif p not in vars:
                self.throw(st, 'TypeError', '%s missing keyword argument %r' % (what, p), node)
                return None
        if code.vararg:
            vars[code.vararg] = TupV(tuple(extra))
        if kw and not code.kwarg:
            self.throw(st, 'TypeError', '%s got an unexpected keyword argument %r' % (what, sorted(kw)[0]), node)
            return None
        if code.kwarg:
            d = tuple((Const(k), kw[k]) for k in sorted(kw))
            vars[code.kwarg] = st.alloc(DictC(d, False))
        return vars

    def call_fn(self, st, f, args, kw, node):
        code = f.code
        if len(st.stack) > 60:
            raise Undecided('recursion too deep in ' + code.qual)
        vars = self.bind(st, f, args, kw, node)
        if vars is None:
            return []
        self.visited.add((code.module.rel, code.qual))
        if len(self.sinks) and node is not None:
            self.sites.add((code.module.rel, getattr(node, 'lineno', 0)))
        mod = self.modules[code.module.name]
        for p, v in list(vars.items()):
            if type(v) is Num and v.lit and p in code.arith:
                vars[p] = Num(v.p, v.dt, False)
        if code.is_gen:
            vars['.yield'] = st.alloc(ListC(()))
        fr = st.alloc(FrameC(vars, f.up, mod, code))
        st.stack.append(fr.a)
        if code.is_lambda:
            out = []
            for s, v in self.ev(code.node.body, st):
                s.stack.pop()
                out.append((s, v))
            return self.squash(out)
        res = self.block(code.body, st)
        done = []
        for s in res['next']:
            s.ret = NONE
            done.append(s)
        done.extend(res['return'])
        for s in done:
            if code.is_gen:
                s.ret = self.frame(s).vars['.yield']
            s.stack.pop()
        if len(done) > 1 and not (len(done) <= self.apart and done[0].stack and self.from_scenario(done[0], -1)):
            done = J.join(done)
        out = []
        for s in done:
            v = s.ret
            s.ret = None
            out.append((s, v))
        return out

    def instantiate(self, st, cls, args, kw, node):
        r = st.alloc(InstC(cls.id, {}))
        init = self.class_lookup(cls.id, '__init__')
        new = self.class_lookup(cls.id, '__new__')
        if new is not None:
            st.blame('__new__')
        if init is None:
            if self.exc_bases(cls.id):
                return [(st, r)]
            if args or kw:
                return self.throw(st, 'TypeError', '%s() takes no arguments' % self.classes[cls.id].name, node)
            return [(st, r)]
        st.temps.append(r)
        out = []
        for s, v in self.call(st, Bound(init, r), args, kw, node):
            r2 = s.temps.pop()
            out.append((s, r2))
        return out

    # attributes ----------------------------------------------------------------
    def getattr(self, st, v, name, node):
        t = type(v)
        if t is Ref:
            c = st.cell(v.a)
            if type(c) is InstC:
                nm = self.mangle(st, name)
                return self.inst_attr(st, v, c, nm, node)
            return self.M.obj_attr(self, st, v, c, name, node)
        if t is SuperV:
            return self.super_attr(st, v, self.mangle(st, name), node)
        if t is Cls:
            nm = self.mangle(st, name)
            if nm == '__name__':
                return [(st, Const(self.classes[v.id].name))]
            m = self.class_lookup(v.id, nm)
            if m is not None:
                if type(m) is MethV:
                    return [(st, m.fn if m.kind == 'static' else Bound(m.fn, v))]
                return [(st, m)]
            return self.throw(st, 'AttributeError', 'class %s has no attribute %r' % (self.classes[v.id].name, name), node)
        if t is Mod:
            return self.mod_attr(st, v, name, node)
        if t is Stale:
            self.event('stale', 'the value of %s from an earlier solve is used' % v.attr, st, node, v.attr)
            return [(st, self.top(st, 'stale'))]
        return self.M.val_attr(self, st, v, name, node)

    def inst_attr(self, st, v, c, nm, node):
        m = self.class_lookup(c.cls, nm)
        if type(m) is PropV:
            return self.call(st, Bound(m.get, v), [], {}, node)
        if nm in c.attrs:
            x = c.attrs[nm]
            if type(x) is Stale:
                self.event('stale', 'the value of self.%s left by an earlier solve is read' % nm, st, node, nm)
            return [(st, x)]
        if m is not None:
            if type(m) is FnV:
                return [(st, Bound(m, v))]
            if type(m) is MethV:
                return [(st, m.fn if m.kind == 'static' else Bound(m.fn, Cls(c.cls)))]
            return [(st, m)]
        if nm == '__class__':
            return [(st, Cls(c.cls))]
        if nm == '__dict__':
            d = tuple((Const(k), c.attrs[k]) for k in sorted(c.attrs))
            st.blame('__dict__ used')
            return [(st, st.alloc(DictC(d, False)))]
        if self.exc_bases(c.cls) and nm in ('args', 'message'):
            return [(st, self.top(st, 'exception attribute'))]
        g = self.class_lookup(c.cls, '__getattr__')
        if g is not None:
            return self.call(st, Bound(g, v), [Const(nm)], {}, node)
        return self.throw(st, 'AttributeError', '%s object has no attribute %r' % (self.classes[c.cls].name, nm), node)

    def super_attr(self, st, v, nm, node):
        c = st.cell(v.self.a)
        mro = self.mro(c.cls)
        i = mro.index(v.cls) + 1 if v.cls in mro else 0
        for k in mro[i:]:
            a = self.classes[k].attrs
            if nm in a:
                m = a[nm]
                if type(m) is PropV:
                    return self.call(st, Bound(m.get, v.self), [], {}, node)
                if type(m) is FnV:
                    return [(st, Bound(m, v.self))]
                return [(st, m)]
        if nm == '__init__':
            return [(st, Ext('object.__init__'))]
        return self.throw(st, 'AttributeError', 'super object has no attribute %r' % nm, node)

    def mod_attr(self, st, v, name, node):
        g = st.cell(self.modules[v.name])
        if name in g.vars:
            return [(st, g.vars[name])]
        if load.find(v.name + '.' + name):
            self.import_module(v.name + '.' + name)
            return [(st, Mod(v.name + '.' + name))]
        return self.throw(st, 'AttributeError', 'module %s has no attribute %r' % (v.name, name), node)

    def setattr(self, st, v, name, val, node):
        """-> list of states"""
        t = type(v)
        if t is Ref:
            c = st.cell(v.a)
            if type(c) is InstC:
                nm = self.mangle(st, name)
                m = self.class_lookup(c.cls, nm)
                if type(m) is PropV:
                    if m.set is None:
                        return self.throw(st, 'AttributeError', "can't set attribute %r" % nm, node)
                    return [s for s, _ in self.call(st, Bound(m.set, v), [val], {}, node)]
                if type(val) is Num and val.lit and isinstance(node, ast.AugAssign):
                    val = Num(val.p, val.dt, False)
                self.attrlog.setdefault((v.a, nm), self.loc(st, node))
                at = dict(c.attrs)
                at[nm] = val
                st.put(v.a, InstC(c.cls, at))
                if v.a in BASE and not self.loading:
                    self.event('globalwrite', 'attribute %r of an object shared by all calls is assigned' % nm, st, node)
                return [st]
            return self.M.obj_setattr(self, st, v, c, name, val, node)
        if t is Cls:
            self.event('globalwrite', 'class attribute %s.%s is assigned' % (self.classes[v.id].name, name), st, node)
            st.blame('class attribute assigned')
            return [st]
        if t in (Mod, Ext):
            self.event('globalwrite', 'attribute %s of %s is assigned' % (name, v), st, node)
            return [st]
        if t is OpV:
            if name == 'nMatvec':
                pass
            self.event('opwrite', 'attribute %s of the operator is assigned' % name, st, node)
            return [st]
        if t in (Top, Stale):
            return [st]
        if t is Bound or t is FnV:
            self.event('globalwrite', 'attribute %s of a function is assigned' % name, st, node)
            return [st]
        return self.throw(st, 'AttributeError', '%s has no settable attribute %r' % (self.M.tyname(self, st, v), name), node)

    # ------------------------------------------------------------ assignment
    def assign(self, target, val, st):
        """-> list of states"""
        t = type(target)
        if t is ast.Name:
            self.setvar(st, target.id, val, target)
            return [st]
        if t in (ast.Tuple, ast.List):
            items = self.M.items_of(self, st, val)
            if items is None:
                if type(val) in (Top, Stale):
                    items = [val] * len(target.elts)
                else:
                    items = [self.top(st, 'unpacking')] * len(target.elts)
                    st.blame('unpacking of an unknown sequence')
            if len(items) != len(target.elts):
                return self.throw(st, 'ValueError', 'cannot unpack %d values into %d targets' % (len(items), len(target.elts)), target)
            cur = [st]
            st.temps.append(TupV(tuple(items)))
            for i, e in enumerate(target.elts):
                nxt = []
                for s in cur:
                    nxt.extend(self.assign(e, s.temps[-1].items[i], s))
                cur = nxt
            for s in cur:
                s.temps.pop()
            return cur
        if t is ast.Attribute:
            st.temps.append(val)
            out = []
            for s, o in self.ev(target.value, st):
                v = s.temps.pop()
                out.extend(self.setattr(s, o, target.attr, v, target))
            return out
        if t is ast.Subscript:
            st.temps.append(val)
            out = []
            for s, (o, i) in self.ev_seq([target.value, target.slice], st):
                v = s.temps.pop()
                out.extend(self.M.setitem(self, s, o, i, v, target))
            return out
        st.blame('unsupported assignment target')
        return [st]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, states=None):
        cur = states if states is not None else [st]
        res = {'next': [], 'break': [], 'continue': [], 'return': []}
        for s in stmts:
            nxt = []
            if len(cur) > 1 and isinstance(s, ast.While):
                # one fixpoint for all states that are not unrolled
                many = [x for x in cur if not self.unrolls(s, x)]
                todo = [([x], x) for x in cur if x not in many] + ([(many, None)] if many else [])
            else:
                todo = [(None, x) for x in cur]
            for xs, x in todo:
                r = self.stmt(s, x) if x is not None else self.st_While(s, None, xs)
                nxt.extend(r['next'])
                for k in ('break', 'continue', 'return'):
                    if r.get(k):
                        res[k].extend(r[k])
            if len(nxt) > 1:
                self.kill(nxt, s)
                if not self.keep_apart(nxt):
                    nxt = J.join(nxt)
            cur = nxt
            if not cur:
                break
        res['next'] = cur
        return res

    def from_scenario(self, st, i):
        c = st.cell(st.stack[i]).code if len(st.stack) >= -i else None
        return c is not None and c.name == '<scenario>'

    def keep_apart(self, states):
        """Few states of a function called by the scenario, outside loops, are not joined."""
        return not self.in_loop and len(states) <= self.apart and \
            (self.from_scenario(states[0], -2) or self.from_scenario(states[0], -1))

    def kill(self, states, stmt):
        for s in states:
            a = s.stack[-1]
            fr = s.cell(a)
            code = fr.code
            if code is None or code.live is None or a in BASE:
                continue
            live = code.live.get(id(stmt))
            if live is None or '*' in live:
                continue
            dead = [n for n in fr.vars if n not in live and n not in code.captured and n[0] != '.']
            if dead:
                vs = dict(fr.vars)
                for n in dead:
                    del vs[n]
                s.put(a, fr.replace(vars=vs))

    def stmt(self, n, st):
        self.tick()
        f = getattr(self, 'st_' + type(n).__name__, None)
        if f is None:
            st.blame('unsupported statement ' + type(n).__name__)
            return {'next': [st]}
        return f(n, st)

    def st_Expr(self, n, st):
        return {'next': [s for s, v in self.ev(n.value, st)]}

    def st_Pass(self, n, st):
        return {'next': [st]}

    st_Global = st_Pass

    def st_Nonlocal(self, n, st):
        st.blame('nonlocal')
        return {'next': [st]}

    def st_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            cur = [s]
            if len(n.targets) == 1:
                out.extend(self.assign(n.targets[0], v, s))
                continue
            s.temps.append(v)
            for t in n.targets:
                nxt = []
                for x in cur:
                    nxt.extend(self.assign(t, x.temps[-1], x))
                cur = nxt
            for x in cur:
                x.temps.pop()
            out.extend(cur)
        return {'next': out}

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return {'next': [st]}
        m = ast.Assign(targets=[n.target], value=n.value)
        ast.copy_location(m, n)
        return self.st_Assign(m, st)

    def st_AugAssign(self, n, st):
        t = n.target
        out = []
        if isinstance(t, ast.Name):
            for s, (a, b) in self.ev_seq([ast.copy_location(ast.Name(t.id, ast.Load()), t), n.value], st):
                for s2, v in self.M.inplace(self, s, n.op, a, b, n):
                    self.setvar(s2, t.id, v, n)
                    out.append(s2)
        elif isinstance(t, ast.Attribute):
            for s, o in self.ev(t.value, st):
                s.temps.append(o)
                for s1, a in self.getattr(s, o, t.attr, t):
                    s1.temps.append(a)
                    for s2, b in self.ev(n.value, s1):
                        a2 = s2.temps.pop()
                        for s3, v in self.M.inplace(self, s2, n.op, a2, b, n):
                            o3 = s3.temps.pop()
                            out.extend(self.setattr(s3, o3, t.attr, v, n))
        elif isinstance(t, ast.Subscript):
            for s, (o, i) in self.ev_seq([t.value, t.slice], st):
                s.temps.append(o)
                s.temps.append(i)
                ld = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
                for s1, a in self.M.getitem(self, s, o, i, ld):
                    s1.temps.append(a)
                    for s2, b in self.ev(n.value, s1):
                        a2 = s2.temps.pop()
                        for s3, v in self.M.inplace(self, s2, n.op, a2, b, n):
                            i3 = s3.temps.pop()
                            o3 = s3.temps.pop()
                            out.extend(self.M.setitem(self, s3, o3, i3, v, n, aug=a2))
        else:
            st.blame('unsupported augmented assignment')
            out.append(st)
        return {'next': out}

    def st_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    self.delvar(s, t.id)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, (o, i) in self.ev_seq([t.value, t.slice], s):
                        nxt.extend(self.M.delitem(self, s2, o, i, t))
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s):
                        c = s2.cell(o.a) if type(o) is Ref else None
                        nm = self.mangle(s2, t.attr)
                        if type(c) is InstC:
                            if nm in c.attrs:
                                at = dict(c.attrs)
                                del at[nm]
                                s2.put(o.a, InstC(c.cls, at))
                                nxt.append(s2)
                            else:
                                self.throw(s2, 'AttributeError', nm, t)
                        else:
                            s2.blame('del of an attribute')
                            nxt.append(s2)
                else:
                    s.blame('del')
                    nxt.append(s)
            cur = nxt
        return {'next': cur}

    def st_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            for s2, b in self.truth(s, v):
                if b:
                    out.append(s2)
                else:
                    self.throw(s2, 'AssertionError', 'assertion fails', n, internal=False)
        return {'next': out}

    def st_Return(self, n, st):
        if n.value is None:
            st.ret = NONE
            return {'next': [], 'return': [st]}
        out = []
        for s, v in self.ev(n.value, st):
            s.ret = v
            out.append(s)
        return {'next': [], 'return': out}

    def st_Break(self, n, st):
        return {'next': [], 'break': [st]}

    def st_Continue(self, n, st):
        return {'next': [], 'continue': [st]}

    def st_Raise(self, n, st):
        if n.exc is None:
            if st.curexc is not None:
                self.sinks[-1].append((st, st.curexc))
            else:
                self.throw(st, 'RuntimeError', 'no active exception to reraise', n)
            return {'next': []}
        for s, v in self.ev(n.exc, st):
            self.raise_val(s, v, n)
        return {'next': []}

    def raise_val(self, s, v, n):
        t = type(v)
        if t is ExcV:
            self.sinks[-1].append((s, ExcV(v.name, ('raise', v.info[1] if v.info else '', self.loc(s, n).tup()))))
        elif t is Ext and v.path in BUILTIN_EXC:
            self.throw(s, v.path, '', n, internal=False)
        elif t is Cls:
            self.throw(s, v, '', n, internal=False)
        elif t is Ref and type(s.cell(v.a)) is InstC:
            self.throw(s, Cls(s.cell(v.a).cls), '', n, internal=False)
        elif t is Top:
            s.blame('raise of an unknown value')
            self.throw(s, 'Exception', 'unknown exception', n, internal=False)
        else:
            self.throw(s, 'TypeError', 'exceptions must derive from BaseException', n)

    def st_If(self, n, st):
        res = {'next': [], 'break': [], 'continue': [], 'return': []}
        branches = {True: [], False: []}
        for s, v in self.ev(n.test, st):
            for s2, b in self.truth(s, v):
                branches[b].append(s2)
        for b, body in ((True, n.body), (False, n.orelse)):
            sts = branches[b]
            if not sts:
                continue
            if len(sts) > 1:
                sts = J.join(sts)
            if body:
                r = self.block(body, None, sts)
                for k in res:
                    res[k].extend(r[k])
            else:
                res['next'].extend(sts)
        return res

    def st_FunctionDef(self, n, st):
        out = []
        for s, f in self.make_fn(n, st):
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s1, g in cur:
                    s1.temps.append(g)
                    for s2, dv in self.ev_decorator(d, s1):
                        g2 = s2.temps.pop()
                        nxt.extend(self.M.decorate(self, s2, dv, g2, n))
                cur = nxt
            for s1, g in cur:
                self.setvar(s1, n.name, g, n)
                out.append(s1)
        return {'next': out}

    def ev_decorator(self, d, st):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
            return [(s, ExtM(v, d.attr)) for s, v in self.ev(d.value, st)]
        return self.ev(d, st)

    def st_ClassDef(self, n, st):
        fr = self.frame(st)
        mod = fr.code.module
        out = []
        for s, bases in self.ev_seq(n.bases, st):
            cid = mod.name + '.' + n.name
            code = ClassCode(n.name, mod, fr.code)
            a = s.alloc(FrameC({}, None if self.frame(s).code.name == '<module>' else s.stack[-1],
                               self.frame(s).mod, code))
            s.stack.append(a.a)
            r = self.block(n.body, s)
            for s2 in r['next']:
                attrs = dict(('_' + n.name.lstrip('_') + k if k.startswith('__') and not k.endswith('__') else k, v)
                             for k, v in self.frame(s2).vars.items())
                s2.stack.pop()
                self.classes[cid] = ClassInfo(cid, n.name, bases, attrs, mod)
                for k in list(self.classes):
                    self.classes[k].mro = None
                self.setvar(s2, n.name, Cls(cid), n)
                out.append(s2)
        return {'next': out}

    # loops -------------------------------------------------------------------
    def const_test(self, n, st):
        """Can the loop be unrolled: the test is decided by constants."""
        return True

    def unrolls(self, n, st):
        return isinstance(n.test, ast.Compare) and not (self.loop_start and not self.in_loop) and \
            not self.symbolic_test(n.test, st)

    def st_While(self, n, st, states=None):
        # bounded unrolling while the test is decided
        res = {'next': [], 'break': [], 'continue': [], 'return': []}
        exits = []
        cur = states or [st]
        keep = self.peel and not self.in_loop
        if keep or states is None and self.unrolls(n, st):
            for _ in range(self.peel if keep else 70):
                nxt = []
                for s in cur:
                    for s2, v in self.ev(n.test, s):
                        for s3, b in self.truth(s2, v):
                            (nxt if b else exits).append(s3)
                if not nxt:
                    cur = []
                    break
                if len(nxt) > 1 and not keep:
                    nxt = J.join(nxt)
                if keep and self.loop_start:
                    for x in nxt:
                        self.loop_start(self, x, n)
                r = self.block(n.body, None, nxt)
                res['return'].extend(r['return'])
                res['next'].extend(r['break'])
                cur = r['next'] + r['continue']
                if not cur:
                    break
                if keep:
                    continue
                if len(cur) > 1:
                    cur = J.join(cur)
                if len(cur) > 8 or any(self.symbolic_test(n.test, s) for s in cur):
                    break
        if cur and not (keep and self.peel_only):
            e = self.fixpoint(n, cur,
                              lambda s: self.ev_test(n.test, s),
                              lambda s: self.block(n.body, s), res)
            exits.extend(e)
        if exits:
            if n.orelse:
                r = self.block(n.orelse, None, exits)
                for k in res:
                    res[k].extend(r[k])
            else:
                res['next'].extend(exits)
        return res

    def symbolic_test(self, test, st):
        """True unless both sides of the comparison are numeric constants."""
        s = st.fork()
        self.sinks.append([])
        ev = self.events
        self.events = []
        try:
            for s2, v in self.ev(test, s):
                if type(v) is not Const:
                    return True
            # decided: but only unroll when no counter is symbolic
            for x in ast.walk(test):
                if isinstance(x, ast.Name):
                    s3 = st.fork()
                    for s4, v in self.lookup(s3, x.id, x):
                        if type(v) is Num and v.p.const() is None:
                            return True
                if isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)):
                    return True
            return False
        finally:
            self.sinks.pop()
            self.events = ev

    def ev_test(self, test, st):
        yes, no = [], []
        for s, v in self.ev(test, st):
            for s2, b in self.truth(s, v):
                (yes if b else no).append(s2)
        return yes, no

    def fixpoint(self, node, init, test, body, res):
        """Runs a loop to its fixpoint; returns exit states, fills res."""
        self.nloops += 1
        outer = self.in_loop == 0
        heads = {}
        order = []
        pend = list(init)
        passes = 0
        self.in_loop += 1
        self.symloop += 1
        try:
            while pend:
                passes += 1
                if passes > 80:
                    raise Undecided('a loop does not stabilise')
                dirty = self.absorb(heads, order, pend, node)
                pend = []
                for key in dirty:
                    h = heads[key]
                    s = h['st'].fork()
                    ev, self.events = self.events, []
                    self.sinks.append([])
                    site = self.loopsite
                    if outer:
                        self.loopsite = node
                        if self.loop_start:
                            pass
                    try:
                        yes, no = test(s)
                        if len(yes) > 1:
                            yes = J.join(yes)
                        back, brk, ret = [], [], []
                        for y in yes:
                            if outer and self.loop_start:
                                self.loop_start(self, y, node)
                            r = body(y)
                            back.extend(r['next'] + r['continue'])
                            brk.extend(r['break'])
                            ret.extend(r['return'])
                        if outer and self.loop_back:
                            for y in back:
                                self.loop_back(self, y, node)
                        if len(back) > 1:
                            back = J.join(back)
                        h['no'], h['brk'], h['ret'] = no, brk, ret
                        h['exc'] = self.sinks[-1]
                        h['ev'] = self.events
                        h['back'] = back
                    finally:
                        self.sinks.pop()
                        self.events = ev
                        self.loopsite = site
                    pend.extend(b.fork() for b in back)
        finally:
            self.in_loop -= 1
            self.symloop -= 1
        exits = []
        for key in order:
            h = heads[key]
            exits.extend(h['no'])
            res['next'].extend(h['brk'])
            res['return'].extend(h['ret'])
            self.sinks[-1].extend(h['exc'])
            self.events.extend(h['ev'])
        return exits

    def absorb(self, heads, order, pend, node):
        dirty = []
        keeplit = 2 if len(heads) <= J.CAP else 1 if len(heads) <= J.HARDCAP else 0
        for s in pend:
            self.kill_loop(s, node)
            w = Walker(s, keeplit).run()
            h = heads.get(w.key)
            if h is None:
                heads[w.key] = {'st': s, 'w': w, 'own': set(), 'no': [], 'brk': [], 'ret': [], 'exc': [], 'ev': []}
                order.append(w.key)
                dirty.append(w.key)
                if len(heads) > 400:
                    raise Undecided('too many loop states')
                continue
            m, ch = J.merge_into(h['st'], h['w'], s, w, h['own'])
            if ch:
                h['st'] = m
                h['w'] = Walker(m, h['w'].keeplit).run()
                if w.key not in dirty:
                    dirty.append(w.key)
        return dirty

    def kill_loop(self, s, node):
        """Names dead at the loop head."""
        a = s.stack[-1]
        fr = s.cell(a)
        code = fr.code
        if code is None or code.live is None or a in BASE:
            return
        head = code.live.get(('head', id(node)))
        if head is None or '*' in head:
            return
        dead = [n for n in fr.vars if n not in head and n not in code.captured and n[0] != '.']
        if dead:
            vs = dict(fr.vars)
            for n in dead:
                del vs[n]
            s.put(a, fr.replace(vars=vs))

    def st_For(self, n, st):
        res = {'next': [], 'break': [], 'continue': [], 'return': []}
        ends = []
        for s, it in self.ev(n.iter, st):
            items = self.M.items_of(self, s, it)
            if items is not None and len(items) <= 64:
                s.temps.append(TupV(tuple(items)))
                cur = [s]
                for i in range(len(items)):
                    nxt = []
                    for x in cur:
                        nxt.extend(self.assign(n.target, x.temps[-1].items[i], x))
                    r = self.block(n.body, None, nxt)
                    for k in r['return']:
                        k.temps.pop()
                    res['return'].extend(r['return'])
                    for k in r['break']:
                        k.temps.pop()
                    res['next'].extend(r['break'])
                    cur = r['next'] + r['continue']
                    if len(cur) > 1:
                        self.kill_for(cur, n)
                        cur = J.join(cur)
                    if not cur:
                        break
                for x in cur:
                    x.temps.pop()
                ends.extend(cur)
                continue
            ends.extend(self.sym_for(n, s, it, res))
        if ends and n.orelse:
            r = self.block(n.orelse, None, ends)
            for k in res:
                res[k].extend(r[k])
        else:
            res['next'].extend(ends)
        return res

    def kill_for(self, cur, n):
        for s in cur:
            self.kill_loop(s, n)

    def sym_for(self, n, s, it, res):
        cn = '.it%d' % id(n)
        an = '.src%d' % id(n)
        rng = it if type(it) is RangeV else None
        if rng is None:
            cnt, el = self.M.sym_items(self, s, it)
            rng = RangeV(num(0), Num(cnt, LI, False), num(1))
        step = rng.s.p.const()
        if step is None or step == 0:
            step = 1
            s.blame('loop with an unknown step')
        self.setvar(s, cn, Num(rng.a.p, LI, False))
        self.setvar(s, an, it)
        self.setvar(s, an + 'b', Num(rng.b.p, LI, False))

        def test(x):
            vs = self.frame(x).vars
            d = psub(vs[cn].p, vs[an + 'b'].p)
            yes, no = [], []
            for y, b in self.fork_cmp(x, frozenset('-') if step > 0 else frozenset('+'), d):
                (yes if b else no).append(y)
            return yes, no

        def body(x):
            vs = self.frame(x).vars
            i = vs[cn]
            src = vs[an]
            self.setvar(x, cn, Num(padd(i.p, pconst(step)), LI, False))
            if type(src) is RangeV:
                v = Num(i.p, LI, False)
            else:
                v = self.M.sym_item(self, x, src, i.p)
            r = {'next': [], 'break': [], 'continue': [], 'return': []}
            sts = self.assign(n.target, v, x)
            return self.block(n.body, None, sts) if sts else r
        k0 = len(res['next'])
        exits = self.fixpoint(n, [s], test, body, res)
        for x in exits + res['next'][k0:]:
            for nm in (cn, an, an + 'b'):
                self.delvar(x, nm)
        return exits

    # exceptions ----------------------------------------------------------------
    def st_Try(self, n, st):
        res = {'next': [], 'break': [], 'continue': [], 'return': []}
        ds, dt = len(st.stack), len(st.temps)
        self.sinks.append([])
        r = self.block(n.body, st)
        caught = self.sinks.pop()
        if n.orelse and r['next']:
            r2 = self.block(n.orelse, None, r['next'])
            r['next'] = r2['next']
            for k in ('break', 'continue', 'return'):
                r[k].extend(r2[k])
        pending = []
        self.sinks.append([])
        for s, e in caught:
            del s.stack[ds:]
            del s.temps[dt:]
            handled = False
            for h in n.handlers:
                m = self.matches(s, h.type, e)
                if m is False:
                    continue
                s2 = s
                if m is None:
                    s2 = s.fork()
                    s2.blame('exception of unknown type')
                old = s2.curexc
                s2.curexc = e
                if h.name:
                    self.setvar(s2, h.name, e if type(e) is ExcV else Top('exception'), h)
                rr = self.block(h.body, s2)
                for k in res:
                    for x in rr[k]:
                        x.curexc = old
                    res[k].extend(rr[k])
                if m is True:
                    handled = True
                    break
            if not handled:
                pending.append((s, e))
        pending.extend(self.sinks.pop())
        for k in res:
            res[k].extend(r[k])
        if n.finalbody:
            out = {'next': [], 'break': [], 'continue': [], 'return': []}
            for k in res:
                for s in res[k]:
                    keep = s.ret
                    if keep is not None:
                        s.temps.append(keep)
                    rr = self.block(n.finalbody, s)
                    for x in rr['next']:
                        if keep is not None:
                            x.ret = x.temps.pop()
                    out[k].extend(rr['next'])
                    for kk in ('break', 'continue', 'return'):
                        out[kk].extend(rr[kk])
            res = out
            p2 = []
            for s, e in pending:
                del s.stack[ds:]
                del s.temps[dt:]
                rr = self.block(n.finalbody, s)
                for x in rr['next']:
                    p2.append((x, e))
                for kk in ('break', 'continue', 'return'):
                    res[kk].extend(rr[kk])
            pending = p2
        self.sinks[-1].extend(pending)
        return res

    def matches(self, st, typ, e):
        """True / False / None"""
        if typ is None:
            return True
        self.sinks.append([])
        ev, self.events = self.events, []
        vals = self.ev(typ, st.fork())
        self.sinks.pop()
        self.events = ev
        if len(vals) != 1:
            return None
        v = vals[0][1]
        tys = v.items if type(v) is TupV else (v,)
        names = set()
        if isinstance(e.name, Cls):
            names = self.exc_bases(e.name.id) | set(self.mro(e.name.id))
        else:
            x = e.name
            while x is not None:
                names.add(x)
                x = BUILTIN_EXC.get(x)
        for t in tys:
            if type(t) is Ext and t.path in names:
                return True
            if type(t) is Cls and t.id in names:
                return True
            if type(t) is Ext and t.path.split('.')[-1] in ('LinAlgError', 'error'):
                continue
            if type(t) not in (Ext, Cls):
                return None
        return False

    def st_With(self, n, st):
        cur = [st]
        for item in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(item.context_expr, s):
                    nm = v.path if type(v) is Ext else (v.name if type(v) is ExtM else None)
                    if type(v) is Ext and v.path.startswith('ctx:'):
                        pass
                    else:
                        s2.blame('with statement over an unknown context manager')
                    if item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, Top('with'), s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return self.block(n.body, None, cur) if cur else {'next': []}

    # imports -------------------------------------------------------------------
    def st_Import(self, n, st):
        for a in n.names:
            v = self.import_any(st, a.name, n)
            if v is None:
                return {'next': []}
            if a.asname:
                self.setvar(st, a.asname, v, n)
            else:
                top = a.name.split('.')[0]
                self.setvar(st, top, Mod(top) if load.find(top) else Ext(top), n)
        return {'next': [st]}

    def import_any(self, st, name, node):
        fr = self.frame(st)
        mod = fr.code.module
        # implicit relative import (Python 2)
        pkg = mod.name if mod.is_pkg else mod.name.rpartition('.')[0]
        for cand in ([pkg + '.' + name] if pkg else []) + [name]:
            if load.find(cand):
                parts = cand.split('.')
                for i in range(1, len(parts) + 1):
                    p = '.'.join(parts[:i])
                    if load.find(p):
                        if not self.import_module(p):
                            self.throw(st, 'ImportError', 'module %s fails to import' % p, node)
                            return None
                return Mod(cand)
        top = name.split('.')[0]
        if top in ABSENT or top not in EXTMODS or not self.M.ext_module(name):
            self.throw(st, 'ImportError', 'no module named ' + name, node)
            return None
        return Ext(name)

    def st_ImportFrom(self, n, st):
        if n.module == '__future__':
            return {'next': [st]}
        mod = self.frame(st).code.module
        if n.level:
            pkg = mod.name if mod.is_pkg else mod.name.rpartition('.')[0]
            for _ in range(n.level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + n.module if n.module else '')
            if not load.find(name) or not self.import_module(name):
                self.throw(st, 'ImportError', 'no module named ' + name, n)
                return {'next': []}
            v = Mod(name)
        else:
            v = self.import_any(st, n.module, n)
            if v is None:
                return {'next': []}
        for a in n.names:
            if a.name == '*':
                if type(v) is not Mod:
                    st.blame('star import from an external module')
                    for k in self.M.ext_names(v.path):
                        self.setvar(st, k, self.M.ext_attr(v.path, k), n)
                    continue
                g = st.cell(self.modules[v.name])
                names = self.M.star_names(self, st, g)
                for k in names:
                    if k not in g.vars and load.find(v.name + '.' + k):
                        self.import_module(v.name + '.' + k)
                        g = st.cell(self.modules[v.name])
                    if k not in g.vars:
                        self.throw(st, 'AttributeError', 'module %s has no attribute %r listed in __all__' % (v.name, k), n)
                        return {'next': []}
                    self.setvar(st, k, g.vars[k], n)
                continue
            if type(v) is Mod:
                g = st.cell(self.modules[v.name])
                if a.name in g.vars:
                    x = g.vars[a.name]
                elif load.find(v.name + '.' + a.name):
                    if not self.import_module(v.name + '.' + a.name):
                        self.throw(st, 'ImportError', 'module %s.%s fails to import' % (v.name, a.name), n)
                        return {'next': []}
                    x = Mod(v.name + '.' + a.name)
                else:
                    self.throw(st, 'ImportError', 'cannot import name %r from %s' % (a.name, v.name), n)
                    return {'next': []}
            else:
                x = self.M.ext_attr(v.path, a.name)
                if x is None:
                    self.throw(st, 'ImportError', 'cannot import name %r from %s' % (a.name, v.path), n)
                    return {'next': []}
            self.setvar(st, a.asname or a.name, x, n)
        return {'next': [st]}

    def import_module(self, name):
        """Evaluates a module body once into the base heap.  True if it imports."""
        if name in self.modules:
            return self.modules[name] is not None
        m = load.load(name)
        code = ModCode(m)
        a = V.new_addr()
        self.modules[name] = a
        gv = {'__name__': Const(name), '__file__': Const(m.rel), '__doc__': Const(ast.get_docstring(m.tree)),
              '__package__': Const(name if m.is_pkg else name.rpartition('.')[0])}
        was = self.loading
        self.loading = True
        ev, self.events = self.events, []
        sinks, self.sinks = self.sinks, [[]]
        st = St()
        st.heap[a] = FrameC(gv, None, a, code)
        st.stack.append(a)
        BASE[a] = st.heap[a]
        ok = True
        loop, self.in_loop = self.in_loop, 0
        sym, self.symloop = self.symloop, 0
        try:
            cur = [st]
            for s in m.tree.body:
                nxt = []
                for x in cur:
                    r = self.stmt(s, x)
                    nxt.extend(r['next'])
                    # publish progressively (circular imports)
                cur = nxt[:1]
                if len(nxt) > 1:
                    self.forked_modules.add(name)
                if not cur:
                    ok = False
                    break
                BASE.update(cur[0].heap)
                cur[0].heap.clear()
            if not ok:
                self.import_errors[name] = self.sinks[0][:3]
        finally:
            self.module_events.extend((name, e) for e in self.events)
            self.events = ev
            self.sinks = sinks
            self.loading = was
            self.in_loop = loop
            self.symloop = sym
        if not ok:
            self.modules[name] = None
            return False
        # bind in the parent package
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            pa = self.modules.get(parent)
            if pa is not None:
                g = BASE[pa]
                if leaf not in g.vars:
                    vs = dict(g.vars)
                    vs[leaf] = Mod(name)
                    BASE[pa] = g.replace(vars=vs)
        return True

    forked_modules = set()
    import_errors = {}
    module_events = []

    # ------------------------------------------------------------ entry
    def get(self, modname, name):
        if not self.import_module(modname):
            raise load.AnalysisBroken('module %s does not import: %s' % (modname, self.import_errors.get(modname)))
        g = BASE[self.modules[modname]]
        if name not in g.vars:
            raise load.AnalysisBroken('%s.%s not found' % (modname, name))
        return g.vars[name]

    def run_snippet(self, src, names, st=None):
        """Runs a scenario snippet whose globals are names; returns the final
        states and escaped exceptions."""
        tree = ast.parse(src)
        m = load.Module('<scenario>', '<scenario>', tree, False, src)
        m.rel = '<scenario>'
        m.true_division = True
        code = ModCode(m)
        code.name = '<scenario>'
        st = st or St()
        key = '<scenario>'
        a = V.new_addr()
        self.modules[key] = a
        fr = FrameC(dict(names), None, a, code)
        st.heap[a] = fr
        st.stack.append(a)
        self.sinks = [[]]
        r = self.block(tree.body, st)
        return r['next'], self.sinks[0]


class ModCode(object):
    """Pseudo code object of a module body."""
    name = '<module>'
    qual = '<module>'
    cls = None
    locals = frozenset()
    globals = frozenset()
    captured = frozenset()
    arith = frozenset()
    live = None
    params = ()
    is_gen = False

    def __init__(self, module):
        self.module = module


class ClassCode(object):
    name = '<class>'
    locals = frozenset()
    globals = frozenset()
    captured = frozenset()
    arith = frozenset()
    live = None
    params = ()
    is_gen = False

    def __init__(self, cls, module, outer):
        self.cls = cls
        self.module = module
        self.qual = (outer.qual + '.' if outer.name not in ('<module>',) else '') + cls
