"""Abstract values, heap cells and states."""
from terms import Poly, Form, Atom, ZERO, ONE, pconst, FZERO
import terms as T


class Val(object):
    __slots__ = ()
    F = ()

    def __init__(self, *a):
        for n, x in zip(self.F, a):
            setattr(self, n, x)

    def tup(self):
        return tuple(getattr(self, n) for n in self.F)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.tup() == o.tup())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__,) + self.tup())

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(repr(x) for x in self.tup()))


def mk(name, *fields):
    return type(name, (Val,), {'__slots__': fields, 'F': fields})


Const = mk('Const', 'v')            # None, True, False, str, Ellipsis
Num = mk('Num', 'p', 'dt', 'lit')   # scalar
StrV = mk('StrV')                   # unknown string
BCmp = mk('BCmp', 'rel', 'd')       # truth of sign(d) in rel
BSym = mk('BSym', 'key', 'neg')     # unknown truth value
Ref = mk('Ref', 'a')                # heap reference
FnV = mk('FnV', 'code', 'up', 'defs', 'kwdefs')  # function
Bound = mk('Bound', 'fn', 'self')
Cls = mk('Cls', 'id')
Mod = mk('Mod', 'name')
Ext = mk('Ext', 'path')             # external object
ExtM = mk('ExtM', 'recv', 'name')   # method of a modelled object
OpV = mk('OpV', 'name', 't', 'c')   # abstract operator
DT = mk('DT', 'dt')                 # numpy dtype or Python number type
SliceV = mk('SliceV', 'a', 'b', 's')
TupV = mk('TupV', 'items')
SuperV = mk('SuperV', 'cls', 'self')
Top = mk('Top', 'why')
Stale = mk('Stale', 'attr')
ExcV = mk('ExcV', 'name', 'info')   # exception instance (name: builtin name or class id)
PropV = mk('PropV', 'get', 'set')
MethV = mk('MethV', 'kind', 'fn')   # staticmethod / classmethod
RangeV = mk('RangeV', 'a', 'b', 's')
GenV = mk('GenV', 'fn')

NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)

LI = frozenset(['~i'])
LF = frozenset(['~f'])
LC = frozenset(['~c'])
LB = frozenset(['~b'])


def num(v, lit=True):
    if isinstance(v, Poly):
        return Num(v, LI, False)
    if isinstance(v, bool):
        return Const(v)
    if isinstance(v, int):
        return Num(pconst(v), LI, lit)
    if isinstance(v, float):
        return Num(pconst(v), LF, lit)
    if isinstance(v, complex):
        return Num(pconst(v), LC, lit)
    raise TypeError(v)


# ---------------------------------------------------------------- cells
class Cell(object):
    __slots__ = ()
    F = ()

    def __init__(self, *a):
        for n, x in zip(self.F, a):
            setattr(self, n, x)

    def replace(self, **k):
        return type(self)(*[k[n] if n in k else getattr(self, n) for n in self.F])

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join('%s=%r' % (n, getattr(self, n)) for n in self.F))


def mkc(name, *fields):
    return type(name, (Cell,), {'__slots__': fields, 'F': fields})


FrameC = mkc('FrameC', 'vars', 'up', 'mod', 'code')
InstC = mkc('InstC', 'cls', 'attrs')
# An array owning its data.  prov: where it came from ('' fresh, 'rhs', 'guess',
# 'input', ...); stored: kept in a history list.
ArrC = mkc('ArrC', 'form', 'dims', 'dt', 'prov', 'stored')
ViewC = mkc('ViewC', 'base', 'letters', 'dims')
ListC = mkc('ListC', 'items')
ListS = mkc('ListS', 'count', 'last')
DictC = mkc('DictC', 'items', 'open')   # items: tuple of (key, value)
MatC = mkc('MatC', 'rows')              # np.matrix of objects
SetC = mkc('SetC', 'items')


BASE = {}          # heap of the loaded modules (shared, read-only by convention)
_next = [1]


def new_addr():
    _next[0] += 1
    return _next[0]


class St(object):
    __slots__ = ('heap', 'signs', 'bf', 'temps', 'stack', 'g', 'ret', 'imp', 'log', 'curexc')

    def __init__(self):
        self.heap = {}
        self.signs = {}
        self.bf = {}
        self.temps = []
        self.stack = []
        self.g = {}        # ghosts: name -> Poly or hashable flag
        self.ret = None
        self.imp = frozenset()
        self.log = ()
        self.curexc = None

    def fork(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.signs = dict(self.signs)
        s.bf = dict(self.bf)
        s.temps = list(self.temps)
        s.stack = list(self.stack)
        s.g = dict(self.g)
        s.ret = self.ret
        s.imp = self.imp
        s.log = self.log
        s.curexc = self.curexc
        return s

    def cell(self, a):
        c = self.heap.get(a)
        if c is None:
            c = BASE[a]
        return c

    def put(self, a, c):
        self.heap[a] = c

    def alloc(self, c):
        a = new_addr()
        self.heap[a] = c
        return Ref(a)

    def blame(self, why):
        if why not in self.imp:
            self.imp = self.imp | frozenset([why])


# ------------------------------------------------------------- traversal
class Walker(object):
    """Canonical traversal of a state: skeleton and leaves."""

    def __init__(self, st, keeplit=2):
        self.st = st
        self.sk = []
        self.leaves = []
        self.index = {}
        self.queue = []
        self.keeplit = keeplit

    def addr(self, a):
        if a not in self.st.heap:
            return ('b', a)
        i = self.index.get(a)
        if i is None:
            i = self.index[a] = len(self.queue)
            self.queue.append(a)
        return i

    def val(self, v):
        sk = self.sk
        t = type(v)
        if t is Num:
            lit = v.lit and (self.keeplit == 2 or self.keeplit == 1 and v.dt == LI)
            sk.append(('N', v.dt, v.p if lit else None))
            self.leaves.append(v.p)
        elif t is Ref:
            sk.append(self.addr(v.a))
        elif t is BCmp:
            sk.append(('B', v.rel))
            self.leaves.append(v.d)
        elif t is TupV:
            sk.append(('T', len(v.items)))
            for x in v.items:
                self.val(x)
        elif t is FnV:
            sk.append(('F', v.code))
            sk.append(None if v.up is None else self.addr(v.up))
            for x in v.defs:
                self.val(x)
        elif t is Bound:
            sk.append('bound')
            self.val(v.fn)
            self.val(v.self)
        elif t is ExtM:
            sk.append(('M', v.name))
            self.val(v.recv)
        elif t is SliceV or t is RangeV:
            sk.append(t.__name__)
            self.val(v.a)
            self.val(v.b)
            self.val(v.s)
        elif t is SuperV:
            sk.append(('S', v.cls))
            self.val(v.self)
        elif t is PropV or t is MethV:
            sk.append(v)
        elif t is Top:
            sk.append('top')
        elif v is None:
            sk.append('-')
        else:
            sk.append(v)

    def cell(self, c):
        sk = self.sk
        t = type(c)
        sk.append(t.__name__)
        if t is FrameC:
            sk.append(c.code)
            sk.append(None if c.up is None else self.addr(c.up))
            for n in sorted(c.vars):
                sk.append(n)
                self.val(c.vars[n])
        elif t is InstC:
            sk.append(c.cls)
            for n in sorted(c.attrs):
                sk.append(n)
                self.val(c.attrs[n])
        elif t is ArrC:
            sk.append((len(c.dims), c.dt, c.prov, c.stored))
            self.leaves.append(c.form)
            self.leaves.extend(c.dims)
        elif t is ViewC:
            sk.append(self.addr(c.base))
            for l in c.letters:
                sk.append(l[:2])
                self.leaves.extend(x for x in l[2:] if isinstance(x, Poly))
            sk.append(len(c.dims))
            self.leaves.extend(c.dims)
        elif t is ListC or t is SetC:
            sk.append(len(c.items))
            for x in c.items:
                self.val(x)
        elif t is ListS:
            self.leaves.append(c.count)
            self.val(c.last)
        elif t is DictC:
            sk.append((c.open, len(c.items)))
            for k, v in c.items:
                self.val(k)
                self.val(v)
        elif t is MatC:
            sk.append(len(c.rows))
            for r in c.rows:
                sk.append(len(r))
                for x in r:
                    self.val(x)
        else:
            raise TypeError(t)

    def run(self):
        st = self.st
        sk = self.sk
        for a in st.stack:
            sk.append(self.addr(a))
        sk.append(len(st.temps))
        for v in st.temps:
            self.val(v)
        self.val(st.ret)
        for n in sorted(st.g):
            x = st.g[n]
            sk.append(n)
            if isinstance(x, (Poly, Form)):
                self.leaves.append(x)
            elif isinstance(x, Val):
                self.val(x)
            else:
                sk.append(x)
        # module cells that were modified are roots
        for a in sorted(x for x in st.heap if x in BASE):
            sk.append(('mod', a))
            self.addr(a)
        i = 0
        while i < len(self.queue):
            self.cell(st.heap[self.queue[i]])
            i += 1
        self.key = tuple(sk)
        return self


class Rebuilder(object):
    """Replays the traversal of a state with new leaves (same order)."""

    def __init__(self, st, walker, leaves):
        self.st = st
        self.w = walker
        self.it = iter(leaves)
        self.seen = set()
        self.queue = []

    def addr(self, a):
        if a in self.st.heap and a not in self.seen:
            self.seen.add(a)
            self.queue.append(a)

    def val(self, v):
        t = type(v)
        if t is Num:
            p = next(self.it)
            if p is v.p:
                return v
            return Num(p, v.dt, False)
        if t is Ref:
            self.addr(v.a)
            return v
        if t is BCmp:
            d = next(self.it)
            return v if d is v.d else BCmp(v.rel, d)
        if t is TupV:
            return TupV(tuple([self.val(x) for x in v.items]))
        if t is FnV:
            if v.up is not None:
                self.addr(v.up)
            return FnV(v.code, v.up, tuple([self.val(x) for x in v.defs]), v.kwdefs)
        if t is Bound:
            f = self.val(v.fn)
            return Bound(f, self.val(v.self))
        if t is ExtM:
            return ExtM(self.val(v.recv), v.name)
        if t is SliceV or t is RangeV:
            a = self.val(v.a)
            b = self.val(v.b)
            return t(a, b, self.val(v.s))
        if t is SuperV:
            return SuperV(v.cls, self.val(v.self))
        return v

    def cell(self, c):
        t = type(c)
        it = self.it
        if t is FrameC:
            if c.up is not None:
                self.addr(c.up)
            return FrameC(dict((n, self.val(c.vars[n])) for n in sorted(c.vars)), c.up, c.mod, c.code)
        if t is InstC:
            return InstC(c.cls, dict((n, self.val(c.attrs[n])) for n in sorted(c.attrs)))
        if t is ArrC:
            f = next(it)
            return ArrC(f, tuple([next(it) for _ in c.dims]), c.dt, c.prov, c.stored)
        if t is ViewC:
            self.addr(c.base)
            ls = tuple([l[:2] + tuple([next(it) if isinstance(x, Poly) else x for x in l[2:]]) for l in c.letters])
            return ViewC(c.base, ls, tuple([next(it) for _ in c.dims]))
        if t is ListC or t is SetC:
            return t(tuple([self.val(x) for x in c.items]))
        if t is ListS:
            n = next(it)
            return ListS(n, self.val(c.last))
        if t is DictC:
            out = []
            for k, v in c.items:
                k = self.val(k)
                out.append((k, self.val(v)))
            return DictC(tuple(out), c.open)
        if t is MatC:
            return MatC(tuple([tuple([self.val(x) for x in r]) for r in c.rows]))
        raise TypeError(t)

    def run(self):
        st = self.st
        for a in st.stack:
            self.addr(a)
        st.temps = [self.val(v) for v in st.temps]
        if st.ret is not None:
            st.ret = self.val(st.ret)
        for n in sorted(st.g):
            x = st.g[n]
            if isinstance(x, (Poly, Form)):
                st.g[n] = next(self.it)
            elif isinstance(x, Val):
                st.g[n] = self.val(x)
        for a in sorted(x for x in st.heap if x in BASE):
            self.addr(a)
        i = 0
        while i < len(self.queue):
            a = self.queue[i]
            st.heap[a] = self.cell(st.heap[a])
            i += 1
        # garbage: unreachable cells
        st.heap = dict((a, st.heap[a]) for a in self.queue)
        return st
