"""Models of builtin functions and of the external modules the library uses."""
import ast
import arrays as A
import dtypes as D
import signs as S
import terms as T
import models as M
from terms import *
from values import *

B = {}


def ext(*names):
    def deco(f):
        for n in names:
            B[n] = f
        return f
    return deco


class Bad(Exception):
    pass


def sig(I, st, node, name, args, kw, params, defaults=()):
    """Binds arguments to parameter names -> list, or None after raising."""
    n = len(params)
    if len(args) > n:
        I.throw(st, 'TypeError', '%s: too many arguments' % name, node)
        return None
    vals = dict(zip(params, args))
    for k in kw:
        if k not in params or k in vals:
            I.throw(st, 'TypeError', '%s: unexpected argument %r' % (name, k), node)
            return None
        vals[k] = kw[k]
    dd = dict(zip(params[n - len(defaults):], defaults))
    out = []
    for p in params:
        if p in vals:
            out.append(vals[p])
        elif p in dd:
            out.append(dd[p])
        else:
            I.throw(st, 'TypeError', '%s: missing argument %r' % (name, p), node)
            return None
    return out


def call_ext(I, st, path, args, kw, node):
    args = list(args)
    for v in args:
        if type(v) is Stale:
            I.event('stale', 'the value of %s from an earlier solve is used' % v.attr, st, node, v.attr)
    path = M.canon_ext(path)
    f = B.get(path)
    if f is not None:
        try:
            return f(I, st, args, kw, node, path)
        except Bad as e:
            return I.throw(st, 'TypeError', '%s: %s' % (path, e), node)
    from interp import BUILTIN_EXC
    if path in BUILTIN_EXC:
        return [(st, ExcV(path, ('raise', '', None)))]
    top = path.split('.')[0]
    if path.startswith('numpy.') and path[6:] in D.NAMES:
        return conv(I, st, args, kw, node, path)
    if path.startswith(('numpy.random.', 'random.', 'os.', 'warnings.', 'locale.', 'signal.', 'gc.', 'threading.',
                        'tempfile.', 'time.', 'sys.', 'numpy.set', 'logging.', 'contextlib.')):
        return effect(I, st, args, kw, node, path)
    if path.startswith('obj:'):
        I.havoc(st, args, 'call of ' + path)
        return [(st, I.top(st, path))]
    I.havoc(st, args + list(kw.values()), 'unmodelled function ' + path)
    return [(st, I.top(st, 'unmodelled function ' + path))]


PURE = {'os.path.join', 'os.path.exists', 'os.path.dirname', 'os.path.basename', 'os.path.isfile', 'os.path.isdir',
        'os.path.abspath', 'os.path.splitext', 'os.getcwd', 'os.getpid', 'sys.getsizeof', 'sys.exc_info',
        'sys.getrecursionlimit', 'os.listdir', 'os.environ.get', 'os.getenv', 'sys.exc_clear', 'warnings.warn',
        'logging.getLevelName', 'logging.Formatter', 'logging.StreamHandler', 'logging.getLogger', 'time.time', 'time.clock', 'time.process_time', 'time.perf_counter',
        'random.Random', 'sys.stdout.flush', 'sys.stderr.flush'}


def effect(I, st, args, kw, node, path):
    if path in PURE:
        return [(st, StrV() if path.startswith('os.') else I.top(st, path))]
    if not I.loading:
        I.event('deny', 'call of %s()' % path, st, node, path)
    return [(st, I.top(st, path))]


# ------------------------------------------------------------------ builtins
@ext('len')
def b_len(I, st, args, kw, node, path):
    (v,) = sig(I, st, node, 'len', args, kw, ['x']) or (None,)
    if v is None:
        return []
    if type(v) is Ref and type(st.cell(v.a)) is InstC:
        m = I.class_lookup(st.cell(v.a).cls, '__len__')
        if m is not None:
            return I.call(st, Bound(m, v), [], {}, node)
        return I.throw(st, 'TypeError', '%s has no len()' % M.tyname(I, st, v), node)
    p = M.length(I, st, v)
    if p is None:
        if type(v) in (Top, Stale) or type(v) is Ref:
            return [(st, I.top(st, 'len'))]
        return I.throw(st, 'TypeError', '%s has no len()' % M.tyname(I, st, v), node)
    return [(st, Num(p, LI, False))]


@ext('range', 'xrange')
def b_range(I, st, args, kw, node, path):
    if any(type(a) in (Top, Stale) for a in args):
        return [(st, I.top(st, 'range'))]
    nums = [M.asnum(a) for a in args]
    if any(a is None for a in nums) or not 1 <= len(nums) <= 3:
        return I.throw(st, 'TypeError', 'range(): bad arguments', node)
    if any(D.is_int(a.dt) is False for a in nums):
        return I.throw(st, 'TypeError', 'range(): integer expected', node)
    a, b, s = num(0), nums[0], num(1)
    if len(nums) >= 2:
        a, b = nums[0], nums[1]
    if len(nums) == 3:
        s = nums[2]
    r = RangeV(a, b, s)
    if path == 'range':
        it = M.items_of(I, st, r)
        if it is not None and len(it) <= 200:
            return [(st, st.alloc(ListC(tuple(it))))]
    return [(st, r)]


@ext('abs', 'numpy.abs', 'operator.abs')
def b_abs(I, st, args, kw, node, path):
    v = args[0]
    if type(v) in (Top, Stale):
        return [(st, Top('abs'))]
    if A.is_arr(st, v):
        d = A.dt(st, v)
        return [(st, A.new(st, fmul1('abs', A.form(st, v)), A.dims(st, v), M.redt(d)))]
    x = M.asnum(v)
    if x is None:
        if type(v) is Ref and type(st.cell(v.a)) is InstC:
            m = I.class_lookup(st.cell(v.a).cls, '__abs__')
            if m is not None:
                return I.call(st, Bound(m, v), [], {}, node)
        raise Bad('bad operand ' + M.tyname(I, st, v))
    s = S.sign(st, x.p)
    if s <= S.NN:
        return [(st, Num(x.p, M.redt(x.dt), x.lit))]
    if s <= S.NP and D.is_real(x.dt):
        return [(st, Num(pneg(x.p), x.dt, x.lit))]
    return [(st, Num(pabs(x.p), M.redt(x.dt), False))]


def is_size(p):
    return all(t.key[0] == 'dim' for m, c in p.t for t in [T._atom_list[a] for a, e in m])


@ext('max', 'min', 'numpy.maximum', 'numpy.minimum', 'numpy.max', 'numpy.min', 'numpy.fmax', 'numpy.fmin')
def b_max(I, st, args, kw, node, path):
    nm = path.split('.')[-1]
    ismax = nm in ('max', 'maximum', 'fmax')
    if 'key' in kw:
        return [(st, I.top(st, nm + ' with a key'))]
    vs = args
    if len(args) == 1 or path in ('numpy.max', 'numpy.min'):
        v = args[0]
        if A.is_arr(st, v):
            k = A.dims(st, v)[0].const() if len(A.dims(st, v)) == 1 else None
            if k is not None and 0 < k <= 40 and A.econst(A.form(st, v), k):
                es = [elem(A.form(st, v), pconst(i)) for i in range(int(k))]
                return [(st, Num(pmax(es) if nm == 'max' else pmin(es), D.weaken(A.dt(st, v)), False))]
            return [(st, Num(patom(atom('el' + nm, A.form(st, v))), D.weaken(A.dt(st, v)), False))]
        vs = M.items_of(I, st, v)
        if vs is None:
            if type(v) in (Num,):
                return [(st, v)] if path.startswith('numpy') else I.throw(st, 'TypeError', 'not iterable', node)
            return [(st, I.top(st, nm))]
        if not vs:
            return I.throw(st, 'ValueError', '%s() of an empty sequence' % nm, node)
    if any(type(v) in (Top, Stale) for v in vs):
        return [(st, Top(nm))]
    if any(A.is_arr(st, v) for v in vs):
        if len(vs) == 2 and path.startswith('numpy'):
            return A.elementwise(I, st, nm, vs[0], vs[1], node)
        return I.throw(st, 'ValueError', 'the truth value of an array is ambiguous', node)
    ns = [M.asnum(v) for v in vs]
    if any(x is None for x in ns):
        if all(type(v) is TupV or type(v) is Const for v in vs):
            return [(st, I.top(st, nm))]
        raise Bad('ordering of ' + ', '.join(M.tyname(I, st, v) for v in vs))
    # decided comparisons
    out = list(ns)
    ch = True
    while ch and len(out) > 1:
        ch = False
        for i in range(len(out)):
            for j in range(len(out)):
                if i != j:
                    s = S.sign(st, psub(out[i].p, out[j].p))
                    if (ismax and s <= S.NP) or (not ismax and s <= S.NN):
                        del out[i]
                        ch = True
                        break
            if ch:
                break
    d = D.promote([], [x.dt for x in ns])
    if len(out) == 1:
        return [(st, Num(out[0].p, out[0].dt if len(set(x.dt for x in ns)) > 1 else d, False))]
    if len(out) <= 3 and I.fork_sizes and all(is_size(x.p) for x in out):
        res = []
        for i, x in enumerate(out):
            b = st.fork()
            if all(S.assume(b, psub(x.p, y.p) if ismax else psub(y.p, x.p), frozenset('+') if j < i else frozenset('+0'))
                   for j, y in enumerate(out) if j != i):
                res.append((b, Num(x.p, d, False)))
        return res
    p = (pmax if ismax else pmin)([x.p for x in out])
    for x in out:
        a = psub(p, x.p)
        S.assume(st, a, (S.NN if ismax else S.NP) | frozenset('n'))
    return [(st, Num(p, d, False))]


@ext('sum', 'numpy.sum', 'math.fsum')
def b_sum(I, st, args, kw, node, path):
    v = args[0]
    if A.is_arr(st, v):
        f = A.form(st, v)
        k = A.dims(st, v)[0].const() if len(A.dims(st, v)) == 1 else None
        d = D.weaken(A.dt(st, v))
        if len(args) > 1 or kw:
            return [(st, I.top(st, 'sum'))]
        if k is not None and k <= 40 and A.econst(f, k):
            p = ZERO
            for i in range(int(k)):
                p = padd(p, elem(f, pconst(i)))
            return [(st, Num(p, d, False))]
        p = ZERO
        for (w, b), c in f.t:
            # sum of a componentwise product of conj(x) and y
            if b.key[0] == 'had' and not w:
                p = padd(p, pmul(c, dot(b.key[1], b.key[2])))
            elif w and w[0][0] == 'diag':
                p = padd(p, pmul(c, dot(fbase(w[0][1]), fbase(b, w[1:]))))
            else:
                p = padd(p, pmul(c, dot(A.ones(), fbase(b, w))))
        return [(st, Num(p, d, False))]
    items = M.items_of(I, st, v)
    start = args[1] if len(args) > 1 else kw.get('start', num(0))
    if items is None:
        if type(v) in (Top, Stale):
            return [(st, Top('sum'))]
        if type(v) is Ref and type(st.cell(v.a)) is ListS:
            l = st.cell(v.a).last
            if type(l) is Num:
                return [(st, Num(patom(fresh('phi', 'sum')), D.promote([], [l.dt, LI]), False))]
        return [(st, I.top(st, 'sum'))]
    cur = [(st, start)]
    for i, x in enumerate(items):
        nxt = []
        for s, acc in cur:
            nxt.extend(M.arith(I, s, '+', acc, x, node))
        cur = nxt
    return cur


@ext('map')
def b_map(I, st, args, kw, node, path):
    f = args[0]
    seqs = [M.items_of(I, st, a) for a in args[1:]]
    if any(s is None for s in seqs):
        if len(args) == 2:
            cnt, el = M.sym_items(I, st, args[1])
            if f == NONE:
                return [(st, st.alloc(ListS(cnt, el)))]
            return [(s, s.alloc(ListS(cnt, v))) for s, v in I.call(st, f, [el], {}, node)]
        st.blame('map over unknown sequences')
        return [(st, I.top(st, 'map'))]
    n = max(len(s) for s in seqs)
    cur = [(st, ())]
    for k in range(n):
        a = [s[k] if k < len(s) else NONE for s in seqs]
        nxt = []
        for s, acc in cur:
            if f == NONE:
                nxt.append((s, acc + (a[0] if len(a) == 1 else TupV(tuple(a)),)))
                continue
            s.temps.append(TupV(acc))
            for s2, v in I.call(s, f, a, {}, node):
                acc2 = s2.temps.pop().items
                nxt.append((s2, acc2 + (v,)))
        cur = nxt
    return [(s, s.alloc(ListC(acc))) for s, acc in cur]


@ext('filter')
def b_filter(I, st, args, kw, node, path):
    it = M.items_of(I, st, args[1])
    if it is None:
        return [(st, I.top(st, 'filter'))]
    cur = [(st, ())]
    for x in it:
        nxt = []
        for s, acc in cur:
            s.temps.append(TupV(acc))
            rs = [(s, x)] if args[0] == NONE else I.call(s, args[0], [x], {}, node)
            for s2, v in rs:
                for s3, b in I.truth(s2, v):
                    a = s3.temps.pop().items
                    nxt.append((s3, a + (x,) if b else a))
        cur = nxt
    return [(s, s.alloc(ListC(acc))) for s, acc in cur]


@ext('reduce')
def b_reduce(I, st, args, kw, node, path):
    it = M.items_of(I, st, args[1])
    if it is None:
        st.blame('reduce over an unknown sequence')
        return [(st, I.top(st, 'reduce'))]
    if len(args) > 2:
        it = [args[2]] + it
    if not it:
        return I.throw(st, 'TypeError', 'reduce() of an empty sequence', node)
    cur = [(st, it[0])]
    for x in it[1:]:
        nxt = []
        for s, acc in cur:
            nxt.extend(I.call(s, args[0], [acc, x], {}, node))
        cur = nxt
    return cur


@ext('zip')
def b_zip(I, st, args, kw, node, path):
    seqs = [M.items_of(I, st, a) for a in args]
    if any(s is None for s in seqs):
        st.blame('zip of unknown sequences')
        return [(st, I.top(st, 'zip'))]
    return [(st, st.alloc(ListC(tuple(TupV(t) for t in zip(*seqs)))))]


@ext('enumerate')
def b_enum(I, st, args, kw, node, path):
    it = M.items_of(I, st, args[0])
    if it is None:
        st.blame('enumerate of an unknown sequence')
        return [(st, I.top(st, 'enumerate'))]
    k0 = M.cint(args[1]) if len(args) > 1 else 0
    return [(st, st.alloc(ListC(tuple(TupV((num(i + (k0 or 0)), x)) for i, x in enumerate(it)))))]


@ext('list', 'tuple', 'set', 'frozenset', 'iter', 'sorted', 'reversed', 'itertools.chain', 'itertools.chain.from_iterable')
def b_list(I, st, args, kw, node, path):
    if not args:
        it = []
    elif path == 'itertools.chain' or path.endswith('from_iterable'):
        if path.endswith('from_iterable'):
            args = M.items_of(I, st, args[0]) or [Top('x')]
        parts = [M.items_of(I, st, a) for a in args]
        it = None if any(p is None for p in parts) else [x for p in parts for x in p]
    else:
        if type(args[0]) in (Num, OpV) or args[0] == NONE:
            raise Bad('%s is not iterable' % M.tyname(I, st, args[0]))
        it = M.items_of(I, st, args[0])
    if it is None:
        v = args[0]
        if type(v) is Ref and type(st.cell(v.a)) is ListS:
            return [(st, st.alloc(st.cell(v.a)))]
        if path == 'iter':
            return [(st, v)]
        if type(v) is RangeV and path == 'list':
            return [(st, v)]
        return [(st, I.top(st, path))]
    if path == 'tuple':
        return [(st, TupV(tuple(it)))]
    if path in ('set', 'frozenset'):
        out = []
        for x in it:
            if x not in out:
                out.append(x)
        return [(st, st.alloc(SetC(tuple(out))))]
    if path == 'reversed':
        it = it[::-1]
    if path == 'sorted':
        if kw:
            return [(st, I.top(st, 'sorted'))]
        ks = [x.v if type(x) is Const else M.cint(x) for x in it]
        if any(k is None for k in ks):
            return [(st, st.alloc(ListS(pconst(len(it)), Top('element'))))]
        it = [x for k, x in sorted(zip(ks, it), key=lambda kx: kx[0])]
        if kw.get('reverse') == TRUE:
            it = it[::-1]
    return [(st, st.alloc(ListC(tuple(it))))]


@ext('dict')
def b_dict(I, st, args, kw, node, path):
    items = ()
    if args:
        c = st.cell(args[0].a) if type(args[0]) is Ref else None
        if type(c) is DictC:
            items = c.items
        else:
            it = M.items_of(I, st, args[0])
            if it is None:
                return [(st, I.top(st, 'dict'))]
            for x in it:
                kv = M.items_of(I, st, x)
                if kv is None or len(kv) != 2:
                    return [(st, I.top(st, 'dict'))]
                items = M.dset(items, kv[0], kv[1])
    for k in kw:
        items = M.dset(items, Const(k), kw[k])
    return [(st, st.alloc(DictC(items, False)))]


@ext('any', 'all', 'numpy.any', 'numpy.all')
def b_any(I, st, args, kw, node, path):
    nm = path.split('.')[-1]
    v = args[0]
    if A.is_arr(st, v):
        return [(st, BSym((nm, A.form(st, v)), False))]
    it = M.items_of(I, st, v)
    if it is None:
        if type(v) in (BCmp, BSym) or v in (TRUE, FALSE):
            return [(st, v)]
        return [(st, I.top(st, nm))]
    cur, out = [st], []
    st.temps.append(TupV(tuple(it)))
    for k in range(len(it)):
        nxt = []
        for s in cur:
            for s2, b in I.truth(s, s.temps[-1].items[k]):
                if b == (nm == 'any'):
                    s2.temps.pop()
                    out.append((s2, TRUE if nm == 'any' else FALSE))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        s.temps.pop()
        out.append((s, FALSE if nm == 'any' else TRUE))
    return out


TYPES = {'int': 'i', 'long': 'i', 'float': 'f', 'complex': 'c', 'bool': 'b'}


def isinst(I, st, v, c):
    """TRUE / FALSE / None"""
    t = type(v)
    if t in (Top, Stale):
        return None
    if t is Ref and type(st.cell(v.a)) is InstC:
        if type(c) is Cls:
            return c.id in I.mro(st.cell(v.a).cls)
        if type(c) is Ext:
            return c.path == 'object' or c.path in I.exc_bases(st.cell(v.a).cls)
        return False
    if type(c) is Cls:
        if t is OpV:
            return I.classes[c.id].name in ('BaseLinearOperator', 'LinearOperator')
        if t is ExcV and isinstance(v.name, Cls):
            return c.id in I.mro(v.name.id)
        return False
    if type(c) is DT:
        return None if t is Num else False
    if type(c) is not Ext:
        return None
    p = c.path
    if p == 'object':
        return True
    if p.endswith(('Number', 'Real', 'Complex', 'Integral', 'numpy.number', 'numpy.generic')):
        if t is Num:
            if p.endswith('Integral'):
                return D.is_int(v.dt)
            return True
        return t in (BCmp, BSym) or v in (TRUE, FALSE)
    if p in TYPES:
        if v in (TRUE, FALSE) or t in (BCmp, BSym):
            return p in ('bool', 'int', 'long')
        if t is Num:
            k = D.is_int(v.dt)
            if p in ('int', 'long'):
                return k
            if p == 'bool':
                return False
            if p == 'float':
                if k is None:
                    return None
                return bool(not k and D.is_real(v.dt) is not False)
            return D.is_real(v.dt) is False
        return False
    if p in ('str', 'unicode', 'basestring', 'bytes', 'numpy.str_'):
        return t is StrV or (t is Const and isinstance(v.v, str))
    kinds = {'list': (ListC, ListS), 'dict': (DictC,), 'set': (SetC,), 'numpy.ndarray': (ArrC, ViewC, MatC),
             'numpy.matrix': (MatC,)}
    if p in kinds:
        return t is Ref and type(st.cell(v.a)) in kinds[p] or (p == 'list' and t is RangeV)
    if p == 'tuple':
        return t is TupV
    if p == 'slice':
        return t is SliceV
    if p.startswith('numpy.') and p[6:] in D.NAMES:
        return None if t is Num else False
    if t in (FnV, Bound, ExtM):
        return p.endswith(('FunctionType', 'MethodType', 'LambdaType'))
    return None if t in (Ext, DT) else False


@ext('isinstance')
def b_isinstance(I, st, args, kw, node, path):
    v, c = args
    cs = c.items if type(c) is TupV else (c,)
    rs = [isinst(I, st, v, x) for x in cs]
    if True in rs:
        return [(st, TRUE)]
    if None in rs:
        if type(v) is Num:
            return [(st, BSym(('isinst', tuple(sorted(v.dt)), repr(c)), False))]
        return [(st, I.top(st, 'isinstance'))]
    return [(st, FALSE)]


@ext('issubclass')
def b_issub(I, st, args, kw, node, path):
    v, c = args
    cs = c.items if type(c) is TupV else (c,)
    if type(v) is Cls and all(type(x) in (Cls, Ext) for x in cs):
        return [(st, Const(any(type(x) is Cls and x.id in I.mro(v.id) for x in cs)))]
    d = M.as_dt(I, st, v)
    if d is not None and all(type(x) is Ext for x in cs):
        rs = []
        for x in cs:
            nm = x.path.split('.')[-1]
            if nm == 'integer':
                rs.append(D.is_int(d) if d != frozenset(['b1']) else False)
            elif nm in ('complexfloating', 'complex'):
                r = D.is_real(d)
                rs.append(None if r is None else not r)
            elif nm in ('floating', 'inexact', 'number', 'generic'):
                k, r = D.is_int(d), D.is_real(d)
                if nm in ('number', 'generic'):
                    rs.append(True)
                elif nm == 'inexact':
                    rs.append(None if k is None else not k)
                else:
                    rs.append(None if None in (k, r) else (not k and r))
            else:
                rs.append(None)
        if True in rs:
            return [(st, TRUE)]
        if None not in rs:
            return [(st, FALSE)]
        return [(st, BSym(('subdt', tuple(sorted(d)), repr(cs)), False))]
    return [(st, I.top(st, 'issubclass'))]


B['numpy.issubdtype'] = b_issub


def quiet(I, fn):
    """Runs fn with exceptions collected apart -> (results, exceptions)."""
    I.sinks.append([])
    try:
        r = fn()
        return r, I.sinks[-1]
    finally:
        I.sinks.pop()


@ext('hasattr', 'getattr')
def b_getattr(I, st, args, kw, node, path):
    v, nm = args[0], args[1]
    if type(nm) is not Const:
        st.blame('attribute of unknown name')
        return [(st, I.top(st, path))]
    if type(v) in (Top,):
        return [(st, I.top(st, path))]
    deflt = len(args) > 2
    st.temps.extend(args[2:3])
    n0 = len(st.temps)
    ds = len(st.stack)
    r, ex = quiet(I, lambda: I.getattr(st, v, nm.v, node))
    out = []
    for s, x in r:
        if deflt:
            s.temps.pop()
        out.append((s, TRUE if path == 'hasattr' else x))
    for s, e in ex:
        if e.name == 'AttributeError' and (deflt or path == 'hasattr'):
            del s.stack[ds:]
            del s.temps[n0:]
            d = s.temps.pop() if deflt else None
            out.append((s, FALSE if path == 'hasattr' else d))
        else:
            I.sinks[-1].append((s, e))
    return out


@ext('setattr')
def b_setattr(I, st, args, kw, node, path):
    if type(args[1]) is not Const:
        st.blame('attribute of unknown name')
        return [(st, NONE)]
    return [(s, NONE) for s in I.setattr(st, args[0], args[1].v, args[2], node)]


@ext('type')
def b_type(I, st, args, kw, node, path):
    if len(args) != 1:
        st.blame('class made at run time')
        return [(st, I.top(st, 'type'))]
    v = args[0]
    if type(v) is Num:
        return [(st, DT(v.dt))]
    if type(v) is Ref and type(st.cell(v.a)) is InstC:
        return [(st, Cls(st.cell(v.a).cls))]
    if v == NONE:
        return [(st, Ext('NoneType'))]
    if v in (TRUE, FALSE) or type(v) in (BCmp, BSym):
        return [(st, Ext('bool'))]
    n = M.tyname(I, st, v)
    if n in ('ndarray', 'matrix'):
        return [(st, Ext('numpy.' + n))]
    if n in ('list', 'dict', 'tuple', 'str', 'set'):
        return [(st, Ext(n))]
    return [(st, Ext('type:' + n))]


@ext('str', 'repr', 'unicode', 'hex', 'oct', 'chr', 'format', 'ascii')
def b_str(I, st, args, kw, node, path):
    if path in ('str', 'repr') and args:
        v = args[0]
        if type(v) is Ref and type(st.cell(v.a)) is InstC:
            m = I.class_lookup(st.cell(v.a).cls, '__%s__' % path) or I.class_lookup(st.cell(v.a).cls, '__repr__')
            if m is not None:
                return [(s, StrV()) for s, x in I.call(st, Bound(m, v), [], {}, node)]
        if type(v) is Const and isinstance(v.v, str) and path == 'str':
            return [(st, v)]
        if path == 'str' and M.cint(v) is not None and type(v) is Num:
            return [(st, Const(str(M.cint(v))))]
    return [(st, StrV())]


@ext('int', 'float', 'complex', 'long')
def conv(I, st, args, kw, node, path):
    if path.startswith('numpy.'):
        e = D.NAMES[path[6:]]
        dt = frozenset([{0: '~b', 1: '~i', 2: '~f', 3: '~c'}[D.kind(e)]])
        if e in D.CONC and e not in ('b1', 'i8', 'f8', 'c16'):
            dt = frozenset([e])
    else:
        dt = {'int': LI, 'long': LI, 'float': LF, 'complex': LC}[path]
    if not args:
        return [(st, Num(ZERO, dt, False))]
    v = args[0]
    if type(v) in (Top, Stale):
        return [(st, Top(path))]
    if type(v) is StrV or (type(v) is Const and isinstance(v.v, str)):
        if type(v) is Const:
            try:
                return [(st, num(float(v.v), False) if path != 'int' else num(int(v.v), False))]
            except ValueError as e:
                return I.throw(st, 'ValueError', str(e), node)
        return [(st, Num(patom(fresh('s', 'parsed')), dt, False))]
    if A.is_arr(st, v):
        if all(d is ONE for d in A.dims(st, v)):
            v = Num(elem(A.form(st, v), ZERO), D.weaken(A.dt(st, v)), False)
        elif path.startswith('numpy.'):
            return M.arr_method(I, st, v, st.cell(v.a), 'astype', [Ext(path)], {}, node)
        else:
            raise Bad('only size-1 arrays can be converted')
    x = M.asnum(v)
    if x is None:
        raise Bad('bad argument %s' % M.tyname(I, st, v))
    k = D.kind(next(iter(dt)))
    if k < 3 and D.is_real(x.dt) is False:
        if path.startswith('numpy.'):
            M.cast(I, st, x.p, x.dt, frozenset(['f8']), node, path)
            return [(st, Num(patom(atom('re', x.p)), dt, False))]
        raise Bad("can't convert complex to %s" % path)
    p = x.p
    if len(args) == 2 and path == 'complex':
        y = M.asnum(args[1])
        p = padd(p, pmul(patom(atom('I')), y.p))
    if k == 1 and not S.is_intpoly(p):
        c = p.const()
        if c is not None:
            p = pconst(int(c))
        else:
            p = patom(atom('int', p))
    return [(st, Num(p, dt, False))]


@ext('bool', 'numpy.bool_')
def b_bool(I, st, args, kw, node, path):
    if not args:
        return [(st, FALSE)]
    v = args[0]
    if type(v) in (BCmp, BSym) or v in (TRUE, FALSE):
        return [(st, v)]
    return [(s, TRUE if b else FALSE) for s, b in I.truth(st, v)]


@ext('callable')
def b_callable(I, st, args, kw, node, path):
    v = args[0]
    if type(v) is Top:
        return [(st, I.top(st, 'callable'))]
    if type(v) is Ref:
        c = st.cell(v.a)
        return [(st, Const(type(c) is InstC and I.class_lookup(c.cls, '__call__') is not None))]
    return [(st, Const(type(v) in (FnV, Bound, Cls, Ext, ExtM, OpV, DT)))]


@ext('id', 'hash')
def b_id(I, st, args, kw, node, path):
    return [(st, Num(patom(fresh('s', 'id')), LI, False))]


@ext('print', 'sys.stdout.write', 'sys.stderr.write', 'sys.stdout.writelines', 'sys.stderr.writelines')
def b_print(I, st, args, kw, node, path):
    if not I.loading:
        I.event('print', 'output is written to a standard stream', st, node)
    return [(st, NONE)]


@ext('round', 'numpy.round', 'math.floor', 'math.ceil', 'numpy.floor', 'numpy.ceil', 'math.trunc')
def b_round(I, st, args, kw, node, path):
    v = args[0]
    nm = path.split('.')[-1]
    if A.is_arr(st, v):
        return [(st, A.new(st, fmul1(nm, A.form(st, v)), A.dims(st, v), A.dt(st, v)))]
    x = M.asnum(v)
    if x is None:
        return [(st, I.top(st, nm))]
    if S.is_intpoly(x.p):
        return [(st, Num(x.p, LF, False))]
    return [(st, Num(patom(atom('int', x.p, nm)), LF, False))]


@ext('slice')
def b_slice(I, st, args, kw, node, path):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return [(st, SliceV(*a))]


@ext('super')
def b_super(I, st, args, kw, node, path):
    return [(st, SuperV(args[0].id, args[1]))]


@ext('object.__init__')
def b_objinit(I, st, args, kw, node, path):
    if args or kw:
        if args and type(args[0]) is Ref and len(args) == 1 and not kw:
            return [(st, NONE)]
        return I.throw(st, 'TypeError', 'object.__init__() takes no arguments', node)
    return [(st, NONE)]


@ext('object')
def b_object(I, st, args, kw, node, path):
    return [(st, Ext('obj:object'))]


@ext('divmod')
def b_divmod(I, st, args, kw, node, path):
    out = []
    for s, q in M.arith(I, st, '//', args[0], args[1], node):
        for s2, r in M.arith(I, s, '%', args[0], args[1], node):
            out.append((s2, TupV((q, r))))
    return out


OPFN = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/t', 'floordiv': '//', 'mod': '%', 'pow': '**', 'neg': 'u-',
        'and_': '&', 'or_': '|', 'xor': '^', 'iadd': '+', 'isub': '-', 'imul': '*'}


def op_fn(I, st, args, kw, node, path):
    o = OPFN.get(path.split('.')[-1], path.split('.')[-1])
    if o == 'pow':
        o = '**'
    if o == 'u-':
        return M.unary(I, st, ast.USub(), args[0], node)
    return M.arith(I, st, o, args[0], args[1], node)


for _n in OPFN:
    B['operator.' + _n] = op_fn
B['pow'] = B['math.pow'] = op_fn


@ext('operator.itemgetter', 'operator.attrgetter')
def op_getter(I, st, args, kw, node, path):
    return [(st, I.top(st, path))]


@ext('locals', 'vars', 'dir', 'globals')
def b_dir(I, st, args, kw, node, path):
    if path == 'dir' and not args:
        return [(st, st.alloc(ListC(tuple(Const(n) for n in sorted(I.frame(st).vars) if n[0] != '.'))))]
    st.blame(path + '()')
    return [(st, I.top(st, path))]


@ext('next')
def b_next(I, st, args, kw, node, path):
    it = M.items_of(I, st, args[0])
    if it and type(st.cell(args[0].a) if type(args[0]) is Ref else None) is ListC:
        st.put(args[0].a, ListC(tuple(it[1:])))
        return [(st, it[0])]
    return [(st, I.top(st, 'next'))]


@ext('open', 'file', 'input', 'raw_input', 'exec', 'eval', 'execfile', 'exit', 'quit', 'delattr', '__import__', 'reload')
def b_effect(I, st, args, kw, node, path):
    if not I.loading:
        I.event('deny', 'call of %s()' % path, st, node, path)
    st.blame('call of ' + path)
    return [(st, I.top(st, path))]


@ext('copy.copy', 'copy.deepcopy')
def b_copy(I, st, args, kw, node, path):
    v = args[0]
    if A.is_arr(st, v):
        return [(st, A.new(st, A.form(st, v), A.dims(st, v), A.dt(st, v)))]
    if type(v) is Ref:
        return [(st, st.alloc(st.cell(v.a)))]
    return [(st, v)]


@ext('logging.getLogger')
def log_get(I, st, args, kw, node, path):
    return [(st, Ext('logger'))]


@ext('logging.NullHandler', 'logging.Handler', 'logging.StreamHandler', 'logging.Formatter')
def log_handler(I, st, args, kw, node, path):
    return [(st, Ext('loghandler'))]


for _n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'log', 'exception'):
    # the root logger's helpers configure the root logger
    pass


# ------------------------------------------------------------------ numpy: creation
def dims_arg(I, st, v, node, what):
    d = M.shape_of(I, st, v)
    if d is None:
        if type(v) in (Top, Stale):
            st.blame('array of unknown shape')
            return None
        I.throw(st, 'TypeError', '%s: bad shape %s' % (what, M.tyname(I, st, v)), node)
        return False
    for p in d:
        if S.sign(st, p) == S.NEG:
            I.throw(st, 'ValueError', '%s: negative dimensions' % what, node)
            return False
    return d


def dt_arg(I, st, v, default, node):
    """dtype argument -> dtype or None (unknown)"""
    if v is None or v == NONE:
        return default
    d = M.as_dt(I, st, v)
    if d is None:
        if type(v) is Ext and v.path == 'object':
            return 'object'
        st.blame('unknown dtype')
        return default
    return d


@ext('numpy.zeros', 'numpy.ones', 'numpy.empty')
def np_zeros(I, st, args, kw, node, path):
    kw = dict((k, v) for k, v in kw.items() if k != 'order')
    r = sig(I, st, node, path, args[:2], kw, ['shape', 'dtype'], [NONE])
    if r is None:
        return []
    d = dims_arg(I, st, r[0], node, path)
    if d is False:
        return []
    if type(r[1]) is Num:
        I.throw(st, 'TypeError', '%s: a number is not a data type' % path, node)
        return []
    if d is None:
        return [(st, I.top(st, path))]
    dt = dt_arg(I, st, r[1], frozenset(['f8']), node)
    if dt == 'object':
        k = [p.const() for p in d]
        if None in k or len(k) != 2:
            return [(st, I.top(st, 'object array'))]
        return [(st, st.alloc(MatC(tuple(tuple(NONE for _ in range(int(k[1]))) for _ in range(int(k[0]))))))]
    f = {'zeros': FZERO, 'ones': A.ones()}.get(path[6:])
    if f is None:
        f = fbase(fresh('junk'))
    return [(st, A.new(st, f, d, D.strong(dt)))]


@ext('numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.full_like')
def np_like(I, st, args, kw, node, path):
    v = args[0]
    if not A.is_arr(st, v):
        if type(v) is Num:
            return [(st, Num(ZERO if 'zeros' in path else ONE, v.dt, False))]
        return [(st, I.top(st, path))]
    dt = dt_arg(I, st, kw.get('dtype', args[1] if len(args) > 1 and 'full' not in path else None), A.dt(st, v), node)
    f = {'numpy.zeros_like': FZERO, 'numpy.ones_like': A.ones()}.get(path)
    if path == 'numpy.full_like':
        x = M.asnum(args[1])
        f = fscale(A.ones(), x.p) if x else None
    if f is None:
        f = fbase(fresh('junk'))
    return [(st, A.new(st, f, A.dims(st, v), dt))]


@ext('numpy.full')
def np_full(I, st, args, kw, node, path):
    r = sig(I, st, node, path, args, kw, ['shape', 'fill_value', 'dtype'], [NONE])
    if r is None:
        return []
    d = dims_arg(I, st, r[0], node, path)
    if d is False:
        return []
    x = M.asnum(r[1])
    if d is None or x is None:
        return [(st, I.top(st, path))]
    return [(st, A.new(st, fscale(A.ones(), x.p), d, dt_arg(I, st, r[2], D.strong(x.dt), node)))]


@ext('numpy.arange')
def np_arange(I, st, args, kw, node, path):
    kw = dict(kw)
    dt = kw.pop('dtype', None)
    if len(args) == 4:
        dt = args.pop()
    ns = [M.asnum(a) for a in args]
    if any(n is None for n in ns) or kw:
        return [(st, I.top(st, path))]
    a, b, s = ZERO, ns[0].p, ONE
    if len(ns) >= 2:
        a, b = ns[0].p, ns[1].p
    if len(ns) == 3:
        s = ns[2].p
    d = dt_arg(I, st, dt, D.strong(D.promote([], [n.dt for n in ns])), node)
    if a.const() is not None and b.const() is not None and s is ONE and b.const() - a.const() <= 60:
        f = FZERO
        n = max(int(b.const() - a.const()), 0)
        for i in range(n):
            f = fadd(f, fscale(fbase(ebase(pconst(i))), padd(a, pconst(i))))
        return [(st, A.new(st, f, (pconst(n),), d))]
    n = psub(b, a) if s is ONE else patom(fresh('len', 'arange'))
    return [(st, A.new(st, fbase(atom('arange', a, b, s)), (n,), d))]


@ext('numpy.linspace')
def np_linspace(I, st, args, kw, node, path):
    n = M.asnum(args[2]) if len(args) > 2 else num(50)
    return [(st, A.new(st, fbase(fresh('phi', 'lin')), (n.p,), frozenset(['f8'])))]


@ext('numpy.eye', 'numpy.identity')
def np_eye(I, st, args, kw, node, path):
    n = M.asnum(args[0])
    m = M.asnum(args[1]) if len(args) > 1 and path == 'numpy.eye' and args[1] != NONE else n
    if n is None or m is None:
        return [(st, I.top(st, path))]
    return [(st, A.new(st, fbase(atom('eye', n.p)), (n.p, m.p), dt_arg(I, st, kw.get('dtype'), frozenset(['f8']), node)))]


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy', 'numpy.asfortranarray',
     'numpy.atleast_1d', 'numpy.asarray_chkfinite')
def np_array(I, st, args, kw, node, path):
    kw = dict(kw)
    v = args[0] if args else kw.pop('a', kw.pop('object', NONE))
    dta = args[1] if len(args) > 1 else kw.pop('dtype', None)
    if dta == NONE:
        dta = None
    cp = kw.pop('copy', TRUE if path in ('numpy.array', 'numpy.copy') else FALSE)
    if type(v) in (Top, Stale):
        st.blame('array made of an unknown value')
        return [(st, I.top(st, path))]
    if A.is_arr(st, v):
        d = A.dt(st, v)
        t = d if dta is None else dt_arg(I, st, dta, d, node)
        if t == 'object':
            return [(st, I.top(st, 'object array'))]
        if cp == FALSE and t == d:
            return [(st, v)]
        return M.arr_method(I, st, v, st.cell(v.a), 'astype', [DT(t)], {'copy': cp}, node)
    x = M.asnum(v)
    if x is not None:
        d = D.strong(x.dt) if dta is None else dt_arg(I, st, dta, x.dt, node)
        return [(st, A.new(st, fscale(A.ones(), x.p), (), d))]
    items = M.seq(I, st, v)
    if items is None:
        items = M.items_of(I, st, v)
    if items is None:
        if type(v) is Ref and type(st.cell(v.a)) is ListS:
            l = st.cell(v.a)
            d = D.strong(l.last.dt) if type(l.last) is Num else frozenset(['f8'])
            return [(st, A.new(st, fbase(fresh('phi', 'list')), (l.count,), dt_arg(I, st, dta, d, node)))]
        if type(v) is Ref and type(st.cell(v.a)) is MatC:
            return [(st, st.alloc(st.cell(v.a)))]
        st.blame('array made of %s' % M.tyname(I, st, v))
        return [(st, I.top(st, path))]
    if items and M.seq(I, st, items[0]) is not None:
        rows = [M.seq(I, st, r) for r in items]
        if all(r is not None and all(type(x) is Num for x in r) for r in rows) and len(set(map(len, rows))) == 1:
            f = FZERO
            dts = []
            for i, r in enumerate(rows):
                for j, x in enumerate(r):
                    dts.append(x.dt)
            d = D.strong(D.promote([], dts))
            b = atom('rows', tuple(tuple(x.p for x in r) for r in rows))
            return [(st, A.new(st, fbase(b), (pconst(len(rows)), pconst(len(rows[0]))), dt_arg(I, st, dta, d, node)))]
        if all(r is not None for r in rows):
            return [(st, st.alloc(MatC(tuple(tuple(r) for r in rows))))]
        st.blame('nested array')
        return [(st, I.top(st, path))]
    r = M.to_array(I, st, v)
    if r is None:
        if any(type(x) is Ref or type(x) is OpV for x in items):
            if all(A.is_arr(st, x) for x in items):
                return [(st, A.new(st, fbase(fresh('phi', 'stack')), (pconst(len(items)),) + tuple(A.dims(st, items[0])),
                                   D.promote([A.dt(st, x) for x in items])))]
            return [(st, st.alloc(MatC((tuple(items),))))]
        st.blame('array of unknown elements')
        return [(st, I.top(st, path))]
    if dta is not None:
        t = dt_arg(I, st, dta, A.dt(st, r), node)
        c = st.cell(r.a)
        if t != 'object':
            M.cast(I, st, None, c.dt, t, node, path) if items else None
            st.put(r.a, c.replace(dt=t))
    return [(st, r)]


@ext('numpy.matrix', 'numpy.asmatrix', 'numpy.mat')
def np_matrix(I, st, args, kw, node, path):
    v = args[0]
    if type(v) is Ref and type(st.cell(v.a)) is MatC:
        return [(st, st.alloc(st.cell(v.a)))]
    if A.is_arr(st, v):
        return [(st, A.alias(st, v, A.dims(st, v)))]
    items = M.seq(I, st, v)
    if items is None:
        st.blame('matrix of an unknown value')
        return [(st, I.top(st, path))]
    rows = [M.seq(I, st, r) for r in items]
    if any(r is None for r in rows):
        rows = [items]
    if len(set(map(len, rows))) > 1:
        return I.throw(st, 'ValueError', 'matrix must be 2-dimensional', node)
    return [(st, st.alloc(MatC(tuple(tuple(r) for r in rows))))]


@ext('numpy.concatenate', 'numpy.hstack', 'numpy.append')
def np_concat(I, st, args, kw, node, path):
    parts = M.seq(I, st, args[0]) if path != 'numpy.append' else list(args[:2])
    if parts is None or not all(A.is_arr(st, p) for p in parts) or not all(len(A.dims(st, p)) == 1 for p in parts):
        st.blame(path)
        return [(st, I.top(st, path))]
    at = ZERO
    f = FZERO
    if len(parts) == 1:
        return [(st, A.new(st, A.form(st, parts[0]), A.dims(st, parts[0]), A.dt(st, parts[0])))]
    for p in parts:
        n = A.dims(st, p)[0]
        f = fadd(f, fapply(('scat', 'sl', at, padd(at, n)), A.form(st, p)))
        at = padd(at, n)
    return [(st, A.new(st, f, (at,), D.promote([A.dt(st, p) for p in parts])))]


# ------------------------------------------------------------------ numpy: products, norms
def arrarg(I, st, v):
    if A.is_arr(st, v):
        return v
    if type(v) is Ref and type(st.cell(v.a)) is ListC or type(v) is TupV:
        return M.to_array(I, st, v)
    return None


@ext('numpy.dot', 'numpy.vdot', 'numpy.matmul')
def np_dot(I, st, args, kw, node, path):
    r = sig(I, st, node, path, args, kw, ['a', 'b'])
    if r is None:
        return []
    a, b = r
    if type(a) in (Top, Stale) or type(b) in (Top, Stale):
        return [(st, Top('dot with an unknown value'))]
    if type(a) is Num or type(b) is Num:
        return M.arith(I, st, '*', a, b, node)
    x, y = arrarg(I, st, a), arrarg(I, st, b)
    if x is None or y is None:
        for v in (a, b):
            if type(v) is OpV or (type(v) is Ref and type(st.cell(v.a)) is InstC):
                st.blame('numpy.dot of an operator')
                return [(st, I.top(st, path))]
        raise Bad('bad argument')
    if path == 'numpy.vdot' and not (D.is_real(A.dt(st, x)) or (D.is_real(A.dt(st, x)) is None and I.assume_real)):
        x = A.new(st, fconj(A.form(st, x)), A.dims(st, x), A.dt(st, x))
    return A.npdot(I, st, x, y, node)


@ext('numpy.outer')
def np_outer(I, st, args, kw, node, path):
    x, y = [arrarg(I, st, a) for a in args]
    return [(st, A.new(st, fbase(atom('outer', A.form(st, x), A.form(st, y))), (A.dims(st, x)[0], A.dims(st, y)[0]),
                       D.promote([A.dt(st, x), A.dt(st, y)])))]


@ext('numpy.linalg.norm')
def np_norm(I, st, args, kw, node, path):
    r = sig(I, st, node, path, args, kw, ['x', 'ord', 'axis'], [NONE, NONE])
    if r is None:
        return []
    v = r[0]
    if type(v) in (Top, Stale):
        return [(st, Top('norm'))]
    x = arrarg(I, st, v)
    if x is None:
        if type(v) is Num:
            return b_abs(I, st, [v], {}, node, 'abs')
        raise Bad('norm of ' + M.tyname(I, st, v))
    d = D.weaken(M.redt(A.dt(st, x)))
    if D.is_int(d):
        d = LF
    f = A.form(st, x)
    if r[1] != NONE and not (type(r[1]) is Num and r[1].p.const() == 2 and len(A.dims(st, x)) == 1):
        return [(st, Num(pabs(patom(atom('norm?', f, repr(r[1])))), d, False))]
    k = A.dims(st, x)[0].const() if len(A.dims(st, x)) == 1 else None
    if k is not None and k <= 6 and A.econst(f, k):
        p = ZERO
        for i in range(int(k)):
            e = elem(f, pconst(i))
            p = padd(p, pmul(e, e) if D.is_real(A.dt(st, x)) is not False else pmul(pabs(e), pabs(e)))
        return [(st, Num(sqrt(p), d, False))]
    return [(st, Num(norm(f), d, False))]


@ext('numpy.linalg.solve')
def np_solve(I, st, args, kw, node, path):
    x, y = [arrarg(I, st, a) for a in args[:2]]
    if x is None or y is None:
        return [(st, I.top(st, path))]
    d = D.promote([A.dt(st, x), A.dt(st, y), frozenset(['f8'])])
    s2 = st.fork()
    s2.imp = s2.imp
    return [(st, A.new(st, fbase(atom('solve', A.form(st, x), A.form(st, y))), A.dims(st, y), d))]


# ------------------------------------------------------------------ numpy and math: scalar functions
def scalar_fn(I, st, v, node, name, pf, kindmin=2):
    if type(v) in (Top, Stale):
        return [(st, Top(name))]
    if A.is_arr(st, v):
        d = D.promote([A.dt(st, v)], [LF])
        return [(st, A.new(st, fmul1(name, A.form(st, v)), A.dims(st, v), d))]
    x = M.asnum(v)
    if x is None:
        raise Bad('bad argument ' + M.tyname(I, st, v))
    return [(st, Num(pf(x.p), D.promote([], [x.dt, LF]), False))]


@ext('numpy.sqrt', 'math.sqrt')
def f_sqrt(I, st, args, kw, node, path):
    v = args[0]
    x = M.asnum(v)
    if path == 'math.sqrt':
        if A.is_arr(st, v) and all(d is ONE for d in A.dims(st, v)):
            x = v = Num(elem(A.form(st, v), ZERO), LF, False)
        if x is not None:
            if D.is_real(x.dt) is False:
                raise Bad("can't convert complex to float")
            s = S.sign(st, x.p)
            if s == S.NEG:
                return I.throw(st, 'ValueError', 'math domain error', node)
            I.on_domain(st, 'sqrt', x.p, s, node)
    if x is not None and S.sign(st, x.p) <= S.NN:
        r = x.p
        # sqrt(q^2) = |q|
        if len(r.t) == 1:
            (m, c), = r.t
            if c == 1 and m and all(e % 2 == 0 for a, e in m):
                q = mkpoly({tuple((a, e // 2) for a, e in m): Fraction(1)})
                s = S.sign(st, q)
                return [(st, Num(q if s <= S.NN else pabs(q), D.promote([], [x.dt, LF]), False))]
    r = scalar_fn(I, st, v, node, 'sqrt', sqrt)
    if x is not None and r:
        s2, val = r[0]
        s = S.sign(s2, x.p)
        if s <= frozenset('+') or s == S.ZER:
            S.assume(s2, val.p, s)
    return r


def _fn(name):
    def f(I, st, args, kw, node, path):
        return scalar_fn(I, st, args[0], node, name, lambda p: patom(atom('fn_' + name, p)))
    return f


for _n in ('log', 'log10', 'exp', 'sin', 'cos', 'tan', 'arctan', 'log2', 'log1p', 'expm1', 'cosh', 'sinh', 'tanh'):
    B['numpy.' + _n] = B['math.' + _n] = _fn(_n)


@ext('numpy.sign', 'numpy.square', 'numpy.negative', 'numpy.positive', 'numpy.reciprocal')
def np_un(I, st, args, kw, node, path):
    v = args[0]
    nm = path[6:]
    if 'out' in kw or len(args) > 1:
        return ufunc(I, st, args, kw, node, path)
    if nm == 'square':
        return M.arith(I, st, '*', v, v, node)
    if nm == 'negative':
        return M.unary(I, st, ast.USub(), v, node)
    if nm == 'positive':
        return [(st, v)]
    if A.is_arr(st, v):
        return [(st, A.new(st, fmul1(nm, A.form(st, v)), A.dims(st, v), A.dt(st, v)))]
    x = M.asnum(v)
    if x is None:
        return [(st, I.top(st, nm))]
    if nm == 'reciprocal':
        return [(st, Num(pdiv(ONE, x.p), x.dt, False))]
    s = S.sign(st, x.p)
    if len(s) == 1 and s <= S.ALL:
        return [(st, Num(pconst({'-': -1, '0': 0, '+': 1}[next(iter(s))]), x.dt, False))]
    return [(st, Num(patom(atom('sgn', x.p)), x.dt, False))]


@ext('math.copysign', 'numpy.copysign')
def f_copysign(I, st, args, kw, node, path):
    x, y = M.asnum(args[0]), M.asnum(args[1])
    if x is None or y is None:
        return [(st, I.top(st, path))]
    s = S.sign(st, y.p)
    a = pabs(x.p) if not S.sign(st, x.p) <= S.NN else x.p
    if s == S.POS:
        return [(st, Num(a, LF, False))]
    if s == S.NEG:
        return [(st, Num(pneg(a), LF, False))]
    if 'n' in s:
        return [(st, Num(patom(atom('copysign', a, y.p)), LF, False))]
    out = []
    for rel, v in ((S.NEG, pneg(a)), (S.POS, a), (S.ZER, a), (S.ZER, pneg(a))):
        # a zero may carry either sign
        s2 = st.fork()
        if S.assume(s2, y.p, rel):
            out.append((s2, Num(v, LF, False)))
    return out


@ext('math.hypot', 'numpy.hypot')
def f_hypot(I, st, args, kw, node, path):
    x, y = M.asnum(args[0]), M.asnum(args[1])
    if x is None or y is None:
        return [(st, I.top(st, path))]
    return [(st, Num(sqrt(padd(pmul(x.p, x.p), pmul(y.p, y.p))), LF, False))]


@ext('math.isnan', 'numpy.isnan', 'numpy.isfinite', 'numpy.isinf', 'math.isinf', 'math.isfinite')
def f_isnan(I, st, args, kw, node, path):
    v = args[0]
    nm = path.split('.')[-1]
    if A.is_arr(st, v):
        return [(st, A.new(st, fmul1(nm, A.form(st, v)), A.dims(st, v), frozenset(['b1'])))]
    x = M.asnum(v)
    if x is None:
        return [(st, I.top(st, nm))]
    if not S.NAN[0]:
        return [(st, BSym((nm, x.p), False))]
    s = S.sign(st, x.p)
    if nm == 'isnan':
        return [(st, I.bval(st, frozenset('n'), x.p))]
    return [(st, BSym((nm, x.p), False))]


@ext('numpy.real', 'numpy.imag')
def np_real(I, st, args, kw, node, path):
    v = args[0]
    if A.is_arr(st, v):
        return [(st, M.realpart(I, st, v, path[6:]))]
    x = M.asnum(v)
    if x is None:
        return [(st, I.top(st, path))]
    return [(st, M.num_re(I, x) if path == 'numpy.real' else M.num_im(I, x))]


@ext('numpy.conjugate')
def np_conj(I, st, args, kw, node, path):
    v = args[0]
    if A.is_arr(st, v):
        return M.arr_method(I, st, v, st.cell(v.a), 'conjugate', [], {}, node)
    x = M.asnum(v)
    if x is None:
        return [(st, I.top(st, path))]
    return [(st, M.num_conj(I, x))]


UF = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/t', 'floor_divide': '//',
      'power': '**', 'remainder': '%', 'mod': '%'}


def ufunc(I, st, args, kw, node, path):
    nm = path[6:]
    o = UF.get(nm)
    out = kw.get('out')
    if nm in ('square', 'negative'):
        ins, rest = args[:1], args[1:]
    else:
        ins, rest = args[:2], args[2:]
    if rest:
        out = rest[0]
    if type(out) is TupV:
        out = out.items[0]
    if nm == 'square':
        r = M.arith(I, st, '*', ins[0], ins[0], node)
    elif nm == 'negative':
        r = M.unary(I, st, ast.USub(), ins[0], node)
    else:
        if o == '/':
            o = '/t'
        r = M.arith(I, st, o, ins[0], ins[1], node)
    if out is None or out == NONE:
        return r
    res = []
    for s, v in r:
        if not A.is_arr(s, out):
            s.blame('ufunc with an unknown output')
            res.append((s, v))
            continue
        if A.is_arr(s, v):
            A.write(I, s, out, A.form(s, v), A.dt(s, v), node)
        elif type(v) is Num:
            A.write(I, s, out, fscale(A.ones(), v.p), v.dt, node)
        else:
            A.write(I, s, out, fbase(fresh('phi', 'unknown')), None, node)
            s.blame('ufunc on unknown values')
        res.append((s, out))
    return res


for _n in UF:
    B['numpy.' + _n] = ufunc


# ------------------------------------------------------------------ numpy: types and the rest
@ext('numpy.isscalar')
def np_isscalar(I, st, args, kw, node, path):
    v = args[0]
    t = type(v)
    if t in (Top, Stale):
        return [(st, I.top(st, 'isscalar'))]
    return [(st, Const(t in (Num, BCmp, BSym, StrV) or v in (TRUE, FALSE) or (t is Const and isinstance(v.v, str))))]


@ext('numpy.result_type', 'numpy.promote_types', 'numpy.find_common_type', 'numpy.common_type')
def np_rt(I, st, args, kw, node, path):
    if path == 'numpy.find_common_type':
        ls = [M.seq(I, st, a) for a in args]
        if any(l is None for l in ls):
            return [(st, I.top(st, path))]
        vs = [x for l in ls for x in l]
    else:
        vs = args
    arrs, scs = [], []
    for v in vs:
        if A.is_arr(st, v):
            arrs.append(A.dt(st, v))
        elif type(v) is Num:
            scs.append(v.dt)
        elif v in (TRUE, FALSE):
            scs.append(LB)
        else:
            d = M.as_dt(I, st, v)
            if d is None:
                if type(v) in (Top, Stale):
                    return [(st, I.top(st, path))]
                raise Bad('data type not understood')
            arrs.append(d)
    return [(st, DT(D.strong(D.promote(arrs, scs))))]


@ext('numpy.dtype')
def np_dtype(I, st, args, kw, node, path):
    d = M.as_dt(I, st, args[0]) if args else None
    if d is None:
        if args and args[0] == NONE:
            return [(st, DT(frozenset(['f8'])))]
        return [(st, I.top(st, path))]
    return [(st, DT(d))]


@ext('numpy.can_cast')
def np_cancast(I, st, args, kw, node, path):
    def dd(v):
        if A.is_arr(st, v):
            return A.dt(st, v)
        return v.dt if type(v) is Num else M.as_dt(I, st, v)
    a, b = dd(args[0]), dd(args[1])
    if a is None or b is None:
        return [(st, I.top(st, path))]
    if all(e in D.CONC for e in a | b):
        return [(st, Const(D.fits(a, b) is True))]
    return [(st, BSym(('cancast', tuple(sorted(a)), tuple(sorted(b))), False))]


@ext('numpy.iscomplexobj', 'numpy.isrealobj')
def np_isc(I, st, args, kw, node, path):
    v = args[0]
    d = A.dt(st, v) if A.is_arr(st, v) else v.dt if type(v) is Num else None
    if d is None and type(v) is OpV:
        d = I.ops[v.name]['dt']
    if d is None:
        return [(st, I.top(st, path))]
    r = D.is_real(d)
    if r is None:
        return [(st, BSym(('isreal', tuple(sorted(d))), path == 'numpy.iscomplexobj'))]
    return [(st, Const(r if path == 'numpy.isrealobj' else not r))]


@ext('numpy.finfo')
def np_finfo(I, st, args, kw, node, path):
    d = M.as_dt(I, st, args[0])
    if d is None and type(args[0]) is Num:
        d = args[0].dt
    return [(st, Ext('finfo:' + (A.sdt(d) if d else 'f8')))]


@ext('numpy.shape', 'numpy.size', 'numpy.ndim')
def np_shape(I, st, args, kw, node, path):
    nm = path[6:]
    if type(args[0]) in (Num,):
        return [(st, {'shape': TupV(()), 'size': num(1), 'ndim': num(0)}[nm])]
    if type(args[0]) in (Top, Stale):
        return [(st, I.top(st, path))]
    return I.getattr(st, args[0], nm, node)


@ext('numpy.array_equal', 'numpy.allclose', 'numpy.isclose')
def np_aeq(I, st, args, kw, node, path):
    return [(st, BSym((path, fresh('s', 'c').id), False))]


@ext('numpy.reshape', 'numpy.ravel', 'numpy.transpose', 'numpy.squeeze', 'numpy.mean', 'numpy.prod', 'numpy.cumsum',
     'numpy.trace', 'numpy.argmax', 'numpy.argmin', 'numpy.nonzero', 'numpy.clip', 'numpy.std', 'numpy.var', 'numpy.where',
     'numpy.repeat', 'numpy.take')
def np_misc(I, st, args, kw, node, path):
    nm = path[6:]
    v = args[0]
    if nm in ('reshape', 'ravel', 'transpose', 'squeeze') and A.is_arr(st, v):
        return M.arr_method(I, st, v, st.cell(v.a), nm, args[1:], kw, node)
    if nm == 'prod':
        it = M.items_of(I, st, v)
        if it is not None and all(type(x) is Num for x in it):
            p = ONE
            for x in it:
                p = pmul(p, x.p)
            return [(st, Num(p, D.promote([], [x.dt for x in it] or [LI]), False))]
    if A.is_arr(st, v) and nm in ('mean', 'prod', 'argmax', 'argmin', 'trace', 'std', 'var'):
        d = LI if nm.startswith('arg') else D.promote([], [D.weaken(A.dt(st, v)), LF])
        return [(st, Num(patom(atom('el' + nm, A.form(st, v))), d, False))]
    if A.is_arr(st, v) and nm in ('clip', 'cumsum'):
        return [(st, A.new(st, fmul1(nm, A.form(st, v)), A.dims(st, v), A.dt(st, v)))]
    if nm == 'where' and len(args) == 3:
        arrs = [x for x in args if A.is_arr(st, x)]
        if arrs:
            ds = [A.dt(st, x) for x in args[1:] if A.is_arr(st, x)]
            return [(st, A.new(st, fbase(fresh('phi', 'where')), A.dims(st, arrs[0]),
                               D.promote(ds, [x.dt for x in args[1:] if type(x) is Num])))]
    return [(st, I.top(st, path))]


@ext('numpy.errstate')
def np_errstate(I, st, args, kw, node, path):
    return [(st, Ext('ctx:errstate'))]


@ext('numpy.random.RandomState', 'numpy.random.default_rng')
def np_rng(I, st, args, kw, node, path):
    return [(st, Ext('rng'))]


@ext('numpy.copyto')
def np_copyto(I, st, args, kw, node, path):
    return [(s, NONE) for s in M.setitem(I, st, args[0], SliceV(NONE, NONE, NONE), args[1], node)]


@ext('numpy.put', 'numpy.fill_diagonal', 'numpy.random.shuffle')
def np_put(I, st, args, kw, node, path):
    if A.is_arr(st, args[0]):
        A.write(I, st, args[0], fbase(fresh('phi', 'put')), None, node)
    return [(st, NONE)]


@ext('functools.partial')
def f_partial(I, st, args, kw, node, path):
    st.blame('functools.partial')
    return [(st, I.top(st, path))]
