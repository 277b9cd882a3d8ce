"""Models of builtins, operators on values, containers and external functions."""
import ast
import builtins as _pyb
import importlib

import arrays as A
import dtypes as D
import signs as S
import terms as T
from terms import *
from values import *

PY2ONLY = {'xrange', 'reduce', 'unicode', 'basestring', 'long', 'raw_input', 'cmp', 'unichr', 'file', 'apply',
           'execfile', 'reload', 'coerce', 'intern', 'buffer'}
PY3ONLY = {'ascii', 'breakpoint', 'exec', '__build_class__'}

PYTYPES = {'int': 'i8', 'float': 'f8', 'complex': 'c16', 'bool': 'b1', 'long': 'i8'}


def setup(I):
    I.import_errors = {}
    I.module_events = []
    I.forked_modules = set()


def builtin(name):
    if name in ('True', 'False', 'None'):
        return Const({'True': True, 'False': False, 'None': None}[name])
    if name in PY2ONLY or (hasattr(_pyb, name) and name not in PY3ONLY):
        if name == 'NotImplemented':
            return Ext('NotImplemented')
        if name == 'Ellipsis':
            return Const(Ellipsis)
        return Ext(name)
    if name == 'StandardError':
        return Ext(name)
    return None


# ------------------------------------------------------------------ externals
_extmods = {}


def real_module(path):
    if path not in _extmods:
        try:
            p = {'__builtin__': 'builtins'}.get(path, path)
            _extmods[path] = importlib.import_module(p)
        except Exception:
            _extmods[path] = None
    return _extmods[path]


def ext_module(path):
    return real_module(path) is not None


def ext_names(path):
    m = real_module(path)
    return getattr(m, '__all__', [n for n in dir(m) if not n.startswith('_')])


def resolve(path):
    """Python object behind a dotted external path, or None."""
    parts = path.split('.')
    for i in range(len(parts), 0, -1):
        m = real_module('.'.join(parts[:i]))
        if m is not None:
            o = m
            for x in parts[i:]:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if not hasattr(o, x):
                        return None
                    o = getattr(o, x)
            return o
    return None


CONSTS = {'pi', 'e', 'inf', 'Inf', 'infty', 'nan', 'NaN', 'NAN', 'tau', 'euler_gamma', 'PINF', 'NINF', 'Infinity'}


def ext_attr(path, name):
    """Value of attribute name of the external object path, or None."""
    full = path + '.' + name
    if path in ('numpy', 'math', 'cmath') and name in CONSTS:
        o = resolve(full)
        if o is None:
            return None
        if o == o and o not in (float('inf'), float('-inf')):
            return Num(patom(atom('eps', name)) if name in ('pi', 'e', 'tau') else pconst(o), LF, False)
        return Num(pconst(float(o)), LF, False)
    if full in ('numpy.newaxis',):
        return NONE
    if full == 'sys.float_info':
        return Ext('finfo:f8')
    if full in ('sys.maxint', 'sys.maxsize'):
        return Num(pconst(2 ** 63 - 1), LI, False)
    if full == 'sys.version_info':
        return TupV((num(2), num(7), num(18)))
    if full in ('sys.platform', 'sys.version', 'numpy.__version__', 'os.sep'):
        return StrV()
    if full in ('numpy.float128', 'numpy.complex256', 'numpy.longdouble', 'numpy.clongdouble'):
        return Ext(canon_ext(full))
    if path.split('.')[0] in ('numpy', 'math', 'logging', 'sys', 'os', 'itertools', 'time', 'warnings', 'functools',
                              'operator', 'random', 'copy', 'string', 'types', 're', 'collections', 'contextlib',
                              'cmath', 'numbers', 'builtins', '__builtin__', 'scipy', 'locale', 'signal', 'gc',
                              'threading', 'decimal', 'tempfile', 'io'):
        if path.startswith('itertools') and name in ('izip', 'imap', 'ifilter'):
            return Ext({'izip': 'zip', 'imap': 'map', 'ifilter': 'filter'}[name])
        if resolve(full) is None and full not in ('sys.stdout', 'sys.stderr'):
            return None
        return Ext(canon_ext(full))
    return Ext(full)


ALIASES = {
    'numpy.absolute': 'numpy.abs', 'numpy.fabs': 'numpy.abs', 'numpy.conj': 'numpy.conjugate',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.core.umath.sqrt': 'numpy.sqrt',
    'numpy.float': 'float', 'numpy.int': 'int', 'numpy.complex': 'complex', 'numpy.bool': 'bool',
    'numpy.float_': 'numpy.float64', 'numpy.double': 'numpy.float64', 'numpy.int_': 'numpy.int64',
    'numpy.intp': 'numpy.int64', 'numpy.long': 'int', 'numpy.complex_': 'numpy.complex128',
    'numpy.cdouble': 'numpy.complex128', 'numpy.cfloat': 'numpy.complex128', 'numpy.intc': 'numpy.int32',
    'numpy.uint': 'numpy.uint64', 'numpy.single': 'numpy.float32', 'numpy.half': 'numpy.float16',
    'numpy.longdouble': 'numpy.float128', 'numpy.clongdouble': 'numpy.complex256', 'numpy.csingle': 'numpy.complex64',
    'numpy.bool8': 'numpy.bool_', 'numpy.object': 'object', 'numpy.str': 'str', 'numpy.true_divide': 'numpy.divide',
    'numpy.inner': 'numpy.dot', 'numpy.random.random': 'numpy.random.random', 'numpy.around': 'numpy.round',
    'builtins.abs': 'abs', 'builtins.max': 'max', 'builtins.min': 'min', 'numpy.power': 'numpy.power',
    'operator.div': 'operator.truediv', 'functools.reduce': 'reduce', 'numpy.linalg.linalg.norm': 'numpy.linalg.norm',
    'math.fabs': 'abs', 'numpy.concatenate': 'numpy.concatenate',
}


def canon_ext(p):
    return ALIASES.get(p, p)


def as_dt(I, st, v):
    """dtype denoted by a value, or None."""
    t = type(v)
    if t is DT:
        return v.dt
    if t is Ext:
        p = v.path
        if p in PYTYPES:
            return frozenset([PYTYPES[p]])
        if p.startswith('numpy.') and p[6:] in D.NAMES:
            return frozenset([D.NAMES[p[6:]]])
        return None
    if t is Const and isinstance(v.v, str):
        n = v.v.lstrip('<=|>')
        if n in D.NAMES:
            return frozenset([D.NAMES[n]])
    return None


def tyname(I, st, v):
    t = type(v)
    if t is Const:
        return 'NoneType' if v.v is None else type(v.v).__name__
    if t is Num:
        return 'number'
    if t is Ref:
        c = st.cell(v.a)
        if type(c) is InstC:
            return I.classes[c.cls].name
        return {ArrC: 'ndarray', ViewC: 'ndarray', ListC: 'list', ListS: 'list', DictC: 'dict', MatC: 'matrix',
                SetC: 'set'}.get(type(c), 'object')
    return {TupV: 'tuple', StrV: 'str', FnV: 'function', Bound: 'method', Cls: 'type', OpV: 'operator'}.get(t, t.__name__)


def aform(st, v):
    return A.form(st, v)


# ------------------------------------------------------------------ containers
def dset(items, k, v):
    out = []
    done = False
    for kk, vv in items:
        if kk == k:
            out.append((kk, v))
            done = True
        else:
            out.append((kk, vv))
    if not done:
        out.append((k, v))
    return tuple(out)


def items_of(I, st, v):
    """Elements of a sequence of known length, or None."""
    t = type(v)
    if t is TupV:
        return list(v.items)
    if t is Const and isinstance(v.v, str):
        return [Const(c) for c in v.v]
    if t is RangeV:
        a, b, s = v.a.p.const(), v.b.p.const(), v.s.p.const()
        if None in (a, b, s) or s == 0:
            return None
        r = range(int(a), int(b), int(s))
        if len(r) > 200:
            return None
        return [num(i) for i in r]
    if t is Ref:
        c = st.cell(v.a)
        if type(c) in (ListC, SetC):
            return list(c.items)
        if type(c) is DictC and not c.open:
            return [k for k, x in c.items]
        if type(c) is MatC:
            return None
        if type(c) in (ArrC, ViewC) and len(c.dims) == 1:
            n = c.dims[0].const()
            if n is not None and n <= 12:
                f = A.form(st, v)
                d = D.weaken(A.dt(st, v))
                return [Num(elem(f, pconst(i)), d, False) for i in range(int(n))]
        if type(c) is InstC:
            m = I.class_lookup(c.cls, '__iter__')
            if m is not None:
                r = I.call(st, Bound(m, v), [], {}, None)
                if len(r) == 1 and r[0][0] is st:
                    return items_of(I, st, r[0][1])
    return None


def sym_items(I, st, v):
    """(count, generic element) of a sequence of unknown length."""
    t = type(v)
    if t is RangeV:
        x = fresh('phi', 'i')
        S.INTPHI.add(x)
        st.signs[S.canon(patom(x))[0]] = S.ALL
        return psub(v.b.p, v.a.p), Num(patom(x), LI, False)
    if t is Ref:
        c = st.cell(v.a)
        if type(c) is ListS:
            return c.count, elem_like(I, st, c.last)
        if type(c) in (ArrC, ViewC):
            return c.dims[0], sym_item(I, st, v, patom(fresh('phi', 'i')))
    st.blame('iteration over an unknown sequence')
    x = fresh('phi', 'n')
    S.INTPHI.add(x)
    return patom(x), Top('element')


def elem_like(I, st, v):
    if type(v) is Num:
        return Num(patom(fresh('phi', 'e')), v.dt, False)
    return v if type(v) in (Const, StrV) else Top('element of a list')


def sym_item(I, st, v, i):
    t = type(v)
    if t is Ref:
        c = st.cell(v.a)
        if type(c) is ListS:
            return elem_like(I, st, c.last)
        if type(c) in (ArrC, ViewC):
            if len(c.dims) == 1:
                return Num(elem(A.form(st, v), i), D.weaken(A.dt(st, v)), False)
            return A.view(st, v, ('sel', 'row', i), c.dims[1:])
    return Top('element')


def to_array(I, st, v):
    """Array made from a list of numbers, or None."""
    items = items_of(I, st, v)
    if items is None:
        return None
    f, dts = FZERO, []
    for i, x in enumerate(items):
        if x in (TRUE, FALSE):
            x = Num(pconst(int(x.v)), LB, False)
        if type(x) is not Num:
            return None
        f = fadd(f, fscale(fbase(ebase(pconst(i))), x.p))
        dts.append(x.dt)
    d = D.strong(D.promote([], dts)) if dts else frozenset(['f8'])
    return A.new(st, f, (pconst(len(items)),), d)


def length(I, st, v):
    """Length as Poly, or None."""
    t = type(v)
    if t is Ref:
        c = st.cell(v.a)
        if type(c) in (ListC, SetC, DictC):
            return pconst(len(c.items)) if not (type(c) is DictC and c.open) else None
        if type(c) is ListS:
            return c.count
        if type(c) in (ArrC, ViewC):
            return c.dims[0] if c.dims else None
        if type(c) is MatC:
            return pconst(len(c.rows))
    if t is TupV:
        return pconst(len(v.items))
    if t is Const and isinstance(v.v, str):
        return pconst(len(v.v))
    if t is RangeV:
        return psub(v.b.p, v.a.p)
    if t is StrV:
        return patom(fresh('len', 'str'))
    return None


# ------------------------------------------------------------------ arithmetic
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitXor: '^', ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__div__', '//': '__floordiv__', '%': '__mod__',
          '**': '__pow__', '&': '__and__', '|': '__or__', '^': '__xor__', '<<': '__lshift__', '>>': '__rshift__',
          '@': '__matmul__'}
RDUNDER = dict((k, '__r' + v[2:]) for k, v in DUNDER.items())
IDUNDER = dict((k, '__i' + v[2:]) for k, v in DUNDER.items())


def asnum(v):
    t = type(v)
    if t is Num:
        return v
    if v == TRUE or v == FALSE:
        return Num(pconst(1 if v.v else 0), LB, False)
    if t in (BCmp, BSym):
        x = fresh('s', 'b')
        return Num(patom(x), LB, False)
    return None


def true_div(I, st):
    c = I.frame(st).code
    return c.module.true_division


def binop(I, st, op, a, b, node):
    o = OPS[type(op)] if not isinstance(op, str) else op
    if o == '/' and true_div(I, st):
        o = '/t'
    return arith(I, st, o, a, b, node)


def arith(I, st, o, a, b, node):
    ta, tb = type(a), type(b)
    for v in (a, b):
        if type(v) is Stale:
            I.event('stale', 'the value of %s from an earlier solve is used' % v.attr, st, node, v.attr)
    base = '/' if o == '/t' else o
    # user defined operators
    if ta is Ref and type(st.cell(a.a)) is InstC:
        r = inst_op(I, st, base, o, a, b, node)
        if r is not None:
            return r
    if tb is Ref and type(st.cell(b.a)) is InstC and not (ta is Const and isinstance(a.v, str)):
        c = st.cell(b.a)
        if A.is_arr(st, a):
            # ndarray.__mul__ of an object: elementwise on objects unless __array_priority__/ufunc hooks
            st.blame('array combined with an object')
            return [(st, I.top(st, 'array combined with an object'))]
        m = I.class_lookup(c.cls, RDUNDER[base])
        if m is not None:
            return I.call(st, Bound(m, b), [a], {}, node)
        return I.throw(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (
            base, tyname(I, st, a), tyname(I, st, b)), node)
    if ta is OpV:
        if base == '*':
            return op_apply(I, st, a, b, node)
        if type(b) is OpV or type(b) is Num:
            st.blame('algebra of abstract operators')
            return [(st, I.top(st, 'algebra of abstract operators'))]
        return I.throw(st, 'TypeError', 'unsupported operand types for %s' % base, node)
    if tb is OpV:
        if base == '*' and A.is_arr(st, a):
            st.blame('array times operator')
            return [(st, I.top(st, 'array times operator'))]
        st.blame('algebra of abstract operators')
        return [(st, I.top(st, 'algebra of abstract operators'))]
    if ta in (Top, Stale) or tb in (Top, Stale):
        return [(st, Top('arithmetic on an unknown value'))]
    # strings
    if ta in (StrV,) or (ta is Const and isinstance(a.v, str)) or tb is StrV or (tb is Const and isinstance(b.v, str)):
        return strop(I, st, base, a, b, node)
    # arrays
    if A.is_arr(st, a) or A.is_arr(st, b):
        r = A.elementwise(I, st, o, a, b, node)
        if r is not None:
            return r
        return I.throw(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (
            base, tyname(I, st, a), tyname(I, st, b)), node)
    # sequences
    if base == '+' and ta is TupV and tb is TupV:
        return [(st, TupV(a.items + b.items))]
    if ta is Ref and base in '+*':
        c = st.cell(a.a)
        if type(c) is ListC:
            if base == '+' and tb is Ref and type(st.cell(b.a)) is ListC:
                return [(st, st.alloc(ListC(c.items + st.cell(b.a).items)))]
            if base == '*' and tb is Num:
                k = b.p.const()
                if k is not None and k <= 200:
                    return [(st, st.alloc(ListC(c.items * int(k))))]
                return [(st, st.alloc(ListS(pmul(pconst(len(c.items)), b.p), c.items[-1] if c.items else NONE)))]
        if type(c) in (ListC, ListS) and base == '+' and tb is Ref and type(st.cell(b.a)) in (ListC, ListS):
            c2 = st.cell(b.a)
            n1, n2 = length(I, st, a), length(I, st, b)
            last = c2.last if type(c2) is ListS else (c2.items[-1] if c2.items else getattr(c, 'last', NONE))
            return [(st, st.alloc(ListS(padd(n1, n2), last)))]
    if tb is Ref and type(st.cell(b.a)) is ListC and base == '*' and ta is Num:
        return arith(I, st, o, b, a, node)
    if base == '*' and ta is TupV and tb is Num and b.p.const() is not None:
        return [(st, TupV(a.items * int(b.p.const())))]
    if base in '&|-^' and ta is Ref and tb is Ref and type(st.cell(a.a)) is SetC and type(st.cell(b.a)) is SetC:
        x, y = st.cell(a.a).items, st.cell(b.a).items
        r = {'&': [i for i in x if i in y], '|': list(x) + [i for i in y if i not in x],
             '-': [i for i in x if i not in y]}.get(base)
        return [(st, st.alloc(SetC(tuple(r)))) if r is not None else (st, Top('set'))]
    # booleans
    if base in '^&|' and all(x in (TRUE, FALSE) or type(x) in (BCmp, BSym) for x in (a, b)):
        out = []
        st.temps.append(b)
        for s, x in I.truth(st, a):
            b2 = s.temps.pop()
            for s2, y in I.truth(s, b2):
                out.append((s2, Const({'^': x != y, '&': x and y, '|': x or y}[base])))
        return out
    x, y = asnum(a), asnum(b)
    if x is None or y is None:
        return I.throw(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (
            base, tyname(I, st, a), tyname(I, st, b)), node)
    return [(st, numop(I, st, o, x, y, node))]


def isdata(p):
    for a in T.deps(p):
        if a.key[0] not in ('dim', 'len', 'opt', 'idiv', 'mod', 'int') and a not in S.INTPHI:
            return True
    return False


def numop(I, st, o, x, y, node):
    d = D.promote([], [x.dt, y.dt])
    p, q = x.p, y.p
    if o == '+':
        return Num(padd(p, q), d, False)
    if o == '-':
        return Num(psub(p, q), d, False)
    if o == '*':
        return Num(pmul(p, q), d, False)
    if o == '/':
        ii = D.is_int(d)
        if ii is not False and (isdata(p) or isdata(q)):
            I.event('intdiv', 'division of values of dtype %s rounds down' % A.sdt(d), st, node, ii)
        if ii:
            o = '//'
        else:
            return Num(pdiv(p, q), d, False)
    if o == '/t':
        if D.is_int(d):
            d = LF
        return Num(pdiv(p, q), d, False)
    if o == '//':
        c1, c2 = p.const(), q.const()
        if c1 is not None and c2 is not None and c2 != 0:
            return Num(pconst(c1 // c2), d, False)
        if q is ONE and S.is_intpoly(p):
            return Num(p, d, False)
        return Num(patom(atom('idiv', p, q)), d, False)
    if o == '%':
        c1, c2 = p.const(), q.const()
        if c1 is not None and c2 is not None and c2 != 0:
            return Num(pconst(c1 % c2), d, False)
        return Num(patom(atom('mod', p, q)), d, False)
    if o == '**':
        c = q.const()
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            return Num(ppow(p, int(c)), d, False)
        if c is not None and c.denominator == 2 and c == Fraction(1, 2):
            return Num(sqrt(p), d, False)
        if c is not None and c == Fraction(-1, 2):
            return Num(pdiv(ONE, sqrt(p)), d, False)
        return Num(patom(atom('pow', p, q)), d, False)
    c1, c2 = p.const(), q.const()
    if c1 is not None and c2 is not None and o in '&|^':
        v = {'&': int(c1) & int(c2), '|': int(c1) | int(c2), '^': int(c1) ^ int(c2)}[o]
        return Num(pconst(v), d, False)
    return Num(patom(atom('bin' + o, p, q)), d, False)


def inst_op(I, st, base, o, a, b, node):
    c = st.cell(a.a)
    nm = DUNDER[base]
    m = I.class_lookup(c.cls, nm)
    if base == '/':
        # the build's division calls __div__ first, then __truediv__
        m = I.class_lookup(c.cls, '__div__') or I.class_lookup(c.cls, '__truediv__')
        if o == '/t':
            m = I.class_lookup(c.cls, '__truediv__') or I.class_lookup(c.cls, '__div__')
    if m is not None:
        return I.call(st, Bound(m, a), [b], {}, node)
    if type(b) is Ref and type(st.cell(b.a)) is InstC:
        return None
    return I.throw(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (
        base, tyname(I, st, a), tyname(I, st, b)), node)


def unary(I, st, op, v, node):
    t = type(v)
    if t is Ref and type(st.cell(v.a)) is InstC:
        nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(op).__name__]
        m = I.class_lookup(st.cell(v.a).cls, nm)
        if m is not None:
            return I.call(st, Bound(m, v), [], {}, node)
        return I.throw(st, 'TypeError', 'bad operand type for unary %s' % nm, node)
    if t in (Top, Stale):
        return [(st, Top('unary'))]
    if isinstance(op, ast.Invert):
        return [(st, Top('~'))]
    if A.is_arr(st, v):
        f = A.form(st, v)
        return [(st, A.new(st, fneg(f) if isinstance(op, ast.USub) else f, A.dims(st, v), A.dt(st, v)))]
    x = asnum(v)
    if x is None:
        if t is OpV:
            st.blame('algebra of abstract operators')
            return [(st, Top('operator'))]
        return I.throw(st, 'TypeError', 'bad operand type for unary operator: %s' % tyname(I, st, v), node)
    if isinstance(op, ast.USub):
        return [(st, Num(pneg(x.p), x.dt, x.lit))]
    return [(st, x)]


def inplace(I, st, op, a, b, node):
    """a op= b -> list of (state, value bound to the target)"""
    o = OPS[type(op)]
    if A.is_arr(st, a):
        if type(b) in (Top, Stale):
            ad, c, ls = A.root(st, a)
            A.write(I, st, a, fbase(fresh('phi', 'unknown')), None, node)
            st.blame('array updated with an unknown value')
            return [(st, a)]
        if type(b) is OpV or (type(b) is Ref and type(st.cell(b.a)) is InstC):
            return I.throw(st, 'TypeError', 'array updated with an operator', node)
        o2 = '/t' if o == '/' and true_div(I, st) else o
        da = A.dims(st, a)
        n_ev = len(I.events)
        r = A.elementwise(I, st, o2, a, b, node)
        if r is None:
            return I.throw(st, 'TypeError', 'unsupported operand types for %s=' % o, node)
        out = []
        for s, v in r:
            if v is None or type(v) is Top:
                s.blame('array updated with an unknown value')
                out.append((s, a))
                continue
            dv = A.dims(s, v)
            if len(dv) != len(da) or any(A.same(s, x, y) is False for x, y in zip(dv, da)):
                out.extend(I.throw(s, 'ValueError', 'non-broadcastable output operand', node))
                continue
            A.write(I, s, a, A.form(s, v), A.dt(s, v), node, 'inplace')
            out.append((s, a))
        return out
    if type(a) is Ref:
        c = st.cell(a.a)
        if type(c) in (ListC, ListS) and o == '+':
            it = items_of(I, st, b)
            if type(c) is ListC and it is not None:
                st.put(a.a, ListC(c.items + tuple(it)))
                return [(st, a)]
            n1, n2 = length(I, st, a), length(I, st, b)
            if n1 is None or n2 is None:
                st.blame('list extended by an unknown sequence')
                n1 = patom(fresh('phi', 'n'))
                n2 = ZERO
            st.put(a.a, ListS(padd(n1, n2), it[-1] if it else Top('element')))
            return [(st, a)]
        if type(c) is InstC:
            m = I.class_lookup(c.cls, IDUNDER[o])
            if m is not None:
                return I.call(st, Bound(m, a), [b], {}, node)
    if o == '/' and true_div(I, st):
        o = '/t'
    return arith(I, st, o, a, b, node)


# ------------------------------------------------------------------ strings
def fmt_specs(f):
    """Conversion types of a % format string, or None."""
    out = []
    i = 0
    while i < len(f):
        if f[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(f) and f[i] == '%':
            i += 1
            continue
        if i < len(f) and f[i] == '(':
            return None
        while i < len(f) and f[i] in '#0- +':
            i += 1
        while i < len(f) and (f[i].isdigit() or f[i] in '*.'):
            if f[i] == '*':
                out.append('d')
            i += 1
        while i < len(f) and f[i] in 'hlL':
            i += 1
        if i >= len(f):
            return ['bad']
        out.append(f[i] if f[i] in 'diouxXeEfFgGcrs' else 'bad')
        i += 1
    return out


def strop(I, st, o, a, b, node):
    sa = a.v if type(a) is Const and isinstance(a.v, str) else None
    sb = b.v if type(b) is Const and isinstance(b.v, str) else None
    if o == '%' and (sa is not None or type(a) is StrV):
        if sa is None:
            return [(st, StrV())]
        specs = fmt_specs(sa)
        if specs is None:
            return [(st, StrV())]
        if 'bad' in specs:
            return I.throw(st, 'ValueError', 'unsupported format character in %r' % sa, node)
        if type(b) is TupV:
            args = list(b.items)
        elif type(b) in (Top, Stale):
            return [(st, StrV())]
        else:
            args = [b]
        if len(args) != len(specs):
            if not specs and type(b) is Ref and type(st.cell(b.a)) is DictC:
                return [(st, StrV())]
            return I.throw(st, 'TypeError', 'format %r needs %d arguments, %d given' % (sa, len(specs), len(args)), node)
        for sp, x in zip(specs, args):
            bad = False
            if sp in 'diouxXeEfFgG':
                if x == NONE or type(x) in (StrV, TupV, FnV, Bound, Cls, OpV, Mod) or \
                        (type(x) is Const and isinstance(x.v, str)):
                    bad = True
                elif type(x) is Ref and type(st.cell(x.a)) not in (ArrC, ViewC):
                    bad = True
                elif A.is_arr(st, x) and not all(d is ONE for d in A.dims(st, x)):
                    bad = True
                elif type(x) is Num and sp in 'oxXc' and D.is_int(x.dt) is False:
                    bad = True
                elif type(x) is Num and D.is_real(x.dt) is False:
                    bad = True
            if bad:
                return I.throw(st, 'TypeError', 'format %%%s applied to %s' % (sp, tyname(I, st, x)), node)
        if all(type(x) is Const and isinstance(x.v, str) for x in args) and set(specs) <= {'s'}:
            return [(st, Const(sa % tuple(x.v for x in args)))]
        return [(st, StrV())]
    if o == '+':
        ok = lambda v: type(v) is StrV or (type(v) is Const and isinstance(v.v, str)) or type(v) is Top
        if not ok(a) or not ok(b):
            return I.throw(st, 'TypeError', 'cannot concatenate %s and %s' % (tyname(I, st, a), tyname(I, st, b)), node)
        if sa is not None and sb is not None:
            return [(st, Const(sa + sb))]
        return [(st, StrV())]
    if o == '*':
        x = b if (sa is not None or type(a) is StrV) else a
        s_ = sa if sa is not None else sb
        if type(x) is Num:
            k = x.p.const()
            if s_ is not None and k is not None and k <= 200:
                return [(st, Const(s_ * int(k)))]
            return [(st, StrV())]
    return I.throw(st, 'TypeError', 'unsupported operand types for %s: %s and %s' % (o, tyname(I, st, a), tyname(I, st, b)), node)


# ------------------------------------------------------------------ comparisons
REL = {ast.Lt: '-', ast.LtE: '-0', ast.Gt: '+', ast.GtE: '0+', ast.Eq: '0', ast.NotEq: '-+n'}
NOT = {TRUE: FALSE, FALSE: TRUE}


def negate(I, st, v):
    if v in (TRUE, FALSE):
        return NOT[v]
    if type(v) is BCmp:
        return BCmp(frozenset('-0+n') - v.rel, v.d)
    if type(v) is BSym:
        return BSym(v.key, not v.neg)
    return v


def dteq(a, b):
    """Equality of two dtypes."""
    if a == b:
        return TRUE
    if all(e in D.CONC for e in a | b):
        return FALSE
    return BSym(('dteq', tuple(sorted(a)), tuple(sorted(b))), False)


def eq(I, st, a, b):
    """Value of a == b (no user defined __eq__)."""
    ta, tb = type(a), type(b)
    if ta in (Top, Stale) or tb in (Top, Stale):
        return Top('comparison with an unknown value')
    if A.is_arr(st, a) or A.is_arr(st, b):
        return None
    x, y = asnum(a), asnum(b)
    if x is not None and y is not None:
        if a in (TRUE, FALSE) and b in (TRUE, FALSE):
            return TRUE if a == b else FALSE
        if ta in (BCmp, BSym) and b in (TRUE, FALSE):
            return a if b == TRUE else negate(I, st, a)
        if tb in (BCmp, BSym) and a in (TRUE, FALSE):
            return b if a == TRUE else negate(I, st, b)
        return I.bval(st, S.ZER, psub(x.p, y.p))
    if ta is DT or tb is DT:
        da, db = as_dt(I, st, a), as_dt(I, st, b)
        if da is None or db is None:
            return FALSE
        return dteq(da, db)
    if ta is Ext and tb is Ext:
        return TRUE if a.path == b.path else FALSE
    if ta is StrV or tb is StrV:
        if ta in (StrV, Const) and tb in (StrV, Const):
            if (ta is Const and not isinstance(a.v, str)) or (tb is Const and not isinstance(b.v, str)):
                return FALSE
            return BSym(('streq', id(a), id(b)), False)
        return FALSE
    if ta is Const or tb is Const:
        return TRUE if a == b else FALSE
    sa = seq(I, st, a)
    sb = seq(I, st, b)
    if sa is not None and sb is not None:
        if (ta is TupV) != (tb is TupV):
            return FALSE
        if len(sa) != len(sb):
            return FALSE
        und = []
        for u, v in zip(sa, sb):
            r = eq(I, st, u, v)
            if r == FALSE:
                return FALSE
            if r != TRUE:
                und.append(r)
        if not und:
            return TRUE
        if len(und) == 1:
            return und[0]
        if all(type(r) is BCmp and r.rel == S.ZER for r in und):
            d = ZERO
            for r in und:
                d = padd(d, patom(atom('abs', r.d)))
            return BCmp(S.ZER, d)
        return Top('comparison of sequences')
    if ta is Ref and tb is Ref:
        if a.a == b.a:
            return TRUE
        ca, cb = st.cell(a.a), st.cell(b.a)
        if type(ca) is InstC or type(cb) is InstC:
            return FALSE
        if type(ca) is DictC and type(cb) is DictC:
            return Top('comparison of dictionaries')
        if type(ca) is not type(cb):
            return FALSE
        return Top('comparison')
    return TRUE if a == b else FALSE


def seq(I, st, v):
    if type(v) is TupV:
        return list(v.items)
    if type(v) is Ref and type(st.cell(v.a)) is ListC:
        return list(st.cell(v.a).items)
    return None


def compare(I, st, op, a, b, node):
    t = type(op)
    for v in (a, b):
        if type(v) is Stale:
            I.event('stale', 'the value of %s from an earlier solve is used' % v.attr, st, node, v.attr)
    if t in (ast.Is, ast.IsNot):
        r = identical(I, st, a, b)
        return [(st, negate(I, st, r) if t is ast.IsNot else r)]
    if t in (ast.In, ast.NotIn):
        out = contains(I, st, b, a, node)
        if t is ast.NotIn:
            out = [(s, negate(I, s, r)) for s, r in out]
        return out
    # user defined comparison
    for x, y, refl in ((a, b, False), (b, a, True)):
        if type(x) is Ref and type(st.cell(x.a)) is InstC:
            nm = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__',
                  ast.GtE: '__ge__'}[t]
            m = I.class_lookup(st.cell(x.a).cls, nm)
            if m is not None:
                return I.call(st, Bound(m, x), [y], {}, node)
    if A.is_arr(st, a) or A.is_arr(st, b):
        if t in (ast.Eq, ast.NotEq) and (a == NONE or b == NONE):
            return [(st, Top('array compared with None'))]
        o = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[t]
        one = all(all(d is ONE for d in A.dims(st, x)) for x in (a, b) if A.is_arr(st, x))
        if one:
            va = Num(elem(A.form(st, a), ZERO), D.weaken(A.dt(st, a)), False) if A.is_arr(st, a) else asnum(a)
            vb = Num(elem(A.form(st, b), ZERO), D.weaken(A.dt(st, b)), False) if A.is_arr(st, b) else asnum(b)
            if va is not None and vb is not None:
                return [(st, I.bval(st, frozenset(REL[t]), psub(va.p, vb.p)))]
        r = A.elementwise(I, st, o, a, b, node)
        if r is None:
            return [(st, Top('array comparison'))]
        return r
    if t in (ast.Eq, ast.NotEq):
        r = eq(I, st, a, b)
        return [(st, negate(I, st, r) if t is ast.NotEq else r)]
    if type(a) in (Top, Stale) or type(b) in (Top, Stale):
        return [(st, Top('comparison with an unknown value'))]
    x, y = asnum(a), asnum(b)
    if x is not None and y is not None:
        d = psub(x.p, y.p)
        I.on_compare(st, frozenset(REL[t]), d, node)
        if I.split_compare:
            out = I.split_compare(I, st, frozenset(REL[t]), d, node)
            if out is not None:
                return out
        return [(st, I.bval(st, frozenset(REL[t]), d))]
    if type(a) in (Const, StrV) and type(b) in (Const, StrV):
        if type(a) is Const and type(b) is Const and isinstance(a.v, str) and isinstance(b.v, str):
            f = {ast.Lt: a.v < b.v, ast.Gt: a.v > b.v, ast.LtE: a.v <= b.v, ast.GtE: a.v >= b.v}[t]
            return [(st, Const(f))]
        if a != NONE and b != NONE:
            return [(st, BSym(('strcmp', fresh('s', 'c').id), False))]
    sa, sb = seq(I, st, a), seq(I, st, b)
    if sa is not None and sb is not None:
        ca = [x.p.const() if type(x) is Num else None for x in sa]
        cb = [x.p.const() if type(x) is Num else None for x in sb]
        if None not in ca and None not in cb:
            f = {ast.Lt: ca < cb, ast.Gt: ca > cb, ast.LtE: ca <= cb, ast.GtE: ca >= cb}[t]
            return [(st, Const(f))]
        return [(st, Top('comparison of sequences'))]
    return I.throw(st, 'TypeError', 'ordering of %s and %s' % (tyname(I, st, a), tyname(I, st, b)), node)


def identical(I, st, a, b):
    ta, tb = type(a), type(b)
    if ta in (Top, Stale) or tb in (Top, Stale):
        return Top('identity of an unknown value')
    if ta is Const and tb is Const:
        return TRUE if a == b else FALSE
    if ta is Ref and tb is Ref:
        return TRUE if a.a == b.a else FALSE
    if ta is tb and ta in (OpV, Cls, Ext, Mod, FnV):
        return TRUE if a == b else FALSE
    for x, y in ((a, b), (b, a)):
        if x == NONE:
            return FALSE
        if x in (TRUE, FALSE):
            if type(y) in (BCmp, BSym):
                return y if x == TRUE else negate(I, st, y)
            return FALSE
    if ta is not tb:
        return FALSE
    return Top('identity')


def contains(I, st, box, x, node):
    t = type(box)
    if t is Ref:
        c = st.cell(box.a)
        if type(c) is InstC:
            m = I.class_lookup(c.cls, '__contains__')
            if m is not None:
                return I.call(st, Bound(m, box), [x], {}, node)
        if type(c) is DictC:
            if any(k == x for k, v in c.items):
                return [(st, TRUE)]
            return [(st, FALSE if not c.open else BSym(('open', box.a, x), False))]
    if t is Const and isinstance(box.v, str):
        if type(x) is Const and isinstance(x.v, str):
            return [(st, Const(x.v in box.v))]
        return [(st, BSym(('in', fresh('s', 'c').id), False))]
    if t is StrV:
        return [(st, BSym(('in', fresh('s', 'c').id), False))]
    items = items_of(I, st, box)
    if items is None:
        if t in (Top, Stale):
            return [(st, Top('membership in an unknown value'))]
        if t is OpV:
            return I.throw(st, 'TypeError', 'argument of type operator is not iterable', node)
        return [(st, Top('membership'))]
    und = []
    for i in items:
        r = eq(I, st, x, i)
        if r == TRUE:
            return [(st, TRUE)]
        if r != FALSE:
            und.append(r)
    if not und:
        return [(st, FALSE)]
    if len(und) == 1:
        return [(st, und[0])]
    if all(type(r) is BSym for r in und):
        d = as_dt(I, st, x)
        if d is not None:
            ks = tuple(sorted(set('/'.join(sorted(as_dt(I, st, i) or ())) for i in items)))
            return [(st, BSym(('dtin', tuple(sorted(d)), ks), False))]
    return [(st, Top('membership'))]


# ------------------------------------------------------------------ indexing
def cint(v):
    if type(v) is Num:
        c = v.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
    if v in (TRUE, FALSE):
        return int(v.v)
    return None


def cslice(I, st, sl):
    """Python slice of constants, or None."""
    out = []
    for x in (sl.a, sl.b, sl.s):
        if x == NONE:
            out.append(None)
        else:
            k = cint(x)
            if k is None:
                return None
            out.append(k)
    return slice(*out)


def getitem(I, st, v, i, node):
    t = type(v)
    if t in (Top, Stale):
        if t is Stale:
            I.event('stale', 'the value of %s from an earlier solve is used' % v.attr, st, node, v.attr)
        return [(st, Top('item of an unknown value'))]
    if t is TupV or (t is Const and isinstance(v.v, str)):
        items = list(v.items) if t is TupV else list(v.v)
        return seq_get(I, st, items, i, node, (lambda x: TupV(tuple(x))) if t is TupV else (lambda x: Const(''.join(x))),
                       (lambda x: x) if t is TupV else Const)
    if t is StrV:
        return [(st, StrV())]
    if t is RangeV:
        items = items_of(I, st, v)
        if items is not None:
            return seq_get(I, st, items, i, node, lambda x: st.alloc(ListC(tuple(x))), lambda x: x)
        k = cint(i)
        if type(i) is Num:
            return [(st, Num(padd(v.a.p, pmul(i.p, v.s.p)), LI, False))]
        return [(st, Top('item of a range'))]
    if t is OpV:
        return I.throw(st, 'TypeError', 'operator is not subscriptable', node)
    if t is Num:
        return I.throw(st, 'TypeError', 'number is not subscriptable', node) if i != TupV(()) else [(st, v)]
    if t is Ref:
        c = st.cell(v.a)
        tc = type(c)
        if tc is ListC:
            return seq_get(I, st, list(c.items), i, node, lambda x: st.alloc(ListC(tuple(x))), lambda x: x)
        if tc is ListS:
            if type(i) is SliceV:
                return [(st, Top('slice of a list'))]
            if type(i) is not Num:
                return [(st, Top('item of a list'))]
            if cint(i) == -1 or psub(i.p, c.count).const() == -1:
                return [(st, c.last)]
            return [(st, sym_item(I, st, v, i.p))]
        if tc is DictC:
            for k, x in c.items:
                if k == i or type(k) is Num and type(i) is Num and k.p is i.p:
                    return [(st, x)]
            if type(i) is Num and i.p.const() is None and not c.open:
                return dict_pick(I, st, c, i, node)
            if c.open or type(i) in (Top, StrV):
                return [(st, Top('item of a dictionary'))]
            if type(i) in (Const, Num) and all(type(k) in (Const, Num) for k, x in c.items):
                return I.throw(st, 'KeyError', '%r' % (i,), node)
            return [(st, Top('item of a dictionary'))]
        if tc in (ArrC, ViewC):
            return arr_get(I, st, v, c, i, node)
        if tc is MatC:
            return mat_get(I, st, v, c, i, node)
        if tc is InstC:
            m = I.class_lookup(c.cls, '__getitem__')
            if m is not None:
                return I.call(st, Bound(m, v), [i], {}, node)
    if t is Ext:
        if t is Ext and v.path.startswith('os.environ'):
            return [(st, StrV())]
        return [(st, I.top(st, 'item of ' + v.path))]
    return I.throw(st, 'TypeError', '%s is not subscriptable' % tyname(I, st, v), node)


def seq_get(I, st, items, i, node, mk, one):
    if type(i) is SliceV:
        s = cslice(I, st, i)
        if s is None:
            # bounds decided relative to the length
            return [(st, I.top(st, 'slice with unknown bounds'))]
        return [(st, mk(items[s]))]
    k = cint(i)
    if k is None:
        if type(i) in (Ref, TupV, StrV) or i == NONE or (type(i) is Const and isinstance(i.v, str)):
            if type(i) is Ref and type(st.cell(i.a)) in (ArrC, ViewC):
                return [(st, Top('item'))]
            return I.throw(st, 'TypeError', 'sequence indices must be integers', node)
        if type(i) is Num and items:
            if D.is_int(i.dt) is False:
                return I.throw(st, 'TypeError', 'sequence indices must be integers', node)
            return pick(I, st, items, i, node, one)
        return [(st, Top('item at an unknown index'))]
    if type(i) is Num and D.is_int(i.dt) is False:
        return I.throw(st, 'TypeError', 'sequence indices must be integers', node)
    if not -len(items) <= k < len(items):
        return I.throw(st, 'IndexError', 'index %d out of range' % k, node)
    return [(st, one(items[k]))]


def dict_pick(I, st, c, i, node):
    """Item at a symbolic key: one state per feasible key."""
    if len(c.items) > 40:
        return [(st, Top('item at an unknown key'))]
    out = []
    rest = st.fork()
    possible = True
    for k, x in c.items:
        if type(k) not in (Num, Const):
            return [(st, Top('item at an unknown key'))]
        if type(k) is not Num:
            continue
        d = psub(i.p, k.p)
        s = st.fork()
        if S.assume(s, d, S.ZER):
            out.append((s, x))
        possible = possible and S.assume(rest, d, frozenset("-+n"))
    if possible:
        rest.blame('key out of a known range')
        I.throw(rest, 'KeyError', '%s' % (i.p,), node)
    return out


def pick(I, st, items, i, node, one):
    """Item at a symbolic integer index: one state per feasible position."""
    if len(items) > 24 or not S.is_intpoly(i.p):
        return [(st, Top('item at an unknown index'))]
    out = []
    n = len(items)
    base = st
    for k in range(-n, n):
        s = base.fork()
        if S.assume(s, psub(i.p, pconst(k)), S.ZER):
            out.append((s, one(items[k])))
    if S.sign(st, psub(i.p, pconst(n))) == S.NEG and S.sign(st, padd(i.p, pconst(n))) <= S.NN:
        return out
    s = base.fork()
    if S.assume(s, psub(i.p, pconst(n)), S.NN):
        s.blame('index out of a known range')
        I.throw(s, 'IndexError', 'index %s out of range' % i.p, node)
    return out


def arr_get(I, st, v, c, i, node):
    n = c.dims[0] if c.dims else ONE
    if type(i) is Num:
        p = A.norm_index(I, st, i.p, n)
        if S.sign(st, psub(p, n)) <= S.NN or S.sign(st, p) == S.NEG:
            return I.throw(st, 'IndexError', 'index %s is out of bounds for size %s' % (i.p, n), node)
        if len(c.dims) == 1:
            return [(st, Num(elem(A.form(st, v), p), D.weaken(A.dt(st, v)), False))]
        return [(st, A.view(st, v, ('sel', 'row', p), c.dims[1:]))]
    if type(i) is SliceV:
        return arr_slice(I, st, v, c, i, node)
    if type(i) is Const and i.v is Ellipsis:
        return [(st, A.alias(st, v, c.dims))]
    if type(i) is TupV:
        its = list(i.items)
        if its == [] and not c.dims:
            return [(st, v)]
        if any(type(x) is Const and x.v is Ellipsis for x in its):
            k = [j for j, x in enumerate(its) if type(x) is Const and x.v is Ellipsis][0]
            fill = len(c.dims) - len(its) + 1
            its[k:k + 1] = [SliceV(NONE, NONE, NONE)] * max(fill, 0)
        if NONE in its:
            # newaxis on a vector
            r = [(st, v)]
            f = A.form(st, v)
            dims = []
            j = 0
            for x in its:
                if x == NONE:
                    dims.append(ONE)
                else:
                    dims.append(c.dims[j] if j < len(c.dims) else ONE)
                    j += 1
            return [(st, A.alias(st, v, dims))]
        if len(its) > len(c.dims):
            return I.throw(st, 'IndexError', 'too many indices for array', node)
        if len(its) == 1:
            return arr_get(I, st, v, c, its[0], node)
        if len(its) == 2 and len(c.dims) == 2:
            a, b = its
            if type(a) is Num and type(b) is Num:
                pa = A.norm_index(I, st, a.p, c.dims[0])
                pb = A.norm_index(I, st, b.p, c.dims[1])
                for p, d in ((pa, c.dims[0]), (pb, c.dims[1])):
                    if S.sign(st, psub(p, d)) <= S.NN or S.sign(st, p) == S.NEG:
                        return I.throw(st, 'IndexError', 'index %s is out of bounds for size %s' % (p, d), node)
                return [(st, Num(elem2(A.form(st, v), pa, pb), D.weaken(A.dt(st, v)), False))]
            if type(b) is Num and type(a) is SliceV:
                pb = A.norm_index(I, st, b.p, c.dims[1])
                if S.sign(st, psub(pb, c.dims[1])) <= S.NN or S.sign(st, pb) == S.NEG:
                    return I.throw(st, 'IndexError', 'index %s is out of bounds for size %s' % (pb, c.dims[1]), node)
                col = A.view(st, v, ('sel', 'col', pb), (c.dims[0],))
                return arr_slice(I, st, col, st.cell(col.a), a, node)
            if type(a) is Num and type(b) is SliceV:
                pa = A.norm_index(I, st, a.p, c.dims[0])
                row = A.view(st, v, ('sel', 'row', pa), (c.dims[1],))
                return arr_slice(I, st, row, st.cell(row.a), b, node)
            if type(a) is SliceV and type(b) is SliceV:
                x = A.slice_bounds(I, st, a, c.dims[0])
                y = A.slice_bounds(I, st, b, c.dims[1])
                if x and y:
                    if x[0] is ZERO and x[1] is c.dims[0] and y[0] is ZERO and y[1] is c.dims[1]:
                        return [(st, A.alias(st, v, c.dims))]
                    return [(st, A.view(st, v, ('sel', 'blk', x[0], x[1], y[0], y[1]), (x[2], y[2])))]
        st.blame('array indexing')
        return [(st, I.top(st, 'array indexing'))]
    if type(i) is Ref:
        ci = st.cell(i.a)
        if type(ci) in (ArrC, ViewC):
            l = ('sel', 'ix', A.form(st, i))
            d = A.dt(st, i)
            if d == frozenset(['b1']):
                cnt = patom(fresh('len', 'mask'))
                return [(st, A.new(st, fapply(('sel', 'mask', A.form(st, i)), A.form(st, v)), (cnt,) + c.dims[1:], A.dt(st, v)))]
            return [(st, A.new(st, fapply(l, A.form(st, v)), (ci.dims[0],) + c.dims[1:], A.dt(st, v)))]
        if type(ci) is ListC:
            r = to_array(I, st, i)
            if r is not None:
                return arr_get(I, st, v, c, r, node)
    if i == NONE:
        return [(st, A.alias(st, v, (ONE,) + c.dims))]
    if type(i) in (Top, Stale):
        st.blame('array indexed with an unknown value')
        return [(st, I.top(st, 'array indexing'))]
    return I.throw(st, 'IndexError', 'invalid array index %s' % tyname(I, st, i), node)


def arr_slice(I, st, v, c, i, node):
    n = c.dims[0] if c.dims else ONE
    b = A.slice_bounds(I, st, i, n)
    if b is None:
        k = cint(i.s) if i.s != NONE else 1
        if k is None or k == 0:
            st.blame('slice with an unknown step')
            return [(st, I.top(st, 'slice with an unknown step'))]
        if i.a == NONE and i.b == NONE and k == -1:
            return [(st, A.view(st, v, ('sel', 'rev'), c.dims))]
        d = patom(fresh('len', 'step'))
        nn = n.const()
        s = cslice(I, st, i)
        if nn is not None and s is not None:
            d = pconst(len(range(int(nn))[s]))
        key = tuple(x.p if type(x) is Num else x for x in (i.a, i.b, i.s))
        return [(st, A.view(st, v, ('sel', 'st') + key, (d,) + c.dims[1:]))]
    lo, hi, ln = b
    if lo is ZERO and hi is n:
        return [(st, A.alias(st, v, c.dims))]
    if len(c.dims) == 1:
        return [(st, A.view(st, v, ('sel', 'sl', lo, hi), (ln,)))]
    return [(st, A.view(st, v, ('sel', 'rsl', lo, hi), (ln,) + c.dims[1:]))]


def setitem(I, st, v, i, val, node, aug=None):
    """-> list of states"""
    t = type(v)
    if t in (Top, Stale):
        st.blame('store into an unknown object')
        return [st]
    if t is Ref:
        c = st.cell(v.a)
        tc = type(c)
        if tc is ListC:
            if type(i) is SliceV:
                s = cslice(I, st, i)
                it = items_of(I, st, val)
                if s is None or it is None:
                    if it is None and type(val) in (Num, Const, OpV) or (type(val) is Ref and it is None and type(st.cell(val.a)) is InstC):
                        return I.throw(st, 'TypeError', 'can only assign an iterable', node)
                    st.blame('slice assignment')
                    return [st]
                l = list(c.items)
                try:
                    l[s] = it
                except ValueError as e:
                    return I.throw(st, 'ValueError', str(e), node)
                shared_write(I, st, v, node)
                st.put(v.a, ListC(tuple(l)))
                return [st]
            k = cint(i)
            if k is None:
                if type(i) is Num:
                    shared_write(I, st, v, node)
                    outs = []
                    for s, kk in pick(I, st, list(range(len(c.items))), i, node, lambda x: num(x)):
                        if type(kk) is not Num:
                            s.blame('store at an unknown index')
                            outs.append(s)
                            continue
                        k = cint(kk)
                        c2 = s.cell(v.a)
                        s.put(v.a, ListC(c2.items[:k] + (val,) + c2.items[k + 1:]))
                        outs.append(s)
                    return outs
                if type(i) in (TupV, StrV) or i == NONE or (type(i) is Const and isinstance(i.v, str)):
                    return I.throw(st, 'TypeError', 'list indices must be integers', node)
                st.blame('store at an unknown index')
                return [st]
            if not -len(c.items) <= k < len(c.items):
                return I.throw(st, 'IndexError', 'assignment index %d out of range' % k, node)
            if k < 0:
                k += len(c.items)
            shared_write(I, st, v, node)
            st.put(v.a, ListC(c.items[:k] + (val,) + c.items[k + 1:]))
            return [st]
        if tc is ListS:
            if type(i) is Num and (cint(i) == -1 or psub(i.p, c.count).const() == -1):
                st.put(v.a, ListS(c.count, val))
            else:
                st.blame('store into a list of unknown length') if not isinstance(val, Num) else None
            return [st]
        if tc is DictC:
            shared_write(I, st, v, node)
            st.put(v.a, DictC(dset(c.items, i, val), c.open))
            return [st]
        if tc in (ArrC, ViewC):
            return arr_set(I, st, v, c, i, val, node, aug)
        if tc is MatC:
            mat_set(I, st, v, c, i, val, node)
            return [st] if I.mat_ok else []
        if tc is InstC:
            m = I.class_lookup(c.cls, '__setitem__')
            if m is not None:
                return [s for s, x in I.call(st, Bound(m, v), [i, val], {}, node)]
    if t is Ext:
        if v.path.startswith('os.environ') or v.path.startswith('sys.modules'):
            I.event('deny', 'item assignment to %s' % v.path, st, node, v.path)
            return [st]
        st.blame('store into ' + v.path)
        return [st]
    return I.throw(st, 'TypeError', '%s does not support item assignment' % tyname(I, st, v), node)


def shared_write(I, st, v, node):
    if v.a not in I.mutlog:
        I.mutlog[v.a] = I.loc(st, node)
    if v.a in BASE and not I.loading:
        I.event('globalwrite', 'a container shared by all calls is modified', st, node)
    if v.a in I.guarded:
        I.event('callerwrite', 'a container of the caller is modified', st, node, I.guarded[v.a])


def arr_set(I, st, v, c, i, val, node, aug=None):
    # where the value goes
    if aug is not None and A.is_arr(st, aug) and type(val) is Ref and val.a == aug.a and not fancy(st, i):
        # y[a:b] += v already wrote through the view
        return [st]
    if type(i) is Num and len(c.dims) == 1:
        p = A.norm_index(I, st, i.p, c.dims[0])
        if S.sign(st, psub(p, c.dims[0])) <= S.NN or S.sign(st, p) == S.NEG:
            return I.throw(st, 'IndexError', 'index %s is out of bounds for size %s' % (i.p, c.dims[0]), node)
        x = scalar_of(I, st, val)
        if x is None:
            if type(val) in (Top, Stale):
                x = Num(patom(fresh('phi', 'unknown')), A.dt(st, v), False)
                st.blame('store of an unknown value')
            else:
                return I.throw(st, 'ValueError', 'setting an array element with a sequence', node)
        A.write(I, st, v, setelem(A.form(st, v), p, x.p), x.dt, node, 'item')
        return [st]
    if type(i) is TupV and len(i.items) == 2 and len(c.dims) == 2 and all(type(x) is Num for x in i.items):
        pa = A.norm_index(I, st, i.items[0].p, c.dims[0])
        pb = A.norm_index(I, st, i.items[1].p, c.dims[1])
        for p, d in ((pa, c.dims[0]), (pb, c.dims[1])):
            if S.sign(st, psub(p, d)) <= S.NN or S.sign(st, p) == S.NEG:
                return I.throw(st, 'IndexError', 'index %s is out of bounds for size %s' % (p, d), node)
        x = scalar_of(I, st, val)
        if x is None:
            st.blame('store of an unknown value')
            return [st]
        col = A.view(st, v, ('sel', 'col', pb), (c.dims[0],))
        A.write(I, st, col, setelem(A.form(st, col), pa, x.p), x.dt, node, 'item')
        return [st]
    if fancy(st, i):
        r = i
        if type(st.cell(i.a)) is ListC:
            r = to_array(I, st, i)
            if r is None:
                st.blame('array store')
                return [st]
        kind = 'mask' if A.dt(st, r) == frozenset(['b1']) else 'ix'
        l = ('sel', kind, A.form(st, r))
        tmp = A.view(st, v, l, (st.cell(r.a).dims[0],) + tuple(c.dims[1:]))
    else:
        rr = arr_get(I, st, v, c, i, node)
        if not rr:
            return []
        st, tmp = rr[0]
        if not A.is_arr(st, tmp):
            st.blame('array store')
            return [st]
    dims = A.dims(st, tmp)
    if type(val) in (Top, Stale):
        A.write(I, st, tmp, fbase(fresh('phi', 'unknown')), None, node)
        st.blame('store of an unknown value')
        return [st]
    if type(val) is Ref and type(st.cell(val.a)) is ListC or type(val) is TupV:
        val = to_array(I, st, val)
        if val is None:
            st.blame('store of a list')
            return [st]
    if A.is_arr(st, val):
        dv = A.dims(st, val)
        f = A.form(st, val)
        while len(dv) > len(dims) and dv[0] is ONE:
            dv = dv[1:]
        if len(dv) > len(dims):
            return I.throw(st, 'ValueError', 'could not broadcast input array', node)
        for x, y in zip(dv, dims[len(dims) - len(dv):]):
            if x is y:
                continue
            if x is ONE:
                f = fscale(A.ones(), elem(f, ZERO))
                continue
            r = A.same(st, x, y)
            if r is False:
                return I.throw(st, 'ValueError', 'could not broadcast an array of size %s into size %s' % (x, y), node)
            if r is None:
                S.assume(st, psub(x, y), S.ZER)
        A.write(I, st, tmp, f, A.dt(st, val), node, 'slice')
        return [st]
    x = asnum(val)
    if x is None:
        return I.throw(st, 'TypeError', 'cannot store %s into an array' % tyname(I, st, val), node)
    A.write(I, st, tmp, fscale(A.ones(), x.p), x.dt, node, 'slice')
    return [st]


def scalar_of(I, st, v):
    x = asnum(v)
    if x is not None:
        return x
    if A.is_arr(st, v) and all(d is ONE for d in A.dims(st, v)):
        return Num(elem(A.form(st, v), ZERO), D.weaken(A.dt(st, v)), False)
    return None


def fancy(st, i):
    return type(i) is Ref and type(st.cell(i.a)) in (ArrC, ViewC, ListC)


def delitem(I, st, v, i, node):
    if type(v) is Ref:
        c = st.cell(v.a)
        if type(c) is DictC:
            if any(k == i for k, x in c.items):
                shared_write(I, st, v, node)
                st.put(v.a, DictC(tuple((k, x) for k, x in c.items if k != i), c.open))
                return [st]
            if not c.open:
                return I.throw(st, 'KeyError', repr(i), node)
            return [st]
        if type(c) is ListC:
            shared_write(I, st, v, node)
            k = cint(i)
            if type(i) is SliceV:
                s = cslice(I, st, i)
                if s is not None:
                    l = list(c.items)
                    del l[s]
                    st.put(v.a, ListC(tuple(l)))
                    return [st]
            elif k is not None:
                if not -len(c.items) <= k < len(c.items):
                    return I.throw(st, 'IndexError', 'del index out of range', node)
                l = list(c.items)
                del l[k]
                st.put(v.a, ListC(tuple(l)))
                return [st]
        if type(c) is ListS:
            if type(i) is SliceV and i.a == NONE and i.b == NONE:
                st.put(v.a, ListC(()))
            else:
                st.put(v.a, ListS(psub(c.count, ONE), c.last))
            return [st]
        if type(c) is InstC:
            m = I.class_lookup(c.cls, '__delitem__')
            if m is not None:
                return [s for s, x in I.call(st, Bound(m, v), [i], {}, node)]
    st.blame('del of an item')
    return [st]


# ---- np.matrix of objects ---------------------------------------------------
def mat_axis(I, st, i, n):
    """-> (list of positions, is scalar) or None"""
    if type(i) is SliceV:
        s = cslice(I, st, i)
        return None if s is None else (list(range(n))[s], False)
    k = cint(i)
    if k is not None:
        if not -n <= k < n:
            return 'IndexError'
        return [k % n], True
    if type(i) is Const and i.v is Ellipsis:
        return list(range(n)), False
    it = seq(I, st, i)
    if it is not None and all(cint(x) is not None for x in it):
        return [cint(x) % n for x in it], False
    return None


def mat_get(I, st, v, c, i, node):
    nr, nc = len(c.rows), len(c.rows[0]) if c.rows else 0
    ix = list(i.items) if type(i) is TupV else [i]
    if len(ix) > 2:
        return I.throw(st, 'IndexError', 'too many indices for array', node)
    r = mat_axis(I, st, ix[0], nr)
    k = mat_axis(I, st, ix[1], nc) if len(ix) == 2 else (list(range(nc)), False)
    if 'IndexError' in (r, k):
        return I.throw(st, 'IndexError', 'index is out of bounds', node)
    if r is None or k is None:
        st.blame('matrix indexing')
        return [(st, I.top(st, 'matrix indexing'))]
    if r[1] and k[1]:
        return [(st, c.rows[r[0][0]][k[0][0]])]
    return [(st, st.alloc(MatC(tuple(tuple(c.rows[x][y] for y in k[0]) for x in r[0]))))]


def mat_set(I, st, v, c, i, val, node):
    I.mat_ok = True
    nr, nc = len(c.rows), len(c.rows[0]) if c.rows else 0
    ix = list(i.items) if type(i) is TupV else [i]
    r = mat_axis(I, st, ix[0], nr) if len(ix) <= 2 else 'IndexError'
    k = mat_axis(I, st, ix[1], nc) if len(ix) == 2 else (list(range(nc)), False)
    if 'IndexError' in (r, k):
        I.throw(st, 'IndexError', 'index is out of bounds', node)
        I.mat_ok = False
        return
    if r is None or k is None:
        st.blame('matrix store')
        return
    rows = [list(x) for x in c.rows]
    items = seq(I, st, val)
    vr = None
    if type(val) is Ref and type(st.cell(val.a)) is MatC:
        vr = [list(x) for x in st.cell(val.a).rows]
    elif items is not None:
        sub = [seq(I, st, x) for x in items]
        vr = [list(x) for x in sub] if all(x is not None for x in sub) else [items]
    for a, x in enumerate(r[0]):
        for b, y in enumerate(k[0]):
            if vr is None:
                rows[x][y] = val
            else:
                try:
                    row = vr[a] if len(vr) > 1 else vr[0]
                    rows[x][y] = row[b] if len(row) > 1 else row[0]
                except IndexError:
                    I.throw(st, 'ValueError', 'could not broadcast blocks', node)
                    I.mat_ok = False
                    return
    st.put(v.a, MatC(tuple(tuple(x) for x in rows)))


# ------------------------------------------------------------------ attributes
ARRMETHODS = {'copy', 'astype', 'conjugate', 'conj', 'reshape', 'ravel', 'flatten', 'squeeze', 'dot', 'sum', 'max', 'min',
              'mean', 'fill', 'transpose', 'view', 'tolist', 'any', 'all', 'item', 'argmax', 'argmin', 'nonzero', 'prod',
              'sort', 'itemset', 'put', 'resize', 'round', 'clip', 'cumsum', 'norm', 'tobytes', 'take', 'trace', 'std',
              'var', 'setflags', 'swapaxes', 'repeat', 'byteswap', 'diagonal', 'ptp', 'searchsorted', '__mul__', '__add__',
              '__getitem__', '__setitem__', '__len__'}
LISTMETHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'index', 'count', 'reverse', 'sort', '__getitem__',
               '__setitem__', '__len__', 'copy', 'clear', '__contains__', '__iter__', '__delitem__'}
DICTMETHODS = {'get', 'pop', 'keys', 'values', 'items', 'has_key', 'update', 'setdefault', 'iteritems', 'iterkeys',
               'itervalues', 'copy', 'clear', 'popitem', '__contains__', '__getitem__', '__setitem__', '__len__'}
STRMETHODS = set(n for n in dir(str)) | {'decode'}


def obj_attr(I, st, v, c, name, node):
    tc = type(c)
    if tc in (ArrC, ViewC):
        if name == 'shape':
            return [(st, TupV(tuple(Num(d, LI, False) if d.const() is None else Num(d, LI, True) for d in c.dims)))]
        if name == 'dtype':
            return [(st, DT(A.dt(st, v)))]
        if name == 'ndim':
            return [(st, num(len(c.dims)))]
        if name == 'size':
            p = ONE
            for d in c.dims:
                p = pmul(p, d)
            return [(st, Num(p, LI, False))]
        if name == 'T':
            return [(st, transpose(I, st, v))]
        if name in ('real', 'imag'):
            return [(st, realpart(I, st, v, name))]
        if name in ('flat',):
            return [(st, A.alias(st, v, c.dims))]
        if name in ('nbytes', 'itemsize', 'strides', 'flags', 'base', 'data', 'ctypes'):
            return [(st, Top('array attribute'))]
        if name in ARRMETHODS:
            return [(st, ExtM(v, name))]
        return I.throw(st, 'AttributeError', 'ndarray has no attribute %r' % name, node)
    ok = {ListC: LISTMETHODS, ListS: LISTMETHODS, DictC: DICTMETHODS,
          SetC: set(dir(set)), MatC: {'__getitem__', '__setitem__', 'tolist', 'shape', 'T', 'copy', 'ndim', 'size', 'A',
                                      'transpose', 'item', 'flatten', 'ravel'}}[tc]
    if tc is MatC and name == 'shape':
        return [(st, TupV((num(len(c.rows)), num(len(c.rows[0]) if c.rows else 0))))]
    if tc is MatC and name == 'T':
        return [(st, st.alloc(MatC(tuple(zip(*c.rows)))))]
    if name in ok:
        return [(st, ExtM(v, name))]
    return I.throw(st, 'AttributeError', '%s has no attribute %r' % (tyname(I, st, v), name), node)


def transpose(I, st, v):
    c = st.cell(v.a)
    if len(c.dims) < 2:
        return A.alias(st, v, c.dims)
    return A.view(st, v, ('tp',), c.dims[::-1])


def realpart(I, st, v, which):
    d = A.dt(st, v)
    if D.is_real(d) or (D.is_real(d) is None and I.assume_real):
        if which == 'real':
            return A.alias(st, v, A.dims(st, v))
        return A.new(st, FZERO, A.dims(st, v), d)
    return A.new(st, fmul1('re' if which == 'real' else 'im', A.form(st, v)), A.dims(st, v), redt(d))


def redt(d):
    m = {'c8': 'f4', 'c16': 'f8', 'c32': 'f16', '~c': '~f'}
    return D.norm(m.get(e, e) for e in d)


def num_re(I, v):
    if T.positive_poly(v.p) or D.is_real(v.dt) or (D.is_real(v.dt) is None and I.assume_real):
        return Num(v.p, redt(v.dt), v.lit) if T.positive_poly(v.p) else v
    if T.MOVE[0] and T.positive_poly(pdiv(v.p, patom(atom('I')))):
        return Num(ZERO, redt(v.dt), False)
    return Num(patom(atom('re', v.p)) if v.p.const() is None else v.p, redt(v.dt), False)


def num_im(I, v):
    if T.positive_poly(v.p):
        return Num(ZERO, redt(v.dt), False)
    q = pdiv(v.p, patom(atom('I'))) if T.MOVE[0] else ZERO
    if T.positive_poly(q):
        return Num(q, redt(v.dt), False)
    if D.is_real(v.dt) or (D.is_real(v.dt) is None and I.assume_real):
        return Num(ZERO, v.dt, False)
    return Num(patom(atom('im', v.p)) if v.p.const() is None else ZERO, redt(v.dt), False)


def num_conj(I, v):
    if D.is_real(v.dt) or (D.is_real(v.dt) is None and I.assume_real):
        return v
    return Num(pconj(v.p), v.dt, False)


def val_attr(I, st, v, name, node):
    t = type(v)
    if t is Num:
        if name == 'real':
            return [(st, num_re(I, v))]
        if name == 'imag':
            return [(st, num_im(I, v))]
        if name in ('conjugate', 'conj'):
            return [(st, ExtM(v, name))]
        if name == 'dtype':
            return [(st, DT(D.strong(v.dt)))]
        if name == 'shape':
            return [(st, TupV(()))]
        if name in ('copy', 'astype', 'item', 'max', 'min', 'sum', 'squeeze', 'round', 'is_integer'):
            return [(st, ExtM(v, name))]
        if name in ('ndim',):
            return [(st, num(0))]
        if name in ('size',):
            return [(st, num(1))]
        if name == 'T':
            return [(st, v)]
        return I.throw(st, 'AttributeError', 'number has no attribute %r' % name, node)
    if t is Const and isinstance(v.v, str) or t is StrV:
        if name in STRMETHODS:
            return [(st, ExtM(v, name))]
        return I.throw(st, 'AttributeError', 'str has no attribute %r' % name, node)
    if t is Const and v.v is None:
        return I.throw(st, 'AttributeError', 'None has no attribute %r' % name, node)
    if t in (Const, BCmp, BSym):
        if name in ('conjugate', 'all', 'any', 'item'):
            return [(st, ExtM(v, name))]
        if name == 'dtype':
            return [(st, DT(frozenset(['b1'])))]
        return I.throw(st, 'AttributeError', 'bool has no attribute %r' % name, node)
    if t is OpV:
        return op_attr(I, st, v, name, node)
    if t is DT:
        if name == 'type':
            return [(st, v)]
        if name in ('name', 'char', 'kind', 'str'):
            if name == 'kind' and all(e in D.CONC for e in v.dt) and len(v.dt) == 1:
                e = next(iter(v.dt))
                return [(st, Const({0: 'b', 1: 'u' if e[0] == 'u' else 'i', 2: 'f', 3: 'c'}[D.kind(e)]))]
            return [(st, StrV())]
        if name == 'itemsize':
            return [(st, Num(patom(atom('dim', 'itemsize')), LI, False))]
        if name == 'eps':
            return [(st, Num(patom(atom('eps', A.sdt(v.dt))), LF, False))]
        return [(st, I.top(st, 'attribute of a dtype'))]
    if t is Ext:
        return ext_getattr(I, st, v, name, node)
    if t is ExtM:
        return [(st, I.top(st, 'attribute of a method'))]
    if t in (FnV, Bound):
        f = v.fn if t is Bound else v
        if name in ('__name__', 'func_name'):
            return [(st, Const(f.code.name) if type(f) is FnV else StrV())]
        if name == '__doc__':
            return [(st, StrV())]
        if name in ('im_self', '__self__') and t is Bound:
            return [(st, v.self)]
        return I.throw(st, 'AttributeError', 'function has no attribute %r' % name, node)
    if t is SliceV:
        if name in ('start', 'stop', 'step'):
            return [(st, {'start': v.a, 'stop': v.b, 'step': v.s}[name])]
        if name == 'indices':
            return [(st, ExtM(v, name))]
        return I.throw(st, 'AttributeError', 'slice has no attribute %r' % name, node)
    if t is TupV:
        if name in ('index', 'count', '__len__', '__getitem__'):
            return [(st, ExtM(v, name))]
        return I.throw(st, 'AttributeError', 'tuple has no attribute %r' % name, node)
    if t is ExcV:
        return [(st, StrV())]
    if t is PropV:
        return [(st, ExtM(v, name))]
    if t in (Top, Stale):
        if t is Stale:
            I.event('stale', 'the value of %s from an earlier solve is used' % v.attr, st, node, v.attr)
        return [(st, Top('attribute of an unknown value'))]
    return I.throw(st, 'AttributeError', '%s has no attribute %r' % (tyname(I, st, v), name), node)


LOGMETHODS = {'debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'isEnabledFor',
              'getEffectiveLevel', 'hasHandlers'}
LOGCONFIG = {'setLevel', 'addHandler', 'removeHandler', 'addFilter', 'removeFilter', 'propagate', 'disabled', 'handlers',
             'level', 'name', 'parent', 'setFormatter', 'manager', 'filters', 'root', 'getChild', 'callHandlers', 'handle'}


def ext_getattr(I, st, v, name, node):
    p = v.path
    if p.startswith('logger'):
        if name in LOGMETHODS or name in LOGCONFIG:
            if name in ('level', 'name', 'parent', 'handlers', 'propagate', 'disabled', 'filters'):
                return [(st, Top('logger attribute'))]
            return [(st, ExtM(v, name))]
        return I.throw(st, 'AttributeError', 'Logger has no attribute %r' % name, node)
    if p == 'rng':
        return [(st, ExtM(v, name))]
    if p.startswith('finfo:'):
        if name in ('eps', 'tiny', 'resolution', 'max', 'min', 'epsneg', 'epsilon', 'smallest_normal'):
            nm = 'eps' if name == 'epsilon' else name
            a = atom('eps', nm + p[6:]) if nm != 'min' else atom('s', 'fmin')
            return [(st, Num(patom(a), LF, False))]
        return [(st, I.top(st, 'finfo attribute'))]
    if p in PYTYPES or p in ('str', 'list', 'dict', 'object', 'tuple', 'type', 'slice', 'set'):
        if name == '__name__':
            return [(st, Const(p))]
        if name == '__init__':
            return [(st, Ext(p + '.__init__'))]
        if p in PYTYPES and name not in dir(getattr(_pyb, p, float)):
            return I.throw(st, 'AttributeError', 'type %s has no attribute %r' % (p, name), node)
        return [(st, Ext(p + '.' + name))]
    if p.startswith('hook:') or p.startswith('obj:') or p.startswith('ctx:'):
        return [(st, I.top(st, 'attribute of ' + p))]
    if name.startswith('__') and name.endswith('__'):
        return [(st, StrV() if name in ('__name__', '__version__', '__doc__', '__file__') else I.top(st, name))]
    r = ext_attr(p, name)
    if r is None:
        return I.throw(st, 'AttributeError', '%s has no attribute %r' % (p, name), node)
    return [(st, r)]


def obj_setattr(I, st, v, c, name, val, node):
    if type(c) in (ArrC, ViewC):
        if name == 'shape':
            st.blame('array shape assigned')
            return [st]
        if name in ('real',) and A.is_arr(st, v):
            return setitem(I, st, v, SliceV(NONE, NONE, NONE), val, node)
        st.blame('array attribute assigned')
        return [st]
    return I.throw(st, 'AttributeError', '%s object has no attribute %r' % (tyname(I, st, v), name), node)


# ------------------------------------------------------------------ abstract operators
def op_info(I, v):
    i = I.ops[v.name]
    m, n = i['dims']
    return i, ((n, m) if v.t else (m, n))


def norm_op(v):
    l = op_letter(v.name, v.t, v.c)
    return OpV(v.name, l[2], l[3]) if l else OpV(v.name, False, False)


def op_attr(I, st, v, name, node):
    i, (m, n) = op_info(I, v)
    if name == 'shape':
        return [(st, TupV((Num(m, LI, m.const() is not None), Num(n, LI, n.const() is not None))))]
    if name == 'nargin':
        return [(st, Num(n, LI, False))]
    if name == 'nargout':
        return [(st, Num(m, LI, False))]
    if name == 'dtype':
        if i.get('nodtype'):
            return [(st, I.top(st, 'dtype of ' + v.name))]
        return [(st, DT(i['dt']))]
    if name == 'T':
        return [(st, norm_op(OpV(v.name, not v.t, v.c)))]
    if name == 'H':
        return [(st, norm_op(OpV(v.name, not v.t, not v.c)))]
    if name in ('symmetric', 'hermitian'):
        s = i.get(name)
        return [(st, s if s is not None else BSym((name, v.name), False))]
    if name == 'nMatvec':
        return [(st, Num(patom(atom('opcount', v.name)), LI, False))]
    if name in ('__mul__', '__call__', 'matvec', 'rmatvec', 'conjugate', 'reset_counters', 'to_array', 'full'):
        if name == 'matvec':
            return I.throw(st, 'AttributeError', 'operator has no attribute %r' % name, node)
        return [(st, ExtM(v, name))]
    if name == 'logger':
        return [(st, Ext('logger:op'))]
    if name == 'bar':
        return [(st, norm_op(OpV(v.name, v.t, not v.c)))]
    if name == '__class__':
        return [(st, Top('class of an operator'))]
    return I.throw(st, 'AttributeError', 'operator has no attribute %r' % name, node)


def op_apply(I, st, v, x, node):
    i, (m, n) = op_info(I, v)
    if type(x) in (Top, Stale):
        st.blame('operator applied to an unknown value')
        return [(st, I.top(st, 'operator applied to an unknown value'))]
    if not A.is_arr(st, x):
        if type(x) in (Num, OpV):
            st.blame('algebra of abstract operators')
            return [(st, I.top(st, 'algebra of abstract operators'))]
        return I.throw(st, 'ValueError', 'operator applied to %s' % tyname(I, st, x), node)
    d = A.dims(st, x)
    if len(d) != 1:
        st.blame('operator applied to an array that is not a vector')
    elif A.same(st, d[0], n) is False:
        return I.throw(st, 'ValueError', 'operator of size %s applied to a vector of size %s' % (n, d[0]), node)
    elif A.same(st, d[0], n) is None:
        S.assume(st, psub(d[0], n), S.ZER)
    g = 'n:' + v.name
    st.g[g] = padd(st.g.get(g, ZERO), ONE)
    gp = 'p:' + v.name
    if gp in st.g:
        st.g[gp] += 1          # an int: separates paths
    f = A.form(st, x)
    I.on_apply(st, v, f, node)
    dt = A.dt(st, x) if i.get('neutral') else D.promote([i['dt'], A.dt(st, x)])
    r = A.new(st, fapply(op_letter(v.name, v.t, v.c), f), (m,), dt)
    return [(st, r)]


# ------------------------------------------------------------------ decorators, star imports
def decorate(I, st, dv, f, node):
    t = type(dv)
    if t is Ext and dv.path == 'property':
        return [(st, PropV(f, None))]
    if t is ExtM and type(dv.recv) is PropV:
        if dv.name == 'setter':
            return [(st, PropV(dv.recv.get, f))]
        if dv.name == 'getter':
            return [(st, PropV(f, dv.recv.set))]
        return [(st, dv.recv)]
    if t is Ext and dv.path in ('staticmethod', 'classmethod'):
        return [(st, MethV(dv.path[:-6], f))]
    if t is Ext and dv.path in ('functools.wraps',):
        return [(st, f)]
    if t is ExtM and dv.name == 'identity':
        return [(st, f)]
    return I.call(st, dv, [f], {}, node)


def star_names(I, st, g):
    a = g.vars.get('__all__')
    if a is not None:
        it = items_of(I, st, a)
        if it is not None:
            return [x.v for x in it if type(x) is Const]
    return [n for n in sorted(g.vars) if not n.startswith('_')]


# ------------------------------------------------------------------ methods
def argc(I, st, args, kw, lo, hi, what, node, names=()):
    if not lo <= len(args) + len(kw) <= hi or any(k not in names for k in kw):
        I.throw(st, 'TypeError', '%s: wrong arguments' % what, node)
        return False
    return True


def call_method(I, st, recv, name, args, kw, node):
    t = type(recv)
    if t is Ref:
        c = st.cell(recv.a)
        tc = type(c)
        if tc in (ArrC, ViewC):
            return arr_method(I, st, recv, c, name, args, kw, node)
        if tc in (ListC, ListS):
            return list_method(I, st, recv, c, name, args, kw, node)
        if tc is DictC:
            return dict_method(I, st, recv, c, name, args, kw, node)
        if tc is MatC:
            if name == '__getitem__':
                return mat_get(I, st, recv, c, args[0], node)
            if name == '__setitem__':
                mat_set(I, st, recv, c, args[0], args[1], node)
                return [(st, NONE)] if I.mat_ok else []
            if name == 'tolist':
                return [(st, st.alloc(ListC(tuple(st.alloc(ListC(r)) for r in c.rows))))]
            if name == 'copy':
                return [(st, st.alloc(c))]
            if name == 'transpose':
                return [(st, st.alloc(MatC(tuple(zip(*c.rows)))))]
            if name == 'item' and not args and len(c.rows) == 1 and len(c.rows[0]) == 1:
                return [(st, c.rows[0][0])]
        if tc is SetC:
            if name == 'add':
                if args[0] not in c.items:
                    st.put(recv.a, SetC(c.items + (args[0],)))
                return [(st, NONE)]
            if name in ('union', 'intersection', 'difference', 'issubset', 'update', 'discard', 'remove'):
                return [(st, I.top(st, 'set method'))]
        st.blame('method ' + name)
        return [(st, I.top(st, 'method ' + name))]
    if t is Const and isinstance(recv.v, str) or t is StrV:
        return str_method(I, st, recv, name, args, kw, node)
    if t is Num:
        if name in ('conjugate', 'conj'):
            return [(st, num_conj(I, recv))]
        if name in ('copy', 'item', 'max', 'min', 'sum', 'squeeze'):
            return [(st, recv)]
        if name == 'astype':
            d = as_dt(I, st, args[0]) if args else None
            return [(st, Num(recv.p, D.weaken(d), False) if d else Top('astype'))]
        return [(st, I.top(st, 'number method ' + name))]
    if t in (Const, BCmp, BSym):
        return [(st, recv)]
    if t is OpV:
        if name in ('__mul__', '__call__'):
            return op_apply(I, st, recv, args[0] if args else NONE, node)
        if name == 'rmatvec':
            return op_apply(I, st, norm_op(OpV(recv.name, not recv.t, not recv.c)), args[0] if args else NONE, node)
        if name == 'conjugate':
            return [(st, norm_op(OpV(recv.name, recv.t, not recv.c)))]
        if name == 'reset_counters':
            I.event('opwrite', 'the counters of the operator are reset', st, node)
            return [(st, NONE)]
        st.blame('operator method ' + name)
        return [(st, I.top(st, 'operator method ' + name))]
    if t is Ext:
        if recv.path.startswith('logger'):
            if name in LOGMETHODS:
                lo = 2 if name == 'log' else 1
                if len(args) < (0 if name in ('getEffectiveLevel', 'hasHandlers') else lo):
                    return I.throw(st, 'TypeError', 'logger.%s: missing arguments' % name, node)
                return [(st, NONE if name not in ('isEnabledFor', 'hasHandlers', 'getEffectiveLevel') else BSym(('log', name), False))]
            if not I.loading:
                I.event('deny', 'logger configuration changed by %s()' % name, st, node, 'logging.' + name)
            return [(st, NONE)]
        if recv.path == 'rng':
            return rng_method(I, st, name, args, kw, node)
        return call_ext(I, st, recv.path + '.' + name, args, kw, node)
    if t is SliceV and name == 'indices':
        return [(st, I.top(st, 'slice.indices'))]
    if t is TupV:
        if name == 'index':
            for k, x in enumerate(recv.items):
                if eq(I, st, x, args[0]) == TRUE:
                    return [(st, num(k))]
        if name == '__len__':
            return [(st, num(len(recv.items)))]
        if name == '__getitem__':
            return getitem(I, st, recv, args[0], node)
        return [(st, I.top(st, 'tuple method'))]
    if t is Top:
        I.havoc(st, [recv] + list(args) + list(kw.values()), 'method of an unknown object')
        return [(st, recv)]
    if t is PropV:
        return decorate(I, st, ExtM(recv, name), args[0], node)
    return [(st, I.top(st, 'method %s of %s' % (name, t.__name__)))]


def randomvec(dims):
    nm = 'rnd%d' % fresh('rnd').key[1]
    T.RANDOM[nm] = dims[0] if len(dims) == 1 else None
    T.REALS.add(nm)
    return fvec(nm)


def rng_method(I, st, name, args, kw, node):
    if name in ('random_sample', 'rand', 'randn', 'random', 'uniform', 'normal', 'standard_normal', 'random_integers',
                'randint', 'normal'):
        size = None
        if name in ('random_sample', 'rand', 'randn', 'random', 'standard_normal'):
            size = args[0] if args else kw.get('size')
        else:
            size = kw.get('size', args[2] if len(args) > 2 else None)
        if size is None or size == NONE:
            return [(st, Num(patom(fresh('rnd')), LF, False))]
        dims = shape_of(I, st, size)
        if dims is None:
            return [(st, I.top(st, 'random array'))]
        return [(st, A.new(st, randomvec(dims), dims, frozenset(['f8'])))]
    if name in ('seed', 'get_state', 'set_state'):
        return [(st, NONE)]
    return [(st, I.top(st, 'rng.' + name))]


def shape_of(I, st, v):
    if type(v) is Num:
        if D.is_int(v.dt) is False:
            return None
        return (v.p,)
    it = seq(I, st, v)
    if it is not None and all(type(x) is Num for x in it):
        return tuple(x.p for x in it)
    if A.is_arr(st, v):
        it = items_of(I, st, v)
        if it is not None:
            return tuple(x.p for x in it)
    return None


def cast(I, st, p_or_f, src, dst, node, what):
    """Reports a conversion that loses information."""
    bad = D.fits(src, dst)
    if bad is not True:
        I.event('cast', '%s converts dtype %s to %s' % (what, A.sdt(src), A.sdt(dst)), st, node, (src, dst))


def arr_method(I, st, v, c, name, args, kw, node):
    f = A.form(st, v)
    d = A.dt(st, v)
    if name == 'copy':
        return [(st, A.new(st, f, c.dims, d))]
    if name == 'astype':
        x = args[0] if args else kw.get('dtype')
        if x is None:
            return I.throw(st, 'TypeError', 'astype() missing required argument', node)
        t = as_dt(I, st, x)
        if t is None:
            if type(x) in (Top, Stale):
                st.blame('astype with an unknown dtype')
                return [(st, A.new(st, f, c.dims, d))]
            return I.throw(st, 'TypeError', 'data type not understood', node)
        cp = kw.get('copy', TRUE)
        if cp == FALSE and t == d:
            return [(st, v)]
        if cp not in (TRUE, FALSE) or (cp == FALSE and t != d):
            if D.may_equal(t, d):
                # may return the array itself
                s2 = st.fork()
                st.bf[('castcopy', tuple(sorted(d)), tuple(sorted(t)))] = True
                s2.bf[('castcopy', tuple(sorted(d)), tuple(sorted(t)))] = False
                cast(I, st, f, d, t, node, 'astype')
                return [(st, A.new(st, f, c.dims, t)), (s2, v)]
        cast(I, st, f, d, t, node, 'astype')
        if D.is_int(t) and D.is_int(d) is not True:
            f = fmul1('trunc', f)
        elif D.is_real(t) and D.is_real(d) is False:
            f = fmul1('re', f)
        return [(st, A.new(st, f, c.dims, t))]
    if name in ('conjugate', 'conj'):
        if D.is_real(d):
            return [(st, A.alias(st, v, c.dims))]
        if D.is_real(d) is None and I.assume_real:
            return [(st, A.alias(st, v, c.dims))]
        return [(st, A.new(st, fconj(f), c.dims, d))]
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else TupV(tuple(args)) if args else kw.get('shape', kw.get('newshape'))
        return reshape(I, st, v, c, sh, node)
    if name in ('ravel', 'squeeze'):
        if len(c.dims) == 1 or all(x is ONE for x in c.dims[1:]):
            return [(st, A.alias(st, v, c.dims[:1]))]
        if len(c.dims) == 2 and c.dims[0] is ONE:
            return [(st, A.alias(st, v, c.dims[1:]))]
        if name == 'squeeze':
            return [(st, A.alias(st, v, tuple(x for x in c.dims if x is not ONE)))]
        st.blame('ravel of a matrix')
        return [(st, I.top(st, 'ravel'))]
    if name == 'flatten':
        p = ONE
        for x in c.dims:
            p = pmul(p, x)
        return [(st, A.new(st, f, (p,), d))]
    if name == 'transpose':
        return [(st, transpose(I, st, v))]
    if name == 'view':
        return [(st, A.alias(st, v, c.dims))]
    if name == 'dot':
        return call_ext(I, st, 'numpy.dot', [v] + list(args), kw, node)
    if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'prod', 'argmax', 'argmin', 'std', 'var', 'cumsum', 'round',
                'clip', 'trace', 'nonzero', 'repeat', 'take'):
        return call_ext(I, st, 'numpy.' + name, [v] + list(args), kw, node)
    if name == 'fill':
        x = asnum(args[0]) if args else None
        if x is None:
            st.blame('fill')
            return [(st, NONE)]
        A.write(I, st, v, fscale(A.ones(), x.p), x.dt, node)
        return [(st, NONE)]
    if name in ('sort', 'resize', 'put', 'itemset', 'partition', 'byteswap'):
        A.write(I, st, v, fbase(fresh('phi', name)), None, node)
        return [(st, NONE)]
    if name == 'item':
        if not args and all(x is ONE for x in c.dims):
            return [(st, Num(elem(f, ZERO), D.weaken(d), False))]
        return [(st, Num(patom(atom('item', f)), D.weaken(d), False))]
    if name == 'tolist':
        it = items_of(I, st, v)
        if it is not None:
            return [(st, st.alloc(ListC(tuple(it))))]
        return [(st, st.alloc(ListS(c.dims[0], Top('element'))))]
    if name == '__len__':
        return [(st, Num(c.dims[0], LI, False))]
    if name == '__getitem__':
        return getitem(I, st, v, args[0], node)
    if name == '__setitem__':
        return [(s, NONE) for s in setitem(I, st, v, args[0], args[1], node)]
    if name == '__mul__':
        return arith(I, st, '*', v, args[0], node)
    if name == '__add__':
        return arith(I, st, '+', v, args[0], node)
    st.blame('array method ' + name)
    return [(st, I.top(st, 'array method ' + name))]


def reshape(I, st, v, c, sh, node):
    if sh is None:
        return I.throw(st, 'TypeError', 'reshape() needs a shape', node)
    dims = shape_of(I, st, sh)
    if dims is None:
        st.blame('reshape')
        return [(st, I.top(st, 'reshape'))]
    tot = ONE
    for x in c.dims:
        tot = pmul(tot, x)
    if len(dims) == 1 and dims[0].const() == -1:
        dims = (tot,)
    elif any(x.const() == -1 for x in dims):
        other = ONE
        for x in dims:
            if x.const() != -1:
                other = pmul(other, x)
        dims = tuple(pdiv(tot, other) if x.const() == -1 else x for x in dims)
    want = ONE
    for x in dims:
        want = pmul(want, x)
    r = A.same(st, want, tot)
    if r is False:
        return I.throw(st, 'ValueError', 'cannot reshape array of size %s into size %s' % (tot, want), node, internal=True)
    outs = []
    if r is None:
        s2 = st.fork()
        if S.assume(s2, psub(want, tot), frozenset('-+')):
            I.throw(s2, 'ValueError', 'cannot reshape array of size %s into size %s' % (tot, want), node, internal=True)
        S.assume(st, psub(want, tot), S.ZER)
    if len(dims) == len(c.dims) or len([x for x in dims if x is not ONE]) == len([x for x in c.dims if x is not ONE]):
        return [(st, A.alias(st, v, dims))]
    st.blame('reshape to another rank')
    return [(st, A.new(st, fbase(atom('reshape', A.form(st, v), tuple(dims))), dims, A.dt(st, v)))]


def in_history(I, st, lref):
    """Is the list an attribute of some object?"""
    for a, c in st.heap.items():
        if type(c) is InstC:
            for x in c.attrs.values():
                if x == lref:
                    return True
    return False


def list_method(I, st, v, c, name, args, kw, node):
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', '__setitem__', '__delitem__', 'clear'):
        shared_write(I, st, v, node)
    if name == 'append':
        if len(args) != 1:
            return I.throw(st, 'TypeError', 'append() takes exactly one argument', node)
        x = args[0]
        if A.is_arr(st, x) and in_history(I, st, v):
            ra, rc, ls = A.root(st, x)
            if rc.prov:
                I.event('storecaller', 'an array of the caller is kept in a history', st, node)
            st.put(ra, rc.replace(stored=True))
        if type(c) is ListC and not I.symloop and len(c.items) < 60:
            st.put(v.a, ListC(c.items + (x,)))
        else:
            n = length(I, st, v)
            st.put(v.a, ListS(padd(n, ONE), x))
        return [(st, NONE)]
    if name == 'extend':
        return [(s, NONE) for s, _ in inplace(I, st, ast.Add(), v, args[0], node)]
    if name in ('__getitem__',):
        return getitem(I, st, v, args[0], node)
    if name == '__setitem__':
        return [(s, NONE) for s in setitem(I, st, v, args[0], args[1], node)]
    if name == '__delitem__':
        return [(s, NONE) for s in delitem(I, st, v, args[0], node)]
    if name == '__len__':
        return [(st, Num(length(I, st, v), LI, False))]
    if name == '__contains__':
        return contains(I, st, v, args[0], node)
    if name == 'copy':
        return [(st, st.alloc(c))]
    if name == 'clear':
        st.put(v.a, ListC(()))
        return [(st, NONE)]
    if type(c) is ListC:
        l = list(c.items)
        if name == 'insert':
            k = cint(args[0])
            if k is None:
                st.blame('insert at an unknown position')
                return [(st, NONE)]
            l.insert(k, args[1])
            st.put(v.a, ListC(tuple(l)))
            return [(st, NONE)]
        if name == 'pop':
            k = cint(args[0]) if args else -1
            if k is None:
                st.blame('pop at an unknown position')
                return [(st, I.top(st, 'pop'))]
            if not l or not -len(l) <= k < len(l):
                return I.throw(st, 'IndexError', 'pop index out of range', node)
            x = l.pop(k)
            st.put(v.a, ListC(tuple(l)))
            return [(st, x)]
        if name == 'reverse':
            st.put(v.a, ListC(tuple(l[::-1])))
            return [(st, NONE)]
        if name == 'index':
            for k, x in enumerate(l):
                if eq(I, st, x, args[0]) == TRUE:
                    return [(st, num(k))]
            return [(st, I.top(st, 'index'))]
        if name == 'count':
            return [(st, Num(patom(fresh('len', 'count')), LI, False))]
        if name == '__iter__':
            return [(st, v)]
        st.blame('list method ' + name)
        return [(st, I.top(st, 'list.' + name))]
    if name == 'pop':
        n2 = psub(c.count, ONE)
        k = cint(args[0]) if args else -1
        st.put(v.a, ListS(n2, c.last if k == 0 else Top('element')))
        return [(st, c.last if k == -1 else sym_item(I, st, v, ZERO))]
    st.blame('list method ' + name)
    return [(st, I.top(st, 'list.' + name))]


def dict_method(I, st, v, c, name, args, kw, node):
    key = args[0] if args else None
    if name in ('pop', 'update', 'setdefault', 'clear', 'popitem', '__setitem__'):
        shared_write(I, st, v, node)
    has = [x for k, x in c.items if k == key]
    if name == 'get':
        if not args:
            return I.throw(st, 'TypeError', 'get expected at least 1 argument', node)
        if has:
            return [(st, has[0])]
        return [(st, args[1] if len(args) > 1 else NONE)]
    if name == 'pop':
        if has:
            st.put(v.a, DictC(tuple((k, x) for k, x in c.items if k != key), c.open))
            return [(st, has[0])]
        if len(args) > 1:
            return [(st, args[1])]
        return I.throw(st, 'KeyError', repr(key), node)
    if name in ('keys', 'iterkeys', '__iter__'):
        return [(st, st.alloc(ListC(tuple(k for k, x in c.items))))]
    if name in ('values', 'itervalues'):
        return [(st, st.alloc(ListC(tuple(x for k, x in c.items))))]
    if name in ('items', 'iteritems'):
        return [(st, st.alloc(ListC(tuple(TupV((k, x)) for k, x in c.items))))]
    if name in ('has_key', '__contains__'):
        return contains(I, st, v, key, node)
    if name == '__getitem__':
        return getitem(I, st, v, key, node)
    if name == '__setitem__':
        return [(s, NONE) for s in setitem(I, st, v, args[0], args[1], node)]
    if name == 'copy':
        return [(st, st.alloc(c))]
    if name == 'clear':
        st.put(v.a, DictC((), False))
        return [(st, NONE)]
    if name == 'setdefault':
        if has:
            return [(st, has[0])]
        x = args[1] if len(args) > 1 else NONE
        st.put(v.a, DictC(dset(c.items, key, x), c.open))
        return [(st, x)]
    if name == 'update':
        items = c.items
        if args:
            o = st.cell(args[0].a) if type(args[0]) is Ref else None
            if type(o) is not DictC:
                st.blame('dict.update')
                return [(st, NONE)]
            for k, x in o.items:
                items = dset(items, k, x)
        for k in kw:
            items = dset(items, Const(k), kw[k])
        st.put(v.a, DictC(items, c.open))
        return [(st, NONE)]
    if name == '__len__':
        return [(st, num(len(c.items)))]
    st.blame('dict method ' + name)
    return [(st, I.top(st, 'dict.' + name))]


def str_method(I, st, v, name, args, kw, node):
    if name == 'format':
        return [(st, StrV())]
    if type(v) is Const and all(type(a) is Const or cint(a) is not None for a in args) and not kw:
        pa = [a.v if type(a) is Const else cint(a) for a in args]
        try:
            r = getattr(v.v, name)(*pa)
        except Exception as e:
            return I.throw(st, type(e).__name__, str(e), node)
        if isinstance(r, (str, bool)):
            return [(st, Const(r))]
        if isinstance(r, int):
            return [(st, num(r))]
        if isinstance(r, list):
            return [(st, st.alloc(ListC(tuple(Const(x) for x in r))))]
        if isinstance(r, tuple):
            return [(st, TupV(tuple(Const(x) for x in r)))]
        return [(st, StrV())]
    if name == 'join':
        it = items_of(I, st, args[0]) if args else None
        if it is not None:
            if any(x == NONE or type(x) in (Num, OpV) for x in it):
                return I.throw(st, 'TypeError', 'join of something that is not a string', node)
            if type(v) is Const and all(type(x) is Const and isinstance(x.v, str) for x in it):
                return [(st, Const(v.v.join(x.v for x in it)))]
        return [(st, StrV())]
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'islower', 'isupper'):
        return [(st, BSym(('str', fresh('s', 'c').id), False))]
    if name in ('find', 'index', 'count', 'rfind'):
        return [(st, Num(patom(fresh('s', 'find')), LI, False))]
    if name in ('split', 'splitlines', 'rsplit'):
        return [(st, st.alloc(ListS(patom(fresh('len', 'split')), StrV())))]
    return [(st, StrV())]


def call_ext(I, st, path, args, kw, node):
    import externs
    return externs.call_ext(I, st, path, args, kw, node)
