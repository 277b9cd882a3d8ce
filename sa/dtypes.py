"""Abstract NumPy dtypes: finite sets of elements.

Concrete names ('i8', 'f4', ...), weak Python scalar kinds ('~b', '~i', '~f',
'~c') and symbols ('D:op') standing for an arbitrary numeric dtype; a weak
symbol ('~D:op') is the kind of a scalar of that dtype.  The set means the
NumPy promotion of its elements.
"""

ORDER = ['b1', 'u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8', 'f2', 'f4', 'f8', 'f16', 'c8', 'c16', 'c32']
INTS = frozenset(['u1', 'i1', 'u2', 'i2', 'u4', 'i4', 'u8', 'i8'])
FLOATS = frozenset(['f2', 'f4', 'f8', 'f16'])
CPLX = frozenset(['c8', 'c16', 'c32'])
CONC = frozenset(ORDER)
WEAK = ['~b', '~i', '~f', '~c']


def kind(e):
    if e[0] == '~':
        return {'b': 0, 'i': 1, 'f': 2, 'c': 3}.get(e[1]) if len(e) == 2 else None
    if e == 'b1':
        return 0
    if e in INTS:
        return 1
    if e in FLOATS:
        return 2
    if e in CPLX:
        return 3
    return None


def size(e):
    return int(e[1:])


def conc2(a, b):
    """Promotion of two concrete dtypes (numpy.promote_types)."""
    if a == b:
        return a
    ka, kb = kind(a), kind(b)
    if ka > kb:
        a, b, ka, kb = b, a, kb, ka
    if ka == 0:
        return b
    if ka == kb == 1:
        if a[0] == b[0]:
            return a if size(a) > size(b) else b
        u, i = (a, b) if a[0] == 'u' else (b, a)
        if size(i) > size(u):
            return i
        if size(u) == 8:
            return 'f8'
        return 'i%d' % (2 * size(u))
    if ka == kb:
        return a if size(a) > size(b) else b
    if ka == 1:
        need = {1: 2, 2: 4}.get(size(a), 8)
        if kb == 2:
            return 'f%d' % max(need, size(b))
        return 'c%d' % max(2 * max(need, 4), size(b))
    return 'c%d' % max(2 * max(size(a), 4), size(b))


def norm(elems):
    """Normal form of a set of elements."""
    conc = None
    syms, wsyms, weak = set(), set(), -1
    for e in elems:
        if e in CONC:
            conc = e if conc is None else conc2(conc, e)
        elif e[0] == '~' and len(e) == 2:
            weak = max(weak, kind(e))
        elif e[0] == '~':
            wsyms.add(e)
        else:
            syms.add(e)
    wsyms = set(e for e in wsyms if e[1:] not in syms)
    out = syms | wsyms
    if conc is not None:
        k = kind(conc)
        if weak > k:
            if weak == 1:
                conc = 'i8'
            elif weak == 2:
                conc = 'f8'
            elif weak == 3:
                conc = 'c8' if conc in ('f4', 'f2') else 'c16' if conc != 'f16' else 'c32'
        out.add(conc)
    elif weak >= 0:
        if weak >= 2 or not (syms or wsyms):
            out.add(WEAK[weak])
    return frozenset(out)


def weaken(dt):
    out = set()
    for e in dt:
        if e[0] == '~':
            out.add(e)
        elif e in CONC:
            out.add(WEAK[kind(e)])
        else:
            out.add('~' + e)
    return norm(out)


def promote(arrays, scalars=()):
    out = set()
    for d in arrays:
        out |= d
    if arrays:
        for d in scalars:
            out |= weaken(d)
    else:
        for d in scalars:
            out |= d
    return norm(out)


def strong(dt):
    """dtype of an array made from such a scalar."""
    m = {'~b': 'b1', '~i': 'i8', '~f': 'f8', '~c': 'c16'}
    return norm(m.get(e, e) for e in dt)


def fits(val, target):
    """Is every element of val representable in target? -> True / offending element"""
    tc = [e for e in target if e in CONC]
    tk = max([kind(e) for e in target if kind(e) is not None] or [-1])
    for e in val:
        if e in target or ('~' + e) in target and e[0] == '~':
            continue
        if e[0] == '~' and len(e) > 2:
            if e[1:] in target or e in target:
                continue
            return e
        if e in CONC:
            if tc and conc2(tc[0], e) == tc[0]:
                continue
            if kind(e) <= 1 and any(x not in CONC for x in target):
                continue
            return e
        if e[0] == '~':
            k = kind(e)
            if k <= 1 or k <= tk:
                continue
            return e
        return e
    return True


def may_equal(a, b):
    """Some choice of the symbolic dtypes makes both the same."""
    if a == b:
        return True
    for x in ('f8', 'c16', 'f4', 'i8'):
        def put(s):
            out = set()
            for e in s:
                if e in CONC or e[0] == '~' and len(e) == 2:
                    out.add(e)
                elif e[0] == '~':
                    out.add(WEAK[kind(x)])
                else:
                    out.add(x)
            return norm(out)
        if put(a) == put(b):
            return True
    return False


def is_real(dt):
    """True / False / None (unknown)."""
    ks = [kind(e) for e in dt]
    if any(k == 3 for k in ks):
        return False
    if any(k is None for k in ks):
        return None
    return True


def is_int(dt):
    """True: surely integral, False: surely not, None: unknown."""
    ks = [kind(e) for e in dt]
    if any(k is not None and k >= 2 for k in ks):
        return False
    if any(k is None for k in ks):
        return None
    return True


NAMES = {
    'bool': 'b1', 'bool_': 'b1', 'bool8': 'b1',
    'int': 'i8', 'int_': 'i8', 'intp': 'i8', 'int64': 'i8', 'longlong': 'i8', 'long': 'i8',
    'intc': 'i4', 'int32': 'i4', 'int16': 'i2', 'short': 'i2', 'int8': 'i1', 'byte': 'i1',
    'uint': 'u8', 'uint64': 'u8', 'uintp': 'u8', 'uint32': 'u4', 'uintc': 'u4', 'uint16': 'u2', 'uint8': 'u1',
    'ubyte': 'u1',
    'float': 'f8', 'float_': 'f8', 'float64': 'f8', 'double': 'f8', 'float32': 'f4', 'single': 'f4',
    'float16': 'f2', 'half': 'f2', 'float128': 'f16', 'longdouble': 'f16', 'longfloat': 'f16',
    'complex': 'c16', 'complex_': 'c16', 'complex128': 'c16', 'cdouble': 'c16', 'cfloat': 'c16',
    'complex64': 'c8', 'csingle': 'c8', 'complex256': 'c32', 'clongdouble': 'c32', 'clongfloat': 'c32',
    'd': 'f8', 'f': 'f4', 'g': 'f16', 'D': 'c16', 'F': 'c8', 'G': 'c32', 'i': 'i4', 'l': 'i8', 'q': 'i8', '?': 'b1',
    'f8': 'f8', 'f4': 'f4', 'c16': 'c16', 'c8': 'c8', 'i8': 'i8', 'i4': 'i4',
}
