"""The scenarios of the operator interface."""
from api import Api
import signs as S
from values import *
from terms import *

LIN = ('pykrylov.linop.linop', ['LinearOperator', 'BaseLinearOperator', 'IdentityOperator', 'DiagonalOperator', 'ZeroOperator',
                                'ReducedLinearOperator', 'SymmetricallyReducedLinearOperator', 'CoordLinearOperator',
                                'PysparseLinearOperator', 'linop_from_ndarray', 'sqrt', 'ShapeError'])
BLK = ('pykrylov.linop.blkop', ['BlockLinearOperator', 'BlockDiagonalLinearOperator', 'BlockPreconditioner',
                                'BlockDiagonalPreconditioner'])
FILE = 'pykrylov/linop/linop.py:'
NP = {'f8': 'np.float64', 'c16': 'np.complex128', 'f4': 'np.float32', 'c8': 'np.complex64', 'i8': 'np.int64',
      'i4': 'np.int32'}
SC = []          # (name, builder)


def sc(name, src, **k):
    k.setdefault('imports', (LIN, BLK))
    for kk, v in (('A', 'dA'), ('B', 'dB')):
        pass
    SC.append((name, src, k))


def two(a, b, r1=('m', 'n'), r2=('m', 'n'), pa=(), pb=()):
    return [('A', r1[0], r1[1], a, pa), ('B', r2[0], r2[1], b, pb)]


PAIRS = [('f8', 'f8'), ('c16', 'c16'), ('f8', 'c16'), ('c16', 'f8'), ('f4', 'f8'), ('i8', 'f8'), ('i8', 'f4'), ('i4', 'i8'),
         ('c8', 'f8')]
XD = ('f8', 'c16', 'i8')


def build():
    if SC:
        return SC
    # plain operators, every combination of given transposes
    for d in ('f8', 'c16', 'f4', 'i8', 'c8'):
        e = NP[d]
        one = [('A', 'm', 'n', d, ())]
        W = FILE + 'LinearOperator'
        sc('user %s' % d, '''
op = user(A, n, m, %s)
probe(W, op, lambda x: A*x, lambda x: A.T*x, lambda x: A.H*x, m, n, %s)
identical('C06', 'real-T-is-H', W, True, REAL is False or op.T is op.H or True)
''' % (e, e), ops=one, xdts=XD, extra={'W': Const(W), 'REAL': Const(d[0] != 'c')})
        sc('user %s, transpose only' % d, '''
op = LinearOperator(n, m, matvec=lambda v: A*v, matvec_transp=lambda v: A.T*v, dtype=%s)
probe(W, op, lambda x: A*x, lambda x: A.T*x, lambda x: A.H*x, m, n, %s)
''' % (e, e), ops=one, xdts=XD, extra={'W': Const(W)})
        sc('user %s, adjoint only' % d, '''
op = LinearOperator(n, m, matvec=lambda v: A*v, matvec_adj=lambda v: A.H*v, dtype=%s)
probe(W, op, lambda x: A*x, lambda x: A.T*x, lambda x: A.H*x, m, n, %s)
''' % (e, e), ops=one, xdts=XD, extra={'W': Const(W)})
        sc('user %s, neither' % d, '''
op = LinearOperator(n, m, matvec=lambda v: A*v, dtype=%s)
probe(W, op, lambda x: A*x, None, None, m, n, %s)
identical('C06', 'not-guessed', W, op.T, None)
identical('C06', 'not-guessed', W, op.H, None)
''' % (e, e), ops=one, xdts=XD, extra={'W': Const(W)})
        # symmetric / hermitian
        for sym, herm in ((1, 0), (0, 1), (1, 1)):
            if d[0] != 'c' and not (sym and herm) and not sym:
                continue
            props = (('sym',) if sym else ()) + (('herm',) if herm else ()) + (('real',) if sym and herm else ())
            if d[0] != 'c':
                props = ('sym',)
            s1 = [('A', 'n', 'n', d, props)]
            for given in ('none', 'both'):
                kw = '' if given == 'none' else 'matvec_transp=lambda v: A.T*v, matvec_adj=lambda v: A.H*v, '
                both = d[0] != 'c' or (sym and herm)
                src = '''
op = LinearOperator(n, n, matvec=lambda v: A*v, %ssymmetric=%r, hermitian=%r, dtype=%s)
equal('C06', 'declared', W, (op.symmetric, op.hermitian), (%r, %r))
''' % (kw, bool(sym), bool(herm), e, bool(sym), bool(herm))
                if sym:
                    src += "identical('C06', 'symmetric-T-is-self', W, op.T, op)\n"
                if herm and not sym:
                    src += "identical('C06', 'hermitian-H-is-self', W, op.H, op)\n"
                src += 'probe(W, op, lambda x: A*x, lambda x: A.T*x, lambda x: A.H*x, n, n, %s)\n' % e
                sc('user %s, symmetric=%d hermitian=%d, %s given' % (d, sym, herm, given), src, ops=s1, xdts=XD,
                   extra={'W': Const(W)})
    # an operator whose function hands back its argument or stored data
    sc('matvec returns its argument', '''
op = LinearOperator(n, n, matvec=lambda v: v, matvec_transp=lambda v: v, symmetric=False)
probe(W, op, lambda x: 1*x, lambda x: 1*x, lambda x: 1*x, n, n, np.float64)
''', xdts=XD, extra={'W': Const(FILE + 'LinearOperator._matvec')})
    sc('matvec returns stored data', '''
store = vec('store', m, 'f8')
def build(store):
    return LinearOperator(n, m, matvec=lambda v: store)
def use(op):
    y = op * vec('x', n, 'f8')
    value('C04', 'acts-as-defined', W, y, store)
    fresh('C02', 'result-is-fresh', W, y, op, store)
use(build(store))
''', extra={'W': Const(FILE + 'LinearOperator.__mul_vector')})
    sc('wrong output length', '''
op = LinearOperator(n, m, matvec=lambda v: vec('out', m + 1, 'f8'))
must_raise('C07', 'wrong-output-rejected', W, lambda: op * vec('x', n, 'f8'))
''', extra={'W': Const(FILE + 'LinearOperator._matvec')})

    # sums, differences, products
    for a, b in PAIRS:
        ea, eb = NP[a], NP[b]
        ops = two(a, b)
        for nm, sym in (('__add__', '+'), ('__sub__', '-')):
            sc('%s %s %s' % (a, sym, b), '''
op = user(A, n, m, %s) %s user(B, n, m, %s)
probe(W, op, lambda x: A*x %s B*x, lambda x: A.T*x %s B.T*x, lambda x: A.H*x %s B.H*x, m, n, np.result_type(%s, %s))
''' % (ea, sym, eb, sym, sym, sym, ea, eb), ops=ops, xdts=XD, extra={'W': Const(FILE + 'LinearOperator.' + nm)})
        sc('%s * %s' % (a, b), '''
op = user(A, p, m, %s) * user(B, n, p, %s)
probe(W, op, lambda x: A*(B*x), lambda x: B.T*(A.T*x), lambda x: B.H*(A.H*x), m, n, np.result_type(%s, %s))
''' % (ea, eb, ea, eb), ops=two(a, b, ('m', 'p'), ('p', 'n')), xdts=XD,
           extra={'W': Const(FILE + 'LinearOperator.__mul_linop')})
    # structure flags of combinations
    for d in ('f8', 'c16'):
        e = NP[d]
        for sa, ha, sb, hb in ((1, 0, 1, 0), (0, 1, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (1, 0, 0, 1)):
            if d == 'f8' and (sa != ha or sb != hb):
                sa = ha = sa or ha
                sb = hb = sb or hb
            pa = (('sym',) if sa else ()) + (('herm',) if ha else ())
            pb = (('sym',) if sb else ()) + (('herm',) if hb else ())
            if d == 'f8':
                pa, pb = ('sym',) if sa else (), ('sym',) if sb else ()
            ops = two(d, d, ('n', 'n'), ('n', 'n'), pa, pb)
            mk = 'user(A, n, n, %s, %r, %r)' % (e, bool(sa), bool(ha)), 'user(B, n, n, %s, %r, %r)' % (e, bool(sb), bool(hb))
            for nm, expr, f, ft, fh in (
                    ('__add__', 'P + Q', 'A*x+B*x', 'A.T*x+B.T*x', 'A.H*x+B.H*x'),
                    ('__sub__', 'P - Q', 'A*x-B*x', 'A.T*x-B.T*x', 'A.H*x-B.H*x'),
                    ('__mul_linop', 'P * Q', 'A*(B*x)', 'B.T*(A.T*x)', 'B.H*(A.H*x)'),
                    ('__add__', '(P + Q) * P', 'A*(A*x)+B*(A*x)', 'A.T*(A.T*x+B.T*x)', 'A.H*(A.H*x+B.H*x)')):
                sc('%s with %s %r %r' % (expr, d, pa, pb), '''
P = %s
Q = %s
op = %s
probe(W, op, lambda x: %s, lambda x: %s, lambda x: %s, n, n, %s)
''' % (mk[0], mk[1], expr, f, ft, fh, e), ops=ops, xdts=('f8', 'c16'), extra={'W': Const(FILE + 'LinearOperator.' + nm)})
    # scalars
    for d in ('f8', 'c16', 'i8', 'f4'):
        e = NP[d]
        for kind in ('f', 'i', 'c', 'f8', 'f4', 'c16'):
            for expr, f in (('P * c', 'c*(A%s*x)'), ('c * P', 'c*(A%s*x)')):
                if expr == 'c * P' and len(kind) > 1:
                    continue
                conj = 'c.conjugate()'
                sc('%s, %s operator, %s scalar' % (expr, d, kind), '''
P = user(A, n, m, %s)
op = %s
probe(W, op, lambda x: %s, lambda x: %s, lambda x: %s, m, n, np.result_type(%s, type(c)))
''' % (e, expr, f % '', f % '.T', (f % '.H').replace('c*', conj + '*', 1), e), ops=[('A', 'm', 'n', d, ())], xdts=XD,
                   nums=[('c', kind, None)], extra={'W': Const(FILE + 'LinearOperator.__mul_scalar')})
        for kind in ('f', 'i', 'c'):
            for way in ('P / c', 'classic(P, c)'):
                sc('%s, %s operator, %s scalar' % (way, d, kind), '''
P = user(A, n, m, %s)
op = %s
k = 1. / c
probe(W, op, lambda x: k*(A*x), lambda x: k*(A.T*x), lambda x: k.conjugate()*(A.H*x), m, n, np.result_type(%s, type(k)))
''' % (e, way, e), ops=[('A', 'm', 'n', d, ())], xdts=XD, nums=[('c', kind, frozenset('-+'))],
                   extra={'W': Const(FILE + 'LinearOperator.__div__')})
        sc('-P, %s' % d, '''
op = -user(A, n, m, %s)
probe(W, op, lambda x: -(A*x), lambda x: -(A.T*x), lambda x: -(A.H*x), m, n, %s)
''' % (e, e), ops=[('A', 'm', 'n', d, ())], xdts=XD, extra={'W': Const(FILE + 'LinearOperator.__neg__')})
        for k in range(5):
            f = 'x'
            ft = fh = 'x'
            for _ in range(k):
                f, ft, fh = 'A*(%s)' % f, 'A.T*(%s)' % ft, 'A.H*(%s)' % fh
            sc('P**%d, %s' % (k, d), '''
op = user(A, n, n, %s) ** %d
probe(W, op, lambda x: %s, lambda x: %s, lambda x: %s, n, n, %s)
''' % (e, k, f, ft, fh, e), ops=[('A', 'n', 'n', d, ())], xdts=('f8', 'c16'),
               extra={'W': Const(FILE + 'LinearOperator.__pow__')})
    for d, s, h, kind in (('c16', 0, 1, 'c'), ('c16', 1, 0, 'c'), ('c16', 0, 1, 'f'), ('f8', 1, 1, 'c'), ('f8', 1, 1, 'f'),
                          ('c16', 0, 1, 'i')):
        pr = (('sym',) if s else ()) + (('herm',) if h and d[0] == 'c' else ())
        sc('scalar times structured %s %r %s' % (d, pr, kind), '''
P = user(A, n, n, %s, %r, %r)
op = P * c
probe(W, op, lambda x: c*(A*x), lambda x: c*(A.T*x), lambda x: c.conjugate()*(A.H*x), n, n, np.result_type(%s, type(c)))
op = -P
probe(W, op, lambda x: -(A*x), lambda x: -(A.T*x), lambda x: -(A.H*x), n, n, %s)
op = P ** 2
probe(W, op, lambda x: A*(A*x), lambda x: A.T*(A.T*x), lambda x: A.H*(A.H*x), n, n, %s)
''' % (NP[d], bool(s), bool(h), NP[d], NP[d], NP[d]), ops=[('A', 'n', 'n', d, pr)], xdts=('f8', 'c16'), nums=[('c', kind, None)],
           extra={'W': Const(FILE + 'LinearOperator.__mul_scalar')})
    # views of combinations combined again
    for d in ('f8', 'c16'):
        e = NP[d]
        sc('nested %s' % d, '''
P = user(A, n, m, %s)
Q = user(B, m, n, %s)
op = (P * Q - 2 * P.T.T * P.H).T
probe(W, op, lambda x: B.T*(A.T*x) - 2*(A.H.T*(A.T*x)), lambda x: A*(B*x) - 2*(A*(A.H*x)),
      lambda x: (A*(B*x.conjugate()) - 2*(A*(A.H*x.conjugate()))).conjugate(), m, m, %s, False)
op = (P + Q.H).H
probe(W, op, lambda x: A.H*x + B*x, lambda x: (A*x.conjugate()).conjugate() + B.T*x, lambda x: A*x + B.H*x, n, m, %s, False)
op = P.conjugate() * Q.conjugate()
probe(W, op, lambda x: (A*(B*x.conjugate())).conjugate(), None, None, m, m, %s, False)
probe(W, P.H * P, lambda x: A.H*(A*x), lambda x: A.T*(A.H.T*x), lambda x: A.H*(A*x), n, n, %s)
''' % (e, e, e, e, e, e), ops=two(d, d, ('m', 'n'), ('n', 'm')), xdts=('f8', 'c16'),
           extra={'W': Const(FILE + 'LinearOperator.__mul_linop')})
    # shapes that do not conform
    sc('non-conforming', '''
P = user(A, n, m, np.float64)
Q = user(B, m, n, np.float64)
R = user(C, p, n, np.float64)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__add__', lambda: P + Q)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__sub__', lambda: P - Q)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__add__', lambda: P + 1.0)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__sub__', lambda: P - 1.0)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__mul_linop', lambda: P * P)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__mul_linop', lambda: R * P)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__pow__', lambda: P ** 2)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__pow__', lambda: P ** 0)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__pow__', lambda: P ** 1)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__mul__', lambda: P * None)
must_raise('C07', 'nonconforming-rejected', F + 'LinearOperator.__div__', lambda: P / Q)
''', ops=two('f8', 'f8', ('m', 'n'), ('n', 'm')) + [('C', 'n', 'p', 'f8', ())], extra={
        'F': Const(FILE), 'distinctdims': lambda a, st: (S.assume(st, psub(a.dims['m'], a.dims['n']), frozenset('-+')),
                                                         S.assume(st, psub(a.dims['m'], a.dims['p']), frozenset('-+')), NONE)[2]})
    more()
    return SC


def more():
    # identity, diagonal, zero
    for d in ('f8', 'c16', 'i8', 'f4'):
        e = NP[d]
        sc('identity %s' % d, '''
op = IdentityOperator(n, dtype=%s)
probe(W, op, lambda x: x, lambda x: x, lambda x: x, n, n, %s)
identical('C06', 'symmetric-T-is-self', W, op.T, op)
''' % (e, e), xdts=XD, extra={'W': Const(FILE + 'IdentityOperator')})
        sc('zero %s' % d, '''
op = ZeroOperator(n, m, dtype=%s)
probe(W, op, lambda x: np.zeros(m), lambda x: np.zeros(n), lambda x: np.zeros(n), m, n, %s)
op = ZeroOperator(n, n, dtype=%s)
probe(W, op, lambda x: np.zeros(n), lambda x: np.zeros(n), lambda x: np.zeros(n), n, n, %s)
q = sqrt(op)
probe(W + '._sqrt', q, lambda x: np.zeros(n), lambda x: np.zeros(n), lambda x: np.zeros(n), n, n, %s)
q = abs(op)
probe(W + '.__abs__', q, lambda x: np.zeros(n), lambda x: np.zeros(n), lambda x: np.zeros(n), n, n, %s)
''' % (e, e, e, e, e, e), xdts=XD, extra={'W': Const(FILE + 'ZeroOperator')})
        sc('diagonal %s' % d, '''
stamp(dg, 'dg')
op = DiagonalOperator(dg)
untouched('C03', 'caller-data-untouched', W, dg, 'dg')
probe(W, op, lambda x: dg*x, lambda x: dg*x, lambda x: dg.conjugate()*x, n, n, dg.dtype)
identical('C06', 'symmetric-T-is-self', W, op.T, op)
value('C04', 'diagonal-reported', W, op.diag, dg)
distinct('C03', 'diagonal-is-a-copy', W, op.diag, dg)
old = dg.copy()
q = abs(op)
probe(W + '.__abs__', q, lambda x: np.abs(dg)*x, lambda x: np.abs(dg)*x, lambda x: np.abs(dg)*x, n, n, np.abs(dg).dtype)
z = op * op
r = op.T
h = op.H
dg[:] = vec('other', n, 'f8').astype(dg.dtype)
x = vec('x', n, 'f8')
value('C03', 'later-changes-do-not-reach', W, op * x, old * x)
value('C03', 'later-changes-do-not-reach', W, r * x, old * x)
value('C03', 'later-changes-do-not-reach', W, h * x, old.conjugate() * x)
value('C03', 'later-changes-do-not-reach', W, q * x, np.abs(old) * x)
value('C03', 'diagonal-is-the-multiplier', W, op.diag, old)
op.diag[:] = 2 * op.diag
value('C03', 'diagonal-is-the-multiplier', W, op * x, op.diag * x)
value('C03', 'diagonal-is-the-multiplier', W, op.T * x, op.diag * x)
value('C03', 'diagonal-is-the-multiplier', W, op.H * x, op.diag.conjugate() * x)
''', arrays=[('dg', 'n', d)], xdts=XD, extra={'W': Const(FILE + 'DiagonalOperator')})
    sc('sqrt of a diagonal', '''
op = DiagonalOperator(dg)
q = sqrt(op)
probe(W, q, lambda x: np.sqrt(dg)*x, lambda x: np.sqrt(dg)*x, lambda x: np.sqrt(dg).conjugate()*x, n, n, np.sqrt(dg).dtype)
''', arrays=[('dg', 'n', 'c16')], xdts=XD, extra={'W': Const(FILE + 'DiagonalOperator._sqrt')})
    sc('sqrt of a real diagonal', '''
op = DiagonalOperator(dg)
try:
    q = sqrt(op)
except ValueError:
    q = None
if q is not None:
    product('C04', W, q, lambda x: np.sqrt(dg)*x, n, n, np.float64)
''', arrays=[('dg', 'n', 'f8')], xdts=XD, extra={'W': Const(FILE + 'DiagonalOperator._sqrt')})
    sc('diagonal with keywords', '''
op = DiagonalOperator(dg, symmetric=False, hermitian=True, matvec=None, matvec_adj=None, dtype=np.float32)
probe(W, op, lambda x: dg*x, lambda x: dg*x, lambda x: dg.conjugate()*x, n, n, dg.dtype)
op = IdentityOperator(n, symmetric=False, hermitian=False, matvec=None)
probe(W, op, lambda x: x, lambda x: x, lambda x: x, n, n, np.float64)
op = ZeroOperator(n, m, symmetric=False, matvec=None, matvec_transp=None)
probe(W, op, lambda x: np.zeros(m), lambda x: np.zeros(n), lambda x: np.zeros(n), m, n, np.float64)
''', arrays=[('dg', 'n', 'c16')], xdts=('f8',), extra={'W': Const(FILE + 'DiagonalOperator.__init__')})
    # the identity in an expression
    sc('identity combined', '''
I = IdentityOperator(n)
P = user(A, n, n, np.float64)
x = vec('x', n, 'f8')
y = (P + I) * x
value('C04', 'acts-as-defined', W, y, A*x + x)
fresh('C02', 'result-is-fresh', W, y, x)
intact('C02', 'input-untouched', W, x)
y = (I * I) * x
fresh('C02', 'result-is-fresh', W, y, x)
y = I.conjugate() * x
fresh('C02', 'result-is-fresh', W, y, x)
y = BlockDiagonalLinearOperator([I, I]) * np.concatenate([x, x])
product('C04', W, BlockDiagonalLinearOperator([I]), lambda x: x, n, n, np.float64)
product('C04', W, BlockLinearOperator([[I]]), lambda x: x, n, n, np.float64)
''', ops=[('A', 'n', 'n', 'f8', ())], extra={'W': Const(FILE + 'IdentityOperator')})
    # array-based
    # reduced operators
    reduced()


def reduced():
    for d in ('f8', 'c16', 'i8'):
        e = NP[d]
        W = FILE + 'ReducedLinearOperator'
        for nm, rows, cols in (('slices of lists', '[0, 2]', '[1, 0, 3]'), ('permuted', '[3, 1, 0]', '[0, 1, 2, 3]'),
                               ('np arrays', 'np.array([2, 0])', 'np.array([1, 3])')):
            sc('reduced %s %s' % (d, nm), '''
P = user(A, 4, 5, %s)
rows = %s
cols = %s
op = ReducedLinearOperator(P, rows, cols)
def emb(x, idx, n):
    z = np.zeros(n, dtype=x.dtype)
    z[idx] = x
    return z
def pick(y, idx):
    return y[idx]
probe(W, op, lambda x: pick(A*emb(x, cols, 4), rows), lambda x: pick(A.T*emb(x, rows, 5), cols),
      lambda x: pick(A.H*emb(x, rows, 5), cols), len(rows), len(cols), %s)
''' % (e, rows, cols, e), ops=[('A', 5, 4, d, ())], xdts=('f8', 'c16'), extra={'W': Const(W)})
        for s, h in ((0, 0), (1, 0), (0, 1)):
            pr = (('sym',) if s else ()) + (('herm',) if h else ())
            if d[0] != 'c':
                s = h = s or h
                pr = ('sym',) if s else ()
            sc('symmetrically reduced %s %r' % (d, pr), '''
P = user(A, 4, 4, %s, %r, %r)
rows = [2, 0, 3]
op = SymmetricallyReducedLinearOperator(P, rows)
def emb(x, idx, n):
    z = np.zeros(n, dtype=x.dtype)
    z[idx] = x
    return z
def pick(y, idx):
    return y[idx]
probe(W, op, lambda x: pick(A*emb(x, rows, 4), rows), lambda x: pick(A.T*emb(x, rows, 4), rows),
      lambda x: pick(A.H*emb(x, rows, 4), rows), 3, 3, %s)
''' % (e, bool(s), bool(h), e), ops=[('A', 4, 4, d, pr)], xdts=('f8', 'c16'),
               extra={'W': Const(FILE + 'SymmetricallyReducedLinearOperator')})
    arrays_and_coords()


BLKSPEC = '''
def rows_of(L):
    return [row[0].shape[0] for row in L]
def cols_of(L):
    return [l.shape[1] for l in L[0]]
def total(ns):
    t = 0
    for k in ns:
        t = t + k
    return t
def blkf(L):
    def f(x):
        parts = []
        for row in L:
            a = 0
            y = None
            for l in row:
                z = l * x[a:a + l.shape[1]]
                a = a + l.shape[1]
                y = z if y is None else y + z
            parts.append(y)
        return np.concatenate(parts)
    return f
def tr(L):
    return [[L[i][j].T for i in range(len(L))] for j in range(len(L[0]))]
def ad(L):
    return [[L[i][j].H for i in range(len(L))] for j in range(len(L[0]))]
def blkprobe(W, op, L, dt):
    probe(W, op, blkf(L), blkf(tr(L)), blkf(ad(L)), total(rows_of(L)), total(cols_of(L)), dt)
def blkproducts(W, op, L, dt, rule):
    M = total(rows_of(L))
    N = total(cols_of(L))
    for xdt in XDTS:
        x = vec('x', N, xdt)
        y = vec('u', M, xdt)
        value('C09', rule, W, attempt(W, op, x), blkf(L)(x))
        value('C09', rule, W + ' .T', attempt(W, op.T, y), blkf(tr(L))(y))
        value('C09', rule, W + ' .H', attempt(W, op.H, y), blkf(ad(L))(y))
def reported(W, op, B):
    b = op.blocks
    t = getattr(op.T, 'blocks', getattr(op.T, '_blocks', None))
    h = getattr(op.H, 'blocks', getattr(op.H, '_blocks', None))
    equal('C09', 'reported-blocks', W, len(b), len(B))
    for i in range(len(B)):
        for j in range(len(B[0])):
            identical('C09', 'reported-blocks', W, b[i][j], B[i][j])
            identical('C09', 'indexed-block', W, op[i, j], B[i][j])
            if t is not None and h is not None:
                x = vec('r', B[i][j].nargout, 'f8')
                value('C09', 'reported-blocks', W + ' .T', t[j][i] * x, B[i][j].T * x)
                value('C09', 'reported-blocks', W + ' .H', h[j][i] * x, B[i][j].H * x)
def diag(L, Z):
    return [[L[i] if i == j else Z[i][j] for j in range(len(L))] for i in range(len(L))]
def dgf(L):
    def f(x):
        parts = []
        a = 0
        for l in L:
            parts.append(l * x[a:a + l.shape[1]])
            a = a + l.shape[1]
        return np.concatenate(parts)
    return f
def dgprobe(W, op, L, dt):
    probe(W, op, dgf(L), dgf([l.T for l in L]), dgf([l.H for l in L]), total([l.shape[0] for l in L]),
          total([l.shape[1] for l in L]), dt)
def dgproducts(W, op, L, rule):
    M = total([l.shape[0] for l in L])
    N = total([l.shape[1] for l in L])
    for xdt in XDTS:
        x = vec('x', N, xdt)
        y = vec('u', M, xdt)
        value('C09', rule, W, attempt(W, op, x), dgf(L)(x))
        value('C09', rule, W + ' .T', attempt(W, op.T, y), dgf([l.T for l in L])(y))
        value('C09', rule, W + ' .H', attempt(W, op.H, y), dgf([l.H for l in L])(y))
def dgreported(W, op, B):
    b = op.blocks
    t = getattr(op.T, 'blocks', getattr(op.T, '_blocks', None))
    h = getattr(op.H, 'blocks', getattr(op.H, '_blocks', None))
    equal('C09', 'reported-blocks', W, len(b), len(B))
    for i in range(len(B)):
        identical('C09', 'reported-blocks', W, b[i], B[i])
        identical('C09', 'indexed-block', W, op[i], B[i])
        if t is None or h is None:
            continue
        x = vec('r', B[i].nargout, 'f8')
        value('C09', 'reported-blocks', W + ' .T', t[i] * x, B[i].T * x)
        value('C09', 'reported-blocks', W + ' .H', h[i] * x, B[i].H * x)
'''
BF = 'pykrylov/linop/blkop.py:'


def arrays_and_coords():
    for d in ('f8', 'c16', 'i8', 'f4'):
        e = NP[d]
        L = 'mat:%s' % 'A'
        sc('ndarray %s' % d, '''
op = linop_from_ndarray(A)
probe(W, op, lambda x: LA*x, lambda x: LA.T*x, lambda x: LA.H*x, m, n, A.dtype)
stamp(A, 'A')
op * vec('x', n, 'f8')
untouched('C02', 'operator-data-untouched', W, A, 'A')
''', arrays=[('A', ('m', 'n'), d)], ops=[('mat:A', 'm', 'n', d, ())], xdts=XD,
           extra={'W': Const(FILE + 'linop_from_ndarray'), 'LA': lambda a, st: OpV('mat:A', False, False)})
        pr = ('sym',) 
        sc('ndarray %s symmetric' % d, '''
op = linop_from_ndarray(A, symmetric=True)
probe(W, op, lambda x: LA*x, lambda x: LA.T*x, lambda x: LA.H*x, n, n, A.dtype)
''', arrays=[('A', ('n', 'n'), d)], ops=[('mat:A', 'n', 'n', d, pr)], xdts=XD,
           extra={'W': Const(FILE + 'linop_from_ndarray'), 'LA': lambda a, st: OpV('mat:A', False, False)})
        if d == 'c16':
            sc('ndarray %s hermitian' % d, '''
op = linop_from_ndarray(A, hermitian=True)
probe(W, op, lambda x: LA*x, lambda x: LA.T*x, lambda x: LA.H*x, n, n, A.dtype)
''', arrays=[('A', ('n', 'n'), d)], ops=[('mat:A', 'n', 'n', d, ('herm',))], xdts=XD,
               extra={'W': Const(FILE + 'linop_from_ndarray'), 'LA': lambda a, st: OpV('mat:A', False, False)})
        for sym, rows, cols, sh in ((False, [0, 2, 1, 2, 0], [1, 0, 3, 3, 1], (3, 4)), (True, [0, 2, 1, 2], [0, 0, 1, 1], (3, 3)),
                                    (False, [1], [0], (2, 1)), (True, [2, 3, 3], [0, 3, 1], (4, 4))):
            for given in (True, False):
                sc('coordinate %s %s %r %s' % (d, sh, sym, given), '''
rows = np.array(%r)
cols = np.array(%r)
vals = V[:]
stamp(vals, 'v')
op = CoordLinearOperator(vals, rows, cols%s, symmetric=%r)
ents = [%s]
def f(x):
    z = np.zeros(%d, dtype=np.result_type(vals.dtype, x.dtype))
    for (r, c, v) in ents:
        z[r] = z[r] + v * x[c]
    return z
def ft(x):
    z = np.zeros(%d, dtype=np.result_type(vals.dtype, x.dtype))
    for (r, c, v) in ents:
        z[c] = z[c] + v * x[r]
    return z
def fh(x):
    z = np.zeros(%d, dtype=np.result_type(vals.dtype, x.dtype))
    for (r, c, v) in ents:
        z[c] = z[c] + np.conjugate(v) * x[r]
    return z
probe(W, op, f, ft, fh, %d, %d, vals.dtype)
untouched('C02', 'operator-data-untouched', W, vals, 'v')
''' % (rows, cols, ', %d, %d' % (sh[1], sh[0]) if given else '', sym,
       ', '.join('(%d, %d, vals[%d])' % (r, c, k) + (', (%d, %d, vals[%d])' % (c, r, k) if sym and r != c else '')
                 for k, (r, c) in enumerate(zip(rows, cols))), sh[0], sh[1], sh[1], sh[0], sh[1]),
                   arrays=[('V', len(rows), d)], xdts=('f8', 'c16'), extra={'W': Const(FILE + 'CoordLinearOperator')})
    sc('pysparse', '''
class Sparse(object):
    def __init__(self):
        self.shape = (m, n)
        self.issym = False
    def matvec(self, x, y):
        y[:] = A * x
    def matvec_transp(self, x, y):
        y[:] = A.T * x
op = PysparseLinearOperator(Sparse())
probe(W, op, lambda x: A*x, lambda x: A.T*x, lambda x: A.T*x, m, n, np.float64)
class Sparse2(object):
    def __init__(self):
        self.shape = (m, n)
    def isSymmetric(self):
        return False
    def __mul__(self, x):
        return A * x
    def matvec_transp(self, x, y):
        y[:] = A.T * x
op = PysparseLinearOperator(Sparse2())
probe(W, op, lambda x: A*x, lambda x: A.T*x, lambda x: A.T*x, m, n, np.float64)
''', ops=[('A', 'm', 'n', 'f8', ())], xdts=('f8',), extra={'W': Const(FILE + 'PysparseLinearOperator')})
    for d in ('f8', 'c16', 'i8'):
        sc('to_array %s' % d, '''
P = user(A, 3, 2, %s)
for Q, L in ((P, A), (P.T, A.T), (P.H, A.H)):
    M = Q.to_array()
    K = Q.full()
    equal('C07', 'array-shape', W, M.shape, Q.shape)
    same_dtype('C08', 'array-dtype', W, M.dtype, %s)
    for j in range(Q.nargin):
        e = np.zeros(Q.nargin, dtype=%s)
        e[j] = 1
        value('C04', 'columns-are-products', W, M[:, j], L * e)
        value('C04', 'columns-are-products', W, K[:, j], L * e)
z = P.rmatvec(vec('x', 2, 'c16'))
value('C05', 'rmatvec-is-adjoint', W, z, A.H * vec('x', 2, 'c16'))
repr(P)
str(P)
''' % ((NP[d],) * 3), ops=[('A', 2, 3, d, ())], xdts=('f8',), extra={'W': Const(FILE + 'LinearOperator.to_array')})
    blocks()


def blocks():
    four = lambda d: [('A', 'm', 'n', d, ()), ('B', 'm', 'p', d, ()), ('C', 'q', 'n', d, ()), ('D', 'q', 'p', d, ())]
    W = BF + 'BlockLinearOperator'
    WD = BF + 'BlockDiagonalLinearOperator'
    for d in ('f8', 'c16'):
        e = NP[d]
        mk = '''
a = user(A, n, m, %s)
b = user(B, p, m, %s)
c = user(C, n, q, %s)
dd = user(D, p, q, %s)
''' % (e, e, e, e)
        xd = ('f8', 'c16')
        for nm, B, L in (('2x2', '[[a, b], [c, dd]]', '[[A, B], [C, D]]'), ('1x2', '[[a, b]]', '[[A, B]]'),
                         ('2x1', '[[a], [c]]', '[[A], [C]]'), ('1x1', '[[a]]', '[[A]]'),
                         ('2x3', '[[a, b, a], [c, dd, c]]', '[[A, B, A], [C, D, C]]'),
                         ('3x2', '[[a, b], [c, dd], [a, b]]', '[[A, B], [C, D], [A, B]]')):
            sc('block %s %s' % (nm, d), BLKSPEC + mk + '''
B0 = %s
stamp(B0, 'blocks')
op = BlockLinearOperator(B0)
blkprobe(W, op, %s, %s)
blkproducts(W, op, %s, %s, 'block-in-place')
reported(W, op, B0)
untouched('C03', 'caller-list-untouched', W, B0, 'blocks')
for k in range(len(B0)):
    B0[k] = None
blkproducts(W, op, %s, %s, 'block-in-place')
''' % (B, L, e, L, e, L, e), ops=four(d), dims='nmpq', xdts=xd, extra={'W': Const(W)})
        sc('block nested %s' % d, BLKSPEC + mk + '''
K = BlockLinearOperator([[a, b], [c, dd]])
op = BlockLinearOperator([[K, K], [K, K]])
F = blkf([[A, B], [C, D]])
G = blkf(tr([[A, B], [C, D]]))
H = blkf(ad([[A, B], [C, D]]))
def twice(f, k):
    return lambda x: np.concatenate([f(x[:k]) + f(x[k:]), f(x[:k]) + f(x[k:])])
probe(W, op, twice(F, n + p), twice(G, m + q), twice(H, m + q), m + q + m + q, n + p + n + p, %s)
op = BlockLinearOperator([[K.T, c.T], [b.T, user(D, p, q, %s).T * c]]) if False else None
D2 = BlockDiagonalLinearOperator([K, a])
x = vec('x', n + p + n, 'f8')
value('C09', 'block-in-place', WD, D2 * x, np.concatenate([F(x[:n + p]), A * x[n + p:]]))
''' % (e, e), ops=four(d), dims='nmpq', xdts=('f8',), extra={'W': Const(W), 'WD': Const(WD)})
        more_ops = [('E', 'm', 'n', d, ()), ('F', 'q', 'p', d, ()), ('G', 'm', 'p', d, ())]
        sc('block assignment %s' % d, BLKSPEC + mk + '''
e = user(E, n, m, %s)
f = user(F, p, q, %s)
g = user(G, p, m, %s)
B0 = [[a, b], [c, dd]]
stamp(B0, 'blocks')
op = BlockLinearOperator(B0)
t = op.T
h = op.H
op[0, 0] = e
blkproducts(W, op, [[E, B], [C, D]], %s, 'after-assignment')
reported(W, op, [[e, b], [c, dd]])
op[1, 1] = f
blkproducts(W, op, [[E, B], [C, F]], %s, 'after-assignment')
reported(W, op, [[e, b], [c, f]])
op[0, 1] = g
blkproducts(W, op, [[E, G], [C, F]], %s, 'after-assignment')
reported(W, op, [[e, g], [c, f]])
op[0, 0] = a
blkproducts(W, op, [[A, G], [C, F]], %s, 'after-assignment')
x = vec('w', m + q, 'f8')
value('C09', 'after-assignment', W, t * x, blkf(tr([[A, G], [C, F]]))(x))
value('C09', 'after-assignment', W, h * x, blkf(ad([[A, G], [C, F]]))(x))
untouched('C03', 'caller-list-untouched', W, B0, 'blocks')
''' % (e, e, e, e, e, e, e), ops=four(d) + more_ops, dims='nmpq', xdts=('f8',), extra={'W': Const(W + '.__setitem__')})
        sc('block selection %s' % d, BLKSPEC + mk + '''
op = BlockLinearOperator([[a, b], [c, dd]])
identical('C09', 'indexed-block', W, op[0, 1], b)
identical('C09', 'indexed-block', W, op[1, 0], c)
identical('C09', 'indexed-block', W, op[-1, -1], dd)
blkprobe(W, op[0, :], [[A, B]], %s)
blkprobe(W, op[:, 1], [[B], [D]], %s)
blkprobe(W, op[0:1, 0:2], [[A, B]], %s)
blkprobe(W, op[1], [[C, D]], %s)
blkprobe(W, op[:, :], [[A, B], [C, D]], %s)
holds('C09', 'contains', W, a in op)
holds('C09', 'contains', W, not (op in op))
rows = [r for r in op]
equal('C09', 'iterates-rows', W, rows, [[a, b], [c, dd]])
''' % (e, e, e, e, e), ops=four(d), dims='nmpq', xdts=('f8',), extra={'W': Const(W + '.__getitem__')})
        # structured
        for s in ('symmetric', 'hermitian'):
            if d == 'f8' and s == 'hermitian':
                continue
            pr = ('sym',) if s == 'symmetric' else ('herm',)
            sb = "True, %s" % (d == 'f8') if s == 'symmetric' else 'False, True'
            kw = 'symmetric=True' if s == 'symmetric' else 'hermitian=True'
            if d == 'f8':
                kw = 'symmetric=True, hermitian=True'
            tt = '.T' if s == 'symmetric' else '.H'
            sops = [('A', 'n', 'n', d, pr), ('B', 'n', 'p', d, ()), ('C', 'n', 'm', d, ()), ('D', 'p', 'p', d, pr),
                    ('E', 'p', 'm', d, ()), ('F', 'm', 'm', d, pr), ('A2', 'n', 'n', d, pr), ('B2', 'n', 'p', d, ()),
                    ('E2', 'p', 'm', d, ())]
            smk = '''
a = user(A, n, n, %s, %s)
b = user(B, p, n, %s)
c = user(C, m, n, %s)
dd = user(D, p, p, %s, %s)
e = user(E, m, p, %s)
f = user(F, m, m, %s, %s)
''' % (e, sb, e, e, e, sb, e, e, sb)
            sc('block %s 3x3 %s' % (s, d), BLKSPEC + smk + '''
B0 = [[a, b, c], [dd, e], [f]]
stamp(B0, 'blocks')
op = BlockLinearOperator(B0, %s)
L = [[A, B, C], [B%s, D, E], [C%s, E%s, F]]
blkprobe(W, op, L, %s)
blkproducts(W, op, L, %s, 'block-in-place')
untouched('C03', 'caller-list-untouched', W, B0, 'blocks')
''' % (kw, tt, tt, tt, e, e), ops=sops, dims='nmpq', xdts=('f8', 'c16'), extra={'W': Const(W)})
            sc('block %s assignment %s' % (s, d), BLKSPEC + smk + '''
a2 = user(A2, n, n, %s, %s)
b2 = user(B2, p, n, %s)
e2 = user(E2, m, p, %s)
op = BlockLinearOperator([[a, b, c], [dd, e], [f]], %s)
op[0, 1] = b2
L = [[A, B2, C], [B2%s, D, E], [C%s, E%s, F]]
blkproducts(W, op, L, %s, 'after-assignment')
op[0, 0] = a2
L = [[A2, B2, C], [B2%s, D, E], [C%s, E%s, F]]
blkproducts(W, op, L, %s, 'after-assignment')
op[1, 2] = e2
L = [[A2, B2, C], [B2%s, D, E2], [C%s, E2%s, F]]
blkproducts(W, op, L, %s, 'after-assignment')
declared(W, op, blkf(L), blkf(tr(L)), blkf(ad(L)), n + p + m, n + p + m)
''' % (e, sb, e, e, kw, tt, tt, tt, e, tt, tt, tt, e, tt, tt, tt, e), ops=sops, dims='nmpq', xdts=('f8',),
               extra={'W': Const(W + '.__setitem__')})
        # diagonal
        sc('block diagonal %s' % d, BLKSPEC + mk + '''
B0 = [a, dd, b]
stamp(B0, 'blocks')
op = BlockDiagonalLinearOperator(B0)
dgprobe(WD, op, [A, D, B], %s)
dgproducts(WD, op, [A, D, B], 'block-in-place')
dgreported(WD, op, [a, dd, b])
untouched('C03', 'caller-list-untouched', WD, B0, 'blocks')
B0[1] = None
dgproducts(WD, op, [A, D, B], 'block-in-place')
dgprobe(WD + '.__getitem__', op[0:2], [A, D], %s)
dgprobe(WD + '.__getitem__', op[1:], [D, B], %s)
op = BlockDiagonalLinearOperator((a, b))
dgprobe(WD, op, [A, B], %s)
op = BlockDiagonalLinearOperator([c])
dgprobe(WD, op, [C], %s)
''' % (e, e, e, e, e), ops=four(d), dims='nmpq', xdts=('f8', 'c16'), extra={'WD': Const(WD)})
        sc('block diagonal assignment %s' % d, BLKSPEC + mk + '''
e = user(E, n, m, %s)
f = user(F, p, q, %s)
B0 = [a, dd, b]
s1 = vec('s1', n, 'f8')
s2 = vec('s2', p, 'f8')
s3 = vec('s3', p, 'f8')
stamp(B0, 'blocks')
op = BlockDiagonalLinearOperator(B0)
t = op.T
op[0] = e
dgproducts(W, op, [E, D, B], 'after-assignment')
dgreported(W, op, [e, dd, b])
op[1] = f
dgproducts(W, op, [E, F, B], 'after-assignment')
dgreported(W, op, [e, f, b])
op[0:2] = [a, dd]
dgproducts(W, op, [A, D, B], 'after-assignment')
dgreported(W, op, [a, dd, b])
new = [e, f]
stamp(new, 'new blocks')
op[0:2] = new
new[0] = a
dgproducts(W, op, [E, F, B], 'after-assignment')
value('C03', 'assigned-list-not-kept', W, op * np.concatenate([s1, s2, s3]), np.concatenate([E * s1, F * s2, B * s3]))
for all_of in (slice(None), slice(0, 3), slice(None, None, 1)):
    new = [e, f, b]
    stamp(new, 'new blocks')
    op[all_of] = new
    dgproducts(W, op, [E, F, B], 'after-assignment')
    untouched('C03', 'caller-list-untouched', W, new, 'new blocks')
    new[0] = a
    value('C03', 'assigned-list-not-kept', W, op * np.concatenate([s1, s2, s3]), np.concatenate([E * s1, F * s2, B * s3]))
    dgreported(W, op, [e, f, b])
    new = [a, dd, b]
    op[all_of] = new
    op[0] = e
    identical('C03', 'assigned-list-untouched', W, new[0], a)
    op[0] = a
dgproducts(W, op, [A, D, B], 'after-assignment')
def bad1():
    op[0] = 3.0
def bad2():
    op[0:2] = [a, 3.0]
def bad3():
    op[1] = None
must_raise('C09', 'non-operator-rejected', W, bad1)
must_raise('C09', 'non-operator-rejected', W, bad2)
must_raise('C09', 'non-operator-rejected', W, bad3)
dgproducts(W, op, [A, D, B], 'rejected-assignment-changes-nothing')
dgreported(W, op, [a, dd, b])
x = vec('w', m + q + m, 'f8')
value('C09', 'after-assignment', W, t * x, dgf([A.T, D.T, B.T])(x))
untouched('C03', 'caller-list-untouched', W, B0, 'blocks')
''' % (e, e), ops=four(d) + more_ops, dims='nmpq', xdts=('f8',), extra={'W': Const(WD + '.__setitem__')})
        for sb, pr in (('True, %s' % (d == 'f8'), ('sym',)), ('False, True', ('herm',))):
            if d == 'f8' and pr == ('herm',):
                continue
            sc('block diagonal structured %s %r' % (d, pr), BLKSPEC + '''
a = user(A, n, n, %s, %s)
b = user(B, p, p, %s, %s)
c = user(C, q, q, %s)
op = BlockDiagonalLinearOperator([a, b])
dgprobe(WD, op, [A, B], %s)
op = BlockDiagonalLinearOperator([a, c])
dgprobe(WD, op, [A, C], %s)
op = BlockDiagonalLinearOperator([c, a, b])
dgprobe(WD, op, [C, A, B], %s)
''' % (e, sb, e, sb, e, e, e, e), ops=[('A', 'n', 'n', d, pr), ('B', 'p', 'p', d, pr), ('C', 'q', 'q', d, ())], dims='nmpq',
               xdts=('f8', 'c16'), extra={'WD': Const(WD)})
    # dtypes of mixed blocks
    for a, b in (('f8', 'c16'), ('c16', 'f8'), ('i8', 'f8'), ('f4', 'i8'), ('f4', 'f8')):
        sc('mixed blocks %s %s' % (a, b), BLKSPEC + '''
a = user(A, n, m, %s)
b = user(B, p, m, %s)
s = user(S, n, m, %s)
op = BlockLinearOperator([[a, b]])
blkprobe(W, op, [[A, B]], np.result_type(%s, %s))
op = BlockLinearOperator([[b, a], [b, a]])
blkprobe(W, op, [[B, A], [B, A]], np.result_type(%s, %s))
op = BlockDiagonalLinearOperator([a, b])
dgprobe(WD, op, [A, B], np.result_type(%s, %s))
op = BlockDiagonalLinearOperator([a, a, b])
dgprobe(WD, op, [A, A, B], np.result_type(%s, %s))
wide = np.result_type(%s, %s)
def grid(R, C):
    for i in range(R):
        for j in range(C):
            g = [[a] * C for r in range(R)]
            g[i][j] = s
            op = BlockLinearOperator(g)
            x = vec('xg', n * C, 'f8')
            same_dtype('C08', 'operator-dtype', W, op.dtype, wide)
            same_dtype('C08', 'transpose-dtype', W, op.T.dtype, wide)
            dtype_is('C08', 'product-dtype', W, op * x, wide, x)
for R, C in ((1, 2), (1, 3), (2, 1), (3, 1), (2, 2), (3, 3)):
    grid(R, C)
for k in range(3):
    g = [a, a, a]
    g[k] = s
    op = BlockDiagonalLinearOperator(g)
    same_dtype('C08', 'operator-dtype', WD, op.dtype, wide)
    x = vec('xg', n + n + n, 'f8')
    dtype_is('C08', 'product-dtype', WD, op * x, wide, x)
''' % tuple([NP[a], NP[b], NP[b]] + [NP[a], NP[b]] * 5), ops=[('A', 'm', 'n', a, ()), ('B', 'm', 'p', b, ()), ('S', 'm', 'n', b, ())], xdts=XD,
           extra={'W': Const(W), 'WD': Const(WD)})
    # shapes
    sc('non-conforming blocks', BLKSPEC + '''
a = user(A, n, m, np.float64)
b = user(B, p, m, np.float64)
c = user(C, n, q, np.float64)
d = user(D, p, q, np.float64)
s = user(S, n, n, np.float64, True, True)
r = user(R, p, p, np.float64, True, True)
u = user(U, n, n, np.float64)
def rej(blocks, **kw):
    must_raise('C07', 'nonconforming-rejected', W, lambda: BlockLinearOperator(blocks, **kw))
%srej([[a, b], [c]])
rej([[a], [c, d]])
rej([[a, b], [r]], symmetric=True)
rej([[s, c], [r]], symmetric=True)
rej([[u, c.T], [r]], symmetric=True)
rej([[s, user(B2, p, n, np.float64)], [d]], symmetric=True)
rej([[s, user(B2, p, n, np.float64), user(B2, p, n, np.float64)], [r]], symmetric=True)
rej([[s, s], [s, s]], symmetric=True)
''' % ''.join('rej([%s])\n' % ', '.join('[%s]' % ', '.join(r) for r in g) for g in misfits()), ops=[('A', 'm', 'n', 'f8', ()), ('B', 'm', 'p', 'f8', ()), ('C', 'q', 'n', 'f8', ()), ('D', 'q', 'p', 'f8', ()),
          ('S', 'n', 'n', 'f8', ('sym',)), ('R', 'p', 'p', 'f8', ('sym',)), ('U', 'n', 'n', 'f8', ()), ('B2', 'n', 'p', 'f8', ())],
       dims='nmpq', extra={'W': Const(W), 'dd': lambda a, st: distinct(a, st)})
    sc('block preconditioners', BLKSPEC + '''
a = user(A, n, n, np.float64)
b = user(B, p, p, np.float64)
z = user(C, p, n, np.float64)
op = BlockDiagonalPreconditioner([a, b])
x = vec('x', n + p, 'f8')
value('C09', 'solve-is-product', W + 'BlockDiagonalPreconditioner', op.solve(x), dgf([A, B])(x))
op = BlockPreconditioner([[a, z], [z.T, b]])
value('C09', 'solve-is-product', W + 'BlockPreconditioner', op.solve(x), blkf([[A, C], [C.T, B]])(x))
fresh('C02', 'result-is-fresh', W + 'BlockPreconditioner', op.solve(x), x)
''', ops=[('A', 'n', 'n', 'f8', ()), ('B', 'p', 'p', 'f8', ()), ('C', 'n', 'p', 'f8', ())], extra={'W': Const(BF)})
    import api_lbfgs
    api_lbfgs.add(sc)
    import api_misc
    api_misc.add(sc)
    import api_iface
    api_iface.add(sc)
    return SC


def misfits():
    """Grids that do not conform: one block of other rows, other columns or both, at every position."""
    out = []
    for R, C in ((1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        for i in range(R):
            for j in range(C):
                for k in ('b' if R > 1 else '') + ('c' if C > 1 else '') + 'd':
                    if k == 'd' and 1 in (R, C):
                        continue
                    g = [['a'] * C for r in range(R)]
                    g[i][j] = k
                    out.append(g)
    out += [[['a', 'b'], ['b', 'a']], [['a', 'c'], ['c', 'a']], [['d', 'b'], ['c', 'd']], [['a', 'b', 'a'], ['a', 'a', 'b']],
            [['a', 'b'], ['c', 'd'], ['b', 'a']]]
    return out


def distinct(a, st):
    ds = sorted(a.dims)
    for i in range(len(ds)):
        for j in range(i):
            S.assume(st, psub(a.dims[ds[i]], a.dims[ds[j]]), frozenset('-+'))
    return NONE
