"""Scenarios of the gallery and the tools."""
from values import *
from terms import *
from signs import POS as POS_

GAL = ('pykrylov.gallery.gallery', ['Poisson1dMatvec', 'Poisson2dMatvec'])
TOOLS = ('pykrylov.tools.utils', ['check_symmetric', 'check_positive_definite', 'roots_quadratic', 'machine_epsilon'])
LIN = ('pykrylov.linop.linop', ['LinearOperator'])

GSRC = '''
stamp(x, 'x')
y = %(f)s(x)
untouched('C02', 'input-intact', W, x, 'x')
fresh('C02', 'result-is-fresh', W, y, x)
equal('C07', 'shape', W, y.shape, x.shape)
same_dtype('C08', 'product-dtype', W, y.dtype, x.dtype)
n = %(n)d
for i in range(%(len)d):
    e = %(d)d * x[i]
    for (ok, k) in [%(nb)s]:
        if ok:
            e = e - x[k]
    value('C04', 'gallery-product', W, y[i], e)
u = %(f)s(x)
v = %(f)s(z)
a = 0
b = 0
for i in range(%(len)d):
    a = a + z[i] * u[i]
    b = b + x[i] * v[i]
value('C05', 'gallery-symmetric', W, a, b)
'''


def add(sc):
    for d in ('f8', 'c16', 'i8'):
        for n in (1, 2, 3, 4, 6):
            sc('gallery 1d n=%d %s' % (n, d), GSRC % {'f': 'Poisson1dMatvec', 'n': n, 'len': n, 'd': 2,
               'nb': '(i > 0, i - 1), (i < n - 1, i + 1)'}, imports=(GAL,), arrays=[('x', n, d), ('z', n, d)], expand=4000,
               extra={'W': Const('pykrylov/gallery/gallery.py:Poisson1dMatvec')})
        for n in (1, 2, 3, 4):
            sc('gallery 2d n=%d %s' % (n, d), GSRC % {'f': 'Poisson2dMatvec', 'n': n, 'len': n * n, 'd': 4,
               'nb': '(i % n > 0, i - 1), (i % n < n - 1, i + 1), (i >= n, i - n), (i < n * n - n, i + n)'}, imports=(GAL,),
               arrays=[('x', n * n, d), ('z', n * n, d)], expand=4000,
               extra={'W': Const('pykrylov/gallery/gallery.py:Poisson2dMatvec')})
    sc('gallery 1d any n', '''
stamp(x, 'x')
y = Poisson1dMatvec(x)
untouched('C02', 'input-intact', W, x, 'x')
fresh('C02', 'result-is-fresh', W, y, x)
''', imports=(GAL,), arrays=[('x', 'n', 'f8')], dims='nm', extra={'W': Const('pykrylov/gallery/gallery.py')})
    for d in ('f8', 'c16', 'i8'):
        sc('tools operators %s' % d, '''
P = LinearOperator(n, n, matvec=lambda v: A * v, symmetric=True, dtype=np.%s)
R = LinearOperator(n, m, matvec=lambda v: B * v, dtype=np.%s)
for k in (0, 1, 3):
    check_symmetric(P, repeats=k)
    check_positive_definite(P, repeats=k)
    check_positive_definite(P, repeats=k, semi=True)
check_symmetric(P)
check_positive_definite(P)
noted('C10', 'completes', W)
noted('C20', 'no-global-effect', W)
noted('C19', 'silent', W)
''' % (('float64', 'float64'), ('complex128', 'complex128'), ('int64', 'int64'))[('f8', 'c16', 'i8').index(d)],
           imports=(LIN, TOOLS), ops=[('A', 'n', 'n', d, ('sym',)), ('B', 'm', 'n', d, ())],
           extra={'W': Const('pykrylov/tools/utils.py')})
    for kind in ('f', 'i'):
        sc('tools roots %s' % kind, '''
for k in (0, 1, 2):
    r = roots_quadratic(a, b, c, nitref=k)
r = roots_quadratic(a, b, c)
r = roots_quadratic(0, b, c)
r = roots_quadratic(0, 0, c)
r = roots_quadratic(0, 0, 0)
machine_epsilon()
noted('C10', 'completes', W)
''', imports=(TOOLS,), nums=[(v, kind, None) for v in 'abc'], extra={'W': Const('pykrylov/tools/utils.py')})
    checks(sc)
    quadratics(sc)


def checks(sc):
    """Checks of symmetry and definiteness, in exact arithmetic."""
    CS, CP = 'pykrylov/tools/utils.py:check_symmetric', 'pykrylov/tools/utils.py:check_positive_definite'
    for d, e in (('f8', 'float64'), ('f4', 'float32'), ('i8', 'int64')):
        sc('check_symmetric %s' % d, """
P = LinearOperator(n, n, matvec=lambda v: A * v, symmetric=True, dtype=np.%s)
Q = LinearOperator(n, n, matvec=lambda v: B * v, dtype=np.%s)
R = LinearOperator(n, m, matvec=lambda v: C * v, dtype=np.%s)
for k in (1, 2, 3):
    holds('C24', 'symmetric-accepted', W, check_symmetric(P, repeats=k))
holds('C24', 'symmetric-accepted', W, check_symmetric(P))
if n != m:
    holds('C24', 'not-square-rejected', W, not check_symmetric(R))
if not check_symmetric(Q, repeats=1):
    reached('C24', 'asymmetric-rejected', W)
""" % (e, e, e), imports=(LIN, TOOLS), move=True, expand=16, expect=(('C24', 'asymmetric-rejected', CS),),
           ops=[('A', 'n', 'n', d, ('sym',)), ('B', 'n', 'n', d, ()), ('C', 'm', 'n', d, ())], extra={'W': Const(CS)})
    for d, e in (('f8', 'float64'), ('c16', 'complex128'), ('i8', 'int64')):
        st = ('sym', 'pd') if d != 'c16' else ('herm', 'pd')
        ss = ('sym', 'psd') if d != 'c16' else ('herm', 'psd')
        sc('check_positive_definite %s' % d, """
def make(L, s):
    return LinearOperator(n, n, matvec=lambda v: s * (L * v), dtype=np.%s)
R = LinearOperator(n, m, matvec=lambda v: C * v, dtype=np.%s)
for k in (1, 2, 3):
    holds('C24', 'definite-accepted', W, check_positive_definite(make(A, 1), repeats=k))
    holds('C24', 'definite-accepted', W, check_positive_definite(make(A, 1), repeats=k, semi=True))
    holds('C24', 'semidefinite-accepted', W, check_positive_definite(make(B, 1), repeats=k, semi=True))
    holds('C24', 'negative-rejected', W, not check_positive_definite(make(A, -1), repeats=k))
    holds('C24', 'negative-rejected', W, not check_positive_definite(make(A, -1), repeats=k, semi=True))
    holds('C24', 'zero-rejected', W, not check_positive_definite(make(A, 0), repeats=k))
    holds('C24', 'zero-semidefinite', W, check_positive_definite(make(A, 0), repeats=k, semi=True))
holds('C24', 'definite-accepted', W, check_positive_definite(make(A, 1)))
holds('C24', 'negative-rejected', W, not check_positive_definite(make(A, -1)))
if n != m:
    holds('C24', 'not-square-rejected', W, not check_positive_definite(R))
    holds('C24', 'not-square-rejected', W, not check_positive_definite(R, semi=True))
""" % (e, e), imports=(LIN, TOOLS), move=True, expand=1,
           ops=[('A', 'n', 'n', d, st), ('B', 'n', 'n', d, ss), ('C', 'm', 'n', d, ())], extra={'W': Const(CP)})
    sc('check_positive_definite imaginary', """
P = LinearOperator(n, n, matvec=lambda v: 1j * (A * v), dtype=np.complex128)
Q = LinearOperator(n, n, matvec=lambda v: B * v, dtype=np.complex128)
for k in (1, 2):
    holds('C24', 'not-hermitian-rejected', W, not check_positive_definite(P, repeats=k))
    if not check_positive_definite(Q, repeats=k):
        reached('C24', 'indefinite-rejected', W)
""", imports=(LIN, TOOLS), move=True, expand=1, expect=(('C24', 'indefinite-rejected', CP),),
       ops=[('A', 'n', 'n', 'c16', ('herm', 'pd')), ('B', 'n', 'n', 'c16', ())], extra={'W': Const(CP)})


def quadratics(sc):
    """roots_quadratic on polynomials given by their roots; all symbols are positive."""
    W = 'pykrylov/tools/utils.py:roots_quadratic'
    both = [('p + e', 'p'), ('p', 'p'), ('-p - e', '-p'), ('-p', '-p'), ('p + e', '-p'), ('p', '-p'), ('p', '-p - e'),
            ('0', 'p'), ('0', '-p'), ('0', '0')]
    opts = ['tol=0.0', 'tol=0.0, nitref=0']
    for kind in ('f', 'i'):
        nums = [(v, kind, POS_) for v in 'upe']
        for a in ('u', '-u'):
            for r, s in both:
                head = 'a = %s\nx = %s\ny = %s\nb = -a * (x + y)\nc = a * x * y\n' % (a, r, s)
                for o in opts:
                    src = head
                    src += 'r = roots_quadratic(a, b, c, %s)\n' % o
                    if r == s:
                        src += ("holds('C24', 'number-of-roots', W, len(r) in (1, 2))\n"
                                "for z in r:\n    value('C24', 'is-a-root', W, z, x)\n")
                    else:
                        src += ("holds('C24', 'number-of-roots', W, len(r) == 2)\n"
                                "value('C24', 'is-a-root', W, r[0] + r[1], x + y)\n"
                                "value('C24', 'is-a-root', W, r[0] * r[1], x * y)\n")
                    sc('roots of %s(x-(%s))(x-(%s)) %s %s' % (a, r, s, kind, o), src, imports=(TOOLS,), nums=nums, move=True,
                       extra={'W': Const(W)}, apart=64)
                if r == '0' or s == '0':
                    # found whatever the threshold
                    src = head + 'r = roots_quadratic(a, b, c)\n'
                    src += ("for z in r:\n    value('C24', 'is-a-root', W, z, x)\n" if r == s else
                            "value('C24', 'is-a-root', W, r[0] + r[1], x + y)\nvalue('C24', 'is-a-root', W, r[0] * r[1], x * y)\n")
                    sc('roots of %s(x-(%s))(x-(%s)) %s' % (a, r, s, kind), src, imports=(TOOLS,), nums=nums, move=True,
                       extra={'W': Const(W)}, apart=64)
            for b in ('p', '-p', '0'):
                src = 'a = %s\nb = %s\n' % (a, b)
                for o in opts:
                    # b^2 - 4ac < 0: c = (b^2 + e) / (4a)
                    src += ("r = roots_quadratic(4 * a, 2 * b * u, (b * b + e) * a, %s)\n" % o)
                    src += "holds('C24', 'no-real-root', W, len(r) == 0)\n"
                sc('no roots %s %s %s' % (a, b, kind), src, imports=(TOOLS,), nums=nums, move=True, extra={'W': Const(W)})
        src = ''
        for b in ('p', '-p'):
            for c in ('u', '-u', '0'):
                for o in ['nitref=0', 'nitref=1', 'nitref=2', '']:
                    src += ("r = roots_quadratic(0, %s, %s%s)\nholds('C24', 'number-of-roots', W, len(r) == 1)\n"
                            "value('C24', 'is-a-root', W, %s * r[0], -%s)\n") % (b, c, ', ' + o if o else '', b, c)
        for c in ('u', '-u'):
            src += "r = roots_quadratic(0, 0, %s)\nholds('C24', 'no-real-root', W, len(r) == 0)\n" % c
        src += "r = roots_quadratic(0, 0, 0)\nholds('C24', 'number-of-roots', W, len(r) >= 1)\n"
        sc('roots of lines %s' % kind, src, imports=(TOOLS,), nums=nums, move=True, extra={'W': Const(W)})
