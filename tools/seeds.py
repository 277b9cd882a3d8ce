"""Planted bugs: id, property, edits, what they need, demonstration."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append({'id': id, 'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'demo': demo})


SPD = '''
from pykrylov.linop import *
def spd(n, seed=0):
    rng = np.random.RandomState(seed)
    B = rng.rand(n, n)
    return np.dot(B.T, B) + n * np.eye(n)
def op(M, **kw):
    return LinearOperator(M.shape[1], M.shape[0], matvec=lambda v: np.dot(M, v),
                          matvec_transp=lambda u: np.dot(M.T, u), **kw)
'''

seed('cgs-guess-aliased', 'C01', [('pykrylov/cgs/cgs.py',
     "x = kwargs.get('guess', np.zeros(n)).astype(result_type)",
     "x = kwargs.get('guess', np.zeros(n)).astype(result_type, copy=False)")],
     'a guess whose dtype is already the result dtype',
     'CGS iterates in the array the caller passed as guess', SPD + '''
from pykrylov.cgs import CGS
M = spd(5)
g = np.ones(5)
s = CGS(op(M))
s.solve(np.arange(5.), guess=g)
assert np.all(g == 1), g
''')
seed('product-not-copied', 'C02', [('pykrylov/linop/linop.py',
     'return self._matvec(x).astype(result_type)', 'return self._matvec(x).astype(result_type, copy=False)')],
     'a matvec that returns its argument or a stored array, and equal dtypes',
     'the product of an identity operator is the input array itself', SPD + '''
x = np.arange(4.)
y = IdentityOperator(4) * x
y += 1
assert np.all(x == np.arange(4.)), x
''')
seed('bicgstab-flag-by-budget', 'C11', [('pykrylov/bicgstab/bicgstab.py',
     'self.converged = residNorm <= threshold', 'self.converged = nMatvec < matvec_max')],
     'convergence reached with the very last product of the budget',
     'a converged solve is reported as not converged', SPD + '''
from pykrylov.bicgstab import BiCGSTAB
s = BiCGSTAB(op(2 * np.eye(3)))
s.solve(np.ones(3), matvec_max=1)
assert s.residNorm <= 1e-10 and s.converged
''')
seed('cg-curvature-uncounted', 'C13', [('pykrylov/cg/cg.py',
     '            nMatvec += 1\n            pAp = np.dot(p, Ap)\n', '            pAp = np.dot(p, Ap)\n'),
     ('pykrylov/cg/cg.py', '            # Compute step length\n', '            # Compute step length\n            nMatvec += 1\n')],
     'an operator that turns out indefinite',
     'the product that revealed the negative curvature is missing from nMatvec', SPD + '''
from pykrylov.cg import CG
calls = [0]
D = np.array([3., 2., -5.])
def mv(v):
    calls[0] += 1
    return D * v
s = CG(LinearOperator(3, 3, matvec=mv, symmetric=True))
s.solve(np.array([1., 1., 1.]))
assert s.nMatvec == calls[0], (s.nMatvec, calls[0])
''')
seed('cgs-budget-equality', 'C14', [('pykrylov/cgs/cgs.py',
     '            if residNorm <= threshold or nMatvec >= matvec_max:', '            if residNorm <= threshold or nMatvec == matvec_max:')],
     'a budget of the other parity than the count of products, and no convergence',
     'CGS runs past its product budget, possibly for ever', SPD + '''
from pykrylov.cgs import CGS
class Stop(Exception): pass
calls = [0]
def mv(v):
    calls[0] += 1
    if calls[0] > 200: raise Stop
    return np.array([v[1], -v[0], v[2] * np.nan])
s = CGS(LinearOperator(3, 3, matvec=mv))
s.solve(np.ones(3), matvec_max=5)
assert calls[0] <= 6, calls
''')
seed('lsqr-atol-swapped', 'C15', [('pykrylov/lls/lsqr.py',
     'if test2 <= atol: istop = 2', 'if test2 <= btol: istop = 2')],
     'different atol and btol on an incompatible problem',
     'atol no longer stops LSQR at the least-squares solution', SPD + '''
from pykrylov.lls import LSQRFramework
rng = np.random.RandomState(3)
M = rng.rand(40, 25)
b = rng.rand(40)
s = LSQRFramework(op(M))
s.solve(b, atol=1e-2, btol=1e-30, etol=0.0, conlim=0.0, itnlim=500)
assert s.istop == 2 and s.Arnorm <= 1.0001e-2 * s.Anorm * s.r2norm
t = LSQRFramework(op(M))
t.solve(b, atol=1e-30, btol=1e-2, etol=0.0, conlim=0.0, itnlim=s.itn + 1)
assert t.istop == 7, t.istop
assert s.itn < 25, s.itn
''')
seed('cgs-half-preconditioned', 'C16', [('pykrylov/cgs/cgs.py',
     'z = self.precon * (u+q)', 'z = self.precon * u + q')],
     'a preconditioner', 'the second product of every CGS iteration is taken at a vector that was not preconditioned', SPD + '''
from pykrylov.cgs import CGS
D = np.array([1., 10., 100., 1000., 3., 5.])
B = np.diag(D) + 0.1 * np.random.RandomState(0).rand(6, 6)
s = CGS(op(B), precon=DiagonalOperator(1 / D), reltol=1e-10)
s.solve(np.dot(B, np.ones(6)), matvec_max=60)
assert s.converged and np.linalg.norm(np.dot(B, s.x) - np.dot(B, np.ones(6))) < 1e-6
''')
seed('bicgstab-half-step', 'C17', [('pykrylov/bicgstab/bicgstab.py',
     '            if residNorm <= threshold:\n                x += alpha * q\n',
     '            if residNorm <= threshold:\n                x += alpha * p\n')],
     'a preconditioner and convergence in the middle of an iteration',
     'the half step is taken along the unpreconditioned direction: the residual reported is not that of x', SPD + '''
from pykrylov.bicgstab import BiCGSTAB
D = np.array([1., 2., 4.])
s = BiCGSTAB(op(np.diag(D)), precon=DiagonalOperator(1 / D))
s.solve(np.ones(3))
assert abs(np.linalg.norm(np.ones(3) - D * s.x) - s.residNorm) < 1e-8
''')
seed('symmlq-iterates-aliased', 'C18', [('pykrylov/symmlq/symmlq.py',
     '                if store_iterates:\n                    self.iterates.append(x.copy())',
     '                if store_iterates:\n                    self.iterates.append(x)')],
     'store_iterates and more than one iteration', 'the stored iterates are all the same array', SPD + '''
from pykrylov.symmlq import Symmlq
M = spd(6)
s = Symmlq(op(M, symmetric=True))
s.solve(np.arange(1., 7.), store_iterates=True)
its = s.iterates
assert len(its) > 3
assert not np.allclose(its[1], its[-1])
''')
seed('minres-errors-carried', 'C12', [('pykrylov/minres/minres.py',
     "        window = kwargs.get('window', 5)\n\n        self.dir_errors_window = []  # Direct error estimates.\n",
     "        window = kwargs.get('window', 5)\n\n")],
     'two solves with one object, each of more iterations than the window',
     'the direct error history of the previous solve is kept', SPD + '''
from pykrylov.minres import Minres
D = np.linspace(1., 50., 20)
def fresh():
    return Minres(LinearOperator(20, 20, matvec=lambda v: D * v, symmetric=True))
s = fresh()
s.solve(np.ones(20), show=False, check=False)
n1 = len(s.dir_errors_window)
assert n1 > 0
s.solve(np.ones(20), show=False, check=False)
assert len(s.dir_errors_window) == n1
''')
seed('scalar-hermitian', 'C05', [('pykrylov/linop/linop.py',
     'hermitian=(result_type not in complex_types) and self.hermitian,', 'hermitian=self.hermitian,')],
     'a hermitian operator times a complex scalar', 'the multiple claims to be its own adjoint', SPD + '''
H = np.array([[2., 1j], [-1j, 3.]])
A = LinearOperator(2, 2, matvec=lambda v: np.dot(H, v), matvec_transp=lambda v: np.dot(H.T, v), hermitian=True, dtype=complex)
B = A * 2j
x = np.array([1., 2.], dtype=complex)
assert np.allclose(B.H * x, np.dot((2j * H).conj().T, x)), B.H * x
''')
seed('tiny-scalar-is-zero', 'C04', [('pykrylov/linop/linop.py', '        if x == 0:\n            return ZeroOperator',
     '        if abs(x) < np.finfo(np.double).eps:\n            return ZeroOperator')],
     'a scalar smaller than the machine precision', 'a tiny multiple of an operator becomes the zero operator', SPD + '''
A = op(np.eye(3) * 1e10)
assert np.allclose((1e-18 * A) * np.ones(3) * 1e8, 1.)
''')
seed('middle-block-unchecked', 'C07', [('pykrylov/linop/blkop.py', '            if min(row) != max(row):', '            if row[0] != row[-1]:')],
     'three block columns, the middle one with another number of rows',
     'a block operator with a non-conforming block is built', SPD + '''
A, B, C = ZeroOperator(2, 3), ZeroOperator(2, 1), ZeroOperator(2, 3)
try:
    K = BlockLinearOperator([[A, B, C]])
except ShapeError:
    sys.exit(0)
sys.exit(1)
''')
seed('middle-dtype-lost', 'C08', [('pykrylov/linop/blkop.py',
     '        blk_dtypes = [blk.dtype for blk in flat_blocks]', '        blk_dtypes = [blk.dtype for blk in (flat_blocks[0], flat_blocks[-1])]')],
     'a complex block which is neither first nor last', 'the block operator claims a real type', SPD + '''
A = IdentityOperator(2)
C = IdentityOperator(2, dtype=complex)
K = BlockLinearOperator([[A, C, A]])
assert np.dtype(K.dtype) == np.dtype(complex), K.dtype
''')
seed('setitem-mirrors-first-row', 'C09', [('pykrylov/linop/blkop.py',
     '            for i in range(1, len(self._blocks)):\n                for j in range(i):\n',
     '            for i in range(1, len(self._blocks)):\n                for j in range(1):\n')],
     'a symmetric operator of 3 by 3 blocks, assignment to block (1,2)',
     'the mirror block (2,1) keeps the old value', SPD + '''
I = IdentityOperator
rng = np.random.RandomState(0)
Bs = [op(rng.rand(2, 2)) for _ in range(4)]
K = BlockLinearOperator([[I(2), Bs[0], Bs[1]], [I(2), Bs[2]], [I(2)]], symmetric=True)
K[1, 2] = Bs[3]
F = K.full()
assert np.allclose(F, F.T)
''')
seed('symmlq-seterr', 'C20', [('pykrylov/symmlq/symmlq.py',
     '        # Main iteration loop.\n', "        # Main iteration loop.\n        np.seterr(divide='ignore', invalid='ignore')\n")],
     'any solve', "NumPy's error handling is changed for the whole process", SPD + '''
from pykrylov.symmlq import Symmlq
old = np.geterr()
s = Symmlq(op(spd(4), symmetric=True))
s.solve(np.ones(4))
assert np.geterr() == old
''')
seed('zero-tolerance-dropped', 'C22', [('pykrylov/generic/generic.py',
     "self.abstol = kwargs.get('abstol', 1.0e-8)", "self.abstol = kwargs.get('abstol') or 1.0e-8")],
     'abstol=0', 'a zero tolerance is replaced by the default', SPD + '''
from pykrylov.cg import CG
assert CG(op(spd(3)), abstol=0.0).abstol == 0.0
''')
seed('craig-print', 'C19', [('pykrylov/lls/craigmr.py',
     '                if trncDirErr < etol * xNrgNorm:\n                    istop = 8\n',
     "                if trncDirErr < etol * xNrgNorm:\n                    print 'Direct error is small'\n                    istop = 8\n")],
     'CRAIG-MR stopping on the direct error with show=False', 'a line is printed although show is false', SPD + '''
import io
from pykrylov.lls import CRAIGMRFramework
rng = np.random.RandomState(3)
M = np.eye(30) + 0.01 * rng.rand(30, 30)
s = CRAIGMRFramework(op(M))
out, sys.stdout = sys.stdout, io.StringIO()
try:
    s.solve(rng.rand(30), itnlim=100, etol=1e-3)
finally:
    got, sys.stdout = sys.stdout.getvalue(), out
assert s.istop == 8 and got == '', (s.istop, got)
''')
seed('symmlq-unbound', 'C10', [('pykrylov/symmlq/symmlq.py',
     "istop  = 0 ; ynorm  = 0 ; w = np.zeros(n) ; acond = 0", "istop  = 0 ; ynorm  = 0 ; w = np.zeros(n)")],
     'a zero right-hand side or a budget of one product', 'the final report uses a variable only the main loop sets', SPD + '''
from pykrylov.symmlq import Symmlq
s = Symmlq(op(spd(4), symmetric=True))
s.solve(np.zeros(4))
assert np.all(s.x == 0)
''')
seed('lbfgs-rejected-stored', 'C21', [('pykrylov/linop/lbfgs.py',
     '''        the threshold `self.accept_threshold`. The oldest pair is discarded in
        case the storage limit has been reached.
        """
        ys = np.dot(new_s, new_y)
''', '''        the threshold `self.accept_threshold`. The oldest pair is discarded in
        case the storage limit has been reached.
        """
        insert = self.insert
        self.s[:, insert] = new_s.copy()
        self.y[:, insert] = new_y.copy()
        ys = np.dot(new_s, new_y)
'''), ('pykrylov/linop/lbfgs.py', '''            return

        insert = self.insert
        self.s[:, insert] = new_s.copy()
        self.y[:, insert] = new_y.copy()
        self.ys[insert] = ys
''', '''            return

        self.ys[insert] = ys
''')], 'a rejected pair when the memory is full', 'the rejected pair overwrites the oldest one, whose inner product stays', SPD + '''
M = spd(4)
rng = np.random.RandomState(0)
H = InverseLBFGSOperator(4, npairs=2)
for _ in range(2):
    t = rng.rand(4)
    H.store(t, np.dot(M, t))
x = rng.rand(4)
y = H * x
t = rng.rand(4)
H.store(t, -t)
assert np.allclose(H * x, y)
''')
seed('adjoint-only-no-transpose', 'C06', [('pykrylov/linop/linop.py',
     '''                self.__H = self.__T
            elif self.__T is None and self.__H is not None:
                self.__T = self.__H
''', '''                self.__H = self.__T
''')], 'a real operator defined with its adjoint only', 'its transpose stays undefined', SPD + '''
A = LinearOperator(3, 2, matvec=lambda v: v[:2], matvec_adj=lambda u: np.concatenate((u, [0.])))
assert np.allclose(A.T * np.ones(2), [1., 1., 0.])
''')
seed('minres-order-is-the-limit', 'C25', [('pykrylov/minres/minres.py',
     'if itn >= itnlim: istop = 6', 'if itn >= min(itnlim, n): istop = 6')],
     'a system that needs more iterations than unknowns and an explicit itnlim above n',
     'MINRES returns "iteration limit reached" after n of itnlim iterations', SPD + '''
from pykrylov.minres import Minres
n = 12
d = np.logspace(0, 9, n)
A = LinearOperator(n, n, matvec=lambda v: d * v, symmetric=True)
s = Minres(A)
s.solve(np.ones(n), itnlim=500, rtol=1.0e-12, etol=0.0)
assert not (s.istop == 6 and s.itn < 500), (s.istop, s.itn)
''')
seed('tfqmr-one-short', 'C25', [('pykrylov/tfqmr/tfqmr.py',
     '''            m = 2.0 * k - 1.0
            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
''', '''            m = 2.0 * k - 1.0
            if residNorm * np.sqrt(m+1) < threshold or nMatvec + 1 >= matvec_max:
''')], 'a product budget that ends in the second half of an iteration', 'TFQMR gives up with a product of its budget left', SPD + '''
from pykrylov.tfqmr import TFQMR
n = 8
M = spd(n)
A = LinearOperator(n, n, matvec=lambda v: np.dot(M, v), symmetric=True)
for budget in range(2, 8):
    s = TFQMR(A, reltol=1.0e-14, abstol=1.0e-14)
    s.solve(np.ones(n), matvec_max=budget)
    assert s.converged or s.nMatvec >= budget, (budget, s.nMatvec)
''')
seed('inverse-scaled-by-oldest', 'C26', [('pykrylov/linop/lbfgs.py',
     '''        r = q
        if self.scaling:
            last = (self.insert - 1) % self.npairs
''', '''        r = q
        if self.scaling:
            last = self.insert % self.npairs
''')], 'scaling and at least two pairs of memory', 'the inverse operator scales with the oldest pair, the compact one with the newest', SPD + '''
from pykrylov.linop.lbfgs import CompactLBFGSOperator
M = spd(5)
rng = np.random.RandomState(0)
H = InverseLBFGSOperator(5, npairs=2, scaling=True)
B = CompactLBFGSOperator(5, npairs=2, scaling=True)
for _ in range(3):
    t = rng.rand(5)
    H.store(t, np.dot(M, t))
    B.store(t, np.dot(M, t))
x = rng.rand(5)
assert np.allclose(H * (B * x), x)
''')
seed('structured-curvature-before-update', 'C26', [('pykrylov/linop/lbfgs.py',
     '''                ad[:, k] = yd[:, k] - s[:, k] / self.gamma
                for j in range(i):
''', '''                ad[:, k] = yd[:, k] - s[:, k] / self.gamma
                adTs[k] = np.dot(ad[:, k], s[:, k])
                for j in range(i):
'''), ('pykrylov/linop/lbfgs.py', '''                aTs[k] = np.dot(a[:, k], s[:, k])
                adTs[k] = np.dot(ad[:, k], s[:, k])
                aTv =''', '''                aTs[k] = np.dot(a[:, k], s[:, k])
                aTv =''')], 'a structured operator with two stored triples', 'the newest secant equation fails', SPD + '''
from pykrylov.linop.lbfgs import StructuredLBFGSOperator
M = spd(5)
D = np.diag(np.arange(1., 6.))
rng = np.random.RandomState(0)
B = StructuredLBFGSOperator(5, npairs=3)
for _ in range(2):
    t = rng.rand(5)
    B.store(t, np.dot(M, t), np.dot(D, t))
    assert np.allclose(B * t, np.dot(D, t))
''')
seed('double-root-dropped', 'C24', [('pykrylov/tools/utils.py', 'if rho < 0.0:', 'if rho <= 0.0:')],
     'a quadratic with a double root', 'no root is reported', '''
from pykrylov.tools.utils import roots_quadratic
assert np.allclose(roots_quadratic(1.0, -2.0, 1.0), [1.0, 1.0])
''')
seed('lbfgs-dtype-of-first-pair', 'C23', [('pykrylov/linop/lbfgs.py',
     '''        insert = self.insert
        self.s[:, insert] = new_s.copy()
        self.y[:, insert] = new_y.copy()
        self.ys[insert] = ys
''', '''        insert = self.insert
        if self.ys == [None] * self.npairs:     # memory in the type of the data
            self.s = np.empty((self.n, self.npairs), np.result_type(new_s, new_y))
            self.y = np.empty((self.n, self.npairs), np.result_type(new_s, new_y))
        self.s[:, insert] = new_s
        self.y[:, insert] = new_y
        self.ys[insert] = ys
''')], 'an integer pair followed by a fractional one', 'the fractional pair is stored rounded down', SPD + '''
H = InverseLBFGSOperator(3, npairs=2)
G = InverseLBFGSOperator(3, npairs=2)
H.store(np.array([1, 0, 1]), np.array([2, 0, 1]))
G.store(np.array([1., 0, 1]), np.array([2., 0, 1]))
for B in (H, G):
    B.store(np.array([.5, .25, .5]), np.array([.5, .5, .25]))
x = np.array([1., 2., 3.])
assert np.allclose(H * x, G * x)
''')
seed('blockdiag-keeps-the-list', 'C03', [('pykrylov/linop/blkop.py',
     '''        self._blocks.__setitem__(idx, ops)
''', '''        if idx == slice(None) and len(ops) == len(self._blocks):
            self._blocks = ops
        else:
            self._blocks.__setitem__(idx, ops)
''')], 'all blocks assigned at once with a full slice', 'the operator keeps the list of the caller', SPD + '''
D = [op(np.array([[k, 2.], [k, 1.]])) for k in (1., 2., 3.)]
B = BlockDiagonalLinearOperator([D[0], D[0]])
ops = [D[1], D[2]]
B[:] = ops
x = np.ones(4)
y = B * x
ops[0] = D[0]
assert np.allclose(B * x, y)
''')
