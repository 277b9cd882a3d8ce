"""Scenarios of the common solver interface (C22)."""
from values import *

SOLVERS = {
    'CG': ('pykrylov.cg.cg', 'Conjugate Gradient', 'CG'),
    'CGS': ('pykrylov.cgs.cgs', 'Conjugate Gradient Squared', 'CGS'),
    'BiCGSTAB': ('pykrylov.bicgstab.bicgstab', 'Bi-Conjugate Gradient Stabilized', 'Bi-CGSTAB'),
    'TFQMR': ('pykrylov.tfqmr.tfqmr', 'Transpose-Free Quasi-Minimum Residual', 'TFQMR'),
    'Minres': ('pykrylov.minres.minres', 'Minimum Residual', 'MINRES'),
    'Symmlq': ('pykrylov.symmlq.symmlq', 'Symmetric Indefinite Lanczos with Orthogonal Factorization', 'SYMMLQ'),
    'LSQRFramework': ('pykrylov.lls.lsqr', 'Least-Squares QR', 'LSQR'),
    'LSMRFramework': ('pykrylov.lls.lsmr', 'Least-Squares Minimum Residual', 'LSMR'),
    'CRAIGFramework': ('pykrylov.lls.craig', "CRAIG's Method for Least Squares", 'CRAIG'),
    'CRAIGMRFramework': ('pykrylov.lls.craigmr', 'Least-Norm Minimum Residual', 'CRAIG-MR'),
}

COMMON = '''
def common(s, o):
    holds('C22', 'is-a-KrylovMethod', W, isinstance(s, KrylovMethod))
    identical('C22', 'keeps-operator', W, s.op, o)
    holds('C22', 'has-name', W, isinstance(s.name, str) and len(s.name) > 0 and s.name != 'Generic Krylov Method (must be subclassed)')
    holds('C22', 'has-acronym', W, isinstance(s.acronym, str) and len(s.acronym) > 0)
    equal('C22', 'prefix-from-acronym', W, s.prefix, s.acronym + ': ')
    equal('C22', 'acronym', W, s.acronym, ACRONYM)
    identical('C22', 'no-solution-yet', W, s.x, None)
    identical('C22', 'no-solution-yet', W, s.bestSolution, None)
    equal('C22', 'no-products-yet', W, s.nMatvec, 0)
    holds('C22', 'not-converged-yet', W, not s.converged)
    identical('C22', 'no-residual-yet', W, s.residNorm, None)
    identical('C22', 'no-residual-yet', W, s.residNorm0, None)
'''
GIVEN = COMMON + '''
s = CLS(op, abstol=a, reltol=r, precon=M, logger=log)
common(s, op)
equal('C22', 'keeps-abstol', W, s.abstol, a)
equal('C22', 'keeps-reltol', W, s.reltol, r)
identical('C22', 'keeps-precon', W, s.precon, M)
identical('C22', 'keeps-logger', W, s.logger, log)
'''
DEFAULT = COMMON + '''
s = CLS(op)
common(s, op)
equal('C22', 'default-abstol', W, s.abstol, 1.0e-8)
equal('C22', 'default-reltol', W, s.reltol, 1.0e-6)
identical('C22', 'default-precon', W, s.precon, None)
identical('C22', 'default-logger', W, s.logger, null_log)
t = CLS(op, abstol=a)
equal('C22', 'keeps-abstol', W, t.abstol, a)
equal('C22', 'default-reltol', W, t.reltol, 1.0e-6)
t = CLS(op, reltol=r)
equal('C22', 'default-abstol', W, t.abstol, 1.0e-8)
equal('C22', 'keeps-reltol', W, t.reltol, r)
t = CLS(op, abstol=0.0, reltol=0.0)
equal('C22', 'keeps-zero-tolerance', W, t.abstol, 0.0)
equal('C22', 'keeps-zero-tolerance', W, t.reltol, 0.0)
# two objects share nothing
u = CLS(op)
holds('C22', 'own-history', W, u.residHistory is not t.residHistory)
'''
GENERIC = '''
s = CLS(op, abstol=a)
identical('C22', 'keeps-operator', W, s.op, op)
equal('C22', 'keeps-abstol', W, s.abstol, a)
try:
    s.solve(vec('b', n, 'f8'))
    bad = True
except NotImplementedError:
    bad = False
holds('C22', 'generic-solve-is-abstract', W, not bad)
'''


def add(sc):
    gen = ('pykrylov.generic.generic', ['KrylovMethod', 'null_log'])
    for cls, (mod, nm, ac) in sorted(SOLVERS.items()):
        rel = mod.replace('.', '/') + '.py'
        ex = {'W': Const(rel + ':' + cls + '.__init__'), 'ACRONYM': Const(ac), 'log': Const('log'), 'M': Const('M')}
        kw = dict(ops=[('op', 'n', 'n', 'f8', ('sym',))], nums=[('a', 'f', None), ('r', 'f', None)])
        for which, src in (('given', GIVEN), ('default', DEFAULT)):
            def make(api, st, cls=cls, mod=mod):
                return api.I.get(mod, cls)
            sc('interface %s %s' % (cls, which), src, extra=dict(ex, CLS=make), imports=(gen,), **kw)
    sc('interface generic', GENERIC, extra={'W': Const('pykrylov/generic/generic.py:KrylovMethod'),
       'CLS': lambda api, st: api.I.get('pykrylov.generic.generic', 'KrylovMethod')}, imports=(gen,),
       ops=[('op', 'n', 'n', 'f8', ())], nums=[('a', 'f', None)])
