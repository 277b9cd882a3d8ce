"""Solver scenarios: how the analysis calls the library."""
import ast
import load
import dtypes as D
import terms as T
import signs as S
import join as J
import values as V
from terms import *
from values import *
from interp import Interp, Undecided

N = patom(atom('dim', 'n'))
MM = patom(atom('dim', 'm'))


class Spec(object):
    """One solver: where it is and which options it documents."""

    def __init__(self, key, mod, cls, shape, ctor, solve, guess=False, precons=(), limit=None, default_limit=None,
                 rhs='rhs', flags=()):
        self.key, self.mod, self.cls, self.shape = key, mod, cls, shape
        self.ctor, self.solve = ctor, solve
        self.guess, self.precons = guess, precons
        self.limit = limit
        self.rhs = rhs


SPECS = [
    Spec('CG', 'pykrylov.cg', 'CG', 'square', {'abstol': 'f', 'reltol': 'f'},
         {'matvec_max': 'i', 'check_curvature': 'b', 'check_symmetric': 'c0', 'store_resids': 'b', 'store_iterates': 'b'},
         guess=True, precons=('c:precon',), limit='matvec_max'),
    Spec('CGS', 'pykrylov.cgs', 'CGS', 'square', {'abstol': 'f', 'reltol': 'f'}, {'matvec_max': 'i'},
         guess=True, precons=('c:precon',), limit='matvec_max'),
    Spec('BiCGSTAB', 'pykrylov.bicgstab', 'BiCGSTAB', 'square', {'abstol': 'f', 'reltol': 'f'}, {'matvec_max': 'i'},
         guess=True, precons=('c:precon',), limit='matvec_max'),
    Spec('TFQMR', 'pykrylov.tfqmr', 'TFQMR', 'square', {'abstol': 'f', 'reltol': 'f'}, {'matvec_max': 'i'},
         guess=True, precons=('c:precon',), limit='matvec_max'),
    Spec('Minres', 'pykrylov.minres', 'Minres', 'square', {},
         {'shift': 'f', 'show': 'b', 'check': 'c0', 'itnlim': 'i', 'rtol': 'f', 'etol': 'f', 'window': 'w',
          'store_resids': 'b', 'store_iterates': 'b'},
         precons=('c:precon',), limit='itnlim'),
    Spec('Symmlq', 'pykrylov.symmlq', 'Symmlq', 'square', {},
         {'matvec_max': 'i', 'rtol': 'f', 'check': 'c0', 'shift': 'f', 'store_iterates': 'b'},
         precons=('c:precon',), limit='matvec_max'),
    Spec('LSQR', 'pykrylov.lls', 'LSQRFramework', 'rect', {},
         {'itnlim': 'i', 'damp': 'f', 'atol': 'f', 'btol': 'f', 'conlim': 'f', 'show': 'b', 'wantvar': 'b',
          'etol': 'f', 'window': 'w', 'store_resids': 'b', 'store_iterates': 'b'},
         precons=('s:M', 's:N'), limit='itnlim'),
    Spec('LSMR', 'pykrylov.lls', 'LSMRFramework', 'rect', {},
         {'itnlim': 'i', 'damp': 'f', 'atol': 'f', 'btol': 'f', 'conlim': 'f', 'show': 'b',
          'etol': 'f', 'window': 'w', 'store_resids': 'b', 'store_iterates': 'b'},
         precons=('s:M', 's:N'), limit='itnlim'),
    Spec('CRAIG', 'pykrylov.lls', 'CRAIGFramework', 'rect', {},
         {'itnlim': 'i', 'damp': 'f', 'atol': 'f', 'btol': 'f', 'conlim': 'f', 'show': 'b', 'wantvar': 'b',
          'etol': 'f', 'window': 'w', 'store_resids': 'b', 'store_iterates': 'b'},
         precons=('s:M', 's:N'), limit='itnlim'),
    Spec('CRAIGMR', 'pykrylov.lls', 'CRAIGMRFramework', 'rect', {},
         {'itnlim': 'i', 'damp': 'f', 'atol': 'f', 'btol': 'f', 'conlim': 'f', 'show': 'b',
          'etol': 'f', 'window': 'w', 'store_resids': 'b', 'store_iterates': 'b'},
         precons=('s:M', 's:N'), limit='itnlim'),
]
BYKEY = dict((s.key, s) for s in SPECS)
SQUARE = ('CG', 'CGS', 'BiCGSTAB', 'TFQMR', 'Minres', 'Symmlq')
LLS = ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR')


def opt_atom(k, kind):
    return atom('opt', k, kind)


class Run(object):
    """The abstract execution of one scenario."""

    def __init__(self, spec, guess=False, precons=(), opts=None, fixed=None, real=True, dt_op=None, dt_rhs=None,
                 dt_guess=None, repeat=False, maxsteps=None, nolog=False):
        """opts: names of the options supplied symbolically (None: all, (): none);
        fixed: option values given explicitly."""
        self.spec = spec
        self.guess, self.precons = guess, tuple(precons)
        self.I = I = Interp()
        I.assume_real = real
        if maxsteps:
            I.maxsteps = maxsteps
        self.fixed = dict(fixed or {})
        self.st = st = St()
        dop = frozenset([dt_op or 'D:op'])
        drhs = frozenset([dt_rhs or 'D:rhs'])
        n = N
        m = N if spec.shape == 'square' else MM
        T.OPPROPS.clear()
        I.ops['A'] = {'dims': (m, n), 'dt': dop, 'symmetric': TRUE if spec.key in ('CG', 'Minres', 'Symmlq') else None,
                      'hermitian': TRUE if spec.key in ('CG', 'Minres', 'Symmlq') else None}
        if spec.key in ('CG', 'Minres', 'Symmlq'):
            T.OPPROPS['A'] = ('sym', 'real') if real else ('herm',)
        elif real:
            T.OPPROPS['A'] = ('real',)
        names = {}
        names['Solver'] = I.get(spec.mod, spec.cls)
        names['A'] = OpV('A', False, False)
        for p in ('P', 'M', 'N'):
            I.ops[p] = {'dims': (m, m) if p == 'M' else (n, n), 'dt': dop, 'neutral': True}
            T.OPPROPS[p] = ('sym', 'real') if real else ()
        self.rhs = self.array(st, 'b', m, drhs, 'right-hand side')
        names['rhs'] = self.rhs
        cargs, sargs = [], []
        if spec.mod and 'logger' not in self.fixed and not nolog:
            cargs.append('logger=LG')
            names['LG'] = Ext('logger:user')
        for k, kind in sorted(spec.ctor.items()):
            self.opt(names, cargs, k, kind, opts)
        for k, kind in sorted(spec.solve.items()):
            self.opt(names, sargs, k, kind, opts)
        if guess:
            self.guess_ref = self.array(st, 'x0', n, frozenset([dt_guess or 'D:guess']), 'initial guess')
            names['guess'] = self.guess_ref
            sargs.append('guess=guess')
        for p in spec.precons:
            where, nm = p.split(':')
            letter = {'precon': 'P', 'M': 'M', 'N': 'N'}[nm]
            if nm in self.precons:
                names[nm] = OpV(letter, False, False)
                (cargs if where == 'c' else sargs).append('%s=%s' % (nm, nm))
        self.names = names
        src = ['K = Solver(%s)' % ', '.join(['A'] + cargs)]
        self.ctor_src = src[0]
        self.solve_src = 'K.solve(%s)' % ', '.join(['rhs'] + sargs)
        self.src = '%s\n%s\n' % (self.ctor_src, self.solve_src)
        J.LETTERS[:] = letters(('A',) + tuple({'precon': 'P', 'M': 'M', 'N': 'N'}[p] for p in self.precons))

    def array(self, st, name, n, dt, prov):
        return st.alloc(ArrC(fvec(name), (n,), dt, prov, False))

    def opt(self, names, args, k, kind, opts):
        if k in self.fixed:
            v = self.fixed[k]
        elif opts is not None and k not in opts:
            return
        elif kind == 'f':
            v = Num(patom(opt_atom(k, 'f')), LF, False)
        elif kind in ('i', 'w'):
            v = Num(patom(opt_atom(k, 'i')), LI, False)
            if kind == 'w':
                S.assume(self.st, v.p, S.POS)
        elif kind == 'b':
            v = BSym(('opt', k), False)
        elif kind == 'c0':
            v = FALSE
        else:
            raise ValueError(kind)
        names[k] = v
        args.append('%s=%s' % (k, k))

    def go(self):
        self.final, self.escaped = self.I.run_snippet(self.src, self.names, self.st)
        return self

    def attrs(self, st):
        """Attributes of the solver object in a final state."""
        k = st.cell(st.stack[0]).vars['K']
        return st.cell(k.a).attrs


def letters(names):
    out = []
    for n in names:
        for t in (False, True):
            l = T.op_letter(n, t, False)
            if l not in out:
                out.append(l)
    return out


def reachable(st, v):
    """Addresses reachable from a value."""
    class W(Walker):
        pass
    w = Walker(st)
    w.val(v)
    i = 0
    while i < len(w.queue):
        w.cell(st.heap[w.queue[i]])
        i += 1
    return set(w.queue)


def construct(self):
    """First phase: the constructor only."""
    self.mid, self.ctor_escaped = self.I.run_snippet(self.ctor_src + '\n', self.names, self.st)
    return self.mid


def solve_from(self, states):
    """Second phase: solve() from the given states."""
    final, esc = [], []
    for st in states:
        names = dict(self.names)
        names['K'] = st.cell(st.stack[0]).vars['K']
        f, e = self.I.run_snippet(self.solve_src + '\n', names, st)
        for x in f:
            x.stack.pop()
        final += f
        esc += e
    self.final, self.escaped = final, esc + self.ctor_escaped
    return self


def written(self, st, exclude=()):
    """Attributes of the solver that solve() writes, by the attribute log and
    by the text of the methods that were analysed."""
    I = self.I
    k = st.cell(st.stack[0]).vars['K']
    out = dict((n, l) for (a, n), l in I.attrlog.items() if a == k.a and (a, n) not in exclude)
    return out


Run.construct = construct
Run.solve_from = solve_from
Run.written = written
