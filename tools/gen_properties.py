"""Regenerates /verif/properties.jsonl (the texts live here, in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=state or [], observe_at=observe or [], hook_needed=None)))

SOLV = ['pykrylov/%s/%s.py' % (a, a) for a in ('cg', 'cgs', 'bicgstab', 'tfqmr', 'minres', 'symmlq')] + \
       ['pykrylov/lls/%s.py' % a for a in ('lsqr', 'lsmr', 'craig', 'craigmr')]
LIN = 'pykrylov/linop/linop.py'; BLK = 'pykrylov/linop/blkop.py'; LB = 'pykrylov/linop/lbfgs.py'

p('C01', 'Solvers leave the caller\'s arrays untouched',
  'Whatever operator, preconditioner and options are given, calling solve() on any of the ten solvers (CG, CGS, Bi-CGSTAB, TFQMR, MINRES, SYMMLQ, LSQR, LSMR, CRAIG, CRAIG-MR) never writes into the right-hand side or the initial guess passed in. '
  'The solution it publishes is never the same array as the right-hand side or the guess, so later in-place use of one cannot change the other.',
  ['inputs', 'configurations'], 'every solver, every right-hand side and guess, every combination of options and every execution path of solve()',
  'Tests only look at the error of CG on Poisson problems; no test compares the right-hand side before and after, and nine of the ten solvers have no test at all.',
  SOLV, [('rhs.copy()/-rhs/astype before in-place updates', 'solve() of each solver')], observe=['rhs', 'guess', 'solver.x', 'solver.bestSolution'])

p('C02', 'An operator product leaves its input intact and returns a fresh array',
  'Applying any operator of the library (identity, diagonal, zero, reduced, coordinate, array-based, block, block-diagonal, L-BFGS, or anything built from them by arithmetic, transposition or conjugation) or a gallery matvec to a vector never modifies that vector. '
  'The returned array never shares memory with the input vector or with data held by the operator.',
  ['inputs', 'programs'], 'every operator class and every composition, every input vector, products with the operator, its transpose and its adjoint',
  'Tests compare product values only; a product that returns its argument (identity) or updates it in place gives the right numbers once and corrupts the next use.',
  [LIN, BLK, LB, 'pykrylov/gallery/gallery.py'], [('astype() copy in the vector product', 'linop.py LinearOperator.__mul_vector'), ('v.copy() in two-loop recursion', 'lbfgs.py')], observe=['A * x', 'A(x)', 'A.T * x', 'A.H * x', 'x'])

p('C03', 'Operators share no mutable container with their caller',
  'Building an operator from caller data (a list of blocks, a diagonal, an (s,y) pair) never modifies that data, and using or assigning blocks through the operator never reaches back into it. '
  'Modifying the caller\'s list of blocks, diagonal array or (s,y) arrays afterwards never changes the operator, and the diagonal an operator reports is the one it multiplies by.',
  ['histories', 'inputs'], 'every sequence of constructions, block assignments, pair insertions and later modifications of the arrays or lists by the caller',
  'Tests build each operator once from throw-away literals, so shared lists and retained references are invisible.',
  [BLK, LIN, LB], [('copy of the block lists', 'blkop.py __init__'), ('copy of the diagonal', 'linop.py DiagonalOperator.__init__'), ('copy of s and y', 'lbfgs.py store')], observe=['blocks list after construction', 'M.blocks', 'D.diag'])

p('C04', 'Composed operators act as the algebra says',
  'For all conformable operators A, B, vectors x and scalars c: (A+B)*x = A*x+B*x, (A-B)*x = A*x-B*x, (A*B)*x = A*(B*x), (c*A)*x = (A*c)*x = c*(A*x), (A/c)*x = (1/c)*(A*x) also for integer c, (-A)*x = -(A*x), A**k is k-fold composition, and A(x) = A*x. '
  'Identity, zero, diagonal, reduced, symmetrically reduced, coordinate-format and array-based operators act as their defining data say, abs() and sqrt() of a diagonal operator use the absolute values and square roots of its entries, the gallery\'s Poisson products are those of the 1-D three-point and 2-D five-point matrices, and a.conjugate()*x equals the conjugate of A times the conjugate of x.',
  ['programs', 'inputs'], 'all operator expressions over the public operations, all vectors and scalars (equality in exact arithmetic)',
  'Tests check a handful of 2x3 matrices with all-ones vectors and the scalar 2.',
  [LIN], [('matvec closures', 'linop.py __add__/__sub__/__mul_scalar/__mul_linop/__div__/__pow__/ReducedLinearOperator/CoordLinearOperator/linop_from_ndarray')], observe=['product values'])

p('C05', 'Transposes and adjoints agree with the forward operator',
  'For every operator obtained from the library - sums, differences, products, scalar multiples, quotients, powers, negations, conjugates, identity, zero, diagonal, reduced, coordinate, array-based, block and block-diagonal operators - op.T acts as the exact transpose and op.H as the exact conjugate transpose of op, whenever the operands define theirs. '
  'An operator that declares itself symmetric (hermitian) really equals its transpose (adjoint) whenever its operands\' declarations are true. The gallery\'s Poisson products are symmetric.',
  ['programs', 'inputs'], 'all operator expressions, real and complex operands, square and rectangular, all vectors (equality in exact arithmetic)',
  'Tests exercise transposes of a few real operators; sums of complex operators, adjoints of scaled or reduced operators, and rectangular diagonal blocks are never multiplied.',
  [LIN, BLK, 'pykrylov/gallery/gallery.py'], [('matvec_transp / matvec_adj closures next to each matvec', 'linop.py, blkop.py'), ('symmetric=/hermitian= declarations', 'linop.py, blkop.py')], observe=['op.T * y', 'op.H * y', 'op.symmetric', 'op.hermitian'])

p('C06', 'Transpose, adjoint and conjugate views stay linked to one another',
  'Whenever an operator is constructed with a transpose, op.T.T is op; whenever it has an adjoint, given or inferred, op.H.H acts as op; a symmetric operator acts as its own transpose and a hermitian one as its own adjoint, and for a non-complex dtype the transpose and adjoint act the same. Views of views (op.T.T of an inferred transpose, conjugates) act as the operator, transpose, adjoint or conjugate they stand for. '
  'For a complex operator defined with only its transpose or only its adjoint the missing one is inferred correctly, and when neither is given both stay None rather than being guessed.',
  ['configurations', 'programs'], 'every combination of supplied matvec_transp / matvec_adj / symmetric / hermitian and of real or complex dtype',
  'Tests build three of the sixteen combinations.',
  [LIN], [('__set_transpose / __set_adjoint / conjugate / inference block', 'linop.py LinearOperator')], observe=['op.T', 'op.H', 'op.bar'])

p('C07', 'Shapes are tracked and non-conforming operands are rejected',
  'The shape an operator reports is the shape it has: for every derived operator (sum, difference, product, power, scalar multiple, transpose, adjoint, conjugate, reduction, block, block-diagonal) a vector of length nargin is accepted and a vector of length nargout is produced. '
  'Operands whose shapes do not conform (sum, difference, product, power of a non-square operator, block rows or columns of unequal sizes in any position, non-square symmetric blocks) raise an exception at construction instead of producing an operator, and a vector of the wrong length raises an exception instead of being multiplied.',
  ['inputs', 'programs'], 'all shapes of operands, all vectors, all block layouts',
  'Tests reject a few 2x3 / 3x2 mismatches; most derived operators and most mismatched positions are not tried.',
  [LIN, BLK], [('shape guards raising ShapeError/ValueError', 'linop.py __add__, __sub__, __mul_linop, __pow__, _matvec; blkop.py __init__')], observe=['op.shape', 'exceptions'])

p('C08', 'Result types follow NumPy promotion',
  'The dtype of a product op*x is numpy.result_type(op.dtype, x.dtype), for the operator, its transpose and its adjoint. The dtype of a derived operator is the promotion of the dtypes of everything it is built from (both operands, the scalar, all blocks; the diagonal\'s or array\'s own dtype), and its transpose and adjoint carry the same dtype. '
  'CG, CGS, Bi-CGSTAB, TFQMR and MINRES return a solution whose dtype is the promotion of the operator\'s and right-hand side\'s dtypes (integers counting as floating point), and none of the in-place updates of their iteration vectors stores a value of a wider type into a narrower array.',
  ['inputs', 'programs'], 'all (floating or complex) dtypes of operators, vectors, scalars and right-hand sides, all operator expressions',
  'Tests cover basic operators times vectors only; no derived operator and no solver is tried with complex or mixed types.',
  [LIN, BLK] + SOLV[:5], [('np.result_type', 'linop.py, blkop.py, solve()')], observe=['(op*x).dtype', 'op.dtype', 'solver.x.dtype'])

p('C09', 'Block operators: every block acts in its place, also after assignment',
  'A block operator multiplies each block with its own slice of the input and accumulates into its own slice of the output, for any block layout including non-square and nested blocks; a block-diagonal operator does so along its diagonal; indexing returns the same block objects or the block operator of the selected rows and columns. '
  'After any sequence of assignments of conforming blocks M[i,j]=B (or D[i]=B; in a symmetric or hermitian operator, of the upper triangle, keeping the declared structure), products with M, M.T and M.H and the reported blocks of all three reflect the new blocks; assigning something that is not a linear operator to a block-diagonal operator raises an exception and changes nothing.',
  ['histories', 'inputs'], 'block layouts, block shapes, symmetric / hermitian declarations, and sequences of assignments',
  'No test assigns a block, and all tested diagonal blocks are square.',
  [BLK], [('blk_matvec', 'blkop.py'), ('__setitem__ rebuilding the transposed and adjoint block lists', 'blkop.py')], observe=['M*x', 'M.T*y', 'M.H*y', 'M.blocks', 'M.T.blocks'])

p('C10', 'No option or degenerate input makes the library trip over itself',
  'For every solver and every documented combination of options - and also for a zero right-hand side, an exact initial guess, a zero product budget or iteration limit, a preconditioner that breaks down - solve() never fails with an internal error such as a variable used before assignment, a missing attribute or method, or a call with the wrong arguments. '
  'The same holds for the public methods of operators, L-BFGS operators and tools.',
  ['inputs', 'configurations'], 'all option combinations, all finite data and all paths through the solvers and operator methods (finite data)',
  'The suite solves two Poisson systems with CG; no other solver is ever run, and no degenerate right-hand side.',
  SOLV + [LB, LIN, BLK], [('initialisation before the main loop, early exits', 'solve() of each solver')], observe=['exceptions escaping solve() and public methods'])

p('C11', 'Every return publishes a complete, fresh and coherent result',
  'Each time solve() returns normally, on every path, the solver\'s x and bestSolution are the same, freshly computed array, and every result attribute that solver ever reports (product count, residual norm, stop code, status, convergence flag, norms) has been set by this very call. '
  'The convergence flag tells the truth about the final state: for CG, CGS, Bi-CGSTAB and TFQMR it is the outcome of comparing the final residual measure with max(abstol, reltol * initial residual); for the code-based solvers it is never set when the stop code is the iteration limit and always set when the code is 1 or 2.',
  ['histories', 'configurations', 'inputs'], 'all solvers, all exits, first and repeated calls',
  'Only CG\'s bestSolution is looked at by tests, once per solver object.',
  SOLV, [('result block at the end of solve()', 'every solver')], observe=['x', 'bestSolution', 'converged', 'optimal', 'istop', 'status', 'residNorm', 'nMatvec'])

p('C12', 'A solver object can be reused: solves do not influence each other',
  'What solve() computes and reports depends only on the constructor\'s arguments and on the arguments of this call: a second solve() on the same object behaves as on a new object. In particular the residual, iterate and error histories describe the latest solve only.',
  ['histories'], 'all solvers, all sequences of solve() calls with any options',
  'No test calls solve() twice on one object.',
  SOLV + ['pykrylov/generic/generic.py'], [('resetting of lists at the start of solve()', 'every solver')], observe=['residHistory', 'iterates', 'resids', 'all result attributes'])

p('C13', 'The reported product count is the number of products made',
  'When solve() of CG, CGS, Bi-CGSTAB, TFQMR, SYMMLQ or MINRES returns, nMatvec equals the number of products with the operator that the call performed, including the one needed for an initial guess; only the products of an optional symmetry check are not counted. An operator\'s own nMatvec counter grows by exactly one per product with a vector, and reset_counters() sets it to zero.',
  ['inputs', 'configurations'], 'all right-hand sides, guesses, preconditioners, budgets and exits',
  'Tests print nMatvec but never compare it with the number of calls.',
  SOLV[:6] + [LIN], [('nMatvec += 1 next to every product', 'solve()'), ('_nMatvec', 'linop.py __mul_vector')], observe=['solver.nMatvec', 'op.nMatvec'])

p('C14', 'Every solve terminates within its limit, whatever the data',
  'For any operator, preconditioner and data, including ones that produce NaN or infinity, every solver\'s main loop ends: the product or iteration count grows in every pass and no pass is started once it has reached matvec_max (CG, CGS, Bi-CGSTAB, SYMMLQ) or itnlim (MINRES, LSQR, LSMR, CRAIG, CRAIG-MR); TFQMR makes no further product once matvec_max is reached.',
  ['inputs', 'fault_sequences'], 'all operators and data, including NaN, breakdowns and non-convergence',
  'Tests only see runs that converge.',
  SOLV, [('budget test in the loop condition or before the back edge', 'solve()')], observe=['number of operator products / iterations'])

p('C15', 'Every documented stopping tolerance takes part in stopping, in the right sense',
  'abstol and reltol (CG, CGS, Bi-CGSTAB, TFQMR), rtol (SYMMLQ, MINRES), etol (MINRES, LSQR, LSMR, CRAIG, CRAIG-MR), atol, btol and conlim (LSQR, LSMR) and btol (CRAIG) each control termination: once the monitored quantity is at or below its tolerance (for conlim: the condition estimate is at or above it) the iteration in progress is the last one (a quantity exactly equal to etol, or to the threshold in TFQMR, may take one more). '
  'No supplied tolerance is ignored or replaced by another value.',
  ['configurations', 'inputs'], 'all values of the tolerances, all paths through the iterations',
  'No test varies a tolerance.',
  SOLV, [('threshold computations and stop tests', 'solve()')], observe=['iteration at which solve() stops', 'istop'])

p('C16', 'Preconditioners are honoured in every iteration, at the documented cost',
  'A preconditioner given when CG, CGS, Bi-CGSTAB, TFQMR, MINRES or SYMMLQ is constructed is used (and, for MINRES, one given to solve()), and every complete iteration makes exactly the documented number of operator products and preconditioner solves: one each for CG, MINRES and SYMMLQ, two each for CGS, Bi-CGSTAB and TFQMR; LSQR, LSMR, CRAIG and CRAIG-MR apply M and N once each per iteration in which the bidiagonalization proceeds. '
  'In CGS, Bi-CGSTAB and TFQMR every operator product inside the iteration is taken at a preconditioned vector; in the least-squares solvers every product with A (its transpose) is taken at an N-scaled (M-scaled) vector.',
  ['configurations', 'inputs'], 'all solvers with and without preconditioner, all iterations',
  'No test supplies a preconditioner.',
  SOLV, [('if self.precon is not None: ... = self.precon * v', 'solve()')], observe=['calls of the preconditioner and of the operator'])

p('C17', 'The reported residual belongs to the returned solution',
  'In exact arithmetic, at every exit of CG, CGS, Bi-CGSTAB and SYMMLQ - convergence, exhausted budget, breakdown, zero iterations, with or without guess, shift and preconditioner - the reported residNorm is the norm of b - A*x for the x that is returned (of b - (A - shift*I)*x for shifted SYMMLQ; in the preconditioner\'s norm for CG), and residNorm0 is the same measure for the initial guess (real data).',
  ['inputs', 'configurations'], 'all operators, right-hand sides, guesses, preconditioners, budgets and exit paths',
  'Tests check the error of CG at convergence only; a recurrence in which x and r drift apart on one exit path is not seen.',
  ['pykrylov/cg/cg.py', 'pykrylov/cgs/cgs.py', 'pykrylov/bicgstab/bicgstab.py', 'pykrylov/symmlq/symmlq.py'],
  [('paired updates of x and r', 'solve()')], observe=['x', 'residNorm', 'residNorm0'])

p('C18', 'Stored histories are faithful snapshots',
  'With store_iterates (CG, MINRES, SYMMLQ, LSQR, LSMR, CRAIG, CRAIG-MR) or store_resids (CG), every stored vector is an independent copy that no later step of the solver modifies. '
  'With store_iterates, in CG, MINRES, LSQR, LSMR, CRAIG and CRAIG-MR exactly one vector is stored before the iteration and one per update of the solution, so the last stored iterate equals the returned solution.',
  ['inputs', 'configurations'], 'all runs with histories requested, all exits',
  'No test requests a history.',
  [f for f in SOLV if 'cgs' not in f and 'bicg' not in f and 'tfqmr' not in f], [('iterates.append(x.copy())', 'solve()')], observe=['iterates', 'resids', 'iterates_p', 'iterates_d'])

p('C19', 'Solvers write to standard output only when asked to show',
  'solve() prints nothing on standard output when show is false, for MINRES, LSQR, LSMR, CRAIG and CRAIG-MR, and CG, CGS, Bi-CGSTAB, TFQMR and SYMMLQ never print but report through their logger. Constructing or applying operators and calling the tools never prints either.',
  ['configurations', 'inputs'], 'all solvers, operators and tools, all paths',
  'The tests never look at standard output, and the solvers that print are not run.',
  SOLV + [LIN, BLK, LB, 'pykrylov/tools/utils.py'], [('if show: print', 'solve()')], observe=['stdout'])

p('C20', 'Calling the library leaves process-wide state alone',
  'No call into the library changes process-wide state: the global random generators are neither seeded nor advanced by solvers or checks of symmetry or definiteness, NumPy\'s error and print settings, warnings filters, the current directory, the environment and the configuration of loggers it did not create are left as they were, and no function stores per-call data in module globals, class attributes or mutable default arguments.',
  ['histories', 'inputs'], 'all public functions and methods, all call sequences',
  'Nothing in the suite compares global state before and after a call.',
  ['pykrylov/tools/utils.py'] + SOLV + [LIN, BLK, LB], [('private random generator in the symmetry and definiteness checks', 'tools/utils.py')], observe=['numpy.random state', 'numpy.geterr()', 'module globals'])

p('C21', 'L-BFGS memory: bounded, chronological, and never polluted',
  'An L-BFGS operator (inverse, direct or compact) accepts a pair (s,y) only when s\'y exceeds its acceptance threshold; a rejected pair changes nothing, an accepted one overwrites the oldest of at most npairs pairs as one consistent (s, y, s\'y) record and becomes the newest. '
  'Products use exactly the accepted pairs of the memory, newest to oldest and back for the inverse operator and oldest to newest for the others, never change the stored pairs, and after restart() the operator behaves as a new one.',
  ['histories'], 'all sequences of store(), products and restart(), all npairs',
  'The test stores seven random pairs once; rejection in mid-sequence, wrap-around followed by products and restart are not exercised.',
  [LB], [('store / restart / ring buffer index arithmetic', 'lbfgs.py')],
  state=[dict(name='insert', meaning='slot of the next pair', where='lbfgs.py'), dict(name='ys', meaning="s'y per slot, None if empty", where='lbfgs.py')],
  observe=['s', 'y', 'ys', 'insert', 'op * v'])

p('C22', 'Solvers and packages keep the common interface',
  'Every solver class is a KrylovMethod that keeps the operator, abstol, reltol, precon and logger given to its constructor (documented defaults otherwise), has a name, an acronym and the prefix derived from it, and overrides solve(); before the first solve it reports no solution, zero products and no convergence. '
  'Every public subpackage exports its documented classes and functions, and every name listed in a package\'s __all__ exists.',
  ['configurations', 'programs'], 'all solvers and packages, all constructor options',
  'Tests import two packages and construct one solver.',
  ['pykrylov/__init__.py', 'pykrylov/generic/generic.py'] + SOLV, [('KrylovMethod.__init__ template', 'generic/generic.py'), ('package __init__ star imports', 'pykrylov/*/__init__.py')], observe=['attributes of a new solver', 'package namespaces'])

p('C23', 'Integer data is never silently truncated',
  'Operators, right-hand sides and guesses with integer entries are handled as the real numbers they stand for: no division or in-place update inside a solver or an L-BFGS operator rounds down or stores a fractional value into an integer array, so integer input gives the same solution as the equal floating-point input.',
  ['inputs'], 'all integer or mixed integer/real operators, right-hand sides, guesses, and (s,y) pairs',
  'Tests use floating-point systems only; under classic division integer systems silently give wrong answers.',
  SOLV + [LB], [('promotion of the working dtype', 'solve()')], observe=['solver.x'])

p('C24', 'Checks never reject a good operator; quadratic roots are roots',
  'In exact arithmetic, check_symmetric accepts every real symmetric operator whatever the number of repeats, check_positive_definite accepts every positive definite (with semi=True semidefinite) symmetric or hermitian operator and rejects negative definite ones and, without semi, the zero operator; both reject operators that are not square and are able to reject others. The checks MINRES and SYMMLQ make on request before iterating never stop the solver for a symmetric operator with a symmetric positive definite preconditioner. roots_quadratic returns exactly the real roots: none when there is none, the single root of a linear polynomial, both roots of a quadratic when its threshold tol does not classify it as ill-conditioned, and never divides by zero.',
  ['inputs'], 'all operators with the declared structure, all numbers of repeats, all real coefficients; exact arithmetic (rounding is N03 and N04)',
  'The tests check a couple of operators and never call roots_quadratic.',
  ['pykrylov/tools/utils.py', 'pykrylov/minres/minres.py', 'pykrylov/symmlq/symmlq.py'], [('random-vector checks and closed formula', 'tools/utils.py'), ('checks before the iteration', 'solve()')], observe=['return value', 'solver.istop'])

p('C25', 'A solver stops only for the reason it states',
  'CG, CGS, Bi-CGSTAB and TFQMR return with the convergence flag false only after matvec_max products (CG also after finding a direction of negative curvature or a failed symmetry check on request). The stop codes of the other solvers are true: the iteration-limit code (6 in MINRES, 5 in SYMMLQ, 7 in the LLS solvers) is returned only when that many iterations (products) were made, the codes that name a tolerance (MINRES 1 and 2: rtol, 10: etol; SYMMLQ 1: rtol; LSQR and LSMR 1: btol, 2: atol, 3: conlim, 8: etol; CRAIG 1: btol, 8: etol; CRAIG-MR 8: etol) only when a comparison with that tolerance was met, code 0 only when no iteration was made, and the not-symmetric codes (MINRES 7 and 8, SYMMLQ 6 and 7) only when check was requested. The status text names the iteration limit exactly for that code, and the reported number of iterations is the number made.',
  ['inputs', 'configurations'], 'all operators, right-hand sides, tolerances and limits; all options',
  'The tests look at one converged CG run; no stop code is ever checked.',
  SOLV, [('stopping tests and exits of the main loop', 'solve()')], observe=['converged', 'istop', 'status', 'itn', 'nMatvec'])

p('C26', 'L-BFGS operators satisfy the secant equation and invert each other',
  'In exact arithmetic, with scaling on or off and for every sequence of accepted pairs: the direct and compact operators map s to y and the inverse operator maps y to s for the newest pair (s,y) (the structured operator maps s to the third vector stored with it); every L-BFGS operator is linear, symmetric and declared symmetric, and its transpose is itself; the quadratic form of the inverse operator is a sum of squares with the positive weights s\'y, hence positive definite; and the inverse operator and the direct (compact) operator given the same pairs and the same scaling option are inverses of each other.',
  ['histories', 'inputs'], 'all accepted pairs, scaling on and off, short memories; exact arithmetic (N02 has the rest)',
  'One random sequence is compared between two of the operators, without scaling.',
  [LB], [('two-loop recursion, outer products, compact form, scaling', 'lbfgs.py')], observe=['op * v', 'op.T * v'])

p('N01', 'Solvers converge and satisfy their optimality conditions',
  'On every problem of its class each solver converges to the solution (CG on SPD, MINRES/SYMMLQ on symmetric, the LLS solvers on least-squares problems) within the attainable accuracy, and the quantities it estimates (condition number, norms) are close to the true ones.',
  ['inputs'], 'all problems of the solver\'s class', 'Numerical convergence over all inputs.',
  SOLV, [('recurrences', 'solve()')])
p('N02', 'L-BFGS operators stay definite and inverse for long memories and under rounding',
  'For every memory length and in floating-point arithmetic the direct, compact and inverse L-BFGS operators are numerically symmetric positive definite and inverses of each other to working accuracy (exact identities for short memories: C26).',
  ['histories', 'inputs'], 'all pair sequences and memory lengths', 'One random sequence is tested.', [LB], [('two-loop recursion, outer products, compact form', 'lbfgs.py')])
p('N03', 'roots_quadratic is accurate in floating-point arithmetic',
  'roots_quadratic(q2,q1,q0) returns all real roots of the quadratic to working accuracy, also for ill-conditioned coefficients (exact arithmetic: C24).',
  ['inputs'], 'all coefficients', 'No test.', ['pykrylov/tools/utils.py'], [('roots_quadratic', 'tools/utils.py')])
p('N04', 'Structure checks withstand rounding and reject almost surely',
  'In floating-point arithmetic check_symmetric and check_positive_definite never reject a symmetric (positive definite) operator, and they reject others with overwhelming probability (exact arithmetic: C24).',
  ['inputs'], 'all operators', 'Tested on two operators.', ['pykrylov/tools/utils.py'], [('check_symmetric, check_positive_definite', 'tools/utils.py')])
p('N05', 'A Cholesky operator inverts its matrix',
  'CholeskyOperator(A)*b solves A*x=b for every sparse SPD matrix A.',
  ['inputs'], 'all sparse SPD matrices', 'The dependency is not installed; the tests are skipped.', ['pykrylov/linop/cholesky.py'], [('cholmod factor', 'linop/cholesky.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P))
