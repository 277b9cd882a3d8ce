"""What each check claims (used for the evidence files)."""
LEVEL = {}
_AI = ('Abstract interpretation of the current sources: every path of constructor and solve() is followed to a '
       'fixpoint with symbolic dimensions, data, options, operator and preconditioner (value numbering, aliasing, '
       'signs, dtypes); nothing is executed. ')
_API = ('Abstract interpretation of the current sources of the operators on scenario programs (sa/api_scen.py) with symbolic '
        'dimensions, vectors, scalars and operands; every path is followed, nothing is executed. ')
EXPLAIN = {
    'C01': _AI + 'Rule no-write-to-argument: no array-write event reaches the right-hand side or the guess. Rule '
           'solution-not-argument: on every return x and bestSolution have another root allocation.',
    'C11': _AI + 'Every attribute solve() can write is replaced by a stale marker before the call; rule attribute-set: '
           'no return leaves one stale. Rules x-is-bestSolution, x-is-fresh (alias analysis), flag-is-comparison '
           '(value numbering of the flag against max(abstol, reltol*residNorm0)), flag-follows-code (per stop code).',
    'C12': _AI + 'Every attribute solve() can write is replaced by a stale marker before the call; rule no-carry-over: '
           'no such marker is ever loaded; rule constructor-state-kept: no object built by the constructor is modified.',
    'C13': _AI + 'A ghost counter is incremented at every operator product; rule count: on every return it equals nMatvec.',
    'C10': _AI + 'Rule no-internal-error: no path ends with an exception the library did not raise itself '
           '(floating-point breakdown such as division by zero excepted).',
    'C14': _AI + 'Comparisons of data also have the outcome "unordered" (NaN). Rule limit-tested: at each start of a pass of '
           'the main loop a ghost counter of products (iterations) is proved smaller than the limit; rule progress: every '
           'complete pass makes a product.',
    'C15': _AI + 'Every comparison with a supplied tolerance splits the path; rule tolerance-tested: no tolerance is left out '
           'of a complete pass; rule tolerance-stops: no further pass starts on a path where the quantity has reached it.',
    'C16': _AI + 'Ghost counters of products are compared with the documented work at each start of another pass of the '
           'main loop; the argument of each product is checked to be in the range of the preconditioner (linear forms).',
    'C17': _AI + 'Rule residual-belongs-to-solution: on every return the value number of residNorm (residNorm0) is that of the '
           'norm of b - A*x for the returned x (for the guess); the paired updates of x and r are carried through the loop by '
           'relational joins (r = b - A*x is kept as a linear form). A second run per product budget 0..4 follows the passes '
           'one by one, which makes mismatches definite.',
    'C02': _API + 'Rules input-intact (value number of the vector after the product), result-is-fresh (alias analysis against '
           'the vector and everything the operator holds), untouched (data given at construction).',
    'C03': _API + 'Rules: containers given at construction compared (contents and identity) after construction, products and '
           'assignments; a later change of the caller\'s containers leaves products and reported data the same (value numbers).',
    'C04': _API + 'Rule product: the value number (linear form over operator words) of every product equals that of the '
           'algebraic definition.',
    'C05': _API + 'Rule product on .T and .H: linear forms over words of letters A, A^T, A^H, conj(A) compared with the '
           'transpose and adjoint of the definition; declared-symmetric/hermitian: op*x = op.T*x (op.H*x).',
    'C06': _API + 'Rules T.T-is-self, conjugate-views, inferred views: all combinations of supplied products, declared structure '
           'and dtype; identity by allocation, action by value number.',
    'C07': _API + 'Rules shape (symbolic dimensions), wrong-length-rejected, nonconforming-rejected: every path of the '
           'construction with unequal dimensions raises.',
    'C08': _API + 'Rules operator-dtype, transpose-dtype, adjoint-dtype, product-dtype against numpy.result_type for all pairs of '
           'int64, float32, float64, complex64 and complex128. '
           'CG, CGS, Bi-CGSTAB, TFQMR and MINRES are analysed for 12 pairs of dtypes of operator and right-hand side: rules '
           'solution-dtype and no-narrowing-store (in-place writes whose value dtype does not fit the array).',
    'C09': _API + 'Rules block products, assignments (also repeated, symmetric, hermitian, on views), selection, rejected '
           'assignments: linear forms over slices of the vector compared with the definition.',
    'C18': _AI + 'Rule snapshot-never-written: no array-write event reaches an array stored in a history; '
           'last-iterate-is-solution and one-iterate-per-update by value numbering of linear forms.',
    'C19': _AI + 'Rule silent: no path with show false (and no logger level change) reaches a write to standard output.',
    'C20': _AI + 'Rule no-global-effect: no path reaches a call with process-wide effect or a write to module or class state. '
           'Effect analysis of every function: rules process-wide-call (calls resolved through the imports against a list of '
           'calls that change process state) and shared-state-store (module globals, class attributes, mutable defaults).',
    'C23': _AI + 'Every solver is analysed for integer operators, right-hand sides and guesses (dtypes of all values are tracked, '
           'classic division of integers rounds down): rules nothing-rounds-down (no division with an integer result dtype, no '
           'store or conversion of a real value to integers) and solution-not-integer. Histories of integer pairs and '
           'vectors in the L-BFGS operators, whose records and products are compared with the definition in real arithmetic.',
    'C25': _AI + 'The first passes of the main loop are followed one by one. Rule stated-reason: on every return the path has the '
           'comparison that the stop code (or the lack of convergence) stands for; a path without it counts when concrete '
           'symbols satisfy all it assumes. Rule iterations-reported: the reported count is the number of passes.',
    'C24': _API + 'The random vectors of the checks are symbols: value numbering with operators moved across inner products '
           '(symmetry) and signs of quadratic forms (declared definiteness) decide every comparison of the checks. '
           'Polynomials are given by symbolic positive roots in every order and sign, the roots found are compared with '
           'them (normal form with exact division; identity test). Rules symmetric-accepted, definite-accepted, '
           'negative-rejected, not-square-rejected, asymmetric-rejected (reachability), number-of-roots, is-a-root.',
    'C22': _API + 'Rules keeps-*, default-*, no-*-yet: the state of a solver object after each kind of construction; '
           'name resolution over import and __all__ statements: rules all-names-exist, documented-name-exported, '
           'imported-name-exists, solve-overridden.',
    'C21': _API + 'Histories of store(), products and restart() with 1 to 3 pairs of memory and every outcome of every acceptance '
           'test (also not-a-number): stored records, the next slot and the products (value numbers of rational expressions in '
           'inner products; where the normal form is not complete, identity test at fixed random points) are compared with the '
           'definition on the accepted pairs.',
    'C26': _API + 'Histories of store() and products with 1 to 3 pairs of memory, data symbolic: value numbers of rational '
           'expressions in inner products (identity test at fixed random points where the normal form is not complete). Rules '
           'secant-equation, symmetric, declared-symmetric, transpose-is-itself, linear, sum-of-squares (the quadratic form '
           'of the inverse operator equals a sum of squares with weights s\'y), inverse-of-each-other.',
}
TECHNIQUE = {}
DEFAULT_TECHNIQUE = 'static analysis: abstract interpretation of the source (value numbering, aliasing, signs, dtypes, ghost counters)'
NOTE = {}
DEFAULT_NOTE = ('Sound over-approximation of every path of the analysed configurations, under the models of NumPy and of the '
                'builtins in sa/; obligations the abstraction cannot decide are counted as undecided in the evidence, '
                'not reported as violations.')
NA = {
    'N01': 'Convergence, optimality and quality of norm estimates are quantitative facts about floating-point iterations on '
           'unbounded data; no sound static argument in reach bounds them.',
    'N02': 'For any number of pairs the identities need an induction over the recursion with vectors of unbounded real '
           'data, and in floating-point arithmetic they hold only up to rounding errors that no static argument in reach '
           'bounds; the exact identities for memories of 1 to 3 pairs are C26.',
    'N03': 'Accuracy of floating-point root formulas over all coefficients is a numerical-analysis question; a static '
           'analysis of the source cannot decide it.',
    'N04': 'Rejection with high probability and rounding thresholds depend on random run-time quantities.',
    'N05': 'The implementation is scikit-sparse/CHOLMOD, which is not installed: pykrylov/linop/cholesky.py has no analysable '
           'numerical code of its own.',
}
