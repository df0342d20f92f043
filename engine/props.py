"""What each property's check runs.  gen: generator module in harness/gen; files: Fortran harnesses; variants: macro sets the
tree is compiled with (name -> flags)."""
DEF = [('default', [])]


def small(*ns):
    return [('stack%d' % n, ['-DFZ_INIT_STACK_LEN=%d' % n]) for n in ns]


CVS = ('src/sundials/', 'nvector/serial/nvector', 'src/cvodes/', 'sunmatrix/', 'sunnonlinsol/newton/sun', 'sunnonlinsol/fixedpoint/sun', 'src/sunlinsol/', 'src/sunmemory/')
PROPS = {
    'C01': dict(gen=['c01'], variants=DEF),
    'C02': dict(gen=['c02'], variants=DEF),
    'C03': dict(gen=['c03'], variants=DEF),
    'C04': dict(gen=['c04'], variants=DEF),
    'C05': dict(gen=['c05'], variants=DEF),
    'C06': dict(gen=['c06'], variants=DEF + small(1)),
    'C07': dict(gen=['c07'], variants=small(1, 2, 4)),
    'C08': dict(gen=['c08'], variants=DEF + small(1, 2)),
    'C09': dict(gen=['c09'], variants=DEF + small(1)),
    'C10': dict(gen=['c10'], variants=DEF + small(1)),
    'C11': dict(gen=['c11'], variants=DEF + small(1)),
    'C12': dict(gen=['c12'], variants=DEF),
    'C13': dict(gen=['c13'], variants=DEF),
    'C14': dict(gen=['c14'], variants=DEF),
    'C15': dict(gen=['c15'], variants=DEF + small(1, 2)),
    'C16': dict(gen=['c16'], variants=DEF),
    'C30': dict(gen=['c30'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector'), bounds='vector length 1..3'),
    'C31': dict(gen=['c31'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/'), bounds='vector length 1..3 (2..3 for the two-part vector, split anywhere), 1..3 threads (2 for the constraint mask), every order of the threads'),
    'C32': dict(gen=['c32'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector'), bounds='vector length 1..2, 1..4 vectors per array, 1..3 sums'),
    'C33': dict(gen=['c33'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/'), bounds='vector length 1..2 (2 for the two-part vector), 1..4 vectors per array, 1..3 sums, 1..2 threads (3 thorough) in every order'),
    'C34': dict(gen=['c34'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector', 'sunmatrix/dense/sunm', 'sunmatrix/band/sunm'), bounds='dense up to 3x3; band order 1..3 (4 thorough), every bandwidth and both storage widths'),
    'C35': dict(gen=['c35'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector', 'sunmatrix/'), bounds='every sparsity pattern of matrices up to 4..6 entries (1..3 rows/columns), spare places 0..4'),
    'C36': dict(gen=['c36'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector', 'sunmatrix/dense/sunm', 'sunmatrix/band/sunm', 'sunlinsol/dense/sunl'), bounds='LU and Cholesky up to order 3 (4..5: triangular solves with all factors, factorisation with two free entries), QR up to 2x2 and 3x1 (3x2 thorough), other operations up to 3x3'),
    'C37': dict(gen=['c37'], variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector', 'sunmatrix/dense/sunm', 'sunmatrix/band/sunm', 'sunlinsol/band/sunl'), bounds='order 1..3 with every pair of bandwidths and minimal or full fill-in storage; order 4 for bidiagonal (tridiagonal thorough), orders 4..5 with bandwidths 0..2 and two free entries'),
    'C38': dict(gen=['c38'], cfg=dict(budget=150), variants=DEF, fortran=False, want_c=('src/sundials/sundials_', 'nvector/serial/nvector'), bounds='vectors of length 1..3, up to 3 basis vectors, Hessenberg least squares with 1..2 columns (factors also 3)'),
    'C40': dict(gen=['c40'], variants=DEF, fortran=False, want_c=CVS, bounds='orders 1..5 (BDF) and 1..12 (Adams; 1..7 for quadratures and sensitivities), every derivative, 1..2 components, 2 sensitivities'),
    'C41': dict(gen=['c41'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='orders 1..5 (BDF), 1..7 (Adams); past steps arbitrary for orders 1..3, one fixed non-uniform sequence above; 1..2 steps, up to 8 failed attempts'),
    'C42': dict(gen=['c42'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='orders 2, 4 (BDF), 2, 5 (Adams), fixed non-uniform past steps, 1 component, 2 sensitivities, 1..2 steps, up to 6 failed attempts'),
    'C43': dict(gen=['c43'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='BDF order 2 and Adams order 3 at the start, all histories, tout, tstop; 1..3 steps and 2 calls, both directions; step limits with up to 8 failed attempts'),
    'C44': dict(gen=['c44'], cfg=dict(budget=80), variants=DEF, fortran=False, want_c=CVS, bounds='1..2 functions (linear, piecewise linear) along a history of order 2..3, all zeros and directions; 1..3 steps; uround enlarged for the piecewise linear ones (bounded number of root iterations)'),
    'C45': dict(gen=['c45'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='orders 1..5 (BDF), 1..12 (Adams), all histories and past steps for the estimates; norms arbitrary for acceptance, from a list for the choice of step and order; 1 component, 2 sensitivities'),
    'C46': dict(gen=['c46'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='vectors of 1..2 components, 1..3 iterations, acceleration depth 0..2, every return value of every callback'),
    'C48': dict(gen=['c48'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='1..4 equations (all entries symbolic up to 2), half-bandwidths -1..9, 1..3 gammas, failure in each of the first calls'),
    'C18': dict(gen=['c18'], cfg=dict(budget=120), variants=DEF, bounds='1..3 equations, 0..4 parameters, bilinear functions, 2 calls'),
    'C19': dict(gen=['c19'], cfg=dict(budget=120), variants=DEF, bounds='linear systems of 1..3 equations, 1..3 parameters, 1..3 output times, integrator held to order 1 and fixed steps'),
    'C47': dict(gen=['c47'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=CVS, bounds='1..5 equations, dense and bands up to 2+1, up to 3 setups and 2 solves, every failure kind and every code of solver and user functions'),
    'C49': dict(gen=['c49'], cfg=dict(budget=120), variants=DEF, fortran=False, want_c=('src/sundials/', 'nvector/serial/nvector', 'src/sunlinsol/', 'sunmatrix/', 'src/sunmemory/'), bounds='2..4 unknowns, 1..4 iterations, 0..2 restarts, all preconditioner sides; all tolerances; one component of the right-hand side symbolic for one iteration of spgmr, spfgmr, spbcgs, pcg, else right-hand sides from a list; failure of every call'),
}
