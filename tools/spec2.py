SU = 'lib/sundials-6.1.1/'
su = lambda *l: [SU + x for x in l]
TC = 'symbolic execution of the GCC RTL of the real SUNDIALS sources; z3 decides each assertion over all values'
NV = su('src/nvector/serial/nvector_serial.c', 'src/sundials/sundials_nvector.c')
P('C30', 'Serial vector operations compute what their names say, aliased or not',
  'Every operation of a serial N_Vector (linear sum, const, product, quotient, scale, abs, inverse, add-constant, dot product, max/min, L1, L2, WRMS norms with and without mask, compare, inverse test, constraint mask, '
  'minimum quotient, and their local forms) computes its defining formula on each element, for all scalars including the special ones (0, 1, -1, equal, opposite) and for outputs that are also inputs. Inputs that are not outputs stay unchanged; clones, empty clones and buffer pack/unpack reproduce the vector.',
  ['inputs', 'configurations'], 'all element values and scalars, every aliasing of the operands, lengths 1..3',
  'The SUNDIALS vector tests are not part of the suite, and the integrator tests reach only a few scalar combinations of the specialised fast paths.',
  NV, [('element-wise operations and their fast paths', SU + 'src/nvector/serial/nvector_serial.c: N_V*_Serial'), ('dispatch', SU + 'src/sundials/sundials_nvector.c')], tech=TC)
P('C31', 'Threaded and composite vectors agree with the mathematical vector operation',
  'The pthreads N_Vector and the ManyVector (a vector made of two parts) compute for every operation of the serial vector the same elements and the same scalar results, for every split of the elements over threads or parts and every execution order of the threads. Threads never access the same data without a common lock. '
  'No element is skipped or processed twice, and inputs that are not outputs stay unchanged.',
  ['inputs', 'schedules', 'configurations'], 'all element values and scalars, every aliasing, 1..3 threads in every completion order, lengths 1..3, two parts',
  'No test of the suite uses these vectors; a lost remainder chunk or a race on the reduction shows only for particular lengths or schedules.',
  su('src/nvector/pthreads/nvector_pthreads.c', 'src/nvector/manyvector/nvector_manyvector.c'),
  [('work splitting', SU + 'src/nvector/pthreads/nvector_pthreads.c: N_VSplitLoop_Pthreads'), ('reduction over the parts', SU + 'src/nvector/manyvector/nvector_manyvector.c')], tech=TC,
  note='Each thread body runs whole, in every order of the threads; a lockset analysis of every access shows that no two threads touch the same data without a common lock, so these orders represent all interleavings of the critical sections.')
P('C32', 'Fused and vector-array operations equal the sequence of plain operations',
  'Linear combination, scale-add-multi, multi dot product, and all vector-array operations (linear sum, scale, const, WRMS norms with and without mask, scale-add-multi and linear combination of arrays) give the result of applying the plain operations one by one. '
  'This holds whether the fused implementation is enabled, disabled, or enabled one by one, for any number of vectors, any coefficients (also 1, -1, 0) and for outputs that are also inputs as documented.',
  ['inputs', 'configurations'], 'all element values and coefficients, 1..4 vectors, 1..3 sums, fused on / off / single, documented aliasings',
  'Fused operations are off by default and not enabled by any test.',
  NV, [('fused operations', SU + 'src/nvector/serial/nvector_serial.c'), ('fallbacks without fused operations', SU + 'src/sundials/sundials_nvector.c')], tech=TC)
P('C33', 'Fused operations of threaded and composite vectors equal the plain ones',
  'The fused and vector-array operations of the pthreads and the two-part ManyVector N_Vectors give the elements and scalars that applying the plain operations one by one gives, for enabled and disabled fused operations, any coefficients, documented aliasing and every execution order of the threads.',
  ['inputs', 'schedules', 'configurations'], 'all element values and coefficients, 1..4 vectors, 1..3 sums, fused on / off, 1..2 threads in every order',
  'No test of the suite uses these vectors or their fused operations.',
  su('src/nvector/pthreads/nvector_pthreads.c', 'src/nvector/manyvector/nvector_manyvector.c', 'src/sundials/sundials_nvector.c'),
  [('fused operations', SU + 'src/nvector/pthreads/nvector_pthreads.c'), ('fused operations over parts', SU + 'src/nvector/manyvector/nvector_manyvector.c')], tech=TC)
P('C34', 'Dense and band matrix operations equal the operations on the full matrix',
  'Scale-add (cA+B), scale-add-identity (cA+I), matrix-vector product, copy, clone and zero of dense and band SUNMatrices give the matrix (or vector) that the same operation on the plain two-dimensional matrix gives, whatever the two bandwidths, the stored bandwidth and the content of unused storage. '
  'The band of a sum or of the target of a copy widens to hold both bands and never shrinks. All operands that are not outputs stay unchanged, operations on mismatched dense shapes or kinds are refused without a change, and the result is again a consistent matrix.',
  ['inputs', 'configurations'], 'all entries and scalars, dense up to 3x3, every pair of band shapes up to order 3 (4 thorough)',
  'The suite uses dense matrices through CVODES only; band matrices and growth of the band by a sum are not tested.',
  su('src/sunmatrix/dense/sunmatrix_dense.c', 'src/sunmatrix/band/sunmatrix_band.c', 'src/sundials/sundials_matrix.c'),
  [('dense operations', SU + 'src/sunmatrix/dense/sunmatrix_dense.c'), ('band operations', SU + 'src/sunmatrix/band/sunmatrix_band.c: SUNMatScaleAdd_Band, SMScaleAddNew_Band')], tech=TC)
P('C35', 'Sparse matrix operations equal the operations on the full matrix',
  'Scale-add (cA+B), scale-add-identity, matrix-vector product, copy, clone, zero, conversion between CSC and CSR, reallocation and construction from a dense or band matrix with a drop tolerance give the matrix that the operation on the plain matrix gives, for every sparsity pattern, empty columns, '
  'unsorted indices, CSC and CSR, and any amount of spare storage. Storage grows when needed, no access leaves it, and other operands stay unchanged.',
  ['inputs', 'configurations'], 'every sparsity pattern of matrices with up to 4..6 entries, all values and scalars, 0..4 spare entries',
  'No test of the suite uses sparse matrices.',
  su('src/sunmatrix/sparse/sunmatrix_sparse.c'), [('sparse sums', SU + 'src/sunmatrix/sparse/sunmatrix_sparse.c: SUNMatScaleAdd_Sparse, SUNMatScaleAddI_Sparse'), ('format conversion', SU + 'src/sunmatrix/sparse/sunmatrix_sparse.c: format_convert')], tech=TC)
P('C36', 'Dense factorisations and solves solve the system they were given',
  'LU with partial pivoting, Cholesky and Householder QR of a dense matrix, and the solves based on them, return a solution of the original system (A x = b), a product equal to the original matrix, and an orthogonal Q. LU picks a pivot of largest magnitude, reports a zero pivot for exactly the singular matrices (by its 1-based column) and Cholesky for those not positive definite. '
  'The dense SUNLinearSolver solves any number of right-hand sides after one setup, in place or not, and refuses non-matching objects. Copy, scale, add-identity, matrix-vector product and allocation of dense matrices, under old and new names, do what they say.',
  ['inputs', 'configurations'], 'all matrices and right-hand sides of order 1..3 (every pivot order); orders 4..5: triangular solves for all factors, factorisation of integer matrices with two free entries; QR up to 2x2 and 3x1, all interfaces',
  'The integrator tests factor well-conditioned matrices that need no row exchange; Cholesky, QR and the legacy interface are not run at all.',
  su('src/sundials/sundials_dense.c', 'src/sundials/sundials_direct.c', 'src/sunlinsol/dense/sunlinsol_dense.c'),
  [('factorisations', SU + 'src/sundials/sundials_dense.c'), ('linear solver object', SU + 'src/sunlinsol/dense/sunlinsol_dense.c')], tech=TC)
P('C37', 'Band factorisation and solve solve the system whatever the bandwidths',
  'LU factorisation with partial pivoting of a band matrix and its solve return the solution of the full system for every pair of bandwidths, every sufficient stored bandwidth and any previous content of the fill-in storage, pivot by largest magnitude and report a zero pivot exactly for singular matrices. '
  'No access leaves the storage. The band SUNLinearSolver refuses matrices without room for fill-in and non-matching objects. Band copy (of part of the band), scale, add-identity, matrix-vector product and allocation do what they say, under old and new names.',
  ['inputs', 'configurations'], 'all matrices of order 1..3 with all bandwidths and right-hand sides, every pivot order; order 4 bidiagonal; orders 4..5 of bandwidths 0..2 with two free entries',
  'The suite never uses a band solver.',
  su('src/sundials/sundials_band.c', 'src/sundials/sundials_direct.c', 'src/sunlinsol/band/sunlinsol_band.c'),
  [('factorisation with fill-in', SU + 'src/sundials/sundials_band.c: SUNDlsMat_bandGBTRF'), ('linear solver object', SU + 'src/sunlinsol/band/sunlinsol_band.c')], tech=TC)

P('C38', 'Gram-Schmidt and QR kernels of the iterative solvers are exact',
  'Modified and classical Gram-Schmidt decompose v[k] as the sum of h[i][k-1] v[i] over the last min(k,p) basis vectors plus the new v[k], return its norm, and orthogonalise exactly against an orthonormal basis; other vectors and entries of h stay unchanged. '
  'The QR factorisation of a Hessenberg matrix, computed at once or column by column, gives the least-squares solution and its residual norm, and reports the column of a zero pivot. Each QR update used by Anderson acceleration (MGS, ICWY, CGS2, DCGS2, single-buffer variants) extends an exact QR factorisation by one vector.',
  ['inputs', 'configurations'], 'all vectors and matrix entries, 1..3 basis vectors and every truncation p, Hessenberg matrices with up to 2 columns (3 for the factors), exact real arithmetic',
  'No test uses these kernels directly; truncated orthogonalisation and complete refactorisation are reached by no test at all.',
  su('src/sundials/sundials_iterative.c'), [('Gram-Schmidt', SU + 'src/sundials/sundials_iterative.c: SUNModifiedGS, SUNClassicalGS'), ('Hessenberg QR', SU + 'src/sundials/sundials_iterative.c: SUNQRfact, SUNQRsol'), ('QR updates', SU + 'src/sundials/sundials_iterative.c: SUNQRAdd_*')], tech=TC)
CV = SU + 'src/cvodes/cvodes.c'
P('C40', 'CVODES output between steps is the interpolating polynomial of the last step',
  'CVodeGetDky and its counterparts for quadratures, sensitivities and quadrature sensitivities (all at once or one by one) return the k-th derivative at t of the Nordsieck polynomial of the last step, for every order, every k from 0 to that order and every t from the start of the last step (within its tolerance) to its end, in both directions of integration. CVodeGetQuad, GetSens, GetSens1, GetQuadSens and GetQuadSens1 return the value at the last returned time. '
  'k outside 0..q, t outside the step, a sensitivity index outside 0..Ns-1, NULL output and a disabled feature are refused with the documented code, and nothing in the integrator changes.',
  ['inputs', 'configurations'], 'all history values, times and step sizes, orders 1..5 (BDF) and 1..12 (Adams, 1..7 for quadratures and sensitivities), every derivative',
  'The tests read the solution at a few times of one problem with order low; derivatives and outputs of quadratures and quadrature sensitivities are not read.',
  su('src/cvodes/cvodes.c'), [('interpolation', CV + ': CVodeGetDky, CVodeGetQuadDky, CVodeGetSensDky1, CVodeGetQuadSensDky1')], tech=TC)
P('C41', 'Every accepted CVODES step satisfies its BDF or Adams formula',
  'From any history, for all step sizes, an accepted step of size h and order q gives a solution y(t+h) that, with f evaluated there, satisfies the BDF formula with fixed leading coefficient or the variable-step Adams-Moulton formula of that order over the past steps. This holds through step-size changes, order raised or lowered, repeated error-test and convergence failures, right-hand sides that fail recoverably, both directions and both kinds of nonlinear solver. '
  'Time advances by the reported step, the order changes by at most one, the history still passes through the past values (BDF) or slopes (Adams). A step that is given up leaves time and solution of the last accepted step.',
  ['inputs', 'faults', 'histories'], 'all histories and slopes; arbitrary past steps for orders 1..3, fixed non-uniform past steps for orders 4..5 (BDF) and 4..7 (Adams); one to two steps, up to 8 failed attempts, exact real arithmetic',
  'Tests compare the solution of one easy problem to a tolerance that hides a wrong coefficient after an order change or a retried step.',
  su('src/cvodes/cvodes.c', 'src/cvodes/cvodes_nls.c'), [('step coefficients', CV + ': cvSetBDF, cvSetAdams'), ('order changes', CV + ': cvAdjustAdams, cvIncreaseBDF, cvDecreaseBDF'), ('recovery', CV + ': cvRestore, cvRescale, cvHandleNFlag, cvDoErrorTest')], tech=TC,
  note='The norms that steer the step and order selection return arbitrary values and the nonlinear solver solves the system function of the integrator in one evaluation or reports failure, so every path of the selection is explored; convergence of the iteration itself is not part of this property.')
P('C42', 'Quadratures and sensitivities take the same step as the solution',
  'Quadratures, sensitivities (simultaneous, staggered, staggered1) and quadrature sensitivities satisfy the same BDF or Adams formula over their own past values as the solution, whether or not they take part in the error test, through order changes, failed attempts of any of the nonlinear solves or error tests, and recoverable failures of any of their right-hand sides, after which the step is retried from the restored history.',
  ['inputs', 'faults', 'configurations'], 'all histories and slopes with fixed non-uniform past steps; orders 2 and 4 (BDF), 2 and 5 (Adams) with order raised and lowered, 1 component, 2 sensitivities, 7 combinations of features, error control on and off',
  'No test enables quadratures, or a staggered corrector with a failing right-hand side, or sensitivities excluded from the error test across an order change.',
  su('src/cvodes/cvodes.c', 'src/cvodes/cvodes_nls.c', 'src/cvodes/cvodes_nls_sim.c', 'src/cvodes/cvodes_nls_stg.c', 'src/cvodes/cvodes_nls_stg1.c'),
  [('step with features', CV + ': cvStep, cvQuadNls, cvQuadSensNls, cvStgrNls, cvStgr1Nls'), ('sensitivity systems', SU + 'src/cvodes/cvodes_nls_sim.c, cvodes_nls_stg.c, cvodes_nls_stg1.c')], tech=TC)
P('C43', 'CVODES stops where it was told and takes no step outside its limits',
  'CVode in normal mode returns at tout (interpolated, exactly at tout) as soon as a step passes it and not before, in one-step mode after each step; it stops exactly at tstop without calling the right-hand side beyond tstop and then forgets tstop, returns CV_TOO_MUCH_WORK after mxstep steps of one call with the last step as solution, and refuses a tstop already passed. Several outputs within one step need no new step. '
  'The returned y is the solution at the returned time, and time has advanced by exactly the step the solution was advanced by. Each step stays within the maximal and minimal step sizes and the largest growth factor 10, also after failed attempts; CV_ERR_FAILURE or CV_CONV_FAILURE with the last good solution is returned when the limits make a step impossible.',
  ['inputs', 'histories', 'configurations'], 'all histories, step sizes, tout, tstop, hmin, hmax; 1..3 steps per run, 1..2 calls, both directions, orders 1..3',
  'The tests call CVode with increasing output times only; stop time, step limits, one-step mode and too much work are not tested.',
  su('src/cvodes/cvodes.c'), [('driver loop', CV + ': CVode'), ('step limits', CV + ': cvStep, cvDoErrorTest, cvPrepareNextStep, cvSetEta')], tech=TC,
  note='The error norms are arbitrary, so that every sequence of accepted and failed attempts occurs.')
P('C44', 'CVODES reports each event of the root functions once, where it happens',
  'Root functions are watched over each step: integration stops at the first zero of a wanted direction (CVodeSetRootDirection), with y interpolated there and the functions called only with y at the time they are given; CVodeGetRootInfo tells which functions vanish and the direction of the crossing. After continuing, no event is reported twice and none is missed, events before tout are reported first. '
  'A function zero at the start is not an event and is watched once it has left zero; re-initialisation starts watching all functions again; the number of evaluations is counted. A failing root function ends integration with CV_RTFUNC_FAIL, and root functions that were removed or refused are not called.',
  ['inputs', 'histories', 'configurations'], 'all zeros, slopes and step sizes of 1..2 linear or piecewise-linear root functions along the solution, all directions, 1..3 steps, zeros not closer than the root tolerance to each other',
  'No test uses root finding.',
  su('src/cvodes/cvodes.c'), [('root finding', CV + ': cvRcheck1, cvRcheck2, cvRcheck3, cvRootfind'), ('event return', CV + ': CVode, CVodeGetRootInfo, CVodeSetRootDirection')], tech=TC)
P('C45', 'CVODES accepts a step only within tolerance and picks order and size by it',
  'The estimated local error of a step is the error of the BDF or Adams formula over its past steps (and of the formulas one order lower and higher when an order change is considered). A step is accepted if and only if the weighted norms of the estimates of all error-controlled parts (solution, quadratures, sensitivities, quadrature sensitivities) are at most 1. '
  'The next step size and order are the ones with the largest of the three documented step ratios (with bias 6, 6, 10, threshold 1.5, largest growth 10), the order staying within its maximum; a failed step is retried with a smaller step within the documented range, and with order 1 after repeated failures.',
  ['inputs', 'histories', 'configurations'], 'all histories and past steps (orders 1..5 BDF, 1..12 Adams); error norms of the solution arbitrary for acceptance, from a list of sizes on both sides of every threshold for the choice of step and order; each combination of controlled features',
  'A too optimistic error estimate, or a part left out of the test, still gives answers within the wide tolerance of the tests.',
  su('src/cvodes/cvodes.c'), [('error coefficients', CV + ': cvSetTqBDF, cvSetTqAdams, cvAdamsFinish'), ('acceptance', CV + ': cvDoErrorTest'), ('choice', CV + ': cvPrepareNextStep, cvChooseEta, cvComputeEtaqm1, cvComputeEtaqp1')], tech=TC,
  note='The size and order formulas contain fractional powers, which z3 cannot decide for arbitrary norms; the norms are therefore enumerated from a list there. Everything else of a run stays symbolic.')
P('C46', 'Newton and fixed-point solvers run their iteration and report its outcome',
  'The Newton solver evaluates the residual at the current iterate, passes its negative to the linear solve, adds the result, and asks the convergence test, until it converges, fails or reaches the iteration limit; it retries once from a zero correction with a fresh Jacobian when that can help, and returns the code of the callback that ended it. The fixed-point solver iterates y = G(y), with Anderson acceleration the combination of the last iterates with the least residual and the given damping. '
  'Iterations and failures are counted, settings are used, and a missing callback is refused.',
  ['inputs', 'faults', 'configurations'], 'all vectors and every return value of every callback in every iteration; 1..3 iterations, acceleration depth 0..2, damping',
  'The tests reach converging iterations only, fixed-point iteration not at all.',
  su('src/sunnonlinsol/newton/sunnonlinsol_newton.c', 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c'),
  [('Newton', SU + 'src/sunnonlinsol/newton/sunnonlinsol_newton.c: SUNNonlinSolSolve_Newton'), ('fixed point', SU + 'src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c: SUNNonlinSolSolve_FixedPoint, AndersonAccelerate')], tech=TC)
P('C47', 'CVODES sets up and solves the linear systems of Newton right',
  'The matrix given to the linear solver is I - gamma J for the current gamma. J is the difference quotient of the right-hand side (dense or band, exact for linear f, with increments of the documented size that respect inequality constraints, as few calls as the band allows), the user Jacobian, or comes from the user system function; it is evaluated again exactly when due (first use, every msbj steps, failures) and reused otherwise. '
  'A matrix-free solver gets products v - gamma J v by difference quotient (of f or of another function) or by the user, and the preconditioner functions of the user with their documented arguments. The solve gets a zero guess, the weights, the documented tolerance, its solution is scaled for a changed gamma where documented, its codes are reported as recoverable or not, and the statistics count what was done. Settings that do not fit the solver are refused.',
  ['inputs', 'faults', 'configurations', 'histories'], 'all Jacobian entries, gamma, weights; 1..5 equations and all bands up to 2+1; 3 setups with every failure kind; every code of the solver and the user functions',
  'The tests use a dense solver with converging iterations only; a stale or inexact Newton matrix just converges slower.',
  su('src/cvodes/cvodes_ls.c'), [('difference quotients', 'cvodes_ls.c: cvLsDenseDQJac, cvLsBandDQJac, cvLsDQJtimes'), ('setup', 'cvodes_ls.c: cvLsInitialize, cvLsSetup, cvLsLinSys, cvLsPSetup'), ('solve', 'cvodes_ls.c: cvLsSolve, cvLsATimes, cvLsPSolve')], tech=TC)
P('C48', 'CVODES band, block and diagonal approximations solve what they stand for',
  'The band preconditioner and the band-block-diagonal one solve (I - gamma J) z = r for the kept band of the difference-quotient Jacobian of f (or of the local function of the user, called after the communication function) at the last evaluation, for the current gamma; half-bandwidths are cut to the size of the problem, increments have the documented size and respect constraints, f is called as often as the band requires and not when J is reused. '
  'The diagonal solver solves with 1 - gamma J_ii from one perturbed evaluation of f, follows changes of gamma, and takes J_ii = 0 where the increment is at roundoff level. Singular matrices and recoverable failures of f are reported as recoverable, others as not; calls without an integrator, a suitable solver or the preconditioner are refused; the counters count the calls.',
  ['inputs', 'faults', 'configurations'], 'all gamma, right-hand sides and (for up to 2 equations) all entries of well conditioned matrices; 1..4 equations, half-bandwidths -1..9; failure in each of the first calls',
  'The tests never use these modules.',
  su('src/cvodes/cvodes_bandpre.c', 'src/cvodes/cvodes_bbdpre.c', 'src/cvodes/cvodes_diag.c'), [('band', 'cvodes_bandpre.c: cvBandPrecSetup, cvBandPrecDQJac, cvBandPrecSolve'), ('band-block-diagonal', 'cvodes_bbdpre.c: cvBBDPrecSetup, cvBBDDQJac, cvBBDPrecSolve'), ('diagonal', 'cvodes_diag.c: CVDiagSetup, CVDiagSolve')], tech=TC)
P('C49', 'Krylov solvers return the solution and residual norm they report',
  'SPGMR, SPFGMR, SPBCGS and PCG return an x whose scaled, left-preconditioned residual has the norm they report; so does SPTFQMR where it computes the residual, otherwise it stops on its estimate. Success means a reported norm within the tolerance, otherwise all iterations and restarts were used and the code tells whether the initial norm was reduced; an initial guess that is good enough is returned unchanged. n unknowns are solved in n iterations; GMRES residuals are minimal over the searched directions, conjugate gradients orthogonal to them. '
  'The flexible solver allows a preconditioner that changes. A zero guess holds for one solve and the contents of x are then not read; the preconditioner gets the tolerance and its side, the products are as many as the iterations need; the code of the first failing call is passed on as recoverable or not; missing functions are refused.',
  ['inputs', 'faults', 'configurations'], 'all tolerances; all scales and first components of the right-hand side for one iteration, right-hand sides from a list for 2..4 iterations and up to 2 restarts; failure of every call',
  'The tests never use these solvers; a wrong reported norm shows only as accuracy lost in a long integration.',
  su('src/sunlinsol/spgmr/sunlinsol_spgmr.c', 'src/sunlinsol/spfgmr/sunlinsol_spfgmr.c', 'src/sunlinsol/spbcgs/sunlinsol_spbcgs.c', 'src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c', 'src/sunlinsol/pcg/sunlinsol_pcg.c'), [('Krylov solvers', 'sunlinsol_*.c: SUNLinSolSolve_SPGMR, _SPFGMR, _SPBCGS, _SPTFQMR, _PCG')], tech=TC)
