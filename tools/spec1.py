P('C10', 'Reductions over variables have exact values and partials',
  'sum, norm2, log_sum_exp and dot_product over arrays of variables (for dot_product also one variable array and one real array, either way round) return the value of the named reduction of the element values, '
  'and a gradient sweep adds to each element its adjoint times the exact partial derivative. An element that occurs more than once receives one contribution per occurrence. '
  'Array sections and any array length from 1 are supported; operands keep their values.',
  ['inputs', 'sizes'], 'all element values, lengths 1..3 (more in the thorough tier), every pattern of repeated elements, all adjoints, contiguous and strided sections',
  'The tests use one array each, without repeated elements and with adjoint 1.',
  fs(['sum', 'norm2', 'log_sum_exp', 'dot_product']), [('reductions and their reverse rules', 'src/sum.F90, src/norm2.F90, src/log_sum_exp.F90, src/dot_product.F90')])
P('C11', 'matmul has exact values and partials for every shape',
  'matmul of two matrices, with variables in one or both operands, returns in each element the exact inner product, and a gradient sweep adds to every element of either operand its exact partial derivative for arbitrary adjoints of the product. '
  'Variables that occur several times in a matrix or in both operands get the sum of all contributions; the operands keep their values.',
  ['inputs', 'sizes'], 'all element values and all adjoints of the product; all shapes up to 2x2x2 and selected larger ones; repeated variables within and across operands',
  'The tests use fixed shapes with distinct variables and mostly unit adjoints.',
  fs(['matmul']), [('product and reverse rules', 'src/matmul.F90')])
P('C12', 'normal and lognormal log densities have exact values and partials',
  'normal_lpdf(y, mu, sigma) and lognormal_lpdf(y, mu, sigma) return the sum over y of the log density, including all constants, and a gradient sweep adds the adjoint times its exact partial derivative to every argument mu, sigma that is a variable, '
  'for each combination of variable and real parameters and any number of observations including none.',
  ['inputs', 'sizes'], 'all real data, mu, sigma > 0 in range, 0 to 3 observations, all adjoints, every variable/real combination of the parameters',
  'The tests evaluate one data set per function.',
  ['src/prob/normal_lpdf.F90', 'src/prob/lognormal_lpdf.F90'], [('densities', 'src/prob')])
P('C13', 'Comparisons and classifications act on values and record nothing',
  'Comparing variables with variables or reals (==, /=, <, <=, >, >=, scalar or array, either operand order) gives what the same comparison of their values gives, for all doubles including NaN and infinities; '
  'is_nan, is_inf, is_neg_inf and value_of likewise classify or return the values. None of them creates a node or changes a value or adjoint.',
  ['inputs'], 'all doubles (including NaN, infinities, signed zero) for both operands; scalars and arrays',
  'The tests compare a few ordered pairs; reversed operand order and unordered values are not tested.',
  ['src/relational.F90', 'src/var.F90', 'src/value_of.F90'], [('comparison operators', 'src/relational.F90')])
P('C14', 'Functions and operators on arrays act element by element',
  'Every supported scalar function and operator applied to arrays (array op array, array op scalar, scalar op array, with variables or reals) gives in each element the scalar result for that element, '
  'and a gradient sweep gives every element its own exact derivative; a scalar operand used with all elements receives the sum. Operands keep their values.',
  ['inputs'], 'all operand values, 2x2 and length-2 arrays, arbitrary adjoints, repeated elements, every operator and function',
  'Few functions are tested on arrays at all, and always with equal adjoints.',
  fs(UN + BI), [('elemental procedures', 'src/<op>.F90')])
P('C15', 'Construction and assignment create and change exactly the stated variables',
  'var() with no argument, a real scalar, vector or matrix, or a size creates that many new distinct variables with the given values (0 by default), zero adjoints and no operands. '
  'Assigning reals to a variable or array of variables sets exactly the values of the assigned elements, creating no node and leaving all adjoints alone; assigning variables to variables makes the target refer to the same node. '
  'A variable built from a value, operands and their partials hands exactly adjoint times partial to each operand.',
  ['inputs', 'histories'], 'all doubles as values, scalars / vectors / matrices / sections, construction at any position of the storage',
  'Tests build a few variables and look at one or two values; aliasing between constructed nodes and changes outside the assigned section are not examined.',
  ['src/var.F90', 'src/vari.F90'], [('constructors and assignment', 'src/var.F90')])
P('C16', 'log_sum_exp and inv_logit neither overflow nor return NaN',
  'In double precision, for all finite operands log_sum_exp returns a finite value between the maximum and the maximum plus log n, however large the operands, and its derivatives lie in [0,1]. '
  'If all operands are -infinity the result is -infinity; if one is +infinity it is +infinity; other operands may be -infinity. '
  'inv_logit is in [0,1] for every non-NaN operand, at least 1/2 for nonnegative ones, and its derivative is in [0,1].',
  ['inputs'], 'all doubles including the largest, subnormals and infinities; 1..3 operands; rounding modelled as monotone round-to-nearest with overflow',
  'The tests use moderate operands where the naive formula also works.',
  fs(['log_sum_exp', 'inv_logit']), [('max-shifted evaluation', 'src/log_sum_exp.F90'), ('evaluation by sign', 'src/inv_logit.F90')],
  note='exp and log are uninterpreted functions with range, sign and threshold facts; each rounding is any monotone rounding of the exact result.')
P('C18', 'ODE right-hand sides reach CVODES as f and as exact sensitivities J s + df/dp',
  'The function CVODES calls for the state passes time and the full state vector to the function of the user and returns its values. The one it calls for the sensitivities returns for each sensitivity vector s the exact J s, plus df/dp_k for the sensitivity to parameter k, '
  'for initial-value sensitivities, parameter sensitivities and both together, any number of parameters, all vectors and times, in any call of a sequence. State, sensitivities and parameters keep their values, the user function is evaluated once per call, and what was recorded before (outside) keeps its values and derivatives. The Jacobian by columns is exact as well.',
  ['inputs', 'histories', 'configurations'], 'all coefficients, states, sensitivities, parameters and times of functions bilinear in state, state and parameters; 1..3 equations, 0..4 parameters, 2 calls',
  'The tests integrate three-equation systems with three parameters and compare the end of the integration only.',
  ['src/cvodes_model.F90', 'src/nested.F90'], [('right-hand sides', 'src/cvodes_model.F90: RhsFn, CVSensRhsFn, set_sens_rhs, calc_jac_yvar')])
P('C19', 'cvodes_sol returns the integrator states and their derivatives as variables',
  'cvodes_sol starts CVODES with the given method, time and state, initial sensitivities the identity for the initial values and zero for parameters, applies the options once (cvodes_tol: exactly its tolerances and step limit), and returns for every output time the state there. '
  'With variables as initial values or parameters, each result has as derivative with respect to each of them the sensitivity computed by CVODES at that time, and none with respect to others; results can be used in further expressions; operands keep their values. If the integrator fails the program stops with an error.',
  ['inputs', 'configurations'], 'all coefficients, initial values and parameters of linear systems; 1..3 equations and parameters, 1..3 output times at and between steps, forward and backward, both methods; the real integrator held to order 1 and fixed steps',
  'The tests compare a few end values with a wide tolerance; derivatives of a single example.',
  ['src/cvodes.F90', 'src/cvodes_options.F90'], [('solve', 'src/cvodes.F90: new_cvodes_service, cvodes_sol_data, cvodes_sol_y0_sens, cvodes_sol_par_sens'), ('options', 'src/cvodes_options.F90: set')],
  note='To keep the states polynomials of the inputs the harness replaces the nonlinear solver of CVODES by one evaluation of the system function, and its error norms by zero; both are other properties.')
