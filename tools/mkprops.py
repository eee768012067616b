"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
L = 'qmat/lagrange.py'; N = 'qmat/nodes.py'; QC = 'qmat/qcoeff/__init__.py'; CO = 'qmat/qcoeff/collocation.py'
B = 'qmat/qcoeff/butcher.py'; QD = 'qmat/qdelta/__init__.py'; TS = 'qmat/qdelta/timestepping.py'
AL = 'qmat/qdelta/algebraic.py'; DI = 'qmat/qdelta/diag.py'; MC = 'qmat/qdelta/mincoeffs.py'
U = 'qmat/utils/__init__.py'; NU = 'qmat/utils/num.py'; SD = 'qmat/utils/sdc.py'
I, C, H = 'inputs', 'configurations', 'histories'

p('C01', 'Barycentric interpolation is exact for polynomials of degree below n',
  'For n distinct points given in increasing order, the interpolation matrix at any times is the matrix of the Lagrange cardinal polynomials, whatever algorithm and scaling computes the weights. At a time equal to a point the row is the unit vector of that point. Calling the object with function values evaluates the interpolating polynomial at every time and keeps the shape of the times.',
  [I, C], 'every set of distinct real points, every times (on or off the points), every function values, every weight algorithm and scaling option',
  'tests use a few fixed grids and random monomials with float tolerances; points and times are continuous and the coincidence of a time with a point is a special branch',
  [L], [('barycentric weights', 'LagrangeApproximation.__init__'), ('interpolation rows and coincident times', 'LagrangeApproximation.getInterpolationMatrix'), ('evaluation', 'LagrangeApproximation.__call__')])
p('C02', 'Integration matrices integrate the interpolant exactly on any intervals',
  'Every row of the integration matrix gives the exact integral, over its interval, of the polynomial interpolating the values at the points, for any interval (reversed, empty, or outside the points) and each of the three quadrature rules offered. The order of the rows is the order of the intervals.',
  [I, C], 'every increasing distinct points, every list of interval bounds, every quadrature rule',
  'tests integrate monomials over intervals between grid nodes with the default rule; intervals and points are continuous',
  [L], [('quadrature of the integrand', 'LagrangeApproximation.getIntegrationMatrix'), ('Fejer rule', 'computeFejerRule')])
p('C03', 'Differentiation matrices differentiate the interpolant exactly',
  'The first and second order differentiation matrices give, at every point, the exact first and second derivatives of the polynomial interpolating the values, independently of the scaling of the weights. Asking for "ALL" gives the same two matrices in increasing order.',
  [I, C], 'every increasing distinct points, every weight algorithm and scaling', 'tests use a few grids and orders; points are continuous',
  [L], [('D1/D2 formulas', 'LagrangeApproximation.getDerivativeMatrix')])
p('C04', 'Duplicated points use exactly one value, chosen by the strategy',
  'With repeated points, interpolation, integration and differentiation matrices act on the value vector as the matrices of the unique points act on one value per unique point: the leftmost one with USE_LEFT, the rightmost one with USE_RIGHT. The columns of the other copies are zero, the shape follows the points given, and duplicates=False returns the matrices of the unique points.',
  [I, C], 'every nondecreasing points with every pattern of repetitions, both strategies, all matrices',
  'tests use a few repetition patterns at fixed values; the pattern and values are quantified here',
  [L], [('duplicate indices', 'LagrangeApproximation._setupDuplicates'), ('column mapping', 'LagrangeApproximation._handleDuplicates')])
p('C05', 'Weight algorithms agree up to one common factor; AUTO survives extreme scales',
  'All barycentric weight algorithms give the analytic weights 1/prod(x_j-x_k) up to one common positive factor, and scaled weights have largest modulus exactly one. The STABLE algorithm scales the largest weight, or the weight of the point closest to zero with the ZERO reference, to modulus one. When a product of differences overflows, underflows or vanishes in floating point, AUTO still returns weights that are finite and proportional to the analytic ones.',
  [I, C], 'every increasing distinct points, each algorithm, each scaling reference, every way in which the products may over- or underflow',
  'tests compare on ordinary grids, where nothing over- or underflows',
  [L], [('weight algorithms and fallback', 'LagrangeApproximation.__init__')])
p('C06', 'The Fejer rule is exact, interior and positive',
  'For every number of points n, the Fejer rule returns n nodes in increasing order strictly inside (-1,1) that are the roots of the Chebyshev polynomial of degree n, with positive weights. The rule integrates every polynomial of degree below n exactly over [-1,1].',
  [I], 'every n up to the bound, every polynomial coefficients', 'tests compare a few n in floating point only',
  [L], [('nodes and weights by inverse DFT', 'computeFejerRule')])
p('C07', 'Quadrature nodes are the roots of the right orthogonal polynomial',
  'For every node type, quadrature type and number of nodes, the nodes lie in [-1,1] in increasing order, contain exactly the boundaries the quadrature type asks for, and are the roots of the (boundary-modified) polynomial orthogonal for the weight function of the node type; equidistant nodes are equally spaced. Illegal types and numbers of nodes are refused.',
  [I, C], 'all node types, quadrature types and numbers of nodes up to the bound; every point where the orthogonal polynomials are evaluated',
  'tests check only bounds, ordering and symmetry in floats for some sizes',
  [N], [('three-term recurrences', 'NodesGenerator.getOrthogPolyCoefficients'), ('boundary modification', 'NodesGenerator.getTridiagCoefficients'), ('eigenvalue nodes', 'NodesGenerator.getNodes')])
p('C08', 'Collocation coefficients are correct on every interval [tLeft, tRight]',
  'For every interval, collocation nodes are the affine image of the reference nodes with included boundaries exact; Q and the weights integrate the interpolant from tLeft to each node and to tRight, S from node to node, and h evaluates it at tRight. The right boundary is reported as a node exactly when it is one.',
  [I, C], 'every real tLeft < tRight, all node and quadrature types, numbers of nodes up to the bound',
  'tests use [0,1] almost only', [CO], [('node scaling', 'Collocation.__init__'), ('Q, weights, S, h', 'Collocation')])
p('C09', 'Collocation methods have the order they declare',
  'The stability function of a collocation method agrees with the exponential through the declared order, its quadrature weights integrate polynomials exactly up to that degree minus one, and Q satisfies the collocation conditions sum_j q_ij c_j^(k-1) = c_i^k/k for every k up to the number of nodes.',
  [C, I], 'all node and quadrature types, numbers of nodes up to the bound, every polynomial',
  'tests fit a numerical slope at a few step sizes',
  [CO, QC, N], [('declared order', 'Collocation.order'), ('Q and weights', 'Collocation.__init__')])
p('C10', 'Butcher tables are consistent and structurally what they are documented to be',
  'In every registered Runge-Kutta table the rows of A sum to c, b and the embedded weights sum to one, sizes agree, explicit methods have a strictly lower triangular A and (E)(S)DIRK methods a lower triangular one.',
  [C], 'all registered tables, every entry', 'tests check shapes and fitted convergence of the Dahlquist problem, which does not see c at all',
  [B], [('tables', 'RK subclasses'), ('shape checks', 'checkAndStore')])
p('C11', 'Runge-Kutta schemes have their declared order on every linear problem',
  'For every registered Runge-Kutta table, each step with the main weights multiplies the solution of a linear problem by a function that agrees with the exponential through the declared order, and each step with the embedded weights through the declared embedded order.',
  [C, I], 'all registered tables; every complex lambda and step, through the declared degree', 'the fitted slopes of tests have wide tolerances and depend on chosen step sizes',
  [B, QC], [('tables and order properties', 'RK subclasses')])
p('C12', 'Runge-Kutta schemes satisfy the nonlinear order conditions',
  'For every registered Runge-Kutta table, all rooted-tree order conditions up to the declared order (classical order) hold for the main weights, and up to the declared embedded order for the embedded weights.',
  [C, I], 'all registered tables, all rooted trees up to the declared order (at most 5)', 'tests only run a linear problem, on which most conditions are invisible',
  [B], [('tables', 'RK subclasses')])
p('C13', 'Padding a Runge-Kutta table does not change the method',
  'For any Butcher table, padding adds a node at t=0 on the left and/or at t=1 on the right whose stage is the initial value or the step update, and leaves the original stages, the result of a step and of the embedded step unchanged. The table of the class and later instances without padding are unaffected.',
  [I, C], 'every table entries (A, b, b2, c) for the sizes in the bounds, every padding, every lambda, step and initial value',
  'tests run padded tables of registered schemes only, without embedded weights', [B], [('padding', 'RK.__init__')])
p('C14', 'Zero-to-node and node-to-node forms are exact transforms of each other',
  'For any coefficients, S is Q with each row minus the previous one, T and Tinv are inverse of each other with T Q = S and Tinv S = Q, and QDelta forms are related in the same way. Coefficient tuples contain nodes, weights (stacked with the embedded ones on demand), the matrix of the requested form and h in the documented order, identically for the generic function and the object; unknown forms and types are refused.',
  [I, C], 'every Q matrix and weights of the sizes in the bounds, every combination of form/hCoeffs/embedded/k/dTau',
  'tests check shapes and consistency for the registered methods with default options', [QC, QD], [('S, T, Tinv', 'QGenerator'), ('tuple composition', 'QGenerator.genCoeffs, genQCoeffs'), ('SDelta', 'QDeltaGenerator.getSDelta')])
p('C15', 'The Dahlquist solver performs the Runge-Kutta step exactly',
  'For any coefficients, lambda, initial value, final time and number of steps, the solver returns all solutions u_0..u_N with u_{n+1} = u_n + lambda dt b.U, U solving (I - lambda dt Q) U = u_n, using the embedded weights when asked. The error function returns the maximum modulus of the difference to the exact solution over all steps, for its own or a given solution.',
  [I], 'every Q, weights, lambda, u0, tEnd (I - lambda dt Q invertible), step counts and sizes in the bounds',
  'tests look at the fitted slope of the error only', [QC], [('time loop', 'QGenerator.solveDahlquist'), ('error', 'QGenerator.errorDahlquist')])
p('C16', 'SDC sweeps follow the documented iteration, and monitors report it truthfully',
  'For any Q, QDelta (one, or one per sweep), weights and problem, each sweep solves (I - lambda dt QDelta_k) u_new = u0 + lambda dt (Q - QDelta_k) u_old from the copied initial value, and the step ends with the last node or the quadrature update. Residual and error monitors contain exactly the residuals and errors of each sweep, step and node and do not change the solution, the collocation solution is a fixed point, and the error function is the maximum modulus of the error.',
  [I, C], 'every Q, QDelta, weights, lambda, u0, tEnd, sweep and step counts and sizes in the bounds', 'tests fit slopes for registered combinations only',
  [SD], [('sweeps and monitors', 'solveDahlquistSDC'), ('error', 'errorDahlquistSDC')])
p('C17', 'SDC reaches at least the order promised by the order function',
  'The order given by the order function, without its tabulated special cases, is never above the order of the collocation method and is reached by the SDC iteration: the amplification factor of k sweeps agrees with the exponential through that degree. More sweeps never promise less.',
  [C, I], 'all node types, quadrature types, time-stepping approximations, sweeps and step updates in the bounds', 'tests fit slopes', [SD, TS, CO], [('order function', 'getOrderSDC')])
p('C18', 'Time-stepping QDelta are the coefficients of the schemes they are named after',
  'For any increasing nodes and left bound, BE, FE, TRAP, BEPAR and TRAPAR matrices and their delta_tau are the accumulated coefficients of the implicit Euler, explicit Euler and trapezoidal steps from node to node or from the left bound to each node, so that a row sum plus delta_tau is the distance of the node to the left bound. SOE follows the leap-frog recurrence and is strictly lower triangular.',
  [I], 'every increasing nodes, every left bound not right of the first node, sizes in the bounds', 'tests only look at SDC convergence and a few structural facts for nodes in [0,1] and tLeft=0',
  [TS], [('matrices', 'qmat/qdelta/timestepping.py computeQDelta'), ('dTau', 'qmat/qdelta/timestepping.py dTau')])
p('C19', 'Algebraic QDelta are the named parts or factors of Q',
  'For any matrix Q, the approximations are: zero for Picard, Q itself for Exact, the diagonal for QPar, the lower triangle for Gauss-Seidel, the transposed upper factor of Q^T = LU (unit lower L) for LU, twice that for LU2, and the pivots for LDU. Q is left unchanged.',
  [I], 'every Q with nonzero leading minors, sizes in the bounds', 'tests use collocation Q matrices only', [AL], [('computeQDelta', 'qmat/qdelta/algebraic.py')])
p('C20', 'LDU factorization reproduces A, and the LU trick makes the stiff sweep nilpotent',
  'For any square matrix with nonzero leading minors, the LDU factorization returns unit triangular L, U and diagonal D with L D U = A. With the LU approximation of an invertible such Q, the stiff-limit iteration matrix I - QDelta^{-1} Q is nilpotent.',
  [I], 'every matrix with nonzero leading minors, sizes in the bounds', 'tests use a few random matrices',
  [NU, AL], [('factorization', 'lduFactorization'), ('LU trick', 'LU.computeQDelta')])
p('C21', 'Node-scaled diagonal QDelta have their documented divisors at every sweep',
  'For any nodes, MIN-SR-NS is diag(nodes)/M, DNODES-d is diag(nodes)/d, Jumper diag(nodes)/(2k), FlexJumper diag(nodes) then diag(nodes)/(2(k-1)), and MIN-SR-FLEX diag(nodes)/k for k up to M and MIN-SR-S afterwards. A missing k means the first sweep, k below one is refused, and the k-dependent ones say so. Both the MIN-SR-NS sweep (non-stiff) and the flexible sequence (stiff) are nilpotent for collocation Q.',
  [I, C], 'every nodes of the sizes in the bounds, every sweep number in the bounds', 'tests look at nilpotency at a few sizes in floats',
  [DI], [('computeQDelta', 'MIN_SR_NS, MIN_SR_FLEX, Jumper, FlexJumper, DNODES*'), ('k check', 'check')])
p('C22', 'Optimised and tabulated diagonal QDelta solve the problem they are named after',
  'MIN-SR-S coefficients are a solution of the nilpotency equations of the stiff sweep for all nodes, a zero in front when the left boundary is a node; MIN returns the inverse of a minimiser of the spectral radius of the stiff sweep. Tabulated coefficients are returned on the diagonal for exactly the node type, quadrature type and size asked for, and unavailable combinations are refused.',
  [I, C], 'every value the nonlinear solver may return as a solution (contract), all node and quadrature types, all table entries', 'tests check the values that one solver run returns',
  [DI, MC], [('nilpotency system', 'MIN_SR_S.computeCoeffs'), ('table lookup', 'FromTable.computeQDelta'), ('spectral radius', 'MIN.rho')])
p('C23', 'Retrieving QDelta does not depend on what was retrieved before',
  'For every registered approximation and any sequence of retrievals (any sweep numbers, forms, copies, lists, and modification of the arrays received as copies), each retrieval returns what a fresh generator returns for the same arguments.',
  [H, I], 'every history of retrievals up to the bound, every nodes or Q', 'tests retrieve once or twice in order', [QD, DI], [('cache', 'QDeltaGenerator.getQDelta'), ('coefficients', 'QDeltaGenerator.genCoeffs')])
p('C24', 'Multi-sweep generation gives sweep k the matrix of the right type and index',
  'Asking for several sweeps of one type or for a list of types returns, at position k, the matrix of the type of that sweep at iteration k+1, the last type being repeated up to the number of sweeps; delta_tau is that of the first type. Illegal combinations are refused, and the arguments are left unchanged.',
  [C, I], 'every list of types up to the bound, every number of sweeps, form and dTau option, any nodes', 'tests use a few lists', [QD], [('dispatch', 'genQDeltaCoeffs')])
p('C25', 'QDelta parameters come from qGen unless given, in every calling form',
  'A QDelta generator built from a Q-generator equals the one built from its separately given parameters; parameters given explicitly (by position or keyword) override those of the Q-generator and only those. The deprecated keyword behaves like the new one with a warning, giving both is refused, and arguments a class does not need are ignored.',
  [C, I], 'all registered QDelta generators, every subset of explicit parameters, collocation (any interval) and Runge-Kutta generators', 'tests use qGen alone for most classes',
  [U, QD, DI, TS], [('parameter resolution', 'useQGen'), ('extractParams', 'QDeltaGenerator.extractParams and overrides')])
p('C26', 'Registries map every name and alias to exactly one usable class',
  'Every registered class is reachable by its name and all its aliases, no name is registered twice (a clash is refused and leaves the first owner in place), incorrect overrides are refused, and listing classes returns each class once, restricted to a module on demand.',
  [C, H], 'all registered classes; every registration sequence up to the bound over symbolic names', 'tests only iterate over the registry as it is', [U, QC, QD, B], [('registration', 'storeAlias, storeClass, register'), ('listing', 'getClasses')])
p('C27', 'The numerical order is the least-squares slope of the error',
  'For any step counts and positive errors, the numerical order is the least-squares slope of log10(err) against log10(1/nSteps) and the second result its root mean square error. Errors exactly C*n^-p give p and zero.',
  [I], 'every distinct positive step counts and positive errors, sizes in the bounds', 'tests call it on data with a loose tolerance', [NU], [('regression', 'numericalOrder')])
p('C28', 'Extrapolation is the least-squares polynomial evaluated at the times',
  'For any distinct nodes, times and degree, applying the extrapolation matrix to node values evaluates the least-squares polynomial of that degree at the times; it is exact for polynomials of that degree, and interpolation for the default degree.',
  [I], 'every distinct nodes, every times, degrees and sizes in the bounds', 'tests use fixed nodes', [NU], [('normal equations', 'getExtrapolationMatrix')])
p('C29', 'Sparse interpolation uses the closest points and is exact for its order',
  'Each row of the sparse interpolation matrix has non-zeros only at the `order` input points closest to the output point, which interpolate every polynomial of degree below `order` exactly at it; with a period, distances and positions are taken modulo the period and the result depends on the output point only modulo the period.',
  [I], 'every increasing input points, every output points, orders, periods, sizes in the bounds', 'tests use equispaced grids and random shifts',
  [L], [('stencil choice, reuse of rows', 'getSparseInterpolationMatrix')])
p('C30', 'Changing a returned array never changes what is returned later',
  'Arrays returned by the coefficient functions and generator methods documented to return copies (nodes, weights, matrices of any form, delta_tau and h), and by the interpolation, node and solver functions, can be overwritten by the caller without changing what any object, new instance or generic function returns afterwards, nor the arrays the caller gave.',
  [H, I], 'every registered generator, each return value and every value written into it', 'tests never write into returned arrays', [QC, QD, B], [('copies', 'QGenerator.genCoeffs, QDeltaGenerator.genCoeffs/getQDelta')])
p('C31', 'The two parts of every additive (IMEX) Runge-Kutta pair fit together',
  'The explicit and implicit method of every additive Runge-Kutta pair have the same nodes and the same embedded weights, and together satisfy all order conditions, coupling ones included, through the order of the pair, with either weight vector.',
  [C, I], 'all additive pairs, all coloured rooted trees through the order of the pair', 'tests only look at each method alone and fit a slope', [B], [('tables', 'ARK* classes of qmat/qcoeff/butcher.py')])
p('C32', 'Runge-Kutta h coefficients evaluate the interpolant at the right boundary',
  'For any Runge-Kutta generator, registered or written by a user, with or without padding, whatever the order and repetition of its nodes, the h coefficients applied to the values of a polynomial at the nodes give its value at 1, for every polynomial of degree below the number of distinct nodes.',
  [I], 'every nodes in any order with any repetitions up to the bound; all registered tables and paddings', 'tests look at h of collocation methods and at sizes only', [QC, B, L], [('hCoeffs', 'QGenerator.hCoeffs, RK.hCoeffs'), ('weights', 'LagrangeApproximation.__init__')])
p('C33', 'Implicit methods documented as A-, S- or L-stable are so',
  'For every implicit Runge-Kutta method of the package described as A-, S- or L-stable, the stability function built from its table has no pole in the left half plane and a modulus of at most one on the whole imaginary axis, and vanishes at infinity where L-stability is claimed; embedded weights of the A-stable pairs too. Padding changes nothing. Legendre collocation with Gauss, Radau-right or Lobatto nodes is A-stable, Radau-right L-stable.',
  [I, C], 'every point of the imaginary axis (unbounded), all tables, weight vectors and paddings', 'tests fit slopes on one lambda, nothing looks at stability', [B, CO], [('tables', 'implicit RK classes'), ('collocation', 'Collocation.Q, weights')])
p('C34', 'The timer measures the scaled elapsed time of its last run',
  'Whatever the clock reads, the wall time stored by a timer is the difference between the readings at its last stop and start, divided by its scale; starting again resets it, timers do not influence each other, an exception in a timed block passes through after the time is stored, and the printed lines carry the name and description of the timer.',
  [H, I], 'every clock reading and scale, histories of starts and stops in the bounds', 'tests only run it', [U], [('timer', 'Timer')])
p('C35', 'What a call returns does not depend on the calls made before',
  'Nodes, quadrature rules, polynomial approximations, Q-coefficients, QDelta coefficients, solvers and numerical utilities return, whatever other objects of the package were created and used before with other parameters, exactly what a freshly imported package returns for the same arguments; so do objects created before the other calls were made.',
  [H, I], 'every value of the points, intervals, matrices and data of the requests; all types, tables and options', 'each test asks one thing of one object', [N, L, CO, B, QD, NU], [('state kept between calls', 'module and class level state of every module, NodesGenerator, LagrangeApproximation, Collocation, RK, QDeltaGenerator')])
p('C36', 'Calls only read their arguments, and only their values matter',
  'No function, constructor, property or method of the package changes the arrays, lists, dictionaries or generators given to it (Butcher tables and Q-generators of the user included), now or in later calls; read-only arrays are accepted; and the result depends only on the values, not on how they lie in memory (column order, strided or reversed views) nor, where lists are accepted, on whether a list or an array is given.',
  [H, I], 'every value of the arrays given; all public functions, approximations and layouts', 'tests pass fresh contiguous arrays and do not look at them again', [L, CO, B, QD, NU], [('all handling of arguments', 'LagrangeApproximation, getSparseInterpolationMatrix, evalOrthogPoly, QGenerator, RK, QDeltaGenerator, genQDeltaCoeffs, solveDahlquistSDC, numericalOrder, lduFactorization, getExtrapolationMatrix')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
