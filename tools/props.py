"""Writes properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

C = 'funpy/cheb/'; T = 'funpy/trig/'; K = 'funpy/colloc/'; L = 'funpy/linalg/'; N = 'funpy/newton/'; V = 'funpy/vectorspaces/'

p('C01', 'Arithmetic on non-periodic functions is pointwise arithmetic',
  'For non-periodic functions with any number of columns and any numbers of coefficients, and for scalar operands on either side, the result of + - * / ** negation and absolute value (out-of-place or in-place, alone or chained) evaluates at every point of the domain to that arithmetic applied to the operand values, column by column, up to rounding relative to the operand scale. The result lives on the operands\' domain and keeps their number of columns.',
  ['inputs', 'programs'], 'every expression/in-place program up to the depth bound over a palette of coefficient shapes (lengths, parities, zero/constant/even/odd/single-mode columns, 1-3 columns), domains and scalars',
  'Unit tests multiply and add random polynomials of one size; they never combine different lengths, columns, constants, zero columns, reflected scalars, in-place forms and chains exhaustively.',
  [C+'ufuncs.pyx', C+'chebtech.py', C+'detail.pyx', 'funpy/fun.py'],
  [('coefficient-space add/multiply with prolongation', C+'ufuncs.pyx'), ('zero-result collapsing', C+'ufuncs.pyx add'), ('adaptive quotient/power', C+'ufuncs.pyx true_divide/power'), ('domain-carrying dispatch', 'funpy/fun.py __array_ufunc__')],
  ['evaluation of the result'])
p('C02', 'Arithmetic on periodic functions is pointwise arithmetic',
  'For periodic functions (real or complex, odd or even numbers of modes, any number of columns) and scalar operands on either side, the result of + - * / ** negation, conjugation, real/imaginary part and absolute value (out-of-place or in-place, alone or chained) evaluates at every point to that arithmetic applied to the operand values. Results of real operands are real, and domain and number of columns are kept.',
  ['inputs', 'programs'], 'every program up to the depth bound over a palette of mode counts, parities, real/complex coefficients, columns, domains and scalars',
  'Existing tests use a few random trigonometric polynomials with the same length and mostly one column.',
  [T+'ufuncs.py', T+'trigtech.py', T+'trig_simplify.py', 'funpy/fun.py'],
  [('coefficient add/convolution multiply', T+'ufuncs.py'), ('real flag propagation', T+'trigtech.py'), ('parity-aware prolongation', T+'trigtech.py prolong')], ['evaluation of the result'])
p('C03', 'Operations never change a function other than their target',
  'Evaluating, adding, multiplying, differentiating, integrating, composing, taking roots/extrema/norms/inner products, selecting columns, stacking, copying, factorising or converting a function leaves every operand with exactly the values, length, columns and domain it had, and an in-place operation changes only its left operand. After a deep or library copy or any out-of-place operation, changing one object in place never changes the other.',
  ['histories'], 'every history of operations up to the depth bound over a heap of functions that may share structure, followed by an in-place mutation of any live object',
  'Tests look at the result of one call; sharing and hidden mutation only show in a later read of a different object, over histories.',
  ['funpy/fun.py', C+'chebtech.py', C+'ufuncs.pyx', C+'detail.pyx', T+'trigtech.py', T+'ufuncs.py', T+'eval.py', C+'refine.py', T+'refine.py', C+'qr.py'],
  [('copy on prolong / simplify', C+'detail.pyx prolong'), ('deep copy support', 'funpy/fun.py __deepcopy__'), ('out= handling', C+'ufuncs.pyx')],
  ['values of all live functions after each operation'],
  [('heap of function handles', 'objects that may share coefficient storage', 'funpy/fun.py onefun, coeffs')])
p('C04', 'Chebyshev transforms, grids and evaluation are exact and consistent',
  'Interpolating values at the Chebyshev points of any length and evaluating at those points returns the values; conversion between values and coefficients is an exact inverse pair equal to the Chebyshev expansion, and evaluation (pointwise, array or by interpolation matrix) of any coefficient array equals the Chebyshev sum. Quadrature and interpolation weights supplied with the points integrate and interpolate every polynomial of the advertised degree exactly.',
  ['inputs'], 'all lengths from 1 up to the bound, all unit vectors (hence by linearity all coefficient arrays), 1-3 columns, memory layouts',
  'Tests exercise one or two lengths; parity and length-1/2 special cases are untested, and linearity is never used to cover all arrays of a length.',
  [C+'detail.pyx', C+'pts.py', C+'chebtech.py', C+'diff.py', C+'resample.py'],
  [('DCT based transforms', C+'detail.pyx polyfit/polyval'), ('Clenshaw recurrences', C+'detail.pyx clenshaw'), ('points, quadrature and barycentric weights', C+'pts.py'), ('barycentric evaluation matrix', C+'pts.py barymat')], ['coefficients, values, weights'])
p('C05', 'Fourier transforms, grids and evaluation are exact and consistent',
  'For every number of modes, odd or even, converting between equispaced values and Fourier coefficients is an exact inverse pair, and evaluation at any point equals the trigonometric sum (real-valued when the function is real), for any number of columns. Evaluating twice, at scalars or arrays, gives the same answer.',
  ['inputs'], 'all mode counts up to the bound, all unit coefficient vectors, real and complex, 1-3 columns',
  'Tests use a handful of sizes; the even-length Nyquist mode and repeated evaluation are not covered.',
  [T+'transform.py', T+'eval.py', T+'trigtech.py', T+'trigpts.py'],
  [('FFT transforms', T+'transform.py'), ('Horner evaluation for odd/even real/complex', T+'eval.py')], ['coefficients, values'])
p('C06', 'Changing resolution and adaptive construction preserve the function',
  'Lengthening a function and simplifying it never change its values beyond its tolerance, shortening keeps exactly the leading modes, and a function adaptively built from a callable (or composed with one) on any domain agrees with the callable to near its tolerance or is reported unresolved. These hold for every column and for periodic and non-periodic functions.',
  ['inputs', 'programs'], 'all start/target length pairs up to the bound, all resolution-operation programs up to the depth bound, and a palette of callables x domains x types x column counts',
  'Tests construct a few smooth functions at the default tolerance on [-1,1]; length pairs, parities, thresholds at 17 and multi-column chop decisions are not enumerated.',
  [C+'detail.pyx', C+'refine.py', C+'chebtech.py', T+'refine.py', T+'trig_simplify.py', T+'trigtech.py', 'funpy/fun.py'],
  [('chopping rule', C+'detail.pyx standardChop'), ('nested refinement', C+'refine.py'), ('parity-aware prolongation', T+'trigtech.py prolong'), ('simplification', C+'detail.pyx simplify_coeffs')], ['evaluation, number of coefficients, happiness'])
p('C07', 'Calculus on non-periodic functions is exact on any domain',
  'Derivatives of every order, definite integrals and antiderivatives (vanishing at the left end) of a non-periodic function of any length, number of columns and domain equal those of the represented polynomial, and differentiating an antiderivative gives the function back. Differentiation past the degree gives the zero function with the same columns.',
  ['inputs', 'programs'], 'all lengths up to the bound, all modes, 1-3 columns, several domains, orders 0-5, and all calculus programs up to the depth bound',
  'Tests differentiate a few analytic functions once or twice on one domain; short lengths, orders at or above the length, and chained programs are not covered.',
  [C+'chebtech.py', C+'diff.py', 'funpy/fun.py'],
  [('coefficient recurrences', C+'diff.py computeDerCoeffs'), ('moment formula and antiderivative', C+'chebtech.py sum/cumsum'), ('domain scaling', 'funpy/fun.py diff/sum/cumsum')], ['evaluation of the result'])
p('C08', 'Calculus, shifts and convolutions of periodic functions are exact',
  'Derivatives of every order, definite integrals, antiderivatives of mean-free functions, shifts, circular convolutions and non-local averaging integrals of periodic functions of any number of modes, columns and domain equal those of the represented trigonometric polynomial.',
  ['inputs', 'programs'], 'all mode counts up to the bound, all modes real and complex, columns, domains, orders 0-4, shifts',
  'Tests convolve two functions and differentiate a few; parity, multi-column, scaled-domain and order cases are not enumerated.',
  [T+'trigtech.py', T+'operations.py', 'funpy/fun.py'],
  [('spectral differentiation/integration', T+'trigtech.py diff/sum/cumsum'), ('coefficient products and phase shifts', T+'operations.py')], ['evaluation of the result'])
p('C09', 'Root finding returns exactly the real roots in the domain',
  'For every non-periodic function with simple, separated real roots, of any degree, domain and number of columns, root finding returns each real root inside the domain once, in the domain\'s coordinates, and nothing else; functions without real roots there give none.',
  ['inputs'], 'all root sets drawn from a grid of candidates (including endpoints and outside points) up to the size bound, plus high-degree functions crossing the subdivision thresholds, on several domains',
  'Tests check a few functions; linear functions, endpoint roots, outside roots and subdivision thresholds are special-cased code that is not enumerated.',
  [C+'detail.pyx', C+'chebtech.py', 'funpy/fun.py'],
  [('colleague matrix eigenvalues', C+'detail.pyx roots_main'), ('recursive subdivision', C+'detail.pyx roots_main')], ['returned roots'])
p('C10', 'Extrema, norms and inner products match their integrals and bounds',
  'Minimum and maximum of a function are attained at the reported positions and bound it everywhere; inner products, p-norms, max norm and Sobolev norms equal the corresponding integrals over the domain for every length, column count and domain, are symmetric, non-negative and scale homogeneously.',
  ['inputs'], 'palette of coefficient shapes x columns x domains x p x types, all pairs for inner products',
  'Tests cover the L2 norm on few functions; other p, multi-column, non-unit domains and pairs of different lengths are not covered.',
  ['funpy/fun.py', 'funpy/norms.py', C+'chebtech.py', C+'minmax.py', T+'trigtech.py'],
  [('turning-point search', C+'minmax.py'), ('Clenshaw-Curtis inner product', C+'chebtech.py inner'), ('norm dispatch', 'funpy/fun.py norm/norm2/wkpnorm')], ['returned numbers'])
p('C11', 'Domains map faithfully and mismatched domains are refused',
  'A function on [a,b] evaluates, samples and integrates in [a,b] coordinates for every a<b, its forward and backward coordinate maps are mutually inverse and its sampling points stay inside the domain; evaluating outside is refused. Combining functions living on different domains is refused in every operand order and never silently yields a function.',
  ['inputs', 'configurations'], 'all pairs from a set of domains (nested, shifted, scaled, negative, tiny, huge) x all binary operations x operand order x types',
  'Tests use [-1,1] nearly always; order-dependent or one-sided domain comparisons pass every equal-domain test.',
  ['funpy/fun.py', 'funpy/mapping.py', 'funpy/functional.py'],
  [('linear maps', 'funpy/mapping.py'), ('domain checks', 'funpy/fun.py __array_ufunc__/inner/dot')], ['values, raised errors'])
p('C12', 'Column structure: selecting, stacking, iterating and products agree',
  'Selecting one column or a range of columns, iterating over columns (also nested), stacking functions, flattening/rebuilding from coefficient vectors, and multiplying per-column constants all follow the semantics of a matrix with one function per column. Stacking the columns of a function rebuilds it, for non-periodic functions and for real and complex periodic ones.',
  ['inputs', 'programs'], 'all column counts up to the bound, all slices/indices, all partitions into stacks, nested iteration programs',
  'Tests select a column of a few functions; slices, nested iteration and stacking of mixed lengths are not covered.',
  ['funpy/fun.py', C+'chebtech.py', T+'trigtech.py'],
  [('column selection', C+'chebtech.py __getitem__'), ('stacking', C+'chebtech.py hstack'), ('iteration protocol', 'funpy/fun.py __iter__')], ['values and shapes'])
p('C13', 'Copies and files give back the same function or state',
  'Copying (deep or library copy) and writing to and reading back from an HDF5 file give an object equal in values, domain, kind, columns, tolerance and happiness to the original, for functions, parameters and solution states; a chain of copies and round trips in any order stays equal. Named parameters and branch information survive.',
  ['histories', 'inputs'], 'all chains of copy/deepcopy/library-copy/file round trips up to the depth bound, over a palette of objects of every persistent kind',
  'Tests check one deep copy; no test writes a file, and chained copies expose fields that are lost or swapped on the way.',
  ['funpy/fun.py', C+'chebtech.py', T+'trigtech.py', V+'parameter.py', V+'base_state.py', V+'cont_state.py', V+'tp_state.py', V+'tp_cont_state.py', V+'mp_state.py', V+'State.py', V+'namespace.py'],
  [('deep copy hooks', 'funpy/fun.py, funpy/cheb/chebtech.py'), ('HDF5 read/write pairs', 'writeHDF5/from_hdf5')], ['read-back object'])
p('C14', 'Solution states form a vector space with a consistent inner product',
  'Every kind of solution state (function plus parameters, arclength, deflation and two-parameter variants) obeys the vector-space laws componentwise: addition, subtraction, scaling, negation, in-place variants, zero/one templates, and flattening to a coefficient vector and back. Inner product and norm are consistent with each other, weigh components as declared, and never alter the operands.',
  ['programs', 'inputs'], 'all programs of state operations up to the depth bound, over states of every kind with 1-2 columns and 0-2 parameters, against a plain record model',
  'Tests try single operations on each class; programs mixing kinds, in-place forms, lengths and weights are not enumerated.',
  [V+'base_state.py', V+'State.py', V+'cont_state.py', V+'deflation_state.py', V+'tp_state.py', V+'tp_cont_state.py', V+'mp_state.py'],
  [('componentwise ufunc dispatch', V+'base_state.py __array_ufunc__'), ('inner/norm', V+'base_state.py')], ['components after each operation'])
p('C15', 'Named parameters stay in step with the namespace that stores them',
  'A parameter behaves as its number in arithmetic, two parameters are combined only if they denote the same quantity, and a namespace holding parameters reports, updates, copies and enumerates exactly the values last assigned, under every interleaving of writes through either handle.',
  ['histories'], 'all histories of set/get/arithmetic/in-place/copy/bind operations up to the depth bound over two names and two values',
  'Tests assign once and read once; staleness and aliasing need histories.',
  [V+'parameter.py', V+'namespace.py', V+'base_state.py'],
  [('parameter arithmetic', V+'parameter.py'), ('attribute namespace', V+'namespace.py')], ['values read back'])
p('C16', 'Ultraspherical operator matrices represent their operators',
  'For every size, derivative order and basis index, the sparse matrices for differentiation, basis conversion and its inverse, multiplication by a given function and integration, applied to the coefficients of any polynomial of admissible degree, give the coefficients of the result of the operation in the target basis.',
  ['inputs', 'configurations'], 'all sizes up to the bound x orders x basis indices x all unit vectors x multiplier shapes x domains',
  'Tests never look at these matrices; each is linear so unit vectors settle all inputs of a size.',
  [K+'ultraS/matrices.py', K+'ultraS/ultraS.py', K+'ultraS/transform.py', K+'coeffsDiscretization.py'],
  [('banded conversion/differentiation/multiplication matrices', K+'ultraS/matrices.py')], ['matrix entries against dense reference'])
p('C17', 'Collocation and Fourier operator matrices represent their operators',
  'For every size, parity and order, the Chebyshev collocation, periodic collocation and Fourier coefficient matrices for differentiation, integration, multiplication and evaluation map the samples or coefficients of each admissible function to those of the exact result.',
  ['inputs', 'configurations'], 'all sizes up to the bound x orders x all basis functions x domains',
  'Tests never look at these matrices.',
  [K+'chebcolloc/chebcolloc2.py', K+'trigcolloc/matrices.py', K+'trigcolloc/trigcolloc.py', K+'trigspec/matrices.py', K+'trigspec/trigspec.py', C+'diff.py', K+'valsDiscretization.py'],
  [('differentiation matrices', K+'trigcolloc/matrices.py, '+C+'diff.py'), ('Toeplitz multiplication', K+'trigspec/matrices.py')], ['matrix entries against dense reference'])
p('C18', 'Conversion between ultraspherical bases preserves the function',
  'Re-expressing a coefficient array from one ultraspherical basis in another, up or down, for any length and number of columns gives coefficients of the same polynomial, leaves the input array unchanged and is undone by the opposite conversion.',
  ['inputs', 'programs'], 'all lengths up to the bound x all basis pairs x all unit vectors x all chains of conversions up to the depth bound',
  'There are no tests of these conversions.',
  ['funpy/ultra.py', K+'ultraS/transform.py', 'funpy/fun.py'],
  [('recurrence based conversion', 'funpy/ultra.py')], ['converted coefficients'])
p('C19', 'Editing rows and columns of sparse matrices matches dense editing',
  'Deleting, appending or reordering rows or columns of a sparse matrix, or eliminating its tiny entries, yields the matrix that the same edit on the dense array yields, leaves the untouched entries in place and keeps a structurally valid matrix, for every sparsity pattern and every chain of edits.',
  ['inputs', 'histories'], 'every sparsity pattern up to 3x3 (all 2^9 supports) x every edit x chains of edits up to the depth bound',
  'There are no tests of these helpers; index bookkeeping bugs depend on the pattern (empty rows, last row, adjacent entries).',
  [K+'sparse/csr.py', K+'sparse/csc.py', K+'tools.py', L+'helpers.py'],
  [('in-place index surgery', K+'sparse/csr.py, '+K+'sparse/csc.py')], ['dense image of the matrix'])
p('C20', 'Compiled equations: residual and linearisation match the equations',
  'For every system of symbolic differential equations with boundary conditions accepted by the equation compiler, the compiled residual at any state equals the equations evaluated on that state, and the compiled linear operator applied to any direction equals the derivative of the residual in that direction, for each coefficient, order, variable and parameter.',
  ['programs', 'inputs'], 'every equation of a bounded grammar (terms x orders x nonlinearities x parameters x 1-2 unknowns) x states x directions',
  'Existing operator tests are few and fail in this environment; linearisation errors only slow down or bend Newton and are invisible to solution tests.',
  [K+'source/compiler.py', K+'source/support.py', K+'source/OperatorSource.py', K+'source/OperatorSourceBlock.py', K+'chebOp.py', K+'OpDiscretization.py', K+'LinSys.py', K+'BiLinSys.py', K+'linOp.py', K+'linBlock.py', K+'quasiOp.py', K+'rhs.py'],
  [('symbolic linearisation', K+'source/compiler.py'), ('discretised block operators', K+'coeffsDiscretization.py')], ['residual values, matrix action'])
p('C21', 'Solved boundary-value problems satisfy equation and conditions',
  'Whenever the boundary-value solver reports success, the returned function satisfies the differential equation and every boundary condition to the requested accuracy, on any domain and for every solver variant; otherwise failure is reported. The caller\'s initial guess and operator are not modified and solving again gives the same answer.',
  ['inputs', 'configurations', 'histories'], 'every equation from a bounded family (orders, coefficients, nonlinearities, right-hand sides, boundary conditions) x domains x solver variants x guesses x adaptive or fixed resolution, and repeated solves',
  'The operator tests in the repository fail here and sample one or two equations with one solver.',
  [K+'chebOp.py', K+'adapt.py', N+'newton.py', N+'giant.py', N+'nleq_err.py', N+'qnerr.py', N+'newton_standard.py', L+'exact_linear_solver.py', L+'lu_solve.py', L+'qr_solve.py'],
  [('adaptive grid loop', K+'adapt.py'), ('damped Newton', N+'giant.py, nleq_err.py'), ('boundary rows by rectangular projection', K+'projection.py')], ['returned function and status'])
p('C22', 'Newton drivers report convergence truthfully under every callback outcome',
  'Each Newton driver, run against a system whose residuals and linear solves are supplied by the environment, reports success only if the returned point meets the stated tolerance for the system, respects its iteration limit, leaves the caller\'s start point unchanged and reports failure (never success) when steps are singular, non-finite or do not contract.',
  ['fault_sequences', 'programs', 'inputs'], 'all sequences of environment answers (exact step, short step, overshoot, singular, non-finite) up to the bound for each driver, and small algebraic systems x starts',
  'Tests only see converging runs; the fault branches are reached by specific callback sequences.',
  [N+'newton_standard.py', N+'nleq_err.py', N+'giant.py', N+'qnerr.py', N+'newton_base.py', N+'newton.py'],
  [('natural monotonicity test and damping', N+'nleq_err.py'), ('Broyden-type updates', N+'qnerr.py')], ['status, returned point, number of evaluations'])
p('C23', 'Bordered and factorised linear solvers solve the system they are given',
  'Every linear solver provided (bordered elimination variants, QR, QR-Cholesky, LU, Schur complement, block-bordered) returns x with A x = b, or the minimum-norm/least-squares solution in the rank-deficient case, for every admissible shape, border width, dense or sparse storage and right-hand side, also when the inner block is singular but the bordered matrix is not, and leaves its inputs intact.',
  ['inputs'], 'all matrices from a small integer alphabet up to 3x3 blocks with borders, dense and sparse, all unit right-hand sides',
  'There are no tests of the linear algebra package.',
  [L+'bem_solve.py', L+'bemw_solve.py', L+'qr_solve.py', L+'qr_chol.py', L+'lu_solve.py', L+'schur_solve.py', L+'exact_linear_solver.py', L+'brd_solve.py', L+'fold_solve.py'],
  [('bordering algorithms', L+'bem_solve.py, bemw_solve.py'), ('orthogonal factorisations', L+'qr_solve.py, qr_chol.py')], ['solution vs dense reference'])
p('C24', 'Determinants, factorisations and null vectors agree with the matrix',
  'The determinant and log-determinant routines, the permutation-sign counter, the completely pivoted LU and the null-vector routines agree with the exact determinant, sign, factorisation and kernel of every matrix they are given, and leave the input matrix intact.',
  ['inputs'], 'all matrices over a small integer alphabet up to 3x3 (and Hessenberg up to 4x4), all permutations up to length 6',
  'There are no tests of the linear algebra package.',
  [L+'helpers.py', L+'lucp.py', L+'nullspace.py', L+'qr.py', L+'bemw_solve.py'],
  [('Hyman/Hessenberg determinant', L+'helpers.py'), ('complete pivoting', L+'lucp.py')], ['numbers vs exact rational reference'])
p('C25', 'The error-controlled Krylov solver converges or says it did not',
  'For every preconditioned system whose symmetric part is positive definite, the error-controlled Krylov iteration used for inner solves converges within about 2n steps (plus restarts) to a solution within its tolerance, from any start including the exact one, with any preconditioner, restart length and stopping rule; for any regular system it respects its iteration limit, never reports success on a non-finite result or on a run cut off by the limit, counts its operations, and leaves matrix, right-hand side and start vector intact.',
  ['inputs', 'configurations'], 'all regular 2x2 and selected 3x3 integer systems x right-hand sides x starts x preconditioners x iteration limits',
  'There are no tests of the Krylov solver.',
  [L+'gbit.py'], [('good-Broyden iteration', L+'gbit.py')], ['solution, status'])
p('C26', 'Deflation multiplies the residual and differentiates it exactly',
  'For every set of known solutions, powers and shifts, the deflated residual is the residual times the product of deflation factors, blows up at known solutions and not elsewhere, and the deflated linear operator and its preconditioned form act as the exact derivative of the deflated residual.',
  ['inputs', 'programs'], 'all sets of up to 3 known solutions from a small alphabet x powers x shifts x states x directions',
  'There are no tests of deflation.',
  [N+'deflated_residual.py', N+'deflation.py', N+'FrechetDeflated.py', N+'FrechetDeflatedPrecond.py', V+'deflation_state.py'],
  [('deflation operator', N+'deflation.py'), ('rank-one update', N+'FrechetDeflated.py')], ['residual and derivative action vs finite reference'])
p('C27', 'Functionals and constraints evaluate what they denote',
  'Point evaluations, derivative evaluations, integrals and weighted combinations used as boundary conditions or constraints act on the coefficients or samples of any function as the denoted functional acts on the function, on any domain and at every resolution, and combine linearly.',
  ['inputs', 'programs'], 'all functionals of a bounded grammar x basis functions x sizes x domains',
  'There are no tests of functionals.',
  [K+'linearFunctional.py', K+'chebOpConstraint.py', K+'source/BoundaryConditionSource.py', K+'source/BoundaryConditionsSource.py', 'funpy/functional.py', K+'realDiscretization.py', K+'bilinearForm.py'],
  [('row assembly of conditions', K+'coeffsDiscretization.py, '+K+'linearFunctional.py')], ['functional values'])
p('C28', 'QR factorisation of function columns reproduces and orthonormalises',
  'Factoring the columns of a function on any domain gives orthonormal function columns Q and an upper triangular R with Q R equal to the original, for every number of columns and length, including a single column, and leaves the original unchanged.',
  ['inputs'], 'all column counts 1-4 x lengths x domains over independent column palettes',
  'There are no tests of the continuous QR.',
  [C+'qr.py', 'funpy/fun.py', 'funpy/qr.py', C+'chebtech.py'],
  [('weighted Householder/Gram-Schmidt QR on a quadrature grid', C+'qr.py')], ['Q, R'])
p('C29', 'Eigenvalue computations return the true spectrum',
  'The eigenvalues returned for a linear differential operator (or for the linearisation of a nonlinear one about a given state) with boundary conditions are those of the operator: inside the resolved disc they match the closed-form or independently computed spectrum with multiplicities, no spurious value and none missing, on any domain, resolution and function space. The requested ordering is honoured, and operator and state are not modified.',
  ['inputs', 'configurations', 'histories'], 'operators (order x variable coefficients x systems x linearisations) x boundary conditions x domains x resolutions x orderings, and words of computations on one operator',
  'There are no tests of the eigenvalue solver.',
  [K+'eig.py', K+'chebOp.py'],
  [('generalised eigenproblem on projected operator', K+'eig.py')], ['eigenvalues and their order'])
p('C30', 'Operators denote their equations after every history; copies are independent',
  'A differential operator built from equations, conditions, constraints, parameters and constant functions denotes exactly those throughout its life. After any history of discretisations at any resolution, residual evaluations, solves, eigenvalue computations, refused calls, changes of its parameters and copies, its matrix, residual, condition residuals, parameter derivatives and solutions at a given state and resolution are those of a freshly built operator, and its settings are those the user gave. A copy has the settings and resolution of the original, and whatever is done to the one has no effect on the other.',
  ['histories', 'programs'], 'every word over the alphabet of operator calls up to the depth bound, from the freshly built and from the used operator, for every operator of the family',
  'Tests build an operator, use it once and throw it away; state left behind by an earlier resolution, solve or copy is never observed.',
  [K+'chebOp.py', K+'LinSysBase.py', K+'LinSys.py', K+'rhs.py', K+'adapt.py', K+'pDerivative.py', K+'OpDiscretization.py', K+'coeffsDiscretization.py'],
  [('compiled system cached in the operator', K+'chebOp.py'), ('deep copy of the settings', K+'chebOp.py __deepcopy__')], ['matrix, residual, derivatives, solution'])
p('C31', 'NumPy functions of functions act point by point, wherever the result is put',
  'A NumPy function of one or two arguments applied to functions (periodic, not periodic or one of each; with numbers on either side; any number of columns; any domain) returns the function whose value at every point is the NumPy function of the operand values, up to the tolerance of the construction, on the same domain and with the same columns; operands are left intact. With an output argument, or as an in-place operator (including powers), exactly the given function object takes that value and nothing else changes. What cannot be represented or is not supported is refused, never answered with another function.',
  ['inputs', 'programs'], 'every NumPy function of a list x operand kinds x columns x domains x destination, and all words of in-place operators up to the depth bound',
  'Tests apply a few NumPy functions to one function each and never write results into operands or other functions.',
  [C+'ufuncs.pyx', C+'chebtech.py', T+'ufuncs.py', T+'trigtech.py', 'funpy/fun.py'],
  [('__array_ufunc__ dispatch', 'funpy/fun.py'), ('composition by default', C+'chebtech.py, '+T+'trigtech.py'), ('combination of periodic and non-periodic functions', C+'ufuncs.pyx mixed')], ['evaluation of the result'])
for x in P: print(json.dumps(x, ensure_ascii=False))
