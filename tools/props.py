"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {})),
                  claim=claim, na=na))


SYMT = "contracts on the real functions, discharged by a deductive verifier over symbolic reals (VC generator on the extracted source; algebra, interval enclosure, z3, cvc5)"
prop("C01", "Every variable type is a group and its elements stay on the manifold",
     "For every built-in variable type (planar and spatial rotations and poses, vectors, IMU biases) composition is associative, the identity is neutral on both sides, and composing with the inverse on either side gives the identity. Identity, inverse and product of valid rotations are valid rotations, and the product operators agree with composition. Constructors and accessors agree: what an element was built from is what it reports.",
     ["inputs"], "all elements of every built-in variable type",
     "Associativity, inverses and closure are equations over all group elements; the tests compose a few fixed elements whose tangent entries are all equal.",
     ["src/variables/so2.rs", "src/variables/se2.rs", "src/variables/so3.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs", "src/variables/traits.rs"],
     [("compose, inverse, identity", "src/variables/*.rs"), ("quaternion product", "src/variables/so3.rs")],
     dict(technique=SYMT, level="proof", note="Equations proved for all elements over the reals; f64 rounding is not modelled. Trusted: extraction, VC generator, nalgebra's generic code run as is, SMT solvers."))
prop("C02", "Exponential and logarithm maps are the group's, and invert each other",
     "The exponential of a tangent vector is the matrix exponential of its hat matrix for every tangent vector, including zero, tiny, and longer than a full turn. The logarithm returns a shortest tangent vector whose exponential is the element, so exp(log(x)) is x for every element and log(exp(v)) is v whenever the rotation part of v is shorter than half a turn. The right Jacobian of the spatial rotation exponential is the derivative of that exponential.",
     ["inputs"], "all tangent vectors and all group elements, on both sides of every small-angle branch",
     "The maps have branches at zero, at small angles and at half turns; tests evaluate a handful of vectors with equal entries, and the branch points are a measure-zero set that sampling does not hit.",
     ["src/variables/so2.rs", "src/variables/se2.rs", "src/variables/so3.rs", "src/variables/se3.rs", "src/variables/vector.rs", "src/variables/imu_bias.rs"],
     [("exp, log", "src/variables/*.rs"), ("small-angle series", "src/variables/se2.rs, so3.rs, se3.rs"), ("dexp", "src/variables/so3.rs")],
     dict(technique=SYMT, level="proof", note="Proved for all reals (tolerance 1e-7 only where the code itself uses a truncated series; those obligations go to an interval-enclosure back end). Rounding is not modelled."))
prop("C03", "Plus and minus on the manifold undo each other",
     "Adding a tangent vector to an element composes it with the exponential on the side the build's convention fixes (right by default), in place and by value alike, and subtracting two elements is the logarithm of their relative element on that side. Adding then subtracting returns the tangent vector (rotation shorter than half a turn), subtracting then adding returns the element, x minus x is zero, and plus zero changes nothing.",
     ["inputs", "configurations"], "all elements, all tangent vectors, both perturbation conventions, the exact and the approximate exponential of the build",
     "The round trips quantify over pairs of elements; the tests use single fixed pairs with equal entries, on which left and right conventions coincide.",
     ["src/variables/traits.rs", "src/variables/macros.rs", "src/variables/so2.rs", "src/variables/se2.rs", "src/variables/so3.rs", "src/variables/se3.rs"],
     [("oplus, ominus, minus defaults", "src/variables/traits.rs"), ("oplus_mut through the erased type", "src/variables/traits.rs")],
     dict(technique=SYMT, level="proof", note="Proved over the reals for all elements; the left-convention and approximate-exponential builds are included. Rounding is not modelled."))
prop("C04", "Matrix view, action, hat, vee and adjoint are one consistent representation",
     "The matrix of a product is the product of the matrices, the matrix of the identity is the identity, and acting on a point is multiplying by the matrix. Hat and vee are mutually inverse linear maps between tangent vectors and Lie-algebra matrices, hat_swap(p) v equals hat(v) p, and the adjoint carries tangent vectors across an element: x exp(v) equals exp(Ad_x v) x, with hat(Ad_x v) = X hat(v) X^-1.",
     ["inputs"], "all elements, points and tangent vectors of the rotation and pose types",
     "apply, adjoint, vee and hat_swap are untested or tested on one element; the identities quantify over all elements and vectors.",
     ["src/variables/traits.rs", "src/variables/so2.rs", "src/variables/se2.rs", "src/variables/so3.rs", "src/variables/se3.rs"],
     [("to_matrix, from_matrix, adjoint, apply, hat, vee, hat_swap", "src/variables/*.rs")],
     dict(technique=SYMT, level="proof", note="Proved over the reals for all elements. Rounding is not modelled."))
prop("C07", "Every robust kernel is a valid loss and its weight is that loss's slope",
     "For every built-in robust kernel, with any tuning constant in its domain, the loss is zero at zero, never negative, never decreases as the residual grows, and is continuous across its inner threshold. The weight is twice the derivative of the loss with respect to the squared residual, lies between zero and one where the kernel promises so, and a kernel with default constants equals the one built with them explicitly.",
     ["inputs", "configurations"], "all squared residuals and all tuning constants of every kernel",
     "The tests evaluate each kernel at two residuals with the default constant by numerical differencing, away from the threshold where the branches meet.",
     ["src/robust/mod.rs"], [("loss, weight", "src/robust/mod.rs")],
     dict(technique=SYMT, level="proof", note="Proved over the reals for all d2 >= 0 and all admissible constants (derivatives taken symbolically). Rounding is not modelled."))
prop("C05", "Forward-mode differentiation returns the exact Jacobian",
     "For every differentiable function of one to six variables of any types, built-in or user-defined, forward-mode differentiation returns the function's value and the matrix of partial derivatives of that value with respect to a tangent perturbation of each variable on the build's convention side, columns in argument order, one block per variable as wide as its dimension. Variables not being perturbed enter as constants, and the derivative does not depend on where in the domain, including at zero perturbation and at singular points of the logarithm, it is taken.",
     ["inputs", "configurations"], "all functions, numbers of arguments, variable types, linearisation points and conventions",
     "The tests compare with finite differences at fixed points with repeated entries; a swapped block or a sign on one column only shows for particular arities, types and points.",
     ["src/linalg/forward_prop.rs", "src/linalg/mod.rs", "src/linalg/dual.rs", "src/variables/traits.rs"],
     [("jacobian_variable_1..6", "src/linalg/mod.rs, forward_prop.rs"), ("dual_setup, dual_exp", "src/variables/traits.rs")],
     dict(technique=SYMT, level="proof", note="Proved over the reals for functions that expose every slope of every argument (each composed of the type's observables with symbolic coefficients); differentiation itself is num-dual's code, executed as is. Rounding is not modelled."))
prop("C06", "Numerical differentiation is the central difference on the manifold",
     "For every function of one to six variables of any types, numerical differentiation with power P returns the function's value and, for each tangent direction of each variable in argument order, the symmetric difference (f(x + h e) - f(x - h e)) / 2h with h = 10^-P, where plus is the manifold's own plus and the difference of outputs is taken in the output space. Each direction perturbs one coordinate of one variable and leaves the others where they were.",
     ["inputs", "configurations"], "all functions, arities one to six, variable types, powers and linearisation points",
     "The tests check closeness to an analytic derivative with loose tolerances at a few points; which coordinate was perturbed, by how much and in which order is visible only for functions that separate all of them.",
     ["src/linalg/numerical_diff.rs", "src/linalg/mod.rs"],
     [("derivative, gradient, jacobian, jacobian_variable_1..6", "src/linalg/numerical_diff.rs, mod.rs")],
     dict(technique=SYMT, level="proof", note="Proved over the reals for the powers listed in the evidence and for functions that expose every slope of every argument. Rounding (which limits the accuracy of small steps in f64) is not modelled."))
prop("C08", "Whitening turns the noise model's Mahalanobis norm into the plain norm",
     "However a Gaussian noise model is specified (one sigma or covariance for all components, a vector of sigmas, covariances or informations, named values, a covariance or an information matrix), whitening is a linear map W with W^T W equal to the specified information matrix, so the squared norm of a whitened vector is its Mahalanobis norm. Whitening a matrix applies W to each of its columns, whatever their number; unit and identity noise change nothing.",
     ["inputs", "configurations"], "all positive definite specifications, all dimensions, all vectors and matrices",
     "The tests whiten with a single diagonal value; correlations, unequal sigmas and matrices with a different number of columns than rows are never exercised.",
     ["src/noise/gaussian.rs", "src/noise/unit.rs"],
     [("from_* constructors", "src/noise/gaussian.rs"), ("whiten_vec, whiten_mat", "src/noise/*.rs")],
     dict(technique=SYMT, level="proof", note="Proved over the reals for dimensions 1, 2, 3, 6 and 9 (diagonal), 1, 2, 3 and 6 (information), 1, 2, 3 (covariance); covariances of dimension 5 and 6 bounded to one correlated pair. nalgebra's Cholesky, LU and inverse are executed as they are. Rounding is not modelled."))
BND = "contracts on the real functions, discharged by a deductive verifier over symbolic reals for every shape up to a stated bound (values unbounded, structure bounded)"
prop("C09", "A factor's cost is its loss of the whitened residual, linearised consistently",
     "A factor's error is its robust kernel's loss of the squared norm of the noise-whitened residual at the current values of its keys, which is half the squared norm when it has no kernel. Its linearisation scales the whitened residual and the whitened Jacobian by the square root of the kernel's weight at that residual, negates the residual for the right-hand side, and gives each key, in the factor's own key order, the block of columns of its own variable. A factor built without noise or kernel behaves as with unit noise and the plain squared loss; residuals users define through the numbered residual traits are evaluated at, and differentiated with respect to, the keys in the order they were given.",
     ["inputs", "configurations"], "all residual functions of one to six variables, noise models, kernels and values",
     "The tests compare one built-in residual with unit noise; the order in which whitening, weighting and block slicing happen shows only with correlated noise, a kernel outside its quadratic region and unequal block widths together.",
     ["src/containers/factor.rs", "src/residuals/traits.rs", "src/linear/factor.rs"],
     [("Factor::error, Factor::linearize", "src/containers/factor.rs"), ("FactorBuilder", "src/containers/factor.rs"), ("residual1_values ... residual6_jacobian", "src/residuals/traits.rs")],
     dict(technique=SYMT, level="proof", note="Residual, noise and kernel are havocked stubs that return arbitrary values, so the result holds for every implementation of their contracts; proved for block widths 1 to 4 per key. Rounding is not modelled."))
prop("C10", "A graph is the sum of its factors, and its linear system stacks them",
     "The error of a graph is the sum of the errors of its factors. Linearising it gives one linear factor per factor in order, and the assembled sparse system has each factor's rows in that order, each block at the columns of its variable under the given order, blocks of a variable that occurs twice in one factor added together, zeros elsewhere, and the factors' right-hand sides stacked the same way; the linear graph's error at a step is half the squared norm of that system's residual. None of this depends on how the factors were added or on which orders the graph was used with before.",
     ["inputs", "configurations", "histories"], "all graphs, all column orders, all factor contents",
     "The assembly goes through a precomputed sparsity permutation; tests build one small graph with one order and compare the product, and wrong placement needs unequal dimensions, repeated keys or re-use with another order.",
     ["src/containers/graph.rs", "src/linear/graph.rs", "src/linear/factor.rs", "src/linalg/mod.rs", "src/containers/order.rs"],
     [("Graph::error, linearize, sparsity_pattern", "src/containers/graph.rs"), ("residual_jacobian, sparsity_pattern", "src/linear/graph.rs"), ("get_block", "src/linalg/mod.rs")],
     dict(technique=BND, level="other", note="Bounded in structure (up to three factors over four variables with arities, dimensions, repeated keys and column orders enumerated, and two fixed graphs of 11 and 13 factors), unbounded in every matrix and vector entry. Rounding is not modelled."))
prop("C11", "A variable order partitions the columns and a step hands each its own slice",
     "An order built from values gives every variable in them a contiguous range of columns as wide as its dimension; the ranges are disjoint, leave no gap, and together cover exactly the total dimension. Two orders of the same values agree. Linear values built on an order return for each key exactly the entries of the vector in that key's range, report the vector's total dimension and the number of variables, iterate every key once with its own slice, and refuse a vector of the wrong length; a key the order does not know yields nothing.",
     ["inputs", "configurations"], "all sets of variables, dimensions, orders and vectors",
     "Tests use three variables of one dimension; a wrong offset needs a mix of dimensions and depends on hash iteration order.",
     ["src/containers/order.rs", "src/linear/values.rs"],
     [("ValuesOrder::from_values", "src/containers/order.rs"), ("LinearValues::get, iter", "src/linear/values.rs")],
     dict(technique=BND, level="other", note="Bounded in structure (every subset of eight variables of different types, and every explicit order of three), unbounded in every entry."))
prop("C12", "Values are a typed map, and adding a step moves exactly the named variables",
     "A set of values behaves as a map from keys to typed variables: what was last inserted under a key is what every accessor returns, inserting returns the variable it replaced, removing takes out exactly that key and returns it, reading a key as another type yields nothing and changes nothing, filtering and iterating visit exactly the stored variables of the type, and a clone is independent. Adding a linear step moves each variable the step names by its own slice with that variable's plus, and leaves every other variable as it was.",
     ["inputs", "histories"], "all histories of operations, keys, types and steps",
     "The map erases types and goes through downcasts; tests insert and read a value back, and steps are only applied to all variables at once.",
     ["src/containers/values.rs", "src/variables/traits.rs"],
     [("insert, get, remove, filter, entry", "src/containers/values.rs"), ("oplus_mut", "src/containers/values.rs, src/variables/traits.rs")],
     dict(technique=BND, level="other", note="Bounded in structure (every history of three operations over two keys and three types; every combination of presence, step and order for three variables), unbounded in the variables' contents."))
prop("C13", "A key is a faithful encoding of its symbol",
     "Two symbols have the same key exactly when they have the same character and the same index, for every character and every index below 2^32. Decoding a key gives back the character and index it was made from, so its printed text names them. A typed symbol, built-in or made by the user, encodes the first letter of its name in lower case and its index, and a key used as a symbol is itself.",
     ["inputs"], "all characters, all indices below 2^32",
     "Every container is addressed by keys, so a collision merges two variables silently; tests use a handful of small indices and ASCII letters.",
     ["src/containers/symbol.rs"],
     [("DefaultSymbol, From<DefaultSymbol> for Key, From<Key> for DefaultSymbol", "src/containers/symbol.rs"), ("assign_symbols!", "src/containers/symbol.rs")],
     dict(technique="bit-precise contracts on the real functions, discharged by Kani (CBMC) for every character and index; executable contracts for the macro", level="proof", note="Encoding, decoding and the built-in symbols are proved for all characters and all indices below 2^32; the printed text is proved for all characters at one index and for all indices below 256 of one character; user-made symbols are checked for five names."))
prop("C14", "Optimisation stops exactly when a rule says so and returns the last values",
     "Optimisation initialises once, then steps until the first rule holds: the error is at most the error tolerance, the decrease of the error is at most the absolute tolerance, or the decrease relative to the previous error is at most the relative tolerance; it never takes more steps than the iteration limit. When a rule holds it returns the values the last step produced; when the limit is reached it reports that with the last values, already-converged values are returned untouched, a step that fails ends the optimisation with that failure, and each step receives the values the previous one produced. Observers added are all told, in order, of what is passed on.",
     ["inputs", "histories", "configurations"], "all sequences of errors, all tolerances and limits",
     "The tests optimise problems that converge in a few steps with default tolerances; each stopping rule, its comparison and the limit matter only in particular error histories.",
     ["src/optimizers/traits.rs"], [("Optimizer::optimize", "src/optimizers/traits.rs"), ("OptObserverVec", "src/optimizers/traits.rs")],
     dict(technique=BND, level="other", note="The steps and errors are havocked (an arbitrary optimizer), tolerances arbitrary; bounded to limits of up to four iterations, plus two fixed runs of more than a hundred. Rounding is not modelled."))
prop("C15", "Each optimizer step solves the (damped) linearised problem and applies it",
     "A Gauss-Newton step solves the least-squares problem of the graph linearised at the current values and moves every variable by its part of the solution. A Levenberg-Marquardt step solves the normal equations with the damping times the identity, or times their diagonal, added; it accepts the first solution that reduces the linearised error, raising the damping by its factor after each rejection, fails once the damping exceeds its maximum, and after an acceptance lowers the damping by the factor, never below its minimum. Only an accepted solution changes the values. After a step every observer sees the updated values and the step's number; an optimizer used for a second problem solves that one.",
     ["inputs", "histories", "configurations"], "all graphs, values, damping parameters and solver answers",
     "The tests only check that a few problems converge, which tolerates wrong damping, wrong acceptance and even wrong Jacobian columns.",
     ["src/optimizers/gauss_newton.rs", "src/optimizers/levenberg_marquardt.rs", "src/optimizers/traits.rs"],
     [("GaussNewton::step", "src/optimizers/gauss_newton.rs"), ("LevenMarquardt::step", "src/optimizers/levenberg_marquardt.rs")],
     dict(technique=BND, level="other", note="The solver is havocked (any answer), the residuals and Jacobians arbitrary; bounded in structure to the graphs, the two rejected tries and the two successive problems named in the evidence. Rounding is not modelled."))
prop("C16", "Every linear solver returns the solution of the system it was given",
     "For every linear solver (Cholesky, QR, LU), solving a symmetric positive definite system returns the vector that satisfies it, and solving a least-squares problem of full column rank returns the vector that satisfies its normal equations, for each column of the right-hand side. The answer depends on the current system only: a solver that was used before, for systems of other sizes, sparsity patterns or values, gives the same answer as a fresh one.",
     ["inputs", "histories"], "all full-rank systems, sparsity patterns, right-hand sides and histories of earlier solves",
     "The tests solve one 3x2 system on a fresh solver; the solvers cache a symbolic factorisation, which only matters across calls.",
     ["src/linear/solvers.rs"], [("solve_symmetric, solve_lst_sq", "src/linear/solvers.rs"), ("cached symbolic factorisation", "src/linear/solvers.rs")],
     dict(technique=BND, level="other", note="faer's sparse factorisations are executed over symbolic reals. Bounded in structure: up to four unknowns with arbitrary entries (non-zero entries between 1e-6 and 1e6), up to eight unknowns with fixed entries and arbitrary right-hand sides, histories of three solves. Rounding is not modelled."))

prop("C17", "IMU preintegration follows its documented equations",
     "Integrating a measurement advances the preintegrated time, local rotation, velocity and position by the documented Euler equations, with the starting bias removed from the measurement; the covariance is propagated by the documented matrices A and B from a small multiple of the identity, with each noise parameter in its own block. The factor built compares the second state with the one predicted from the first: its rotation times the exponential of the local rotation, velocity and position with gravity for the elapsed time, and the bias unchanged, all corrected to first order for a bias other than the starting one by the derivatives propagated with A. Its residual is predicted minus second in the order rotation, velocity, position, gyroscope and accelerometer bias, with the right-hand minus for the rotation in either convention, weighed by the inverse of the propagated covariance.",
     ["inputs", "histories", "configurations"], "all measurement sequences, biases, gravity vectors, covariance parameters and states",
     "The tests integrate constant rates about one axis from zero bias and check one optimisation without rotation; the bias correction, coupling terms and noise blocks never matter there.",
     ["src/residuals/imu_preint/delta.rs", "src/residuals/imu_preint/residual.rs", "src/residuals/imu_preint/newtypes.rs", "src/residuals/imu_preint/README.md"],
     [("ImuDelta::{integrate, A, propagate_H, predict}", "src/residuals/imu_preint/delta.rs"), ("ImuPreintegrator::{integrate, B_Q_BT, build}, ImuPreintegrationResidual", "src/residuals/imu_preint/residual.rs")],
     dict(technique=SYMT, level="proof", note="By induction over the measurements: the start, one step from an arbitrary state of preintegration (any time, rotation, velocity, position, bias derivatives and full covariance; any measurement, bias and step), and what an arbitrary state predicts, each for all reals; rotation vectors are zero or of length 0.01 to 5.9 (between, the small-angle exponential is only approximately a rotation). Bounded: the weight of the built factor, for covariances with one correlated pair. The exponential's derivative is the library's own (contract C02). Rounding is not modelled."))
prop("C18", "Loading a pose graph file gives its poses and measurements",
     "For a file of planar or spatial pose vertices and edges, loading returns values with exactly the file's poses under their identifiers, and a graph with one between factor per edge plus one prior that holds the first pose of the file. Poses that agree with the first pose and with every measurement have zero error, and a deviation of an edge's target costs half its quadratic form in the file's information matrix, with the file's coordinate order (translation first) mapped to the library's (rotation first). The order in which vertices and edges come does not matter, and unknown lines are skipped.",
     ["inputs"], "all files of planar or all files of spatial poses, all numbers in them",
     "The reader only builds the graph; a transposed or misplaced information entry, or a measurement the wrong way round, shows only as a different optimum.",
     ["src/utils.rs"], [("load_g20", "src/utils.rs")],
     dict(technique=BND, level="other", note="Every number in the file is arbitrary (the text parser of the number type is replaced by symbolic values); bounded in structure to three poses, two edges, four orders of the lines and three sets of identifiers; spatial information matrices with four correlated pairs. Fields separated by single spaces, unit quaternions."))
prop("C19", "Prior and between residuals are the documented differences, with exact Jacobians",
     "The prior residual is the prior minus the variable, and the between residual is the first variable times the measurement minus the second, with the minus of the variable type and the build's convention, for every variable type, built-in or user-defined. Their Jacobians are the derivatives of these residuals along the tangent coordinates of the variables, first variable's columns first, and a factor of either has half the squared norm as its error.",
     ["inputs", "configurations"], "all variable types, elements, priors and measurements, both perturbation conventions",
     "The tests compare Jacobians with numerical differences at the identity; a swapped operand or side changes the optimum only for elements that do not commute.",
     ["src/residuals/prior.rs", "src/residuals/between.rs", "src/residuals/traits.rs"],
     [("PriorResidual::residual1", "src/residuals/prior.rs"), ("BetweenResidual::residual2", "src/residuals/between.rs")],
     dict(technique=SYMT, level="proof", note="The residuals are generic: proved for an arbitrary-chart non-commutative group, for planar rotations, vectors and biases with Jacobians, and for all poses and rotations by value; spatial rotation Jacobians bounded to neighbourhoods of fixed rotations. Rounding is not modelled."))
prop("C20", "The factor macro builds what its parts say",
     "The fac macro, given a residual, one to six keys (in brackets, in parentheses, or a single key), optionally a noise model and then a robust kernel, builds the factor that the builder builds from the same parts: the residual over those keys in that order, whitened by that noise (unit noise when absent) and weighted by that kernel (none when absent). Each argument is evaluated exactly once.",
     ["configurations", "inputs"], "all forms of the macro, all residuals, noise models and kernels",
     "The macro is used in a few places with one or two keys and no kernel; swapped arguments of compatible types compile.",
     ["factrs-proc/src/fac.rs", "src/containers/factor.rs"], [("fac", "factrs-proc/src/fac.rs"), ("FactorBuilder", "src/containers/factor.rs")],
     dict(technique=SYMT, level="proof", note="All forms for one and two keys, one form each for three to six; residual, noise and kernel are havocked stubs."))
prop("C21", "Drawing a variable shows what it stands for",
     "With the rerun feature, every conversion of a variable to a drawing type carries its numbers over: vectors and positions become the same coordinates, a rotation its quaternion (x, y, z, w) or its axes as arrows (the columns of its matrix, red, green and blue in that order), a pose arrows at its position, by reference and by value. A sequence of variables becomes one drawing with all of them in order. The rerun observer logs, once per optimiser step, on its topic and at the step's time, exactly the variables of its type in the values it is given.",
     ["inputs", "histories"], "all variables of each type, all sequences of them, all values and steps",
     "The conversions have no tests; a transposed rotation, a swapped coordinate or a dropped element still draws a plausible picture.",
     ["src/rerun.rs", "src/optimizers/traits.rs"], [("From and FromIterator conversions, RerunObserver::on_step", "src/rerun.rs"), ("OptObserverVec::notify", "src/optimizers/traits.rs")],
     dict(technique=SYMT, level="proof", note="Conversions of single variables proved for all elements; sequences of at most three elements and observers of at most two variables and two steps are bounded. The rerun SDK is an assumed contract, the narrowing to f32 is not modelled."))
prop("C22", "Serialising a graph or values and reading them back changes nothing",
     "With the serde feature, values, graphs, factors, variables, residuals, noise models and robust kernels that are serialised and read back are the same objects: the same keys, variables and numbers, and the same error and linearisation.",
     ["inputs", "configurations"], "all values and graphs of the library's own types and of user-defined types",
     "The round trip goes through trait objects registered under a tag for each type; a wrong or shared tag only shows for the type concerned.",
     ["factrs-proc/src/variable.rs", "factrs-proc/src/residual.rs", "src/containers/values.rs", "src/containers/factor.rs"],
     [("tag and registration", "factrs-proc/src/variable.rs"), ("derived Serialize and Deserialize", "src/containers/values.rs")],
     na="The serde feature cannot be compiled here: it needs the factrs-typetag submodule, which is an empty directory in /repo, and no copy of it is in the cargo cache. The guarantee is carried almost entirely by code that serde's and typetag's derive macros generate, so there is no text of /repo left to put under contract without it.")
