prop("C01", "Calls never modify the caller's data",
     "No public function, method or constructor changes the contents of an array, list, dictionary, random variable, operator or problem object that the caller passed in, nor the caller-visible state of objects reachable from it. What a call computes appears only in its return value (and in the receiver of a documented mutator).",
     ["inputs", "programs"],
     "for every public callable, every argument (dense, scalar, structured, aliased with another argument) and every path through the implementation",
     "The tests call a function once on freshly built literals and compare the result; they rarely look at the argument afterwards, and in-place shortcuts typically corrupt only one layout, dtype or branch.",
     ["src/probnum"],
     [("array helpers that work on borrowed storage", "probnum.utils.linalg, probnum.filtsmooth, probnum.diffeq, probnum.quad"), ("constructors storing caller arrays", "probnum.randvars, probnum.linops, probnum.problems")],
     technique=("interprocedural alias and effect analysis (dataflow)", "Every write effect in every function is propagated to the parameters it may reach through local aliases, containers, views and resolved callees; a write reaching a public parameter is reported with the writing statement."))
prop("C02", "Value objects never change after construction",
     "Random variables, linear operators, random processes, covariance functions, transitions, problems, beliefs and solver results behave as values: after construction no query or computation on them alters any later answer of the same object. Only documented mutators (property setters, the solver-state and diffusion update methods, caches of derived quantities) write to their receiver.",
     ["histories", "programs"],
     "for every sequence of method calls on every instance, including calls that raise part-way",
     "Unit tests query a fresh object once; a method that leaves a trace is visible only when two particular calls are made in sequence on one instance.",
     ["src/probnum/randvars", "src/probnum/linops", "src/probnum/randprocs", "src/probnum/problems", "src/probnum/linalg", "src/probnum/diffeq", "src/probnum/quad", "src/probnum/filtsmooth"],
     [("lazily filled caches", "probnum.linops.LinearOperator, probnum.randvars.Normal"), ("immutable parameters", "probnum.randvars.RandomVariable")],
     technique=("receiver-effect (typestate) analysis over all classes", "All writes to a receiver outside constructors are enumerated; each must be a documented mutator or a memo of a derived quantity that is read only through a filled-check."))
prop("C03", "Randomness comes only from the generator the caller supplies",
     "Every random draw is taken from the generator object the caller passed (or registered at construction), which is handed on unchanged to everything that draws on its behalf. No draw comes from a global random state, from a generator seeded internally, from the clock or from the operating system, so equal generator states give bit-identical results.",
     ["histories", "inputs", "configurations"],
     "for every sampling entry point, every generator state and every path on which a draw happens",
     "A test seeds everything and compares one run; a draw from a hidden source on a rare branch, or a generator forwarded to only some of the draws, is invisible unless that branch runs twice under different global state.",
     ["src/probnum/randvars", "src/probnum/randprocs", "src/probnum/diffeq/perturbed", "src/probnum/quad", "src/probnum/linalg/solvers", "src/probnum/problems/zoo"],
     [("sampling entry points", "functions with an rng parameter"), ("scipy-backed distributions", "probnum.randvars wrapping of frozen SciPy distributions")],
     technique=("source-to-sink provenance analysis of random generators", "Every draw sink is traced back to the value it draws from; every generator argument is traced forward through all call sites."))
prop("C04", "Results depend on arguments only, never on what ran before",
     "Calling any function twice with equal arguments, configuration and generator state gives the same answer whatever other calls were made in between, in this or another thread. The library keeps no hidden module-level or class-level state, shares no mutable default between calls, changes no process-wide setting without undoing it and reads no clock, environment variable, object identity or hash order.",
     ["histories", "schedules", "configurations"],
     "for every interleaving of calls into the library within a process",
     "Test order is fixed and each test uses its own objects; leakage through a shared default, a class attribute or a global shows only for particular call sequences.",
     ["src/probnum"],
     [("module globals, class attributes, defaults, memoised results", "all modules")],
     technique=("interprocedural effect analysis plus ambient-source scan", "All writes reaching objects that outlive a call, all process-setting calls and all reads of ambient inputs are enumerated and must be absent."))
prop("C05", "A cached result equals the freshly computed one",
     "Whenever an object or function returns a remembered value instead of computing it, that value is the one a fresh computation with the present arguments, receiver and configuration would give. In particular a cache filled for one argument, factor orientation, norm, time step or tolerance is never served for another.",
     ["histories", "configurations", "inputs"],
     "for every order in which the variants of a cached query are requested",
     "A test requests one variant per object; a stale or wrongly keyed entry needs two different requests to the same object in one particular order.",
     ["src/probnum/linops/_linear_operator.py", "src/probnum/randvars/_random_variable.py", "src/probnum/randvars/_normal.py", "src/probnum/randprocs/covfuncs", "src/probnum/randprocs/markov"],
     [("attribute caches", "linear operators: dense form, factorisations, spectra, norms"), ("memoised methods and properties", "functools-decorated functions")],
     technique=("dependence (backward-slice) analysis of every memo", "For each stored memo value the set of inputs it depends on is computed; each must occur undistorted in the key or be re-tested before the value is returned."))
prop("C06", "Configuration settings are exactly scoped",
     "Options set through a configuration context hold inside it and, however it is left (normally, by an exception in its body, or because an option was rejected), every option has again the value it had on entry; contexts nest. Library code itself never changes an option, never freezes an option's value at import time and never hands control back to the caller while inside a context of its own.",
     ["configurations", "histories", "fault_sequences"],
     "for every set of options, every nesting of contexts and every point at which the body of a context may raise",
     "Tests enter one context and leave it normally; restoring after failures, falsy old values, nesting and rejected options are combinations they do not visit.",
     ["src/probnum/_config.py"],
     [("context manager and option registry", "probnum.config"), ("readers of options", "all modules")],
     technique=("must-pass-through path rules on the control-flow graph", "Every path from installing an option to any exit of the context passes the restoring loop; value provenance of what is restored; package-wide rule on who may write or read options when."))
prop("C11", "Every option the caller sets reaches the computation it names",
     "Each parameter of a public function, method or constructor, and each documented key of an option dictionary, influences the result as the option it names: it is never silently ignored, dropped on the way to the routine that implements it, exchanged with another option, overwritten by a fixed value or clamped. A keyword that no implementation understands is not swallowed.",
     ["configurations", "inputs", "programs"],
     "for every public entry point, every combination of non-default options and every internal call through which an option travels",
     "Tests mostly run with default options, so a dropped tolerance, implementation choice or limit leaves every result they check unchanged.",
     ["src/probnum"],
     [("user entry points", "probsolve_ivp, perturbsolve_ivp, bayesquad, bayesquad_from_data, multilevel_bayesquad_from_data, problinsolve, linear solvers"), ("options kept by components", "step rules, stopping criteria, filters, transitions, policies")],
     technique=("interprocedural influence analysis (backward slicing)", "A parameter must be in the backward slice of an output; constructor options must be read by a method; per call site, same-named parameters must be forwarded and not crossed."))
prop("C13", "Every linear operator behaves as one single matrix",
     "All views of a linear operator describe the same matrix: products with vectors and matrices, dense form, transpose, inverse, solve, trace, diagonal, determinant, rank, Cholesky factor, symmetrisation, negation and casts agree with each other. Sums, differences, scalings and products of operators, in every combination of operator kinds and operand order, denote the corresponding matrix expression.",
     ["inputs", "programs"],
     "for all operator kinds, all operand combinations of the binary operations and all matrices",
     "Tests sample a few small, mostly symmetric or commuting matrices per operator kind; wrong order, a missing transpose or a wrong exponent is exact on those and wrong on others.",
     ["src/probnum/linops"],
     [("operator classes", "probnum.linops.LinearOperator and subclasses"), ("binary operations", "probnum.linops arithmetic registry and fallbacks")],
     technique=("value numbering with normal forms of matrix expressions", "Each method's returned value is a dataflow term over constructor arguments; term and the reference for the denoted matrix are reduced to a canonical form of matrix words and compared under every combination of branch conditions."))

prop("C15", "Gaussian transitions predict and condition by the exact formulas",
     "Predicting a Gaussian through a transition returns exactly the mean, covariance, cross-covariance and gain of the linear-Gaussian formulas, with the diffusion scaling the noise covariance, and conditioning backwards returns exactly the conditional moments. Classic, square-root and Joseph implementations, realisation and random-variable entry points, preconditioned integrator priors, discretised and moment-equation SDEs and linearised models all agree with these formulas. Every Gaussian built with both a covariance and a Cholesky factor has a factor whose square is that covariance.",
     ["inputs", "programs"],
     "for all transition matrices, noise models, diffusions, step sizes, dimensions and all combinations of implementation options",
     "Tests compare implementations on a few symmetric, zero-shift or unit-diffusion examples where a missing diffusion factor, transpose or shift cancels.",
     ["src/probnum/randprocs/markov", "src/probnum/filtsmooth/gaussian/approx", "src/probnum/utils/linalg"],
     [("discrete transitions", "probnum.randprocs.markov.discrete.LinearGaussian and relatives"), ("integrators", "probnum.randprocs.markov.integrator transitions"), ("SDEs", "probnum.randprocs.markov.continuous.LTISDE, LinearSDE"), ("linearisation", "probnum.filtsmooth.gaussian.approx components")],
     technique=("value numbering with normal forms of matrix expressions", "Returned moments are dataflow terms; square-root code is read through Gram matrices of the QR input; nested models are replaced by their own checked formulas (assume-guarantee); terms are compared with the closed-form references in canonical form under all branch conditions."))

prop("C14", "Operations on random variables have the exact law of their result",
     "Adding, subtracting, scaling, multiplying, negating, indexing, reshaping and transposing random variables returns a variable whose mean, covariance, Cholesky factor and samples are those of the transformed variable; an operand order or operand kind without an exact rule falls back to the generic one instead of giving a different law. Densities, distribution functions, quantiles, entropies and moments of Gaussian, constant, categorical and wrapped distributions are those of their parameters, and samples have the requested size in front of the variable's shape.",
     ["inputs", "programs"],
     "for all means, covariances (dense, Kronecker, symmetric Kronecker, scalar), constants, operand orders and cached or uncached Cholesky factors",
     "Tests draw a few operands, mostly with symmetric or diagonal data, and check that results run or have the right shape; a wrong sign, order, transposition or stale factor in one operand kind leaves those intact.",
     ["src/probnum/randvars"],
     [("operators and their rules", "probnum.randvars arithmetic registry"), ("distributions", "probnum.randvars.Normal, Constant, Categorical and the SciPy wrapper"), ("transformations", "RandomVariable indexing, reshape, transpose, unary operators")],
     technique=("value numbering with normal forms of matrix expressions", "Every arithmetic rule, density, moment and transformation is reduced to a dataflow term over the operands' parameters for each combination of operand kinds and compared in canonical form with the law it must have."))

prop("C09", "Every estimate combines the quantities of its own time step",
     "Filtering, smoothing, interpolation, posterior and process sampling, particle filtering and ODE dense output combine, for each step, the state, observation, measurement model, diffusion, random draw, start time and step length that belong to that very step, and store each result next to its own time point. At a stored time point the stored state is returned; between, before and after stored points the state is predicted from the nearest earlier one and, for smoothing, conditioned on the nearest later one. Particle weights accumulate the likelihood of every observation until resampling resets them.",
     ["inputs", "histories"],
     "for all grids, query times (below, on, between and above the stored points, single or in any batch), diffusions and numbers of observations",
     "Tests use equispaced grids, autonomous models and constant diffusions, where a shifted index, a neighbouring diffusion or the wrong time point changes nothing.",
     ["src/probnum/filtsmooth", "src/probnum/diffeq", "src/probnum/randprocs/markov"],
     [("recursions", "Transition.smooth_list, jointly_transform_base_measure_realization_list_*"), ("filters", "probnum.filtsmooth.gaussian.Kalman, probnum.filtsmooth.particle.ParticleFilter"), ("posteriors and dense output", "probnum.filtsmooth TimeSeriesPosterior subclasses, probnum.diffeq ODESolution subclasses"), ("diffusions", "PiecewiseConstantDiffusion, ConstantDiffusion")],
     technique=("value numbering over order types of time points", "Loops over symbolic grids are unrolled, comparisons and searches are decided by the order type of the time points, and each step's operands are compared with the defining recursion as dataflow terms."))

prop("C08", "ODE solvers advance exactly as their step control decides",
     "A solve starts at the initial time, never steps past the final time or a requested stop point, stops when the final time is reached, and records every accepted state once, after the callbacks have seen and possibly replaced it. An attempted step is accepted exactly when its error, relative to the absolute tolerance plus the relative tolerance times the magnitude of the state, is below one in the root-mean-square sense; the next step size follows from that error and the method's convergence rate, within the allowed change and size limits. A rejected attempt leaves no trace in the following attempts or in the recorded solution.",
     ["inputs", "histories"],
     "for all sequences of accepted and rejected attempts, suggested step sizes, stop points and callbacks",
     "Tests solve a few smooth problems in which steps are rarely rejected and never meet stop points or the end of the interval in every possible order.",
     ["src/probnum/diffeq"],
     [("solver loop", "probnum.diffeq.ODESolver.solve, solution_generator, perform_full_step"), ("step rules", "probnum.diffeq.stepsize.AdaptiveSteps, ConstantSteps"), ("attempts", "WrappedScipyRungeKutta, PerturbedStepSolver"), ("callbacks", "probnum.diffeq.callbacks.DiscreteCallback")],
     technique=("value numbering over order types of step sizes", "The solver loop is evaluated to dataflow terms for every relative order of suggested steps, remaining time and stop points, and compared with the defining control law; attempts are composed to show that a rejected one has no effect."))

prop("C17", "An ODE filter step is the calibrated extended Kalman step",
     "An attempted step predicts with the prior, measures the ODE residual with the zeroth- or first-order Jacobian at the new time, estimates the local diffusion and the local error from that measurement, and returns the Kalman update on zero data with covariances scaled by the calibrated diffusion. The diffusion is recorded only for accepted steps and at the end of the step; a constant diffusion is the running mean of the local estimates and scales all states afterwards, a piecewise constant one scales each step. The filter starts at the initial time from the stacked initial value, vector field and, if used, Jacobian-vector product.",
     ["inputs", "histories"],
     "for all priors, vector fields, step sizes, diffusion models and sequences of accepted and rejected steps",
     "Tests compare solutions with references at loose tolerances, where a wrong time, scale or covariance only changes the reported uncertainty.",
     ["src/probnum/diffeq/odefilter", "src/probnum/randprocs/markov/continuous"],
     [("step", "probnum.diffeq.odefilter.ODEFilter.attempt_step"), ("residual", "information_operators.ODEResidual, approx_strategies.EK0, EK1"), ("diffusion", "ConstantDiffusion, PiecewiseConstantDiffusion"), ("initialisation", "init_routines.Stack, StackWithJacobian")],
     technique=("value numbering against closed-form filter equations", "The returned state, error estimate and diffusion update are normalised in a matrix algebra and compared with the prediction, calibration and update formulas."))

prop("C16", "Covariance functions, functions and Gaussian processes have documented values",
     "Evaluating a covariance function at two points returns the documented kernel of its class with the given parameters, with the second argument omitted the value at two equal points, for points of any number type; sums, products and scalings of covariance functions and of functions, nested or not, combine the values pointwise. Kernel matrices and kernel operators hold the kernel of every pair of points, first points along rows and second points along columns, outputs before points, and the lazy, dense and matrix-free paths agree. A Gaussian process evaluated at points has the mean function's values and the kernel's values of those points, entry by entry in the same order.",
     ["inputs", "programs"],
     "for all parameters, input and output shapes, numbers of points, number types and nestings of sums, products and scalings",
     "Tests sample a few kernels with float inputs and scalar outputs; a wrong power, swapped axis, flattened sum or truncated number type only shows for other shapes, nestings or types.",
     ["src/probnum/randprocs", "src/probnum/functions"],
     [("kernels", "probnum.randprocs.covfuncs classes"), ("algebra", "sums, products and scalings of covariance functions and probnum.functions"), ("kernel matrices and operators", "CovarianceFunction.matrix, CovarianceFunction.linop"), ("Gaussian process", "probnum.randprocs.GaussianProcess")],
     technique=("value numbering with normal forms over array axes", "Evaluation, matrix and operator methods are reduced to dataflow terms in which every array axis carries its meaning (points, inputs, outputs); values are compared in canonical form with the documented kernel and entry formulas, for every class and for nested combinations."))

prop("C18", "Linear solvers act, observe, update and stop by the documented formulas",
     "A probabilistic linear solver checks its stopping criterion, chooses an action, observes, conditions its belief and advances, in this order, and actions, observations, residuals and the belief handed to each part are those of the current step. Conjugate-gradient directions, reorthogonalisation, unit-vector sampling probabilities, observations and belief updates over the solution, the matrix and its inverse (Gaussian, Kronecker and symmetric Kronecker) are the documented formulas, a direction without information changes nothing, and stopping criteria stop exactly when their documented condition holds. The symmetric matrix-based solver starts from the stated prior means and covariance factors, performs rank-two mean and rank-one covariance updates in every iteration, and returns the beliefs and the solution covariance induced by its last state, whatever the number of iterations.",
     ["inputs", "histories"],
     "for all systems, priors, actions, tolerances and numbers of iterations",
     "Tests solve small symmetric systems to convergence and check that the solution is close; a wrong previous residual, swapped factor, stale residual or wrong covariance still converges there.",
     ["src/probnum/linalg/solvers", "src/probnum/linalg/_problinsolve.py"],
     [("iteration and state", "probnum.linalg.solvers.ProbabilisticLinearSolver, LinearSolverState"), ("policies", "probnum.linalg.solvers.policies"), ("observations", "probnum.linalg.solvers.information_ops"), ("belief updates", "probnum.linalg.solvers.belief_updates"), ("stopping", "probnum.linalg.solvers.stopping_criteria"), ("matrix-based solver", "probnum.linalg.solvers.matrixbased.SymmetricMatrixBasedSolver")],
     technique=("value numbering with normal forms of matrix-vector expressions", "The solver loop and its parts are evaluated to dataflow terms for states after zero, one and two steps (later steps by replacing the loop-carried state with fresh symbols) and compared in a canonical form with inner and outer products; stopping decisions are compared as Boolean functions of normalised comparisons."))
prop("C20", "Bayesian quadrature conditions, chooses nodes and stops as documented",
     "The belief about an integral is the Gaussian-process posterior given all nodes and evaluations seen so far, however they were split into batches, with the estimated scale, and kernel means and variances are the exact integrals of the kernel against the measure. Acquisition values, the nodes proposed by each policy and initial design, measures and their samples, the combination of stopping criteria and each criterion's decision follow their documented formulas. Every iteration evaluates the integrand at the newly chosen nodes, counts them, keeps earlier data and beliefs, and the user interface hands data, kernel, measure and options to the parts they name, level by level for multilevel quadrature.",
     ["inputs", "histories"],
     "for all nodes, evaluations, batch splits, kernels, measures, tolerances and numbers of iterations",
     "Tests integrate a few functions and compare to loose tolerances, mostly with one batch, unit scale and one dimension; a wrong block, constant, previous belief or level goes unnoticed there.",
     ["src/probnum/quad", "src/probnum/_pnmethod/_stopping_criterion.py"],
     [("belief update", "probnum.quad.solvers.belief_updates.BQStandardBeliefUpdate"), ("kernel embeddings", "probnum.quad.kernel_embeddings.KernelEmbedding"), ("acquisition and policies", "probnum.quad.solvers.acquisition_functions, probnum.quad.solvers.policies"), ("stopping", "probnum.quad.solvers.stopping_criteria"), ("iteration", "probnum.quad.solvers.BayesianQuadrature"), ("user interface", "probnum.quad.bayesquad, bayesquad_from_data, multilevel_bayesquad_from_data")],
     technique=("value numbering with normal forms of formulas", "Updates, embeddings, acquisition values, policies, stopping decisions and the iteration are evaluated to dataflow terms and compared in a canonical form with Gaussian conditioning, with integrals of the kernels computed from their definition, and with the documented rules."))

prop("C21", "Shipped test problems are consistent with their definitions",
     "Every initial value problem in the collection has the documented vector field for its parameters, first and second derivatives that are the derivatives of that vector field, and an exact solution, where given, that satisfies the equation and the initial condition for any initial time. Every quadrature problem with a closed form has the documented integrand, the stated domain or Gaussian measure and the exact value of that integral for any dimension and parameters, and transforming one to a Gaussian measure preserves its value. Regression problems state the measurement model, locations, states and prior that generated their data with correct Jacobians, and random linear systems and matrices satisfy their defining equations.",
     ["inputs"],
     "for all parameters, initial values and times, points and (small) dimensions",
     "Tests check shapes and default parameters, where initial time zero, unit variance and symmetric defaults hide a wrong constant, sign, exponent or Jacobian entry; the problems are the yardstick for every solver.",
     ["src/probnum/problems"],
     [("initial value problems", "probnum.problems.zoo.diffeq"), ("quadrature problems", "probnum.problems.zoo.quad"), ("state space models", "probnum.problems.zoo.filtsmooth"), ("linear systems", "probnum.problems.zoo.linalg")],
     technique=("value numbering with symbolic derivatives of formulas", "Vector fields, Jacobians, integrands, solutions and right-hand sides are evaluated to dataflow terms, expanded entry by entry into rational functions of parameters and elementary functions, and compared with derivatives of each other, the inserted equation or the exact integral."))

prop("C19", "Iterated, merged and converted estimation problems keep every piece in place",
     "Iterated filtering and Gauss-Newton smoothing repeat the estimation of the same data linearised at the latest estimate, until the change of the mean over absolute plus relative tolerance times the magnitude of the mean is at most one in the root-mean-square sense, return the last estimate, and give up exactly when the allowed number of rounds is exceeded, leaving the criterion ready for the next use. Merging two regression problems, whatever the order of their locations, keeps the observation, measurement model and solution of each location together, and turning an initial value problem into a regression problem measures the initial value at the first location and the differential equation at the others with zero data and the stated noise. Lists of random variables stack moments in order, and inner products, induced norms and orthogonalisation follow their formulas for single vectors and batches, with and without a weighting matrix.",
     ["inputs", "histories"],
     "for all models, data, tolerances, interleavings of locations, vectors and weights",
     "Tests run a few problems to convergence with sorted locations, positive states and standard inner products, where a stale linearisation point, a permuted model, an unweighted norm or a negative tolerance is invisible.",
     ["src/probnum/filtsmooth/optim", "src/probnum/filtsmooth/utils", "src/probnum/diffeq/odefilter/utils", "src/probnum/utils/linalg", "src/probnum/randvars/_randomvariablelist.py"],
     [("convergence", "probnum.filtsmooth.optim.FiltSmoothStoppingCriterion"), ("iteration", "probnum.filtsmooth.optim.IteratedDiscreteComponent, probnum.filtsmooth.optim.GaussNewton"), ("merging", "probnum.filtsmooth.utils.merge_regression_problems"), ("conversion", "probnum.diffeq.odefilter.utils.ivp_to_regression_problem"), ("orthogonalisation", "probnum.utils.linalg")],
     technique=("value numbering of unrolled loops and array entries", "Loops are followed for zero to three rounds with the criterion's answer as the only unknown and the arguments of every round recorded; merged and converted problems, norms and projections are evaluated to dataflow terms and expanded entry by entry for all interleavings of a few locations, and compared with their definition."))

prop("C10", "No internal call, attribute or name can fail to resolve",
     "Wherever the package calls one of its own functions, methods or constructors, it passes arguments that the callee accepts, in every subclass that can be the receiver, and a method that overrides another accepts the calls the overridden one accepts. Every name that is read is bound, every attribute read from a module or from an object of the package's own classes exists, and tuples are unpacked into as many names as they have parts. No class that is instantiated lacks a required method.",
     ["programs", "inputs"],
     "for all branches of all functions and all subclasses that can be the receiver of a call",
     "Tests exercise the common branches with the common classes; a misspelled attribute or keyword in an error branch, a rarely chosen option or one subclass fails only for the user who reaches it.",
     ["src/probnum"],
     [("whole package", "every module of probnum"), ("class hierarchy", "overriding methods and abstract classes of probnum"), ("public modules", "names exported by every package")],
     technique=("name, attribute and call resolution over the class hierarchy", "Names are resolved through scopes and imports, receivers through annotations, constructors and the class hierarchy; each call is bound against the signature of every method that can be reached."))

prop("C22", "Solvers converge to the true solution at the promised accuracy",
     "As the number of nodes, steps or iterations grows, the returned means approach the true integral, solution or trajectory at the rate the method promises, and the requested tolerances are met by the true error.",
     ["inputs", "histories"],
     "for all problems satisfying the method's smoothness and conditioning assumptions",
     "Tests compare a few benchmark problems with references at loose tolerances.",
     ["src/probnum/diffeq", "src/probnum/quad", "src/probnum/linalg", "src/probnum/filtsmooth"],
     [("solvers", "probnum.diffeq.probsolve_ivp, probnum.quad.bayesquad, probnum.linalg.problinsolve")],
     na="The true error depends on the problem's smoothness, conditioning and rounding at run time; no sound static argument in reach bounds it. The formulas the convergence theory rests on are decided by C08, C13, C15, C17, C18 and C20.")

prop("C23", "Reported uncertainty is calibrated",
     "Over the class of problems described by the prior, the true solution lies within the reported credible sets as often as they claim.",
     ["inputs"],
     "for all problems drawn from the prior",
     "Tests look at single problems; calibration is a statement about frequencies.",
     ["src/probnum/diffeq", "src/probnum/quad", "src/probnum/linalg"],
     [("calibration", "diffusion and scale estimation")],
     na="A frequency over runs and problems is a run-time quantity; the calibration formulas themselves are decided by C17 and C20.")

prop("C24", "Results are accurate in floating-point arithmetic",
     "Covariances stay symmetric and positive semi-definite, factorisations exist and results lose at most a modest number of digits for well-conditioned inputs, however many steps are taken.",
     ["inputs", "histories"],
     "for all well-conditioned inputs, dtypes and numbers of steps",
     "Tests run a few well-scaled examples in double precision.",
     ["src/probnum"],
     [("square-root arithmetic", "probnum.utils.linalg, square-root transitions")],
     na="Rounding-error growth over matrix factorisations is not bounded by any dataflow argument here; the checks reason in exact arithmetic.")

prop("C25", "Particle filters approximate the filtering distribution",
     "The weighted particles converge to the filtering distribution as their number grows, for every importance distribution with full support and every resampling threshold.",
     ["inputs", "schedules"],
     "for all models, importance distributions, resampling thresholds and random streams",
     "Tests compare the error of one seeded run with a loose bound.",
     ["src/probnum/filtsmooth/particle"],
     [("particle filter", "probnum.filtsmooth.particle.ParticleFilter")],
     na="Convergence in distribution quantifies over random streams and particle numbers; weights, times and generators of a step are decided by C03 and C09.")

prop("C12", "Matrix properties an operator states are true",
     "Whenever an operator derived from others (sum, product, scaling, negation, transpose, inverse, Kronecker and symmetric Kronecker product, block-diagonal operator, symmetrisation) or a basic one (identity, scaling, zero) states that it is, or is not, symmetric, lower triangular, upper triangular or positive definite, its matrix has, or lacks, that property, for all operands whose own statements are true. What does not follow from the operands is left open. Deriving an operator never fails because more is known about the result than about the operand.",
     ["inputs", "histories"],
     "for all operands, statements about them and the order in which they are made",
     "Tests check a few operators with all or no properties stated; solvers choose triangular and Cholesky solves from these statements, so a wrong one silently gives a wrong solution.",
     ["src/probnum/linops"],
     [("composite operators", "probnum.linops: scaled, summed, multiplied, Kronecker, block-diagonal, inverse and transposed operators"), ("derivation", "LinearOperator.T, LinearOperator.symmetrize, LinearOperator.inv"), ("basic operators", "probnum.linops.Identity, Scaling, Zero")],
     technique=("abstract interpretation over stated properties", "Constructors and derivations are interpreted over the finite domain of stated properties (true, false, open) for every combination of operand statements; each resulting statement is compared with what the denoted matrix expression allows, with small matrices as counterexamples."))
