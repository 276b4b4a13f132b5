TECH = "static value-flow analysis: guarded normal forms over the compiler's SSA IR, compared with a specification body"
NOTE = ("Decides, from the IR of the current sources, that each listed entry point has the same guarded normal form as its specification for every argument "
        "(exact real arithmetic; rounding order is not compared). Trusts rustc's lowering, the analysis and the specification bodies; generic code is decided at the listed instantiations.")
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, quick, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, quick=quick, **kw))


CORE = "crates/aether_core/src/"
P("C01", "Vector and matrix arithmetic is the textbook operation in every form",
  "Every fixed-size vector and matrix operation (sum, difference, negation, scaling, division, dot, cross, outer and matrix products, transpose, norms, normalisation, angle, trace, constructors, conversions, iteration) returns the textbook result. All ownership forms of an operator agree with each other, for square and rectangular shapes and in both precisions. An out-of-range index or a wrongly sized collection panics instead of reading or returning another element.",
  ["inputs"], "all element values, indices and collection lengths; dimensions 1 to 18 and single larger ones (vectors to 100 components, products to 64 in the inner dimension), f64 and f32",
  "Tests multiply a few literal matrices; there are four hand-written ownership variants per operator and a size-dependent blocked product, and any one of them can go wrong for some shape or element while the sampled ones agree.",
  [CORE + "math/vector.rs", CORE + "math/matrix.rs", CORE + "math/algorithms.rs"],
  [("operator impls", CORE + "math/vector.rs, math/matrix.rs"), ("blocked and unrolled products", CORE + "math/algorithms.rs")],
  [["p01", "default"], ["p01", "nostd"]])
P("C02", "SIMD kernels equal the scalar operation and run only on CPUs that have them",
  "Every vectorised matrix product and dot product returns what the scalar definition returns for every element value, whichever kernel the dispatcher selects, and reads and writes only the operands' own elements, wherever they lie in memory. A kernel is entered only when run-time or compile-time detection established every CPU feature it was compiled for.",
  ["inputs", "configurations"], "all element values; every x86-64 kernel; detection results for SSE/AVX/FMA; default, no-FMA and AVX-targeted builds",
  "A test machine has one CPU, so it exercises one kernel of each family; wrong lanes, missing remainders or a missing feature test stay silent there and crash or corrupt elsewhere.",
  [CORE + "math/arch/x86/matrix_simd.rs", CORE + "math/arch/x86/vector_simd.rs", CORE + "math/matrix.rs", CORE + "math/vector.rs"],
  [("kernels", CORE + "math/arch/x86/*.rs"), ("runtime dispatch", CORE + "math/vector.rs, math/matrix.rs (is_x86_feature_detected, OnceLock)")],
  [["p02", "default"], ["p02", "nofma"], ["p02", "scalar"], ["p02", "nostd"], ["p02", "avx"], ["p02", "avxfma"], ["rule", "alignment"]],
  technique=TECH + "; guard analysis of calls into target-feature functions; alignment analysis of their memory accesses",
  rule_floor={"rule/alignment": 1000},
  assumptions=["ARM (NEON, DSP) kernels are not compiled for this target and are not analysed", "CPU-feature detection is deterministic within a process"])
P("C03", "Linear solvers satisfy their defining equation or report singularity",
  "For every square matrix and right-hand side, a returned solution satisfies A x = b (also for several right-hand sides), a returned inverse satisfies A X = X A = I, a returned LU factorisation satisfies P A = L U with the parity it claims, a returned Cholesky factor is the lower triangular factor with positive diagonal, and the determinant is the Leibniz value. A result is withheld (or the determinant is zero) exactly when partial pivoting meets a pivot no larger than the documented tolerance, or a leading pivot that is not positive for Cholesky; any other matrix is accepted.",
  ["inputs"], "all real matrix entries and right-hand sides; sizes 1 to 3 (Cholesky and substitution 1 to 4), both precisions; sizes 4 to 18, 20, 24 and 32 for matrices with known factors, rows in one long cycle and unknown column scales",
  "Tests solve a few well-conditioned systems; row-exchange bookkeeping, sign parity and the singularity threshold only matter for particular pivot orders that literals rarely hit.",
  [CORE + "math/matrix.rs", CORE + "numerical_methods/solvers/lu.rs", CORE + "numerical_methods/solvers/spd.rs"],
  [("determinant, inverse, inverse_gauss_jordan", CORE + "math/matrix.rs"), ("LU and Cholesky", CORE + "numerical_methods/solvers")],
  [["p03", "default"], ["p03", "nostd"]],
  assumptions=["3x3 Gauss-Jordan is decided for matrices that need each of the six row orders, with nonzero elimination factors; vanishing factors are decided at size 2"])
P("C04", "Reading serialized values returns what was written or fails cleanly",
  "Every serializable value written through either serialization framework reads back equal, element order included, for any content. Input with too few or too many elements, or with an element that does not decode, is rejected as an error, never panics or yields a partly read value, and the elements read before the failure are released exactly once.",
  ["inputs", "fault_sequences"], "all element values; vectors of 1 to 64 components and matrices up to 54 elements; every position at which the input ends or an element fails; quaternions, rotation matrices, Euler angles, positions and frame quantities",
  "Tests round-trip one vector; inputs that end early or fail half-way, and element types that own memory, are never tried, and a leak or a double release gives no visible failure.",
  [CORE + "math/vector.rs", CORE + "math/matrix.rs", CORE + "attitude/quaternion.rs", CORE + "coordinate/cartesian.rs", CORE + "reference_frame/"],
  [("Serialize, Deserialize, Encode, Decode", CORE + "math/vector.rs, math/matrix.rs")],
  [["p04", "default"]])
P("C05", "Coordinate conversions are the textbook maps and invert each other",
  "Conversion between Cartesian, cylindrical and spherical coordinates is the textbook map for every point, including the origin, and going there and back (directly or through the third system) returns the original point wherever the angles are defined. Cartesian vector arithmetic, indexing and iteration act componentwise and identically in every ownership form. Frames fixed to a body or an assembly keep the mass centre and the lever arm they are given.",
  ["inputs"], "all component values, f64 and f32; scalars, exponents and indices",
  "Tests convert a few points; a swapped angle, a missing quadrant or a lost axis only shows for particular octants, and round trips sampled there still agree.",
  [CORE + "coordinate/cartesian.rs", CORE + "coordinate/cylindrical.rs", CORE + "coordinate/spherical.rs", CORE + "reference_frame/body.rs", CORE + "reference_frame/asm.rs"],
  [("From conversions", CORE + "coordinate/*.rs"), ("operator impls", CORE + "coordinate/cartesian.rs")],
  [["p05", "default"], ["p05", "nostd"]],
  assumptions=["reduction of trigonometric functions of inverse trigonometric functions uses exact real identities"])
P("C06", "Every attitude representation follows one passive convention",
  "Quaternions, direction cosine matrices, 3-2-1 Euler angles and rotations describe the same passive source-to-target transform: converting between any two of them, rotating a vector with any of them, chaining, inverting and integrating them all agree for every attitude. Named frame transforms are proper rotations with the stated axes and angles, and opposite directions are inverses of each other.",
  ["inputs"], "all quaternions (nonzero), matrices, angles, vectors, rates and time steps",
  "Tests rotate a vector or two about one axis; a transposed matrix, a reversed product or a wrong branch in the matrix-to-quaternion conversion agrees with them there and differs for general attitudes.",
  [CORE + "attitude/quaternion.rs", CORE + "attitude/dcm.rs", CORE + "attitude/euler.rs", CORE + "attitude/rotation.rs", CORE + "reference_frame/transforms.rs", CORE + "reference_frame/itrf.rs", CORE + "utils/angle_conversion.rs"],
  [("passive convention", CORE + "attitude/quaternion.rs rotate_vector, Mul"), ("conversions", CORE + "attitude/*.rs From/TryFrom impls"), ("frame transforms", CORE + "reference_frame/transforms.rs")],
  [["p06", "default"], ["p06", "nostd"]],
  assumptions=["matrix-to-quaternion is decided for unit quaternions with some squared component above 1/16, which every unit quaternion has", "half angles are decided with the angle written as 2h"])
TIME = "crates/aether_time/src/"
POLY = "; integer guards decided in a polyhedral domain with wrap-around counts"
P("C11", "Durations and instants keep one normal form and add exactly",
  "Every duration or instant built or computed by the library stands for the exact integer number of nanoseconds that was asked for, and its fractional part lies in [0, 1 s), also for negative lengths. Sums, differences, comparisons and equality agree with that integer number.",
  ["inputs"], "all 64-bit second, millisecond, microsecond and nanosecond counts and all instants whose total fits the seconds range",
  "The crate has no tests; the carries between seconds and nanoseconds differ only for negative lengths and at the carry boundary.",
  [TIME + "time/duration.rs", TIME + "time/time.rs"], [("Duration constructors and arithmetic", TIME + "time/duration.rs"), ("Time arithmetic and ordering", TIME + "time/time.rs")],
  [["p11", "default"]], technique=TECH + POLY)
P("C12", "Time scales, tick clocks and GPS weeks are mutually consistent",
  "Converting an instant between UTC, TAI, GPS and Unix time shifts it by exactly the scale offsets for the configured leap seconds, and every opposite pair of conversions cancels. Tick counters become elapsed whole seconds and truncated nanoseconds also across counter wrap-around. A GPS week number resolves to the week nearest the hint, with the second of week in range.",
  ["inputs", "histories"], "all instants; leap-second counts within 1000; all tick counts and rates; all week hints",
  "The crate has no tests; offsets with the wrong sign cancel in a round trip, and counter or week roll-over happens after years of operation.",
  [TIME + "time/time.rs", TIME + "time/mission.rs", TIME + "time/gps.rs"], [("conversions", TIME + "time/time.rs"), ("tick clocks", TIME + "time/mission.rs"), ("GPS week", TIME + "time/gps.rs")],
  [["p11", "default"]], technique=TECH + POLY)
P("C13", "Calendar dates follow the proleptic Gregorian calendar in both directions",
  "The UTC date and time of day of an instant are those of the proleptic Gregorian calendar, before and after 1970 and for negative years, and the instant of a date is the matching day count.",
  ["inputs"], "all instants of sixteen 400-year cycles for the date (from -4800 to 2800, 9600 to 10400, and at one million and at both ends of the range of years), all instants within 60 quadrillion seconds for the time of day, all i32 years for the instant of a date",
  "The crate has no tests; leap-century rules and dates before the epoch are wrong for days that nobody samples.",
  [TIME + "time/time.rs", TIME + "time/schedule.rs"], [("to_utc_datetime, from_utc_datetime", TIME + "time")],
  [["p11", "default"]], technique=TECH + POLY,
  assumptions=["the Gregorian specification is the closed-form day count of a 400-year cycle starting on 1 March"])
P("C14", "Timers, alarms and schedules fire exactly when due",
  "A one-shot alarm or schedule fires at the first check at or after its instant and never again; hourly, daily and yearly schedules advance to the first matching instant strictly after the check; a periodic timer or interval schedule fires when its period has elapsed and carries overshoot over. No period, however degenerate, makes a check hang.",
  ["inputs", "histories"], "all alarm and check instants over up to nine consecutive checks; all schedules and reference instants; all whole-second periods below 1 000 000 s with up to three periods overdue, and some fixed periods with dozens overdue",
  "The crate has no tests; skipped or repeated occurrences need particular histories of checks, instants before 1970 or late checks.",
  [TIME + "time/schedule.rs", TIME + "time/mission.rs"], [("TimerEvent, TimerSet, UtcAlarm, UtcSchedule", TIME + "time")],
  [["p11", "default"]], technique=TECH + POLY,
  assumptions=["sequences of up to a dozen checks; later checks start from a state the earlier obligations cover"])
P("C07", "Quantities of different frames, scales or units never mix",
  "A program that adds, subtracts, compares, converts or transforms quantities tagged with different reference frames, time scales, representations or units of measure is refused by the compiler, and so is one that multiplies matrices of unequal inner dimension, while the same program with matching tags is accepted. No tag can be changed except through the named conversions.",
  ["programs"], "every ordered combination of the library's tags in every operator and conversion the tagged types offer",
  "A test that must not compile is not a test the suite can run; one generous generic bound silently lets values of different frames or scales mix and every existing test still passes.",
  [CORE + "coordinate/cartesian.rs", CORE + "attitude/", CORE + "reference_frame/", "crates/aether_time/src/time/", "crates/aether_units/src/", CORE + "math/"],
  [("phantom tags", CORE + "coordinate/cartesian.rs, attitude/*.rs, reference_frame/*.rs"), ("time scales", "crates/aether_time/src/time"), ("units of measure", "crates/aether_units/src")],
  [["rule", "tags"]], technique="type-level witnesses: generated violating programs that the compiler's type checker must refuse, each beside a matching program it must accept",
  note="Decided by the type checker for the enumerated operators and tag combinations on the current sources; operators or types added later are not enumerated.",
  rule_floor={"rule/tags": 23163}, explanation="Each obligation is one witness program checked by the compiler's type checker and never run: it must be refused when its tags differ and accepted when they match.")
P("C08", "Integrators and Newton iteration follow their textbook schemes",
  "A Runge-Kutta step of a vector, coordinate or Euler-angle state evaluates the derivative at the four classical stages and combines them with weights 1-2-2-1; Euler and trapezoidal increments are the rate (or mean rate) times the step. Newton's method answers only with an iterate whose last step was below the tolerance, and refuses a zero slope or an exhausted iteration budget.",
  ["inputs", "programs"], "all states of 1 to 33 components (not every number), steps and derivative functions (opaque); Newton for iteration budgets 0 to 3, 6 and 8 of any function and to 50 of a linear one, all tolerances and guesses",
  "Tests integrate one smooth equation to a tolerance, which a wrong stage or weight can still meet; the user's derivative function is unknown.",
  [CORE + "numerical_methods/integration/rk4.rs", CORE + "numerical_methods/integration/euler.rs", CORE + "numerical_methods/integration/trapezoidal.rs", CORE + "numerical_methods/solvers/newton.rs"],
  [("Rk4Integrate, EulerIntegrate, TrapezoidalIntegrate", CORE + "numerical_methods/integration"), ("NewtonRaphson::solve", CORE + "numerical_methods/solvers/newton.rs")],
  [["p08", "default"], ["p08", "nostd"]])
P("C09", "Scalar mathematics means the same in std and no_std builds",
  "Every scalar operation, constant and conversion of the number abstraction is the standard mathematical one for every precision, and a build with the standard library and one without it agree on it for every argument, including zeros, ties and not-a-number.",
  ["inputs", "configurations"], "all scalar arguments and integer powers; single and double precision, and half and quadruple precision of the nightly build; with and without the standard library",
  "The test suite is built with one feature set, so the other backend is never executed; special arguments are not sampled.",
  [CORE + "real/real.rs", CORE + "real/std_impl.rs", CORE + "real/no_std_impl.rs"],
  [("Real for f32/f64", CORE + "real/std_impl.rs, real/no_std_impl.rs"), ("RealCast", CORE + "real/real.rs")],
  [["p08", "default"], ["p08", "nostd"], ["p08", "half"], ["p08", "halfnostd"]],
  assumptions=["the elementary functions of libm and of std denote the same mathematical function; their last-bit rounding is not compared"])
P("C10", "Tensor indices address exactly the row-major element",
  "A multi-index of a rank-3 or rank-4 tensor or of a tensor view reads and writes exactly the element it names in row-major order, and no other; the flat view has every element once in that order. An index outside a fixed-size tensor is rejected.",
  ["inputs"], "all indices and element values at the listed shapes; views with arbitrary data and shape of rank 0 to 8",
  "There are no tests; a transposed stride agrees on cubes and on the first row.",
  [CORE + "math/tensor.rs"], [("Index impls, as_flat, TensorView", CORE + "math/tensor.rs")],
  [["p08", "default"], ["p08", "nostd"]])
P("C15", "The random generator is the documented sequence and stays in range",
  "For every seed the generator produces the xorshift64* sequence of that seed (zero replaced by a fixed nonzero seed), so equal seeds replay equal streams and every draw advances the state by a fixed number of steps. Uniform reals lie in [0, 1) in both precisions, and normal variates are the Box-Muller transform of two uniforms.",
  ["inputs", "histories"], "all 64-bit seeds for up to 17 consecutive draws of every kind; streams of 40 draws from fixed seeds",
  "Tests draw a few values from one seed; the values that round up to one in single precision occur once in many millions of draws.",
  ["crates/aether_rand/src/randomizers/xor_shift.rs"], [("XorShift64Star", "crates/aether_rand/src/randomizers/xor_shift.rs")],
  [["p15", "default"]], assumptions=["narrowing to single precision is monotone rounding to nearest"])
P("C16", "Interpolants reproduce their samples and their defining curve",
  "Linear interpolation, its inverse and remapping are mutually consistent; the polynomial interpolant of n samples is the unique polynomial of degree n-1 through them; the cubic spline is the natural cubic spline: a cubic in each segment with matching slopes and curvatures that passes through every sample and extrapolates with the end segments. Sample sets with duplicate or unordered abscissae are rejected, and evaluation never fails.",
  ["inputs"], "all sample abscissae, ordinates and evaluation points; 1 to 4 samples, up to 33 at fixed unequal abscissae",
  "Tests evaluate a quadratic and a straight line; a wrong weight or curvature vanishes on those.",
  ["crates/aether_interp/src/lerp.rs", "crates/aether_interp/src/polynomial.rs", "crates/aether_interp/src/spline.rs"],
  [("barycentric evaluation", "crates/aether_interp/src/polynomial.rs"), ("natural spline", "crates/aether_interp/src/spline.rs")],
  [["p16", "default"]], assumptions=["sample counts up to 4 with free abscissae; evaluation points within machine epsilon of a polynomial knot return the knot value"])
P("C17", "Optimisers stay in their box and report a point, value and status that agree",
  "Starting inside its bounds a gradient descent (fixed step, backtracking or stochastic) never leaves them, the reported value is the objective at the reported point, the iteration count is within the limit and never below the configured minimum when convergence is claimed. Each iteration is the documented one: a step against the (batch-averaged) gradient plus momentum, scaled by the step size or its decay schedule, projected on the box, with the Armijo rule deciding backtracking; convergence is claimed exactly when a tolerance is met, and settings are clamped to meaningful ranges.",
  ["inputs", "programs"], "all objectives, gradients and gradient samplers (opaque functions); all starting points, bounds, step sizes, momenta and tolerances; up to two iterations of any objective, and up to 40 for constant gradients",
  "Tests minimise quadratics with default settings; projection, tolerance and momentum errors still converge there.",
  ["crates/aether_opt/src/gradient_descent/basic.rs", "crates/aether_opt/src/gradient_descent/stochastic.rs"],
  [("GradientDescentGeneric::minimize", "crates/aether_opt/src/gradient_descent/basic.rs"), ("GDStochastic::minimize", "crates/aether_opt/src/gradient_descent/stochastic.rs")],
  [["p15", "default"]], assumptions=["up to 9 dimensions", "backtracking is decided for the first accepted or once-shrunk step and for exhausted step sizes"])
P("C18", "Parallel descent gives the same result under every schedule",
  "The parallel stochastic descent follows the documented recurrence: each worker draws its share of the batch from its own stream, derived from the seed, the iteration and its number, the mean gradient moves the point with decayed rate, momentum and projection, and the stopping rules apply to the corrected gradient average, the step and the value. The result does not depend on the order in which workers run or finish, to the last bit.",
  ["schedules", "inputs"], "every seed, point, rate, decay, momentum, box and tolerance; batches of 1 to 300 samples over 1 to 64 workers (not every count), up to three iterations, 40 for constant gradients; workers run as started, or all at the end in reverse",
  "A test run sees one interleaving on one machine; a sum that follows completion order, a shared generator or a lost remainder of the batch still converges.",
  ["crates/aether_opt/src/gradient_descent/stochastic_parallel.rs"], [("GDStochasticParallel::minimize", "crates/aether_opt/src/gradient_descent/stochastic_parallel.rs")],
  [["p18", "default"]], technique=TECH + "; threads replaced by a model with chosen schedules; rounding of sums kept apart",
  assumptions=["threads are modelled: a spawned closure runs as a whole, either when started or with all others at the end in reverse order; the type system already excludes unsynchronised sharing", "counts of workers, samples and iterations beyond those listed are not decided"])
P("C19", "Results depend on nothing but the arguments",
  "Every library computation is a function of its arguments: given the same inputs it returns the same result in every call, thread, process and order of calls. Nothing reads a clock, the environment, thread or process identity, addresses, hashing order or entropy, or remembers anything from one call to the next; the only exceptions are the explicit leap-second setting, the choice between equivalent processor kernels, the default number of workers, files named by the caller, and the one operation that asks for a random colour.",
  ["histories", "schedules"], "every function of the numerical, modelling, time, unit, statistics and catalogue libraries; any history of earlier calls",
  "A repeated run in a fresh process with one call order looks deterministic; a hidden cache, counter, clock or hash order only shows after another history or on another machine.",
  ["crates/"], [("shared state", "crates/aether_time/src/time/time.rs, crates/aether_core/src/math/vector.rs"), ("seeded generators", "crates/aether_rand/src/randomizers")],
  [["rule", "ambient"]], technique="effect analysis over the compiler's MIR of every function of the library crates: sources of ambient state, mutable statics and who can reach a store to them",
  note="Decides, from the MIR of the current sources, that no function of the library crates touches a source of ambient state outside the audited list. Closures and callbacks given by the caller are the caller's.",
  rule_floor={"rule/ambient": 1600}, explanation="Each obligation is one function or static of the library crates: its MIR mentions no source of ambient state other than the audited ones, and only plain setters reach a store to a shared static.",
  assumptions=["the library is analysed with its std, simd, fma and serialization features on x86-64", "third-party crates (csv, rkyv, serde, sha2) are trusted to be deterministic"])
P("C20", "Statistics are the textbook estimators and densities",
  "Means, sample covariances, cross-covariances, standard deviations, correlations and maximum-likelihood fits are the textbook estimators of their samples, and densities and mass functions are the textbook ones, with the one-dimensional multivariate normal equal to the univariate one. Converting between covariance and correlation loses nothing, and empty, too short or mismatched samples and zero-variance axes are reported as such.",
  ["inputs"], "all sample values, means, deviations and covariances; 0 to 33 samples of dimension 1 to 8, means and frequencies of up to 300 (not every combination)",
  "Tests use one tiny data set per estimator; a biased divisor, a transposed cross-covariance or a lost normalisation constant agrees there or is not observed.",
  ["crates/aether_stats/src/covariance.rs", "crates/aether_stats/src/distributions/gaussian.rs", "crates/aether_stats/src/distributions/multivariate.rs", "crates/aether_stats/src/distributions/bernoulli.rs", "crates/aether_stats/src/distributions/categorical.rs"],
  [("estimators", "crates/aether_stats/src/covariance.rs"), ("distributions", "crates/aether_stats/src/distributions")],
  [["p20", "default"]])
P("C21", "Model training follows the gradient of the stated loss",
  "One training epoch, and one optimiser step of every fit, moves the parameters by the learning rate against the gradient of that model's stated loss (squared error, ridge, cross-entropy, hinge with its regulariser, perceptron) averaged over the data, with the intercept not regularised. The loss that the line search judges is the one whose gradient is used, and training on no data changes nothing.",
  ["inputs"], "all parameters, learning rates, regularisation weights, features and labels; one to five samples of one to three features; some of up to 40 samples or nine features",
  "Tests fit separable toy data until it classifies; a wrong weight, a missing average or a loss that does not belong to its gradient still gets there.",
  ["crates/aether_ml/src/regression/linear.rs", "crates/aether_ml/src/regression/ridge.rs", "crates/aether_ml/src/regression/logistic.rs", "crates/aether_ml/src/classification/svm.rs", "crates/aether_ml/src/classification/perceptron.rs"],
  [("train_epoch, fit_with_optimizer", "crates/aether_ml/src")],
  [["p20", "default"]], assumptions=["the regularisation weight of the SVM epoch is 2/(m C) as its comment states, that of the SVM fit 1/C"])
P("C22", "Classifiers fit class moments and choose the largest score",
  "Linear models predict the affine function of the features, logistic regression its sigmoid, and labels are the sign or the half threshold. Naive Bayes and discriminant analysis fit the class frequencies, means and variances of the labelled samples, give empty classes zero weight, and predict the class whose log posterior is largest.",
  ["inputs"], "all parameters, samples and features; up to twelve classes and 20 samples, one or two features (twelve for linear scores)",
  "Tests classify a handful of well separated points, where priors, variances and normalisation terms make no difference.",
  ["crates/aether_ml/src/classification/lda_qda.rs", "crates/aether_ml/src/classification/naive_bayes.rs", "crates/aether_ml/src/classification/perceptron.rs", "crates/aether_ml/src/regression/logistic.rs"],
  [("fit and predict", "crates/aether_ml/src")],
  [["p20", "default"]], assumptions=["labels are below the number of classes", "covariances above the singularity threshold"])
SH = "crates/aether_shapes/src/"
P("C23", "Composite bodies have the mass properties of mechanics",
  "Joining two posed solids, or cutting one out of another, yields the total volume, mass and density, the mass-weighted centre, and the inertia about that centre in the assembly frame: each solid's principal inertia turned into the assembly and shifted by the parallel-axis theorem. There is no result exactly when a volume, the net volume or the net mass is not positive. Sphere, cylinder and prism have their textbook volume and principal moments.",
  ["inputs", "programs"], "all solids (volume and moments are opaque functions), densities, poses and dimensions; unions and cavities through both interfaces, every tensor element",
  "Tests use solids on one axis with unturned poses, where a transposed rotation, a lost product of inertia or a wrong shift does not show.",
  [SH + "attributes.rs", SH + "sphere.rs", SH + "cylinder.rs", SH + "prism.rs", CORE + "reference_frame/pose.rs"],
  [("Add/Sub for MassModel, SolidOps", SH + "attributes.rs"), ("Solid for Sphere, Cylinder, RectangularPrism", SH)],
  [["p23", "default"]])
P("C24", "Tank limits and aggregates follow from the tank's shape",
  "A tank's capacity, usable volume and largest propellant mass follow from its shape, density and fill fraction with negative or excessive inputs limited to the meaningful range, and never fail. The mass and inertia of a set of tanks are the sums over its members, each with the principal inertia of its shape, where negative masses count as empty.",
  ["inputs"], "all shapes, dimensions, densities, masses and fill fractions; sets of 0 to 9 and of 17, 33 and 70 tanks",
  "Tests use two tanks with ordinary values; limits and mixed sets are not sampled.",
  ["crates/aether_fluids/src/lib.rs"], [("TankShape, PropellantTankSpec::limits, aggregate_*", "crates/aether_fluids/src/lib.rs")],
  [["p23", "default"]], assumptions=["the fill fraction is a number"])
P("C25", "Unit conversions scale by exactly their prefix",
  "Converting between a base unit and any of its prefixed units multiplies or divides by exactly that power of ten in the precision of the value, converting there and back returns the value, constructors keep the number they are given, and quantity arithmetic is that of the numbers.",
  ["inputs"], "all values; every prefixed unit of length, time and mass, both directions, both precisions; every constructor",
  "Tests compare in single precision with a tolerance that exceeds the error, only from prefixed to base and only for the value one.",
  ["crates/aether_units/src/si/si_prefix.rs", "crates/aether_units/src/si/si.rs", "crates/aether_units/src/base/units.rs"],
  [("si_prefixed_family", "crates/aether_units/src/si/si_prefix.rs"), ("Quantity", "crates/aether_units/src/base/units.rs")],
  [["p23", "default"]])
MO = "crates/aether_models/src/"
P("C26", "Frames of rotating bodies and the forces in them follow mechanics",
  "The Earth-fixed and Moon-fixed frames turn about the pole at the body's rate by exactly the time elapsed since their epoch; each transform equals the chain of its parts and is undone by its reverse. Coriolis, centrifugal, gravitational and gravity-gradient effects are those of mechanics for every state, and orbital period and mean motion are Kepler's.",
  ["inputs"], "all times, epochs, rates, orientations, positions, velocities, masses and inertia matrices",
  "Tests evaluate the frames at one time from epoch zero and check that forces are finite; a lost epoch, a transposed turn or a wrong sign passes.",
  [MO + "terrestrial/wgs84/transforms/mod.rs", MO + "terrestrial/earth.rs", MO + "lunar/transforms.rs", MO + "lunar/moon.rs", MO + "lunar/orbit.rs", CORE + "reference_frame/itrf.rs"],
  [("icrf_to_itrf, Earth", MO + "terrestrial"), ("Moon, lirf_to_ltrf", MO + "lunar"), ("RotatingFrame for ITRF", CORE + "reference_frame/itrf.rs")],
  [["p26", "default"]], assumptions=["physical constants are the ones the specification lists; the library's Moon transforms turn at the sidereal rate"])
P("C27", "Atmosphere models evaluate every layer and report what they exclude",
  "For every altitude, temperature, pressure and density are those of the layer that contains it (the published lapse rates, base values and profiles), obey the gas law together, and give the textbook speed of sound and viscosity. Altitudes above the model's range, and values that are no number, are reported as an error and never panic. Geometric and geopotential altitude undo each other and gravity falls with the inverse square.",
  ["inputs"], "all altitudes of both models, from minus infinity through every layer to infinity and NaN",
  "Tests sample a few altitudes of the lower layers; the upper layers, their boundaries and the range limit are never evaluated.",
  [MO + "terrestrial/atmospheres/isa.rs", MO + "terrestrial/atmospheres/ussa.rs", MO + "terrestrial/earth.rs"],
  [("ISA", MO + "terrestrial/atmospheres/isa.rs"), ("USSA", MO + "terrestrial/atmospheres/ussa.rs"), ("Earth getters", MO + "terrestrial/earth.rs")],
  [["p26", "default"]], assumptions=["above 86 km the pressure follows the library's own isothermal or gradient formula between the published base values"])
P("C28", "Geodetic conversions and normal gravity are those of the ellipsoid",
  "A geodetic position maps to the point at that height along the ellipsoid normal, and zero height lies on the ellipsoid. The inverse conversions return latitude, longitude and height of the same point, on the equator, at the poles and in between; normal gravity, its potential and its components in every coordinate system are the closed formulas of the ellipsoid.",
  ["inputs"], "all latitudes, longitudes, heights and positions",
  "Tests convert three cities and compare gravity at one latitude within a loose tolerance; the poles, the equator and heights are not sampled.",
  [MO + "terrestrial/wgs84/transforms/mod.rs", MO + "terrestrial/wgs84/gravity/mod.rs", MO + "terrestrial/wgs84/constants/mod.rs", MO + "terrestrial/earth.rs"],
  [("ecef conversions", MO + "terrestrial/wgs84/transforms/mod.rs"), ("gravity", MO + "terrestrial/wgs84/gravity/mod.rs")],
  [["p26", "default"]], assumptions=["the iterative conversion is decided on the equator, at the poles and, for every position, where it meets its tolerance after 1, 2, 3, 5, 8 or 12 refinements", "the closed-form conversion is compared with the published formula (Zhu 1993)"])
CAT = "crates/aether_catalogs/src/"
P("C29", "Magnetic model coefficients are the published ones at every date",
  "The coefficients of the geomagnetic model for a date are the published main-field value plus the published secular rate times the years since the epoch of the model, for every degree and order of the model; every other degree or order is zero, and no question about coefficients fails.",
  ["inputs"], "all dates; every degree 1..12 and order, and every degree or order outside",
  "Tests look up a few coefficients at the epoch, so a swapped row, a mistyped digit or a lost rate elsewhere in the table is never seen.",
  [CAT + "wmm/mod.rs", CAT + "wmm/wmm_generated.rs", "crates/aether_catalogs/catalog/wmm/WMM2025COF/WMM.COF"],
  [("coefficients_at", CAT + "wmm/mod.rs"), ("WMM_2025 table", CAT + "wmm/wmm_generated.rs")],
  [["p29", "default"]])
P("C30", "Magnetic field evaluation is the gradient of the model potential",
  "At every position and date the magnetic field is the negative gradient of the spherical-harmonic potential in geocentric coordinates, turned into local north, east and down by the difference between the geodetic and geocentric latitude; its rate of change is the same sum over the secular coefficients. Horizontal and total strength, declination, inclination and grid variation follow from it, and evaluation reports the poles and a vanishing field as errors instead of failing, for any requested degree.",
  ["inputs"], "all dates, latitudes, longitudes and heights; degrees 1, 2, 3 and the full 12, and degrees above the model's",
  "Tests compare a few published points within a tolerance; a wrong term of high order is far below it, and the poles and other degrees are not sampled.",
  [CAT + "wmm/mod.rs"], [("evaluate", CAT + "wmm/mod.rs")],
  [["p29", "default"]], assumptions=["the arcsine and square roots of the position are treated as opaque values, the same in implementation and specification"])
P("C31", "Star positions, motions and colours follow the catalogue definitions",
  "A star's direction, distance and velocity at an epoch follow from its right ascension, declination, parallax and proper motion (the motion in right ascension being the one on the sky), stars without a positive parallax are kept as directions, and the position uncertainty grows with the years since the epoch of the star's source. Colours and temperatures interpolate the published tables and stay within their ends.",
  ["inputs"], "all coordinates, parallaxes, motions, epochs, uncertainties and colour indices",
  "Tests take one star at the catalogue epoch; motion near the poles, other epochs and missing values are not sampled.",
  [CAT + "star_catalogs/mod.rs", CAT + "star_catalogs/color.rs"],
  [("icrs_sample, uncertainties", CAT + "star_catalogs/mod.rs"), ("bp_rp_to_teff, blackbody_to_rgb", CAT + "star_catalogs/color.rs")],
  [["p31", "default"]])
GR = "crates/aether_graphics/src/"
P("C32", "View, projection and camera turn scenes as a camera would",
  "The view transform moves the eye to the origin and looks along the negative depth axis with right to the right, keeping lengths and handedness; the perspective transform maps the near and far planes to the ends of the depth range and scales by the field of view and aspect. Turning the orbit camera by yaw and pitch moves its forward direction by just those angles, keeps its distance from the target and keeps its axes perpendicular.",
  ["inputs"], "all eyes, targets, up vectors, fields of view, planes, angles, distances and drags",
  "There are no tests of these transforms; a mirrored or transposed matrix still gives finite numbers.",
  [GR + "graphics/transforms.rs", GR + "cameras/orbit_camera.rs"],
  [("look_at, perspective, translate", GR + "graphics/transforms.rs"), ("OrbitCamera", GR + "cameras/orbit_camera.rs")],
  [["p32", "default"]])
AT = "crates/aether_test/src/assert/"
P("C33", "Comparison assertions pass exactly when everything is within tolerance",
  "The comparison helpers for vectors, matrices and functions succeed exactly when every compared pair lies within the tolerance, and otherwise name the first pair that does not; a NaN anywhere is a failure, never a match. The largest difference and the norms are those of the differences, the finiteness and symmetry assertions look at every element, and the grid assertion samples both ends.",
  ["inputs"], "all element values including NaN and infinities, all tolerances, all compared functions, intervals; shapes up to 3x2, 2x4 and length 4, grids of 1 to 3 steps",
  "A comparison helper that skips an element or lets NaN through makes every test that uses it pass; the tests of the helpers use one matching and one mismatching literal.",
  [AT + "vector.rs", AT + "matrix.rs", AT + "function.rs"],
  [("vector helpers", AT + "vector.rs"), ("matrix helpers", AT + "matrix.rs"), ("assert_max_abs_error_on_grid", AT + "function.rs")],
  [["p33", "default"]])
MO = "crates/aether_models/src/"
P("C34", "Published constants have their published values",
  "Every named physical and astronomical constant has the value its cited publication gives for it (the standard astronomical constants, the terrestrial conventions, the world geodetic system, the lunar and atmospheric constants), derived constants follow from the defining ones to their published digits, and constants given in two places agree. The bodies built from them carry those values.",
  ["inputs"], "every named constant of the models and the fields of the default bodies",
  "No test names a constant; one mistyped digit changes every result computed from it by a part in thousands to billions, below any test's tolerance.",
  [MO + "celestial/constants.rs", MO + "lunar/constants.rs", MO + "terrestrial/iers/constants.rs", MO + "terrestrial/wgs84/constants/mod.rs", MO + "terrestrial/earth.rs", MO + "terrestrial/atmospheres/ussa.rs"],
  [("angle and time constants", MO + "celestial/constants.rs"), ("lunar constants", MO + "lunar/constants.rs"), ("terrestrial conventions", MO + "terrestrial/iers/constants.rs"), ("world geodetic system", MO + "terrestrial/wgs84/constants/mod.rs")],
  [["p34", "default"]], assumptions=["the geodetic constants whose published digits are not determined by the others (the polar moment difference A_geo, the dynamical ellipticity H_geo and the century-dependent rotation rate w_star) are not claimed"])
P("C35", "A catalogue asked to be verified is only read when its digest matches",
  "A star catalogue loaded through a verifying loader is parsed only if the digest of the complete content of that same file equals the expected one, ignoring letter case, and fails otherwise; the loaders for the published release expect the digest of that release. A loader that succeeds has read to the end of the file and kept every row that could be read.",
  ["inputs", "histories"], "all file contents, sizes, read lengths, read errors and expected digests",
  "The catalogue is not in the repository, so no test loads one; a skipped last block or an ignored mismatch behaves the same on every file that is intact.",
  [CAT + "star_catalogs/mod.rs"],
  [("verify_catalog_checksum", CAT + "star_catalogs/mod.rs"), ("from_csv, from_csv_with_expected_sha256", CAT + "star_catalogs/mod.rs")],
  [["rule", "verified"]], technique="typestate analysis over the compiler's MIR of the loaders, path-sensitive and through local helpers: state of the reading loop and of the digest, origin of every compared and parsed value",
  rule_floor={"rule/verified": 5}, explanation="Each obligation is one loader: all paths through its MIR and that of its local helpers are walked over finite states (where each value comes from, whether every byte read so far went into the digest, whether the end of the file was seen, whether the complete digest compared equal with the expected one, whether a parsed row is still to be kept).", assumptions=["the file is not replaced between its verification and its parsing (the loaders open it twice)", "the digest, formatting and CSV libraries do what they document"])
VZ = "crates/aether_viz/src/"
P("C36", "A realtime plot shows every complete row of its file exactly once",
  "After any sequence of appends, rotations and truncations of the watched file, the plotted series hold exactly the finite values of the complete rows written since the last rotation, in order and up to the configured number of points; an incomplete last row is shown once it is completed.",
  ["histories", "inputs"], "all histories of the watched file and all poll times",
  "Tests append a fixed file in fixed pieces; a row cut at a poll, or a rotation between two polls, is a matter of timing.",
  [VZ + "realtime.rs"], [("parse_text_chunk, update_once", VZ + "realtime.rs")], [],
  na="the state is a growing file and text of unbounded length parsed by the standard library (line splitting, trimming, float parsing), and the series depend on where each poll cut the text: no static argument in reach relates them to the history of the file without executing it")
