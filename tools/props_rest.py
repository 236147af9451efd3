prop("C05", "Coefficients are owned, shared and sliced exactly as documented",
     "Setting coefficients copies them, wrapping makes the object use the caller's array so that later writes on either side are seen by the other, and a container's coefficients are the concatenation of its components' in order: writing to a container reaches each component exactly in its slice, and components whose coefficients were moved in or wrapped share the container's memory. A wrong number of coefficients is refused and changes nothing. Every evaluation uses the coefficients currently in force, however deep the nesting and whatever the order of sets, wraps, writes and constructions.",
     ["histories"], "all histories of construction, setting, wrapping and writing over nested containers; exhaustive on six small object graphs",
     "Tests set or wrap once and evaluate; aliasing errors need orders such as wrap, nest, set, write through a component.",
     ["src/ParameterizedFunctionBase.cpp", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp"],
     [("copy or reallocate", "ParameterizedFunctionBase::SetCoeffs"), ("wrapping and slicing", "TriangularMap/ComposedMap/SummarizedMap SetCoeffs, WrapCoeffs")],
     "Exhaustive TLC model of coefficient memory (CoeffMC) whose every transition is replayed on the code, plus random histories over deep structures; bounded by structure size.")
prop("C06", "A triangular map is exactly the stack of its components",
     "Output block k of a triangular map is component k evaluated at the leading inputs it takes, for any mix and nesting of component kinds and block sizes, in the given order. Its coefficient vector, input and coefficient gradients, log determinant and the gradients of that are the concatenations or sums of the components' ones, and its inverse given leading inputs and outputs is the block-by-block solution. Components that do not fit together are refused.",
     ["inputs"], "all stacks of monotone, affine, identity, summarized, composed and triangular components; all points, layouts and coefficients",
     "Tests use stacks of single-output monotone components; mixed blocks and nesting exercise other offsets.",
     ["src/TriangularMap.cpp"], [("row/column offsets per component", "TriangularMap::EvaluateImpl, GradientImpl, InverseImpl, LogDeterminant*")],
     "Random stacks compared point by point with the stack defined in MapAlg.tla; bounded sizes (<= 5 outputs, depth <= 3).")
prop("C07", "A composed map is the composition, whatever its checkpoint limit",
     "Evaluating, differentiating, taking log determinants and inverting a composition of any number of square layers gives the value of applying the layers one after the other, first layer first, and the chain rule applied to it. The limit on the number of stored intermediate states only affects memory and time: every limit gives the same results. Layers whose dimensions do not match are refused.",
     ["inputs", "schedules"], "all numbers of layers 1..6 (thorough 1..9), all checkpoint limits 0..layers+1, all layer kinds and nestings",
     "Tests try one or two depths with a few limits; a wrong checkpoint slot shows only for particular depth/limit pairs.",
     ["src/ComposedMap.cpp", "MParT/ComposedMap.h"], [("checkpointing schedule", "ComposedMap::Checkpointer"), ("adjoint sweep", "ComposedMap::GradientImpl, CoeffGradImpl, LogDeterminant*GradImpl")],
     "Every (depth, limit) pair in range is run against the definition in MapAlg.tla, which has no checkpoints.")
prop("C08", "Input and coefficient gradients are the derivatives of evaluation",
     "For every kind of function and map, option combination, coefficient vector, point and sensitivity, the input gradient equals the sensitivity times the Jacobian of evaluation with respect to the inputs, and the coefficient gradient the sensitivity times the Jacobian with respect to the coefficients. Both have one column per point.",
     ["inputs"], "all basis, linearization, bijector, quadrature and derivative options; all structures",
     "Tests finite-difference a few configurations at loose tolerances.",
     ["MParT/MonotoneComponent.h", "MParT/MultivariateExpansionWorker.h", "MParT/MultivariateExpansion.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp"],
     [("reverse-mode sweeps", "GradientImpl, CoeffGradImpl of every class")],
     "Exact derivatives derived in MapAlg.tla (themselves checked by TLC against difference quotients of the specification's values) compared with the code for every option combination; random points and coefficients.")
prop("C09", "Log determinants and their gradients are those of the map",
     "The log determinant of every map is the log of the absolute determinant of its Jacobian with respect to its last inputs, computed with the derivative (continuous or discrete) requested by the options, and its coefficient and input gradients are the derivatives of that value. Where the input gradient is not available for discrete derivatives it is refused.",
     ["inputs"], "all option combinations and structures, both derivative modes",
     "Tests check a few maps against finite differences, mostly with one quadrature and derivative mode.",
     ["MParT/MonotoneComponent.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/SummarizedMap.cpp", "src/AffineMap.cpp"],
     [("diagonal derivative", "MonotoneComponent::ContinuousDerivative, DiscreteDerivative"), ("mixed derivatives", "ContinuousMixedJacobian, DiscreteMixedJacobian, *InputJacobian")],
     "As C08, for the three log-determinant quantities.")
prop("C10", "Components are increasing in their last input and inversion undoes evaluation",
     "Each monotone component increases in its last input at least at the minimum slope, whatever its coefficients. For every map with an inverse, inverting the value of the map at the same leading inputs returns the point to solver tolerance, also for targets far away, for several targets sharing leading inputs, and whether or not full-length points are passed as leading inputs. No inverse changes the map.",
     ["inputs"], "all option combinations, coefficients, points, targets and array layouts",
     "Round trips are tested at a few points near the origin.",
     ["MParT/MonotoneComponent.h", "MParT/Utilities/RootFinding.h", "src/TriangularMap.cpp", "src/AffineMap.cpp"],
     [("bracketing and root search", "RootFinding::FindBracket, InverseSingleBracket"), ("shared cache per point", "MonotoneComponent::InverseImpl")],
     "Values along lines and inverses compared with the specified map: the returned point must bracket the target within the solver tolerance.")
prop("C11", "The value of a monotone component is the documented integral",
     "A monotone component's value is its expansion at zero last input plus the integral, from zero to the last input, of the positive transform of the expansion's last partial derivative plus the minimum slope. This holds for every basis, normalization, linearization interval, positive transform, quadrature rule and tolerance, multi-index set, coefficients and points, to the accuracy of the rule.",
     ["inputs"], "all 36 basis x linearization x bijector x rule combinations, random sets, coefficients, points, sizes and tolerances",
     "Tests compare one or two configurations with hand-computed values.",
     ["MParT/MonotoneComponent.h", "MParT/MonotoneIntegrand.h", "MParT/MultivariateExpansionWorker.h", "MParT/Quadrature.h"],
     [("integrand", "MonotoneIntegrand::operator()"), ("expansion caches", "MultivariateExpansionWorker::FillCache1/2, Evaluate"), ("rules", "Quadrature")],
     "Values recomputed in TLA+ from the definition: exactly the documented fixed rule, and a resolved integral for adaptive rules up to their tolerance.")
prop("C15", "A saved object loads as an independent equal copy",
     "Saving a monotone component, triangular map or nested stack and loading it back, alone or several in one stream, through either interface, gives objects with the same structure, options, coefficients (or absence of coefficients) and results as at the time of saving. Later changes to the original do not reach the copy nor the other way round, saving does not change the original, and objects without serialization refuse to be saved.",
     ["histories", "inputs"], "all option combinations, nested structures, coefficient states, several objects per stream",
     "Tests save and load one component and one map with default options.",
     ["src/ParameterizedFunctionBase.cpp", "MParT/MapFactory.h", "src/MapFactoryImpl/", "src/TriangularMap.cpp", "MParT/MonotoneComponent.h", "MParT/MultiIndices/FixedMultiIndexSet.h"],
     [("archives", "save/load/load_and_construct of every class"), ("factory registrations", "src/MapFactoryImpl/*.cpp")],
     "Snapshots in the specification; loaded objects are then checked like any other object, over all registered option combinations.")
prop("C20", "Factories build what their options say",
     "For every combination of basis, normalization, linearization interval, positive transform, quadrature, derivative mode and minimum slope, the component, expansion, total-order triangular map and single-entry map factories return an object of the requested dimensions, with the requested multi-indices in order, zero initial coefficients, and the behaviour its options specify. A single-entry map changes only its active coordinate; inconsistent dimensions are refused.",
     ["inputs"], "all option combinations (180 dispatch cases), dimensions and orders; single-entry maps of every dimension and position",
     "Tests build a handful of the dispatch combinations and look at dimensions.",
     ["src/MapFactory.cpp", "src/MapFactoryImpl/", "MParT/MapFactory.h"],
     [("dispatch tables", "MapFactory::CompFactoryImpl, ExpFactoryImpl"), ("single entry", "MapFactory::CreateSingleEntryMap")],
     "Every dispatch combination constructed and its values, gradients and log determinant compared with the specification built from the same options.")
prop("C21", "Results do not depend on batching, threads, memory layout or repetition",
     "For every map quantity and the inverse, the result at a point is the same alone, in a batch of any size including empty halves, in any order, in any memory layout of inputs and outputs (dense or strided views, matrices), with one or many threads, and when repeated. No computation changes coefficients, inputs, or memory outside its output.",
     ["schedules", "inputs"], "all map kinds and quantities, batch sizes up to 40, eight layouts, one and eight threads",
     "Tests evaluate one batch in one layout with the default number of threads.",
     ["MParT/MonotoneComponent.h", "MParT/MultivariateExpansion.h", "src/TriangularMap.cpp", "src/ComposedMap.cpp", "src/AffineMap.cpp", "MParT/Utilities/KokkosHelpers.h", "src/ParameterizedFunctionBase.cpp"],
     [("per-thread workspaces", "team-policy functors with scratch caches"), ("layout adaptation", "base class view and Eigen overloads")],
     "Nine ways of computing each quantity are compared with each other per trace event, with one and with eight threads; the specification also fixes the value elsewhere (C06-C11).")
prop("C12", "Bases and expansions equal their mathematical definitions",
     "Hermite polynomials, Hermite functions and their linearized variants, with their first and second derivatives, equal their definitions for every supported order, normalization, interval and argument, through every evaluation routine. A multivariate expansion's value, diagonal derivatives, coefficient gradients, input gradient and mixed derivatives are those of the weighted sum of products of one-dimensional basis functions over its multi-index set. Nothing outside the caller's arrays or cache is written.",
     ["inputs"], "three families, both normalizations, five linearization patterns, orders 0..20, points inside, at and outside the interval; random sets and coefficients",
     "Tests compare low orders at a few points, mostly in the interior of the linearization interval.",
     ["MParT/OrthogonalPolynomial.h", "MParT/HermiteFunction.h", "MParT/LinearizedBasis.h", "MParT/MultivariateExpansionWorker.h", "MParT/BasisEvaluator.h", "MParT/Utilities/MathFunctions.h"],
     [("recurrences", "OrthogonalPolynomial::EvaluateAll/EvaluateDerivatives/EvaluateSecondDerivatives"), ("extrapolation", "LinearizedBasis"), ("caches", "MultivariateExpansionWorker::FillCache1/2")],
     "Every routine compared with recurrences and derivatives defined in Basis.tla; sampled orders, intervals, points and sets.")
prop("C13", "Quadrature rules integrate as documented",
     "The fixed rule uses the Clenshaw-Curtis nodes and weights for every number of points and is exact for polynomials below that number. The adaptive rules return the sum over the accepted leaves of recursive bisection, where an interval is accepted when the error estimate in the chosen norm meets the tolerance or no subdivision is left, but never before the minimum level. They hold for scalar and vector integrands and for empty and reversed intervals, evaluate only inside the interval, and write only in the documented workspace.",
     ["inputs", "schedules"], "all rules, sizes, minimum and maximum levels, tolerances, four norms, three workspace modes, vector sizes; integrands forcing arbitrary refinement trees",
     "Tests integrate a few smooth functions with default limits; workspace indexing depends on the refinement tree.",
     ["MParT/Quadrature.h"],
     [("fixed rule", "ClenshawCurtisQuadrature::GetRule, Integrate"), ("explicit stack of intervals", "RecursiveQuadratureBase, AdaptiveSimpson/AdaptiveClenshawCurtis::Integrate")],
     "Adaptive rules specified as recursion in Numerics.tla, the explicit workspace traversal shown to refine it by TLC (AdaptMC), and every refinement tree of that model (677) forced on the code by a constructed integrand, besides random ones.")
prop("C14", "Root search finds the root or says that it cannot",
     "For every nondecreasing function, starting point, target and tolerance, the search returns a point whose value meets the value tolerance or which lies within the position tolerance of a crossing. Bracketing returns an ordered pair with correct values on both sides of the target. Once values on both sides of the target are known, the search never evaluates outside the bracket and needs at most a few more steps than bisection, also for continuous functions that rise and fall. When the function never reaches the target, failure is reported and no number is invented.",
     ["inputs"], "polynomial, exponential, logistic, piecewise-linear and discontinuous monotone functions; all starting points, targets and tolerances",
     "Tests solve two equations.",
     ["MParT/Utilities/RootFinding.h"],
     [("bracketing", "FindBracket"), ("safeguarded search", "InverseSingleBracket, Find_x_ITP")],
     "RootMC.tla: every choice of interpolation points inside the window keeps the bracket and the number of steps (TLC, exhaustive for widths to 64 tolerances); recorded evaluation points of the code are judged by the same rules, the result by the specification's own evaluation of the function around it.")
prop("C24", "Scalar building blocks are the functions they are named after",
     "The positive transforms (softplus, exponential) are positive and increasing, with the documented values, derivatives, second derivatives and inverses over the whole double range. The logistic sigmoid family has the documented values, gradients and inverse. A tensor-product function is the product of its two factors on their own inputs, with matching derivatives.",
     ["inputs"], "random and extreme arguments, weights, centers and factor sets",
     "Tests look at a few mid-range arguments.",
     ["MParT/PositiveBijectors.h", "MParT/Sigmoid.h", "MParT/TensorProductFunction.h"],
     [("bijectors", "SoftPlus, Exp"), ("sigmoids", "Sigmoid1d, SigmoidTypeSpace"), ("tensor product", "TensorProductFunction")],
     "Random arguments over the double range compared with definitions in Numerics.tla.")
prop("C16", "Log densities follow the change-of-variables formula",
     "A Gaussian density with any mean and covariance returns its log density and the gradient of that at every point. A pullback density returns the reference's log density at the image of the point plus the map's log determinant, and its gradients with respect to the point and to the map's coefficients are the derivatives of that; a pushforward density returns the reference's log density at the preimage minus the log determinant there. This holds for references that are themselves transported, for every array layout and batch size, with the coefficients the map has at the moment of the call; mismatched dimensions and unset coefficients are refused.",
     ["inputs", "histories"], "all dimensions, means, covariances, maps (also conditional ones), nestings, points and layouts",
     "Tests check one map and one reference at a few points in one layout.",
     ["src/Distributions/GaussianSamplerDensity.cpp", "src/Distributions/PullbackDensity.cpp", "MParT/Distributions/PushforwardDensity.h", "src/Distributions/DensityBase.cpp", "MParT/Distributions/Distribution.h", "src/Distributions/Distribution.cpp"],
     [("whitening with the Cholesky factor", "GaussianSamplerDensity::LogDensityImpl, LogDensityInputGradImpl"), ("change of variables", "PullbackDensity, PushforwardDensity LogDensityImpl and gradients")],
     "Random Gaussian references, maps and nested transported densities; every value and gradient compared with TraceDist.tla's definitions over MapAlg. Sizes <= 3 dimensions (30-45 for determinants far outside the range of doubles).")
prop("C17", "Samplers are reproducible and draw from their distribution",
     "After setting a seed, a distribution draws the same samples whatever the layout or the entry point used, different seeds and successive draws give different ones, and each request returns exactly the number and dimension asked for. Gaussian draws have the mean, covariance, tails and independence of the given Gaussian. Draws of a pushforward are the images, and of a pullback the preimages, of the reference's draws under the same seed.",
     ["inputs", "histories", "schedules"], "all seeds, sizes, dimensions, covariances, maps, layouts and numbers of threads",
     "Tests compare first two moments of one draw loosely; repeated columns, correlated coordinates or a lost seed would pass.",
     ["src/Distributions/GaussianSamplerDensity.cpp", "MParT/Distributions/SampleGenerator.h", "MParT/Distributions/PushforwardSampler.h", "MParT/Distributions/PullbackSampler.h", "MParT/Distributions/Distribution.h"],
     [("random pool", "SampleGenerator::SetSeed, rand_pool"), ("transport of draws", "PushforwardSampler/PullbackSampler::SampleImpl")],
     "Recorded draws checked in TLA+: moments to order 4, five quantiles, cross- and auto-correlations within six standard errors, and exact transport of the reference's draws; 1 and 4 threads.")
prop("C18", "Training objectives are empirical KL divergences and training minimises them",
     "The Kullback-Leibler objective of a map on data is the mean negative log density of the data under the pullback of the reference, its coefficient gradient is the derivative of that, and all entry points, also the one the optimizer calls with or without a gradient, agree, for any data, reference, map and output stride. Training returns the objective's value at the coefficients it leaves in the map, never a worse one than at the start, stops by the options given and no others (it ends where the optimizer called directly with them ends, within the evaluation and time limits), and reaches the minimum of a convex objective with every supported algorithm. Mismatched dimensions and missing test data are refused.",
     ["inputs", "histories"], "all data sets, references, maps, algorithms and stopping options",
     "Tests train one map and check the result statistically; wrong scalings or stale coefficients still train.",
     ["src/MapObjective.cpp", "MParT/MapObjective.h", "src/TrainMap.cpp"],
     [("objective and gradient", "KLObjective::ObjectiveImpl, CoeffGradImpl, ObjectivePlusCoeffGradImpl"), ("optimizer interface", "MapObjective::operator(), TrainMap")],
     "Values and gradients compared with the definition in TraceDist.tla; training runs on real data and on scripted convex quadratics with nine NLopt algorithms.")
prop("C19", "Adaptive training grows the best map one best term at a time",
     "Adaptive training adds, one at a time, the term with the largest objective gradient among the forward neighbours not yet in the sets and below the maximum degrees, evaluating that gradient at the current coefficients with zeros for new terms, and retrains after each addition. It stops exactly when the size limit is reached, patience is exhausted without a better test error, or no term is left, and returns the retrained map and the multi-index sets of the smallest test error seen, which always contain the initial terms. Inconsistent inputs are refused.",
     ["histories", "schedules"], "all initial sets, dimensions, limits, maximum degrees and sequences of gradients and test errors",
     "Tests run the algorithm on one data set and check that the error falls; its decisions are not observed.",
     ["src/TrainMapAdaptive.cpp", "MParT/TrainMapAdaptive.h", "src/MultiIndices/MultiIndexSet.cpp"],
     [("choice of the next term", "findMaxGrad, maxDegreeRMFilter"), ("patience and best sets", "TrainMapAdaptive main loop")],
     "The specification is a state machine over the calls the algorithm makes of its objective; objectives with scripted gradients and test errors drive it through all its branches.")
prop("C25", "Affine, identity, summarized and single-entry maps follow their definitions",
     "An affine map or function returns Ax+b for the matrix and bias it was built from, even if the caller's arrays change later; its gradient, its inverse given the leading inputs, and its log determinant (of the trailing square block, for any pivoting, sign, size and scale) are those of that matrix. An identity map returns the trailing inputs, a summarized map is the component applied to the summary of the leading inputs and the last input, and a single-entry map changes only its active coordinate; gradients, log determinants and inverses follow.",
     ["inputs"], "dimensions 1..8, square and wide matrices, permuted, triangular and badly scaled ones, every summary kind and active coordinate, all layouts and batch sizes",
     "Tests use one 2x2 or 2x3 matrix of order one and default summaries; pivoting, scaling, layout and later changes of the source are not exercised.",
     ["src/AffineMap.cpp", "src/AffineFunction.cpp", "src/IdentityMap.cpp", "src/SummarizedMap.cpp", "src/MapFactory.cpp", "src/Utilities/LinearAlgebra.cpp"],
     [("factorization", "AffineMap::Factorize, PartialPivLU"), ("splitting rows into summary and last input", "SummarizedMap::SummarizePts"), ("identity blocks", "MapFactory::CreateSingleEntryMap")],
     "Definitions in MapAlg.tla (log determinant by elimination with summed logarithms) compared with the code on random structures, points and layouts.")
prop("C22", "Array conversions alias or copy as documented; linear algebra is accurate",
     "Every conversion between pointers, standard vectors, Eigen objects (also blocks, rows and columns of larger ones) and views shows the entries of its source in their places, and either looks into the same memory, so that a write through one is seen through all others and nowhere else, or is a copy that later writes do not reach, as documented. Products, sums, reductions, LU and Cholesky factorizations, solves and determinants equal their mathematical definition to rounding for every shape, layout and transposition, touch only their result, and ignore what a result array held before when nothing of it is asked for.",
     ["inputs", "histories"], "all shapes, layouts, windows, aliasing patterns and sequences of writes and operations",
     "Tests convert one small matrix per function and factor one 3x3 matrix; blocks of larger arrays, reuse of factorizations, aliasing after several conversions and uninitialised results are not exercised.",
     ["MParT/Utilities/ArrayConversions.h", "MParT/Utilities/LinearAlgebra.h", "src/Utilities/LinearAlgebra.cpp", "src/Utilities/Miscellaneous.cpp"],
     [("strides of wrapped arrays", "ToKokkos, MatToKokkos, ConstRowMatToKokkos, KokkosToMat, VecToKokkos"), ("products and factorizations", "dgemm, TransposeObject, PartialPivLU, Cholesky, ReduceDim, AddInPlace")],
     "TraceLin.tla models buffers and windows into them: after every command the driver reports all buffers and all living objects. Random histories, sizes <= 12; reductions also with 4 threads.")
prop("C23", "The Python package is the C++ library, with safe memory",
     "Everything the Python package offers gives what the specification says of the C++ object it stands for: maps and their derivatives for arrays of every stride and order, coefficients, factories, options, densities' training routines and multi-index sets. Arrays returned by it stay valid and keep showing the coefficients as long as they live, whatever is deleted; children outlive containers; user arrays are shared exactly when wrapping. The pytorch wrapper returns the map's values and log determinants and, in the backward pass, the gradients of any weighted sum of both, for stored, given, strided and single-precision coefficients. Pickled and byte-serialized maps come back equal and independent, and arguments that do not fit raise an exception instead of ending the interpreter.",
     ["inputs", "histories"], "all structures, options, strides and orders of arrays, orders of deletion and collection, modes of the pytorch wrapper",
     "The Python tests call one map once per function with contiguous arrays and never delete anything; lifetime errors, strides and the backward pass of log determinants are hardly exercised.",
     ["bindings/python/src/ParameterizedFunctionBase.cpp", "bindings/python/src/ConditionalMapBase.cpp", "bindings/python/src/MultiIndex.cpp", "bindings/python/src/MapOptions.cpp", "bindings/python/src/MapFactory.cpp", "bindings/python/src/AffineMap.cpp", "bindings/python/src/Serialization.cpp", "bindings/python/package/torch.py", "bindings/python/package/torch_helpers.py"],
     [("arrays into coefficient memory", "CoeffMap, WrapCoeffs bindings"), ("autograd functions", "package/torch.py:MpartTorchAutograd"), ("pickling", "py::pickle definitions")],
     "Same trace specifications as the C++ checks, driven through the Python module built from the working tree; Julia and MATLAB bindings cannot be built here.")
prop("C26", "Option objects are values: fields, equality, text and files",
     "Options of maps, training and adaptive training start with the documented defaults; setting a field changes that field of that object only; copies, parts and objects read back from a file have the same fields as their source and are independent of it; two map options are equal exactly when all their fields are, and the printed text lists every field once with its value. All of this holds in C++ and in Python.",
     ["inputs", "histories"], "all fields, values including infinities and signed zeros, and sequences of operations over several objects",
     "Tests compare defaults and one changed field; a field forgotten in equality, in the file or in the text, or bound to another one, is invisible to them.",
     ["MParT/MapOptions.h", "MParT/TrainMap.h", "MParT/TrainMapAdaptive.h", "bindings/python/src/MapOptions.cpp", "bindings/python/src/TrainMap.cpp", "bindings/python/src/TrainMapAdaptive.cpp"],
     [("equality, text and archive of options", "MapOptions::operator==, String, serialize"), ("fields in Python", "def_readwrite")],
     "TraceOpts.tla models objects as records; histories over up to four objects and every field on its own, C++ and Python.")
prop("C27", "Containers combine any parts by the chain rule, within the promised storage",
     "Triangular, composed and summarized maps, pullback and pushforward densities and the training objective use their parts only through the parts' interfaces: for any user-defined maps, functions and densities, nested in any way, their values, gradients, log determinants, inverses and coefficient slices are exactly those the chain rule and the order of the parts give. A backward pass through a composed map holds at most the requested number of intermediate states, evaluates each layer only once when all states may be held, and otherwise at most a fifth (with two states and up to 18 layers, a half) more than the least number of evaluations possible with that storage.",
     ["inputs", "schedules", "histories"], "all nestings of containers to depth 3, all layer counts to 12 (thorough 18) and checkpoint limits, all kinds of calls and layouts",
     "Tests only combine library components whose quantities are related, so that e.g. a gradient taken at the wrong layer's input may look right; no test counts evaluations or stored states.",
     ["MParT/ComposedMap.h", "src/ComposedMap.cpp", "src/TriangularMap.cpp", "src/SummarizedMap.cpp", "MParT/Distributions/PullbackDensity.h", "MParT/Distributions/PushforwardDensity.h", "src/MapObjective.cpp"],
     [("reversal schedule", "ComposedMap::Checkpointer"), ("chain rule", "GradientImpl, CoeffGradImpl, LogDeterminant*GradImpl of the containers"), ("densities over maps", "PullbackDensity, PushforwardDensity")],
     "Parts.tla defines parts over the integers modulo a prime whose derivatives have no relation to their values, so containers are compared exactly; the calls a composed map makes of its layers are recorded and must form a schedule allowed by Reversal.tla; CheckMC.tla checks the code's checkpoint algorithm for every size within bounds.")
