"""How each property is decided (inserted into DESIGN.md)."""
APPROACH = {
"C01": """
*Specified*: a set as `[active: sequence, limiter, global: known indices]` with the transitions add, union, sum, copy, assign, expand, force, activate, set limiter (`MISet.tla`).
*Enumerated*: all states and transitions of three finite instances (2-d order <= 2 with mixed limiters, 1-d to 5, 3-d to 1); every transition is replayed on the real class.
*Generated*: random histories over up to four sets in 1 to 5 dimensions, up to 30 operations, random limiter trees.
*Oracle*: after every operation the code's complete observable state (members in order, index look-up of every index in a box, activity, maximum orders, sizes, limiter answers) equals the specification's. Cost: 10 s quick.""",
"C02": """Same instances and histories as C01, judging the derived queries: margin, reduced margin, frontier, strict frontier, expandability, admissibility, neighbours, what expand/force return. They are *set comprehensions over the active set* in `MISet.tla`, recomputed after every step, so any stale edge in the code's neighbour bookkeeping shows. TLC also checks the definitions against each other (expanding on an empty reduced margin does nothing, closedness is preserved).""",
"C03": """A register machine over multi-indices (construct by vector, pointer, Eigen, initializer list, constant; copy; set; get; compare; print; neighbours). The model is the dense vector; every observer is derived from it. Values reach 10^6, lengths 0 to 6.""",
"C04": """Factories are comprehensions (total order, tensor, matrix; order of listing specified); limiters are predicates over a full box of indices, probed on every point; fixed sets are snapshots in compressed and dense storage, observed after later changes of the source. All dimensions 1 to 5 and orders to 8 within a size bound.""",
"C05": """`CoeffMem.tla` says which block and offset each object owns. `CoeffMC` enumerates all sequences of set/wrap/write through buffers, objects and components for six structures (flat, nested triangular, composition, summarized, one component in two maps, three levels), 260 transitions each (all of them in the thorough tier) replayed. Random deeper structures with both interfaces (Kokkos, Eigen). *Oracle*: after every event, every object's coefficients and every user buffer.""",
"C06": """Random stacks (monotone, affine, identity, summarized, nested triangular blocks; up to 3 leading inputs, 5 outputs, depth 3) with all seven quantities in eight memory layouts; `MapAlg!Eval, VJP, CVJP, LogDet, LDX, LDW` recompute each from the components; constructors with wrong stacks must refuse.""",
"C07": """For every depth up to 7 and every checkpoint limit from 0 to beyond the depth: values, gradients, log determinants and their gradients, inverses, against the composition in `MapAlg.tla`, which has no checkpoints.""",
"C08": """`MapAlg.tla` contains analytic derivatives of the specified values (component, expansion, affine, identity, triangular, composed, summarized). TLC checks those formulas against central differences of the specification's own values (`MapAlgMC`), so that the oracle is not merely a second derivation. The code is compared for all 36 combinations of basis, linearization, bijector, quadrature, times derivative mode, and for every structure.""",
"C09": """As C08 for log determinant, its coefficient gradient and its input gradient; determinants of affine blocks by elimination in TLA+.""",
"C10": """Values along lines in the last input must rise with at least the minimum slope; inverses are judged by the specified map: bracketing the target within the solver's tolerance. Targets at images of points, far away (|y| to 30), one conditioning point per target, full-length conditioning points. All structures.""",
"C11": """Fixed rules: the same nodes and weights, to 1e-9. Adaptive rules: composite 8-point Gauss panels cut at the kinks, compared at the rule's tolerance; (the exact subdivision is C20 and C13). All 36 option combinations, orders to 7, 2 to 24 points, tolerances to 1e-3.""",
"C12": """One-dimensional families by three-term recurrence in TLA+, normalization by factorials in doubles, linearization by value and slope at the bound; every evaluation routine (all orders, single order, first/second derivatives, fused versions) must agree. Expansions through the worker: value, diagonal derivatives to order 2, coefficient and input derivatives, mixed derivatives, compressed and dense storage. Orders to 20.""",
"C13": """Fixed rules for every number of points to 24 (33). Adaptive rules by recursion with the same acceptance test; tabulated integrands with random spikes force arbitrary trees of accepted and refined intervals. `AdaptMC` shows by exhaustive search that the explicit workspace traversal used by the code refines the recursion for every acceptance pattern to depth 4, including the branch bits and pointers into the workspace; each of its 677 trees is forced on the code by an integrand built top-down (quarter points chosen so that exactly the wanted intervals are accepted). Vector integrands, four norms, reversed and empty intervals, three kinds of workspace.""",
"C14": """The function is known to the specification, which judges the returned point by evaluating around it: value within the value tolerance, or a crossing within the position tolerance. Steps, kinks, flat stretches, unreachable targets, cubics that rise and fall. `RootMC` is the search with an arbitrary interpolation: TLC shows that any choice inside the shrinking window keeps the bracket and finishes in the steps of bisection plus two. The evaluation points recorded from the code are folded into brackets by the specification: none may leave the bracket, and their number is bounded.""",
"C15": """The specification keeps snapshots; a loaded object is inserted in the heap with its own memory and is then an object like any other, so every later event on it or on the original is judged. Single and several objects per stream (bases, quadrature rules and fixed multi-index sets also on their own), both interfaces, constructors and factories, nested stacks, with and without coefficients.""",
"C16": """Log densities of Gaussians by forward substitution with the factor; pullback = reference at the image + log determinant, pushforward judged at the map's own preimage (itself checked); gradients analytic. Nested densities, scaled maps (10^-11..10^11), 30 to 45 dimensions at scale 10^+-6, eight layouts. Cost 10 s.""",
"C17": """Same seed gives the same draws (for every n and layout), different seeds differ; draws are standard by moments, quantiles and correlations within six standard errors; transported samplers are exactly the map (or its inverse) of the reference's draws for the same seed. One and four threads.""",
"C18": """Objective and gradients from the definition (mean over the points of minus the log density of the pullback). Training: the returned map's coefficients are those with the smallest objective asked for, never worse than the start; gradient small at the optimum on scripted convex quadratics. Each stopping option (tolerances one at a time, stop value, evaluation limit, time limit) is varied on its own and training must end where NLopt called directly with the same options ends.""",
"C19": """A state machine over the calls that adaptive training makes of its objective (values asked at which term sets, gradients, test errors), driven by objectives with scripted answers so that all branches are taken: best gradient first, patience, maximum size, maximum degrees, no candidate left. The final map must hold the terms and coefficients of the best step.""",
"C20": """All combinations of basis, normalization, bounds, bijector, quadrature constructed; values, gradients, log determinant from the same options. Adaptive options must produce exactly the subdivision result of `Numerics!Quad` (1e-11), so tolerance, relative tolerance, minimum and maximum subdivision and points per interval must all reach the rule. Single-entry maps for every position.""",
"C21": """Every quantity is computed nine ways (alone, halves, empty halves, reversed, other layouts, Eigen/Kokkos, twice) with 1 and with 8 threads. Ways agree to 1e-12, repetition exactly; inputs, coefficients and padding unchanged.""",
"C22": """Matrices are sequences of rows in `LinAlg.tla`: products with transposed views, vector products, sums into place, LU with pivoting (solve, determinant), Cholesky (solve, factor, half-solve), reductions along a dimension, conversions between views, Eigen and vectors in every layout. Judged by residuals against the original matrix and by aliasing (writing the view is seen in the source exactly when documented).""",
"C23": """The Python module is built from the working tree (`build/py`) and `drv_py.py` executes the same scripts as the C++ drivers, writing the same trace format for the same trace specifications. Extra events: arrays kept while their map is deleted, collected or rewrapped (`Views`, `Dropped` in `TraceMap.tla`), the pytorch wrapper (`TorchChecks`: forward values, log determinants, and the gradients of a random weighted sum of both against the analytic ones), pickling, adaptive training. The Julia and MATLAB bindings cannot be built in this sandbox.""",
"C24": """Definitions in `Numerics.tla` over the double range including far tails. Three known findings.""",
"C26": """`TraceOpts.tla`: objects are records of fields with the defaults of the headers; set, copy, part (slicing adaptive options), file, equality, text. Every field on its own and random histories; after each operation all fields of all living objects are compared. C++ and Python drivers.""",
"C25": """Random affine maps (permutation, triangular, badly scaled, general; scales to 10^+-60), translations, identity, summaries, single-entry maps: all quantities from the definitions; source arrays are overwritten after construction (the map keeps its own copies).""",
"C27": """Parts are implemented in the driver (and in `Parts.tla`) over the integers modulo 1009, with *arbitrary* derivatives: nothing but the right calls at the right arguments in the right order gives the right number, and comparison is exact. Random trees of containers, densities and objectives. Layers record when they are evaluated and at which stored input: the recorded schedule must be a behaviour of `Reversal.tla` (every evaluation uses an available state, at most `s+1` states held, the layers used backwards, each once). `CheckMC.tla` models the Checkpointer itself (stack, two work arrays, the revolve formulas) for every number of layers and limit within bounds: right input, room, order, termination, cost. The code's formula exceeds the optimum slightly with two checkpoints (9 evaluations instead of 8 for six layers), hence "not more than twice".""",
}
