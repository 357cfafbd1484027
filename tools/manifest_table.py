NOTES = "Specifications in spec/, drivers in harness/; see DESIGN.md. Known findings in known_findings.json."
NOT_APPLICABLE = {
 "C16": "the specification (a machine of equation systems with exact joint densities) was not built within the time budget; the module has several genuine defects in what it builds on (see DESIGN.md), so a sound check needs those repaired first",
 "C17": "the specification (products of factors over a lattice) was not built within the time budget; conditional densities and margins of copulas, which use the same classes, are decided under C18",
}
CHECKS = {
 "C18": ("the Copula machine (addition of generator indices, conditional laws as ratios of derivatives; margins, bounds, box masses, chain rule checked by TLC) is replayed in pacal: copulas, joint laws with marginals, densities, margins, conditional laws, coefficients, sampling and laws of functions of a pair",
         "All lattice points in two and three dimensions for 20 family/parameter pairs, several generator steps and six combinations of marginals; closed forms; tolerances 1e-9 (values), 1e-8 (densities), 2e-5..2e-4 (coefficients), 3e-5..6e-3 (laws of pairs, by class)."),
 "C20": ("the Interp, Lagrange and Tails machines (node families, nested refinement, aliasing of polynomials on coarser nodes, stopping level including false convergence, derivatives, roots, changes of variable) are replayed in pacal's interpolators, compiled and plain",
         "All degrees up to a bound on every node family (both ends, none, one missing, first kind), evaluation on/near/between nodes, custom tolerances so that the stopping level is exact; tails over exponents and scales with tolerance by class; pole derivatives and 2-D arguments not judged."),
 "C01": ("every expression of the Sums calculator machine is replayed in pacal and its law compared with the exact one",
         "Exhaustive over the bounded machine (leaf catalogue x depth); numbers compared at half-lattice points with tolerance 2e-9; unbounded families are covered by C08."),
 "C10": ("every expression of the Discrete calculator machine (enumeration of outcomes over rationals) is replayed in pacal; atoms, cdf, moments compared",
         "Exhaustive over expressions of bounded depth over a catalogue of finite laws (atoms at 0, +-1, negative, fractional)."),
 "C03": ("every expression of the GridCalc calculator machine (max, min, with numbers on either side, nested with other operations) is replayed in pacal and its law compared with the exact one",
         "Exhaustive over ordered pairs from 16 leaf laws and three-leaf combinations of four; numbers at fixed grid positions; compared on the quarter grid (piecewise polynomials), atoms, exact mean/variance."),
 "C05": ("every conditioning/mixing expression of the GridCalc machine is replayed in pacal and its law compared with the exact one; TLC also checks the law of total probability",
         "Exhaustive over 16 leaf laws x cut points at half-unit positions (break points, atoms, inside, outside) and two-leaf combinations with further operations."),
 "C02": ("every product/quotient of the Products machine (lattice laws with atoms; cdf exact as rational plus logarithms of primes) is replayed in pacal and its law compared",
         "Exhaustive over ordered pairs of 19 leaf laws of every sign pattern, and three-leaf chains through discrete factors and sums; tolerance 2e-8 at ~25 points per law plus atoms and moments; scales 1e-3..1e3 (1e-6 for products)."),
 "C04": ("every chain of functions of one variable of the Transform machine (points mapped exactly with their cumulative probabilities) is replayed in pacal and its law compared",
         "Exhaustive over 27 leaf laws x 50 functions/parameters, chains of 2 over 11 leaves and of 3 over 2 leaves; tolerance 2e-8 (looser by class where a root singularity sits away from zero); sin/cos on one period of pacal's inverse."),
 "C06": ("every expression of the Summary machine carries its exact law, moments, support, density; every query of a variable (cdf, ccdf, pdf, quantile, median, mad, intervals, moments, entropy, KL, L2, mode, range, summary) is compared with it",
         "Exhaustive over 27 leaf laws x 7 operations, pairs of 13 leaf laws for distances; each at several scales/positions; any quantile q with F(q-)<=p<=F(q) accepted; tolerance 1e-8."),
 "C12": ("every expression graph of the Dag machine (variables shared, squared, combined with numbers, named functions; several sink formulas) is built in pacal; symbolic form, parents, ranges, names, dependence refusal and law of the graph are compared with the graph the specification recorded",
         "Exhaustive over graphs of bounded size (about 28000 in quick, 100000 in thorough); the formula is evaluated exactly by TLC at rational assignments of the roots and numerically through pacal's symbol and RV methods."),
 "C13": ("every expression graph of the Dag machine is sampled in pacal with scripted draws of the base variables: each sample must be the exact value of the formula on those draws, every shared variable drawn once; seeded samples of conditioned/mixed variables (GridCalc machine) are compared with their exact law",
         "Exhaustive over graphs of bounded size; joint draws checked row by row against exact arithmetic; frequencies by thresholds with false-alarm probability below 1e-9; fixed seed."),
 "C11": ("the Piecewise machine carries each function as exact pieces (rational combinations of powers about rational points), atoms and pointwise values under every operation; TLC checks that the algebra of pieces agrees with the pointwise values and integrals; every state is rebuilt in pacal and evaluation, breaks, atoms, lookup, integrals, cumulative integrals, inverses, derivatives, roots, extremes compared",
         "Exhaustive over 11 functions (holes, atoms inside/at ends/outside pieces, poles left/right, infinite tails) x all insertion orders x all operations; pairs of operations over 4 functions (quick) or all (thorough); tolerance 1e-11 for values, 1e-8 for integrals (1e-6 near poles away from zero)."),
 "C09": ("the Iid machine adds independent copies one at a time (lattice sums, dyadic products with cdf polynomials in ln 2, order-statistic tables); TLC checks that every bracketing gives the same law, power laws of means, and order-statistic identities; every prefix law is compared with iid_sum/average/prod/average_geom/min/max/median/order_stat (single and all=True); IidCalls enumerates histories of succeeding and failing calls and the warning setting",
         "Every n up to 7 (sums), 5 (products), 6 (order statistics, every k) in quick; 9/6/9 in thorough; 10 to 25 leaf laws incl. atoms, mixtures, holes, sign changes; several scales and constructions; all call histories of length 2."),
 "C07": ("instances of every catalogue family are created and asked in every order by the Catalogue machine (Families.tla holds each family's documented law with exact moments); cdf, ccdf, pdf (inside, at the ends of and outside the support, scalar and array), total mass, mean, variance, range, names, quantiles and samples compared with the documented law",
         "38 families with ~230 (quick) / ~900 (thorough) parameter choices, shape parameters on both sides of every branch, scales 1e-3..1e3 and positions up to 1e4 scales away; two instances of a family interleaved; tolerance 5e-9 (looser by class where a pole or tail cannot be resolved in floating point)."),
 "C08": ("the Closure machine derives laws step by step by the closure theorems (sums, differences, products, quotients, extrema, powers, exp/log/atan/tan/sin/cos/sigmoid, truncations of Families.tla laws, canonicalised so that different routes meet); TLC checks every theorem against the calculus of moments and rational cdfs; representatives of every rule sequence are computed by pacal step by step and compared with the closed law",
         "105 000 derivations of up to 2 steps (operands themselves prepared by a function) over 76 leaves; quick replays one derivation per rule and per pair of operations (813), thorough one per full sequence of rules plus 3-step routes (5000); cdf/ccdf/pdf/mass/mean/variance, tolerance 1e-8 (one step) or 2e-7; documented classes for poles away from zero and tails with exponent below 1/2."),
 "C14": ("the Session machine (variables built, asked, sampled, printed, combined in any order, with lazily held descriptions) is explored by TLC; its histories are replayed in pacal and every answer, during and after, compared with that of a freshly built copy; operands, settings and random state must be unchanged",
         "Every single event (30 operations, 52 questions) in 14 contexts of leaves (a quarter of them per quick run, all in thorough) followed by an audit of every variable; 80 (quick) / 780 (thorough) pseudo-random histories of 10-12 events; answers compared to 1e-9, repeated questions exactly."),
 "C15": ("the Pool machine (switching, lazily opened pool, workers taking nodes in any order, nested maps; safety and termination checked by TLC over all schedules) gives histories of switches and operations and orders in which nodes finish; they are replayed against real worker pools whose creations are counted and whose nodes are delayed to finish in the given order; laws compared with serial evaluation",
         "1024 histories of length 4 (1 in 17 in quick) over 8 contexts of leaves, 1 to 3 workers, all completion orders of 5 chunks by 3 workers spread over the maps of a history; equality to 1e-11."),
 "C19": ("the Monitor machine (stopping rule and best result in exact arithmetic), the Quad machine (nested Fejer/Clenshaw-Curtis rules whose values on Chebyshev polynomials and on driven value sequences are computed exactly by aliasing, with refinement, node limit, stop and report) and the Lines machine (cut intervals, half-lines, the line, singular ends) are checked by TLC and their behaviours replayed into convergence_monitor and every integrate_* routine, whose evaluation points are recorded",
         "Stopping rule: all histories of length 3 (4 thorough) over 15 pairs and 900 (18000) longer pseudo-random ones, 6 parameter sets; rules: 13 polynomials up to the fourth refinement, ~110 (900) driven sequences, 6 parameter sets, node limits 129..1025 (2049), 15 intervals; lines: 9 functions, all pairs of 10 end points, all suitable routines."),
 "C21": ("the SparseGrid machine refines a grid level by level; TLC checks the combination coefficients (every member of the downset counted exactly once, weights summing to one), nested node sets and reproduction of the span, and computes the interpolant of products of Chebyshev polynomials exactly (by aliasing) at every level together with the level at which refinement stops; real interpolators are built on these functions over several boxes, their evaluations recorded and their values compared everywhere",
         "Dimensions 1 to 4, 18 (28 thorough) functions inside and outside of the span, up to 7 levels, 2 (6) boxes each; nodes evaluated per level compared as sets; scalar, array, two-dimensional and empty arguments; compiled and plain single-grid evaluation."),
}
