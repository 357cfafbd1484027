#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable in review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Sums and differences of independent variables have the exact law",
 "For any two independent random variables, each an arbitrary mixture of atoms and densities, X+Y and X-Y have exactly the convolution of the two laws: the right cumulative probability at every point (including just below and at every atom), the right atoms with the right masses, total mass one and the right support. This holds for either operand order, at any scale or position of the supports, and when results are themselves operands of further sums and differences.",
 ["inputs"], "all pairs (and chains) of independent laws built of atoms and densities, any position, scale and operand order",
 "tests sum a handful of continuous families; the case analysis is over pairs of pieces (density/density, density/atom, atom/atom, coincident break points, touching supports, gaps), which multiplies with every operand",
 ["pacal/indeparith.py", "pacal/distr.py", "pacal/segments.py"],
 [("convolution by segment pairs", "pacal/indeparith.py:conv, convx, _findSegListAdd"), ("atoms of a convolution", "pacal/indeparith.py:convdiracs"),
  ("operator dispatch", "pacal/distr.py:SumDistr, SubDistr, Distr.__add__/__sub__")],
 ["Distr.cdf", "Distr.get_piecewise_pdf().getDiracs", "Distr.mean/var", "Distr.int_error", "Distr.range_"])

prop("C02", "Products and quotients of independent variables have the exact law",
 "For any two independent random variables, each a mixture of atoms and densities on either or both sides of zero, X*Y has exactly the law of the product and, when P(Y=0)=0, X/Y has exactly the law of the quotient: right cumulative probabilities everywhere, right atoms (the atom of a product at zero carries P(X=0)+P(Y=0)-P(X=0)P(Y=0)), total mass one. This covers densities that straddle or touch zero, where the result has a singularity or a heavy tail.",
 ["inputs"], "all pairs of independent laws built of atoms and densities, all sign patterns, supports touching or straddling zero",
 "every sign pattern, pole and tail combination selects another branch of the pairing code; tests cover a few all-positive or symmetric densities and no atoms",
 ["pacal/indeparith.py", "pacal/distr.py", "pacal/segments.py"],
 [("product by segment pairs with pole/tail flags", "pacal/indeparith.py:convprod"), ("quotient by segment pairs", "pacal/indeparith.py:convdiv"),
  ("mass of the product at zero", "pacal/indeparith.py:_probDiracAtZeroInProd")],
 ["Distr.cdf", "Distr.get_piecewise_pdf().getDiracs", "Distr.int_error", "Distr.mean"])

prop("C03", "Minimum and maximum of independent variables have the exact law",
 "For independent X and Y, P(max(X,Y)<=t) is the product of their cumulative probabilities and P(min(X,Y)>t) the product of their tail probabilities, at every t, including at and just below atoms, ties between atoms and atoms lying inside the other variable's support; the result has total mass one and the right atoms. Either argument may be a plain number.",
 ["inputs"], "all pairs of independent laws built of atoms and densities, plus numeric arguments, in any relative position",
 "ties of atoms with atoms, break points and plain numbers are not tested at all; the relative position of two supports has many cases",
 ["pacal/indeparith.py", "pacal/distr.py"],
 [("min/max densities", "pacal/indeparith.py:convmin, convmax"), ("atoms of min/max", "pacal/indeparith.py:_probDiracsInMin, _probDiracsInMax"),
  ("dispatch incl. numbers", "pacal/distr.py:min, max")],
 ["Distr.cdf", "Distr.get_piecewise_pdf().getDiracs", "Distr.int_error"])

prop("C04", "A function of one variable has exactly the image law",
 "Shifting, scaling (by positive or negative numbers), negating, inverting, taking absolute value, square, square root, powers, exponentials, logarithms, sign, arctangent, hyperbolic tangent, sigmoid and (within their documented domains) sine, cosine and tangent of a random variable give the exact law of the transformed variable, atoms included, for laws positioned anywhere the function is defined. Compositions of such functions give the law of the composition, and trivial operands (adding 0, multiplying or dividing by 1, power 1) leave the law unchanged.",
 ["inputs"], "all laws built of atoms and densities in the domain of the function, all shift/scale constants, compositions",
 "each function acts piece by piece with its own inverse and derivative, with special cases at zero, infinity and for atoms; tests exercise each with one or two smooth continuous laws",
 ["pacal/distr.py", "pacal/segments.py", "pacal/rv.py"],
 [("shift and scale", "pacal/segments.py:copyShiftedAndScaled, shiftAndScale"), ("monotone image", "pacal/segments.py:copyComposition, probComposition"),
  ("inverse/abs/square images", "pacal/segments.py:copyProbInverse, copyAbsComposition, copySquareComposition"), ("function classes", "pacal/distr.py:ExpDistr..TanDistr, SignDistr")],
 ["Distr.cdf", "Distr.pdf", "Distr.get_piecewise_pdf().getDiracs", "Distr.mean"])

prop("C05", "Conditioning on an interval and mixing give the exact law",
 "Conditioning a variable on being above L, below U or between L and U gives exactly its law restricted to the open interval and renormalised, whatever mix of atoms and densities it has and wherever the cut falls (inside a piece, at a break point, at an atom, outside the support on one side). A mixture has exactly the probability-weighted average of its components' laws, atoms at equal positions being added up.",
 ["inputs"], "all laws built of atoms and densities, all cut points giving the event positive probability, all mixture weights",
 "the cut can coincide with atoms, break points or support ends, which tests never do; conditioning is barely tested and mixtures of atoms not at all",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/indeparith.py"],
 [("conditioning", "pacal/distr.py:CondGtDistr, CondLtDistr, CondBetweenDistr, Distr.__or__"), ("mixtures", "pacal/standard_distr.py:MixDistr")],
 ["Distr.cdf", "Distr.get_piecewise_pdf().getDiracs", "Distr.int_error", "Distr.mean"])

prop("C06", "All descriptions and summaries of a variable describe one law",
 "For every variable the density, cumulative and complementary probability functions and quantile function agree with one and the same law: the cumulative function is nondecreasing from 0 to 1, cdf+ccdf=1, every reported quantile is a true quantile at that level, and array arguments give the same answers as scalars. Mean, variance, standard deviation, raw and central moments, skewness, kurtosis, median, interquantile range, confidence intervals, median absolute deviation, mode, entropy, range and the distances between two laws equal the mathematical values for that law.",
 ["inputs"], "all laws built of atoms and densities with bounded or unbounded support, all evaluation points and probability levels",
 "tests check a few summaries of standard continuous laws; atoms, flat stretches of the cdf, levels that fall on jumps, and scalar/array consistency are untested",
 ["pacal/segments.py", "pacal/distr.py"],
 [("cumulative function", "pacal/segments.py:cumint, ccumint, CumulativePiecewiseFunction"), ("inverse", "pacal/segments.py:inverse, inverse_scalar"),
  ("summaries", "pacal/segments.py:PiecewiseDistribution, pacal/distr.py:Distr.moment..interval")],
 ["Distr.cdf/ccdf/pdf/quantile", "Distr.mean/var/std/moment/skewness/kurtosis/median/iqrange/ci/medianad/mode/entropy", "Distr.KL_dist/L2_dist"])

prop("C07", "Every catalogue distribution has its documented law for all valid parameters",
 "Each distribution offered by the library (uniform, trapezoidal, normal, Cauchy, chi-square, exponential, gamma, beta, Pareto, Levy, Laplace, Student t, semicircle, F, Weibull, Gumbel, Frechet, log-logistic, mollifier, Poisson, binomial, Bernoulli, constants, finite discrete laws, user-supplied densities) has, for every valid parameter choice, the density, cumulative probabilities, mean and variance of that law and total mass one. Separate instances never influence each other.",
 ["inputs", "configurations"], "all families and all valid parameter values, including those where the density changes shape at the support's end (pole, jump, zero)",
 "tests instantiate each family with one parameter set; the shape at the end points and the constants depend on the parameters",
 ["pacal/standard_distr.py"], [("family densities and break points", "pacal/standard_distr.py"), ("finite discrete laws", "pacal/distr.py:DiscreteDistr, ConstDistr")],
 ["Distr.pdf/cdf/mean/var/int_error of each family"])

prop("C08", "Closed-form identities between families hold numerically",
 "Whenever probability theory gives a named law for a sum, difference, product, quotient, extremum, power, exponential, logarithm or conditional of independent named laws (for example sums of normals, gammas, Cauchys, Poissons; ratio of normals; extremes of exponentials; exponential of a normal; powers of uniforms), computing it step by step yields that law: cumulative probabilities agree at points in the body and in the tails. This holds with unbounded supports, heavy tails and densities that are infinite at a point, and through multi-step derivations reaching the same law by different routes.",
 ["inputs"], "all derivation chains in the table of closed-form identities, over parameter grids",
 "tests check about forty fixed instances; routes with several steps, shifted or reflected supports and poles at break points interact",
 ["pacal/indeparith.py", "pacal/segments.py", "pacal/distr.py", "pacal/standard_distr.py"],
 [("unbounded and singular segments", "pacal/segments.py:MInfSegment, PInfSegment, SegmentWithPole"), ("arithmetic", "pacal/indeparith.py")],
 ["Distr.cdf of the derived variable"])

prop("C09", "Aggregates of n i.i.d. copies have the law of exactly n copies",
 "The i.i.d. sum, product, minimum, maximum, average, geometric average, median and k-th order statistic of n copies have the exact law for every n >= 1 and every 1<=k<=n, for continuous, discrete and mixed laws; asking for all prefixes returns the results for 1..n in order. The dependence-warning setting is left as it was found, also when a call fails.",
 ["inputs", "histories"], "all n, k and laws; all sequences of aggregate calls",
 "repeated squaring treats every bit pattern of n differently and tests use one or two values of n",
 ["pacal/stats/iid_ops.py"], [("repeated squaring", "pacal/stats/iid_ops.py:_int_exp, _int_exp_all"), ("order statistics", "pacal/stats/iid_ops.py:iid_order_stat, iid_median")],
 ["cdf/atoms/mean of iid_* results", "params.general.warn_on_dependent"])

prop("C10", "Arithmetic on finite discrete variables equals exact enumeration",
 "For independent variables with finitely many values, every expression built from +, -, *, /, min, max, negation, shifting, scaling, absolute value, squares, reciprocals, sign, integer conditioning cuts and mixtures has exactly the values and probabilities obtained by enumerating all outcomes; equal outcomes are merged, and probabilities sum to one. Mean, variance and cumulative probabilities of the result agree with that enumeration.",
 ["inputs", "programs"], "all expressions over finite discrete laws (bounded depth in the checked scope)",
 "no test builds a multi-step expression over discrete variables; merging of coinciding values and zero/sign handling depend on the particular values",
 ["pacal/indeparith.py", "pacal/distr.py", "pacal/segments.py"],
 [("pairs of atoms", "pacal/indeparith.py:convdiracs"), ("merging of atoms", "pacal/segments.py:PiecewiseFunction.addSegment"), ("discrete laws", "pacal/distr.py:DiscreteDistr")],
 ["get_piecewise_pdf().getDiracs", "Distr.cdf", "Distr.mean/var"])

prop("C11", "Piecewise functions behave as functions under every operation",
 "A piecewise function with atoms keeps its pieces ordered and non-overlapping whatever the order in which they were added; evaluation, lookup of the piece at a point, break points, splitting, restriction, shifting and scaling, pointwise +,-,*,/ with numbers and other piecewise functions, definite integration over any interval, cumulative integration from either side, inversion and differentiation agree with the mathematical function it denotes. Splitting or re-interpolating never changes the function, integrals over adjacent intervals add up, and atoms are carried along by additive operations and scaling.",
 ["inputs", "programs"], "all piecewise functions and all sequences of operations on them",
 "existing tests fix a few functions and compare operations one at a time; alignment of break points and atoms between operands has many cases",
 ["pacal/segments.py"],
 [("container", "pacal/segments.py:PiecewiseFunction.addSegment, findSegment, splitByPoints, restrictToInterval"), ("pointwise arithmetic", "pacal/segments.py:_operation__, _roperation__, op_diracs"),
  ("integration", "pacal/segments.py:Segment.integrate, cumint, ccumint"), ("inversion", "pacal/segments.py:inverse_scalar, invfun")],
 ["PiecewiseFunction.__call__/integrate/cumint/inverse/getBreaks/getDiracs"],
 state=[("segments", "ordered list of pieces and atoms", "pacal/segments.py:PiecewiseFunction.segments")])

prop("C12", "The expression graph records exactly what was computed from what",
 "Every random variable knows its direct operands and the complete set of variables it was computed from; a warning that arguments are treated as independent is issued when a new variable is built from operands that share an ancestor, and never when they share none. Its symbolic form, defining equations, displayed name and free/derived ancestors describe the expression that was built, and its declared range contains every value the expression can take.",
 ["programs", "histories"], "all expression graphs built by any sequence of operations, with sharing",
 "no test inspects ancestors, warnings, equations or ranges; the number of graph shapes with sharing grows quickly",
 ["pacal/rv.py", "pacal/distr.py"],
 [("ancestor sets", "pacal/rv.py:RV.getAncestorIDs"), ("dependence warning", "pacal/distr.py:Distr.__init__"), ("equations", "pacal/rv.py:getEquations, getSym, getParentsAll/Free/Dep"), ("range propagation", "pacal/rv.py:SumRV..MaxRV")],
 ["getAncestorIDs", "warnings issued", "getSym/getEquations/getParents*", "RV.range"],
 state=[("parents", "direct operands", "pacal/rv.py:RV.parents")])

prop("C13", "Random samples follow the expression they are drawn from",
 "Samples of a derived variable are the expression evaluated on samples of its base variables: with dependence tracking on, each base variable is drawn once per joint draw, however many paths lead to it, and all nodes of the graph see the same values; with it off, every occurrence is drawn independently. Samples of a base, discrete, conditioned or mixture variable have that variable's law and the requested number, a single draw being a scalar or one-element array with a value in the support.",
 ["programs", "histories", "inputs"], "all expression graphs, sample sizes and sequences of draws; all sampled families",
 "tests only compare histograms visually; whether shared variables are drawn once shows only on graphs with sharing",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/segments.py"],
 [("per-draw cache", "pacal/distr.py:Distr.rand, OpDistr.rand"), ("evaluation", "pacal/distr.py:rand_op of each operation"), ("inverse-cdf sampling", "pacal/distr.py:rand_invcdf, pacal/segments.py:invfun"), ("family samplers", "pacal/standard_distr.py:rand_raw")],
 ["Distr.rand with scripted base samples", "empirical law of Distr.rand"],
 state=[("cache", "values already drawn in this joint draw", "pacal/distr.py:OpDistr.rand")])

prop("C14", "Results do not depend on what was asked or computed before",
 "Whatever sequence of queries, arithmetic, conditioning, sampling, printing and summarising is applied to a set of variables, each answer equals the one a freshly built copy of that variable gives: operations never alter their operands, repeated queries give identical answers, lazily built descriptions stay consistent, and no global setting is left changed.",
 ["histories"], "all sequences of operations and queries over shared variables",
 "tests use each object once in one order; corruption through shared caches or mutated pieces shows only in particular orders",
 ["pacal/distr.py", "pacal/segments.py", "pacal/indeparith.py", "pacal/stats/iid_ops.py"],
 [("lazy caches", "pacal/distr.py:get_piecewise_pdf/cdf/ccdf/..._interp"), ("sharing of pieces between functions", "pacal/segments.py"), ("global settings", "pacal/params.py, pacal/stats/iid_ops.py")],
 ["answers of Distr queries before/after other operations", "params.*"],
 state=[("cached descriptions", "lazily built functions", "pacal/distr.py:Distr.piecewise_*")])

prop("C15", "Parallel evaluation gives the same results as serial evaluation",
 "With parallel evaluation on or off, and for any number of worker processes, every operation yields the same law with results assembled in the same order; at most one worker pool is created, lazily and only when parallel evaluation is on, and workers never create pools of their own. Switching the setting between operations in any order is safe.",
 ["schedules", "configurations", "histories"], "all interleavings of workers, worker counts, and sequences of operations with the setting toggled",
 "tests run under one setting and never compare the two; ordering and nesting errors depend on scheduling and on the code path",
 ["pacal/utils.py", "pacal/indeparith.py", "pacal/interpolation.py", "pacal/segments.py", "pacal/params.py"],
 [("pool life cycle", "pacal/utils.py:get_parmap, par_map, init_pacal_thread"), ("parallel inner loops", "pacal/indeparith.py:Convxrunner..., get_parmap"), ("picklable wrappers", "pacal/utils.py:wrap_pdf, pacal/segments.py:wrap_f, pacal/interpolation.py:_wrap_f")],
 ["cdf of results under both settings", "params.general.process_pool", "number of pool creations"],
 state=[("process_pool", "the pool, if created", "pacal/params.py:general.process_pool")])

prop("C16", "Model manipulation preserves the joint law of the remaining variables",
 "Starting from free variables and equations defining derived ones, exchanging a derived variable with one of its free parents, eliminating variables, conditioning on observed values and asking for the joint law of wanted variables given observations all yield the joint (conditional) law implied by the original definition, up to normalisation where documented; requests that would not be valid are refused and leave the model unchanged. The sets of free and derived variables and the equations always describe the same variables without cycles.",
 ["programs", "histories"], "all models over bounded numbers of variables and all sequences of exchange, eliminate, condition and inference steps",
 "no test covers this module; each step rewrites equations symbolically and picks Jacobians and eliminations depending on graph shape and history",
 ["pacal/depvars/models.py", "pacal/depvars/nddistr.py", "pacal/rv.py"],
 [("variable exchange", "pacal/depvars/models.py:varschange, var_change_helper"), ("elimination", "pacal/depvars/models.py:eliminate, eliminate_other"), ("conditioning and inference", "pacal/depvars/models.py:condition, inference"), ("two-variable models", "pacal/depvars/models.py:TwoVarsModel")],
 ["Model.free_rvs/dep_rvs/rv_to_equation", "Model.nddistr.pdf", "Model.as1DDistr"],
 state=[("free_rvs, dep_rvs, rv_to_equation", "partition of variables and defining equations", "pacal/depvars/models.py:Model")])

prop("C17", "Joint distributions marginalise, condition and multiply correctly",
 "For joint distributions given as products of factors, multivariate normals, functions, interpolated tables or pairs of order statistics, the density at a point is that of the joint law, eliminating any set of variables gives the marginal law, conditioning any set on values gives the conditional law (or unnormalised slice where asked), in any order of steps and whichever way variables are named (by index or by object); variables keep their identity and order.",
 ["inputs", "programs"], "all factorised joint laws over bounded numbers of variables, all subsets and orders of elimination and conditioning",
 "no test covers this module; bookkeeping of variable positions differs for every subset and order",
 ["pacal/depvars/nddistr.py"],
 [("variable bookkeeping", "pacal/depvars/nddistr.py:NDFun.prepare_var"), ("factor product", "pacal/depvars/nddistr.py:NDProductDistr"), ("multivariate normal", "pacal/depvars/nddistr.py:NDNormalDistr"), ("order statistics pair", "pacal/depvars/nddistr.py:IJthOrderStatsNDDistr")],
 ["pdf/eliminate/condition of joint distributions"])

prop("C18", "Copulas are copulas with the intended dependence",
 "Every offered copula (independence, upper and lower bound, Clayton, Gumbel, Frank) has uniform margins, is grounded, is symmetric, lies between the two bounds, gives every box a nonnegative mass equal to the integral of its density where it has one, and has the closed form of its family for the given parameter; with marginals attached, joint cumulative probability and density are those of that copula with these marginals. Its margins on fewer variables, conditional laws given some of the variables (and sampling by them), dependence coefficients and the laws of sums and other functions of a pair equal the mathematical values.",
 ["inputs"], "all parameters, all evaluation points and marginals, dimensions two and three",
 "no test covers copulas; margins, bounds and box masses are conditions over the whole unit square and parameter range",
 ["pacal/depvars/copulas.py", "pacal/depvars/models.py"],
 [("families", "pacal/depvars/copulas.py:PiCopula, MCopula, WCopula, ClaytonCopula, GumbelCopula, FrankCopula"), ("marginals", "pacal/depvars/copulas.py:Copula.cdf, pdf"), ("coefficients", "pacal/depvars/copulas.py:tau, rho_s, beta")],
 ["ccdf/cpdf/cdf/pdf/ctau/rho_s"])

prop("C19", "Adaptive quadrature is exact, stops correctly and reports its best result",
 "Every quadrature routine integrates polynomials of the degree its rule resolves exactly over finite intervals of any position and width, and integrates functions over half-lines and the line through invertible changes of variable, also next to an integrable singularity and on very wide intervals; splitting an interval leaves the integral unchanged. Refinement reuses earlier nodes, never exceeds the node limit, stops as soon as the tolerance is met or progress stalls as configured, and then returns the converged result or the best one seen.",
 ["inputs", "histories", "configurations"], "all intervals, integrands in the exactness class, sequences of error estimates and convergence settings",
 "the stopping decision depends on the whole history of error estimates; tests integrate three fixed functions",
 ["pacal/integration.py", "pacal/utils.py", "pacal/vartransforms.py"],
 [("rules and refinement", "pacal/integration.py:integrate_clenshaw, integrate_fejer2"), ("stopping rule", "pacal/utils.py:convergence_monitor"), ("changes of variable", "pacal/vartransforms.py"), ("wide intervals", "pacal/integration.py:integrate_wide_interval")],
 ["values and error estimates of integrate_*", "convergence_monitor.test_convergence/get_best_result", "points at which the integrand is evaluated"],
 state=[("error history", "errors, values and best-so-far bookkeeping", "pacal/utils.py:convergence_monitor")])

prop("C20", "Interpolants reproduce the function and refine consistently",
 "Every interpolator passes through its nodes, reproduces polynomials up to its degree everywhere, refines by nested node sets kept sorted and matched with their values and weights until the tolerance or node limit is reached, and agrees between the compiled and the plain implementation; derivatives and roots taken from an interpolant are those of the polynomial. Variants for unbounded intervals, tails and singular end points map their nodes through invertible monotone changes of variable and reproduce functions in their class.",
 ["inputs", "configurations"], "all intervals, polynomials of bounded degree, evaluation points (on, near and between nodes), compiled or plain",
 "evaluation at or next to a node, interval position and node count select different code; tests check interpolation only indirectly",
 ["pacal/interpolation.py", "pacal/bary_interp.pyx", "pacal/utils.py", "pacal/vartransforms.py"],
 [("barycentric evaluation", "pacal/interpolation.py:BarycentricInterpolator.interp_at, pacal/bary_interp.pyx"), ("adaptive refinement", "pacal/interpolation.py:AdaptiveInterpolator, AdaptiveInterpolator1"), ("node families", "pacal/utils.py:cheb_nodes, incremental_cheb_nodes, cheb_nodes1"), ("derivatives and roots", "pacal/interpolation.py:diff, roots")],
 ["interpolator values, nodes, err", "bary_interp vs plain"],
 state=[("Xs, Ys, weights", "nodes, values and barycentric weights", "pacal/interpolation.py:BarycentricInterpolator")])

prop("C21", "Sparse-grid interpolation combines subgrids without gaps or double counting",
 "For every dimension and depth the sparse-grid interpolator uses exactly the subgrids and coefficients of the combination technique, so that its weights sum to one, its node set is the union of the subgrids without repetition, refinement keeps every earlier node with its value, and it reproduces at every point any polynomial in the span of the grid; values at nodes equal the function. Compiled and plain evaluation agree, and scalar and array arguments give the same values.",
 ["inputs", "configurations"], "all dimensions and depths in scope, all polynomials in the exactness class, all evaluation points",
 "no test covers this module; index bookkeeping depends on dimension, depth and refinement history",
 ["pacal/depvars/sparse_grids.py", "pacal/bary_interp.pyx"],
 [("subgrid set and coefficients", "pacal/depvars/sparse_grids.py:gen_partitions, gen_Q, get_nodes"), ("refinement", "pacal/depvars/sparse_grids.py:adaptive_interp"), ("evaluation", "pacal/depvars/sparse_grids.py:full_grid_interp_new, pacal/bary_interp.pyx:c_dense_grid_interp")],
 ["gen_Q, get_nodes, subgrid_map", "interp_at"],
 state=[("nodes, subgrid_map, Ys", "grid nodes, subgrids with coefficients, values", "pacal/depvars/sparse_grids.py:AdaptiveSparseGridInterpolator")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
