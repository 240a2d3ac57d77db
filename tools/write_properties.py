"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})

prop("P01", "Arithmetic on discrete variables equals exact enumeration of outcomes",
 "For independent discrete variables (finite pmf, constants, sign, Bernoulli, binomial, truncated Poisson), any expression built with +, -, *, /, min, max, negation, abs, square, integer powers, reciprocal and shifting or scaling by a number has exactly the probability mass function obtained by enumerating the joint outcomes: same support points, probabilities equal up to rounding, total mass one. Values that coincide are merged, negative values, zeros, repeated support points and unsorted input are all allowed, and the distribution function steps exactly at the support points.",
 ["inputs", "programs"],
 "every expression up to a given depth over a small alphabet of discrete variables (with negative, zero, coinciding, non-integer values) and every operation",
 "No existing test does arithmetic on discrete variables at all; the property ranges over every pair of supports and every expression, which examples cannot cover.",
 ["pacal/indeparith.py", "pacal/distr.py", "pacal/segments.py", "pacal/standard_distr.py"],
 [("convdiracs", "pacal/indeparith.py"), ("DiracSegment, addSegment merging", "pacal/segments.py"), ("DiscreteDistr, FuncDistr.discrete", "pacal/distr.py")],
 observe=["Distr.get_piecewise_pdf().getDiracs()", "cdf", "mean", "var"])

prop("P02", "Arithmetic on bounded mixed variables matches the exact convolution",
 "For independent bounded variables that are any mixture of uniform pieces and point masses, the sum, difference, product, quotient, minimum and maximum have the exact distribution: the density, the distribution function and the point masses agree with the closed-form two-dimensional area computation at every point, and total probability is one. This holds whatever the position of the supports relative to zero and to each other (negative, straddling or touching zero, disjoint, nested, equal, with gaps, with atoms inside, at the ends of or outside the continuous part), and for chains of two operations.",
 ["inputs", "programs"],
 "every ordered pair from an alphabet of piecewise-uniform/mixed variables under every binary operation, plus every chain of two operations over a smaller alphabet",
 "The existing tests convolve a handful of normals and uniforms and check a moment; breakpoint, sign and atom configurations are combinatorial.",
 ["pacal/indeparith.py", "pacal/distr.py", "pacal/segments.py", "pacal/standard_distr.py"],
 [("conv, convprod, convdiv, convmin, convmax", "pacal/indeparith.py"), ("Segment algebra", "pacal/segments.py")],
 observe=["Distr.pdf", "Distr.cdf", "Distr.ccdf", "get_piecewise_pdf().getDiracs()", "int_error"])

prop("P03", "Arithmetic on unbounded or singular variables matches the true law",
 "For independent variables with infinite tails, heavy tails or density poles (normal, exponential, Laplace, Cauchy, gamma, chi-square, Student t, Pareto, beta, Levy, Weibull, logistic ...), the sum, difference, product, quotient, minimum and maximum of any two of them have the mathematically correct distribution function and a non-negative density of total mass one. Families closed under an operation (normal, Cauchy, gamma, chi-square, F and t as quotients, beta as a quotient, exponential minimum) come back as the known member.",
 ["inputs", "programs"],
 "every ordered pair from an alphabet of unbounded/singular distributions under every binary operation",
 "A handful of pairs (normal+normal, a few products) is tested; tails, poles and sign splits interact per pair and operation.",
 ["pacal/indeparith.py", "pacal/segments.py", "pacal/integration.py", "pacal/interpolation.py", "pacal/vartransforms.py"],
 [("convolution with poles and infinite segments", "pacal/indeparith.py"), ("MInfSegment, PInfSegment, SegmentWithPole", "pacal/segments.py")],
 observe=["Distr.pdf", "Distr.cdf"])

prop("P04", "A function of a variable carries its probability to the image",
 "For any variable X and any supported function g (shift, scale, negation, reciprocal, abs, square, integer and real power, square root, exponential, logarithm, number-to-the-X, arctangent, tanh, sigmoid, sign), the variable g(X) satisfies P(g(X) <= y) = P(X in preimage of (-inf, y]) for every y, with atoms mapped to atoms and total mass one. Compositions of such functions obey the same law.",
 ["inputs", "programs"],
 "every function from the list on every variable of an alphabet (bounded, unbounded, mixed, discrete, either sign, touching zero), and every composition of two functions",
 "Tests only square one normal variable; every function has sign, pole, range and atom special cases.",
 ["pacal/distr.py", "pacal/segments.py", "pacal/standard_distr.py"],
 [("FuncDistr and subclasses", "pacal/distr.py"), ("composition, probInvFun, squareComposition, copyShiftedAndScaled", "pacal/segments.py")],
 observe=["Distr.pdf", "Distr.cdf", "get_piecewise_pdf().getDiracs()"])

prop("P05", "Standard distributions are the textbook distributions",
 "Every standard distribution constructor yields, for every admissible parameter value, a non-negative density that vanishes outside the support, integrates to one, and agrees with the textbook density, distribution function and moments. Evaluating the density or distribution function at a number, at an array, or through the piecewise representation gives the same value.",
 ["inputs"],
 "every constructor in the library over a grid of parameters including the boundary cases (shape exactly 1, below 1, integer and half-integer degrees of freedom, negative locations)",
 "Tests check moments of three families at one parameter value each.",
 ["pacal/standard_distr.py", "pacal/gamma.py", "pacal/distr.py", "pacal/utils.py"],
 [("init_piecewise_pdf and pdf methods", "pacal/standard_distr.py")],
 observe=["Distr.pdf", "Distr.cdf", "Distr.mean", "Distr.var"])

prop("P06", "CDF, survival function, quantile and interval answers agree",
 "For every variable the distribution function is non-decreasing and right-continuous from 0 to 1, equals the integral of the density plus the atoms up to and including the point, and its complement is the survival function. Quantile, median, confidence interval and inter-quantile range are the generalised inverse of that same distribution function, both in their exact and in their interpolated form, for scalar and for array arguments.",
 ["inputs"],
 "every variable of an alphabet (base and derived, continuous, mixed, discrete, unbounded) at every point of a grid of arguments and probabilities including 0, 1, all atoms and both sides of all breakpoints",
 "Tests probe the inverse of one normal CDF; flat pieces, jumps and tails are per-variable.",
 ["pacal/segments.py", "pacal/distr.py"],
 [("CumulativePiecewiseFunction", "pacal/segments.py"), ("quantile, median, ci, iqrange", "pacal/distr.py")],
 observe=["cdf", "ccdf", "quantile", "median", "ci", "iqrange"])

prop("P07", "Summary statistics equal their definitions",
 "Mean, variance, standard deviation, raw and central moments, the moment generating function, skewness, kurtosis, expectations of functions, median absolute deviation, mode, entropy, Kullback-Leibler and L2 distances between variables, and the reported range equal the defining integral or extremum of the distribution. Undefined or infinite moments of heavy-tailed variables are never reported as ordinary finite numbers, and linear changes of variable transform every statistic as theory says.",
 ["inputs"],
 "every statistic on every variable of an alphabet, and every pair for the divergences",
 "Tests cover mean and variance of three families.",
 ["pacal/distr.py", "pacal/segments.py"],
 [("moment, meanf, summary_map, entropy, KL_div", "pacal/distr.py"), ("meanf, medianad, range", "pacal/segments.py")],
 observe=["summary_map", "moment", "entropy", "KL_div"])

prop("P08", "Conditioning and mixing obey the laws of probability",
 "Conditioning a variable on exceeding, staying below, or lying in an interval yields exactly the original law restricted to that event and renormalised, for continuous, mixed and discrete variables and for nested conditionings; conditioning on the whole support changes nothing, and the law of total probability recombines the parts. A mixture is the probability-weighted average of its component laws.",
 ["inputs", "programs"],
 "every variable of an alphabet under every threshold or pair of thresholds (at atoms, at breakpoints, inside, outside the support) and every nesting of two conditionings; every mixture of two or three components",
 "No existing test uses conditioning or mixtures.",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/segments.py"],
 [("CondGtDistr, CondLtDistr, CondBetweenDistr", "pacal/distr.py"), ("MixDistr", "pacal/standard_distr.py"), ("restrictToInterval", "pacal/segments.py")],
 observe=["cdf", "pdf", "getDiracs"])

prop("P09", "Algebra on piecewise functions is pointwise",
 "Sums, differences, products, quotients, powers and scalar multiples of piecewise functions, shifting and scaling, splitting, restriction to an interval, cumulative integration, composition and interpolation give at every point the value obtained by applying the operation to the values of the operands there, and leave the operands unchanged. The pieces always stay sorted and non-overlapping, and point masses are added or combined exactly.",
 ["inputs", "programs"],
 "every operation sequence up to a given length over an alphabet of piecewise functions (constants, linear pieces, infinite pieces, gaps, point masses), evaluated at all breakpoints, both sides of them, midpoints and infinity",
 "Existing tests add and multiply a few fixed pairs; overlap patterns and operation sequences are combinatorial.",
 ["pacal/segments.py"],
 [("PiecewiseFunction._operation, addSegment, splitByPoints", "pacal/segments.py")],
 observe=["PiecewiseFunction.__call__", "getBreaks", "getDiracs", "getSegments"])

prop("P10", "Queries and operations never change a variable",
 "Whatever sequence of queries (density, distribution function, quantiles, moments, interpolations, sampling, printing, plotting data) and operations involving a variable has happened before, every later answer about that variable and about variables derived from it is the same as in a fresh session. Building or evaluating an expression never alters its operands, and global numeric settings are restored after every operation.",
 ["histories"],
 "every sequence up to a given length of queries and operations on a shared set of variables, compared with a fresh session",
 "Answers are computed lazily and cached, and pieces are shared between objects; tests always start from fresh objects and ask each question once.",
 ["pacal/distr.py", "pacal/segments.py", "pacal/indeparith.py", "pacal/stats/iid_ops.py", "pacal/integration.py", "pacal/interpolation.py"],
 [("lazy piecewise_pdf/cdf/ccdf/interp caches", "pacal/distr.py"), ("shared segments", "pacal/segments.py"), ("quadrature node caches", "pacal/integration.py")],
 state=[("piecewise_pdf", "cached density", "pacal/distr.py"), ("_clenshaw_cache", "cached nodes", "pacal/integration.py")],
 observe=["pdf", "cdf", "params"])

prop("P11", "Parallel evaluation gives the same answers as serial evaluation",
 "With parallel evaluation on, every operation returns the same result as with it off, for any number of worker processes, any distribution of the points among workers and any completion order, whether variables were created before or after the workers started. An error in a worker reaches the caller instead of yielding a wrong or partial result, and variables keep distinct identities.",
 ["schedules", "configurations"],
 "every assignment of points to workers and every completion order up to a bound (controlled pool), and real pools of every size 1..4, over a set of operations and creation orders",
 "Tests run with whatever schedule the machine gives and never compare with serial evaluation.",
 ["pacal/utils.py", "pacal/indeparith.py", "pacal/distr.py", "pacal/rv.py", "pacal/depvars/nddistr.py"],
 [("get_parmap, process pool", "pacal/utils.py"), ("Convxrunner", "pacal/indeparith.py")],
 state=[("params.general.process_pool", "lazily created pool", "pacal/params.py")],
 observe=["pdf", "cdf"])

prop("P12", "Sampling turns uniform random numbers into the variable's own law",
 "Drawing from a variable applies, to every possible value of the underlying random source, a transformation whose push-forward is exactly the variable's distribution; the number and shape of the draws is as requested and every draw lies in the support. Draws from derived variables evaluate the defining expression on draws of the operands, and when dependency tracking is on, a variable occurring several times in an expression takes one value per draw.",
 ["inputs", "schedules"],
 "every value of a discretised random source (and every combination of such values for several operands) for every variable of an alphabet and every sampling method",
 "Existing tests never check samples; random testing cannot see small biases.",
 ["pacal/distr.py", "pacal/standard_distr.py", "pacal/segments.py", "pacal/rv.py"],
 [("rand, rand_raw, rand_invcdf, rand_op", "pacal/distr.py"), ("rand methods", "pacal/standard_distr.py")],
 observe=["rand", "rand_raw", "rand_invcdf"])

prop("P13", "Formulas, dependencies and ranges follow the expression that was built",
 "The symbolic formula of a derived variable is the formula that was typed, its printed name reads, with ordinary precedence, as that formula, its set of source variables is exactly the set occurring in the expression, and two expressions are reported as dependent exactly when they share a source variable. The value range reported for a derived variable contains every value the expression can take.",
 ["programs"],
 "every expression tree up to a given size over variables, numbers, arithmetic operators, min, max and functions, including shared subexpressions",
 "No existing test examines formulas, ancestry or ranges of expressions.",
 ["pacal/rv.py", "pacal/distr.py", "pacal/sympy_utils.py"],
 [("RV operators, OpRV/FuncRV subclasses, parents, range", "pacal/rv.py")],
 observe=["getSym", "getParentsAll", "getAncestorIDs", "range"])

prop("P14", "I.i.d. aggregates and noncentral laws match their combinatorial definition",
 "For every sample size n, the i.i.d. sum, product, minimum, maximum, average, geometric average, k-th order statistic, median and sample-quantile mixture of a variable have the distribution given by the n-fold definition, and the 'all sizes' form returns exactly the aggregates for sizes 1..n in order. The noncentral chi-square, t, F and beta laws agree with their Poisson-mixture definitions.",
 ["inputs"],
 "every aggregate, every n and k up to a bound, on every variable of an alphabet; a grid of noncentral parameters",
 "No existing test touches these functions.",
 ["pacal/stats/iid_ops.py", "pacal/stats/noncentral_distr.py", "pacal/utils.py"],
 [("_int_exp, _int_exp_all, iid_order_stat", "pacal/stats/iid_ops.py"), ("binomial_coeff", "pacal/utils.py")],
 observe=["cdf", "mean", "var"])

prop("P15", "Quadrature and interpolation reproduce the function they are given",
 "Each integration routine (finite, reversed, empty, half-infinite, infinite, with an end-point pole, vector-valued, iterated) returns the true integral within its error target for every integrand of the class it is meant for, and is exact on polynomials; each interpolator agrees with its function at nodes and in between, including after any sequence of refinements. The compiled and the pure-Python interpolation kernels agree, and none of this depends on which node sets were computed earlier.",
 ["inputs", "histories"],
 "every integration rule and interpolator over a grid of polynomial degrees, intervals and integrand classes, in every order of cached node sizes up to a bound",
 "Tests integrate a few fixed functions on fixed intervals.",
 ["pacal/integration.py", "pacal/interpolation.py", "pacal/vartransforms.py", "pacal/utils.py", "pacal/bary_interp.pyx", "pacal/depvars/sparse_grids.py"],
 [("nested Clenshaw-Curtis / Fejer rules and caches", "pacal/integration.py"), ("adaptive interpolation", "pacal/interpolation.py"), ("convergence_monitor", "pacal/utils.py"), ("c_bary_interp, c_dense_grid_interp", "pacal/bary_interp.pyx")],
 observe=["integrate_*", "*Interpolator"])

prop("P16", "Copulas couple their marginals without changing them",
 "Every copula's distribution function is grounded, has uniform margins, is increasing in every rectangle and lies between the Frechet bounds; its density is the mixed derivative of its distribution function, and with marginals attached the joint distribution has exactly those marginals. Eliminating a variable, conditioning on a value and the dependence coefficients agree with the definition of that copula.",
 ["inputs"],
 "every copula family, a grid of dependence parameters, two and three dimensions, all grid rectangles of the unit cube, a few marginals",
 "No existing test touches copulas.",
 ["pacal/depvars/copulas.py"],
 [("Copula.cdf/pdf/cpdf/ccdf and families", "pacal/depvars/copulas.py")],
 observe=["ccdf", "cpdf", "cdf", "pdf", "condition", "eliminate"])

prop("P17", "Joint distributions marginalise and condition consistently",
 "For a joint distribution of several variables, integrating out or conditioning on variables, by object or by position, gives the correct marginal or conditional density of the remaining variables, and the result does not depend on the order or grouping of the steps; conditional times marginal reproduces the joint density. Sparse-grid interpolation reproduces polynomials up to its degree exactly and agrees with the function at its nodes.",
 ["inputs", "programs"],
 "every sequence of eliminations and conditionings up to exhaustion of the variables, for multivariate normals, products of one-dimensional factors and order-statistics pairs",
 "No existing test touches joint distributions.",
 ["pacal/depvars/nddistr.py", "pacal/depvars/sparse_grids.py"],
 [("eliminate, condition, NDProductDistr.factor_out", "pacal/depvars/nddistr.py"), ("AdaptiveSparseGridInterpolator", "pacal/depvars/sparse_grids.py")],
 observe=["__call__", "eliminate", "condition"])

prop("P18", "Inference in a model does not depend on the route taken",
 "For a model of variables linked by equations, the distribution obtained for any wanted variables, unconditional or given values of others, equals the one computed directly from the joint law, whatever legal sequence of variable exchanges, eliminations and conditionings is used. Illegal steps are refused with an error and leave the model as it was, and inference never alters the model it starts from.",
 ["programs", "histories"],
 "every reachable model state under every sequence of exchange, eliminate and condition steps for a set of small models; every wanted/condition choice for automatic inference",
 "No existing test touches models; the set of elimination orders is combinatorial.",
 ["pacal/depvars/models.py", "pacal/depvars/nddistr.py", "pacal/sympy_utils.py"],
 [("Model.varschange, eliminate, condition, inference", "pacal/depvars/models.py")],
 state=[("free_rvs, dep_rvs, rv_to_equation, nddistr", "model state", "pacal/depvars/models.py")],
 observe=["Model.inference", "as1DDistr", "nddistr"])

prop("P19", "Plots, histograms and box plots show the variable asked for",
 "Whatever window, number of points and options are given, plotting a variable's density, distribution function, survival function or quantile function draws curves all of whose points lie on that function, covering the whole window (or support) and nothing outside of it, with every point mass in the window and no other shown at its probability. The bars of a histogram have areas equal to the shares of the drawn values they contain, counting values rejected by the window, and a box plot consists of exactly the five summary numbers (or the requested interval) and the mean.",
 ["inputs", "schedules"],
 "every window whose ends are taken from no limit, outside of the support, every break point and atom and points between, for every variable of an alphabet and every drawn function; every sequence of drawn values up to a length for histograms",
 "The existing tests draw a few plots and look at none of the values drawn; the windows relative to breaks, poles and atoms are combinatorial.",
 ["pacal/segments.py", "pacal/distr.py"],
 [("PiecewiseFunction.plot, Segment.plot and subclasses, getSegmentSpace", "pacal/segments.py"), ("Distr.plot, hist, boxplot, five_number_summary", "pacal/distr.py")],
 observe=["plot", "hist", "boxplot", "getPiecewiseSpace"])

prop("P20", "Maximum likelihood fits maximise the likelihood of the sample",
 "For every family of distributions, given as a class with its parameters taken from the constructor or as any function of named parameters in any order, the likelihood estimator reports minus the logarithm of the likelihood of the sample at any parameter values (values outside of the support count as almost impossible), passes every value to the parameter of that name, leaves the other parameters at their defaults, and finds parameters at which the likelihood is maximal.",
 ["inputs"],
 "every multiset of sample values up to a size, every choice and order of fitted parameters, every parameter combination of a grid, for thirteen families",
 "No existing test uses the estimator.",
 ["pacal/stats/distr_est.py", "pacal/standard_distr.py"],
 [("LoglikelihoodEstimator", "pacal/stats/distr_est.py")],
 observe=["logli", "find_params"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
