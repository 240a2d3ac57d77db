NOTES["P02"] = ("exhaustive enumeration of expression states over a bounded alphabet, each replayed on the library against a closed-form area model",
                "complete for every ordered pair of 19 mixed variables under six operations and every two-step chain over a smaller alphabet")
NOTES["P03"] = ("exhaustive enumeration of all ordered pairs, operations and three-operand chains over an alphabet of laws, on the real code, against reference integrals",
                "every ordered pair of 13 (quick) or 23 (thorough) laws under six operations, closed families, reassociated chains; agreement to 2e-6")
NOTES["P04"] = ("exhaustive enumeration of function-composition states over an alphabet of variables, each replayed on the library against exact preimages",
                "every supported function of every variable of the alphabet and every two-step composition over a smaller alphabet; exact sets with open and closed ends, measured by the law")
NOTES["P05"] = ("exhaustive enumeration of a grid of laws, parameters, argument kinds and evaluation points on the real code, against closed forms",
                "every law with every parameter of the grid, scalars, arrays of floats and of integers, ends of the support and points outside it")
NOTES["P06"] = ("exhaustive enumeration of variables, arguments and probabilities on the real code, against an exact distribution function and the definition of the generalised inverse",
                "every variable of an alphabet of base, mixed, discrete and derived variables; every breakpoint, atom, both sides, midpoints, infinities; probabilities at, between and inside all jumps; exact and interpolated, scalar and array")
NOTES["P07"] = ("exhaustive enumeration of variables, statistics, linear maps and pairs (divergences) on the real code, against defining integrals under the exact law",
                "every statistic of every variable of the alphabet; moments of order at or above the tail index must not be finite; linear maps transform every statistic; every ordered pair of 23 continuous and 9 discrete variables for the divergences")
NOTES["P08"] = ("exhaustive breadth-first enumeration of conditioning states (variable, interval) and of mixtures, each built on the library and compared with the restricted or averaged law",
                "every event made of grid thresholds of every variable, two (three at the thorough tier) nested conditionings, every pair and triple of an alphabet mixed, total probability at every threshold")
NOTES["P09"] = ("exhaustive enumeration of operation sequences over an alphabet of piecewise functions, every path replayed on the library against an explicit model of pieces and point masses",
                "all ordered pairs of 12 functions under four operations, all two-step chains (three-step at the thorough tier), numbers on both sides, split, restrict, shift-and-scale, compositions, interpolation, integrals; operands compared with a snapshot after every step")
NOTES["P10"] = ("exhaustive enumeration of action histories on the real code, each on new objects, compared with the answers of a pristine forked process",
                "ten scenes of live variables; every history of one action, every ordered pair (triple at the thorough tier) of 20 cache-filling actions, and one long history per scene containing every ordered pair of 57 actions in succession")
NOTES["P11"] = ("stateless exploration of the parallel map: a controlled pool enumerates chunk sizes and completion orders across a pickle boundary, every permutation of four chunks at every early parallel call, fault injection, plus real pools of 1-4 workers",
                "25 schedules for each of 36 operand/operation pairs, 24 permutations at each of 6 (14) parallel calls, 51 kinds of operand across the process boundary, faults at 12 (48) intervals of the support, identities and small programs; reference: the serial result, compared piece by piece")
NOTES["P12"] = ("exhaustive enumeration of the discretised random source: numpy.random is replaced by a controlled source that visits every elementary box of its unit cube, and the push-forward is compared with the law; expressions are replayed draw by draw",
                "all standard constructors over parameter grids, 190+ variables, conditioned variables, mixtures (every probability vector in quarters up to 4 components), discrete laws in steps, extreme source values one by one, sizes None/0/1/2/7; every legal expression of a two-level (three-level) grammar with and without tracking")
NOTES["P13"] = ("exhaustive enumeration of expressions by applying one operation at a time to reached states, each state's formula, equations, sources, range and dependence warning checked against the typed tree",
                "every one-level expression over four sources and 37 operations, every operation applied to every one-level expression (all second operands at the thorough tier), three-level expressions with shared subexpressions, every ordered pair of small states for the dependence warning; formulas evaluated on a grid of source values")
NOTES["P14"] = ("exhaustive enumeration of aggregates built by combining one more independent copy at a time, every reached size judged against the closed n-fold law; repeated squaring explored for every size on a free monoid that records its operands",
                "sums, averages, products, geometric averages of 13 and 7 variables for sizes up to 6 (10), minima and maxima of 15 variables, every order statistic of every size up to 5 (8), medians, every mixture of order statistics; squaring for every n up to 64 (256); 111 noncentral laws")
NOTES["P15"] = ("exhaustive enumeration of rules, functions, intervals, refinement and call histories on the real quadrature and interpolation code, against closed integrals and the functions themselves",
                "every rule size against every Chebyshev polynomial it must integrate; every routine over every interval of a grid in both directions; node-adding orders, coincidence patterns of the compiled kernel up to length 3, call sequences of length 3 over eight integrations from empty caches, error histories of the convergence monitor against a reference monitor, sparse grids on every monomial")
NOTES["P16"] = ("exhaustive enumeration of copula families, rectangles, marginals, elimination orders, conditioning sets and call histories on the real code, against closed-form copulas",
                "every rectangle of a 9-point (5-point in three dimensions) grid, every order and naming of eliminated and conditioned variables, every pair of variables for each dependence coefficient, all call histories of length 2 (3) over nine actions; quick: 23 copulas, thorough: 32")
NOTES["P17"] = ("breadth-first enumeration of elimination and conditioning sequences on real joint distributions, every reached distribution compared with its closed form so that all routes must agree",
                "every sequence of eliminate/condition steps (by position or object, alone or grouped) from 20 joint laws down to nothing; all conditional distributions of each law; regressions; every pair of order statistics up to n=5; sparse grids on all monomials")
NOTES["P18"] = ("exhaustive enumeration of sequences of exchange, elimination and conditioning steps, legal and illegal, on real models, every reached model and every inference compared with the joint law computed directly from the sources",
                "15 models of one to three variables (four at the thorough tier): all sequences up to length 2-4 (3-5), every wanted set of one or two variables under every set of given ones; about 8000 illegal steps; 400 operations of two variables under four couplings")

NOTES["P19"] = ("exhaustive enumeration of windows and options for every variable and drawn function, and of all short sequences of drawn values for histograms; every vertex on the off-screen canvas is judged",
                "all windows between at most eight marks (breaks, atoms, between, outside) for 32 variables (all of the alphabet at the thorough tier) and five functions; all samples of length up to 4 (5) over four values under eight windows and three numbers of bins")
NOTES["P20"] = ("exhaustive enumeration of samples, parameter subsets and orders and parameter grids on the real estimator against textbook likelihoods and an independent maximisation",
                "thirteen families, every order of every subset of parameters, all multisets of up to 3 (4) values, the full parameter grid")
