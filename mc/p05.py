"""P05: every standard constructor over a parameter grid against scipy.stats."""
import itertools
import numpy as np
import scipy.stats as st
from scipy import integrate

LEVEL = "exploration"
RULE = ("every constructor over the full product of its parameter grid (boundary shapes, values below and above one, integers, half-integers, "
        "small and large scales, negative locations); density at numbers, float arrays, integer arrays and through the piecewise form, "
        "distribution function, survival function, total mass, moments, range, break points; a case is non-trivial when its reference "
        "density takes at least three distinct values or it is discrete")
ASSUMPTIONS = ["reference densities, distribution functions and moments are those of scipy.stats",
               "at the ends of the support either the inner limit of the density or zero is accepted"]
CPU_LIMIT = 60


class _Molli(object):
    def __init__(self, e):
        self.e = e
        self.c = 1 / integrate.quad(lambda t: np.exp(-1 / (1 - t * t)), -1, 1, epsabs=1e-13)[0]
    def support(self): return -self.e, self.e
    def pdf(self, x):
        t = np.asarray(x, float) / self.e
        with np.errstate(all="ignore"):
            return np.where(np.abs(t) < 1, self.c / self.e * np.exp(-1 / np.where(np.abs(t) < 1, 1 - t * t, 1)), 0.0)
    def cdf(self, x):
        return np.array([0.0 if t <= -1 else 1.0 if t >= 1 else self.c * integrate.quad(lambda s: np.exp(-1 / (1 - s * s)), -1, t, epsabs=1e-13)[0]
                         for t in np.atleast_1d(np.asarray(x, float) / self.e)])
    def sf(self, x): return self.cdf(-np.asarray(x, float))
    def ppf(self, u): return self.e * np.linspace(-0.95, 0.95, np.size(u))
    def mean(self): return 0.0
    def var(self): return self.e ** 2 * self.c * integrate.quad(lambda t: t * t * np.exp(-1 / (1 - t * t)), -1, 1, epsabs=1e-13)[0]


G = {
    "NormalDistr": ([[0, 1, -3.5, 100], [1, 0.5, 0.001, 1000, 3]], lambda m, s: st.norm(m, s)),
    "UniformDistr": ([[0, -2, 0.5, -1.0, -1000], [1, 3.0, 0.75, 1000]], lambda a, b: st.uniform(a, b - a) if a < b else None),
    "TrapezoidalDistr": ([[-2, -1.5, 0, 0.5, 2, 2.25, 5]] * 4,
                         lambda a, b, c, d: st.trapezoid((b - a) / (d - a), (c - a) / (d - a), a, d - a) if a <= b <= c <= d and a < d else None),
    "CauchyDistr": ([[1, 0.5, 3, 0.01, 100], [0, 2, -5]], lambda g, c: st.cauchy(c, g)),
    "ChiSquareDistr": ([[1, 2, 3, 4, 5, 1.5, 2.5, 10, 20, 21, 50, 200]], lambda n: st.chi2(n)),
    "ExponentialDistr": ([[1, 2, 0.5, 0.25, 0.01, 10, 100]], lambda l: st.expon(scale=1.0 / l)),
    "GammaDistr": ([[0.5, 0.75, 1, 1.5, 2, 2.5, 3, 10, 100], [1, 0.5, 2, 10, 0.01]], lambda k, t: st.gamma(k, scale=t)),
    "BetaDistr": ([[0.5, 0.75, 1, 1.25, 1.5, 2, 2.5, 3, 10], [0.5, 0.75, 1, 1.25, 1.5, 2, 2.5, 3, 10]], lambda a, b: st.beta(a, b)),
    "ParetoDistr": ([[1, 0.5, 1.5, 2, 3, 10], [1, 2, 0.5, 0.01, 100]], lambda a, x: st.pareto(a, scale=x)),
    "LevyDistr": ([[1, 0.5, 2, 10, 0.01], [0, -2, 3]], lambda c, x: st.levy(x, c)),
    "LaplaceDistr": ([[1, 0.5, 2, 0.01, 100], [0, -2, 3]], lambda l, m: st.laplace(m, l)),
    "StudentTDistr": ([[1, 2, 3, 4, 5, 1.5, 0.5, 10, 50, 300]], lambda n: st.t(n)),
    "SemicircleDistr": ([[1, 0.5, 2, 10]], lambda r: st.semicircular(0, r)),
    "FDistr": ([[1, 2, 3, 4, 6, 10], [1, 2, 3, 4, 5, 7, 10, 20]], lambda a, b: st.f(a, b)),
    "WeibullDistr": ([[0.5, 0.75, 1, 1.5, 2, 2.5, 3, 5], [1, 2, 0.5, 10]], lambda k, l: st.weibull_min(k, scale=l)),
    "GumbelDistr": ([[0, 1, -3], [1, 0.5, 2, 10]], lambda m, s: st.gumbel_r(m, s)),
    "FrechetDistr": ([[1, 0.5, 2, 3.5, 10], [1, 0.5, 2], [0, -2, 3]], lambda a, s, m: st.invweibull(a, m, s)),
    "LogLogisticDistr": ([[0.5, 1, 1.5, 2, 2.5, 3, 8], [1, 0.5, 2, 10]], lambda k, s: st.fisk(k, scale=s)),
    "MollifierDistr": ([[1, 0.5, 2, 10]], lambda e: _Molli(e)),
}
DEFAULTS = {"NormalDistr": (0, 1), "UniformDistr": (0, 1), "TrapezoidalDistr": (0, 0, 1, 1), "CauchyDistr": (1, 0), "ChiSquareDistr": (1,),
            "ExponentialDistr": (1,), "GammaDistr": (2, 2), "BetaDistr": (1, 1), "ParetoDistr": (1, 1), "LevyDistr": (1, 0), "LaplaceDistr": (1, 0),
            "StudentTDistr": (2,), "SemicircleDistr": (1,), "FDistr": (1, 1), "WeibullDistr": (3, 1), "GumbelDistr": (0, 1), "FrechetDistr": (2, 1, 0),
            "MollifierDistr": (1,)}
D = {
    "BinomialDistr": ([[1, 2, 5, 20, 60], [0.5, 0.1, 0.75, 0.0, 0.99]], lambda n, p: st.binom(n, p)),
    "BernoulliDistr": ([[0.5, 0.25, 0.9, 0.0, 1.0]], lambda p: st.bernoulli(p)),
    "PoissonDistr": ([[1, 0.25, 2.5, 10, 40]], lambda l: st.poisson(l)),
}
BAD = [("NormalDistr", (0, 0)), ("NormalDistr", (0, -1)), ("ChiSquareDistr", (0,)), ("ChiSquareDistr", (-2,)), ("GammaDistr", (0, 1)), ("GammaDistr", (1, 0)),
       ("ParetoDistr", (0, 1)), ("ParetoDistr", (1, 0)), ("LevyDistr", (0,)), ("LaplaceDistr", (0,)), ("StudentTDistr", (0,)), ("SemicircleDistr", (0,)),
       ("WeibullDistr", (0, 1)), ("WeibullDistr", (1, 0)), ("GumbelDistr", (0, 0)), ("FrechetDistr", (0, 1)), ("FrechetDistr", (1, 0)),
       ("LogLogisticDistr", (0, 1)), ("LogLogisticDistr", (1, 0)), ("MollifierDistr", (0,))]
Q = np.array([1e-8, 1e-5, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 0.999, 1 - 1e-5, 1 - 1e-8])


def cases(tier):
    out = []
    for n, (grid, f) in G.items():
        for p in itertools.product(*grid):
            if f(*p) is not None:
                out.append({"id": "%s%r" % (n, tuple(p)), "kind": "cont", "n": n, "p": list(p)})
        if n in DEFAULTS:
            out.append({"id": n + "()", "kind": "cont", "n": n, "p": []})
        mid = lambda g: sorted(set(g) | set((a + b) / 2.0 for a, b in zip(sorted(g), sorted(g)[1:])))
        fine = [mid(g) if tier == "quick" else mid(mid(g)) for g in grid]
        for p in itertools.product(*fine):
            if f(*p) is not None and not all(x in g for x, g in zip(p, grid)):
                out.append({"id": "%s%r" % (n, tuple(p)), "kind": "cont", "n": n, "p": list(p)})
    for n, (grid, f) in D.items():
        for p in itertools.product(*grid):
            out.append({"id": "%s%r" % (n, tuple(p)), "kind": "disc", "n": n, "p": list(p)})
    for n, x in [("ConstDistr", [3]), ("ConstDistr", [-2.5]), ("ConstDistr", [0]), ("ZeroDistr", []), ("OneDistr", []), ("DiscreteDistr", [[2, -1, 0.5], [0.25, 0.5, 0.25]]), ("DiscreteDistr", [])]:
        out.append({"id": "%s%r" % (n, tuple(x)), "kind": "atom", "n": n, "p": x})
    for n, p in BAD:
        out.append({"id": "bad:%s%r" % (n, p), "kind": "bad", "n": n, "p": list(p)})
    return out


def run(case, R):
    import pacal
    cls = getattr(pacal, case["n"], None) or getattr(pacal.standard_distr, case["n"], None) or getattr(pacal.distr, case["n"])
    p = case["p"]
    what = case["id"]
    if case["kind"] == "bad":
        try:
            X = cls(*p)
        except Exception as e:
            R.evals += 1
            R.true("refusal", isinstance(e, (ValueError, AssertionError, RuntimeError)), "%s: refused by accident: %r" % (what, e))
            R.seen(what)
            return
        R.fail("refusal", what + " accepted")
        return
    if case["kind"] == "atom":
        X = cls(*p)
        want = {"ConstDistr": lambda: {p[0]: 1.0}, "ZeroDistr": lambda: {0: 1.0}, "OneDistr": lambda: {1: 1.0},
                "DiscreteDistr": lambda: {2: 0.25, -1: 0.5, 0.5: 0.25} if p else {0: 0.5, 1: 0.5}}[case["n"]]()
        atoms(X, want, R, what)
        return
    if case["kind"] == "disc":
        X = cls(*p)
        d = D[case["n"]][1](*p)
        k = np.arange(0, (int(p[0]) if case["n"] == "BinomialDistr" else 1 if case["n"] == "BernoulliDistr" else 150) + 1)
        atoms(X, {int(i): float(v) for i, v in zip(k, d.pmf(k)) if v > 1e-14}, R, what)
        R.close("mean", X.mean(), d.mean(), 1e-10 * max(1, d.mean()), what + " mean")
        R.close("var", X.var(), d.var(), 1e-9 * max(1, d.var()), what + " variance")
        return
    full = p or list(DEFAULTS[case["n"]])
    d = G[case["n"]][1](*full)
    X = cls(*p)
    a, b = map(float, d.support())
    x = np.unique(d.ppf(Q))
    x = x[(x > a) & (x < b)]
    sc = float(np.diff(d.ppf(np.array([0.25, 0.75])))[0])
    out = []
    if np.isfinite(a):
        out += [a - 1e-9 * sc, a - 0.1 * sc, a - 5 * sc, a - 1.0]
    if np.isfinite(b):
        out += [b + 1e-9 * sc, b + 0.1 * sc, b + 5 * sc, b + 1.0]
    pts = np.concatenate([x, out])
    w = np.nan_to_num(d.pdf(pts))
    w[len(x):] = 0.0
    tol = 1e-9 * np.maximum(np.abs(w), 1.0 / sc * 1e-6)
    R.seen([case["n"], full])
    PW = X.get_piecewise_pdf()
    R.close("pdf array", X.pdf(pts), w, tol, what + ".pdf(array)")
    R.close("pdf scalar", [float(X.pdf(float(v))) for v in pts], w, tol, what + ".pdf(number)")
    R.close("pdf piecewise", PW(pts), w, tol, what + " piecewise density")
    R.close("pdf piecewise scalar", [float(PW(float(v))) for v in pts], w, tol, what + " piecewise density at numbers")
    R.close("pdf call", X(pts), w, tol, what + "(array)")
    k = np.unique(np.clip(np.round(np.concatenate([x[2:-2], x[2:-2] + 1, [a - 1] if np.isfinite(a) else [], [b + 1] if np.isfinite(b) else []])), -10 ** 6, 10 ** 6)).astype(int)
    k = k[(k != a) & (k != b)]
    if len(k):
        wk = np.nan_to_num(d.pdf(k.astype(float)))
        tk = 1e-9 * np.maximum(np.abs(wk), 1.0 / sc * 1e-6)
        R.close("pdf int array", X.pdf(k), wk, tk, what + ".pdf(integer array)")
        R.close("pdf int scalar", [float(X.pdf(int(v))) for v in k], wk, tk, what + ".pdf(integer)")
        R.close("pw int array", PW(k), wk, tk, what + " piecewise density at an integer array")
    for e in (a, b):
        if np.isfinite(e):
            with np.errstate(all="ignore"):
                l = float(d.pdf(np.array([e]))[0])
                # two points approaching the end decide between a pole and a finite limit
                s = 1 if e == a else -1
                l1, l2 = [float(d.pdf(np.array([e + s * sc * h]))[0]) for h in (1e-5, 1e-10)]
            for nm, g in (("number", float(X.pdf(float(e)))), ("array", float(X.pdf(np.array([e]))[0])), ("piecewise", float(PW(float(e))))):
                if l2 > 1.5 * l1 and l2 > 100 / sc:
                    ok = g == 0 or g > l1 or g == l or g == np.inf
                else:
                    ok = g == 0 or (np.isinf(l) and np.isinf(g)) or abs(g - l2) <= 1e-3 * (l2 + 1 / sc) or abs(g - l) <= 1e-6 * (abs(l) + 1 / sc)
                R.true("edge " + nm, ok and not np.isnan(g), "%s: density at the end %g of the support through %s is %r (textbook %g)" % (what, e, nm, g, l))
    C = np.nan_to_num(d.cdf(pts))
    # a density with a pole at one cannot be followed closer to it than the spacing of floating point numbers
    tc = 1e-7 if case["n"] == "BetaDistr" and full[1] < 1 else 2e-8
    R.close("cdf array", X.cdf(pts), C, tc, what + ".cdf(array)")
    R.close("cdf scalar", [float(X.cdf(float(v))) for v in pts], C, tc, what + ".cdf(number)")
    R.close("ccdf", X.ccdf(pts), 1 - C, tc, what + ".ccdf(array)")
    R.close("mass", PW.integrate(), 1.0, tc, what + " mass")
    lo, hi = X.range()
    R.close("range", [lo, hi], [a, b], 1e-12 * sc, what + ".range()")
    R.close("breaks", [PW.getBreaks()[0], PW.getBreaks()[-1]], [a, b], 1e-12 * max(sc, abs(a) if np.isfinite(a) else 0, abs(b) if np.isfinite(b) else 0), what + " ends of the piecewise density")
    m, v = moments(case["n"], full, d)
    if m is not None and np.isfinite(m):
        t = 1e-7 * (sc + abs(m))
        R.close("mean", X.mean(), m, t, what + ".mean()")
        if v is not None and np.isfinite(v):
            R.close("var", X.var(), v, 1e-6 * (v + sc * sc), what + ".var()")
    R.sample = "%s: pdf(%.6g)=%.10g cdf=%.10g" % (what, x[len(x) // 2], w[len(x) // 2], C[len(x) // 2])


def moments(n, p, d):
    if n in ("CauchyDistr", "LevyDistr"):
        return None, None
    tail = {"ParetoDistr": lambda: p[0], "StudentTDistr": lambda: p[0], "FDistr": lambda: p[1] / 2.0, "FrechetDistr": lambda: p[0],
            "LogLogisticDistr": lambda: p[0]}.get(n, lambda: np.inf)()
    # tail index at least half above the order, so that the integral converges at a usable rate
    return (float(d.mean()) if tail >= 1.5 else None), (float(d.var()) if tail >= 3 else None)


def atoms(X, want, R, what):
    want = {float(k): v for k, v in want.items() if v > 0}
    R.seen(sorted(want.items()))
    got = {}
    P = X.get_piecewise_pdf()
    for s in P.getDiracs():
        got[float(s.a)] = got.get(float(s.a), 0.0) + float(s.f)
    R.true("continuous part", not [s for s in P.getSegments() if s.isSegment() and abs(s.integrate()) > 0], what + " has a continuous part")
    big = {k: v for k, v in got.items() if abs(v) > 1e-13}
    for k in set(big) | set(want):
        R.close("pmf", big.get(k, 0.0), want.get(k, 0.0), 1e-12, "%s: P(X=%g)" % (what, k))
    xs = sorted(want)
    pts = np.array(sorted(set(xs) | set(x + 0.5 for x in xs) | set([xs[0] - 1.0, xs[-1] + 2.0])))
    C = np.array([sum(v for k, v in want.items() if k <= t) for t in pts])
    R.close("cdf array", X.cdf(pts), C, 1e-12, what + ".cdf(array)")
    R.close("cdf scalar", [float(X.cdf(float(t))) for t in pts], C, 1e-12, what + ".cdf(number)")
    R.close("ccdf", X.ccdf(pts), 1 - C, 1e-12, what + ".ccdf")
    lo, hi = X.range()
    R.true("range", lo <= xs[0] + 1e-12 and hi >= xs[-1] - 1e-12, "%s: range %r does not contain the support [%g,%g]" % (what, (lo, hi), xs[0], xs[-1]))
    R.sample = "%s: %d atoms" % (what, len(xs))
