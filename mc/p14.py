"""P14: i.i.d. aggregates and noncentral laws against their definitions."""
import itertools
import math
import numpy as np
import scipy.special as sp
import scipy.stats as st

LEVEL = "model_checking"
RULE = ("transitions combine one more independent copy; for every aggregate (sum, product, minimum, maximum, average, geometric average, order statistic, median, sample-quantile mixture), every variable of an "
        "alphabet with a closed n-fold law and every n (every k for order statistics) up to a bound the library's result is built, separately and through the 'all sizes' form, and its distribution function, mean and "
        "variance compared with the definition; repeated squaring is explored for every n on an exact integer monoid that records the operands; noncentral laws over a grid of parameters against Poisson mixtures")
ASSUMPTIONS = ["scipy.stats and scipy.special are correct", "order statistics are defined for continuous variables", "the median of an even sample is the lower middle value"]
CPU_LIMIT = 300


# ------------------------------------------------------------------ closed n-fold laws
class D(object):
    """law given by distribution function, support marks, mean, variance"""
    def __init__(self, cdf, pts, mean=None, var=None, atoms=None):
        self.cdf, self.pts, self.mean, self.var, self.atoms = cdf, pts, mean, var, atoms or {}


def sci(d, atoms=None):
    p = np.array([1e-3, 0.01, 0.05, 0.2, 0.35, 0.5, 0.65, 0.8, 0.95, 0.99, 0.999])
    m, v = d.stats("mv")
    return D(lambda x: float(d.cdf(x)), [float(t) for t in d.ppf(p)], float(m) if np.isfinite(m) else None, float(v) if np.isfinite(v) else None)


def irwin_hall(n, x):
    """P(U1+..+Un <= x), exact rational arithmetic"""
    from fractions import Fraction as Fr
    x = Fr(float(x))
    if x <= 0: return 0.0
    if x >= n: return 1.0
    return float(sum((-1) ** k * math.comb(n, k) * (x - k) ** n for k in range(int(math.floor(x)) + 1)) / math.factorial(n))


def usum(n, a, b):
    g = np.linspace(0, n, 4 * n + 1)[1:-1] + 0.013
    return D(lambda x: irwin_hall(n, (x - n * a) / (b - a)), [n * a + (b - a) * t for t in g], n * (a + b) / 2.0, n * (b - a) ** 2 / 12.0)


def fromdict(at):
    ks = sorted(at)
    m = sum(k * p for k, p in at.items())
    return D(lambda x: sum(p for k, p in at.items() if k <= x), [(x + y) / 2.0 for x, y in zip(ks, ks[1:])] + [ks[0] - 1, ks[-1] + 1], m, sum((k - m) ** 2 * p for k, p in at.items()), at)


def fold(at, n, op):
    r = dict(at)
    for _ in range(n - 1):
        q = {}
        for a, p in r.items():
            for b, w in at.items():
                k = float(op(a, b))
                q[k] = q.get(k, 0.0) + p * w
        r = q
    return r


DICE = {"die": ("DiscreteDistr([1,2,3],[0.25,0.25,0.5])", {1.0: .25, 2.0: .25, 3.0: .5}), "pm": ("DiscreteDistr([-1,2],[0.25,0.75])", {-1.0: .25, 2.0: .75}), "coin": ("BernoulliDistr(0.25)", {0.0: .75, 1.0: .25})}


def atomu(n):
    """sum of n variables that are 0 or uniform on [0,1] with probability one half"""
    g = [k + t for k in range(n) for t in (0.21, 0.5, 0.77)] + [-0.1]
    return D(lambda x: sum(math.comb(n, k) * 0.5 ** n * (irwin_hall(k, x) if k else float(x >= 0)) for k in range(n + 1)), g, n * 0.25, n * (1 / 6. - 1 / 16.), {0.0: 0.5 ** n})


def uprod(n):
    g = [1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.4, 0.6, 0.8, 0.95]
    return D(lambda x: 0.0 if x <= 0 else 1.0 if x >= 1 else float(sp.gammaincc(n, -np.log(x))), g, 0.5 ** n, 3.0 ** -n - 0.25 ** n)


def pareto_prod(n):
    """product of Pareto(2, 1): logarithm is Gamma(n, 1/2)"""
    return D(lambda x: 0.0 if x <= 1 else float(sp.gammainc(n, 2 * np.log(x))), [float(np.exp(sp.gammaincinv(n, p) / 2)) for p in (0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97)], 2.0 ** n, None)


SUMS = {
    "U01": ("UniformDistr(0,1)", lambda n: usum(n, 0.0, 1.0)), "U12": ("UniformDistr(-1,2)", lambda n: usum(n, -1.0, 2.0)), "Exp": ("ExponentialDistr(2)", lambda n: sci(st.gamma(n, scale=0.5))),
    "N": ("NormalDistr(1,2)", lambda n: sci(st.norm(n, 2 * np.sqrt(n)))), "Cau": ("CauchyDistr(0.5,1)", lambda n: sci(st.cauchy(n, 0.5 * n))), "Gam": ("GammaDistr(1.5,2)", lambda n: sci(st.gamma(1.5 * n, scale=2))),
    "Chi": ("ChiSquareDistr(1)", lambda n: sci(st.chi2(n))), "Bin": ("BinomialDistr(2,0.25)", lambda n: fromdict(dict((float(k), float(st.binom.pmf(k, 2 * n, 0.25))) for k in range(2 * n + 1)))),
    "at": ("MixDistr([0.5,0.5],[UniformDistr(0,1),ConstDistr(0)])", atomu),
}
PRODS = {
    "U01": ("UniformDistr(0,1)", uprod), "Par": ("ParetoDistr(2,1)", pareto_prod), "LogN": ("exp(NormalDistr(0.1,0.5))", lambda n: sci(st.lognorm(0.5 * np.sqrt(n), scale=np.exp(0.1 * n)))),
    "U02": ("UniformDistr(0,2)", lambda n: scale(uprod(n), 2.0 ** n)),
}
for k, (e, at) in DICE.items():
    SUMS[k] = (e, lambda n, at=at: fromdict(fold(at, n, lambda a, b: a + b)))
    PRODS[k] = (e, lambda n, at=at: fromdict(fold(at, n, lambda a, b: a * b)))


def scale(L, s, shift=0.0):
    return D(lambda x: L.cdf((x - shift) / s), [t * s + shift for t in L.pts], None if L.mean is None else L.mean * s + shift, None if L.var is None else L.var * s * s, dict((k * s + shift, p) for k, p in L.atoms.items()))


def power(L, a):
    """law of X**a for positive X, a > 0"""
    return D(lambda x: L.cdf(x ** (1.0 / a)) if x > 0 else 0.0, [t ** a for t in L.pts if t > 0], None, None, dict((k ** a, p) for k, p in L.atoms.items()))


ONE = {
    "U12": ("UniformDistr(-1,2)", st.uniform(-1, 3)), "N": ("NormalDistr(1,2)", st.norm(1, 2)), "Exp": ("ExponentialDistr(2)", st.expon(scale=0.5)), "Cau": ("CauchyDistr(1,0)", st.cauchy()),
    "B23": ("BetaDistr(2,3)", st.beta(2, 3)), "Chi3": ("ChiSquareDistr(3)", st.chi2(3)), "Par": ("ParetoDistr(2,1)", st.pareto(2)), "Lap": ("LaplaceDistr(1,0)", st.laplace()), "Semi": ("SemicircleDistr(1)", st.semicircular()),
    "T": ("TrapezoidalDistr(0,1,2,4)", st.trapezoid(0.25, 0.5, 0, 4)), "Wei": ("WeibullDistr(1.5,1)", st.weibull_min(1.5)),
}
GRID = np.array([0.002, 0.03, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.97, 0.998])


def ordstat(d, n, k, kinks=()):
    """k-th smallest of n"""
    t = lambda x: float(sp.betainc(k, n - k + 1, d.cdf(x)))
    q = lambda u: float(d.ppf(sp.betaincinv(k, n - k + 1, u)))
    m = v = None
    return D(t, [q(u) for u in GRID], m, v)


def moments(L, d, n, k):
    from mc import laws
    u = laws.TS_T
    w = laws.TS_W
    x = d.ppf(sp.betaincinv(k, n - k + 1, u))
    ok = np.isfinite(x)
    m = float(np.sum(w[ok] * x[ok]))
    return m, float(np.sum(w[ok] * (x[ok] - m) ** 2))


# ------------------------------------------------------------------ cases
def cases(tier):
    q = tier == "quick"
    N = 6 if q else 10
    out = []
    for agg, tab in (("sum", SUMS), ("prod", PRODS), ("average", SUMS), ("geom", PRODS)):
        for v in tab:
            if agg == "geom" and v in ("pm", "coin"):
                continue                        # roots of variables with zero or negative values
            for n in range(1, (N if v not in ("Cau", "LogN", "Par") else min(N, 5)) + 1):
                if q and agg in ("average", "geom") and n not in (2, 3, 5):
                    continue
                out.append({"id": "%s of %d %s" % (agg, n, v), "kind": "fold", "agg": agg, "v": v, "n": n})
            out.append({"id": "%s of 1..%d %s" % (agg, min(N, 5), v), "kind": "all", "agg": agg, "v": v, "n": min(N, 5)})
    for agg in ("min", "max"):
        for v in list(ONE) + list(DICE) + ["at"]:
            out.append({"id": "%s of %s" % (agg, v), "kind": "extreme", "agg": agg, "v": v, "n": N})
    for v in ONE:
        for n in range(1, (5 if q else 8) + 1):
            out.append({"id": "order statistics of %d %s" % (n, v), "kind": "order", "v": v, "n": n})
        out.append({"id": "medians of %s" % v, "kind": "median", "v": v, "n": 7 if q else 11})
        out.append({"id": "quantile mixture of %s" % v, "kind": "unknown", "v": v, "n": 3 if q else 5})
    out.append({"id": "repeated squaring", "kind": "squaring", "n": 64 if q else 256})
    out.append({"id": "binomial coefficients", "kind": "coeff", "n": 40 if q else 60})
    for df, lam in itertools.product([1, 2, 3, 1.5, 5, 10], [0, 0.25, 1, 4, 20]):
        out.append({"id": "noncentral chi-square %s %s" % (df, lam), "kind": "nchi2", "p": [df, lam]})
    for df, mu in itertools.product([1, 2, 3, 5, 10], [0, 0.5, -1.0, 3]):
        out.append({"id": "noncentral t %s %s" % (df, mu), "kind": "nct", "p": [df, mu]})
    for a, b, l in itertools.product([1, 2, 5], [1, 3, 4], [0, 1, 5]):
        out.append({"id": "noncentral F %s %s %s" % (a, b, l), "kind": "ncf", "p": [a, b, l]})
    for a, b, l in itertools.product([0.5, 1, 2.5], [1, 2, 0.5], [0, 1, 5]):
        out.append({"id": "noncentral beta %s %s %s" % (a, b, l), "kind": "ncbeta", "p": [a, b, l]})
    return out


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        globals()[{"fold": "fold_", "all": "all_"}.get(case["kind"], case["kind"])](case, R)


def make(e):
    import pacal as P
    return eval(e, dict(P.__dict__))


def judge(R, what, Z, L, tol=1e-6, mtol=1e-5, moments=True):
    R.states += 1
    R.traces += 1
    for t in L.pts:
        if any(abs(t - k) < 1e-6 * max(1, abs(k)) for k in L.atoms):
            continue
        R.evals += 1
        w = L.cdf(t)
        R.seen(round(w, 9))
        R.close("cdf", float(Z.cdf(t)), w, tol, "%s: P(<= %r)" % (what, t))
    if L.pts:
        R.close("cdf array", Z.cdf(np.array(L.pts)), np.array([float(Z.cdf(t)) for t in L.pts]), 1e-9, what)
    for k, p in L.atoms.items():
        if p > 1e-9:
            got = sum(float(s.f) for s in Z.get_piecewise_pdf().getDiracs() if abs(float(s.a) - k) < 1e-11 * (1 + abs(k)))
            R.close("atom", got, p, 1e-9, "%s: P(= %r)" % (what, k))
    if moments:
        if L.mean is not None: R.close("mean", float(Z.mean()), L.mean, mtol * (1 + abs(L.mean) + np.sqrt(L.var or 0)), what + ": mean")
        if L.var is not None: R.close("variance", float(Z.var()), L.var, mtol * 10 * (1e-3 + L.var), what + ": variance")


def target(agg, v, n):
    if agg == "sum": return SUMS[v][0], SUMS[v][1](n)
    if agg == "average": return SUMS[v][0], scale(SUMS[v][1](n), 1.0 / n)
    if agg == "prod": return PRODS[v][0], PRODS[v][1](n)
    return PRODS[v][0], power(PRODS[v][1](n), 1.0 / n)


def op(agg):
    from pacal.stats import iid_ops as I
    return {"sum": I.iid_sum, "prod": I.iid_prod, "average": I.iid_average, "geom": I.iid_average_geom, "min": I.iid_min, "max": I.iid_max}[agg]


def fold_(case, R):
    e, L = target(case["agg"], case["v"], case["n"])
    X = make(e)
    Z = op(case["agg"])(X, case["n"])
    R.transitions += case["n"]
    judge(R, case["id"], Z, L, moments=case["agg"] != "geom")
    R.sample = "%s: P(<= %r) = %r" % (case["id"], L.pts[len(L.pts) // 2], L.cdf(L.pts[len(L.pts) // 2]))


def all_(case, R):
    agg, v, n = case["agg"], case["v"], case["n"]
    for m in range(1, n + 1):
        X = make(target(agg, v, 1)[0])
        Zs = op(agg)(X, m, all=True)
        R.same("number", len(Zs), m, "%s, all sizes up to %d" % (case["id"], m))
        R.transitions += m
        if m < n:
            continue
        for i, Z in enumerate(Zs):
            judge(R, "%s, size %d of %d" % (case["id"], i + 1, n), Z, target(agg, v, i + 1)[1], moments=False)


def extreme(case, R):
    agg, v = case["agg"], case["v"]
    N = case["n"]
    tol = 3e-4 if v == "Semi" else 1e-6         # accuracy limit: square-root ends
    if v in ONE:
        e, d = ONE[v]
        law = lambda n: ordstat(d, n, 1 if agg == "min" else n)
    elif v == "at":
        e = SUMS["at"][0]
        F = lambda x: 0.0 if x < 0 else min(1.0, 0.5 + 0.5 * x)
        law = lambda n: D((lambda x: F(x) ** n) if agg == "max" else (lambda x: 1 - (1 - F(x)) ** n), [-0.5, 0.1, 0.5, 0.9, 1.2], None, None, {0.0: 0.5 ** n if agg == "max" else 1 - 0.5 ** n})
    else:
        e, at = DICE[v]
        law = lambda n: fromdict(fold(at, n, min if agg == "min" else max))
    X = make(e)
    for n in range(1, N + 1):
        judge(R, "%s of %d %s" % (agg, n, v), op(agg)(X, n), law(n), tol=tol, moments=v in DICE)
        R.transitions += 1
    Zs = op(agg)(X, N, all=True)
    R.same("number", len(Zs), N, case["id"])
    for i, Z in enumerate(Zs):
        judge(R, "%s of %d %s, all sizes" % (agg, i + 1, v), Z, law(i + 1), tol=tol, moments=False)


TAIL = {"Cau": 1.0, "Par": 2.0}


def order(case, R):
    from pacal.stats import iid_ops as I
    e, d = ONE[case["v"]]
    n = case["n"]
    mean = 0.0
    for k in range(1, n + 1):
        X = make(e)
        Z = I.iid_order_stat(X, n, k)
        L = ordstat(d, n, k)
        R.transitions += 1
        judge(R, "order statistic %d of %d %s" % (k, n, case["v"]), Z, L, tol=2e-6)
        if case["v"] not in TAIL and (k, n) != (1, 0):
            m, v = moments(L, d, n, k)
            R.close("mean", float(Z.mean()), m, 1e-5 * (1 + abs(m)), "order statistic %d of %d %s: mean" % (k, n, case["v"]))
            R.close("variance", float(Z.var()), v, 1e-4 * (1 + v), "order statistic %d of %d %s: variance" % (k, n, case["v"]))
            mean += float(Z.mean())
    if case["v"] not in TAIL:
        R.close("sum of means", mean, n * float(d.mean()), 1e-5 * n * (1 + abs(d.mean())), case["id"] + ": the order statistics add up to the sample")


def median(case, R):
    from pacal.stats import iid_ops as I
    e, d = ONE[case["v"]]
    for n in range(1, case["n"] + 1):
        X = make(e)
        judge(R, "median of %d %s" % (n, case["v"]), I.iid_median(X, n), ordstat(d, n, (n + 1) // 2), tol=2e-6, moments=False)
        R.transitions += 1


def unknown(case, R):
    """equal mixture of the order statistics k..n"""
    from pacal.stats import iid_ops as I
    e, d = ONE[case["v"]]
    for n in range(1, case["n"] + 1):
        for k in range(1, n + 1):
            X = make(e)
            Z = I.iid_unknown(X, n, k)
            L = D(lambda x: sum(ordstat(d, n, i).cdf(x) for i in range(k, n + 1)) / (n - k + 1.0), ordstat(d, n, k).pts)
            judge(R, "mixture of order statistics %d..%d of %s" % (k, n, case["v"]), Z, L, tol=5e-6, moments=False)
            R.transitions += 1


class Word(object):
    """free monoid: which copies went into a result"""
    def __init__(self, n): self.n = n
    def __mul__(self, o): return Word(self.n + o.n)
    __add__ = __mul__
    def __truediv__(self, k): return (self.n, k)
    def __itruediv__(self, k): return (self.n, k)
    def __pow__(self, a): return (self.n, a)


def squaring(case, R):
    from pacal.stats import iid_ops as I
    from pacal import params
    import operator
    for n in range(1, case["n"] + 1):
        cnt = [0]
        def f(a, b):
            cnt[0] += 1
            return Word(a.n + b.n)
        R.same("copies", I.iid_op(Word(1), n, f).n, n, "copies combined for size %d" % n)
        R.transitions += cnt[0]
        R.same("copies", [t.n for t in I.iid_op(Word(1), n, f, all=True)], list(range(1, n + 1)), "all sizes up to %d" % n)
        R.same("copies", I.iid_sum(Word(1), n).n, n, "sum")
        R.same("copies", I.iid_prod(Word(1), n).n, n, "product")
        R.same("average", I.iid_average(Word(1), n), (n, n), "average of %d" % n)
        R.same("average", I.iid_average(Word(1), n, all=True), [(i, i) for i in range(1, n + 1)], "averages up to %d" % n)
        R.same("geometric average", I.iid_average_geom(Word(1), n), (n, 1.0 / n), "geometric average of %d" % n)
        R.same("geometric average", I.iid_average_geom(Word(1), n, all=True), [(i, 1.0 / i) for i in range(1, n + 1)], "geometric averages up to %d" % n)
        R.same("operator with counts", I.iid_op2(Word(1), n, lambda i, a, j, b: check(R, i, a, j, b)).n, n, "copies combined for size %d" % n)
        R.same("operator with counts", [t.n for t in I.iid_op2(Word(1), n, lambda i, a, j, b: check(R, i, a, j, b), all=True)], list(range(1, n + 1)), "all sizes up to %d" % n)
        R.states += 1
        R.evals += 10
        R.seen(cnt[0])


def check(R, i, a, j, b):
    R.true("operator with counts", (i, j) == (a.n, b.n), "operator called with counts (%r, %r) for aggregates of %d and %d copies" % (i, j, a.n, b.n))
    return Word(a.n + b.n)


def coeff(case, R):
    from pacal.utils import binomial_coeff, multinomial_coeff
    for n in range(0, case["n"] + 1):
        for k in range(0, n + 1):
            w = math.comb(n, k)
            R.close("binomial", float(binomial_coeff(n, k)), float(w), 1e-12 * w, "binomial coefficient %d %d" % (n, k))
            R.evals += 1
            R.states += 1
        for k in range(0, n + 1, 3):
            for j in range(0, n - k + 1, 4):
                w = math.factorial(n) // (math.factorial(k) * math.factorial(j) * math.factorial(n - k - j))
                R.close("multinomial", float(multinomial_coeff(n, [k, j, n - k - j])), float(w), 1e-12 * w, "multinomial coefficient %d: %d %d" % (n, k, j))
                R.evals += 1


def poisson_mix(cdf, lam):
    """sum over j of Poisson(lam/2) weights"""
    if lam == 0:
        return lambda x: cdf(0, x)
    J = np.arange(0, int(lam / 2 + 12 * np.sqrt(lam / 2 + 1) + 20))
    w = st.poisson.pmf(J, lam / 2.0)
    return lambda x: float(sum(a * cdf(j, x) for j, a in zip(J, w)))


def quant(cdf, lo, hi):
    from scipy.optimize import brentq
    return [brentq(lambda x: cdf(x) - p, lo, hi, xtol=1e-9) for p in GRID]


def nchi2(case, R):
    from pacal.stats import noncentral_distr as N
    df, lam = case["p"]
    F = poisson_mix(lambda j, x: float(st.chi2.cdf(x, df + 2 * j)) if x > 0 else 0.0, lam)
    judge(R, case["id"], N.NoncentralChiSquareDistr(df, lam), D(F, quant(F, 1e-12, 400), df + lam, 2.0 * (df + 2 * lam)), tol=2e-6)
    R.transitions += 1


def nct(case, R):
    from pacal.stats import noncentral_distr as N
    df, mu = case["p"]
    d = st.nct(df, mu) if mu else st.t(df)
    judge(R, case["id"], N.NoncentralTDistr(df, mu), D(lambda x: float(d.cdf(x)), [float(t) for t in d.ppf(GRID)]), tol=2e-6)
    R.transitions += 1


def ncf(case, R):
    from pacal.stats import noncentral_distr as N
    a, b, l = case["p"]
    F = poisson_mix(lambda j, x: float(sp.betainc(a / 2.0 + j, b / 2.0, a * x / (a * x + b))) if x > 0 else 0.0, l)
    judge(R, case["id"], N.NoncentralFDistr(a, b, l), D(F, quant(F, 1e-15, 1e9)), tol=2e-6)
    R.transitions += 1


def ncbeta(case, R):
    from pacal.stats import noncentral_distr as N
    a, b, l = case["p"]
    F = poisson_mix(lambda j, x: float(sp.betainc(a + j, b, x)) if x > 0 else 0.0, l)
    judge(R, case["id"], N.NoncentralBetaDistr(a, b, l), D(F, quant(F, 1e-15, 1 - 1e-15)), tol=2e-6)
    R.transitions += 1

