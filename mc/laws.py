"""Reference laws: scipy distributions, and the distribution function of X op Y by one-dimensional integration over
the quantile function of Y.  Nothing here comes from the code under test."""
import numpy as np
import scipy.stats as st

# tanh-sinh nodes on (0,1): t (distance from the left end) and 1-t, with weights
_h = 0.06
_k = np.arange(-62, 63) * _h
_s = np.pi / 2 * np.sinh(_k)
TS_T = 1.0 / (1.0 + np.exp(-2 * _s))
TS_C = 1.0 / (1.0 + np.exp(2 * _s))
TS_W = _h * np.pi / 2 * np.cosh(_k) / (2 * np.cosh(_s) ** 2)


class Law(object):
    """frozen scipy law with its breakpoints (kinks and poles of the density)"""
    def __init__(self, d, brk=(), name=""):
        self.d = d
        a, b = d.support()
        self.a, self.b = float(a), float(b)
        self.brk = sorted(set([x for x in (self.a, self.b) if np.isfinite(x)] + list(brk)))
        self.name = name
        self._marks = None
    def marks(self):
        """breakpoints and quantiles: where the distribution function is singular or turns"""
        if self._marks is None:
            p = np.array([1e-9, 1e-6, 1e-3, 0.03, 0.2, 0.5])
            q = np.concatenate([self.d.ppf(p), self.d.isf(p)])
            self._marks = sorted(set(self.brk) | set(float(x) for x in q if np.isfinite(x)))
        return self._marks
    def cdf(self, x): return self.d.cdf(x)
    def pdf(self, x): return self.d.pdf(x)
    def q(self, u, c):
        """quantile, u lower and c upper probability"""
        return np.where(u <= 0.5, self.d.ppf(u), self.d.isf(c))


_GRADE = np.array([0, 1e-12, 1e-8, 1e-5, 1e-3, 0.03, 0.15, 0.35, 0.5])


def integrate_q(Y, f, kinks):
    """E f(Y) for bounded f that is smooth in y except at kinks"""
    ks = [k for k in kinks if np.isfinite(k) and Y.a < k < Y.b]
    lo = [(float(u), float(1 - u)) for u in _GRADE] + [(float(1 - u), float(u)) for u in _GRADE[:-1]]
    for k in list(ks) + [b for b in Y.brk if Y.a < b < Y.b]:
        lo.append((float(Y.d.cdf(k)), float(Y.d.sf(k))))
    lo.sort(key=lambda p: (p[0], -p[1]))
    tot = 0.0
    for (u0, c0), (u1, c1) in zip(lo[:-1], lo[1:]):
        w = u1 - u0 if u1 <= 0.5 else c0 - c1
        if w <= 0:
            continue
        u = u0 + w * TS_T
        c = c1 + w * TS_C
        u = np.where(u < 0.5, u, 1 - c)
        c = np.where(c < 0.5, c, 1 - u)
        v = f(Y.q(u, c))
        tot += w * float(np.sum(TS_W * np.where(np.isfinite(v), v, 0.0)))
    return tot


def cdf_op(op, X, Y, z):
    """P(X op Y <= z) for continuous independent X, Y"""
    bx = X.marks()
    F, S = X.d.cdf, X.d.sf
    if op == "+":
        return integrate_q(Y, lambda y: F(z - y), [z - b for b in bx])
    if op == "-":
        return integrate_q(Y, lambda y: F(z + y), [b - z for b in bx])
    if op == "min":
        return 1 - (1 - F(z)) * Y.d.sf(z)
    if op == "max":
        return F(z) * Y.d.cdf(z)
    if op == "*":
        def f(y):
            with np.errstate(all="ignore"):
                r = z / y
            return np.where(y > 0, F(r), np.where(y < 0, S(r), float(z >= 0)))
        return integrate_q(Y, f, [0.0] + [z / b for b in bx if b != 0])
    if op == "/":
        def f(y):
            r = z * y
            return np.where(y > 0, F(r), S(r))
        return integrate_q(Y, f, [0.0] + ([b / z for b in bx] if z != 0 else []))
    raise ValueError(op)


# name -> (constructor expression on the library, reference law)
DEFS = {
    "N01": ("NormalDistr(0,1)", lambda: Law(st.norm(0, 1))),
    "N1h": ("NormalDistr(1,0.5)", lambda: Law(st.norm(1, 0.5))),
    "Exp": ("ExponentialDistr(1)", lambda: Law(st.expon())),
    "Exp2": ("ExponentialDistr(2)", lambda: Law(st.expon(scale=0.5))),
    "mExp": ("-ExponentialDistr(1)", lambda: Law(_Neg(st.expon()))),
    "Lap": ("LaplaceDistr(1,0)", lambda: Law(st.laplace(0, 1), [0.0])),
    "Cau": ("CauchyDistr(1,0)", lambda: Law(st.cauchy(0, 1))),
    "Cau2": ("CauchyDistr(2,1)", lambda: Law(st.cauchy(1, 2))),
    "Gam": ("GammaDistr(2,1)", lambda: Law(st.gamma(2))),
    "Chi1": ("ChiSquareDistr(1)", lambda: Law(st.chi2(1))),
    "Chi3": ("ChiSquareDistr(3)", lambda: Law(st.chi2(3))),
    "T3": ("StudentTDistr(3)", lambda: Law(st.t(3))),
    "Par": ("ParetoDistr(2,1)", lambda: Law(st.pareto(2))),
    "Bhh": ("BetaDistr(0.5,0.5)", lambda: Law(st.beta(0.5, 0.5))),
    "B23": ("BetaDistr(2,3)", lambda: Law(st.beta(2, 3))),
    "Lev": ("LevyDistr(1)", lambda: Law(st.levy(0, 1))),
    "Wei": ("WeibullDistr(1.5,1)", lambda: Law(st.weibull_min(1.5))),
    "LLog": ("LogLogisticDistr(3,2)", lambda: Law(st.fisk(3, scale=2))),
    "U": ("UniformDistr(-1,2)", lambda: Law(st.uniform(-1, 3))),
    "U12": ("UniformDistr(1,2)", lambda: Law(st.uniform(1, 1))),
    "Semi": ("SemicircleDistr(1)", lambda: Law(st.semicircular(0, 1))),
    "F35": ("FDistr(3,5)", lambda: Law(st.f(3, 5))),
    "Gum": ("GumbelDistr(0,1)", lambda: Law(st.gumbel_r())),
}


class _Neg(object):
    """-X"""
    def __init__(self, d): self.e = d
    def support(self):
        a, b = self.e.support()
        return -b, -a
    def cdf(self, x): return self.e.sf(-np.asarray(x, float))
    def sf(self, x): return self.e.cdf(-np.asarray(x, float))
    def pdf(self, x): return self.e.pdf(-np.asarray(x, float))
    def ppf(self, u): return -self.e.isf(u)
    def isf(self, u): return -self.e.ppf(u)


def law(n):
    return DEFS[n][1]()


def impl(n):
    import pacal as P
    return eval(DEFS[n][0], dict(P.__dict__))
