"""P03: arithmetic on unbounded and singular variables against one-dimensional reference integrals."""
import numpy as np
import scipy.stats as st
from mc import laws as L

LEVEL = "exploration"
RULE = ("every ordered pair from an alphabet of unbounded, heavy-tailed and singular laws under every one of + - * / min max "
        "is built on the library; its distribution function is compared with E[F_X(...Y...)] computed by tanh-sinh quadrature over "
        "the reference quantile function at points taken from all combinations of operand quantiles, plus zero, both tails, and all "
        "breakpoint combinations; density sign and total mass are checked; closed families are compared with the known member, "
        "and chains of three operands with reassociated chains")
ASSUMPTIONS = ["distribution functions agree to 2e-6, or 5e-4 when an operand density is singular at a point other than zero (semicircle, arcsine)",
               "reference laws are those of scipy.stats"]
CPU_LIMIT = 150
OPS = ["+", "-", "*", "/", "min", "max"]
QUICK = ["N01", "N1h", "Exp2", "mExp", "Lap", "Cau2", "Gam", "Chi1", "Par", "Bhh", "B23", "U", "F35"]
LOOSE = {"Bhh", "Semi"}


def lib(op, X, Y):
    import pacal as P
    return {"+": lambda: X + Y, "-": lambda: X - Y, "*": lambda: X * Y, "/": lambda: X / Y,
            "min": lambda: P.min(X, Y), "max": lambda: P.max(X, Y)}[op]()


FAM = {
    "N(1,2)+N(-3,1.5)": ("NormalDistr(1,2)+NormalDistr(-3,1.5)", lambda: st.norm(-2, 2.5)),
    "N(1,2)-N(-3,1.5)": ("NormalDistr(1,2)-NormalDistr(-3,1.5)", lambda: st.norm(4, 2.5)),
    "3*N(1,2)-4": ("3*NormalDistr(1,2)-4", lambda: st.norm(-1, 6)),
    "Cauchy+Cauchy": ("CauchyDistr(2,1)+CauchyDistr(0.5,-4)", lambda: st.cauchy(-3, 2.5)),
    "Cauchy-Cauchy": ("CauchyDistr(2,1)-CauchyDistr(0.5,-4)", lambda: st.cauchy(5, 2.5)),
    "Gamma+Gamma": ("GammaDistr(1.5,2)+GammaDistr(2.25,2)", lambda: st.gamma(3.75, scale=2)),
    "Chi2(1)+Chi2(2)": ("ChiSquareDistr(1)+ChiSquareDistr(2)", lambda: st.chi2(3)),
    "Chi2(1)+Chi2(1)": ("ChiSquareDistr(1)+ChiSquareDistr(1)", lambda: st.chi2(2)),
    "Chi2(5)+Chi2(7)": ("ChiSquareDistr(5)+ChiSquareDistr(7)", lambda: st.chi2(12)),
    "Exp+Exp": ("ExponentialDistr(2)+ExponentialDistr(2)", lambda: st.gamma(2, scale=0.5)),
    "Exp-Exp": ("ExponentialDistr(2)-ExponentialDistr(2)", lambda: st.laplace(0, 0.5)),
    "N/N": ("NormalDistr(0,2)/NormalDistr(0,3)", lambda: st.cauchy(0, 2 / 3.)),
    "F": ("(ChiSquareDistr(3)/3)/(ChiSquareDistr(5)/5)", lambda: st.f(3, 5)),
    "T": ("NormalDistr(0,1)/sqrt(ChiSquareDistr(4)/4)", lambda: st.t(4)),
    "F21": ("FDistr(2,6)", lambda: st.f(2, 6)),
    "Gamma/(Gamma'+..)": ("GammaDistr(2,1)/GammaDistr(3,1)", lambda: st.betaprime(2, 3)),
    "1/Cauchy": ("1/CauchyDistr(1,0)", lambda: st.cauchy(0, 1)),
    "1/F": ("1/FDistr(4,7)", lambda: st.f(7, 4)),
    "min Exp": ("min(ExponentialDistr(2),ExponentialDistr(3))", lambda: st.expon(scale=0.2)),
    "min Par": ("min(ParetoDistr(2,1),ParetoDistr(1.5,1))", lambda: st.pareto(3.5)),
    "min Wei": ("min(WeibullDistr(2,1),WeibullDistr(2,1))", lambda: st.weibull_min(2, scale=2 ** -0.5)),
    "max U": ("max(UniformDistr(0,1),UniformDistr(0,1))", lambda: st.beta(2, 1)),
    "max Gumbel": ("max(GumbelDistr(0,1),GumbelDistr(0,1))", lambda: st.gumbel_r(np.log(2), 1)),
    "max Frechet": ("max(FrechetDistr(2,1,0),FrechetDistr(2,1,0))", lambda: st.invweibull(2, scale=2 ** 0.5)),
    "Levy+Levy": ("LevyDistr(1,0)+LevyDistr(4,0)", lambda: st.levy(0, 9)),
    "1/N**2": ("1/NormalDistr(0,1)**2", lambda: st.levy(0, 1)),
    "N**2": ("NormalDistr(0,1)**2", lambda: st.chi2(1)),
    "exp N": ("exp(NormalDistr(0.5,0.75))", lambda: st.lognorm(0.75, scale=np.exp(0.5))),
    "logn*logn": ("exp(NormalDistr(0.5,0.75))*exp(NormalDistr(-1,1))", lambda: st.lognorm(1.25, scale=np.exp(-0.5))),
    "U*U*U": ("UniformDistr()*UniformDistr()*UniformDistr()", lambda: _U3()),
    "-log U": ("-log(UniformDistr(0,1))", lambda: st.expon()),
    "Exp/Exp": ("ExponentialDistr(1)/ExponentialDistr(1)", lambda: st.fisk(1)),
    "Par as exp": ("exp(ExponentialDistr(2))", lambda: st.pareto(2)),
    "sum of 4 exp": ("ExponentialDistr(1)+ExponentialDistr(1)+ExponentialDistr(1)+ExponentialDistr(1)", lambda: st.gamma(4)),
    "N sum of 3": ("NormalDistr(1,1)+NormalDistr(2,2)-NormalDistr(0,2)", lambda: st.norm(3, 3)),
}


class _U3(object):
    def support(self): return 0.0, 1.0
    def cdf(self, z):
        z = np.asarray(z, float)
        l = np.where(z > 0, -np.log(np.maximum(z, 1e-300)), 700)
        return z * (1 + l + l * l / 2)
    def pdf(self, z):
        l = -np.log(z)
        return l * l / 2
    def ppf(self, u): return np.array([1e-5, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 0.97, 0.99])[:len(np.atleast_1d(u))]

CH3 = ["N01", "Exp2", "U", "Chi1"]


def cases(tier):
    names = QUICK if tier == "quick" else list(L.DEFS)
    out = [{"id": "fam:" + k, "kind": "fam", "f": k, "cost": 2} for k in FAM]
    for a in names:
        for b in names:
            for op in OPS:
                out.append({"id": "%s %s %s" % (a, op, b), "kind": "pair", "a": a, "b": b, "op": op, "cost": op in "*/"})
    n3 = CH3 if tier == "quick" else CH3 + ["Lap", "Cau2", "Par", "B23"]
    for i, a in enumerate(n3):
        for j, b in enumerate(n3):
            for k, c in enumerate(n3):
                for op in ["+", "*", "min", "max"]:
                    if i <= j <= k and (op != "*" or tier != "quick" or i < j < k):
                        out.append({"id": "assoc:%s %s %s %s" % (a, op, b, c), "kind": "assoc", "a": a, "b": b, "c": c, "op": op, "cost": 2})
                if i != j:
                    out.append({"id": "assoc:(%s - %s) - %s" % (a, b, c), "kind": "assoc", "a": a, "b": b, "c": c, "op": "-", "cost": 2})
    return out


QX = [1e-5, 0.03, 0.3, 0.6, 0.97]
QY = [1e-4, 0.05, 0.4, 0.75, 0.995]


def points(op, X, Y):
    f = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide, "min": np.minimum, "max": np.maximum}[op]
    qx, qy = X.d.ppf(QX), Y.d.ppf(QY)
    z = f.outer(qx, qy).ravel()
    bx, by = np.array(X.brk), np.array(Y.brk)
    e = [0.0]
    if len(bx) and len(by):
        with np.errstate(all="ignore"):
            b = f.outer(bx, by).ravel()
        b = b[np.isfinite(b)]
        e += list(b) + list(b + 1e-3) + list(b - 1e-3) + list(b + 0.2) + list(b - 0.2)
    z = np.unique(np.concatenate([z, e]))
    return z[np.isfinite(z)]


def run(case, R):
    if case["kind"] == "pair":
        a, b, op = case["a"], case["b"], case["op"]
        X, Y = L.law(a), L.law(b)
        Z = lib(op, L.impl(a), L.impl(b))
        z = points(op, X, Y)
        want = np.array([L.cdf_op(op, X, Y, float(v)) for v in z])
        loose = bool({a, b} & LOOSE)
        tol = 5e-4 if loose else 2e-6
        R.seen([round(float(v), 6) for v in want])
        got = Z.cdf(z)
        R.close("cdf", got, want, tol, case["id"] + " cdf")
        i = len(z) // 2
        R.close("cdf scalar", [float(Z.cdf(float(z[i]))), float(Z.cdf(float(z[0])))], [want[i], want[0]], tol, case["id"] + " cdf(scalar)")
        R.close("ccdf", Z.ccdf(z), 1 - want, tol, case["id"] + " ccdf")
        R.close("mass", Z.get_piecewise_pdf().integrate(), 1.0, tol, case["id"] + " mass")
        p = Z.pdf(z[(want > 1e-9) & (want < 1 - 1e-9)])
        R.true("sign", np.all(p >= -1e-9), case["id"] + ": negative or undefined density %s" % p)
        R.true("no atoms", not [s for s in Z.get_piecewise_pdf().getDiracs() if abs(s.f) > 1e-12], case["id"] + ": point masses in a continuous result")
        R.sample = "P(Z<=%.4g)=%.9f" % (z[i], want[i])
    elif case["kind"] == "fam":
        import pacal as P
        e, d = FAM[case["f"]]
        Z = eval(e, dict(P.__dict__))
        d = d()
        z = np.asarray(d.ppf(np.array([1e-6, 1e-3, 0.02, 0.1, 0.25, 0.4, 0.5, 0.6, 0.8, 0.95, 0.99, 0.9999])))
        R.close("cdf", Z.cdf(z), d.cdf(z), 1e-6, e + " cdf")
        z = z[np.abs(z) > 1e-9]         # the density of 1/X is undefined at the single point 0
        w = d.pdf(z)
        R.close("pdf", Z.pdf(z), w, 2e-5 * np.maximum(w, 1), e + " pdf")
        R.close("mass", Z.get_piecewise_pdf().integrate(), 1.0, 1e-6, e + " mass")
        R.seen(case["f"])
        R.sample = "%s: P(Z<=%.4g)=%.9f" % (e, z[5], float(Z.cdf(float(z[5]))))
    else:
        a, b, c, op = case["a"], case["b"], case["c"], case["op"]
        I = L.impl
        Z1 = lib(op, lib(op, I(a), I(b)), I(c))
        if op == "-":
            Z2 = I(a) - (I(b) + I(c))
        else:
            Z2 = lib(op, I(a), lib(op, I(b), I(c)))
        f = {"+": np.add, "-": np.subtract, "*": np.multiply, "min": np.minimum, "max": np.maximum}[op]
        z = f.outer(f.outer(L.law(a).d.ppf([.01, .4, .9]), L.law(b).d.ppf([.05, .5, .97])), L.law(c).d.ppf([.02, .6, .99])).ravel()
        z = np.unique(z)
        R.close("assoc", Z1.cdf(z), Z2.cdf(z), 4e-6, case["id"])
        R.close("mass", [Z1.get_piecewise_pdf().integrate(), Z2.get_piecewise_pdf().integrate()], [1, 1], 4e-6, case["id"] + " mass")
        R.seen([round(float(v), 6) for v in Z1.cdf(z)])
        R.sample = case["id"]
