"""P20: maximum likelihood fits maximise the likelihood of the sample."""
import contextlib
import io
import itertools
import numpy as np
import scipy.stats as st
import scipy.optimize as so

LEVEL = "model_checking"
RULE = ("states are (family, form of the parameters, sample, parameter values): the families are standard laws with parameters taken from their signature, standard laws with "
        "some parameters named (in every order) and the others left alone, and variables built from others; the samples are all multisets of a set of values, inside and "
        "outside of the support; the reported value is minus the logarithm of the textbook likelihood for every sample and every parameter of a grid, "
        "and the parameters found reach the maximum found by an independent search (closed forms where there are any)")
ASSUMPTIONS = ["values outside of the support count as density 1e-300 and at least that", "the search of the library is local: it starts at the default values and is judged on samples with one maximum",
               "the maximum is reached when the log-likelihood is within 1e-4 of it"]
CPU_LIMIT = 300

norm = lambda p: st.norm(p["mu"], p["sigma"])
# name -> (library expression or builder, textbook law of all parameters, parameters [(name, default)], grid of values, values of samples)
FAMILIES = {
    "normal": ("NormalDistr", norm, [("mu", 0.0), ("sigma", 1.0)], [(-1, 0, 0.5), (0.5, 1, 2)], [-2.0, 0.5, 1.0, 3.5]),
    "exponential": ("ExponentialDistr", lambda p: st.expon(scale=1 / p["lmbda"]), [("lmbda", 1.0)], [(0.3, 1, 2.5)], [0.2, 1.0, 2.5, -1.0]),
    "gamma": ("GammaDistr", lambda p: st.gamma(p["k"], scale=p["theta"]), [("k", 2.0), ("theta", 2.0)], [(1, 2, 3.5), (0.5, 1, 2)], [0.5, 1.0, 4.0, -2.0]),
    "beta": ("BetaDistr", lambda p: st.beta(p["alpha"], p["beta"]), [("alpha", 1.0), ("beta", 1.0)], [(1, 2, 3), (1, 1.5, 4)], [0.1, 0.4, 0.75, 1.5]),
    "cauchy": ("CauchyDistr", lambda p: st.cauchy(p["center"], p["gamma"]), [("gamma", 1.0), ("center", 0.0)], [(0.5, 1, 2), (-1, 0, 2)], [-1.5, 0.0, 0.7, 4.0]),
    "laplace": ("LaplaceDistr", lambda p: st.laplace(p["mu"], p["lmbda"]), [("lmbda", 1.0), ("mu", 0.0)], [(0.5, 1, 2), (-1, 0, 2)], [-1.5, 0.1, 0.7, 4.0]),
    "pareto": ("ParetoDistr", lambda p: st.pareto(p["alpha"], scale=p["xmin"]), [("alpha", 1.0), ("xmin", 1.0)], [(0.5, 1, 3), (0.5, 1)], [1.2, 2.0, 5.0, 0.3]),
    "weibull": ("WeibullDistr", lambda p: st.weibull_min(p["k"], scale=p["lmbda"]), [("k", 3.0), ("lmbda", 1.0)], [(1, 1.5, 3), (0.5, 1, 2)], [0.5, 1.1, 2.5, -1.0]),
    "chi square": ("ChiSquareDistr", lambda p: st.chi2(p["df"]), [("df", 1.0)], [(1, 2, 5)], [0.4, 1.5, 6.0, -1.0]),
    "student": ("StudentTDistr", lambda p: st.t(p["df"]), [("df", 2.0)], [(1, 2, 5)], [-2.0, 0.3, 1.5, 5.0]),
    "shifted": (lambda P: lambda m, s: P.NormalDistr(0, 1) * s + m, lambda p: st.norm(p["m"], p["s"]), [("m", 0.5), ("s", 1.0)], [(-1, 0, 0.5), (0.5, 1, 2)], [-2.0, 0.5, 1.0, 3.5]),
    "sum": (lambda P: lambda m, s: P.NormalDistr(m, 1) + P.NormalDistr(0, s), lambda p: st.norm(p["m"], np.sqrt(1 + p["s"] ** 2)), [("m", 0.2), ("s", 1.0)], [(-1, 0.5), (0.5, 1)], [-3.0, 0.5, 1.0, 4.5]),
    "log-normal": (lambda P: lambda m, s: P.exp(P.NormalDistr(m, s)), lambda p: st.lognorm(p["s"], scale=np.exp(p["m"])), [("m", 0.2), ("s", 1.0)], [(-1, 0.5), (0.5, 1)], [0.3, 1.0, 4.0, -1.0]),
}


def cases(tier):
    out = []
    for f, (lib, law, par, grid, values) in FAMILIES.items():
        names = [n for n, _ in par]
        forms = [None] if isinstance(lib, str) else []
        for r in range(1, len(par) + 1):
            for s in itertools.permutations(names, r):
                if isinstance(lib, str) or r == len(par): forms.append(list(s))
        for form in forms:
            out.append({"id": "%s %s: likelihood" % (f, form), "kind": "value", "f": f, "form": form, "n": 3 if tier == "quick" else 4})
            if form and "xmin" in form or f == "pareto" and form is None: continue       # the maximum is at the edge
            out.append({"id": "%s %s: maximum" % (f, form), "kind": "maximum", "f": f, "form": form, "n": 3 if tier == "quick" else 4})
    return out


def run(case, R):
    import pacal
    pacal.params.general.parallel = False
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        {"value": value, "maximum": maximum}[case["kind"]](case, R)


def estimator(P, f, form, xi):
    lib, law, par, grid, values = FAMILIES[f]
    d = getattr(P, lib) if isinstance(lib, str) else lib(P)
    if form is None: return P.LoglikelihoodEstimator(d, xi=xi)
    return P.LoglikelihoodEstimator(distr=d, xi=xi, params=form, defvals=[dict(par)[n] for n in form])


def names_of(f, form):
    return [n for n, _ in FAMILIES[f][2]] if form is None else form


def value(case, R):
    import pacal as P
    f, form = case["f"], case["form"]
    lib, law, par, grid, values = FAMILIES[f]
    names = names_of(f, form)
    grids = dict(zip([n for n, _ in par], grid))
    first = None
    for n in range(1, case["n"] + 1):
        for k, sample in enumerate(itertools.combinations_with_replacement(values, n)):
            E = estimator(P, f, form, np.array(sample))
            for v in itertools.product(*[grids[m] for m in names]):
                p = dict(par)
                p.update(zip(names, v))
                R.transitions += 1
                what = "%s %s: sample %s at %s" % (f, form, sample, p)
                lp = law(p).logpdf(sample)
                got = float(E.logli(list(v) if k % 3 else np.array(v)))
                if np.all(np.isfinite(lp)): R.close("value", got, -lp.sum(), 1e-6 * (1 + abs(lp.sum())), what)
                else:
                    want = -lp[np.isfinite(lp)].sum() + 690.7755278982137 * (~np.isfinite(lp)).sum()
                    R.close("value outside of the support", got, want, 1e-6 * (1 + abs(want)), what)
                R.states += 1
                R.seen(round(got, 6))
    R.traces += 1
    R.sample = "%s %s: %d values" % (f, names, R.states)


def maximum(case, R):
    import pacal as P
    f, form = case["f"], case["form"]
    lib, law, par, grid, values = FAMILIES[f]
    names = names_of(f, form)
    inside = [v for v in values if np.isfinite(law(dict(par)).logpdf(v))]
    for n in range(len(names) + (1 if f not in ("sum",) else 2) if f not in ("exponential", "pareto", "chi square") else 1, case["n"] + 1):
        for k, sample in enumerate(itertools.combinations_with_replacement(inside, n)):
            if len(set(sample)) <= 1 and f != "exponential": continue
            what = "%s %s: sample %s" % (f, form, sample)
            def L(v):
                p = dict(par)
                p.update(zip(names, v))
                if any(p[m] <= 0 for m in p if m not in ("mu", "m", "center")): return 1e9
                x = -law(p).logpdf(sample).sum()
                return x if np.isfinite(x) else 1e9
            start = [dict(par)[m] for m in names]
            best = so.minimize(L, start, method="Nelder-Mead", options={"xatol": 1e-8, "fatol": 1e-10, "maxiter": 4000})
            if not best.success or best.fun < -10 or np.max(np.abs(best.x)) > 30 or np.min(np.abs(best.x)) < 1e-3: continue     # no maximum
            E = estimator(P, f, form, np.array(sample))
            R.transitions += 1
            got = E.find_params()
            if not R.same("parameters", sorted(got), sorted(names), what): continue
            # answers belong to the caller, and the sample is not touched
            kept = dict(got)
            first = float(E.logli(start))
            E.logli([s + 0.37 for s in start])
            R.same("answer kept", got, kept, what + ": the parameters found changed during a later evaluation")
            again = E.find_params()
            R.close("second search", L([float(again[m]) for m in names]), best.fun, 1e-4, what + " found in the second search %s" % again)
            got_, got = got, kept
            got_.clear()
            R.close("answer modified", float(E.logli(start)), first, 1e-12, what + ": likelihood after the caller modified the answer")
            R.same("sample kept", list(E.xi), list(sample), what) if hasattr(E, "xi") else None
            R.close("maximum", L([float(got[m]) for m in names]), best.fun, 1e-4, what + " found %s, best %s" % (got, dict(zip(names, best.x))))
            R.states += 1
            R.seen(tuple(round(float(got[m]), 3) for m in names))
    R.traces += 1
    R.sample = "%s %s: %d fits" % (f, names, R.states)
