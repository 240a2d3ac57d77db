"""P15: quadrature and interpolation reproduce the function they are given."""
import contextlib
import io
import itertools
import math
import numpy as np
import scipy.special as sp

LEVEL = "model_checking"
RULE = ("every integration routine over every interval of a grid (forwards, backwards, empty, half-infinite, infinite) and every integrand of the class the routine is meant for, against closed integrals; every rule size against exact "
        "integrals of every Chebyshev polynomial it must integrate; every interpolator class over functions, intervals and sequences of refinements, at nodes and between them; every ordered way of adding nodes one group at a time; every "
        "coincidence pattern of the compiled and the pure-Python kernels; sparse grids on every monomial below a degree; all call sequences up to length 3 over an alphabet of integrations from empty caches, "
        "compared bit for bit with the same call made first; all histories of errors up to a length for the convergence monitor against a reference monitor")
ASSUMPTIONS = ["scipy.special is correct", "each routine is judged on the class of functions it is meant for (analytic on the interval, algebraic or logarithmic end-point poles, positive decaying tails)"]
CPU_LIMIT = 300

E = math.e

# ------------------------------------------------------------------ integrands with closed integrals
FIN = {}
for _k in (0, 1, 2, 3, 7, 12): FIN["x^%d" % _k] = (lambda x, k=_k: x ** k * 1.0, lambda x, k=_k: x ** (k + 1) / (k + 1.0))
FIN["exp"] = (np.exp, np.exp)
FIN["sin3x"] = (lambda x: np.sin(3 * x), lambda x: -np.cos(3 * x) / 3)
FIN["rational"] = (lambda x: 1 / (1 + x * x), np.arctan)
FIN["gauss"] = (lambda x: np.exp(-x * x), lambda x: sp.erf(x) * np.sqrt(np.pi) / 2)
FIN["log"] = (lambda x: np.log(x + 4), lambda x: (x + 4) * np.log(x + 4) - x)
ENDS = [-2.0, -0.5, 0.0, 1.0, 3.0]

TAILS = {   # f(t), integral from t to infinity, t >= 0
    "exp": (lambda t: np.exp(-t), lambda t: math.exp(-t)), "exp3": (lambda t: 3 * np.exp(-3 * t), lambda t: math.exp(-3 * t)),
    "p3": (lambda t: (1 + t) ** -3.0, lambda t: 0.5 * (1 + t) ** -2.0), "p2": (lambda t: (1 + t) ** -2.0, lambda t: 1 / (1 + t)), "p1.5": (lambda t: (1 + t) ** -1.5, lambda t: 2 / math.sqrt(1 + t)),
    "gauss": (lambda t: np.exp(-t * t), lambda t: math.erfc(t) * math.sqrt(math.pi) / 2), "gamma": (lambda t: t * np.exp(-t), lambda t: (1 + t) * math.exp(-t)), "cauchy": (lambda t: 1 / (1 + t * t), lambda t: math.pi / 2 - math.atan(t)),
}
WHOLE = {"gauss": (lambda x: np.exp(-x * x), math.sqrt(math.pi)), "cauchy": (lambda x: 1 / (1 + x * x), math.pi), "shifted": (lambda x: np.exp(-(x - 1) ** 2 / 2.0), math.sqrt(2 * math.pi)),
         "square": (lambda x: (1 + x * x) ** -2.0, math.pi / 2), "odd": (lambda x: x * np.exp(-x * x), 0.0), "logistic": (lambda x: np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))) ** 2, 1.0)}


def cases(tier):
    q = tier == "quick"
    out = []
    for n in ([3, 5, 9, 17, 33, 65, 129] if q else [3, 5, 7, 9, 11, 17, 33, 65, 129, 257, 513, 1025]):
        out.append({"id": "weights of %d points" % n, "kind": "weights", "n": n})
    for f in FIN:
        for r in ("fejer2", "clenshaw", "vector", "wide"):
            out.append({"id": "%s over finite intervals: %s" % (r, f), "kind": "finite", "f": f, "r": r})
    for f in TAILS:
        for r in ("fejer2", "clenshaw", "bounded"):
            out.append({"id": "%s over half-infinite intervals: %s" % (r, f), "kind": "tail", "f": f, "r": r})
    for f in WHOLE:
        out.append({"id": "whole line: %s" % f, "kind": "whole", "f": f})
    for s in ("left", "right"):
        for p in (0.1, 0.25, 0.5, 0.75, 0.9, "log"):
            out.append({"id": "%s pole %s" % (s, p), "kind": "pole", "s": s, "p": p})
    out.append({"id": "wide intervals", "kind": "wide"})
    out.append({"id": "iterated", "kind": "iterated", "n": 3 if q else 5})
    out.append({"id": "slow convergence", "kind": "slow"})
    A = list(range(6 if q else 8))
    for a in A:
        out.append({"id": "call histories starting with %d" % a, "kind": "history", "a": a, "n": len(A)})
    for c in ("Cheb", "Cheb1", "NoL", "NoR"):
        for f in FIN:
            out.append({"id": "interpolator %s %s" % (c, f), "kind": "interp", "c": c, "f": f})
        out.append({"id": "derivatives and roots %s" % c, "kind": "calculus", "c": c, "n": 5 if q else 8})
    for f in TAILS:
        out.append({"id": "tail interpolators %s" % f, "kind": "itail", "f": f})
    for f in WHOLE:
        out.append({"id": "line interpolator %s" % f, "kind": "iline", "f": f})
    for p in (0.1, 0.25, 0.5, 0.75, 0.9, "log"):
        out.append({"id": "pole interpolators %s" % p, "kind": "ipole", "p": p})
    for n in ((4, 5) if q else (4, 5, 6)):
        out.append({"id": "adding nodes in every order, %d" % n, "kind": "orders", "n": n})
    for n in ((1, 2, 3, 5, 9, 33) if q else (1, 2, 3, 4, 5, 9, 17, 33, 99)):
        out.append({"id": "kernels %d nodes" % n, "kind": "kernel", "n": n})
    for d in (1, 2, 3):
        out.append({"id": "sparse grid indices %d" % d, "kind": "sgindex", "d": d})
        for k in range(4 if q else 8):
            out.append({"id": "sparse grid %d-d box %d" % (d, k), "kind": "sparse", "d": d, "k": k})
    out.append({"id": "sparse grid indices 4", "kind": "sgindex", "d": 4})
    for v in ("RPM", "RP", "RM", "APM", "AP", "AM", "Id"):
        out.append({"id": "variable transform %s" % v, "kind": "vt", "v": v})
    for e in TRIM:
        out.append({"id": "trimmed and differentiated %s" % e, "kind": "trimmed", "e": e})
    out.append({"id": "nested nodes", "kind": "nodes"})
    out.append({"id": "Chebyshev transforms", "kind": "cheb", "n": 33 if q else 129})
    out.append({"id": "pole detection", "kind": "detect"})
    out.append({"id": "inverse of monotone functions", "kind": "inverse"})
    out.append({"id": "unique points", "kind": "unique"})
    for i, p in enumerate(MON):
        out.append({"id": "convergence monitor %d" % i, "kind": "monitor", "p": p, "depth": 5 if q else 6})
    return out


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        globals()[{"interp": "interp_", "vt": "vt_", "inverse": "inverse_", "wide": "wide_"}.get(case["kind"], case["kind"])](case, R)


# ------------------------------------------------------------------ rules
def weights(case, R):
    """a rule with n nodes integrates polynomials of degree below its number of nodes exactly"""
    from pacal import integration as I
    from pacal.utils import cheb_nodes
    n = case["n"]
    x = cheb_nodes(n)
    rules = [("Clenshaw-Curtis", I.clenshaw_coefficients(n), x), ("Fejer", I.fejer2_coefficients(n), x[1:-1])]
    for name, w, t in rules:
        R.same("size", len(w), len(t), "%s: number of weights for %d nodes" % (name, n))
        th = np.arccos(np.clip(t, -1, 1))
        for k in range(len(t)):
            R.states += 1
            R.seen((n, k, name))
            want = 0.0 if k % 2 else 2.0 / (1 - k * k)
            R.close("exact degree", float(np.dot(w, np.cos(k * th))), want, 5e-14, "%s with %d nodes on the Chebyshev polynomial of degree %d" % (name, n, k))
        again = I.clenshaw_coefficients(n) if name[0] == "C" else I.fejer2_coefficients(n)
        R.true("cached weights", np.array_equal(again, w), "%s: second request for %d nodes differs" % (name, n))
    R.sample = "Fejer weights for %d nodes sum to %r" % (n, float(np.sum(rules[1][1])))
    R.transitions += 2


# ------------------------------------------------------------------ finite intervals
def finite(case, R):
    from pacal import integration as I
    f, F = FIN[case["f"]]
    for a, b in itertools.product(ENDS, ENDS):
        want = F(b) - F(a)
        size = max(1.0, np.max(np.abs(f(np.linspace(min(a, b), max(a, b), 50)))) * abs(b - a))
        tol = 2e-13 * size
        what = "%s of %s over [%r, %r]" % (case["r"], case["f"], a, b)
        if case["r"] == "fejer2":
            got, err = I.integrate_fejer2(f, a, b)
        elif case["r"] == "clenshaw":
            got, err = I.integrate_clenshaw(f, a, b, debug_info=False, debug_plot=False)
        elif case["r"] == "wide":
            got, err = I.integrate_wide_interval(f, a, b)
        else:
            got, err = I.integrate_fejer2_vector(lambda x: np.array([f(x), 2 * f(x), x]), a, b)
            want = np.array([want, 2 * want, (b * b - a * a) / 2])
            tol *= 4
            g2, _ = I.integrate_fejer2_vector(lambda x: np.array([[f(x), x], [x * x, 0 * x + 1]]), a, b)
            R.close("matrix", g2, np.array([[want[0], want[2]], [(b ** 3 - a ** 3) / 3, b - a]]), tol * 10, what + ", 2 x 2 components")
        R.close("value", got, want, tol, what)
        if case["r"] == "vector" and a < b:
            # components do not influence one another: signs and order of slowly converging components
            k = a + (b - a) * 0.3
            g = lambda x: np.abs(x - k)
            exact = ((k - a) ** 2 + (b - k) ** 2) / 2.0
            ref, _ = I.integrate_fejer2_vector(lambda x: np.array([g(x), g(x), f(x)]), a, b)
            for signs in itertools.product((1.0, -1.0), repeat=2):
                for order in itertools.permutations(range(3)):
                    part = lambda x: [signs[0] * g(x), signs[1] * g(x), f(x)]
                    v, e = I.integrate_fejer2_vector(lambda x: np.array([part(x)[i] for i in order]), a, b)
                    v = dict(zip(order, v))
                    R.transitions += 1
                    R.close("components", [v[0] * signs[0], v[1] * signs[1], v[2]], ref, 1e-13 * max(size, abs(b - a) ** 2), what + ", signs %s, order %s" % (signs, order))
                    R.true("error of components", e >= 0.1 * max(abs(v[0] * signs[0] - exact) - 1e-12, 0), what + ", signs %s, order %s: error estimate %r, error %r" % (signs, order, e, v[0] * signs[0] - exact))
        R.true("error estimate", np.all(np.isfinite(err)) and np.all(err >= 0), what + ": error estimate %r" % (err,))
        R.states += 1
        R.transitions += 1
        R.seen(np.round(np.sum(want), 10))
    R.traces += 1
    R.sample = "%s over [0, 1]: %r" % (case["f"], float(F(1.0) - F(0.0)))


def tail(case, R):
    from pacal import integration as I
    f, T = TAILS[case["f"]]
    heavy = case["f"] in ("p1.5",)
    for a in (-3.0, -0.5, 0.0, 0.5, 1.0, 10.0):
        for sgn in (1, -1):
            for t0 in (0.0, 0.5, 2.0):                       # where on the tail the integration starts
                g = (lambda x: f(np.asarray(x, float) - a + t0)) if sgn > 0 else (lambda x: f(-np.asarray(x, float) + a + t0))
                name = "[%r, oo)" % a if sgn > 0 else "(-oo, %r]" % a
                runs = []
                if case["r"] == "fejer2":
                    for e in (None, 2, 3, 6):
                        if heavy and e not in (None, 6): continue
                        runs.append(("exponent %s" % e, (I.integrate_fejer2_pinf(g, a, exponent=e) if sgn > 0 else I.integrate_fejer2_minf(g, a, exponent=e)), T(t0)))
                elif case["r"] == "clenshaw":
                    if case["f"] in ("p1.5", "p3", "p2", "cauchy"): continue      # not negligible at infinity after the substitution
                    runs.append(("", (I.integrate_clenshaw_pinf(g, a) if sgn > 0 else I.integrate_clenshaw_minf(g, a)), T(t0)))
                else:
                    for w in (0.25, 1.0, 4.0):
                        runs.append(("up to distance %r" % w, (I.integrate_fejer2_pinf(g, a, b=a + w) if sgn > 0 else I.integrate_fejer2_minf(g, a, a=a - w)), T(t0) - T(t0 + w)))
                        lo, hi = (a, a + w) if sgn > 0 else (a - w, a)
                        runs.append(("guessed direction, distance %r" % w, I.integrate_with_pminf_guess(g, lo, hi), T(t0) - T(t0 + w)))
                        runs.append(("middle split, distance %r" % w, I.integrate_wide_interval2(g, lo, hi), T(t0) - T(t0 + w)))
                for what, (got, err), want in runs:
                    R.close("value", got, want, 1e-10, "integral of %s over %s %s, starting at %r" % (case["f"], name, what, t0))
                    R.evals += 1
                    R.states += 1
                    R.transitions += 1
    if case["r"] != "bounded":
        R.same("empty tail", tuple(I.integrate_fejer2_pinf(f, np.inf)) + tuple(I.integrate_fejer2_minf(f, -np.inf)), (0, 0, 0, 0), "integrals beyond infinity")
    R.traces += 1
    R.seen(case["id"])


def whole(case, R):
    from pacal import integration as I
    f, want = WHOLE[case["f"]]
    R.close("value", I.integrate_fejer2_pminf(f)[0], want, 1e-4, "integral of %s over the line" % case["f"])
    if case["f"] != "cauchy": R.close("value", I.integrate_clenshaw_pminf(f)[0], want, 1e-9, "Clenshaw integral of %s over the line" % case["f"])
    R.states += 2
    R.transitions += 2
    R.seen(case["f"])


def polefun(p):
    if p == "log":
        return lambda t: -np.log(t), lambda t: t - t * math.log(t) if t > 0 else 0.0
    return lambda t: t ** -p, lambda t: t ** (1 - p) / (1 - p)


def pole(case, R):
    from pacal import integration as I, params
    f, F = polefun(case["p"])
    ex = 0.0 if case["p"] == "log" else case["p"]
    for a in (0.0, 1.0, -2.0, 1e-3):
        for w in (0.1, 1.0, 3.0):
            if case["s"] == "left":
                g, name = (lambda x: f(x - a)), "[%r, %r]" % (a, a + w)
                call = lambda **k: I.integrate_fejer2_Xn_transformP(g, a, a + w, **k)
            else:
                g, name = (lambda x: f(a - x)), "[%r, %r]" % (a - w, a)
                call = lambda **k: I.integrate_fejer2_Xn_transformN(g, a - w, a, **k)
            # points cannot come closer to the pole than the spacing of the numbers around it
            tol = 1e-9 * (1 + F(w)) + 20 * F(abs(a) * 2.0 ** -52)
            for k in ({}, {"N": 4.0}, {"N": 12.0}):
                s = (k.get("N") or params.integration_pole.exponent) * (1 - ex)     # smoothness of the substituted integrand
                R.close("value", call(**k)[0], F(w), max(tol, 1e-6 if 1 <= s < 2.5 else 1e-2 * F(w) if s < 1 else 0), "%s pole of exponent %s over %s %s" % (case["s"], case["p"], name, k))
                R.states += 1
                R.transitions += 1
            if case["s"] == "left":
                R.close("value", I.integrate_fejer2_Xn_transform(lambda x: x ** 3 + 1, a, a + w)[0], ((a + w) ** 4 - a ** 4) / 4 + w, 1e-11 * (1 + abs(a + w) ** 4), "power substitution over %s" % name)
    R.traces += 1
    R.seen(case["id"])


def wide_(case, R):
    """bounds of very different size, on either side of zero"""
    from pacal import integration as I
    for e in range(0, 13):
        for m in (1.0, 3.0, 7.0):
            b = m * 10.0 ** e
            for sgn in (1, -1):
                lo, hi = (1.0, b) if sgn > 0 else (-b, -1.0)
                for name, f, F in (("1/x^2", lambda x: 1 / (x * x), lambda t: -1 / t), ("1/x", lambda x: 1 / np.abs(x), math.log), ("exp", lambda x: np.exp(-np.abs(x)), lambda t: -math.exp(-t))):
                    got, err = I.integrate_wide_interval(f, lo, hi)
                    R.close("value", got, F(b) - F(1.0), 1e-11 * (1 + math.log(b)), "%s over [%r, %r]" % (name, lo, hi))
                    R.states += 1
                    R.transitions += max(1, e)
    for a in (0.0, -1.0):
        R.close("value", I.integrate_wide_interval(lambda x: x * x, a, 5.0)[0], (125 - a ** 3) / 3, 1e-12 * 50, "interval touching zero")
    R.seen("wide")


def iterated(case, R):
    from pacal import integration as I
    n = case["n"]
    box = [(0.0, 1.0), (-1.0, 2.0), (0.5, 3.0)]
    for (a1, b1), (a2, b2) in itertools.product(box, box):
        for i, j in itertools.product(range(n + 1), range(n + 1)):
            want = (b1 ** (i + 1) - a1 ** (i + 1)) / (i + 1.0) * (b2 ** (j + 1) - a2 ** (j + 1)) / (j + 1.0)
            for name, fun in (("integrate_iter", I.integrate_iter),) + ((("integrate_iter2", I.integrate_iter2),) if i + j < 3 else ()):
                R.close("value", fun(lambda x, y: x ** i * y ** j * 1.0, a1, b1, a2, b2)[0], want, 1e-11 * (1 + 3.0 ** (i + j + 2)), "%s of x^%d y^%d over [%r, %r] x [%r, %r]" % (name, i, j, a1, b1, a2, b2))
                R.states += 1
                R.transitions += 1
        f = lambda x, y: np.exp(-x - y * y) * (1 + x * y)
    R.seen(n)


def slow(case, R):
    """integrands the rules converge on slowly: an answer of the stated order, no crash, whatever the parameter set"""
    from pacal import integration as I, params
    f = lambda x: np.abs(x - 0.3)
    want = 0.29
    for name, call in (("fejer2", lambda: I.integrate_fejer2(f, 0.0, 1.0)), ("fejer2 with finite parameters", lambda: I.integrate_fejer2(f, 0.0, 1.0, par=params.integration_finite)),
                       ("fejer2 with default parameters", lambda: I.integrate_fejer2(f, 0.0, 1.0, par=params.integration)),
                       ("vector", lambda: I.integrate_fejer2_vector(lambda x: np.array([f(x), f(x)]), 0.0, 1.0)), ("wide", lambda: I.integrate_wide_interval(f, 0.0, 1.0)),
                       ("Clenshaw", lambda: I.integrate_clenshaw(f, 0.0, 1.0))):
        R.close("value", np.mean(call()[0]), want, 1e-4, name)
        R.states += 1
        R.transitions += 1
    R.seen("slow")


# ------------------------------------------------------------------ call histories
def alphabet():
    from pacal import integration as I
    from pacal import interpolation as P
    return [
        ("smooth", lambda: I.integrate_fejer2(np.exp, 0.0, 1.0)), ("kink", lambda: I.integrate_fejer2(lambda x: np.abs(x - 0.3), 0.0, 1.0)),
        ("clenshaw", lambda: I.integrate_clenshaw(np.cos, 0.0, 2.0, debug_info=False, debug_plot=False)), ("tail", lambda: I.integrate_fejer2_pinf(lambda x: np.exp(-x), 1.0)),
        ("vector", lambda: tuple(float(np.sum(t)) for t in I.integrate_fejer2_vector(lambda x: np.array([np.sqrt(np.abs(x)), x]), -1.0, 2.0))),
        ("interpolated", lambda: tuple(P.ChebyshevInterpolator(np.sin, 0.0, 3.0)(np.array([0.3, 1.7])))),
        ("pole", lambda: I.integrate_fejer2_Xn_transformP(lambda x: x ** -0.5, 0.0, 1.0)), ("first kind", lambda: tuple(P.ChebyshevInterpolator1(np.sin, 0.0, 3.0)(np.array([0.3, 1.7])))),
    ]


def history(case, R):
    from pacal import integration as I
    def reset():
        for k in dir(I):
            v = getattr(I, k)
            if k.endswith("_cache") and isinstance(v, dict): v.clear()
    A = alphabet()[:case["n"]]
    first = []
    for name, c in A:
        reset()
        first.append(tuple(float(t) for t in c()))
    for rest in itertools.product(range(len(A)), repeat=2):
        word = (case["a"],) + rest
        reset()
        for i in word:
            got = tuple(float(t) for t in A[i][1]())
            R.transitions += 1
            R.same("independent of history", got, first[i], "%s after %s" % (A[i][0], [A[j][0] for j in word]))
        R.states += 1
        R.traces += 1
    R.seen(tuple(first[case["a"]]))
    R.sample = "%s -> %r in every history" % (A[case["a"]][0], first[case["a"]])


# ------------------------------------------------------------------ interpolators
def klass(c):
    from pacal import interpolation as P
    return {"Cheb": P.ChebyshevInterpolator, "Cheb1": P.ChebyshevInterpolator1, "NoL": P.ChebyshevInterpolatorNoL, "NoR": P.ChebyshevInterpolatorNoR}[c]


def between(a, b, n=40):
    return a + (b - a) * (0.5 - 0.4999 * np.cos(np.pi * (np.arange(n) + 0.37) / n))


def interp_(case, R):
    f, F = FIN[case["f"]]
    for a, b in itertools.combinations(ENDS, 2):
        p = klass(case["c"])(f, a, b)
        what = "%s of %s on [%r, %r]" % (case["c"], case["f"], a, b)
        size = max(1e-3, np.max(np.abs(f(np.linspace(a, b, 60)))))
        check_interp(R, p, f, between(a, b), 1e-12 * size, 1e-14 * size, what)
        # further refinements
        n = len(p.getNodes()[0]) + {"Cheb": 0, "Cheb1": 0, "NoL": 1, "NoR": 1}[case["c"]]
        for step in range(2):
            if n > 200: break
            n = 3 * n if case["c"] == "Cheb1" else 2 * n - 1
            x = p.get_incremental_nodes1(n) if case["c"] == "Cheb1" else p.get_incremental_nodes(n)
            p.add_nodes(x, f(x))
            check_interp(R, p, f, between(a, b), 1e-12 * size, 1e-14 * size, what + ", refined %d times" % (step + 1))
            R.transitions += 1
    R.traces += 1
    R.sample = what


def check_interp(R, p, f, x, tol, ntol, what, scalars=True):
    xs, ys = p.getNodes()
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    R.close("at nodes", p(xs.copy()), ys, ntol, what + ": value at its nodes")
    R.close("node values", ys, f(xs), np.maximum(tol, 0), what + ": node values")
    R.close("between nodes", p(x), f(x), tol, what + ": value between nodes")
    if scalars:
        R.close("scalars", np.array([float(p(float(t))) for t in x[::7]]), np.asarray(p(x[::7]), float), 1e-14 * (1 + np.max(np.abs(f(x)))), what + ": scalar against array")
    R.states += 1
    R.transitions += 1
    R.seen((len(xs), round(float(ys[0]), 9)))


def calculus(case, R):
    """derivatives and roots of polynomials"""
    a, b = -1.0, 2.0
    for n in range(1, case["n"] + 1):
        roots = np.linspace(-0.9, 1.7, n) + 0.013
        poly = np.poly1d(roots, True)
        d = poly.deriv()
        p = klass(case["c"])(lambda x: poly(x), a, b)
        what = "%s of a polynomial of degree %d" % (case["c"], n)
        x = between(a, b, 20)
        R.close("derivative", p.diff()(x), d(x), 1e-9 * 10 ** n, what + ": derivative")
        got = np.sort(np.asarray(p.roots(), float))
        t = p.trim()
        R.close("trimmed", t(x), poly(x), 1e-11 * 10 ** n, what + ": trimmed to %d nodes" % len(t.getNodes()[0]))
        t = klass(case["c"])(lambda x: -poly(x), a, b).trim()
        R.close("trimmed", t(x), -poly(x), 1e-11 * 10 ** n, what + ": opposite polynomial trimmed to %d nodes" % len(t.getNodes()[0]))
        R.same("number of roots", len(got), n, what + ": roots %s, expected %s" % (got, np.sort(roots)))
        if len(got) == n: R.close("roots", got if len(got) == n else np.full(n, np.nan), np.sort(roots), 1e-7, what + ": roots %s" % got)
        R.states += 1
        R.transitions += 2
        R.seen(n)


TRIM = {"UniformDistr(0,1)": [], "UniformDistr(0,1)+UniformDistr(0,2)": [], "NormalDistr(0,1)": [0.0], "NormalDistr(1,2)+UniformDistr(0,1)": [1.5], "ExponentialDistr(1)": [], "BetaDistr(2,3)": [1 / 3.], "BetaDistr(0.5,0.5)": None, "ChiSquareDistr(1)": None,
        "CauchyDistr()": [0.0], "GammaDistr(3,1)": [2.0], "MixDistr([0.5,0.5],[UniformDistr(0,1),ConstDistr(0.5)])": None, "SemicircleDistr()": [0.0], "UniformDistr(0,1)+UniformDistr(0,1)+UniformDistr(0,1)": [1.5], "LaplaceDistr(1,0)": []}


def trimmed(case, R):
    """trimming and interpolating a piecewise function leave it the same function; its stationary points"""
    import pacal as P
    f = eval(case["e"], dict(P.__dict__)).get_piecewise_pdf()
    x = np.array([-9.0, -1.3, -0.4, 0.01, 0.2, 0.41, 0.73, 0.98, 1.6, 2.4, 3.2, 12.0])
    want = f(x)
    forms = [("as is", f), ("interpolated", f.toInterpolated())]
    forms += [(n + ", trimmed", g.trimInterpolators()) for n, g in forms] + [(n + ", trimmed coarsely", g.trimInterpolators(abstol=1e-9)) for n, g in forms]
    for n, g in forms:
        pole = case["e"] == "BetaDistr(0.5,0.5)"             # singular at 1, where numbers are 1e-16 apart
        R.close("value", g(x), want, 1e-5 if pole else 1e-7 if "coarsely" in n else 1e-10, "%s %s" % (case["e"], n))
        R.close("area", g.integrate(), 1.0, 1e-6 if pole or "coarsely" in n else 1e-8, "%s %s: area" % (case["e"], n))
        R.states += 1
        R.transitions += 1
        if TRIM[case["e"]] is not None and "coarsely" not in n:
            got = np.asarray(g.diff().roots(), float)
            for r in TRIM[case["e"]]:
                R.true("stationary point", np.min(np.abs(got - r)) < 1e-5 if len(got) else False, "%s %s: stationary points %s, expected %s" % (case["e"], n, got, TRIM[case["e"]]))
            for r in got:
                h = 1e-4
                R.true("stationary point", abs(float(f(r + h)) - float(f(r - h))) / (2 * h) < 1e-2, "%s %s: %r is not stationary" % (case["e"], n, float(r)))
    R.seen(case["e"])


def itail(case, R):
    from pacal import interpolation as P
    f, T = TAILS[case["f"]]
    far = [2.0, 5.0, 20.0, 100.0] + ([] if "exp" in case["f"] or case["f"] in ("gauss", "gamma") else [1e4, 1e8])
    for a in (-1.5, 0.0, 0.75, 2.0):
        t = np.array([0.01, 0.3, 1.0] + far)
        if case["f"] == "gauss": t = t[t < 15]
        if case["f"] == "exp3": t = t[t < 80]
        for t0 in (0.0, 1.0):
            if case["f"] == "gamma" and t0 == 0.0: continue              # zero end point: relative accuracy is not promised
            gp = lambda x: f(np.asarray(x, float) - a + t0)
            gm = lambda x: f(-np.asarray(x, float) + a + t0)
            for name, p, g, x in (("right tail", P.PInfInterpolator(gp, a), gp, a + t), ("left tail", P.MInfInterpolator(gm, a), gm, a - t)):
                R.close("tail", p(x), g(x), 1e-9 * np.max(np.abs(g(x))), "%s of %s from %r (start %r)" % (name, case["f"], a, t0))
                R.close("tail, scalars", np.array([float(p(float(s))) for s in x]), np.asarray(p(x), float), 1e-13, "%s of %s: scalar against array" % (name, case["f"]))
                if case["f"] != "gauss":
                    R.close("tail, relative", np.asarray(p(x), float) / g(x), np.ones(len(x)), 1e-4, "%s of %s from %r (start %r): ratio" % (name, case["f"], a, t0))
                xs, ys = p.getNodes()
                R.close("at nodes", ys, np.where(np.isfinite(xs), g(np.where(np.isfinite(xs), xs, a)), 0.0), 1e-9, "%s of %s: node values" % (name, case["f"]))
                R.states += 1
                R.transitions += 1
            for U in (3.0, 50.0):
                p, m = P.ChebyshevInterpolator_PInf(gp, a, U=a + U), P.ChebyshevInterpolator_MInf(gm, a, L=a - U)
                x = np.linspace(0.0, U, 23)
                R.close("bounded transform", p(a + x), gp(a + x), 1e-9, "transformed interpolator on [%r, %r]" % (a, a + U))
                R.close("bounded transform", m(a - x), gm(a - x), 1e-9, "transformed interpolator on [%r, %r]" % (a - U, a))
                lt = P.LogTransformInterpolator(gp, a, a + U)
                if case["f"] != "gauss":
                    R.close("logarithmic", np.asarray(lt(a + x), float) / gp(a + x), np.ones(len(x)), 1e-7, "logarithmic interpolator of %s on [%r, %r]: ratio" % (case["f"], a, a + U))
                R.close("logarithmic", lt(np.array([a + U + 1.0])), [0.0], 0, "beyond the end")
    R.seen(case["f"])


def iline(case, R):
    from pacal import interpolation as P
    f, w = WHOLE[case["f"]]
    if case["f"] == "logistic": return
    p = P.ChebyshevInterpolator_PMInf(f)
    x = np.array([-30.0, -3.3, -1.0, -0.2, 0.0, 0.4, 1.1, 2.7, 9.0, 400.0])
    R.close("line", p(x), f(x), 1e-7, "interpolator of %s on the line" % case["f"])
    R.states += 1
    R.transitions += 1
    R.seen(case["f"])


def ipole(case, R):
    from pacal import interpolation as P
    f, F = polefun(case["p"])
    for a in (0.0, 1.0, -2.0):
        for w in (0.5, 1.0, 4.0):
            if case["p"] == "log" and w >= 1: continue                # changes sign
            for s in (1.0, 0.01, -2.0):
                t = np.array([1e-6, 1e-4, 0.01, 0.1, 0.3, 0.7, 0.95]) * w
                for name, p, g, x in (("left", P.PoleInterpolatorP(lambda x: s * f(x - a), a, a + w), lambda x: s * f(x - a), a + t), ("right", P.PoleInterpolatorN(lambda x: s * f(a - x), a - w, a), lambda x: s * f(a - x), a - t)):
                    R.close("pole", np.asarray(p(x), float) / g(x), np.ones(len(x)), 1e-8 if a == 0 else 1e-3, "%s pole of exponent %s at %r, width %r, scale %r: ratio" % (name, case["p"], a, w, s))
                    R.states += 1
                    R.transitions += 1
    R.seen(case["p"])


def orders(case, R):
    """a polynomial interpolator does not depend on the order in which its nodes were added"""
    from pacal import interpolation as P
    n = case["n"]
    xs = np.array([-1.0, 0.25, 1.0, 2.5, -0.4, 3.0])[:n]
    ys = np.array([2.0, -1.0, 0.5, 4.0, 0.0, 1.5])[:n]
    ref = np.polyfit(xs, ys, n - 1)
    x = np.array([-0.9, -0.1, 0.6, 1.7, 2.9, 3.4])
    want = np.polyval(ref, x)
    for perm in itertools.permutations(range(n)):
        for cuts in range(2 ** (n - 1)):
            groups, g = [], [perm[0]]
            for i in range(1, n):
                if cuts >> (i - 1) & 1:
                    groups.append(g)
                    g = []
                g.append(perm[i])
            groups.append(g)
            if len(groups) > 3 and n > 4: continue
            for c in (P.Interpolator, P.BarycentricInterpolator):
                p = c(xs[groups[0]], ys[groups[0]])
                for g in groups[1:]:
                    p.add_nodes(xs[g], ys[g])
                    R.transitions += 1
                R.states += 1
                R.close("order of nodes", p(x), want, 1e-10, "%s, nodes added as %s" % (c.__name__, groups))
                R.close("at nodes", p(xs), ys, 1e-12 if c is P.BarycentricInterpolator else 1e-10, "%s, nodes added as %s: at nodes" % (c.__name__, groups))
                R.close("scalars", [float(p(float(t))) for t in x[:2]], p(x[:2]), 1e-12, "scalar")
    R.traces += 1
    R.seen(n)


def kernel(case, R):
    """compiled and pure-Python barycentric kernels on every pattern of coincidence with nodes"""
    from pacal import interpolation as P
    R.true("compiled kernel", P.have_Cython, "the compiled interpolation kernel is not used")
    n = case["n"]
    rng = np.array([((i * 7919) % 1009) / 1009.0 - 0.5 for i in range(n)])
    for a, b in ((-1.0, 1.0), (0.0, 1e-12), (1.0, 1.0 + 1e-12), (5.0, 1e6)):
        from pacal.utils import chebspace
        xs, ws = chebspace(a, b, n, returnWeights=True) if n > 1 else (np.array([a]), np.array([1.0]))
        p = P.BarycentricInterpolator(xs, rng, ws)
        out = 0.01 if n < 40 else 1e-4                    # an interpolator of high degree grows fast outside its interval
        other = [a - out * (b - a), (a + b) / 2 + 0.1 * (b - a), b + out * (b - a), np.nextafter(a, b) if a else 1e-14]
        alphabet = list(xs[:3]) + [xs[-1]] + other
        for L in (0, 1, 2, 3):
            for xx in itertools.product(alphabet, repeat=L):
                x = np.array(xx, dtype=float)
                y1 = p(x.copy())
                P.have_Cython = False
                try:
                    y2 = p(x.copy())
                finally:
                    P.have_Cython = True
                R.close("kernels", y1, y2, 1e-9 * (1 + np.abs(y2)) if L else 1e-9, "compiled against Python kernel, %d nodes on [%r, %r] at %s" % (n, a, b, list(xx)))
                for t, y in zip(xx, np.atleast_1d(y1)):
                    i = np.where(xs == t)[0]
                    if len(i): R.same("at nodes", float(y), float(rng[i[0]]), "value at node %r" % t)
                R.states += 1
                R.transitions += 2
        for t in alphabet:
            y1 = float(p(t))
            P.have_Cython = False
            try:
                y2 = float(p(t))
            finally:
                P.have_Cython = True
            R.close("kernels, scalar", y1, y2, 1e-9 * (1 + abs(y2)), "scalar %r" % t)
        big = np.resize(np.array(alphabet), 150001 // (1 if n < 5 else 10))
        y1 = p(big)
        P.have_Cython = False
        try:
            y2 = p(big)
        finally:
            P.have_Cython = True
        R.close("kernels, long", y1, y2, 1e-9 * (1 + np.abs(y2)), "long array of %d" % len(big))
    R.traces += 1
    R.seen(n)


# ------------------------------------------------------------------ sparse grids
def sgindex(case, R):
    from pacal.depvars import sparse_grids as S
    d = case["d"]
    for t in range(d, d + 5):
        want = sorted(p for p in itertools.product(range(1, t + 1), repeat=d) if sum(p) == t)
        R.same("partitions", sorted(S.gen_partitions(d, t)), want, "partitions of %d into %d parts" % (t, d))
        want = sorted(p for p in itertools.product(range(1, t + 1), repeat=d) if t - d + 1 <= sum(p) <= t)
        R.same("index set", sorted(S.gen_Q(t, d)), want, "index set of depth %d in %d dimensions" % (t, d))
        # combination coefficients add up to one over every down set
        tot = sum((-1) ** (t - sum(p)) * math.comb(d - 1, t - sum(p)) for p in S.gen_Q(t, d))
        R.same("coefficients", tot, 1, "sum of the combination coefficients")
        R.states += 1
        R.transitions += 1
        R.seen((d, t))


BOX = [(-1.0, 1.0), (0.0, 1.0), (-2.0, 0.5), (1.0, 4.0)]


def sparse(case, R):
    from pacal.depvars import sparse_grids as S
    from pacal import params
    params.interpolation_nd.debug_info = case["k"] == 0
    d, k = case["d"], case["k"]
    a = np.array([BOX[(k + j) % 4][0] for j in range(d)])
    b = np.array([BOX[(k + j) % 4][1] for j in range(d)])
    deg = {1: 12, 2: 6, 3: 2}[d]
    pts = [np.array([a[j] + (b[j] - a[j]) * ((0.137 + 0.291 * i + 0.173 * j * i) % 1) for i in range(9)]) for j in range(d)]
    # coordinates equal to grid lines in every subset of the dimensions
    for sub in range(2 ** d):
        for j in range(d):
            pts[j] = np.append(pts[j], (a[j] + b[j]) / 2 if sub >> j & 1 else a[j] + 0.377 * (b[j] - a[j]))
            pts[j] = np.append(pts[j], b[j] if sub >> j & 1 else a[j] + 0.613 * (b[j] - a[j]))
    for e in itertools.product(range(deg + 1), repeat=d):
        if d == 3 and sum(e) > 4: continue
        f = lambda *x: np.prod([np.asarray(x[j], float) ** e[j] for j in range(d)], axis=0)
        s = S.AdaptiveSparseGridInterpolator(f, d, a, b)
        check_sparse(R, s, f, pts, 1e-9, "monomial %s on %s" % (e, list(zip(a, b))))
        R.seen(e)
    g = lambda *x: np.exp(-sum(np.asarray(t, float) ** 2 for t in x) / 8.0)
    check_sparse(R, S.AdaptiveSparseGridInterpolator(g, d, a, b), g, pts, 1e-6, "Gaussian on %s" % list(zip(a, b)))
    R.traces += 1


def check_sparse(R, s, f, pts, tol, what):
    from pacal.depvars import sparse_grids as S
    w = f(*pts)
    size = max(1.0, np.max(np.abs(w)))
    y = s.interp_at(*pts)
    R.close("value", y, w, tol * size, what)
    R.close("scalars", [float(s.interp_at(*[float(t[i]) for t in pts])) for i in (0, 9, 12)], [y[i] for i in (0, 9, 12)], 1e-12 * size, what + ": scalar against array")
    m = len(y) // 2 * 2
    R.close("shapes", s.interp_at(*[t[:m].reshape(2, -1) for t in pts]), y[:m].reshape(2, -1), 1e-13 * size, what + ": matrix of points")
    R.same("empty", len(s.interp_at(*[t[:0] for t in pts])), 0, what + ": no points")
    # both full-grid kernels, compiled and not
    for p, (c, ni) in s.subgrid_map.items():
        R.transitions += 1
        fs = s.Ys[ni]
        ref = s.full_grid_interp_new(p, fs, list(pts), {})
        R.close("full-grid kernels", s.full_grid_interp(p, fs, list(pts), {}), ref, 1e-11 * size, what + ": compiled full-grid kernel, grid %s" % (p,))
        if S.have_Cython:
            S.have_Cython = False
            try:
                R.close("full-grid kernels", s.full_grid_interp(p, fs, list(pts), {}), ref, 1e-11 * size, what + ": Python full-grid kernel, grid %s" % (p,))
            finally:
                S.have_Cython = True
    R.states += 1


# ------------------------------------------------------------------ variable transforms
def vt_(case, R):
    from pacal import vartransforms as V
    mk = {"RPM": [V.VarTransformReciprocal_PMInf()], "Id": [V.VarTransformIdentity()], "APM": [V.VarTransformAlgebraic_PMInf(c) for c in (0.5, 1, 3)],
          "RP": [V.VarTransformReciprocal_PInf(L, exponent=e, U=U) for L in (-2.0, 0, 1.5) for e in (1, 2, 3, 6) for U in (None, 5.0)],
          "RM": [V.VarTransformReciprocal_MInf(L, exponent=e, L=U) for L in (-2.0, 0, 1.5) for e in (1, 2, 3, 6) for U in (None, -5.0)],
          "AP": [V.VarTransformAlgebraic_PInf(L, c) for L in (-2.0, 0, 1.5) for c in (0.5, 1, 3)], "AM": [V.VarTransformAlgebraic_MInf(L, c) for L in (-2.0, 0, 1.5) for c in (0.5, 1, 3)]}[case["v"]]
    for v in mk:
        lo, hi = float(v.var_min), float(v.var_max)
        t = lo + (hi - lo) * np.linspace(0.02, 0.98, 33)
        x = v.inv_var_change(t)
        what = "%s %s" % (type(v).__name__, sorted((k, z) for k, z in v.__dict__.items() if np.isscalar(z)))
        R.close("round trip", v.var_change(x), t, 1e-12, what + ": round trip")
        s = np.sign(x[-1] - x[0])
        R.true("monotone", np.all(np.diff(x) * s > 0), what + ": not monotone")
        h = 1e-6 * (hi - lo)
        num = (v.inv_var_change(t + h) - v.inv_var_change(t - h)) / (2 * h)
        R.close("derivative", np.abs(v.inv_var_change_deriv(t)) * np.ones(33), np.abs(num), 1e-3 * (1 + np.abs(num)), what + ": derivative of the inverse")
        for k in (0, 7, 20):
            R.close("scalars", [float(v.inv_var_change(float(t[k]))), float(v.var_change(float(x[k])))], [x[k], t[k]], 1e-12 * (1 + abs(x[k])), what + ": scalars") if case["v"] not in ("AP", "AM") or k == 0 else None
        # all masks of infinite parameter values
        inf = list(v.var_inf)
        f = lambda y: 2.0 * y
        for word in itertools.product(inf + [float(t[3]), float(t[20])], repeat=3):
            w = np.array(word, dtype=float)
            want = np.array([0.0 if z in inf else 2.0 * float(v.inv_var_change(np.array([z]))[0]) for z in word])
            wd = np.array([0.0 if z in inf else 2.0 * float(v.inv_var_change(np.array([z]))[0]) * float((v.inv_var_change_deriv(np.array([z])) * np.ones(1))[0]) for z in word])
            R.close("infinity", v.apply_with_inv_transform(f, w.copy()), want, 1e-12 * (1 + np.abs(want)), what + ": applied at %s" % (word,))
            R.close("infinity", v.apply_with_inv_transform(f, w.copy(), mul_by_deriv=True), wd, 1e-12 * (1 + np.abs(wd)), what + ": applied with derivative at %s" % (word,))
            R.transitions += 1
        for z in inf:
            R.same("infinity", float(v.apply_with_inv_transform(f, z)), 0.0, what + ": scalar at infinity")
            R.same("infinity", float(v.apply_with_inv_transform(f, np.array([z, z]), def_val=7.0)[0]), 7.0, what + ": default value")
        R.states += 1
        R.seen(what)


# ------------------------------------------------------------------ node sets and transforms
def nodes(case, R):
    from pacal import utils as U
    for a, b in ((-1.0, 1.0), (0.0, 1.0), (-3.0, 7.5), (1e-3, 2e3)):
        n = 3
        x = U.cheb_nodes(n, a, b)
        while n < 300:
            m = 2 * n - 1
            inc = U.incremental_cheb_nodes(m, a, b)
            y, _ = U.combine_interpolation_nodes_fast(x, x, inc, inc)
            R.close("nested", y, U.cheb_nodes(m, a, b), 1e-14 * max(abs(a), abs(b)), "nodes of %d on [%r, %r]" % (m, a, b))
            z, zy = U.combine_interpolation_nodes(x, 2 * x, inc, 2 * inc)
            R.close("nested", z, y, 0, "sorted nodes")
            R.close("nested", zy, 2 * y, 0, "values follow their nodes")
            vx, vy = U.combine_interpolation_nodes_fast_vector(x, np.array([x, 3 * x]), inc, np.array([inc, 3 * inc]))
            R.close("nested", vy, np.array([y, 3 * y]), 0, "vector values follow their nodes")
            R.same("ends", (float(y[0]), float(y[-1])), (a, b), "end points")
            R.close("spaces", U.chebspace(a, b, m), U.cheb_nodes(m, a, b), 0, "two names of the same nodes")
            n, x = m, y
            R.states += 1
            R.transitions += 1
        n = 2
        x = U.cheb_nodes1(n, a, b)
        while n < 200:
            m = 3 * n
            inc = U.incremental_cheb_nodes1(m, a, b)
            y, _ = U.combine_interpolation_nodes(x, x, inc, inc)
            R.close("nested, first kind", y, U.cheb_nodes1(m, a, b), 1e-14 * max(abs(a), abs(b)), "first-kind nodes of %d" % m)
            R.close("spaces", U.chebspace1(a, b, m), U.cheb_nodes1(m, a, b), 0, "two names of the same nodes")
            n, x = m, y
            R.states += 1
            R.transitions += 1
    R.same("one node", float(U.cheb_nodes(1, 2.0, 4.0)[0]), 3.0, "one node is the middle")
    R.seen("nodes")


def cheb(case, R):
    from pacal import utils as U
    for n in range(2, case["n"] + 1):           # smallest series first
        x = U.cheb_nodes(n)
        th = np.arccos(np.clip(x, -1, 1))
        for k in range(min(n, 12)):
            c = U.chebt2(np.cos(k * th))
            want = np.zeros(n)
            want[n - 1 - k] = 1.0
            R.close("coefficients", c, want, 1e-12, "coefficients of the Chebyshev polynomial of degree %d from %d values" % (k, n))
            R.close("values", U.ichebt2(c), np.cos(k * th)[::-1], 1e-12, "values from coefficients")
            R.states += 1
            R.transitions += 2
    for r in ([0.3], [-0.5, 0.25], [0.3], [-0.9, 0.0, 0.7], [-0.8, -0.2, 0.1, 0.65]):
        n = len(r) + 1
        c = np.flipud(U.chebt2(np.poly1d(r, True)(U.cheb_nodes(n))))
        R.close("roots", np.real(U.chebroots(c)), r, 1e-9, "roots of a Chebyshev series")
    R.seen(case["n"])


def detect(case, R):
    from pacal import utils as U
    for p in (-0.9, -0.75, -0.5, -0.25, -0.1, 0.25, 0.5, 0.75, 1.0, 2.0, 3.0, 0.0):
        for x0 in (0.0, 1.0, -2.0):
            for pos in (True, False):
                f = lambda x: np.abs(x - x0) ** p
                d = U.estimateDegreeOfPole(f, x0, pos=pos)
                R.close("degree", d, p, 1e-6 if x0 == 0 else 0.02, "exponent of |x - %r|^%r from the %s" % (x0, p, "right" if pos else "left"))
                if p < -0.05:
                    R.true("pole", bool(U.testPole(f, x0, pos=pos)), "a pole of exponent %r at %r is not noticed" % (p, x0))
                if p in (0.0, 1.0):
                    R.true("pole", not bool(U.testPole(f, x0, pos=pos)), "|x - %r|^%r is taken for a pole" % (x0, p))
                R.states += 1
                R.transitions += 1
                R.seen(round(float(d), 3))
    for p in (1.5, 2.0, 3.0):
        R.close("degree at infinity", -U.estimateTailExponent(lambda x: (1 + np.abs(x)) ** -p, fromTo=(2, 12)), p, 0.01, "exponent of a tail")


def inverse_(case, R):
    from pacal import utils as U
    funs = [("x", lambda x: x, lambda y: y), ("atan", lambda x: np.arctan(x), np.tan), ("cubic", lambda x: x ** 3 + x, None), ("exp", np.exp, np.log)]
    for name, f, g in funs:
        for x in (-3.7, -1.0, -0.25, 0.0, 0.4, 1.0, 2.5, 6.0):
            c = float(f(x))
            R.close("bracketed", U.findinv(f, -5.0, 8.0, c), x, 1e-9, "inverse of %s" % name)
            R.close("bisection", U.bisect(lambda t: f(t) - c, -5.0, 8.0), x, 1e-8, "bisection of %s" % name) if name != "exp" or x > -3 else None
            if x < 5: R.close("unbounded right", U.findinv_pinf(f, -5.0, c), x, 1e-8, "inverse of %s, unbounded to the right" % name)
            R.close("unbounded left", U.findinv_minf(f, 8.0, c), x, 1e-8, "inverse of %s, unbounded to the left" % name) if name != "exp" else None
            R.states += 1
            R.transitions += 4
            R.seen(round(c, 9))
        R.true("outside", np.isnan(U.findinv_minf(f, 0.0, float(f(1.0)))), "value above the right end")
        R.true("outside", np.isnan(U.findinv_pinf(f, 0.0, float(f(-1.0)))), "value below the left end")


def unique(case, R):
    """points closer than the tolerance are collapsed, nothing else is"""
    from pacal import utils as U
    base = [-np.inf, -2.0, 0.0, 1e-16, 1.0, 1.0 + 1e-15, 3.0, np.inf, np.nan]
    for L in (1, 2, 3, 4):
        for w in itertools.product(base, repeat=L):
            if all(np.isnan(t) for t in w): continue
            got = list(U.epsunique(np.array(w)))
            want = []
            for t in sorted(set(t for t in w if not np.isnan(t))):
                if want and np.isfinite(t) and np.isfinite(want[-1]) and (t - prev) <= 1e-14 * max(1.0, abs(t)):
                    prev = t
                    continue
                want.append(t)
                prev = t
            R.same("unique", got, want, "unique points of %s" % (w,))
            R.states += 1
            R.transitions += 1
    R.seen("unique")


# ------------------------------------------------------------------ convergence monitor
MON = [dict(abstol=1e-3, reltol=0.0, miq=2, nni=2, ratio=0.5, nz=False), dict(abstol=1e-3, reltol=1e-2, miq=3, nni=1, ratio=0.5, nz=False), dict(abstol=1e-3, reltol=1e-3, miq=10000, nni=2, ratio=0.5, nz=False),
       dict(abstol=1e-3, reltol=0.0, miq=1, nni=3, ratio=0.9, nz=True)]
ERRS = [1e-4, 0.01, 0.1, 1.0]
VALS = [0.0, 1.0, -20.0]


def monitor(case, R):
    from pacal import utils as U
    P = case["p"]
    class par(object):
        abstol, reltol, min_quit_iter, min_quit_no_improvement, min_improvement_ratio, force_nonzero = P["abstol"], P["reltol"], P["miq"], P["nni"], P["ratio"], P["nz"]
    letters = list(itertools.product(ERRS, VALS))
    if case["depth"] > 5: pass
    def walk(seq, last, bad, depth):
        """every history; the reference is the documented rule"""
        for e, y in letters:
            s = seq + [(e, y)]
            m = U.convergence_monitor(par=par)
            ans = None
            for i, (ee, yy) in enumerate(s):
                m.add(ee, yy, i)
                ans = m.test_convergence()
            R.transitions += 1
            R.states += 1
            l2, b2 = last, bad
            conv = e <= max(P["abstol"], abs(y) * P["reltol"]) and (not P["nz"] or y != 0)
            if conv:
                want = (True, "converged")
            else:
                if seq and e < P["ratio"] * s[last][0]: l2, b2 = len(s) - 1, 0
                else: b2 = bad + 1
                stop = len(s) >= max(2, P["miq"]) and b2 >= P["nni"]
                want = (True, "did not converge") if stop else (False, "continue")
            R.same("verdict", tuple(ans), want, "verdict after errors and values %s" % (s,))
            R.seen(want)
            by, be, bx = m.get_best_result()
            if conv:
                R.same("result", (by, be, bx), (y, e, len(s) - 1), "converged result after %s" % (s,))
            else:
                rel = [ee / abs(yy) if yy else np.finfo(float).max for ee, yy in s]
                j = 0
                for i in range(1, len(s)):
                    if rel[i] < 0.75 * rel[j]: j = i
                R.same("result", (by, be, bx), (s[j][1], s[j][0], j), "best result after %s" % (s,))
            R.evals += 2
            if not want[0] and depth > 1:
                walk(s, l2, b2, depth - 1)
    walk([], 0, 0, 4 if case["depth"] <= 5 else 5)
    R.traces += 1
