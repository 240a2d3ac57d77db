"""P06: distribution function, survival function, quantiles and intervals of one variable agree with each other and with the law."""
import numpy as np
from mc import alphabet as A

LEVEL = "model_checking"
RULE = ("states are the variables of an alphabet (base laws, mixtures of uniform pieces and atoms, discrete variables, functions of a variable, "
        "pairs combined by an operation), each with an exact distribution function; on each the distribution function, survival function, "
        "quantile, median, inter-quantile range and intervals, exact and interpolated, scalar and array, are enumerated over every breakpoint, "
        "atom, both their sides, every midpoint, infinity, and every probability of a grid extended by all values of the distribution function at "
        "breakpoints and inside all jumps; a quantile q of p is right exactly when P(X<q) <= p <= P(X<=q)")
ASSUMPTIONS = ["on a flat piece every point of the piece is an acceptable quantile", "probabilities agree to 2e-7 (1e-6 .. 5e-6 for derived variables), interpolated forms to 1e-5 (functions of a variable at the thorough tier: 5e-3)"]
CPU_LIMIT = 120
P = [0.0, 1e-6, 0.001, 0.025, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95, 0.975, 0.999, 1 - 1e-6, 1.0]

QUICK = set(A.BASE + A.MIXED + A.DISCRETE + A.derived() + A.PAIRS)


def cases(tier):
    names = A.BASE + A.MIXED + A.DISCRETE + A.derived() + (A.PAIRS if tier != "quick" else A.PAIRS[::3])
    if tier != "quick":
        names = A.BASE + A.MIXED + A.DISCRETE + A.derived(A.BASE + A.MIXED, list(A.p04.F)) + A.PAIRS
    out, seen = [], set()
    for n in names:
        if n not in seen:
            seen.add(n)
            out.append({"id": n, "v": n})
    return out


def valid(V, p, q, tol):
    """is q a generalised inverse of p, up to tol in probability and rounding in q"""
    if np.isnan(q):
        return False
    if p <= tol and q == -np.inf or p >= 1 - tol and q == np.inf:
        return p <= 0 or p >= 1 or not np.isfinite(V.a if q < 0 else V.b)
    d = 1e-9 * max(1.0, abs(q)) if np.isfinite(q) else 0.0
    return V.cdfm(q - d) <= p + tol and V.cdf(q + d) >= p - tol


def same_(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run(case, R):
    V = A.Var(case["v"])
    X = V.build()
    n = case["id"]
    tol = V.tol
    R.states += 1
    R.traces += 1
    pts = []
    for x, y in zip(V.pts, V.pts[1:]):
        pts.append((x + y) / 2)
    e = lambda x: 1e-7 * max(1.0, abs(x))
    for x in V.brk:
        pts += [x - e(x), x + e(x)] + ([] if x in V.atoms else [x])
    pts += V.q + [V.pts[0] - 3 * V.span, V.pts[-1] + 3 * V.span, V.pts[0] - 1e4 * V.span, V.pts[-1] + 1e4 * V.span, 0.0]
    near = lambda x: any(0 < abs(x - k) < 0.9 * e(k) or x == k for k in V.atoms)
    pts = sorted(set(x for x in pts if not near(x)))
    C = np.array([V.cdf(x) for x in pts])
    y = np.array(pts)
    R.seen([round(float(c), 6) for c in C])
    got = X.cdf(y)
    ok = R.close("cdf", got, C, tol, n + " cdf")
    sc = [X.cdf(x) for x in pts[::2]]
    R.true("cdf scalar type", all(np.ndim(v) == 0 for v in sc), "%s: cdf(number) is not a number" % n)
    R.close("cdf scalar", [float(v) for v in sc], C[::2], tol, n + " cdf(number)")
    R.close("ccdf", X.ccdf(y), 1 - C, tol, n + " ccdf")
    R.close("ccdf scalar", [float(X.ccdf(x)) for x in pts[::3]], 1 - C[::3], tol, n + " ccdf(number)")
    R.close("ccdf complement", X.ccdf(y) + X.cdf(y), np.ones(len(y)), 1e-12, n + " cdf+ccdf")
    R.close("ccdf_value", [float(X.ccdf_value(x)) for x in pts], 1 - C, tol, n + " ccdf_value")
    R.true("monotone", np.all(np.diff(got) >= -1e-9), "%s: cdf decreases by %s" % (n, -np.min(np.diff(got))))
    R.true("bounds", np.all(got >= -1e-9) and np.all(got <= 1 + tol), "%s: cdf outside [0,1]" % n)
    R.close("infinity", [float(X.cdf(-np.inf)), float(X.cdf(np.inf))], [0, 1], tol, n + " cdf at infinity")
    R.close("int array", X.cdf(np.array([-1, 0, 1, 2, 3]) ), [float(X.cdf(float(k))) for k in (-1, 0, 1, 2, 3)], 1e-12, n + " cdf of integers")
    # atoms: evaluated at the position the library holds, the function is right-continuous
    PW = X.get_piecewise_pdf()
    at = sorted((float(s.a), float(s.f)) for s in PW.getDiracs() if abs(s.f) > 1e-10)
    for k, m in at:
        # the position may be off by rounding: compare with the law at the exact atom
        k0 = min(V.atoms, key=lambda z: abs(z - k)) if V.atoms else k
        R.true("atom position", abs(k0 - k) <= e(k), "%s: atom at %r, law has %s" % (n, k, sorted(V.atoms)[:9]))
        R.close("right-continuous at atom", [float(X.cdf(k)), float(X.cdf(np.array([k]))[0])], [V.cdf(k0)] * 2, tol + 2e-6, n + " cdf at atom %g" % k)
        R.close("ccdf at atom", float(X.ccdf(k)), 1 - V.cdf(k0), tol + 2e-6, n + " ccdf at atom %g" % k)
    R.close("density integral", [PW.integrate(-np.inf, x) for x in pts], C, tol, n + " integral of the density")
    # quantiles
    ps = set(P)
    for x in V.brk:
        c0, c1 = V.cdfm(x), V.cdf(x)
        ps |= {c0, c1}
        if c1 - c0 > 1e-9:
            ps |= {c0 + (c1 - c0) * t for t in (0.01, 0.5, 0.99)}
    for x, z in zip(V.brk, V.brk[1:]):
        c0, c1 = V.cdf(x), V.cdfm(z)
        ps.add((c0 + c1) / 2)
    ps = sorted(min(max(p, 0.0), 1.0) for p in ps)
    qt = tol + 1e-8
    qs = []
    for p in ps:
        q = X.quantile(p)
        R.evals += 1
        qs.append(float(q))
        if np.ndim(q) != 0 or not valid(V, p, float(q), qt):
            R.fail("quantile", "%s: quantile(%r) = %r, where P(<)=%r and P(<=)=%r" % (n, p, q, V.cdfm(float(q)), V.cdf(float(q))))
    qa = X.quantile(np.array(ps))
    R.true("quantile array", len(qa) == len(ps) and all(a == b or abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(qa, qs)), "%s: quantile(array) %s, quantile(number) %s" % (n, qa, qs))
    ql = X.quantile(list(ps))
    R.true("quantile list", np.array_equal(np.asarray(ql), np.asarray(qa), equal_nan=True), "%s: quantile(list)" % n)
    # every pattern of repeated and unordered arguments; empty arrays
    import itertools
    lv = [ps[len(ps) // 3], ps[2 * len(ps) // 3]]
    xv = [pts[len(pts) // 3], pts[2 * len(pts) // 3]]
    for name, f, v in (("quantile", X.quantile, lv), ("cdf", X.cdf, xv), ("ccdf", X.ccdf, xv), ("pdf", X.pdf, xv)):
        one = [float(f(t)) for t in v]
        for w in itertools.product((0, 1), repeat=3):
            g = np.asarray(f(np.array([v[i] for i in w])), float)
            R.true("%s pattern" % name, g.shape == (3,) and np.allclose(g, [one[i] for i in w], rtol=1e-9, atol=1e-12, equal_nan=True), "%s: %s of %s is %s, one by one %s" % (n, name, [v[i] for i in w], g, [one[i] for i in w]))
    R.true("quantile reversed", all(same_(a, b) for a, b in zip(X.quantile(np.array(ps[::-1])), qs[::-1])), "%s: quantile(decreasing array)" % n)
    R.close("cdf reversed", X.cdf(y[::-1]), got[::-1], 1e-12, n + " cdf of a decreasing array")
    R.true("median", valid(V, 0.5, float(X.median()), qt), "%s: median() = %r" % (n, X.median()))
    same = lambda a, b: a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    Q = lambda p: float(X.quantile(p))
    for l in (0.025, 0.1, 0.25):
        R.true("iqrange", same(float(X.iqrange(l)), Q(1 - l) - Q(l)), "%s: iqrange(%g)=%r, quantiles %r %r" % (n, l, X.iqrange(l), Q(l), Q(1 - l)))
        R.true("iqrange piecewise", same(float(PW.iqrange(l)), Q(1 - l) - Q(l)), "%s: piecewise iqrange" % n)
    R.true("iqrange default", same(float(X.iqrange()), Q(0.975) - Q(0.025)), "%s: iqrange()" % n)
    for p in (0.05, 0.2, 0.5):
        lo, hi = X.ci(p)
        R.true("ci", same(float(lo), Q(p / 2)) and same(float(hi), Q(1 - p / 2)), "%s: ci(%g)=%r" % (n, p, (lo, hi)))
        R.true("ci valid", valid(V, p / 2, float(lo), qt) and valid(V, 1 - p / 2, float(hi), qt), "%s: ci(%g)=%r" % (n, p, (lo, hi)))
        lo, hi = X.interval(1 - p)
        R.true("interval", valid(V, p / 2, float(lo), qt) and valid(V, 1 - p / 2, float(hi), qt), "%s: interval(%g)=%r" % (n, 1 - p, (lo, hi)))
    lo, hi = X.ci()
    R.true("ci default", same(float(lo), Q(0.025)) and same(float(hi), Q(0.975)), "%s: ci()" % n)
    lo, hi = X.interval()
    R.true("interval default", same(float(lo), Q(0.025)) and same(float(hi), Q(0.975)), "%s: interval()" % n)
    R.sample = "%s: quantile(0.25)=%.9g" % (n, qs[ps.index(0.25)])
    # interpolated forms
    # functions of a variable can be very flat or steep at the ends, where interpolation is only moderately accurate
    it = (1e-5 if n in QUICK else 5e-3) + tol
    if n not in QUICK and n.startswith(("big: ", "Semi: ")):
        return
    ci = X.get_piecewise_cdf_interp()
    R.close("cdf interpolated", ci(y), C, it, n + " interpolated cdf")
    R.close("ccdf interpolated", X.get_piecewise_ccdf_interp()(y), 1 - C, it, n + " interpolated ccdf")
    for p in ps:
        q = float(ci.inverse(p))
        R.true("cdf interpolated inverse", valid(V, p, q, it), "%s: inverse of interpolated cdf at %r = %r (%r, %r)" % (n, p, q, V.cdfm(q), V.cdf(q)))
    inner = np.array([p for p in ps if 0 < p < 1])
    for up in (False, True):
        qi = X.get_piecewise_invcdf(use_interpolated=up)(inner)
        t = (2e-3 if n in QUICK else 5e-2) if up else it
        for p, q in zip(inner, qi):
            if up and min(abs(p - V.cdf(b)) for b in V.brk + [0.0]) < 1e-3 or up and min(abs(p - V.cdfm(b)) for b in V.brk + [0.0]) < 1e-3:
                continue
            R.true("inverse cdf %s" % ("interpolated" if up else "exact"), valid(V, p, float(q), t), "%s: get_piecewise_invcdf(%s)(%r) = %r (%r, %r)" % (n, up, p, q, V.cdfm(float(q)), V.cdf(float(q))))
