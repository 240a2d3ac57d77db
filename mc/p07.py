"""P07: summary statistics and divergences against their definitions."""
import contextlib
import io
import numpy as np
from mc import alphabet as A
from mc import bounded as B
from mc import laws as L
from mc import p02, p04

LEVEL = "model_checking"
RULE = ("states are the variables of an alphabet (base laws, mixtures of uniform pieces and atoms, discrete variables, functions of a variable, pairs "
        "combined by an operation); on each of them every statistic is compared with its defining integral under the exact law, transitions are "
        "linear maps of the variable, after which every statistic has to follow its transformation rule; every ordered pair of a smaller alphabet for "
        "divergences; moments of order at or above the tail index must not be finite numbers")
ASSUMPTIONS = ["reference integrals by tanh-sinh quadrature between all special points, in probability space for base laws",
               "mode only for unimodal densities and discrete variables with a single most likely value",
               "entropy of a mixed variable is the sum of the discrete and the continuous part"]
CPU_LIMIT = 120
KLC = ["N01", "N1h", "Lap", "Cau", "T3", "Gum", "Exp", "Exp2", "Gam", "Chi3", "Wei", "LLog", "F35", "Par", "B23", "Semi", "U", "U12", "u01", "um11", "gap", "step", "um3m1"]
KLD = ["Bin3", "BinH", "Die", "Dneg", "Ber", "Two", "Dsum", "bern", "pm"]
LIN = [(2.0, 1.0), (-1.0, 0.0), (-0.25, 3.0), (50.0, -5.0)]
SCALES = [1e-3, -0.02, 0.125, 1000.0]       # existence of a moment does not depend on the unit
MULTI = ("step", "gap")


def cases(tier):
    quick = tier == "quick"
    names = A.BASE + A.MIXED + A.DISCRETE + A.derived() + (A.PAIRS[1::3] if quick else A.PAIRS)
    if not quick:
        names += [n for n in A.derived(A.BASE + A.MIXED, list(p04.F)) if not n.startswith(("tiny: ", "big: "))]
    out, seen = [], set()
    for n in names:
        if n not in seen:
            seen.add(n)
            out.append({"id": n, "v": n, "kind": "stat"})
    for S in (KLC, KLD):
        for x in S:
            out.append({"id": "divergence " + x, "kind": "div", "x": x, "S": S})
    return out


def run(case, R):
    {"stat": stat, "div": div}[case["kind"]](case, R)


def pdf_of(n):
    if n in L.DEFS:
        l = L.law(n)
        return l.pdf, [l.a, l.b], l.brk
    m = B.Mix(*(p02.V.get(n) or p04.EXTRA.get(n)))
    return m.pdf, [m.breaks()[0], m.breaks()[-1]], m.breaks()


def ref_entropy(V):
    """differential entropy of the continuous part plus entropy of the atoms; None when not available in closed form"""
    at = -sum(p * np.log(p) for p in V.atoms.values())
    if V.kind == "disc":
        return at
    if V.kind == "pair":
        z = A.Var(V.name)
        z.atoms = {}
        z.res.atoms = {}
        return at + z.expect(lambda x: -np.log(z.res.pdf(x)))
    f = V.fs[0] if V.fs else None
    D = {None: lambda x: 0 * x, "1-X": lambda x: 0 * x, "X*-0.5": lambda x: 0 * x + np.log(0.5), "X*100": lambda x: 0 * x + np.log(100.), "1/X": lambda x: -2 * np.log(abs(x)),
         "exp(X)": lambda x: x, "log(X)": lambda x: -np.log(x), "sqrt(X)": lambda x: np.log(0.5) - 0.5 * np.log(x), "atan(X)": lambda x: -np.log1p(x * x)}
    if f not in D:
        return None
    base = A.Var(V.v)
    w = 1 - sum(base.atoms.values())
    if w < 1e-12:
        return at
    if V.v in L.DEFS:
        pdf = L.law(V.v).pdf
        return at + L.integrate_q(L.law(V.v), lambda x: -np.log(pdf(x)) + D[f](x), [0.0])
    m = B.Mix(*(p02.V.get(V.v) or p04.EXTRA.get(V.v)))
    tot = at
    br = sorted(set(m.breaks()) | ({0.0} if m.breaks()[0] < 0 < m.breaks()[-1] else set()))
    for lo, hi in zip(br, br[1:]):
        d = float(m.pdf((lo + hi) / 2))
        if d > 0:
            tot += A._ts_int(lambda x: d * (-np.log(d) + D[f](x)), lo, hi)
    return tot


@np.errstate(all="ignore")
def stat(case, R):
    n = case["v"]
    V = A.Var(n)
    X = V.build()
    PW = X.get_piecewise_pdf()
    al = V.alpha()
    heavy = np.isfinite(al)
    R.states += 1
    R.traces += 1
    fl = lambda v: float(v)
    tol = 2e-6 if not (V.kind == "func" and V.fs) else 1e-5
    if n in ("Bhh", "Semi") or n.startswith(("Bhh: ", "Semi: ")):
        tol = 2e-4
    m = V.expect(lambda x: x)
    out = []

    def check(asp, got, want, k, scale):
        """statistic involving moments up to order k"""
        got = fl(got)
        out.append(round(got, 6) if np.isfinite(got) else str(got))
        if k >= al:
            R.true(asp, not np.isfinite(got), "%s: %s is infinite or undefined (tail index %g), reported as %r" % (n, asp, al, got))
        elif al - k >= (0.75 if not n.startswith("F35") else 1.5):
            # the largest contribution of a heavy tail is limited by the truncation of the tail
            R.close(asp, got, want, (tol if not heavy else 20 * tol) * scale, n + " " + asp)

    a1 = V.expect(lambda x: abs(x), [0.0]) + 1e-6
    check("mean", X.mean(), m, 1, a1)
    check("meanf", X.meanf(lambda x: x), m, 1, a1)
    check("piecewise mean", PW.mean(), m, 1, a1)
    v = V.expect(lambda x: (x - m) ** 2)
    m2 = V.expect(lambda x: x * x) + 1e-9
    sv = m2 if np.isfinite(m2) else 1.0
    check("var", X.var(), v, 2, sv)
    check("std", fl(X.std()) ** 2, v, 2, sv)
    for k in range(0, 5):
        w = V.expect(lambda x: x ** k)
        s = V.expect(lambda x: abs(x) ** k, [0.0]) + 1e-9
        check("moment %d" % k, X.moment(k, 0), w, k, s)
        for c in (m, 0.75):
            if abs(c) < 1e9:
                w = V.expect(lambda x: (x - c) ** k)
                s = V.expect(lambda x: (abs(x) + abs(c)) ** k, [0.0]) + 1e-9
                check("central moment %d" % k if c == m else "moment %d about 0.75" % k, X.moment(k, c) if c != m else X.moment(k), w, max(k, 1) if c == m else k, s)
    c3, c4 = V.expect(lambda x: (x - m) ** 3), V.expect(lambda x: (x - m) ** 4)
    rel = (m2 + m * m) / v if v > 0 else 1     # cancellation in central moments
    if v > 1e-9 * m2 and rel < 1e5 and al > 2:
        check("skewness", X.skewness(), c3 / v ** 1.5, 3, rel ** 1.5 * 10 * max(1, abs(c3 / v ** 1.5)))
        check("kurtosis", X.kurtosis(), c4 / v ** 2, 4, rel ** 2 * 10 * (c4 / v ** 2))
    elif v == 0:
        R.true("skewness", np.isnan(X.skewness()) and np.isnan(X.kurtosis()), "%s: skewness of a constant" % n)
    # expectations of bounded functions exist for every variable
    for g, f, ks in [("cos", np.cos, ()), ("gauss", lambda x: np.exp(-x * x), ()), ("x/(1+x^2)", lambda x: x / (1 + x * x), ())]:
        if V.span < 50 and (g != "cos" or not heavy):
            R.close("meanf " + g, fl(X.meanf(f)), V.expect(f), 50 * tol, n + " E " + g)
    # moment generating function, where the expectation exists
    rate = {"N1h": 9, "N01": 9, "Exp": 1, "Exp2": 2, "mExp": 1, "Lap": 1, "Gam": 1, "Chi1": 0.5, "Chi3": 0.5}.get(n, 0)
    ts = [t for t in (-1.3, -0.4, 0.0, 0.3, 1.0, 2.5) if t == 0 or (np.isfinite(V.a) if t < 0 else np.isfinite(V.b)) or abs(t) <= 0.6 * rate]
    ts = [t for t in ts if t == 0 or V.span < 50 and max([abs(b) for b in V.brk] + [0]) < 50]
    M = X.mgf()
    want = [V.expect(lambda x: np.exp(t * x)) for t in ts]
    R.close("mgf", [fl(M(t)) for t in ts], want, 50 * tol * np.maximum(1, np.abs(want)), n + " mgf at %s" % ts)
    R.close("mgf of an array", M(np.array(ts)), want, 50 * tol * np.maximum(1, np.abs(want)), n + " mgf of %s" % ts)
    R.close("mgf of integers", M(np.array([0])), [1.0], 50 * tol, n + " mgf of integers")
    # median absolute deviation
    med = fl(X.median())
    dv = fl(X.medianad())
    out.append(round(dv, 6) if np.isfinite(dv) else str(dv))
    e = 1e-7 * max(1.0, abs(dv), abs(med))
    lt = V.cdfm(med + dv - e) - V.cdf(med - dv + e) if dv - e > 0 else 0.0
    le = V.cdf(med + dv + e) - V.cdfm(med - dv - e)
    R.true("medianad", np.isfinite(dv) and lt <= 0.5 + 10 * tol and le >= 0.5 - 10 * tol, "%s: medianad %r, P(|X-%r|<d)=%r, P(<=)=%r" % (n, dv, med, lt, le))
    ent = ref_entropy(V)
    if ent is not None and n not in ("Bhh",) and not n.startswith("Bhh: "):
        got = fl(X.entropy())
        out.append(round(got, 6))
        R.close("entropy", got, ent, 2e-5 * max(1, abs(ent)), n + " entropy")
    R.close("int_error", fl(X.int_error()), 0.0, 10 * tol, n + " int_error")
    # range
    lo, hi = PW.range()
    R.true("piecewise range", lo <= V.a + 1e-9 * max(1, abs(V.a) if np.isfinite(V.a) else 1) and hi >= V.b - 1e-9 * max(1, abs(V.b) if np.isfinite(V.b) else 1), "%s: piecewise range %r, support %r" % (n, (lo, hi), (V.a, V.b)))
    if V.kind != "pair" and not V.fs:
        R.true("range", abs(lo - V.a) < 1e-12 or lo == V.a, "%s: range %r" % (n, (lo, hi)))
        R.true("range", abs(hi - V.b) < 1e-12 or hi == V.b, "%s: range %r" % (n, (lo, hi)))
    rlo, rhi = X.range()
    R.true("range contains support", (rlo <= V.a or rlo - V.a < 1e-9 * max(1, abs(V.a))) and (rhi >= V.b or V.b - rhi < 1e-9 * max(1, abs(V.b))), "%s: range %r, support %r" % (n, (rlo, rhi), (V.a, V.b)))
    # mode
    if not V.fs and V.kind == "func" and not V.atoms and n not in MULTI:
        pdf, ab, brk = pdf_of(n)
        x = fl(X.mode())
        e = 1e-6 * V.span
        peak = max([fl(pdf(np.array([t]))[0]) for t in V.q + [b + s * e for b in brk for s in (1, -1)]])
        here = max(fl(pdf(np.array([x + s * e]))[0]) for s in (0, 1, -1))
        R.true("mode", here >= peak * (1 - 1e-4), "%s: mode %r has density %r, the maximum is at least %r" % (n, x, here, peak))
    if V.kind == "disc" or V.atoms and abs(sum(V.atoms.values()) - 1) < 1e-12:
        x = fl(X.mode())
        pk = max(V.atoms.values())
        R.true("mode", any(abs(x - k) < 1e-9 * max(1, abs(k)) and p >= pk - 1e-9 for k, p in V.atoms.items()), "%s: mode %r of %r" % (n, x, V.atoms))
    R.true("is_nonneg", bool(X.is_nonneg()) == (V.a > 0) or V.a == 0, "%s: is_nonneg %r, support from %r" % (n, X.is_nonneg(), V.a))
    if n in ("Cau", "Cau2", "Par", "Lev"):
        t = X.tailexp()
        R.close("tailexp", fl(t[1]), -(al + 1), 0.02, n + " tail exponent")
    # summaries repeat the individual answers
    S = X.summary_map()
    same = lambda a, b: a is b or np.array_equal(np.asarray(a, dtype=object).astype(str), np.asarray(b, dtype=object).astype(str)) or \
        np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-7, atol=1e-9, equal_nan=True)
    for k, f in [("mean", X.mean), ("std", X.std), ("var", X.var), ("skewness", X.skewness), ("kurtosis", X.kurtosis), ("entropy", X.entropy), ("median", X.median),
                 ("medianad", X.medianad), ("mode", X.mode), ("iqrange(0.025)", lambda: X.iqrange(0.025)), ("interval(0.95)", lambda: X.interval(0.95)), ("range", PW.range), ("int_err", X.int_error)]:
        R.true("summary_map", k in S and same(S[k], f()), "%s: summary_map()[%r] = %r, computed %r" % (n, k, S.get(k), f()))
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        X.summary(show_moments=False)
    txt = buf.getvalue()
    R.true("summary", "---" not in txt and all(("%s" % k) in txt for k in ("mean", "var", "median", "range")), "%s: summary() printed %r" % (n, txt))
    F5 = [fl(t) for t in X.five_number_summary()]
    iv = X.interval(0.95)
    R.true("five numbers", same(F5[1:4], [iv[0], X.median(), iv[1]]) and (not np.isfinite(rlo) or same(F5[0], rlo)) and (not np.isfinite(rhi) or same(F5[4], rhi))
           and (np.isfinite(rlo) or same(F5[0], iv[0] - 1.5 * X.iqrange(0.25))) and (np.isfinite(rhi) or same(F5[4], iv[1] + 1.5 * X.iqrange(0.25))), "%s: five_number_summary %r" % (n, F5))
    R.seen(out)
    R.sample = "%s: mean %r var %r medianad %r" % (n, X.mean(), X.var(), dv)
    if al <= 2 and V.kind == "func" and not V.fs:
        for a in SCALES:
            Z = a * X
            R.transitions += 1
            if al <= 1: R.true("unit mean", not np.isfinite(fl(Z.mean())), "%s: mean of %g*X does not exist, reported as %r" % (n, a, Z.mean()))
            R.true("unit var", not np.isfinite(fl(Z.var())), "%s: variance of %g*X does not exist, reported as %r" % (n, a, Z.var()))
    # linear maps
    g = lambda f, Z: fl(f(Z))
    # a pole moved away from zero is represented less accurately
    lt = 500 if V.fs and (V.fs[0] in ("X**3", "X**1.5", "X**2") or V.name.split(": ")[0] in ("Chi1", "Lap", "Bhh", "Gam", "F35", "Lev", "Wei", "Semi", "Exp", "Exp2", "N01", "N1h", "Cau", "Cau2", "T3")) else 1
    for a, b in LIN:
        R.transitions += 1
        Z = a * X + b
        sc = max(1.0, abs(a) * V.span + abs(b))
        if al > 1.5:
            R.close("linear mean", g(lambda t: t.mean(), Z), a * fl(X.mean()) + b, lt * (1e-6 * sc * a1 if not heavy else 1e-4 * sc * a1), "%s: mean of %g*X%+g" % (n, a, b))
        if al > 2.5:
            R.close("linear var", g(lambda t: t.var(), Z), a * a * fl(X.var()), lt * (1e-5 * a * a * sv + 1e-5 * (b * b + a * a) * 1e-3), "%s: var of %g*X%+g" % (n, a, b))
        if al <= 1:
            got = g(lambda t: t.mean(), Z)
            R.true("linear mean", not np.isfinite(got), "%s: mean of %g*X%+g does not exist, reported as %r" % (n, a, b, got))
            if V.kind == "func" and not V.fs:
                import pacal as P
                for k, M in enumerate((P.MixDistr([0.5, 0.5], [Z, P.UniformDistr(1, 2)]), P.MixDistr([0.25, 0.75], [P.ConstDistr(1.5), Z]))):
                    got = g(lambda t: t.mean(), M)
                    R.true("mixture mean", not np.isfinite(got), "%s: mean of mixture %d with %g*X%+g does not exist, reported as %r" % (n, k, a, b, got))
        if al <= 2:
            got = g(lambda t: t.var(), Z)
            R.true("linear var", not np.isfinite(got), "%s: variance of %g*X%+g does not exist, reported as %r" % (n, a, b, got))
        R.close("linear median", V.cdf((g(lambda t: t.median(), Z) - b) / a + 1e-8 * sc) - V.cdfm((g(lambda t: t.median(), Z) - b) / a - 1e-8 * sc) >= -1e-9 and
                _inv(V, 0.5, (g(lambda t: t.median(), Z) - b) / a, 20 * tol * min(lt, 50)), 1, 0.1, "%s: median of %g*X%+g" % (n, a, b))
        if V.kind == "func" and not V.atoms and n not in MULTI and "max" not in n and "min" not in n and "sign" not in n:
            R.close("linear medianad", g(lambda t: t.medianad(), Z), abs(a) * dv, lt * (2e-5 * abs(a) * max(dv, 1e-3) + 1e-7 * sc), "%s: medianad of %g*X%+g" % (n, a, b))
        if not V.atoms and ent is not None:
            R.close("linear entropy", g(lambda t: t.entropy(), Z), fl(X.entropy()) + np.log(abs(a)), (1e-4 if lt == 1 else 5e-3) * max(1, abs(ent) + abs(np.log(abs(a)))), "%s: entropy of %g*X%+g" % (n, a, b))


def _inv(V, p, q, tol):
    e = 1e-7 * max(1.0, abs(q))
    return V.cdfm(q - e) <= p + tol and V.cdf(q + e) >= p - tol


@np.errstate(all="ignore")
def div(case, R):
    x = case["x"]
    cont = case["S"] is KLC or case["S"] == KLC
    VX = A.Var(x)
    X = VX.build()
    R.states += 1
    for y in case["S"]:
        R.transitions += 1
        R.traces += 1
        VY = A.Var(y)
        Y = VY.build()
        w = "%s,%s" % (x, y)
        if cont:
            f, (a, b), bx = pdf_of(x)
            g, (c, d), by = pdf_of(y)
            inside = c <= a and b <= d and not (y == "gap" and VX.cdf(2) - VX.cdf(1) > 0)
            h = lambda t: np.where(f(t) > 0, np.log(f(t)) - np.log(g(t)), 0.0)
            kl = VX.expect(h, by) if inside else np.inf
            # where the second density underflows the library cannot know it: only decided when that has no weight
            if inside:
                t = np.array(VX.q)
                with np.errstate(all="ignore"):
                    lost = VX.expect(lambda t: np.where(g(t) > 1e-300, 0.0, 1.0))
                if lost > 1e-12 or x in ("Par", "LLog", "F35", "Cau", "T3") and y not in ("Par", "LLog", "F35", "Cau", "T3"):
                    kl = None
            l2 = np.sqrt(max(0.0, VX.expect(lambda t: f(t), by) - 2 * VX.expect(lambda t: g(t), by) + VY.expect(lambda t: g(t), bx)))
        else:
            px, py = VX.atoms, VY.atoms
            kl = sum(p * np.log(p / py[k]) if k in py else np.inf for k, p in px.items() if p > 0)
            l2 = np.sqrt(sum((px.get(k, 0) - py.get(k, 0)) ** 2 for k in set(px) | set(py)))
        got = float(X.KL_dist(Y))
        R.seen((x, y, round(got, 5) if np.isfinite(got) else str(got)))
        if kl is None:
            pass
        elif np.isfinite(kl):
            R.close("KL_dist %s" % y, got, kl, 1e-5 * max(1, kl), "KL_dist(%s)" % w)
        else:
            R.true("KL_dist %s" % y, not np.isfinite(got), "KL_dist(%s) is infinite, reported %r" % (w, got))
        got = float(X.L2_dist(Y))
        R.close("L2_dist %s" % y, got, l2, 1e-5 * max(1, l2), "L2_dist(%s)" % w)
        R.sample = "KL_dist(%s)=%r" % (w, kl)
