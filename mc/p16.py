"""P16: copulas couple their marginals without changing them."""
import contextlib
import io
import itertools
import math
import numpy as np
import scipy.integrate as si
import scipy.stats as st

LEVEL = "model_checking"
RULE = ("every copula family over a grid of dependence parameters and dimensions, every rectangle of a grid of the unit cube (volume, Frechet bounds, groundedness, margins, density against its volume), every pair or triple of an "
        "alphabet of marginals; every order of eliminations down to nothing, every ordered set of conditioned variables named by position or by object, every pair for the dependence coefficients; "
        "all call histories up to length 2 (3 at the thorough tier) on one copula, its answers compared with an untouched one; closed-form reference copulas")
ASSUMPTIONS = ["scipy.stats and scipy.integrate are correct", "marginal laws are judged by P05", "densities are judged inside the unit cube, where the mixed derivative exists"]
CPU_LIMIT = 300

# ------------------------------------------------------------------ reference copulas: C(u...), c(u...) with arrays
def _arch(phi, psi, dpsi, dphi):
    def C(*u): return psi(sum(phi(x) for x in u))
    def c(*u):
        p = 1.0
        for x in u: p = p * dphi(x)
        return dpsi(sum(phi(x) for x in u), len(u)) * p
    return C, c


def clayton(t):
    def C(*u):
        with np.errstate(all="ignore"): return np.maximum(sum(np.asarray(x, float) ** -t for x in u) - len(u) + 1, 0.0) ** (-1.0 / t)
    def c(*u):
        s = np.maximum(sum(np.asarray(x, float) ** -t for x in u) - len(u) + 1, 0.0)
        k = np.prod([1 + i * t for i in range(len(u))])
        return np.where(s > 0, k * np.prod([np.asarray(x, float) ** (-t - 1) for x in u], axis=0) * np.where(s > 0, s, 1.0) ** (-1.0 / t - len(u)), 0.0)
    return C, c


def gumbel(t):
    def C(*u): return np.exp(-sum((-np.log(x)) ** t for x in u) ** (1.0 / t))
    def c(*u):
        d = len(u)
        s = sum((-np.log(x)) ** t for x in u)
        a = 1.0 / t
        w = s ** a
        # derivatives of exp(-s^a)
        if d == 1: D = -a * s ** (a - 1) * np.exp(-w)
        elif d == 2: D = np.exp(-w) * (a * a * s ** (2 * a - 2) - a * (a - 1) * s ** (a - 2))
        else: D = np.exp(-w) * (-a ** 3 * s ** (3 * a - 3) + 3 * a * a * (a - 1) * s ** (2 * a - 3) - a * (a - 1) * (a - 2) * s ** (a - 3))
        p = 1.0
        for x in u: p = p * (-t * (-np.log(x)) ** (t - 1) / x)
        return D * p
    return C, c


def frank(t):
    e = math.expm1(-t)
    def C(*u):
        p = 1.0
        for x in u: p = p * np.expm1(-t * np.asarray(x, float))
        return -np.log1p(p / e ** (len(u) - 1)) / t
    def c(*u):
        d = len(u)
        p = 1.0
        q = 1.0
        for x in u:
            p = p * np.expm1(-t * np.asarray(x, float))
            q = q * np.exp(-t * np.asarray(x, float))
        z = p / e ** (d - 1)
        # with z = prod expm1(-t u)/e^(d-1), C = -log(1+z)/t; derivatives by the operator z d/dz, applied d times
        k = (-t) ** d * q / (p / 1.0)
        f = {1: z / (1 + z), 2: z / (1 + z) ** 2, 3: z * (1 - z) / (1 + z) ** 3}[d]
        return -k * f / t
    return C, c


def pi(): return (lambda *u: np.prod(np.broadcast_arrays(*u), axis=0) * 1.0), (lambda *u: np.ones(np.broadcast(*u).shape))
def upper(): return (lambda *u: np.min(np.broadcast_arrays(*u), axis=0) * 1.0), (lambda *u: np.zeros(np.broadcast(*u).shape))
def lower(): return (lambda *u: np.maximum(sum(u) - len(u) + 1.0, 0.0)), (lambda *u: np.zeros(np.broadcast(*u).shape))


def debye(t): return si.quad(lambda x: x / math.expm1(x) if x else 1.0, 0, t)[0] / t
TAU = {"Clayton": lambda t: t / (t + 2.0), "Gumbel": lambda t: 1 - 1.0 / t, "Frank": lambda t: 1 - 4.0 / t * (1 - debye(t)), "Pi": lambda t: 0.0, "M": lambda t: 1.0, "W": lambda t: -1.0}
REF = {"Clayton": clayton, "Gumbel": gumbel, "Frank": frank, "Pi": lambda t: pi(), "M": lambda t: upper(), "W": lambda t: lower()}

# class name, reference family, parameter
FAM = [("PiCopula", "Pi", None), ("MCopula", "M", None), ("WCopula", "W", None)]
FAM += [("FrankCopula", "Frank", t) for t in (-8.0, -1.0, 0.5, 3.0, 12.0)] + [("FrankCopula2d", "Frank", t) for t in (-8.0, -1.0, 0.5, 3.0, 12.0)]
FAM += [("ClaytonCopula", "Clayton", t) for t in (-0.5, 0.2, 1.0, 2.0, 6.0)] + [("Solved", "Clayton", t) for t in (2.0,)]
FAM += [("GumbelCopula", "Gumbel", t) for t in (1.0, 1.5, 2.0, 5.0)] + [("GumbelCopula2d", "Gumbel", t) for t in (1.0, 1.5, 2.0, 5.0)]
MORE = [("FrankCopula", "Frank", t) for t in (-16.0, 1e-2, 16.0)] + [("ClaytonCopula", "Clayton", t) for t in (-0.7, 0.05, 9.0)] + [("GumbelCopula", "Gumbel", t) for t in (1.1, 3.0, 12.0)]

MARG = {
    "U": (lambda P, s: P.UniformDistr(0, 1, sym=s), st.uniform()), "U12": (lambda P, s: P.UniformDistr(1, 2, sym=s), st.uniform(1, 1)), "B": (lambda P, s: P.BetaDistr(2, 3, sym=s), st.beta(2, 3)),
    "E": (lambda P, s: P.ExponentialDistr(2, sym=s), st.expon(scale=0.5)), "N": (lambda P, s: P.NormalDistr(1, 2, sym=s), st.norm(1, 2)), "S": (lambda P, s: (P.UniformDistr(0, 1) + P.UniformDistr(0, 1)), st.triang(0.5, 0, 2)),
}
PAIRS = [("U", "U"), ("U12", "B"), ("E", "N"), ("S", "U12"), ("B", "E")]
TRIPLES = [("U", "U", "U"), ("U12", "B", "S")]
G2 = np.array([0, 0.03, 0.2, 0.35, 0.5, 0.62, 0.8, 0.97, 1.0])
G3 = np.array([0, 0.1, 0.45, 0.7, 1.0])


def label(f): return f[0] + ("" if f[2] is None else "(%g)" % f[2])
def threed(f): return f[0] in ("PiCopula", "MCopula") or (f[0] in ("FrankCopula", "ClaytonCopula") and 0 < f[2] < 13 and not (f[1] == "Clayton" and f[2] > 8)) or f[0] == "GumbelCopula" and f[2] < 10
def dens(f): return f[1] not in ("M", "W")


def cases(tier):
    q = tier == "quick"
    out = []
    for f in FAM + ([] if q else MORE):
        out.append({"id": "rectangles " + label(f), "kind": "rect", "f": f, "d": 2})
        if threed(f): out.append({"id": "rectangles in three dimensions " + label(f), "kind": "rect", "f": f, "d": 3})
        for m in PAIRS: out.append({"id": "marginals %s of %s" % (m, label(f)), "kind": "marg", "f": f, "m": m})
        if threed(f):
            for m in TRIPLES: out.append({"id": "marginals %s of %s" % (m, label(f)), "kind": "marg", "f": f, "m": m})
        out.append({"id": "dependence " + label(f), "kind": "dep", "f": f, "m": ("U12", "B")})
        if threed(f): out.append({"id": "dependence in three dimensions " + label(f), "kind": "dep", "f": f, "m": ("U12", "B", "S")})
        if dens(f):
            out.append({"id": "conditioning " + label(f), "kind": "cond", "f": f, "m": ("U12", "B")})
            if f[0] in ("FrankCopula", "ClaytonCopula", "GumbelCopula"):
                out.append({"id": "conditioning with infinite support " + label(f), "kind": "cond", "f": f, "m": ("E", "N")})
                if threed(f): out.append({"id": "conditioning in three dimensions " + label(f), "kind": "cond", "f": f, "m": ("U12", "B", "S")})
                out.append({"id": "draws " + label(f), "kind": "draw", "f": f, "m": ("U12", "B")})
        out.append({"id": "histories " + label(f), "kind": "hist", "f": f, "n": 2 if q else 3})
    return out


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        {"rect": rect, "marg": marg, "dep": dep, "cond": cond, "draw": draw, "hist": hist}[case["kind"]](case, R)


SYM = "XYZ"
def build(f, m):
    import pacal
    import pacal.depvars.copulas as K
    pacal.params.general.parallel = False
    vs = [MARG[k][0](pacal, SYM[i]) for i, k in enumerate(m)]
    return K_make(K, f, vs), vs


def K_make(K, f, vs):
    if f[0] == "Solved":          # generator given, its inverse found symbolically
        return K.ArchimedeanSymbolicCopula(fi=lambda t, theta: 1 / theta * (t ** (-theta) - 1), theta=f[2], marginals=vs)
    C = getattr(K, f[0])
    return C(marginals=vs) if f[2] is None else C(theta=f[2], marginals=vs)


def acc(f):
    """accuracy of closed-form evaluation in double precision"""
    if f[1] != "Frank": return 1e-9
    return 1e-6 if abs(f[2]) < 0.1 else 1e-9 + 2e-14 * math.exp(abs(f[2]))


# ------------------------------------------------------------------ the copula itself
def rect(case, R):
    f, d = case["f"], case["d"]
    C, c = REF[f[1]](f[2])
    cop, vs = build(f, ("U",) * d)
    g = G2 if d == 2 else G3
    mesh = np.meshgrid(*[g] * d, indexing="ij")
    keep = [m.copy() for m in mesh]
    V = cop.ccdf(*[m.ravel() for m in mesh]).reshape(mesh[0].shape)
    what = label(f)
    R.same("shape", np.shape(cop.ccdf(*mesh)), mesh[0].shape, what)
    R.close("shape", cop.ccdf(*mesh), V, 1e-14, what + ": array of arrays")
    R.true("arguments", all(np.array_equal(a, b) for a, b in zip(mesh, keep)), what + " changes its arguments")
    want = np.where(np.min(mesh, axis=0) == 0, 0.0, C(*[np.maximum(m, 1e-300) for m in mesh]))
    R.close("distribution function", V, want, acc(f), what)
    M, W = np.min(mesh, axis=0), np.maximum(sum(mesh) - d + 1, 0)
    R.true("Frechet bounds", np.all(V <= M + 1e-12 + acc(f) * 0.1) and np.all(V >= W - 1e-12 - acc(f) * 0.1), "%s leaves the Frechet bounds at %s" % (what, [float(m[np.unravel_index(np.argmax(np.maximum(V - M, W - V)), V.shape)]) for m in mesh]))
    R.close("grounded", V[M == 0], 0 * V[M == 0], 1e-15, what + " with a zero argument")
    for i in range(d):
        idx = [len(g) - 1] * d
        idx[i] = slice(None)
        R.close("margins", V[tuple(idx)], g, acc(f) * 0.1, "%s, margin %d" % (what, i))
    for perm in itertools.permutations(range(d)):
        R.close("symmetry", np.transpose(V, perm), V, acc(f), what)
    # every rectangle
    n = len(g)
    sides = [(i, j) for i in range(n) for j in range(i + 1, n)]
    worst = 1.0
    for S in itertools.product(sides, repeat=d):
        vol = sum((-1) ** (d - sum(b)) * V[tuple(S[k][b[k]] for k in range(d))] for b in itertools.product((0, 1), repeat=d))
        R.states += 1
        if vol < worst: worst, where = vol, S
    R.transitions += len(sides) ** d
    R.true("increasing", worst >= -1e-12 - acc(f) * 0.1, "%s gives the rectangle %s the measure %r" % (what, [(float(g[a]), float(g[b])) for a, b in where], float(worst)))
    R.seen((what, d, round(float(V[(n // 2,) * d]), 9)))
    # scalars and integers
    for u in itertools.product((0.2, 0.45, 0.7, 1.0), repeat=d):
        R.close("scalars", float(cop.ccdf(*u)), float(cop.ccdf(*[np.array([x, 0.5]) for x in u])[0]), 1e-14, "%s at %s" % (what, u))
        if 1.0 not in u and dens(f): R.close("scalars", float(cop.cpdf(*u)), float(cop.cpdf(*[np.array([x, 0.5]) for x in u])[0]), 1e-12 * max(1, float(c(*u))), "density of %s at %s" % (what, u))
    ii = np.meshgrid(*[np.array([0, 1])] * d, indexing="ij")
    R.close("integers", cop.ccdf(*ii), np.prod(ii, axis=0) * 1.0, acc(f) * 0.1, what + " at the corners given as integers")
    # density
    if not dens(f): return
    h = np.array([0.02, 0.1, 0.31, 0.5, 0.77, 0.93, 0.99]) if d == 2 else np.array([0.05, 0.3, 0.6, 0.9])
    mesh = np.meshgrid(*[h] * d, indexing="ij")
    want = c(*mesh)
    R.close("density", cop.cpdf(*mesh), want, acc(f) * 10 * np.maximum(1, want), what + " density")
    R.true("density", np.all(cop.cpdf(*mesh) >= 0), what + ": negative density")
    x, w = np.polynomial.legendre.leggauss(24 if d == 2 else 12)
    gg = g[1:-1]
    for S in itertools.product(range(len(gg) - 1), repeat=d):
        lo, hi = [gg[i] for i in S], [gg[i + 1] for i in S]
        pts = np.meshgrid(*[a + (b - a) * (x + 1) / 2 for a, b in zip(lo, hi)], indexing="ij")
        ws = 1.0
        for k in range(d): ws = np.multiply.outer(ws, w * (hi[k] - lo[k]) / 2)
        got = float(np.sum(ws * cop.cpdf(*pts)))
        vol = sum((-1) ** (d - sum(b)) * float(cop.ccdf(*[(lo, hi)[b[k]][k] for k in range(d)])) for b in itertools.product((0, 1), repeat=d))
        big = abs(f[2] or 0) > 5 or f[1] == "Clayton" and f[2] < 0
        if f[1] == "Clayton" and f[2] < 0: continue          # density jumps inside rectangles
        R.close("density against volume", got, vol, 2e-3 if big else 1e-5 if d == 3 or S[0] == 0 else 1e-6, "%s over the rectangle from %s to %s" % (what, [float(t) for t in lo], [float(t) for t in hi]))
        R.states += 1


# ------------------------------------------------------------------ with marginals
def points(k):
    d = MARG[k][1]
    a, b = d.support()
    return sorted(set([float(d.ppf(p)) for p in (0.01, 0.2, 0.5, 0.77, 0.96)] + ([a - 1.0] if np.isfinite(a) else []) + ([b + 1.0] if np.isfinite(b) else [b if False else float(d.ppf(0.9999))])))


def refs(f, m):
    C, c = REF[f[1]](f[2])
    D = [MARG[k][1] for k in m]
    def cdf(*x):
        u = [d.cdf(t) for d, t in zip(D, x)]
        return np.where(np.min(np.broadcast_arrays(*u), axis=0) == 0, 0.0, C(*[np.maximum(t, 1e-300) for t in u]))
    def pdf(*x):
        x = np.broadcast_arrays(*x)
        p = np.prod([d.pdf(t) for d, t in zip(D, x)], axis=0)
        u = [np.clip(d.cdf(t), 1e-300, 1 - 1e-16) for d, t in zip(D, x)]
        return np.where(p > 0, (c(*u) if len(x) > 1 else np.ones(p.shape)) * p, 0.0)
    return cdf, pdf


def marg(case, R):
    f, m = case["f"], case["m"]
    d = len(m)
    cop, vs = build(f, m)
    cdf, pdf = refs(f, m)
    what = "%s with marginals %s" % (label(f), m)
    P = [np.array(points(k)) for k in m]
    mesh = np.meshgrid(*P, indexing="ij")
    tol = max(acc(f), 1e-7) * (30 if "N" in m or "E" in m else 1)
    want, wd = cdf(*mesh), pdf(*mesh)
    R.close("joint distribution function", cop.cdf(*mesh), want, tol, what)
    R.close("joint density", cop.pdf(*mesh), wd, 10 * tol * (1 + wd), what)
    R.close("joint density", cop(*mesh), wd, 10 * tol * (1 + wd), what + " called")
    for t, y in zip(zip(*[q.ravel() for q in mesh]), wd.ravel()):
        t = [float(s) for s in t]
        R.close("scalars", float(cop(*t)), y, 10 * tol * (1 + y), "%s called at %s" % (what, t))
        R.states += 1
        R.transitions += 2
    for t, y in list(zip(zip(*[q.ravel() for q in mesh]), want.ravel()))[::3]:
        R.close("scalars", float(cop.cdf(*[float(s) for s in t])), y, tol, "%s at %s" % (what, t))
    # far in the tails, where copulas have their poles
    far = [np.array([float(MARG[k][1].ppf(p)) for p in (1e-6, 3e-5, 0.4, 1 - 2e-5)]) for k in m]
    farm = np.meshgrid(*far, indexing="ij")
    wf = pdf(*farm)
    R.close("density in the tails", cop.pdf(*farm) / np.maximum(1e-3, wf), wf / np.maximum(1e-3, wf), 0.02, what)
    R.close("distribution function in the tails", cop.cdf(*farm), cdf(*farm), tol, what)
    # margins of the joint distribution function
    for i in range(d):
        x = [np.full(len(P[i]), float(MARG[k][1].ppf(1 - 1e-16)) if np.isfinite(MARG[k][1].support()[1]) else 60.0) for k in m]
        x[i] = P[i]
        R.close("margins", cop.cdf(*x), MARG[m[i]][1].cdf(P[i]), tol, "%s: margin %d" % (what, i))
    if d == 2:
        R.close("dual", cop.dualcdf(*mesh), MARG[m[0]][1].cdf(mesh[0]) + MARG[m[1]][1].cdf(mesh[1]) - want, 3 * tol, what + ": probability of one or the other")
    if d == 2 and dens(f):
        R.close("other marginals", cop.jpdf_(vs[0], vs[1], *[t[1:-1, 1:-1] for t in mesh]), wd[1:-1, 1:-1], 10 * tol * (1 + wd[1:-1, 1:-1]), what + ": jpdf_")
        R.close("other marginals", cop.jcdf_(vs[0], vs[1], *mesh), want, tol, what + ": jcdf_")
    # the law of each coordinate, by every order of eliminations
    inner = [p[(p > MARG[k][1].support()[0]) & (p < MARG[k][1].support()[1])] for p, k in zip(P, m)]
    for r in range(1, d + 1):
        for vars_ in itertools.permutations(range(d), r):
            rest = [i for i in range(d) if i not in vars_]
            for how in ("together by position", "together by variable", "one by one"):
                if how == "one by one":
                    g = cop
                    for i in vars_: g = g.eliminate(vs[i])
                elif how == "together by position": g = cop.eliminate(list(vars_))
                else: g = cop.eliminate([vs[i] for i in vars_])
                R.transitions += 1
                R.states += 1
                w2 = "%s, variables %s eliminated %s" % (what, vars_, how)
                if not rest:
                    R.close("eliminated", float(g()), 1.0, 1e-9, w2)
                    continue
                R.same("remaining variables", [v.getSymname() for v in g.Vars], [vs[i].getSymname() for i in rest], w2)
                if not dens(f) and len(rest) > 1:
                    pts = np.meshgrid(*[P[i] for i in rest], indexing="ij")
                    R.close("eliminated", g.cdf(*pts), refs(f, [m[i] for i in rest])[0](*pts), tol, w2)
                    continue
                pts = np.meshgrid(*[inner[i] for i in rest], indexing="ij")
                want2 = refs(f, [m[i] for i in rest])[1](*pts)
                R.close("eliminated", g(*pts), want2, 20 * tol * (1 + want2), w2)
    R.close("unchanged by elimination", cop.cdf(*mesh), want, tol, what)
    R.traces += 1
    R.seen((what, round(float(np.sum(want)), 8)))
    R.sample = "%s: F = %r at %s" % (what, float(want[(2,) * d]), [float(p[2]) for p in P])


def gauss_cov(f, m):
    """covariance by Hoeffding's formula"""
    C = REF[f[1]](f[2])[0]
    D = [MARG[k][1] for k in m]
    x, w = np.polynomial.legendre.leggauss(300)
    (a0, b0), (a1, b1) = D[0].support(), D[1].support()
    X, Y = a0 + (b0 - a0) * (x + 1) / 2, a1 + (b1 - a1) * (x + 1) / 2
    U, V = np.meshgrid(D[0].cdf(X), D[1].cdf(Y), indexing="ij")
    return float(np.sum(np.multiply.outer(w, w) * (C(U, V) - U * V)) * (b0 - a0) * (b1 - a1) / 4)


def dep(case, R):
    f, m = case["f"], case["m"]
    d = len(m)
    C, c = REF[f[1]](f[2])
    cop, vs = build(f, m)
    what = label(f)
    x, w = np.polynomial.legendre.leggauss(400)
    U, V = np.meshgrid((x + 1) / 2, (x + 1) / 2)
    rho = float(np.sum(np.multiply.outer(w, w) * C(U, V)) / 4) * 12 - 3
    tau = TAU[f[1]](f[2])
    beta = 4 * float(C(0.5, 0.5)) - 1
    if d == 2: R.close("Blomqvist's beta", float(cop.beta()), beta, 1e-9, what)
    if hasattr(cop, "tau_c") and f[2] != 1.0 or f[1] == "Clayton":
        if hasattr(cop, "tau_c"): R.close("Kendall's tau of the generator", float(cop.tau_c()), tau, 1e-6, what)
    hard = abs(f[2] or 0) > 5 or f[1] == "Clayton" and f[2] < 0
    for i, j in itertools.product(range(d), range(d)):
        for name, a, b in (("position", i, j), ("variable", vs[i], vs[j])):
            w2 = "%s of variables %d, %d by %s" % (what, i, j, name)
            R.close("Blomqvist's beta", float(cop.beta(a, b)), 1.0 if i == j else beta, 1e-9, w2)
            if name == "variable" and d > 2 and i > 0: continue
            R.close("Spearman's rho", float(cop.rho_s(a, b)) if i != j or name == "position" else 1.0, 1.0 if i == j else rho, 2e-4 if f[1] in "MW" else 1e-4, w2)
            t = 1.0 if i == j and name == "variable" else float(cop.ctau(a, b))
            R.close("Kendall's tau", t, 1.0 if i == j else tau, 2e-2 if hard else 1e-3 if f[1] != "Frank" else 1e-5, w2)
            R.states += 1
            R.transitions += 4
        if d == 2:
            R.close("Kendall's tau", float(cop.tau(i, j)), 1.0 if i == j else tau, 2e-2 if hard else 1e-3, "%s of variables %d, %d with marginals" % (what, i, j))
        s = [float(MARG[k][1].std()) for k in m]
        cv = s[i] ** 2 if i == j else gauss_cov(f, (m[i], m[j]))
        R.close("covariance", float(cop.cov(i, j)), cv, 2e-5, "%s covariance of %d, %d" % (what, i, j))
        R.close("correlation", float(cop.corrcoef(i, j)), cv / s[i] / s[j], 4e-4, "%s correlation of %d, %d" % (what, i, j))
    if d == 2:
        for name in ("cov", "corrcoef", "rho_s", "ctau", "tau"):
            A = getattr(cop, name)()
            B = np.array([[float(getattr(cop, name)(i, j)) for j in range(d)] for i in range(d)])
            R.close("matrix", A, B, 1e-12, "%s: matrix of %s" % (what, name))
    R.traces += 1
    R.seen((what, round(rho, 8), round(tau, 8)))
    R.sample = "%s: tau %r, rho %r" % (what, tau, rho)


def cond(case, R):
    f, m = case["f"], case["m"]
    d = len(m)
    cop, vs = build(f, m)
    cdf, pdf = refs(f, m)
    what = "%s with marginals %s" % (label(f), m)
    own = hasattr(cop, "conditionCDF")
    tol = 2e-6 if own else 1e-3 if f[1] == "Frank" else 3e-2
    if f[0] == "PiCopula": tol = 1e-7
    if f[0] == "GumbelCopula2d" and f[2] > 2 or f[0] == "FrankCopula2d" and abs(f[2]) > 5: tol = 8e-2
    Q = [[float(MARG[k][1].ppf(p)) for p in (0.1, 0.4, 0.85)] for k in m]
    for r in range(1, d):
        for vars_ in itertools.permutations(range(d), r):
            rest = [i for i in range(d) if i not in vars_]
            for vals in itertools.product(*[(Q[i] if r == 1 else Q[i][::2]) for i in vars_]):
                x0 = dict(zip(vars_, vals))
                den = float(refs(f, [m[i] for i in sorted(vars_)])[1](*[np.array(x0[i]) for i in sorted(vars_)]))
                pts = np.meshgrid(*[np.array(Q[i]) for i in rest], indexing="ij")
                full = [None] * d
                for i in vars_: full[i] = np.full(pts[0].shape, x0[i])
                for i, p in zip(rest, pts): full[i] = p
                want = pdf(*full) / den
                w2 = "%s given %s" % (what, ["%d: %g" % (i, x0[i]) for i in vars_])
                for how in ("position", "variable"):
                    key = list(vars_) if how == "position" else [vs[i] for i in vars_]
                    g = cop.condition(key, *vals)
                    R.same("remaining variables", [v.getSymname() for v in g.Vars], [vs[i].getSymname() for i in rest], w2)
                    R.close("conditional density", g(*pts), want, tol * (1 + np.max(want)), w2 + " by " + how)
                    t = [float(p.ravel()[1]) for p in pts]
                    R.close("conditional density, scalars", float(g(*t)), float(g(*[np.array([s, s]) for s in t])[0]), 1e-9, w2)
                    R.states += 1
                    R.transitions += 1
                    if not own: break
                if own:
                    # distribution function: integral of the conditional density over the lower orthant
                    ref = np.zeros(pts[0].shape)
                    xg, wg = np.polynomial.legendre.leggauss(60)
                    xg, wg = (xg + 1) / 2, wg / 2
                    C, c = REF[f[1]](f[2])
                    us = dict((i, float(MARG[m[i]][1].cdf(x0[i]))) for i in vars_)
                    dn = float(c(*[np.array(us[i]) for i in sorted(vars_)])) if r > 1 else 1.0
                    for k in np.ndindex(*pts[0].shape):
                        up = [float(MARG[m[i]][1].cdf(p[k])) for i, p in zip(rest, pts)]
                        # substitution u = up * s^3 tames the corner at zero
                        grids = np.meshgrid(*[u * xg ** 3 for u in up], indexing="ij")
                        ws = 1.0
                        for u in up: ws = np.multiply.outer(ws, wg * 3 * xg ** 2 * u)
                        a = [None] * d
                        for i in vars_: a[i] = np.full(grids[0].shape, us[i])
                        for i, p in zip(rest, grids): a[i] = p
                        ref[k] = float(np.sum(ws * c(*a))) / dn
                    if r == 1:
                        h = 1e-5
                        U = [MARG[k][1].cdf(t) for k, t in zip(m, full)]
                        hi, lo = list(U), list(U)
                        hi[vars_[0]], lo[vars_[0]] = U[vars_[0]] + h, U[vars_[0]] - h
                        ref = (C(*hi) - C(*lo)) / (2 * h)
                    tc = 1e-4 if abs(f[2]) > 5 or f[1] == "Clayton" else 1e-5
                    for how in ("position", "variable"):
                        key = list(vars_) if how == "position" else [vs[i] for i in vars_]
                        R.close("conditional distribution function", cop.conditionCDF(key, *vals)(*pts), ref, tc, w2)
                        R.close("conditional distribution function", cop.condfun(key)(*full), ref, tc, w2 + " as a function of all")
                        R.close("conditional copula", cop.ccond(key)(*[MARG[k][1].cdf(t) for k, t in zip(m, full)]), ref, tc, w2 + ": conditional copula")
                        R.transitions += 3
    if own:
        R.close("conditioned on everything", float(cop.condition(list(range(d)), *[q[1] for q in Q])()), 1.0, 0, what)
    # a value outside the range leaves nothing to condition on; the joint law is as before
    pts = np.meshgrid(*[np.array(q) for q in Q], indexing="ij")
    want = pdf(*pts)
    R.close("unchanged", cop(*pts), want, 1e-5 * (1 + want), what + " after conditioning")
    R.traces += 1
    R.seen((what, round(float(np.sum(want)), 8)))


def draw(case, R):
    """draws of the pair: the second coordinate solves the conditional distribution function for the source's value"""
    from mc import p12
    f, m = case["f"], case["m"]
    cop, vs = build(f, m)
    C, c = REF[f[1]](f[2])
    n = 12
    src = [np.array([0.1, 0.5, 0.9] * 4), np.repeat([0.05, 0.3, 0.6, 0.95], 3)]
    with p12.controlled() as S:
        S.reset(fixed=src)
        x, y = cop.rand2d_invcdf(n)
        calls = S.calls
    R.same("requests", calls, 2, label(f) + ": requests to the random source")
    u = MARG[m[0]][1].cdf(x)
    R.close("first coordinate", u, src[0], 1e-6, label(f) + ": first coordinate")
    h = 1e-5
    v = MARG[m[1]][1].cdf(y)
    got = (C(u + h, v) - C(u - h, v)) / (2 * h)
    R.close("second coordinate", got, src[1], 2e-3, label(f) + ": conditional probability of the second coordinate")
    R.states += n
    R.transitions += n
    R.traces += 1
    R.seen(label(f))


# ------------------------------------------------------------------ histories
ACTS = ["cdf", "pdf", "eliminate first", "eliminate second by variable", "condition", "correlation", "exchange marginals", "argument reuse", "rho"]
def act(cop, a, vs, ms):
    """one action; ms: marginals now attached (names), returns them"""
    x = [np.array([float(MARG[k][1].ppf(p)) for p in (0.3, 0.8)]) for k in ms]
    if a == "cdf": cop.cdf(*x)
    elif a == "pdf": cop.pdf(*x)
    elif a == "eliminate first": cop.eliminate([0]).pdf(x[1])
    elif a == "eliminate second by variable": cop.eliminate(cop.marginals[1]).pdf(x[0])
    elif a == "condition": cop.condition([0], float(x[0][0]))(x[1])
    elif a == "correlation": cop.corrcoef(0, 1)
    elif a == "rho": cop.rho_s(0, 1)
    elif a == "exchange marginals":
        cop.setMarginals(cop.marginals[1], cop.marginals[0])
        return (ms[1], ms[0])
    elif a == "argument reuse":
        x[0][:] = -3.0
        x[1] *= 2
    return ms


def hist(case, R):
    f, n = case["f"], case["n"]
    acts = [a for a in ACTS if not (a == "condition" and (not dens(f) or not f[0] in ("FrankCopula", "ClaytonCopula", "GumbelCopula"))) and not (n > 2 and a in ("rho", "correlation"))]
    m = ("U12", "B")
    memo = {}
    for word in itertools.product(acts, repeat=n):
        cop, vs = build_fast(f, m, memo)
        ms = m
        for a in word:
            ms = act(cop, a, vs, ms)
            R.transitions += 1
        cdf, pdf = refs(f, ms)
        pts = np.meshgrid(*[np.array([float(MARG[k][1].ppf(p)) for p in (0.2, 0.6, 0.9)]) for k in ms], indexing="ij")
        R.close("after a history", cop.cdf(*pts), cdf(*pts), 1e-6, "%s after %s" % (label(f), word))
        want = pdf(*pts)
        R.close("after a history", cop(*pts), want, 1e-5 * (1 + want), "density of %s after %s" % (label(f), word))
        R.states += 1
        R.traces += 1
    R.seen(label(f))


def build_fast(f, m, memo):
    """symbolic construction is slow: a copula nobody has used yet is copied"""
    import copy
    if "c" not in memo: memo["c"] = build(f, m)
    cop, vs = memo["c"]
    return copy.copy(cop), vs
