"""P17: joint distributions marginalise and condition consistently."""
import contextlib
import io
import itertools
import math
import numpy as np
import scipy.stats as st
from mc import p15

LEVEL = "model_checking"
RULE = ("breadth-first enumeration of sequences of elimination and conditioning steps (each variable by position or by object, alone or in groups, several values) from every joint distribution of an alphabet down to "
        "nothing; every reached distribution is compared with the closed-form marginal or conditional density, so all routes to the same set of steps agree; the starting distribution is evaluated again after every path; "
        "conditional distributions against joint over marginal for every set of conditioning variables; all pairs of order statistics up to a sample size; sparse grids on every monomial below a degree, "
        "every node and every index set")
ASSUMPTIONS = ["scipy.stats is correct", "laws of single variables are judged by P05 and P14", "joint densities that are integrated numerically are smooth on bounded boxes"]
CPU_LIMIT = 300

# ------------------------------------------------------------------ joint laws
NORMALS = {
    "n1": ([1.0], [[4.0]]), "n2": ([0.0, 0.0], [[1.0, 0.6], [0.6, 1.0]]), "n2b": ([1.0, -2.0], [[4.0, -1.5], [-1.5, 1.0]]), "n3": ([0.0, 1.0, -1.0], [[1.0, 0.3, 0.5], [0.3, 4.0, -0.8], [0.5, -0.8, 2.25]]),
    "n3i": ([0.0, 1.0, 2.0], [[1.0, 0.0, 0.0], [0.0, 0.25, 0.0], [0.0, 0.0, 9.0]]), "n4": ([0.0, 1.0, -1.0, 2.0], [[2.0, 0.3, 0.5, -0.2], [0.3, 1.0, -0.1, 0.4], [0.5, -0.1, 1.5, 0.3], [-0.2, 0.4, 0.3, 0.7]]),
}
LAWS = {"U": (lambda P, s: P.UniformDistr(0, 2, sym=s), st.uniform(0, 2)), "B": (lambda P, s: P.BetaDistr(2, 3, sym=s), st.beta(2, 3)), "E": (lambda P, s: P.ExponentialDistr(2, sym=s), st.expon(scale=0.5)),
        "N": (lambda P, s: P.NormalDistr(1, 2, sym=s), st.norm(1, 2)), "T": (lambda P, s: P.SemicircleDistr(1, sym=s), st.semicircular())}
PRODUCTS = [("U", "B"), ("E", "N"), ("U", "B", "E"), ("N", "T", "U"), ("B", "B", "N", "U")]

# polynomial densities: list of (coefficient, powers) on a box, not normalised
POLYS = {
    "x+y": ([(0, 1), (0, 1)], [(1.0, (1, 0)), (1.0, (0, 1))]), "1+xy": ([(-1, 1), (0, 2)], [(1.0, (0, 0)), (0.4, (1, 1)), (0.2, (0, 2))]), "steep": ([(0, 3), (1, 2)], [(1.0, (4, 0)), (3.0, (1, 3)), (0.5, (0, 0))]),
    "three": ([(0, 1), (-1, 1), (1, 3)], [(1.0, (0, 0, 0)), (0.5, (1, 1, 0)), (0.3, (0, 1, 1)), (1.0, (2, 0, 1))]), "three, product": ([(0, 1), (0, 2), (0, 1)], [(1.0, (1, 2, 1)), (0.0, (0, 0, 0))]),
}
# products of joint factors that share variables: factors over variables of a common box
CHAINS = {
    "xy,yz": ([(0, 1), (0, 1), (0, 2)], [((0, 1), [(1.0, (0, 0)), (1.0, (1, 1))]), ((1, 2), [(1.0, (1, 0)), (0.5, (0, 1))])]),
    "xy,yz,zx": ([(0, 1), (-1, 1), (0, 1)], [((0, 1), [(1.0, (0, 0)), (0.5, (1, 1))]), ((1, 2), [(1.0, (0, 0)), (0.3, (1, 1))]), ((2, 0), [(1.0, (1, 0)), (1.0, (0, 1))])]),
    "xy,z": ([(0, 1), (0, 1), (1, 2)], [((0, 1), [(1.0, (1, 0)), (1.0, (0, 2))]), ((2,), [(1.0, (1,))])]),
    "yx,x": ([(0, 2), (0, 1)], [((1, 0), [(1.0, (1, 1)), (1.0, (0, 0))]), ((0,), [(1.0, (1,)), (0.5, (0,))])]),
}
NAMES = "XYZT"


def cases(tier):
    q = tier == "quick"
    out = []
    for n, (mu, S) in NORMALS.items():
        if n == "n4" and q: out.append({"id": "normal n4, first two steps", "kind": "normal", "n": n, "depth": 2})
        else: out.append({"id": "normal " + n, "kind": "normal", "n": n, "depth": 4})
        out.append({"id": "conditional of normal " + n, "kind": "ratio", "n": n})
    for p in PRODUCTS: out.append({"id": "product " + ",".join(p), "kind": "prod", "p": p, "depth": 3 if q else 4})
    for p in POLYS:
        out.append({"id": "polynomial " + p, "kind": "poly", "p": p})
        if len(POLYS[p][0]) == 2: out.append({"id": "regression " + p, "kind": "regr", "p": p})
    for p in CHAINS: out.append({"id": "shared factors " + p, "kind": "chain", "p": p, "depth": 2 if q and len(CHAINS[p][0]) > 2 else 3})
    for l in ("U", "B", "E"):
        for n in range(2, 5 if q else 7): out.append({"id": "order statistics of %s, sample of %d" % (l, n), "kind": "orders", "l": l, "n": n})
    out.append({"id": "arguments", "kind": "args"})
    for d in (1, 2, 3): out.append({"id": "interpolated in %d dimensions" % d, "kind": "interp", "d": d})
    for d in (1, 2, 3):
        out.append({"id": "sparse grid indices %d" % d, "kind": "sgindex", "d": d})
        for k in range(4 if q else 8): out.append({"id": "sparse grid %d-d box %d" % (d, k), "kind": "sparse", "d": d, "k": k})
    out.append({"id": "messages", "kind": "messages"})
    return out


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    import pacal
    pacal.params.general.parallel = False
    pacal.params.interpolation_nd.debug_info = False
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        if case["kind"] in ("sgindex", "sparse"): getattr(p15, case["kind"])(case, R)
        else: {"normal": normal, "prod": prod, "poly": poly, "chain": chain, "orders": orders, "args": args, "interp": interp, "ratio": ratio, "regr": regr, "messages": messages}[case["kind"]](case, R)


# ------------------------------------------------------------------ exploring steps
def explore(R, make, ref, d, values, depth, tol, what, grids, groups=True):
    """make() -> joint distribution over d variables; ref(fixed, gone) -> density of the remaining variables given fixed,
    values[i]: values to condition variable i on; grids(remaining) -> evaluation arrays"""
    root = make()
    vs = list(root.Vars)
    pts = grids(list(range(d)))
    first = np.array(root(*pts), float)
    want = ref({}, ())(*pts)
    R.close("joint density", first, want, tol * (1 + np.max(want)), what)
    seen = set()
    def moves(left):
        for i in left:
            yield ("eliminate", (i,), None)
            for v in values[i]: yield ("condition", (i,), (v,))
        if groups:
            for a, b in itertools.permutations(left, 2):
                yield ("eliminate", (a, b), None)
                yield ("condition", (a, b), (values[a][0], values[b][-1]))
            if len(left) == 3: yield ("eliminate", tuple(reversed(left)), None)
    layer = [((), (), {}, root)]
    for level in range(depth):
        nxt = []
        for trace, gone, fixed, g in layer:
            left = [i for i in range(d) if i not in gone and i not in fixed]
            if not left: continue
            names = [str(v.getSymname()) for v in g.Vars]
            for kind, ids, vals in moves(left):
                for how in ("variable", "position"):
                    key = [vs[i] for i in ids] if how == "variable" else [names.index(str(vs[i].getSymname())) for i in ids]
                    if len(ids) == 1 and kind == "eliminate" and how == "variable": key = key[0]
                    w = "%s: %s" % (what, "; ".join(trace + ("%s %s by %s%s" % (kind, [str(vs[i].getSymname()) for i in ids], how, "" if vals is None else " at %s" % (vals,)),)))
                    h = g.eliminate(key) if kind == "eliminate" else g.condition(key, *vals)
                    R.transitions += 1
                    g2, f2 = (gone + ids, dict(fixed)) if kind == "eliminate" else (gone, dict(fixed, **{}))
                    if kind == "condition":
                        f2 = dict(fixed)
                        f2.update(zip(ids, vals))
                    rest = [i for i in left if i not in ids]
                    R.same("remaining variables", sorted(str(v.getSymname()) for v in h.Vars), sorted(str(vs[i].getSymname()) for i in rest), w)
                    if rest:
                        order = [[str(vs[i].getSymname()) for i in rest].index(str(v.getSymname())) for v in h.Vars]
                        pts = grids(rest)
                        want = ref(f2, g2)(*pts)
                        R.close("density", h(*[pts[k] for k in order]), want, tol * (1 + np.max(want)), w)
                        t = [float(p.ravel()[len(p.ravel()) // 2]) for p in pts]
                        R.close("density, scalars", float(h(*[t[k] for k in order])), float(want.ravel()[want.size // 2]), tol * (1 + np.max(want)), w + " at numbers")
                    else:
                        R.close("total", float(h()), 1.0, max(tol, 1e-9) if kind == "eliminate" else 1e-9, w)
                    R.states += 1
                    if how == "variable":
                        nxt.append((trace + ("%s %s%s" % (kind, [str(vs[i].getSymname()) for i in ids], "" if vals is None else " at %s" % (vals,)),), g2, f2, h))
        layer = nxt
        R.seen((what, level, len(layer)))
    pts = grids(list(range(d)))
    R.close("unchanged", root(*pts), first, 0, what + ": the joint distribution after all steps")
    R.traces += len(layer)


def mesh_of(axes):
    def f(rest):
        return np.meshgrid(*[axes[i] for i in rest], indexing="ij")
    return f


# ------------------------------------------------------------------ normal
def normal_ref(mu, S):
    mu, S = np.array(mu), np.array(S)
    def ref(fixed, gone):
        rest = [i for i in range(len(mu)) if i not in fixed and i not in gone]
        fx = sorted(fixed)
        m, C = mu[rest], S[np.ix_(rest, rest)]
        if fx:
            K = S[np.ix_(rest, fx)] @ np.linalg.inv(S[np.ix_(fx, fx)])
            m = m + K @ (np.array([fixed[i] for i in fx]) - mu[fx])
            C = C - K @ S[np.ix_(fx, rest)]
        D = st.multivariate_normal(m, C)
        return lambda *x: np.asarray(D.pdf(np.stack(np.broadcast_arrays(*x), axis=-1))).reshape(np.shape(x[0]))
    return ref


def normal(case, R):
    from pacal.depvars.nddistr import NDNormalDistr
    mu, S = NORMALS[case["n"]]
    sd = np.sqrt(np.diag(S))
    axes = [m + s * np.array([-1.1, 0.0, 0.4, 1.7]) for m, s in zip(mu, sd)]
    values = [[m - 0.5 * s, m + 1.2 * s] for m, s in zip(mu, sd)]
    explore(R, lambda: NDNormalDistr(mu, S), normal_ref(mu, S), len(mu), values, case["depth"], 1e-10, "normal " + case["n"], mesh_of(axes))
    D = NDNormalDistr(mu, S)
    R.close("covariance", D.cov(), S, 1e-12, "covariance matrix")
    for i, j in itertools.product(range(len(mu)), repeat=2): R.close("covariance", float(D.cov(i, j)), S[i][j], 1e-12, "covariance of %d, %d" % (i, j))
    for i, v in enumerate(D.Vars):
        R.close("marginal variables", [float(v.mean()), float(v.std())], [mu[i], sd[i]], 1e-6, "law of variable %d" % i)
        R.close("marginal variables", D.eliminate([j for j in range(len(mu)) if j != i])(axes[i]), v.pdf(axes[i]), 1e-9, "marginal against the law of the variable %d" % i)
    # far from the mean, and integer arguments
    far = [m + 4.5 * s for m, s in zip(mu, sd)]
    ref = normal_ref(mu, S)({}, ())
    R.close("far from the mean", float(D(*far)), float(ref(*[np.array(t) for t in far])), 1e-12, "%s standard deviations away" % 4.5)
    ii = np.meshgrid(*[np.array([-1, 0, 1, 2])] * len(mu), indexing="ij")
    keep = [x.copy() for x in ii]
    R.close("integers", D(*ii), ref(*[x.astype(float) for x in ii]), 1e-12, "integer arguments")
    R.true("arguments", all(np.array_equal(a, b) for a, b in zip(ii, keep)), "arguments changed")
    R.sample = "normal %s: density at the mean %r" % (case["n"], float(D(*mu)))


def ratio(case, R):
    """conditional distribution as a function of all variables"""
    from pacal.depvars.nddistr import NDNormalDistr, ConditionalDistr
    mu, S = NORMALS[case["n"]]
    d = len(mu)
    ref = normal_ref(mu, S)
    sd = np.sqrt(np.diag(S))
    pts = np.meshgrid(*[m + s * np.array([-1.1, 0.4, 1.7]) for m, s in zip(mu, sd)], indexing="ij")
    for r in range(1, d):
        for cv in itertools.permutations(range(d), r):
            for how in ("position", "variable"):
                D = NDNormalDistr(mu, S)
                key = list(cv) if how == "position" else [D.Vars[i] for i in cv]
                c = ConditionalDistr(D, key)
                rest = [i for i in range(d) if i not in cv]
                want = ref({}, ())(*pts) / ref({}, tuple(rest))(*[pts[i] for i in sorted(cv)])
                w = "normal %s given variables %s by %s" % (case["n"], cv, how)
                R.close("conditional", c(*pts), want, 1e-8 * np.max(want), w)
                R.close("conditional times marginal", c(*pts) * D.eliminate(rest)(*[pts[i] for i in sorted(cv)]), D(*pts), 1e-10, w)
                R.states += 1
                R.transitions += 1
                # eliminating every unconditioned variable but one
                for keep in rest:
                    gone = [i for i in rest if i != keep]
                    if gone:
                        h = c.eliminate([D.Vars[i] for i in gone])
                        left = sorted(list(cv) + [keep])
                        sub = np.meshgrid(*[mu[i] + sd[i] * np.array([-1.1, 0.4]) for i in left], indexing="ij")
                        want = ref({}, tuple(gone))(*sub) / ref({}, tuple(rest))(*[sub[left.index(i)] for i in sorted(cv)])
                        R.close("conditional eliminated", h(*sub), want, 1e-8 * np.max(want), "%s, %s eliminated" % (w, gone))
                        R.transitions += 1
                R.close("conditional eliminated", float(c.eliminate([D.Vars[i] for i in rest])()), 1.0, 0, w + ": all of the rest eliminated")
                refused(R, lambda: c.eliminate([D.Vars[cv[0]]]) if len(rest) + 1 < d else None, len(rest) + 1 < d, w + ": a conditioning variable eliminated")
                # giving values to some or all of the conditioning variables
                for s in range(1, r + 1):
                    for sub in itertools.permutations(cv, s):
                        x0 = dict((i, mu[i] + 0.3 * sd[i]) for i in sub)
                        h = c.condition([D.Vars[i] for i in sub], *[x0[i] for i in sub])
                        left = [i for i in range(d) if i not in sub]
                        pp = np.meshgrid(*[mu[i] + sd[i] * np.array([-1.1, 0.4]) for i in left], indexing="ij")
                        still = [i for i in cv if i not in sub]
                        full = dict(zip(left, pp))
                        a = [full.get(i, np.full(pp[0].shape, x0.get(i, 0.0))) for i in range(d)]
                        want = ref({}, ())(*a) / ref({}, tuple(rest))(*[a[i] for i in sorted(cv)])
                        R.close("conditional given values", h(*pp), want, 1e-8 * np.max(want), "%s, values given to %s" % (w, sub))
                        R.transitions += 1
    R.traces += 1
    R.seen(case["n"])


# ------------------------------------------------------------------ independent variables
def prod(case, R):
    import pacal
    from pacal.depvars.nddistr import NDProductDistr
    p = case["p"]
    D = [LAWS[k][1] for k in p]
    axes = [np.array([float(d.ppf(q)) for q in (0.1, 0.45, 0.9)]) for d in D]
    values = [[float(d.ppf(0.3)), float(d.ppf(0.8))] for d in D]
    def ref(fixed, gone):
        rest = [i for i in range(len(p)) if i not in fixed and i not in gone]
        return lambda *x: np.prod([D[i].pdf(t) for i, t in zip(rest, x)], axis=0)
    def make():
        vs = sorted(zip(NAMES[:len(p)], p), key=lambda t: t[0])
        return NDProductDistr([LAWS[k][0](pacal, s) for s, k in reversed(vs)])
    # variables come sorted by name
    order = sorted(range(len(p)), key=lambda i: NAMES[i])
    D = [D[i] for i in order]
    axes, values = [axes[i] for i in order], [values[i] for i in order]
    R.same("variables", [str(v.getSymname()) for v in make().Vars], sorted(NAMES[:len(p)]), "variables of a product")
    explore(R, make, ref, len(p), values, case["depth"] if len(p) < 4 else 2, 1e-9, "product " + ",".join(p), mesh_of(axes))
    R.sample = "independent %s" % (p,)


# ------------------------------------------------------------------ polynomials
def P_eval(terms, x):
    return sum(c * np.prod([t ** k for t, k in zip(x, ks)], axis=0) for c, ks in terms) + 0.0 * x[0]


def P_reduce(box, terms, fixed, gone):
    """remaining polynomial after fixing and integrating"""
    out = []
    rest = [i for i in range(len(box)) if i not in fixed and i not in gone]
    for c, ks in terms:
        for i, v in fixed.items(): c = c * v ** ks[i]
        for i in gone:
            a, b = box[i]
            c = c * (b ** (ks[i] + 1) - a ** (ks[i] + 1)) / (ks[i] + 1.0)
        out.append((c, tuple(ks[i] for i in rest)))
    return rest, out


def P_total(box, terms):
    return P_reduce(box, terms, {}, tuple(range(len(box))))[1]


def poly_ref(box, terms):
    def ref(fixed, gone):
        rest, t = P_reduce(box, terms, fixed, gone)
        z = sum(c for c, _ in P_total([box[i] for i in rest], t))
        return lambda *x: P_eval(t, x) / z
    return ref


def make_poly(box, terms, names=None, norm=True, vs=None):
    import pacal
    from pacal.depvars.nddistr import NDDistr
    z = sum(c for c, _ in P_total(box, terms)) if norm else 1.0
    class Poly(NDDistr):
        def pdf(self, *X): return P_eval(terms, [np.asarray(x, float) for x in X]) / z
    if vs is None: vs = [pacal.UniformDistr(a, b, sym=s) for (a, b), s in zip(box, names or NAMES)]
    return Poly(len(box), vs)


def box_axes(box): return [a + (b - a) * np.array([0.05, 0.37, 0.8]) for a, b in box]
def box_values(box): return [[a + (b - a) * 0.25, a + (b - a) * 0.9] for a, b in box]


def poly(case, R):
    box, terms = POLYS[case["p"]]
    explore(R, lambda: make_poly(box, terms), poly_ref(box, terms), len(box), box_values(box), len(box), 1e-9, "polynomial " + case["p"], mesh_of(box_axes(box)))
    from pacal.depvars.nddistr import ConditionalDistr
    D = make_poly(box, terms)
    ref = poly_ref(box, terms)
    pts = mesh_of(box_axes(box))(list(range(len(box))))
    for r in range(1, len(box)):
        for cv in itertools.permutations(range(len(box)), r):
            rest = [i for i in range(len(box)) if i not in cv]
            want = ref({}, ())(*pts) / ref({}, tuple(rest))(*[pts[i] for i in sorted(cv)])
            R.close("conditional", ConditionalDistr(D, list(cv))(*pts), want, 1e-8 * np.max(want), "polynomial %s given %s" % (case["p"], cv))
            R.states += 1
    # covariances
    def E(h): return sum(c for c, _ in P_total(box, [(c, tuple(k + e for k, e in zip(ks, h))) for c, ks in terms])) / sum(c for c, _ in P_total(box, terms))
    unit = lambda *i: tuple(sum(1 for t in i if t == k) for k in range(len(box)))
    C = np.array([[E(unit(i, j)) - E(unit(i)) * E(unit(j)) for j in range(len(box))] for i in range(len(box))])
    R.close("covariance", D.cov(), C, 1e-8, "polynomial %s: covariance matrix" % case["p"])
    for i, j in itertools.product(range(len(box)), repeat=2): R.close("covariance", float(D.cov(D.Vars[i], D.Vars[j])), C[i, j], 1e-8, "polynomial %s: covariance of %d, %d" % (case["p"], i, j))
    R.sample = "polynomial %s: covariance %s" % (case["p"], np.round(C, 6).tolist())


def chain(case, R):
    import pacal
    from pacal.depvars.nddistr import NDProductDistr
    box, factors = CHAINS[case["p"]]
    d = len(box)
    terms = [(1.0, (0,) * d)]
    for ids, ts in factors:
        new = []
        for c, ks in terms:
            for c2, k2 in ts:
                k = list(ks)
                for i, e in zip(ids, k2): k[i] += e
                new.append((c * c2, tuple(k)))
        terms = new
    z = sum(c for c, _ in P_total(box, terms))
    def make():
        vs = [pacal.UniformDistr(a, b, sym=s) for (a, b), s in zip(box, NAMES)]
        names = sorted(range(d), key=lambda i: NAMES[i])
        fs = [make_poly([box[i] for i in ids], [(c / (z if n == 0 else 1.0), k) for c, k in ts], norm=False, vs=[vs[i] for i in ids]) for n, (ids, ts) in enumerate(factors)]
        return NDProductDistr(fs)
    order = sorted(range(d), key=lambda i: NAMES[i])
    box2, terms2 = [box[i] for i in order], [(c, tuple(k[i] for i in order)) for c, k in terms]
    explore(R, make, poly_ref(box2, terms2), d, box_values(box2), case["depth"], 1e-8, "factors " + case["p"], mesh_of(box_axes(box2)))
    R.sample = "factors %s" % case["p"]


def regr(case, R):
    """mean and quantiles of one variable given the other"""
    box, terms = POLYS[case["p"]]
    D = make_poly(box, terms)
    ref = poly_ref(box, terms)
    g, w = np.polynomial.legendre.leggauss(20)
    for i in (0, 1):
        j = 1 - i
        x = box[j][0] + (box[j][1] - box[j][0]) * np.array([0.1, 0.5, 0.85])
        a, b = box[i]
        t = a + (b - a) * (g + 1) / 2
        for how in ("position", "variable"):
            f = D.regfun(i if how == "position" else D.Vars[i], type=0)
            want = [float(np.sum(w * t * ref({j: v}, ())(t)) * (b - a) / 2) for v in x]
            R.close("regression", f(x), want, 1e-6, "mean of %d given the other, by %s" % (i, how))
            R.states += 1
            R.transitions += 1
        f = D.regfun(i, type=1)
        for v, y in zip(x, f(x)):
            u = a + (y - a) * (g + 1) / 2
            R.close("regression", float(np.sum(w * ref({j: v}, ())(u)) * (y - a) / 2), 0.5, 1e-5, "median of %d given %r" % (i, float(v)))
    R.traces += 1
    R.seen(case["p"])


# ------------------------------------------------------------------ order statistics
def orders(case, R):
    import pacal
    from pacal.depvars.nddistr import IJthOrderStatsNDDistr
    d = LAWS[case["l"]][1]
    n = case["n"]
    qs = np.array([float(d.ppf(p)) for p in (0.05, 0.3, 0.55, 0.8, 0.97)])
    pts = np.meshgrid(qs, qs + 1e-3, indexing="ij")
    for i in range(1, n + 1):
        refused(R, lambda: IJthOrderStatsNDDistr(LAWS[case["l"]][0](pacal, "X"), n, i, i), True, "order statistics %d, %d of %d" % (i, i, n))
        for j in range(i + 1, n + 1):
            D = IJthOrderStatsNDDistr(LAWS[case["l"]][0](pacal, "X"), n, i, j)
            k = math.factorial(n) / (math.factorial(i - 1) * math.factorial(j - i - 1) * math.factorial(n - j))
            x, y = pts
            F, G = d.cdf(x), d.cdf(y)
            want = np.where(x < y, k * F ** (i - 1) * np.abs(G - F) ** (j - i - 1) * (1 - G) ** (n - j) * d.pdf(x) * d.pdf(y), 0.0)
            w = "order statistics %d, %d of %d" % (i, j, n)
            R.close("joint density", D(x, y), want, 1e-8 * (1 + np.max(want)), w)
            for a, b, v in zip(x.ravel(), y.ravel(), want.ravel()):
                R.close("joint density, scalars", float(D(float(a), float(b))), v, 1e-8 * (1 + np.max(want)), w + " at numbers")
                R.states += 1
            for gone, r in ((0, j), (1, i)):
                kr = n * math.comb(n - 1, r - 1)
                one = kr * d.cdf(qs) ** (r - 1) * d.sf(qs) ** (n - r) * d.pdf(qs)
                for key in (gone, [gone], D.Vars[gone], [D.Vars[gone]]):
                    R.close("single order statistic", D.eliminate(key)(qs), one, 1e-7 * (1 + np.max(one)), "%s: the other one eliminated" % w)
                    R.transitions += 1
                # the joint density integrates to it
                xg, wg = np.polynomial.legendre.leggauss(60)
                for t, v in zip(qs, one):
                    lo, hi = (float(d.support()[0]), t) if gone == 0 else (t, float(d.ppf(1 - 1e-13)))
                    u = lo + (hi - lo) * (xg + 1) / 2
                    val = D(u, np.full(u.shape, t)) if gone == 0 else D(np.full(u.shape, t), u)
                    R.close("integrates to its margins", float(np.sum(wg * val) * (hi - lo) / 2), v, 1e-5 * (1 + v), w)
            R.seen((n, i, j, case["l"]))
    R.traces += 1


# ------------------------------------------------------------------ arguments and refusals
def refused(R, f, must, what):
    if not must: return
    try:
        f()
    except (RuntimeError, AssertionError, ValueError, IndexError, KeyError, TypeError):
        R.states += 1
        return
    R.fail("refused", what + ": accepted")


def args(case, R):
    import pacal
    from pacal.depvars.nddistr import NDNormalDistr, NDProductDistr, NDFun, NDConstFactor, NDOneFactor
    box, terms = POLYS["x+y"]
    other = pacal.UniformDistr(0, 1, sym="Q")
    for name, D in (("normal", NDNormalDistr(*NORMALS["n2"])), ("polynomial", make_poly(box, terms)), ("product", NDProductDistr([pacal.BetaDistr(2, 2, sym="A"), pacal.UniformDistr(0, 1, sym="C")]))):
        for bad in (2, -1, 7, other, [0, other], [5]):
            refused(R, lambda: D.eliminate(bad), True, "%s: variable %r eliminated" % (name, bad if not hasattr(bad, "getSymname") else "Q"))
            refused(R, lambda: D.condition(bad, 0.5, 0.5), True, "%s: conditioned on %r" % (name, bad if not hasattr(bad, "getSymname") else "Q"))
        R.true("nothing to do", D.eliminate([]) is not None and abs(float(D.eliminate([])(0.3, 0.4)) - float(D(0.3, 0.4))) < 1e-12, "%s: nothing eliminated" % name)
    D = make_poly(box, terms)
    refused(R, lambda: D.condition([0], 1.5), True, "a value outside the range of the variable")
    refused(R, lambda: D.condition([0], -0.5), True, "a value outside the range of the variable")
    # inside and outside the box: every combination of positions of both coordinates
    f = lambda x, y: 1.0 + x * x + 3 * y
    vs = [pacal.UniformDistr(0, 1, sym="X"), pacal.UniformDistr(-1, 2, sym="Y")]
    F = NDFun(2, vs, lambda x, y: f(x, y))
    A = NDFun(2, vs, lambda x, y: -f(x, y), abs=True)
    S = NDFun(2, vs, lambda x, y: (np.asarray(f(x, y)) / (np.asarray(x) - 0.5))[()], safe=True)
    xs, ys = [-0.5, 0.0, 0.25, 1.0, 1.5], [-2.0, -1.0, 0.5, 2.0, 2.5]
    X, Y = np.meshgrid(xs, ys)
    want = np.where((X >= 0) & (X <= 1) & (Y >= -1) & (Y <= 2), f(X, Y), 0.0)
    R.close("range", F(X, Y), want, 1e-14, "array of points in and out of the box")
    R.close("absolute value", A(X, Y), np.abs(want), 1e-14, "array of points in and out of the box")
    for x, y, w in zip(X.ravel(), Y.ravel(), want.ravel()):
        R.close("range", float(F(float(x), float(y))), float(w), 1e-14, "at %r, %r" % (float(x), float(y)))
        R.close("absolute value", float(A(float(x), float(y))), abs(float(w)), 1e-14, "at %r, %r" % (float(x), float(y)))
        R.states += 1
    R.true("safe", np.all(np.isfinite(S(np.array([0.5, 0.2]), np.array([0.0, 0.0])))), "a safe function returns something that is not finite")
    xi, yi = np.array([0, 1, 2]), np.array([1, 2, 0])
    R.close("integers", F(xi, yi), [f(0, 1), f(1, 2), 0.0], 1e-14, "integer points")
    for c in (0.25, 1.0, 3.0):
        K = NDConstFactor(c)
        R.close("constant", [float(K()), float(K.as_constant()), float(K.eliminate([])()), float(K.condition([])())], [c] * 4, 0, "constant factor")
    R.close("constant", float(NDOneFactor()()), 1.0, 0, "unit factor")
    # constants collapse
    A, B = pacal.UniformDistr(0, 1, sym="A"), pacal.BetaDistr(2, 2, sym="B")
    for cs in itertools.product((0.5, 1.0, 4.0), repeat=2):
        p = NDProductDistr([NDConstFactor(cs[0]), A, NDOneFactor(), B, NDConstFactor(cs[1])])
        R.close("constant factors", float(p(0.3, 0.4)), cs[0] * cs[1] * 6 * 0.4 * 0.6, 1e-9, "constants %s" % (cs,))
        R.close("constant factors", float(NDProductDistr([NDConstFactor(cs[0]), NDConstFactor(cs[1])]).as_constant()), cs[0] * cs[1], 0, "constants %s" % (cs,))
        refused(R, p.as_constant, True, "a product with variables taken for a constant")
        R.same("terms", [p.get_n_terms(A), p.get_n_terms(B)], [1, 1], "number of factors")
        R.transitions += 1
    R.seen("args")


def interp(case, R):
    import pacal
    from pacal.depvars.nddistr import NDInterpolatedDistr
    d = case["d"]
    boxes = [[(0, 1), (-1, 2), (1, 3)], [(-2, 2), (0, 0.5), (0, 1)], [(5, 6), (5, 6), (-6, -5)]]
    for box in boxes:
        box = box[:d]
        vs = [pacal.UniformDistr(a, b, sym=s) for (a, b), s in zip(box, NAMES)]
        for name, f in (("exp", lambda *x: np.exp(-sum(t * (i + 1) for i, t in enumerate(x)) / 5.0)), ("rational", lambda *x: 1 / (10.0 + sum(x))), ("mixed", lambda *x: np.prod([np.cos(t / 3.0) for t in x], axis=0))):
            D = NDInterpolatedDistr(d, f, vs)
            pts = mesh_of(box_axes(box))(list(range(d)))
            R.close("interpolated", D(*pts), f(*pts), 1e-9, "%s on %s" % (name, box))
            corners = np.meshgrid(*[np.array(b, float) for b in box], indexing="ij")
            R.close("interpolated", D(*corners), f(*corners), 1e-9, "%s at the corners of %s" % (name, box))
            out = [np.array([b + 0.1]) if i == 0 else np.array([(a + b) / 2.0]) for i, (a, b) in enumerate(box)]
            R.close("range", D(*out), [0.0], 0, "%s outside %s" % (name, box))
            R.states += 1
            R.transitions += 1
    R.seen(d)


def messages(case, R):
    """the same answers with the default verbosity"""
    import pacal
    box, terms = POLYS["1+xy"]
    got = []
    for v in (True, False):
        pacal.params.interpolation_nd.debug_info = v
        try:
            D = make_poly(box, terms)
            got.append((D.eliminate([0])(np.array([0.1, 0.9])).tolist(), D.condition([1], 0.7)(np.array([-0.4, 0.2])).tolist()))
        finally:
            pacal.params.interpolation_nd.debug_info = False
        R.states += 1
    R.same("verbosity", got[0], got[1], "answers with and without messages")
    R.seen("messages")
