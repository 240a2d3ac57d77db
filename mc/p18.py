"""P18: inference in a model does not depend on the route taken."""
import contextlib
import io
import itertools
import math
import signal
import numpy as np
import scipy.stats as st
import sympy

LEVEL = "model_checking"
RULE = ("states are models reached by sequences of exchange, eliminate and condition steps from models of two to four variables linked by sums, differences, products, quotients, reciprocals, exponentials, powers and chains of them; every step on "
        "every variable (pair of variables) is tried at every reached state; at every state the density of the free variables and the equation of every dependent variable are compared with the joint law computed directly from "
        "the sources; steps that are not legal must raise and leave the model as it was; every choice of wanted and given variables is inferred and compared with the same reference, and the model inferred from is compared "
        "with its state before; laws of one equation in two variables against the direct integral")
ASSUMPTIONS = ["sympy.solve solves the equations of the alphabet", "densities of the sources are smooth on bounded boxes, so that interpolation in several dimensions converges"]
CPU_LIMIT = 850



# ------------------------------------------------------------------ alphabet of models
# name -> (sources: [(name, law)], equations: [(name, formula over earlier names)], domain of sources)
MODELS = {
    "sum": ([("X", "A"), ("Y", "B")], [("S", "X + Y")]),
    "sum and difference": ([("X", "A"), ("Y", "B")], [("S", "X + Y"), ("D", "X - Y")]),
    "product": ([("X", "C"), ("Y", "D")], [("P", "X * Y")]),
    "product and quotient": ([("X", "C"), ("Y", "D")], [("P", "X * Y"), ("Q", "X / Y")]),
    "chain": ([("X", "A"), ("Y", "B")], [("S", "X + Y"), ("T", "2 * S")]),
    "chain back": ([("X", "A"), ("Y", "C")], [("S", "X + Y"), ("T", "S * Y")]),
    "resistors": ([("X", "C"), ("Y", "D")], [("N", "X * Y"), ("M", "X + Y"), ("R", "N / M")]),
    "exponential": ([("X", "A"), ("Y", "B")], [("E", "exp(X)"), ("Z", "E + Y")]),
    "reciprocal": ([("X", "C"), ("Y", "A")], [("I", "1 / X"), ("W", "I + Y")]),
    "one": ([("X", "A")], [("L", "3 - X"), ("E", "exp(X)")]),
    "logarithm": ([("X", "C"), ("Y", "A")], [("G", "log(X)"), ("D", "Y - G")]),
    "frank": ([("X", "A"), ("Y", "B")], [("S", "X + Y"), ("D", "S - X")], 3.0),
    "frank product": ([("X", "C"), ("Y", "A")], [("P", "Y * X")], -2.0),
    "frank and one": ([("X", "A"), ("Y", "B"), ("Z", "C")], [("S", "Y + Z")], 3.0),
    "three": ([("X", "A"), ("Y", "B"), ("Z", "C")], [("S", "X + Y"), ("T", "S + Z")]),
    "four": ([("X", "A"), ("Y", "B"), ("Z", "C"), ("W", "A")], [("S", "X + Y"), ("T", "S + Z"), ("U", "T + W")]),
    "star": ([("X", "A"), ("Y", "B"), ("Z", "C")], [("U", "X + Y"), ("V", "X + Z")]),
}
LAWS = {"A": (("Beta", 4, 4, 0, 1)), "B": ("Beta", 3, 5, 0, 1), "C": ("Beta", 4, 3, 1, 1), "D": ("Beta", 4, 4, 2, 1)}


def build(P, name):
    """-> Model, {name: variable}"""
    from pacal.depvars.models import Model
    src, eqs = MODELS[name][:2]
    env, rv = {"exp": P.exp, "log": P.log}, {}
    for n, l in src:
        _, a, b, lo, w = LAWS[l]
        from pacal.standard_distr import FunDistr
        if lo == 0: v = P.BetaDistr(a, b, sym=n)
        else: v = FunDistr(_Shifted(a, b, lo), breakPoints=[lo, lo + 1.0], sym=n)
        env[n] = rv[n] = v
    for n, f in eqs:
        v = eval(f, {"__builtins__": {}}, env)
        v.setSym(n)
        env[n] = rv[n] = v
    from pacal.depvars.nddistr import NDProductDistr
    from pacal.depvars.copulas import FrankCopula
    joint = NDProductDistr([rv[n] for n, _ in src]) if len(MODELS[name]) == 2 else FrankCopula(MODELS[name][2], marginals=[rv[n] for n, _ in src[:2]])
    if len(MODELS[name]) == 3 and len(src) == 3: joint = NDProductDistr([joint, rv[src[2][0]]])
    return Model(joint, [rv[n] for n, _ in eqs]), rv


class _Shifted(object):
    def __init__(self, a, b, lo): self.c = (a, b, lo)
    def __call__(self, x): return st.beta.pdf(x, self.c[0], self.c[1], self.c[2], 1.0)


# ------------------------------------------------------------------ reference
class Ref(object):
    """Joint law of every variable of a model, from the sources alone."""
    def __init__(self, name, nodes=None):
        src, eqs = MODELS[name][:2]
        self.src = [n for n, _ in src]
        self.law = {n: LAWS[l] for n, l in src}
        self.sym = {n: sympy.Symbol(n, real=True) for n in self.src + [e for e, _ in eqs]}
        env = {n: self.sym[n] for n in self.src}
        env["exp"], env["log"] = sympy.exp, sympy.log
        self.theta = MODELS[name][2] if len(MODELS[name]) > 2 else None
        self.expr = {n: self.sym[n] for n in self.src}
        for n, f in eqs:
            env[n] = self.expr[n] = sympy.sympify(eval(f, {"__builtins__": {}}, env))
        self.names = self.src + [e for e, _ in eqs]
        self.fun = {n: sympy.lambdify([self.sym[s] for s in self.src], self.expr[n], "numpy") for n in self.names}
        self.cache = {}
        # ranges of the values
        g = np.meshgrid(*[np.linspace(self.law[s][3], self.law[s][3] + 1.0, 41) for s in self.src], indexing="ij")
        self.range = {n: (float(np.min(self.fun[n](*g) + 0 * g[0])), float(np.max(self.fun[n](*g) + 0 * g[0]))) for n in self.names}
        self.order = nodes
    def pdf(self, n, x):
        _, a, b, lo, w = self.law[n]
        return st.beta.pdf(x, a, b, lo, w)
    def coordinates(self, given):
        """Extend the names given by sources to coordinates: (rest, [source as a function of given + rest], |jacobian|), None when the names given are not independent"""
        key = tuple(given)
        if key in self.cache: return self.cache[key]
        res = None
        need = len(self.src) - len(given)
        if need >= 0:
            for rest in itertools.combinations([s for s in self.src if s not in given], need):
                new = [sympy.Symbol("c_" + n, real=True) for n in given]
                eqs = [self.expr[n] - c for n, c in zip(given, new)]
                unknown = [s for s in self.src if s not in rest]
                J = sympy.Matrix([[sympy.diff(self.expr[n], self.sym[u]) for u in unknown] for n in given])
                if len(given) and sympy.simplify(J.det()) == 0: continue
                sols = sympy.solve(eqs, [self.sym[u] for u in unknown], dict=True) if len(given) else [{}]
                args = new + [self.sym[r] for r in rest]
                branches = []
                for sol in sols:
                    if any(self.sym[u] not in sol for u in unknown): continue
                    inv = {u: sol[self.sym[u]] for u in unknown}
                    det = sympy.Matrix([[sympy.diff(inv[u], c) for c in new] for u in unknown]).det() if len(given) else sympy.Integer(1)
                    branches.append(({u: sympy.lambdify(args, inv[u], "numpy") for u in unknown}, sympy.lambdify(args, det, "numpy")))
                if branches:
                    res = (rest, branches)
                    break
        self.cache[key] = res
        return res
    def nodes(self, k):
        n = self.order or {0: 0, 1: 400, 2: 120, 3: 48}[k]
        x, w = np.polynomial.legendre.leggauss(8)
        m = max(1, n // 8)
        edges = np.linspace(0.0, 1.0, m + 1)
        h = (edges[1:] - edges[:-1]) / 2
        return (edges[:-1, None] + h[:, None] * (x + 1)).ravel(), (h[:, None] * w).ravel()
    def density(self, given, vals):
        """joint density of the variables given at arrays of values"""
        vals = [np.asarray(v, float) for v in vals]
        shape = np.broadcast_shapes(*[v.shape for v in vals]) if vals else ()
        if not given: return np.ones(shape)
        rest, branches = self.coordinates(given)
        k = len(rest)
        flat = [np.broadcast_to(v, shape).ravel() for v in vals]
        if k:
            x, w = self.nodes(k)
            g = np.meshgrid(*[x + self.law[r][3] for r in rest], indexing="ij")
            W = np.ones_like(g[0])
            for i in range(k): W = W * w.reshape([-1 if j == i else 1 for j in range(k)])
            g, W = [t.ravel()[None, :] for t in g], W.ravel()
            flat = [f[:, None] for f in flat]
        else: g, W = [], None
        total = 0.0
        with np.errstate(all="ignore"):
            for inv, det in branches:
                src = {r: t for r, t in zip(rest, g)}
                src.update({u: np.asarray(f(*(flat + g)), complex) for u, f in inv.items()})
                ok = np.ones(np.broadcast_shapes(*[np.shape(v) for v in src.values()]), bool)
                d = np.abs(np.asarray(det(*(flat + g)), complex)) * np.ones(ok.shape)
                for n, v in src.items():
                    if np.iscomplexobj(v):
                        ok &= np.abs(v.imag) < 1e-12
                        v = v.real
                    d = d * self.pdf(n, v)
                if self.theta is not None:
                    th = self.theta
                    u, v = [st.beta.cdf(src[n].real, self.law[n][1], self.law[n][2], self.law[n][3], 1.0) for n in self.src[:2]]
                    d = d * -th * np.expm1(-th) * np.exp(-th * (u + v)) / (np.expm1(-th) + np.expm1(-th * u) * np.expm1(-th * v)) ** 2
                total = total + np.where(ok, np.nan_to_num(d), 0.0)
        out = total @ W if k else total
        return np.asarray(out).reshape(shape)
    def conditional(self, free, vals, cond):
        cn = sorted(cond)
        top = self.density(list(free) + cn, list(vals) + [cond[c] for c in cn])
        return top / self.density(cn, [cond[c] for c in cn]) if cn else top
    def points(self, free, cond, dep):
        """points consistent with the conditions: arrays of values of the names in dep, as functions of arrays of free values"""
        cn = sorted(cond)
        rest, branches = self.coordinates(list(free) + cn)
        axes = [np.linspace(self.range[f][0], self.range[f][1], 6)[1:-1] + 0.013 for f in free] + [np.array([cond[c]]) for c in cn] + [self.law[r][3] + np.array([0.3, 0.6]) for r in rest]
        g = [t.ravel() for t in np.meshgrid(*axes, indexing="ij")]
        out = []
        with np.errstate(all="ignore"):
            for inv, det in branches:
                src = {r: t for r, t in zip(rest, g[len(free) + len(cn):])}
                src.update({u: np.asarray(f(*g), complex) * np.ones(g[0].shape) for u, f in inv.items()})
                ok = np.ones(g[0].shape, bool)
                for n in self.src:
                    v = src[n]
                    if np.iscomplexobj(v):
                        ok &= np.abs(v.imag) < 1e-12
                        src[n] = v = v.real
                    ok &= (v >= self.law[n][3]) & (v <= self.law[n][3] + 1)
                if ok.any():
                    xs = [src[s][ok] for s in self.src]
                    out.append(({f: t[ok] for f, t in zip(free, g)}, {n: self.fun[n](*xs) + 0 * xs[0] for n in dep}))
        return out
    def unique(self, given):
        c = self.coordinates(given)
        return c is not None and len(c[1]) == 1


# ------------------------------------------------------------------ cases
SEVERAL = {"product and quotient", "chain back", "resistors"}
DEPTH = {"sum": 4, "sum and difference": 4, "product": 4, "product and quotient": 4, "chain": 4, "logarithm": 3, "frank": 3, "frank product": 3, "frank and one": 2, "four": 1, "chain back": 3, "resistors": 3, "exponential": 4, "reciprocal": 4, "one": 4, "three": 2, "star": 2}


def cases(tier):
    out = []
    for pair in TWO_PAIRS + ([] if tier == "quick" else TWO_MORE):
        for c in COPULAS:
            for op in "+-*/r":
                if op == "r" and ("E" in pair or pair[0] in ("Um", "Un") or pair[1] in ("Um", "Un")): continue
                out.append({"id": "%s %s %s by %s" % (pair[0], op, pair[1], c), "kind": "two", "pair": list(pair), "c": c, "ops": op})
    for m in MODELS:
        if m == "four":
            if tier != "quick": out += [{"id": "four: infer %s" % v, "kind": "infer", "m": m, "w": [v], "only": 2} for v in "ZWSTU"]
            continue
        out.append({"id": "%s: steps" % m, "kind": "steps", "m": m, "depth": DEPTH[m] + (tier != "quick" and m != "frank and one")})
        out.append({"id": "%s: arguments" % m, "kind": "args", "m": m})
        out.append({"id": "%s: structure" % m, "kind": "graph", "m": m})
        names = [n for n, _ in MODELS[m][0] + MODELS[m][1]]
        for r in (1, 2):
            for w in itertools.combinations(names, r):
                out.append({"id": "%s: infer %s" % (m, ",".join(w)), "kind": "infer", "m": m, "w": list(w)})
    return out


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    import pacal
    pacal.params.general.parallel = False
    pacal.params.interpolation_nd.debug_info = False
    with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        {"steps": steps, "infer": infer, "args": args, "two": two, "graph": graph}[case["kind"]](case, R)


class Late(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def f(*a): raise Late("no answer after %d s" % seconds)
    old = signal.signal(signal.SIGALRM, f)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def nm(v): return str(v.getSymname())


def describe(M):
    return (sorted(nm(v) for v in M.free_rvs), sorted(nm(v) for v in M.dep_rvs), sorted(nm(v) for v in M.all_vars), sorted((nm(v), str(e)) for v, e in M.rv_to_equation.items()),
            sorted(str(s) for s in M.sym_to_rv), id(M.nddistr), [nm(v) for v in M.nddistr.Vars])


def judge(R, M, ref, free, dep, cond, what, tol):
    """the model M is the joint law of free and dep given cond"""
    ok = R.same("free variables", sorted(nm(v) for v in M.free_rvs), sorted(free), what)
    ok &= R.same("dependent variables", sorted(nm(v) for v in M.dep_rvs), sorted(dep), what)
    ok &= R.same("all variables", sorted(nm(v) for v in M.all_vars), sorted(list(free) + list(dep)), what)
    if not ok: return
    R.same("variables with equations", sorted(nm(v) for v in M.rv_to_equation), sorted(dep), what)
    if free:
        order = [nm(v) for v in M.nddistr.Vars]
        if not R.same("variables of the density", sorted(order), sorted(free), what): return
        axes = [ref.range[n][0] + (ref.range[n][1] - ref.range[n][0]) * np.array([0.13, 0.36, 0.55, 0.71, 0.9]) for n in order]
        g = np.meshgrid(*axes, indexing="ij")
        want = ref.conditional(order, g, cond)
        with limit(120): got = np.asarray(M.nddistr(*[t.ravel() for t in g]), float).reshape(g[0].shape)
        R.close("density", got, want, tol * (1 + np.max(want)), what)
        i = tuple([2] * len(order))
        with limit(60): s = float(np.squeeze(M.nddistr(*[float(t[i]) for t in g])))
        R.close("density, scalars", s, float(want[i]), tol * (1 + np.max(want)), what)
    for v in M.dep_rvs:
        eq = M.rv_to_equation[v]
        syms = sorted(eq.atoms(sympy.Symbol), key=str)
        if not R.true("symbols of equations", set(map(str, syms)) <= set(free) | set(dep), "%s: %s = %s" % (what, nm(v), eq)): continue
        f = sympy.lambdify(syms, eq, "numpy")
        for fv, dv in ref.points(list(free), cond, list(dep)):
            val = dict(dv, **fv)
            got = np.asarray(f(*[val[str(s)] for s in syms]), float) * np.ones(len(dv[nm(v)]))
            R.close("equations", got, dv[nm(v)], 1e-8 * (1 + np.max(np.abs(dv[nm(v)]))), "%s: %s = %s" % (what, nm(v), eq))


def expected(M, ref, step, free, dep, cond):
    """legal, or why the step must be refused; None when either answer is right"""
    kind, a = step[0], step[1:]
    eqs = {nm(v): set(map(str, e.atoms(sympy.Symbol))) for v, e in M.rv_to_equation.items()}
    if kind == "exchange":
        f, d = a
        if f not in free or d not in dep or f not in eqs[d] or not eqs[d] <= set(free): return False
        sol = sympy.solve(M.rv_to_equation[[v for v in M.dep_rvs if nm(v) == d][0]] - sympy.Symbol("zz"), sympy.Symbol(f))
        return True if len(sol) == 1 else None
    if kind == "eliminate":
        return a[0] in dep or not any(a[0] in s for s in eqs.values())
    return a[0] in free


def moves(names, free, dep, values):
    for f in names:
        for d in names:
            if f != d: yield ("exchange", f, d)
    for v in names: yield ("eliminate", v)
    for v in names:
        for x in values[v]: yield ("condition", v, x)


def apply(M, rv, step, how):
    def V(n): return {"variable": rv[n], "name": n, "symbol": sympy.Symbol(n)}[how]
    if step[0] == "exchange": M.varschange(V(step[1]), V(step[2]))
    elif step[0] == "eliminate": M.eliminate(V(step[1]))
    else: M.condition(V(step[1]), step[2])


def after(step, free, dep, cond):
    free, dep, cond = list(free), list(dep), dict(cond)
    if step[0] == "exchange":
        free[free.index(step[1])] = step[2]
        dep[dep.index(step[2])] = step[1]
    elif step[0] == "eliminate":
        (free if step[1] in free else dep).remove(step[1])
    else:
        free.remove(step[1])
        cond[step[1]] = step[2]
    return tuple(sorted(free)), tuple(sorted(dep)), cond


def steps(case, R):
    import pacal as P
    name = case["m"]
    ref = Ref(name)
    root, rv = build(P, name)
    src, eqs = MODELS[name][:2]
    values = {n: [ref.range[n][0] + t * (ref.range[n][1] - ref.range[n][0]) for t in ((0.4, 0.63) if n in ref.src else (0.45,))] for n in ref.names}
    free, dep = tuple(n for n, _ in src), tuple(n for n, _ in eqs)
    tol = 6e-3 if len(src) > 2 else 2e-3   # interpolation in several dimensions
    judge(R, root, ref, free, dep, {}, name, tol)
    first = describe(root)
    layer = [((), root, free, dep, {})]
    reached = {}
    for level in range(case["depth"]):
        nxt = []
        for trace, M, free, dep, cond in layer:
            names = list(free) + list(dep)
            before = describe(M)
            for k, step in enumerate(moves(names, free, dep, values)):
                how = ("variable", "name", "symbol")[(k + level) % 3]
                what = "%s: %s" % (name, "; ".join(" ".join(map(str, s)) for s in trace + (step,)))
                C = M.copy()
                legal = expected(M, ref, step, free, dep, cond)
                R.transitions += 1
                try:
                    with limit(120): apply(C, rv, step, how)
                    done = True
                except Exception as e:
                    done = repr(e)[:200]
                if legal is None and done is not True: continue
                if legal is False:
                    R.true("refused", done is not True, what + ": accepted")
                    if done is not True: R.same("refused steps change nothing", describe(C), before, what)
                    continue
                if not R.true("legal step", done is True, "%s: %s" % (what, done)): continue
                R.same("steps on a copy", describe(M), before, what)
                f2, d2, c2 = after(step, free, dep, cond)
                judge(R, C, ref, f2, d2, c2, what, tol)
                R.states += 1
                key = (f2, d2, tuple(sorted(c2.items())))
                reached[key] = reached.get(key, 0) + 1
                R.seen(key)
                if reached[key] <= 3: nxt.append((trace + (step,), C, f2, d2, c2))
        layer = nxt
    R.traces += len(reached)
    R.same("unchanged", describe(root), first, "%s: the model after all explorations" % name)
    judge(R, root, ref, tuple(n for n, _ in src), tuple(n for n, _ in eqs), {}, name + " in the end", tol)
    R.sample = "%s: %d states reached, %d routes" % (name, len(reached), sum(reached.values()))


def infer(case, R):
    import pacal as P
    name, w = case["m"], case["w"]
    ref = Ref(name)
    root, rv = build(P, name)
    first = describe(root)
    n = len(ref.src)
    others = [v for v in ref.names if v not in w]
    for r in range(0, min(n, len(others)) + 1):
        for given in itertools.combinations(others, r):
            if r > case.get("only", r): continue
            if len(given) and ref.coordinates(sorted(given)) is None: continue
            cond = {g: round(ref.range[g][0] + t * (ref.range[g][1] - ref.range[g][0]), 3) for g, t in zip(given, (0.45, 0.58, 0.5))}
            if len(given) and ref.density(sorted(given), [cond[g] for g in sorted(given)]) < 1e-3: continue
            what = "%s: %s given %s" % (name, ",".join(w), cond)
            try:
                with limit(200): M = root.inference([rv[v] for v in w], [rv[g] for g in given], [cond[g] for g in given])
            except Exception as e:
                # equations with several solutions are refused, and only in these models do such equations arise
                if name in SEVERAL and isinstance(e, RuntimeError) and not isinstance(e, Late): R.count("refused")
                else: R.fail("inference", "%s: %r" % (what, e))
                R.same("model unchanged", describe(root), first, what)
                continue
            R.transitions += 1
            got_free = [nm(v) for v in M.free_rvs]
            R.same("wanted variables", sorted(nm(v) for v in M.all_vars), sorted(w), what)
            R.same("model unchanged", describe(root), first, what)
            indep = ref.coordinates(sorted(got_free) + sorted(given)) is not None
            if not R.true("free variables", indep, "%s: free variables %s" % (what, got_free)): continue
            judge(R, M, ref, tuple(got_free), tuple(v for v in w if v not in got_free), cond, what, 6e-3 if len(ref.src) > 2 else 2e-3)
            R.states += 1
            R.seen((tuple(got_free), tuple(given)))
            if len(w) == 1: answer(R, M, ref, w[0], cond, what)


def answer(R, M, ref, v, cond, what):
    """the law of one variable as the library reports it"""
    if M.free_rvs:
        with limit(120):
            D = M.as1DDistr()
            lo, hi = ref.range[v]
            x, w = np.polynomial.legendre.leggauss(12)
            e = np.linspace(lo, hi, 41)
            h = (e[1:] - e[:-1]) / 2
            t = (e[:-1, None] + h[:, None] * (x + 1)).ravel()
            f = ref.conditional([v], [t], cond) * (h[:, None] * w).ravel()
            c = np.cumsum(f.reshape(40, 12).sum(axis=1))
            R.close("mass", float(D.get_piecewise_pdf().integrate()), 1.0, 2e-3, what)
            R.close("mean", float(D.mean()), float((t * f).sum()), 2e-3 * (1 + max(abs(lo), abs(hi))), what)
            R.close("distribution function", [float(D.cdf(float(z))) for z in e[[8, 16, 20, 28, 36]]], c[[7, 15, 19, 27, 35]], 2e-3, what)
            R.close("array", D.pdf(e[3:30:5]), [float(np.squeeze(D.pdf(float(z)))) for z in e[3:30:5]], 1e-9, what)
    else:
        for fv, dv in ref.points([], cond, [v]):
            R.close("constant", M.as_const(), dv[v][0], 1e-8, what)


# ------------------------------------------------------------------ arguments and structure
def refused(R, f, M, what, kinds=(Exception,)):
    before = describe(M)
    R.transitions += 1
    try:
        with limit(20): r = f()
    except Late as e: R.fail("refused", "%s: %s" % (what, e))
    except Exception: pass
    else: R.fail("refused", "%s: accepted, result has variables %s" % (what, [nm(v) for v in r.all_vars] if r is not None else None))
    R.same("refused steps change nothing", describe(M), before, what)
    R.states += 1


def args(case, R):
    import pacal as P
    name = case["m"]
    ref = Ref(name)
    M, rv = build(P, name)
    other = P.BetaDistr(2, 2, sym="Q9")
    names = ref.names
    src, eqs = [n for n, _ in MODELS[name][0]], [n for n, _ in MODELS[name][1]]
    mid = {n: sum(ref.range[n]) / 2 for n in names}
    for n in src:
        lo, hi = ref.range[n]
        for x in (lo - 0.1, hi + 0.1, hi + 50.0):
            refused(R, lambda: M.condition(rv[n], x), M, "%s: condition %s at %s, outside its range" % (name, n, x))
            w = [m for m in names if m != n][0]
            refused(R, lambda: M.inference([rv[w]], [rv[n]], [x]), M, "%s: %s given %s=%s, outside its range" % (name, w, n, x))
    for n in names:
        for v in (other, "Q9", sympy.Symbol("Q9")):
            refused(R, lambda: M.varschange(v, rv[n]), M, "%s: exchange of a foreign variable with %s" % (name, n))
            refused(R, lambda: M.varschange(rv[n], v), M, "%s: exchange of %s with a foreign variable" % (name, n))
        refused(R, lambda: M.inference([rv[n]], [rv[n]], [mid[n]]), M, "%s: %s given itself" % (name, n))
        refused(R, lambda: M.inference([rv[n], other]), M, "%s: inference of %s and a foreign variable" % (name, n))
        refused(R, lambda: M.inference([rv[n]], [other], [0.5]), M, "%s: inference of %s given a foreign variable" % (name, n))
        for k in names:
            if k == n: continue
            refused(R, lambda: M.inference([rv[n]], [rv[k]], []), M, "%s: %s given %s without a value" % (name, n, k))
            refused(R, lambda: M.inference([rv[n]], [rv[k]], [mid[k], 0.5]), M, "%s: %s given %s with two values" % (name, n, k))
            refused(R, lambda: M.inference([rv[n], rv[k]], [rv[k]], [mid[k]]), M, "%s: %s and %s given %s" % (name, n, k, k))
    for v in (other, "Q9", sympy.Symbol("Q9")):
        refused(R, lambda: M.eliminate(v), M, name + ": elimination of a foreign variable")
        refused(R, lambda: M.condition(v, 0.5), M, name + ": conditioning on a foreign variable")
    refused(R, lambda: M.as1DDistr(), M, name + ": law of a model of several variables") if len(names) > 1 else None
    # variables that are gone
    for n in eqs:
        C = M.copy()
        C.eliminate(rv[n])
        for what, f in (("eliminate", lambda: C.eliminate(rv[n])), ("condition", lambda: C.condition(rv[n], mid[n])), ("exchange", lambda: C.varschange(rv[src[0]], rv[n])), ("infer", lambda: C.inference([rv[n]])), ("infer given", lambda: C.inference([rv[src[0]]], [rv[n]], [mid[n]]))):
            refused(R, f, C, "%s: %s of %s after its elimination" % (name, what, n))
    # everything wanted, nothing wanted
    I = M.inference([rv[n] for n in names])
    R.same("all wanted", sorted(nm(v) for v in I.all_vars), sorted(names), name)
    judge(R, I, ref, tuple(nm(v) for v in I.free_rvs), tuple(nm(v) for v in I.dep_rvs), {}, name + ": everything wanted", 2e-3)
    R.same("nothing wanted", M.inference([]).all_vars, [], name)
    R.traces += 1


def graph(case, R):
    """structure queries and the construction of models from lists, products and formulas"""
    import pacal as P
    from pacal.depvars.models import Model
    name = case["m"]
    src, eqs = MODELS[name][:2]
    M, rv = build(P, name)
    ref = Ref(name)
    parents = {n: set(s for s in ref.names if s != n and str(sympy.Symbol(s)) in set(map(str, sympy.sympify(f, locals={k: sympy.Symbol(k) for k in ref.names}).atoms(sympy.Symbol)))) for n, f in eqs}
    for how in ("variable", "name", "symbol"):
        V = lambda n: {"variable": rv[n], "name": n, "symbol": sympy.Symbol(n)}[how]
        for n in ref.names:
            R.same("free", bool(M.is_free(V(n))), n in dict(src), "%s: %s by %s" % (name, n, how))
            R.same("dependent", bool(M.is_dependent(V(n))), n in dict(eqs), "%s: %s by %s" % (name, n, how))
        for r in (1, 2, 3):
            for c in itertools.permutations(ref.names, r):
                R.same("all free", bool(M.are_free([V(n) for n in c])), all(n in dict(src) for n in c), "%s: %s by %s" % (name, c, how))
    for n in ref.names:
        R.same("children", sorted(nm(v) for v in M.get_children(rv[n])), sorted(k for k in parents if n in parents[k]), "%s: %s" % (name, n))
        if n in parents: R.same("parents", sorted(nm(v) for v in M.get_parents(rv[n])), sorted(parents[n]), "%s: %s" % (name, n))
    # the last variable brings the intermediate ones; lists of distributions in any order
    last = [n for n, _ in eqs if not any(n in p for p in parents.values())]
    for perm in itertools.permutations([n for n, _ in src]):
        for order in itertools.permutations(last):
            if ref.theta is not None: continue
            C = Model([rv[n] for n in perm], [rv[n] for n in order])
            judge(R, C, ref, tuple(n for n, _ in src), tuple(n for n, _ in eqs), {}, "%s: sources %s, variables %s" % (name, perm, order), 1e-9)
            R.same("structure", sorted((nm(v), str(e)) for v, e in C.rv_to_equation.items()), sorted((nm(v), str(e)) for v, e in M.rv_to_equation.items()), name)
            R.states += 1
    # a copy shares nothing that steps change
    C = M.copy()
    keep = describe(M)
    C.free_rvs.pop(); C.dep_rvs.pop(); C.all_vars.pop(); C.sym_to_rv.clear(); C.rv_to_equation.clear()
    R.same("copy", describe(M), keep, name)
    s = str(M)
    for n in ref.names: R.true("text", n in s, "%s: %s does not occur in the text of the model" % (name, n))
    R.traces += 1


# ------------------------------------------------------------------ one equation in two variables
TWO_LAWS = {"U01": ("Uniform", 0, 1), "U02": ("Uniform", 0, 2), "U13": ("Uniform", 1, 3), "B": ("Beta", 2, 3), "Um": ("Uniform", -1, 1), "Un": ("Uniform", -3, -1), "E": ("Exp", 1.0)}


TWO_PAIRS = [("U01", "U02"), ("U02", "U13"), ("U13", "B"), ("B", "U13"), ("Um", "U13"), ("Un", "U13"), ("U13", "Un"), ("Um", "U02"), ("Un", "Un")]
TWO_MORE = [("U13", "E"), ("E", "U13"), ("U01", "U01"), ("B", "B"), ("U02", "B"), ("Un", "U01"), ("U13", "U13")]
SINGULAR = {("U01", "U02"), ("Um", "U02"), ("U01", "U01"), ("U02", "B"), ("Un", "U01"), ("B", "B")}
COPULAS = {"Pi": (None, lambda u, v: v), "product": (None, lambda u, v: v),
           "Frank": (3.0, lambda u, v: np.exp(-3.0 * u) * np.expm1(-3.0 * v) / (np.expm1(-3.0) + np.expm1(-3.0 * u) * np.expm1(-3.0 * v))),
           "Clayton": (1.0, lambda u, v: np.where(v > 0, u ** -2.0 * (1 / u + 1 / np.maximum(v, 1e-300) - 1) ** -2.0, 0.0))}


def two(case, R):
    """law of an operation of two variables coupled by a copula, against the integral of the conditional copula"""
    import pacal as P
    from pacal.depvars import copulas as K
    from pacal.depvars.models import TwoVarsModel
    from pacal.depvars.nddistr import NDProductDistr
    a, b = case["pair"]
    dist = {"Uniform": (lambda l, s: P.UniformDistr(l[1], l[2], sym=s), lambda l: st.uniform(l[1], l[2] - l[1])), "Beta": (lambda l, s: P.BetaDistr(l[1], l[2], sym=s), lambda l: st.beta(l[1], l[2])),
            "Exp": (lambda l, s: P.ExponentialDistr(l[1], sym=s), lambda l: st.expon(scale=1.0 / l[1]))}
    la, lb = TWO_LAWS[a], TWO_LAWS[b]
    FX, FY = dist[la[0]][1](la), dist[lb[0]][1](lb)
    th, h = COPULAS[case["c"]]
    x, w = np.polynomial.legendre.leggauss(8)
    e = np.linspace(0, 1, 401)
    u = (e[:-1, None] + (e[1] - e[0]) / 2 * (x + 1)).ravel()
    w = np.tile(w * (e[1] - e[0]) / 2, 400)
    xs = FX.ppf(u)
    H = lambda y: h(u, FY.cdf(y))
    def below(op, z):
        if op == "+": return H(z - xs)
        if op == "-": return 1 - H(xs - z)
        if op == "*": return np.where(xs > 0, H(z / xs), 1 - H(z / xs))
        if op == "/":
            t = xs / z
            if z > 0: return 1 - H(np.maximum(0, t)) + H(np.minimum(0, t))
            return np.where(t > 0, H(t) - H(0 * t), H(0 * t) - H(t))
        return np.where(xs > z, H(z * xs / (xs - z)), 1.0)
    for op in case["ops"]:
        what = "%s %s %s, %s" % (a, op, b, case["c"])
        X, Y = dist[la[0]][0](la, "X"), dist[lb[0]][0](lb, "Y")
        Z = {"+": lambda: X + Y, "-": lambda: X - Y, "*": lambda: X * Y, "/": lambda: X / Y, "r": lambda: X * Y / (X + Y)}[op]()
        J = {"Pi": lambda: K.PiCopula(marginals=[X, Y]), "product": lambda: NDProductDistr([X, Y]), "Frank": lambda: K.FrankCopula(th, marginals=[X, Y]), "Clayton": lambda: K.ClaytonCopula(th, marginals=[X, Y])}[case["c"]]()
        with limit(300):
            D = TwoVarsModel(J, Z).eval()
            br = [t for t in D.get_piecewise_pdf().getBreaks() if np.isfinite(t)]
        lo, hi = (br[0], br[-1]) if len(br) > 1 else (br[0] - 1, br[0] + 1)
        zs = sorted(set(lo + (hi - lo) * t + 0.003 for t in (-0.1, 0.08, 0.21, 0.37, 0.5, 0.66, 0.83, 0.95, 1.2, 1.7)) | set(t + 0.001 for t in br))
        zs = [z for z in zs if abs(z) > 1e-2]
        with limit(300): got = [float(D.cdf(z)) for z in zs]
        R.close("distribution function", got, [float(np.sum(w * below(op, z))) for z in zs], (1e-2 if case["c"] == "Clayton" else 2e-3) if (a, b) in SINGULAR else 2e-4, what)
        R.close("distribution function", float(D.cdf(np.inf)), 1.0, (1e-2 if case["c"] == "Clayton" else 2e-3) if (a, b) in SINGULAR else 1e-4, what + " at infinity")
        with limit(300): d = D.pdf(np.array(zs))
        R.true("non-negative", np.all(np.asarray(d) >= -1e-3 * np.max(d)), "%s: %r" % (what, np.min(d)))
        R.states += 1
        R.transitions += 1
        R.seen((what, [round(t, 4) for t in got]))
    R.traces += 1
