"""P12: sampling.  The random source is replaced by an enumerated one; the push-forward has to be the variable's law."""
import itertools
import sys
import numpy as np
import scipy.special as sp
import scipy.stats as st
from mc import alphabet as A
from mc import p05

LEVEL = "model_checking"
RULE = ("every function of numpy.random is replaced by a controlled source: the j-th request of a draw is answered with the j-th coordinate of a digital net that visits every "
        "elementary box of the source's unit cube exactly once, put through the quantile function of the requested primitive, so the set of draws is the image of the whole "
        "discretised source; the image is compared with the law of the variable at every special and quantile point, every draw is checked to lie in the support, extreme source values (0, 2^-53, 1-2^-53 and the "
        "cumulated probabilities themselves) are tried one by one, as are sizes None, 0, 1, 2, 7; for derived variables every draw must equal the expression applied to the draws of its operands, over every "
        "expression of a bounded grammar with and without dependency tracking")
ASSUMPTIONS = ["numpy's generators are correct, and are used through numpy.random", "probabilities of the discretised source agree with the law to the resolution of the net (2e-3 for 2^13 points and up to three requests per draw)"]
CPU_LIMIT = 200
NB = 13


# ------------------------------------------------------------------ the source
def _net():
    s = st.qmc.Sobol(8, scramble=False)
    return (s.random(2 ** NB) + 0.5 / 2 ** NB)


class Source(object):
    net = None
    def __init__(self):
        if Source.net is None:
            Source.net = _net()
        self.reset()
    def reset(self, fixed=None):
        self.calls = 0
        self.fixed = fixed            # fixed: list of source values, one per request, for scalars
        self.pos = 0
        self.unknown = None
    def u(self, size):
        j = self.calls
        self.calls += 1
        n = 1 if size is None else int(np.prod(size))
        if self.fixed is not None and j < len(self.fixed):
            v = np.array([self.fixed[j]] * n) if np.isscalar(self.fixed[j]) else np.array(self.fixed[j][:n])
        else:
            # samplers that reject ask again: move on along the net
            i = (self.pos + 1237 * (j // 8) + np.arange(n)) % 2 ** NB
            v = Source.net[i, j % 8]
        if size is None:
            return float(v[0])
        return v.reshape(size)


SRC = None
def _clip(u):
    return np.clip(u, 2.0 ** -54, 1 - 2.0 ** -53)


def primitives(S):
    def q(f, u): return float(f(_clip(u))) if np.isscalar(u) else f(_clip(u))
    def sz(*a):
        """size of the result when the size is not given"""
        b = np.broadcast(*[np.asarray(x) for x in a])
        return None if b.shape == () else b.shape
    P = {}
    P["uniform"] = lambda low=0.0, high=1.0, size=None: low + (np.asarray(high) - low) * S.u(sz(low, high) if size is None else size) if not np.isscalar(high) else low + (high - low) * S.u(size)
    P["random_sample"] = P["random"] = P["ranf"] = P["sample"] = lambda size=None: S.u(size)
    P["rand"] = lambda *d: S.u(d or None)
    P["randn"] = lambda *d: q(sp.ndtri, S.u(d or None))
    P["normal"] = lambda loc=0.0, scale=1.0, size=None: loc + scale * q(sp.ndtri, S.u(size))
    P["standard_normal"] = lambda size=None: q(sp.ndtri, S.u(size))
    P["exponential"] = lambda scale=1.0, size=None: scale * q(lambda u: -np.log1p(-u), S.u(size))
    P["standard_exponential"] = lambda size=None: q(lambda u: -np.log1p(-u), S.u(size))
    P["gamma"] = lambda shape, scale=1.0, size=None: scale * q(lambda u: sp.gammaincinv(shape, u), S.u(size))
    P["standard_gamma"] = lambda shape, size=None: q(lambda u: sp.gammaincinv(shape, u), S.u(size))
    P["chisquare"] = lambda df, size=None: 2 * q(lambda u: sp.gammaincinv(df / 2.0, u), S.u(size))
    P["beta"] = lambda a, b, size=None: q(lambda u: sp.betaincinv(a, b, u), S.u(size))
    P["pareto"] = lambda a, size=None: q(lambda u: np.expm1(-np.log1p(-u) / a), S.u(size))
    P["weibull"] = lambda a, size=None: q(lambda u: (-np.log1p(-u)) ** (1.0 / a), S.u(size))
    P["power"] = lambda a, size=None: q(lambda u: u ** (1.0 / a), S.u(size))
    P["laplace"] = lambda loc=0.0, scale=1.0, size=None: loc + scale * q(lambda u: np.where(u < 0.5, np.log(2 * u), -np.log(2 - 2 * u)), S.u(size))
    P["logistic"] = lambda loc=0.0, scale=1.0, size=None: loc + scale * q(lambda u: np.log(u) - np.log1p(-u), S.u(size))
    P["lognormal"] = lambda mean=0.0, sigma=1.0, size=None: np.exp(mean + sigma * q(sp.ndtri, S.u(size)))
    P["gumbel"] = lambda loc=0.0, scale=1.0, size=None: loc - scale * q(lambda u: np.log(-np.log(u)), S.u(size))
    P["rayleigh"] = lambda scale=1.0, size=None: scale * q(lambda u: np.sqrt(-2 * np.log1p(-u)), S.u(size))
    P["standard_cauchy"] = lambda size=None: q(lambda u: np.tan(np.pi * (u - 0.5)), S.u(size))
    P["standard_t"] = lambda df, size=None: q(lambda u: sp.stdtrit(df, u), S.u(size))
    P["f"] = lambda dfnum, dfden, size=None: q(lambda u: st.f.ppf(u, dfnum, dfden), S.u(size))
    P["triangular"] = lambda left, mode, right, size=None: q(lambda u: st.triang.ppf(u, (mode - left) / float(right - left), left, right - left), S.u(size))
    def disc(ppf):
        return lambda u: int(ppf(_clip(u))) if np.isscalar(u) else np.asarray(ppf(_clip(u))).astype(int)
    P["binomial"] = lambda n, p, size=None: disc(lambda u: st.binom.ppf(u, n, p))(S.u(size))
    P["poisson"] = lambda lam=1.0, size=None: disc(lambda u: st.poisson.ppf(u, lam))(S.u(size))
    P["geometric"] = lambda p, size=None: disc(lambda u: st.geom.ppf(u, p))(S.u(size))
    def randint(low, high=None, size=None, dtype=int, endpoint=False):
        if high is None: low, high = 0, low
        high = high + 1 if endpoint else high
        return disc(lambda u: np.minimum(low + np.floor(u * (high - low)), high - 1))(S.u(size))
    P["randint"] = P["integers"] = randint
    def choice(a, size=None, replace=True, p=None, **k):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)
        if not replace:
            return a[:(1 if size is None else int(np.prod(size)))]
        c = np.cumsum(np.ones(len(a)) / len(a) if p is None else p)
        i = np.minimum(np.searchsorted(c / c[-1], S.u(size), side="right"), len(a) - 1)
        return a[i]
    P["choice"] = choice
    def multinomial(n, pvals, size=None):
        c = np.round(np.cumsum(pvals) * n).astype(int)
        v = np.diff(np.concatenate([[0], c[:-1], [n]]))
        S.calls += 1
        return v if size is None else np.tile(v, (size, 1))
    P["multinomial"] = multinomial
    P["permutation"] = lambda x: np.arange(x) if np.isscalar(x) else np.array(x)
    P["shuffle"] = lambda x: None
    P["seed"] = lambda *a: None
    return P


class Gen(object):
    def __init__(self, P): self.__dict__.update(P)


class controlled(object):
    """numpy.random under control, also where names were imported from it"""
    def __enter__(self):
        self.S = S = Source()
        P = primitives(S)
        self.undo = []
        rs = np.random.mtrand._rand
        def other(name):
            def f(*a, **k):
                S.unknown = name
                raise RuntimeError("the source has no primitive " + name)
            return f
        names = dict((n, P.get(n) or other(n)) for n in dir(rs) if not n.startswith("_") and callable(getattr(rs, n)))
        orig = dict((id(getattr(np.random, n)), n) for n in names if hasattr(np.random, n))
        for m in [np.random] + [m for k, m in list(sys.modules.items()) if (k == "pacal" or k.startswith("pacal.")) and m is not None]:
            for a, v in list(vars(m).items()):
                n = orig.get(id(v))
                if n is None and getattr(v, "__self__", None) is rs and getattr(v, "__name__", None) in names:
                    n = v.__name__
                if n is not None:
                    self.undo.append((m, a, v))
                    setattr(m, a, names[n])
        for a in ("default_rng", "RandomState"):
            self.undo.append((np.random, a, getattr(np.random, a)))
            setattr(np.random, a, lambda *k, **kw: Gen(P))
        return S
    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
        return False


# ------------------------------------------------------------------ cases
class SV(object):
    """a variable with a scipy law"""
    def __init__(self, d, build, brk=(), atoms=None):
        self.build = build
        self.atoms = dict(atoms or {})
        self.a, self.b = [float(t) for t in d.support()]
        self.cdf = lambda x: float(np.ravel(d.cdf(x))[0])
        self.cdfm = lambda x: float(np.ravel(d.cdf(x))[0])
        self.brk = [t for t in (self.a, self.b) if np.isfinite(t)]
        p = [0.001, 0.01, 0.03, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.97, 0.99, 0.999]
        self.pts = sorted(set(self.brk) | set(float(t) for t in np.atleast_1d(d.ppf(np.array(p)))))


class CV(object):
    """variable V given that it is above lo and below hi"""
    def __init__(self, V, lo, hi, build):
        self.build = build
        F, G = V.cdf, V.cdfm
        f0 = F(lo) if np.isfinite(lo) else 0.0
        f1 = G(hi) if np.isfinite(hi) else 1.0
        self.cdf = lambda x: min(max((F(x) - f0) / (f1 - f0), 0.0), 1.0)
        self.cdfm = lambda x: min(max((G(x) - f0) / (f1 - f0), 0.0), 1.0)
        self.atoms = dict((k, p / (f1 - f0)) for k, p in V.atoms.items() if lo < k < hi)
        self.a, self.b = max(lo, V.a), min(hi, V.b)
        self.brk = [t for t in V.brk if self.a <= t <= self.b] + [t for t in (lo, hi) if np.isfinite(t)]
        w = [t for t in V.pts if self.a <= t <= self.b] + self.brk
        self.pts = sorted(set(w + [(x + y) / 2 for x, y in zip(sorted(w), sorted(w)[1:])]))


class MV(object):
    """mixture"""
    def __init__(self, ps, Vs, build):
        self.build = build
        self.cdf = lambda x: sum(p * V.cdf(x) for p, V in zip(ps, Vs))
        self.cdfm = lambda x: sum(p * V.cdfm(x) for p, V in zip(ps, Vs))
        self.atoms = {}
        for p, V in zip(ps, Vs):
            for k, m in V.atoms.items():
                self.atoms[k] = self.atoms.get(k, 0.0) + p * m
        self.a, self.b = min(V.a for V in Vs), max(V.b for V in Vs)
        self.brk = sorted(set(b for V in Vs for b in V.brk))
        self.pts = sorted(set(t for V in Vs for t in V.pts))


def var(spec):
    """case -> variable"""
    import pacal as P
    k = spec[0]
    if k == "std":
        d = p05.G[spec[1]][1](*spec[2])
        return SV(d, lambda: getattr(P, spec[1])(*spec[2]))
    if k == "var":
        return A.Var(spec[1])
    if k == "cond":
        V = var(spec[1])
        lo, hi = spec[2]
        def build():
            X = V.build()
            return X | (P.Gt(lo) if hi == np.inf else P.Lt(hi) if lo == -np.inf else P.Between(lo, hi))
        return CV(V, lo, hi, build)
    if k == "mix":
        Vs = [var(s) for s in spec[2]]
        return MV(spec[1], Vs, lambda: P.MixDistr(list(spec[1]), [V.build() for V in Vs]))
    if k == "fun":
        V = var(spec[1])
        X = V.build()
        V.build = lambda: P.FunDistr(X.pdf, spec[2])
        return V
    if k == "pd":
        V = var(spec[1])
        b = V.build
        V.build = lambda: P.standard_distr.PDistr(b().get_piecewise_pdf())
        return V
    raise ValueError(k)


def name(s):
    return str(s).replace("'", "").replace(" ", "")


CONDS = [("var", "N01", (0.5, np.inf)), ("var", "N01", (-np.inf, 0.25)), ("var", "N01", (-1.0, 0.5)), ("var", "Exp", (1.0, np.inf)), ("var", "Exp", (-np.inf, 1.5)), ("var", "Exp", (0.5, 2.0)),
         ("var", "U", (0.0, np.inf)), ("var", "Cau", (0.5, np.inf)), ("var", "Cau", (-2.0, 1.0)), ("var", "ain", (0.25, np.inf)), ("var", "gap", (-np.inf, 1.5)), ("var", "Die", (2.5, np.inf)),
         ("var", "Die", (-np.inf, 4.5)), ("var", "Die", (1.5, 4.5)), ("var", "N01", (2.0, np.inf)),
         # point masses at the limits do not belong to the event
         ("var", "Die", (3.0, np.inf)), ("var", "Die", (-np.inf, 4.0)), ("var", "Die", (2.0, 5.0)), ("var", "ain", (0.5, np.inf)), ("var", "ain", (-np.inf, 0.5)), ("var", "ain", (-1.0, 0.5)), ("var", "Dneg", (0.0, np.inf))]
MIXES = [((0.9, 0.1), ("U12", "Exp")), ((0.25, 0.75), ("N01", "U")), ((0.1, 0.2, 0.7), ("U12", "Two", "N01")), ((0.125, 0.25, 0.5, 0.125), ("Exp", "Die", "U", "Cau")), ((1.0,), ("U12",)), ((0.0, 1.0), ("U12", "Exp")),
         ((0.5, 0.5), ("ain", "Dneg"))]


def cases(tier):
    out = []
    for f, (grid, ref) in p05.G.items():
        combos = [c for c in itertools.product(*grid) if ref(*c) is not None]
        if f == "TrapezoidalDistr":
            combos = combos[::40 if tier == "quick" else 9]
        elif tier == "quick" and len(combos) > 24:
            combos = combos[::len(combos) // 24 + 1]
        for c in combos:
            out.append(("std", f, tuple(c)))
    vs = A.BASE + A.MIXED + A.DISCRETE + A.derived() + (A.PAIRS if tier != "quick" else A.PAIRS[::4])
    out += [("var", v) for v in sorted(set(vs), key=vs.index)]
    out += [("cond", (k, v), iv) for k, v, iv in CONDS]
    out += [("mix", p, tuple(("var", v) for v in vs)) for p, vs in MIXES]
    out += [("mix", (0.3, 0.7), (("cond", ("var", "N01"), (0.5, np.inf)), ("mix", (0.9, 0.1), (("var", "U12"), ("var", "Two")))))]
    out += [("fun", ("var", "U"), [-1.0, 2.0]), ("fun", ("var", "B23"), [0.0, 1.0]), ("fun", ("var", "N01"), [-np.inf, -1.0, 1.0, np.inf]), ("fun", ("var", "Exp"), [0.0, 1.0, np.inf])]
    out += [("pd", ("var", v)) for v in ("U", "Exp", "N01", "ain", "gap", "Die")]
    C = [{"id": "law " + name(s), "kind": "law", "v": s} for s in out]
    inv = [s for s in out if s[0] == "var"]
    C += [{"id": "inverse " + name(s), "kind": "inverse", "v": s} for s in (inv if tier != "quick" else inv[::3])]
    for g in range(16):
        C.append({"id": "expressions %d/16" % g, "kind": "expr", "g": g, "depth": 2 if tier == "quick" else 3})
    C.append({"id": "mixture choice", "kind": "choice"})
    C.append({"id": "discrete steps", "kind": "steps"})
    return C


def tup(s):
    return tuple(tup(x) for x in s) if isinstance(s, (list, tuple)) else s


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    globals()[case["kind"]](case, R)


def in_support(V, x, tol=1e-9):
    x = np.asarray(x, float)
    ok = ~np.isnan(x)
    if V.atoms and abs(sum(V.atoms.values()) - 1) < 1e-9:
        ks = np.array(sorted(V.atoms))
        d = np.min(np.abs(x[..., None] - ks), axis=-1)
        return ok & (d <= 1e-12 * (1 + np.abs(x)))
    m = lambda t: tol * max(1.0, abs(t)) if np.isfinite(t) else 0.0
    return ok & (x >= V.a - m(V.a)) & (x <= V.b + m(V.b))


def shape(R, what, x, n):
    if n is None:
        R.true("shape", np.ndim(x) == 0, "%s: a single draw has shape %s" % (what, np.shape(x)))
    else:
        R.true("shape", np.shape(x) == (n,), "%s: %s draws have shape %s" % (what, n, np.shape(x)))
    return np.ndim(x) == (0 if n is None else 1)


def compare(R, asp, what, V, x, tol):
    """empirical distribution against the law at all special points"""
    x = np.sort(np.asarray(x, float))
    n = float(len(x))
    for t in V.pts:
        e = 1e-7 * max(1.0, abs(t))
        if t in V.atoms or any(abs(t - b) < 1e-9 for b in V.brk):
            for s, r in ((t - e, V.cdf(t - e)), (t + e, V.cdf(t + e))):
                R.close(asp, np.searchsorted(x, s, side="right") / n, r, tol, "%s: share of draws below %r" % (what, s))
        else:
            R.close(asp, np.searchsorted(x, t, side="right") / n, V.cdf(t), tol, "%s: share of draws below %r" % (what, t))
    R.evals += len(V.pts)


def law(case, R):
    spec = tup(case["v"])
    V = var(spec)
    n = 2 ** NB
    slow = spec[0] in ("fun", "pd", "cond") or spec[1] in ("TrapezoidalDistr", "MollifierDistr")
    with controlled() as S:
        X = V.build()
        S.reset()
        x = X.rand(n)
        R.true("source", S.calls > 0 or len(V.atoms) == 1 or V.a == V.b or spec[0] != "std", case["id"] + ": the sampler does not use numpy.random")
        R.seen(S.calls)
        R.states += n
        R.transitions += n * max(S.calls, 1)
        R.traces += 1
        if shape(R, case["id"], x, n):
            ok = in_support(V, x, 5e-3 if slow else 1e-9)
            R.true("support", ok.all(), "%s: draw %r outside of the support" % (case["id"], np.asarray(x)[~ok][:3]))
            cnt = S.calls
            compare(R, "law", case["id"], V, x, 2e-3 if cnt <= 2 and spec[0] == 'std' else 4e-3 if cnt <= 2 and '|' not in str(spec[1]) else 1.2e-2)
        # raw draws
        if hasattr(X, "rand_raw") and spec[0] != "pd" and type(X).rand_raw is not None:
            S.reset()
            y = X.rand_raw(n)
            if y is not None:
                R.same("raw", np.shape(y), (n,), case["id"] + " rand_raw")
                if spec[0] == "std":
                    R.same("raw values", bool(np.array_equal(np.asarray(x), np.asarray(y))), True, case["id"] + ": rand and rand_raw differ on the same source")
        # sizes
        for k in (0, 1, 2, 7):
            S.reset()
            y = X.rand(k)
            shape(R, case["id"], y, k)
        # single draws, over the first values of the net and the extreme ones
        m = 32 if slow else 128
        z = []
        for i in range(m):
            S.reset()
            S.pos = i
            y = X.rand(None) if i % 2 else X.rand()
            if not shape(R, case["id"], y, None):
                break
            z.append(float(y))
        R.states += len(z)
        if len(z) == m:
            compare(R, "law of single draws", case["id"], V, z, (3.5 if cnt <= 2 and spec[0] != 'cond' and '|' not in str(spec[1]) else 8.0) / m)
        lo, hi = 2.0 ** -53, 1 - 2.0 ** -53
        zero = "X" in str(spec[1])          # a draw of exactly zero has no reciprocal and no sign
        cum = [float(V.cdf(k)) for k in sorted(V.atoms)] + [float(V.cdfm(k)) for k in sorted(V.atoms)]
        cum = sorted(set(min(max(c + d, 0.0), hi) for c in cum for d in (-1e-15, 0.0, 1e-15)))
        for u in ([lo if zero else 0.0, hi] if slow else [lo if zero else 0.0, lo, 1e-9, 0.4999, 1 - 1e-9, hi]) + ([] if zero else cum):
            for w in ((u, 0.37), (u, u)) if slow else ((u, 0.37), (0.37, u), (u, u), (u, hi), (hi, u), (lo, u)):
                for k in (None, 3):
                    S.reset(list(w))
                    y = X.rand(k)
                    R.states += 1
                    if np.ndim(y) == (0 if k is None else 1) and not in_support(V, y, 5e-3 * (1 + V.b - V.a if np.isfinite(V.b - V.a) else 1) if slow else 1e-7).all():
                        R.fail("support", "%s: source values %r give the draw %r outside of the support" % (case["id"], w, y))
                        return


def is_op(X):
    from pacal.distr import OpDistr
    return isinstance(X, OpDistr)


def inverse(case, R):
    """inverse transform sampling, pointwise: the draw for source value u is a quantile of u"""
    from mc.p06 import valid
    V = var(tup(case["v"]))
    X = V.build()
    us = sorted(set([0.001, 0.01, 0.02, 0.98, 0.99, 0.999] + [i / 64.0 + 1 / 128.0 for i in range(64)]))
    with controlled() as S:
        for how in ("interpolated", "exact"):
            f = {"interpolated": lambda n: X.rand_invcdf(n), "exact": lambda n: X.rand_invcdf(n, use_interpolated=False)}[how]
            tol = (1e-4 if ": " not in V.name and "|" not in V.name else 5e-3) if how == "interpolated" else 2 * V.tol + 1e-6
            S.reset([np.array(us)])
            x = f(len(us))
            R.states += len(us)
            R.evals += len(us)
            R.same("inverse shape", np.shape(x), (len(us),), "%s, %s" % (case["id"], how))
            for u, y in zip(us, np.ravel(x)):
                if not valid(V, u, float(y), tol):
                    R.fail("inverse", "%s, %s: source value %r gives %r, P(X<=y) = %r" % (case["id"], how, u, y, V.cdf(float(y))))
                    break
            for u in (0.25, 0.875):
                S.reset([u])
                y = f(None)
                R.same("inverse shape", np.ndim(y), 0, "%s, %s: single draw" % (case["id"], how))
                R.true("inverse", valid(V, u, float(y), tol), "%s, %s: single draw at %r is %r" % (case["id"], how, u, y))
    R.traces += 1


# ------------------------------------------------------------------ expressions
def grammar(depth):
    """expressions over x, y (uniform on [1/2, 2], shared) as nested tuples"""
    UN = ["neg", "inv", "abs", "sq", "cube", "root", "exp", "log", "atan", "tanh", "sig", "sin", "cos", "tan", "sign", "+2", "3-", "*2", "/4", "2/", "2**", "min1", "1max"]
    BI = ["+", "-", "*", "/", "min", "max"]
    leaves = ["x", "y", "d"]
    e1 = [(u, l) for u in UN for l in ("x", "d")] + [(b, l, r) for b in BI for l in leaves for r in leaves]
    if depth == 1:
        return e1
    sub = [(u, "x") for u in UN] + [(b, "x", "y") for b in BI] + [("+", "x", "x"), ("-", "x", "d"), ("*", "d", "d")]
    e2 = [(u, s) for u in UN for s in sub] + [(b, s, l) for b in BI for s in sub for l in ("x", "y", "d")] + [(b, s, t) for b in BI for s in sub[::3] for t in sub[1::3]]
    if depth == 2:
        return e1 + e2
    e3 = [(b, s, t) for b in BI for s in sub for t in sub] + [(u, (b, s, "y")) for u in UN for b in BI for s in sub]
    return e1 + e2 + e3


def ev(e, env, lib):
    """value of an expression, either on the library's variables or on numbers"""
    import pacal as P
    if isinstance(e, str):
        return env[e]
    a = [ev(t, env, lib) for t in e[1:]]
    o = e[0]
    if len(a) == 2:
        x, y = a
        if o == "min": v = P.min(x, y) if lib else np.minimum(x, y)
        elif o == "max": v = P.max(x, y) if lib else np.maximum(x, y)
        else: v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[o]()
    else:
        x, = a
        m = P if lib else np
        v = {"neg": lambda: -x, "inv": lambda: 1 / x, "abs": lambda: abs(x), "sq": lambda: x ** 2, "cube": lambda: x ** 3, "root": lambda: m.sqrt(x), "exp": lambda: m.exp(x), "log": lambda: m.log(x),
             "atan": lambda: P.atan(x) if lib else np.arctan(x), "tanh": lambda: m.tanh(x), "sig": lambda: P.sigmoid(x) if lib else 1 / (1 + np.exp(-x)), "sin": lambda: m.sin(x), "cos": lambda: m.cos(x),
             "tan": lambda: m.tan(x), "sign": lambda: m.sign(x), "+2": lambda: x + 2, "3-": lambda: 3 - x, "*2": lambda: x * 2, "/4": lambda: x / 4, "2/": lambda: 2 / x, "2**": lambda: 2 ** x,
             "min1": lambda: P.min(x, 1) if lib else np.minimum(x, 1), "1max": lambda: P.max(1, x) if lib else np.maximum(1, x)}[o]()
    if lib and env.get("track") is not None:
        for t in nodes(v):
            t.indep = not env["track"]
    return v


def nodes(v, seen=None):
    seen = {} if seen is None else seen
    if id(v) not in seen:
        seen[id(v)] = v
        for p in list(v.parents) + [q for q in (getattr(v, "d", None), getattr(v, "d1", None), getattr(v, "d2", None)) if hasattr(q, "parents")]:
            nodes(p, seen)
    return list(seen.values())


def legal(e, x, y, d):
    """is the expression defined and well conditioned on all draws?"""
    with np.errstate(all="ignore"):
        v = {"x": x, "y": y, "d": d}
        ok = [True]
        def go(e):
            if isinstance(e, str): return v[e]
            a = [go(t) for t in e[1:]]
            r = ev((e[0],) + tuple("pq"[:len(a)]), dict(zip("pq", a)), False)
            if e[0] in ("log", "root", "inv", "2/") and np.any(a[0] <= 1e-6): ok[0] = False
            if e[0] == "/" and np.any(np.abs(a[1]) <= 1e-6): ok[0] = False
            if e[0] == "tan" and (np.min(a[0]) < -1.5 or np.max(a[0]) > 1.5): ok[0] = False
            if e[0] == "sin" and (np.min(a[0]) < -1.57 or np.max(a[0]) > 4.71): ok[0] = False
            if e[0] == "cos" and (np.min(a[0]) < 0 or np.max(a[0]) > 6.28): ok[0] = False
            if e[0] == "cube" and (np.any(a[0] <= 0) or "-" in str(e[1])): ok[0] = False
            if e[0] in ("exp", "2**") and np.max(np.abs(a[0])) > 300: ok[0] = False
            if not np.all(np.isfinite(r)): ok[0] = False
            return r
        go(e)
        return ok[0]


def expr(case, R):
    import pacal as P
    todo = grammar(case["depth"])[case["g"]::16]
    n = 64
    lo = np.linspace(0.5, 2, 9)
    gx, gy, gd = [t.ravel() for t in np.meshgrid(lo, lo, np.array([1.0, 2.0]))]
    with controlled() as S:
        for e in todo:
            if not legal(e, gx, gy, gd):
                continue
            mk = lambda track: {"x": P.UniformDistr(0.5, 2), "y": P.UniformDistr(0.5, 2), "d": P.DiscreteDistr([1.0, 2.0], [0.5, 0.5]), "track": track}
            for track in (True, False):
                env = mk(track)
                try:
                    Z = ev(e, env, True)
                except Exception as ex:
                    R.fail("expression", "%s cannot be built: %s: %s" % (name(e), type(ex).__name__, ex))
                    break
                if isinstance(e, str):
                    continue
                env["x"].indep = env["y"].indep = env["d"].indep = not track
                R.states += 1
                R.seen(e[0] if len(e) == 2 else (e[0], isinstance(e[1], str), isinstance(e[2], str)))
                for k in ((n, 1) if track else (n,)):
                    S.reset()
                    cache = {}
                    z = Z.rand(k, cache)
                    if np.shape(z) != (k,):
                        R.fail("shape", "%s: %d draws have shape %s" % (name(e), k, np.shape(z)))
                        continue
                    if track:
                        v = dict((l, env[l].rand(k, cache)) for l in "xyd")
                        want = ev(e, v, False)
                        R.close("tracking", z, want, 1e-12 * (1 + np.abs(want)), "%s: draw against the expression of the operands' draws" % name(e))
                        R.transitions += k
                    else:
                        # every occurrence draws anew: request j of the source feeds occurrence j
                        want = independent(e, k)
                        R.close("independent", np.sort(z), np.sort(want), 1e-12 * (1 + np.abs(np.sort(want))), "%s: draws against the expression of independent draws" % name(e)) if want is not None else None
                        R.transitions += k
                # single draw
                S.reset()
                S.pos = 5
                cache = {}
                z = Z.rand(None, cache)
                if not shape(R, name(e), z, None):
                    continue
                if track:
                    v = dict((l, env[l].rand(None, cache)) for l in "xyd")
                    want = ev(e, v, False)
                    R.close("tracking", float(z), float(want), 1e-12 * (1 + abs(want)), "%s: single draw against the expression of the operands' draws" % name(e))


def independent(e, k):
    """occurrences answered in the order of evaluation, left to right: only for expressions where the order cannot matter"""
    cnt = [0]
    def go(e):
        if isinstance(e, str):
            u = Source.net[np.arange(k), cnt[0] % 8]
            cnt[0] += 1
            return np.where(u < 0.5, 1.0, 2.0) if e == "d" else 0.5 + 1.5 * u
        return ev((e[0],) + tuple("pq"[:len(e) - 1]), dict(zip("pq", [go(t) for t in e[1:]])), False)
    def leaves(e): return 1 if isinstance(e, str) else sum(leaves(t) for t in e[1:])
    if leaves(e) > 1:
        return None
    return go(e)


def choice(case, R):
    """the component of a mixture is chosen with its probability, for every probability vector of a grid"""
    import pacal as P
    n = 2 ** NB
    with controlled() as S:
        for m in (1, 2, 3, 4):
            for w in itertools.product(range(0, 5), repeat=m):
                if sum(w) != 4 or (m == 4 and max(w) > 2):
                    continue
                p = [t / 4.0 for t in w]
                X = P.MixDistr(p, [P.ConstDistr(float(i)) if i % 2 else P.UniformDistr(i - 0.25, i + 0.25) for i in range(m)])
                S.reset()
                x = np.round(np.asarray(X.rand(n), float)).astype(int)
                R.states += n
                got = np.bincount(x, minlength=m) / float(n)
                R.close("choice", got, np.array(p), 1e-3, "shares of the components of a mixture with probabilities %s" % p)
                R.evals += 1
                ones = []
                for i in range(128):
                    S.reset()
                    S.pos = i
                    ones.append(int(round(float(X.rand(None)))))
                R.close("choice of single draws", np.bincount(ones, minlength=m) / 128.0, np.array(p), 0.02, "single draws of a mixture with probabilities %s" % p)


def steps(case, R):
    """discrete laws: the draw as a function of the source value is the quantile step function"""
    import pacal as P
    with controlled() as S:
        for m in (1, 2, 3, 4, 5):
            for w in itertools.product(range(0, 4), repeat=m):
                if sum(w) == 0 or m == 5 and sum(w) != 7 or m == 4 and sum(w) % 3:
                    continue
                p = np.array(w, float) / sum(w)
                xs = [(-1) ** i * (i + 0.5) for i in range(m)]
                X = P.DiscreteDistr(xs, list(p))
                S.reset()
                n = 1024
                x = np.asarray(X.rand(n), float)
                R.states += n
                R.close("steps", np.array([np.mean(x == t) for t in xs]), p, 3.0 / n, "shares of the values of Discrete(%s, %s)" % (xs, list(p)))
                for u in [0.0, 2.0 ** -53, 1 - 2.0 ** -53] + [t for c in np.cumsum(sorted(p)) for t in (c - 1e-16, c)]:
                    S.reset([float(min(max(u, 0.0), 1 - 2.0 ** -53))])
                    for k in (None, 2):
                        y = X.rand(k)
                        R.evals += 1
                        if not np.all(np.isin(y, xs)):
                            R.fail("steps", "Discrete(%s, %s): source value %r gives %r" % (xs, list(p), u, y))
                            return
