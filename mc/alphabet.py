"""Variables with an exact distribution function, shared by several checks: base laws, mixtures of uniform pieces and atoms,
discrete variables, functions of a variable, and pairs combined by an operation."""
import numpy as np
from mc import laws as L
from mc import p02, p04
from mc import bounded as B

DISC = {
    "Bin3": ("BinomialDistr(3,0.4)", {0: 0.216, 1: 0.432, 2: 0.288, 3: 0.064}),
    "BinH": ("BinomialDistr(2,0.5)", {0: 0.25, 1: 0.5, 2: 0.25}),
    "Die": ("DiscreteDistr([1,2,3,4,5,6],[1/6.]*6)", {k: 1 / 6. for k in range(1, 7)}),
    "Dneg": ("DiscreteDistr([-2.5,0,1.5,7],[0.125,0.375,0.25,0.25])", {-2.5: 0.125, 0: 0.375, 1.5: 0.25, 7: 0.25}),
    "Ber": ("BernoulliDistr(0.25)", {0: 0.75, 1: 0.25}),
    "Two": ("ConstDistr(2)", {2: 1.0}),
    "Dsum": ("DiscreteDistr([1,2],[0.5,0.5])+DiscreteDistr([1,2,4],[0.25,0.25,0.5])", {2: .125, 3: .25, 4: .125, 5: .25, 6: .25}),
}


class Var(object):
    """cdf(x), cdfm(x) (left limit), atoms {x: p}, brk (special points, finite), q (interior points), a, b support, tol"""
    def __init__(self, name):
        self.name = name
        self.tol = 2e-7
        self.atoms = {}
        if ": " in name:
            v, f = name.split(": ")
            fs = [f]
            X = p04.Ref(v)
            at = p04.image_atoms(X, fs)
            self.atoms = at
            fw = lambda x: p04.fwd(fs, x)
            self.brk = sorted(set(y for y in [fw(x) for x in X.brk + X.atoms] if y is not None) | set(at))
            self.q = sorted(set(y for y in [fw(x) for x in X.q] if y is not None))
            INF = np.inf
            def cdf(t, s=1):
                c = X.cont(p04.preimage(fs, [((-INF, -1), (t, 1))], False))
                return c + sum(m for k, m in at.items() if (k <= t if s > 0 else k < t))
            self.cdf, self.cdfm = cdf, lambda t: cdf(t, -1)
            self.tol = (1e-4 if v == "Semi" and f[:3] in ("max", "min") else 4e-6) + p04.resolution(X, fs)
            self.build = lambda: p04.build(p04.impl(v), fs)
        elif "|" in name:                    # pair "u01|+|gap"
            x, op, y = name.split("|")
            X, Y = p02.model(x), p02.model(y)
            r = B.Res(op, X, Y)
            self.atoms = dict((float(k), m) for k, m in r.atoms.items() if m > 0)
            self.brk = [float(b) for b in r.breaks()]
            self.q = [lo + (hi - lo) * t for lo, hi in zip(self.brk, self.brk[1:]) if hi - lo > 1e-9 for t in (0.07, 0.5, 0.83)]
            self.cdf = lambda t: float(r.cdf(np.array([t]))[0]) if np.isfinite(t) else float(t > 0)
            self.cdfm = lambda t: float(r.cdf_left(np.array([t]))[0]) if np.isfinite(t) else float(t > 0)
            self.build = lambda: p02.lib(op, p02.impl(x), p02.impl(y))
        elif name in DISC:
            e, at = DISC[name]
            self.atoms = dict((float(k), p) for k, p in at.items())
            self.brk = sorted(self.atoms)
            self.q = [(x + y) / 2 for x, y in zip(self.brk, self.brk[1:])]
            self.cdf = lambda t: sum(p for k, p in sorted(self.atoms.items()) if k <= t)
            self.cdfm = lambda t: sum(p for k, p in sorted(self.atoms.items()) if k < t)
            def build():
                import pacal as P
                return eval(e, dict(P.__dict__))
            self.build = build
        else:
            X = p04.Ref(name)
            self.cdf, self.cdfm = X.cdf, X.cdfm
            self.atoms = dict(X.mass)
            self.brk = sorted(set(X.brk) | set(X.atoms))
            self.q = sorted(X.q)
            self.build = lambda: p04.impl(name)
            if name in ("Bhh", "Semi"):
                self.tol = 2e-6
        self._expect_args()
        cand = set(self.brk)
        for f in self.fs:
            for p in p04.F[f]:
                for c in (p[2] or ()):
                    if np.isfinite(c[0]):
                        cand.add(float(c[0]))
        self.a = max([c for c in cand if self.cdfm(c) < 1e-12] or [-np.inf])
        self.b = min([c for c in cand if self.cdf(c) > 1 - 1e-12] or [np.inf])
        pts = sorted(set(self.brk) | set(self.q))
        self.span = (pts[-1] - pts[0]) or 1.0
        self.pts = pts


    def _expect_args(self):
        n = self.name
        self.fs = []
        if "|" in n:
            self.kind = "pair"
            x, op, y = n.split("|")
            self.res = B.Res(op, p02.model(x), p02.model(y))
        else:
            self.kind = "disc" if n in DISC else "func"
            v = n
            if ": " in n:
                v, f = n.split(": ")
                self.fs = [f]
            self.v = v
    def alpha(self):
        """tail index: E|X|^k is finite exactly for k < alpha (power tails; inf for light tails)"""
        out = np.inf
        if np.isfinite(self.a) and np.isfinite(self.b):
            return np.inf
        light = self.kind == "func" and self.v not in ("Cau", "Cau2", "T3", "Par", "Lev", "LLog", "F35")
        if light and (not self.fs or self.fs[0] not in ("1/X", "-2/X", "X**-1", "X**-2", "X**-0.5", "exp(X)", "2**X", "0.5**X", "tan(X)")):
            return np.inf                    # stretched exponential tails look like powers
        s = max(1.0, min(self.span, 30.0), 3 * float(np.median(np.abs(self.pts))))
        for sg in (1, -1):
            S = []
            for t in (30 * s, 100 * s):
                S.append(1 - self.cdf(t) if sg > 0 else self.cdf(-t))
            if S[1] > 1e-14 and S[0] > 0:
                a = np.log(S[0] / S[1]) / np.log(100 / 30.)
                out = min(out, round(a * 4) / 4. if abs(a * 4 - round(a * 4)) < 0.3 else a) if a < 6 else out
        return out
    @np.errstate(all="ignore")
    def expect(self, h, kinks=()):
        """E h(X) for h smooth except at kinks, by tanh-sinh quadrature between all special points"""
        if self.kind == "disc":
            return float(sum(p * h(np.array([k]))[0] for k, p in self.atoms.items()))
        if self.kind == "pair":
            tot = sum(p * float(h(np.array([k]))[0]) for k, p in self.atoms.items())
            ks = sorted(set(self.brk) | set(k for k in kinks))
            for lo, hi in zip(ks, ks[1:]):
                tot += _ts_int(lambda z: h(z) * self.res.pdf(z), lo, hi)
            lo, hi = self.res.unbounded()
            if hi:
                c = ks[-1] - 1
                tot += _ts_int(lambda u: h(c + 1 / u) * self.res.pdf(c + 1 / u) / u ** 2, 0, 1)
            if lo:
                c = ks[0] + 1
                tot += _ts_int(lambda u: h(c - 1 / u) * self.res.pdf(c - 1 / u) / u ** 2, 0, 1)
            return tot
        f = self.fs
        def g(x):
            for n in f:
                y = np.full_like(x, np.nan)
                for p in p04.F[n]:
                    (l, ls), (r, rs) = p[1]
                    m = (x > l) & (x < r)
                    if ls < 0: m |= x == l
                    if rs > 0: m |= x == r
                    y = np.where(m, (_sigv if n == "sigmoid(X)" else p[4])(np.where(m, x, (max(l, -1e9) + min(r, 1e9)) / 2)), y)
                x = y
            return x
        # cuts of the domains and preimages of the kinks
        ks = set()
        for n in f:
            for p in p04.F[n]:
                ks |= set(c[0] for c in p[1])
        for k in kinks:
            for l, r in (p04.preimage(f, [((-np.inf, -1), (k, -1))], False) if f else [((-np.inf, -1), (k, -1))]):
                ks |= {l[0], r[0]}
        ks = [k for k in ks if np.isfinite(k)]
        if self.v in L.DEFS:
            return L.integrate_q(L.law(self.v), lambda x: h(g(x)), ks)
        m = B.Mix(*(p02.V.get(self.v) or p04.EXTRA.get(self.v)))
        ks += m.breaks()
        tot = sum(p * float(h(g(np.array([k])))[0]) for k, p in m.atoms.items())
        for w, a, b in m.uni:
            kk = [a] + sorted(k for k in set(ks) | {0.0} if a < k < b) + [b]
            for lo, hi in zip(kk, kk[1:]):
                tot += w / (b - a) * _ts_int(lambda x: h(g(x)), lo, hi)
        return tot


def _sigv(x):
    return 1.0 / (1.0 + np.exp(-x))


def _ts_int(f, lo, hi):
    if not hi > lo:
        return 0.0
    w = hi - lo
    x = np.where(L.TS_T < 0.5, lo + w * L.TS_T, hi - w * L.TS_C)
    v = f(x)
    return w * float(np.sum(L.TS_W * np.where(np.isfinite(v), v, 0.0)))


BASE = list(L.DEFS)
MIXED = list(p02.V) + list(p04.EXTRA)
DISCRETE = list(DISC)
FUNCS = ["1-X", "X*-0.5", "1/X", "abs(X)", "X**2", "exp(X)", "log(X)", "sqrt(X)", "atan(X)", "max(X,0.5)", "min(0.5,X)", "sign(X)", "X*100"]


def derived(vs=("N1h", "Exp2", "Lap", "U12", "u01", "um11", "gap", "a0", "ain", "aout", "pm", "Par", "Chi1"), fs=FUNCS):
    out = []
    for v in vs:
        X = p04.Ref(v)
        for f in fs:
            if p04.legal(X, [f]) and p04.resolution(X, [f]) < 1e-8 and p04.big_ok(X, [f]):
                out.append("%s: %s" % (v, f))
    return out


PAIRS = ["%s|%s|%s" % (x, o, y) for x in ("u01", "a0", "ain", "gap", "um11", "pm") for y in ("um12", "aend", "gap", "bern", "u12")
         for o in ("+", "-", "*", "/", "min", "max") if not (o == "/" and y == "bern")]
