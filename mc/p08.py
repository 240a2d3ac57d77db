"""P08: conditioning on intervals and mixing, against the exact restricted and averaged laws."""
import itertools
import numpy as np
from mc import alphabet as A

LEVEL = "model_checking"
RULE = ("states are (variable, open interval the variable is conditioned on); transitions condition on X>t, X<t or s<X<t for every threshold of a grid "
        "made of all atoms, breakpoints, points just inside and between them and points outside the support; every state with positive probability "
        "reachable in one step (two steps over a smaller grid, three at the thorough tier) is built on the library and its atoms, mass, distribution "
        "function, density ratio and quantiles are compared with the original law restricted and renormalised; the parts recombine to the "
        "original law by total probability; mixtures of every pair (triples over a smaller alphabet) with several weights are compared with the "
        "weighted average")
ASSUMPTIONS = ["conditions are strict inequalities, as documented by Gt, Lt and Between", "events of probability below 1e-3 are not conditioned on"]
CPU_LIMIT = 240
NEST = ["N01", "Exp2", "Chi1", "Cau", "Bhh", "u01", "gap", "step", "a0", "ain", "aend", "aout", "pm", "Dneg", "Die"]
CONDV = A.BASE + A.MIXED + A.DISCRETE
DER = ["N1h: abs(X)", "Exp2: X**2", "U12: 1/X", "um11: X**2", "a0: 1-X", "ain: abs(X)", "pm: X*-0.5", "gap: sqrt(X)", "u01|+|um12", "ain|*|aend", "gap|-|gap", "u01|/|u12", "a0|max|um12", "pm|+|bern"]
MIXV = ["N01", "N1h", "Exp", "mExp", "Cau", "Chi1", "B23", "Bhh", "u01", "um12", "gap", "a0", "ain", "aout", "pm", "Die", "Two", "Lap", "Par"]
MIX3 = ["N01", "Exp", "gap", "a0", "ain", "Die", "B23"]
W2 = [(0.5, 0.5), (0.125, 0.875), (0.9, 0.1)]
INF = np.inf


def cases(tier):
    out = []
    for v in CONDV + DER + ([] if tier == "quick" else A.PAIRS + A.derived()):
        out.append({"id": "cond " + v, "kind": "cond", "v": v, "dense": tier != "quick"})
    for v in NEST:
        out.append({"id": "nest " + v, "kind": "nest", "v": v, "depth": 2 if tier == "quick" else 3})
    for x in MIXV:
        out.append({"id": "mix " + x, "kind": "mix2", "x": x, "w": W2[:2] if tier == "quick" else W2})
    for x, y in itertools.product(MIX3, MIX3):
        out.append({"id": "mix %s %s *" % (x, y), "kind": "mix3", "x": x, "y": y})
    seen = set()
    return [c for c in out if not (c["id"] in seen or seen.add(c["id"]))]


def run(case, R):
    {"cond": cond, "nest": nest, "mix2": mix2, "mix3": mix3}[case["kind"]](case, R)


def thresholds(V, dense=True):
    t = set(V.brk) | set(V.atoms)
    k = sorted(V.pts)
    if dense:
        t |= set(V.q)
    else:
        t |= set(k[::3])
    br = sorted(set(V.brk) | set(V.atoms))
    for lo, hi in zip(br, br[1:]):
        t.add(lo + (hi - lo) * 0.375)
    if len(br) and np.isfinite(br[0]):
        t |= {br[0] - V.span, br[-1] + V.span}
    # a finite piece reaching far into a heavy tail, or cut very near a pole, is beyond the accuracy of one Chebyshev piece
    if V.alpha() < 2.5 or V.name in ("Chi1", "Bhh", "Lev", "Semi", "Arc") or ":" in V.name or "|" in V.name:
        t = {x for x in t if 0.03 <= V.cdf(x) <= 0.97 or x in V.brk or x < V.a or x > V.b}
    return sorted(x for x in t if np.isfinite(x))


class Cond(object):
    """law of V given l < X < u"""
    def __init__(self, V, l, u):
        self.V, self.l, self.u = V, l, u
        self.c0 = V.cdf(l) if np.isfinite(l) else 0.0
        self.c1 = V.cdfm(u) if np.isfinite(u) else 1.0
        self.p = self.c1 - self.c0
        self.atoms = {k: m / self.p for k, m in V.atoms.items() if l < k < u} if self.p > 0 else {}
    def cdf(self, x):
        return 0.0 if x <= self.l else 1.0 if x >= self.u else (self.V.cdf(x) - self.c0) / self.p
    def cdfm(self, x):
        return 0.0 if x <= self.l else 1.0 if x >= self.u else (self.V.cdfm(x) - self.c0) / self.p


def grid(V, extra=()):
    pts = sorted(set(V.pts) | set(extra))
    e = lambda x: 1e-6 * max(1.0, abs(x))
    out = [pts[0] - 2 * V.span, pts[-1] + 2 * V.span]
    for x, y in zip(pts, pts[1:]):
        out.append((x + y) / 2)
    for x in set(V.brk) | set(extra):
        out += [x - e(x), x + e(x)]
    at = list(V.atoms)
    return np.array(sorted(set(x for x in out if np.isfinite(x) and not any(abs(x - k) < 0.5 * e(k) for k in at))))


def compare(R, asp, what, X, law, pts, tol):
    R.traces += 1
    want = np.array([law.cdf(x) for x in pts])
    R.seen([round(float(c), 5) for c in want])
    PW = X.get_piecewise_pdf()
    got = X.cdf(pts)
    ok = R.close(asp + " cdf", got, want, tol, what + " cdf")
    ok = R.close(asp + " mass", float(PW.integrate()), 1.0, tol, what + " total mass") and ok
    at = sorted((float(s.a), float(s.f)) for s in PW.getDiracs() if abs(s.f) > 1e-9)
    ex = sorted((k, m) for k, m in law.atoms.items() if m > 1e-9)
    if len(at) != len(ex) or any(abs(a[0] - b[0]) > 1e-9 * max(1, abs(b[0])) or abs(a[1] - b[1]) > tol for a, b in zip(at, ex)):
        R.fail(asp + " atoms", "%s: point masses %s, expected %s" % (what, at[:8], ex[:8]))
        ok = False
    R.evals += len(ex)
    return ok


def condition(X, l, u):
    import pacal as P
    if not np.isfinite(u):
        return X | P.Gt(l)
    if not np.isfinite(l):
        return X | P.Lt(u)
    return X | P.Between(l, u)


def vtol(V, p):
    t = max(V.tol, 4e-6) * 4
    if V.name in ("Bhh", "Semi"):
        t = 4e-4
    elif ":" in V.name:
        t = 1e-3 if "X**2" in V.name else 2e-4
    return t / p


def cond(case, R):
    import pacal as P
    V = A.Var(case["v"])
    X = V.build()
    n = case["v"]
    T = thresholds(V, case["dense"])
    R.states += 1
    pts0 = grid(V)
    ev = [(t, INF) for t in T] + [(-INF, t) for t in T] + list(itertools.combinations(T, 2))
    if not case["dense"] and len(ev) > 60:
        ev = ev[:2 * len(T)] + ev[2 * len(T)::max(1, (len(ev) - 2 * len(T)) // 45)]
    for l, u in ev:
        law = Cond(V, l, u)
        if law.p < 1e-3:
            continue
        R.states += 1
        R.transitions += 1
        what = "%s given %g<X<%g" % (n, l, u)
        Y = condition(X, l, u)
        pts = np.array(sorted(set(pts0) | {x for x in ((l + min(u, l + V.span)) / 2 if np.isfinite(l) else u - 0.3 * V.span,) if not any(abs(x - k) < 1e-7 for k in V.atoms)}))
        tol = vtol(V, law.p)
        compare(R, "cond", what, Y, law, pts, tol)
        r = Y.range()
        R.true("cond range", law.cdfm(float(r[0])) <= tol and law.cdf(float(r[1])) >= 1 - tol, "%s: range %r" % (what, r))
        for p in (0.1, 0.5, 0.8):
            q = float(Y.quantile(p))
            e = 1e-8 * max(1.0, abs(q))
            R.true("cond quantile", law.cdfm(q - e) <= p + 2 * tol and law.cdf(q + e) >= p - 2 * tol, "%s: quantile(%g)=%r" % (what, p, q))
        mid = [x for x in pts if l < x < u and all(abs(x - b) > 1e-5 * max(1, abs(b)) for b in list(V.brk) + [l, u])][::3]
        if mid:
            f0 = np.asarray(X.pdf(np.array(mid)), float)
            f1 = np.asarray(Y.pdf(np.array(mid)), float)
            if V.name not in ("Bhh", "Semi", "Chi1", "Lev") and "|" not in n and ":" not in n:
                R.close("cond density", f1 * law.p, f0, 1e-5 * max(1e-3, float(np.max(f0))) + 1e-7, what + " density times probability")
        out = [x for x in pts if x < l or x > u]
        if out:
            R.close("cond density outside", np.asarray(Y.pdf(np.array(out)), float), np.zeros(len(out)), 0, what + " density outside")
        R.sample = what + " mean %r" % (float(Y.mean()),)
    # the whole support changes nothing
    lo = (V.a if np.isfinite(V.a) else min(V.pts)) - 10 * V.span - 1
    hi = (V.b if np.isfinite(V.b) else max(V.pts)) + 10 * V.span + 1
    if np.isfinite(V.a) and np.isfinite(V.b):
        compare(R, "whole support", "%s given the whole support" % n, condition(X, lo, hi), V, pts0, vtol(V, 1))
    # total probability
    for t in T[1:-1][::2] + T[:1]:
        L, U = Cond(V, -INF, t), Cond(V, t, INF)
        if L.p < 1e-3 or U.p < 1e-3:
            continue
        R.transitions += 1
        a = V.atoms.get(t, 0.0)
        ws, ds = [L.p, U.p], [X | P.Lt(t), X | P.Gt(t)]
        if a > 0:
            ws.append(a)
            ds.append(P.ConstDistr(t))
        compare(R, "total probability", "%s recombined at %g" % (n, t), P.MixDistr(ws, ds), V, pts0, 3 * vtol(V, 1))


def nest(case, R):
    V = A.Var(case["v"])
    br = sorted(set(V.brk) | set(V.atoms))
    T = sorted(set(br) | set(V.q[1::3]) | set(br[i] + (br[i + 1] - br[i]) * 0.4 for i in range(len(br) - 1)))
    T = T[:9] if len(T) > 9 else T
    pts = grid(V, T)
    steps = [(t, INF) for t in T] + [(-INF, t) for t in T] + [(T[i], T[j]) for i in range(len(T)) for j in range(i + 2, len(T), 2)]
    done = {}
    front = {(-INF, INF): [((), V.build())]}
    for d in range(case["depth"]):
        new = {}
        for (l0, u0), objs in sorted(front.items()):
            for path, X in objs:
                for l, u in steps:
                    l1, u1 = max(l0, l), min(u0, u)
                    law = Cond(V, l1, u1)
                    if not l1 < u1 or law.p < 0.02:
                        continue
                    # conditioning again needs an event that meets the state
                    if d and Cond(V, l1, u1).p / max(Cond(V, l0, u0).p, 1e-9) < 0.02:
                        continue
                    R.transitions += 1
                    Y = condition(X, l, u)
                    if d:
                        compare(R, "nested", "%s given %s then %g<X<%g" % (case["v"], path, l, u), Y, law, pts, (d + 2) * vtol(V, law.p))
                    if d + 1 < case["depth"] and len(new.get((l1, u1), [])) < 1 and (d == 0 or len(new) < 25):
                        new.setdefault((l1, u1), []).append((path + ((l, u),), Y))
        done.update(dict.fromkeys(new, 1))
        front = new
    R.states += len(done) + 1


class MixLaw(object):
    def __init__(self, ws, Vs):
        self.ws, self.Vs = ws, Vs
        self.atoms = {}
        for w, V in zip(ws, Vs):
            for k, m in V.atoms.items():
                self.atoms[k] = self.atoms.get(k, 0.0) + w * m
    def cdf(self, x): return sum(w * V.cdf(x) for w, V in zip(self.ws, self.Vs))
    def cdfm(self, x): return sum(w * V.cdfm(x) for w, V in zip(self.ws, self.Vs))


def check_mix(R, ws, names, asp="mix"):
    import pacal as P
    Vs = [A.Var(n) for n in names]
    Xs = [V.build() for V in Vs]
    R.states += 1
    R.transitions += len(ws)
    law = MixLaw(ws, Vs)
    M = P.MixDistr(list(ws), Xs)
    what = "mixture %s of %s" % (tuple(ws), tuple(names))
    brk = set(b for V in Vs for b in V.brk)
    pts = sorted(set(x for V in Vs for x in grid(V, [b for b in brk if abs(b) < 1e6])))
    pts = np.array([x for x in pts if not any(abs(x - k) < 5e-7 for k in law.atoms)])
    tol = max(vtol(V, 1) for V in Vs)
    compare(R, asp, what, M, law, pts, tol)
    mid = np.array([x for x in pts if all(abs(x - b) > 1e-5 * max(1, abs(b)) for b in brk)][::2])
    f = sum(w * np.asarray(X.pdf(mid), float) for w, X in zip(ws, Xs))
    R.close(asp + " density", np.asarray(M.pdf(mid), float), f, 1e-9 * max(1.0, float(np.max(f))), what + " density")
    r = M.range()
    R.true(asp + " range", r[0] <= min(V.a for V in Vs) + 1e-9 and r[1] >= max(V.b for V in Vs) - 1e-9, "%s: range %r" % (what, r))
    if all(V.alpha() > 2.5 for V in Vs):
        R.close(asp + " mean", float(M.mean()), sum(w * float(X.mean()) for w, X in zip(ws, Xs)), 1e-5 * max(1, max(V.span for V in Vs)), what + " mean")
    for p in (0.05, 0.5, 0.77):
        q = float(M.quantile(p))
        e = 1e-8 * max(1.0, abs(q))
        R.true(asp + " quantile", law.cdfm(q - e) <= p + 2 * tol and law.cdf(q + e) >= p - 2 * tol, "%s: quantile(%g)=%r" % (what, p, q))
    R.sample = what + ": cdf(0)=%r" % (float(M.cdf(0.0)),)
    return M


def mix2(case, R):
    for y in MIXV:
        for ws in case["w"]:
            check_mix(R, ws, [case["x"], y])


def mix3(case, R):
    for z in MIX3:
        check_mix(R, (0.2, 0.3, 0.5), [case["x"], case["y"], z], "mix3")
