"""P09: algebra on piecewise functions, against a symbolic list of pieces evaluated point by point."""
import itertools
import operator
import numpy as np

LEVEL = "model_checking"
RULE = ("states are piecewise functions (explicit model: sorted open pieces with a callable each, and a map of point masses) reachable from an alphabet of "
        "functions with gaps, jumps, sign changes, end-point poles, infinite tails and point masses, by every binary operation with every "
        "member of the alphabet, every operation with a number on either side, powers, exp, shift-and-scale, splitting, restriction, "
        "interpolation; every path up to the depth bound is replayed on the library and the pieces' order, the point masses and the values (scalar and array calls, "
        "inside every elementary interval, at and outside every break) are compared; integrals and cumulative integrals are compared with reference quadrature; "
        "after every operation the operands are compared with their snapshot")
ASSUMPTIONS = ["points where the divisor is zero or undefined, and values at a pole or at a point mass, are not judged",
               "operations with a number apply where the function has pieces"]
CPU_LIMIT = 240
INF = np.inf


class MF(object):
    """model: pieces (a, b, fn, kind) sorted and disjoint; masses {x: w}; kind in '', 'L' (pole at a), 'R' (pole at b)"""
    def __init__(self, pieces, masses=None, mul=False, sing=False):
        self.pieces = sorted(pieces, key=lambda p: p[0])
        self.masses = dict(masses or {})
    def breaks(self):
        return sorted({x for p in self.pieces for x in p[:2]} | set(self.masses))
    def at(self, x):
        for a, b, fn, k in self.pieces:
            if a < x < b:
                return fn(x)
        return None
    def val(self, x):
        v = self.at(x)
        return 0.0 if v is None else v
    def sides(self, x):
        out = []
        for a, b, fn, k in self.pieces:
            if x == a and k != "L" or x == b and k != "R":
                out.append(fn(x))
        return out
    def pole(self, x):
        return any(x == a and k == "L" or x == b and k == "R" for a, b, fn, k in self.pieces)


def binary(op, F, G):
    B = sorted({x for x in F.breaks() + G.breaks()})
    ps = []
    for a, b in zip(B, B[1:]):
        m = mid(a, b)
        f = next((p for p in F.pieces if p[0] <= a and b <= p[1]), None)
        g = next((p for p in G.pieces if p[0] <= a and b <= p[1]), None)
        if f is None and g is None:
            continue
        k = ""
        for p in (f, g):
            if p is not None:
                if p[3] == "L" and p[0] == a: k += "L"
                if p[3] == "R" and p[1] == b: k += "R"
        k = "".join(sorted(set(k)))
        fn = lambda x, f=f, g=g: op(f[2](x) if f else 0.0, g[2](x) if g else 0.0)
        if k == "LR":
            ps += [(a, m, fn, "L"), (m, b, fn, "R")]
        else:
            ps.append((a, b, fn, k))
    ms = {}
    for x in set(F.masses) | set(G.masses):
        w = op(F.masses.get(x, 0.0), G.masses[x] if x in G.masses else 0.0)
        ms[x] = w
    return MF(ps, ms)


def mid(a, b):
    if a == -INF and b == INF: return 0.0
    return b - 1.0 if a == -INF else a + 1.0 if b == INF else 0.5 * (a + b)


def safe_div(x, y):
    with np.errstate(all="ignore"):
        return float(np.float64(x) / np.float64(y))


BIN = {"+": (operator.add, operator.add), "-": (operator.sub, operator.sub), "*": (operator.mul, operator.mul), "/": (operator.truediv, safe_div)}


def unary(fn, F):
    return MF([(a, b, lambda x, g=g: fn(g(x)), k) for a, b, g, k in F.pieces], {x: fn(w) for x, w in F.masses.items()})


def affine(F, shift, scale):
    ps = []
    for a, b, g, k in F.pieces:
        ends = sorted([a * scale + shift, b * scale + shift])
        ps.append((ends[0], ends[1], lambda x, g=g: abs(1.0 / scale) * g((x - shift) / scale), k if scale > 0 else {"L": "R", "R": "L"}.get(k, "")))
    return MF(ps, {x * scale + shift: w for x, w in F.masses.items()})


def restrict(F, a, b):
    ps = []
    for p, q, g, k in F.pieces:
        l, u = max(p, a), min(q, b)
        if l < u:
            ps.append((l, u, g, ("L" if k == "L" and l == p else "R" if k == "R" and u == q else "")))
    return MF(ps, {x: w for x, w in F.masses.items() if a <= x < b})


def alphabet():
    from math import exp, sqrt, cos
    return {
        "step": MF([(0, 1, lambda x: 1.0, ""), (1, 2, lambda x: 3.0, "")]),
        "gap": MF([(0, 0.5, lambda x: x + 1.0, ""), (1.5, 3, lambda x: 2.0 - x, "")]),
        "dir": MF([], {0.0: 0.5, 1.0: 0.25}),
        "mix": MF([(-1, 0, lambda x: x * x + 1.0, ""), (0, 1, lambda x: x * x + 1.0, "")], {0.0: 0.5}),
        "tail": MF([(-INF, 0, lambda x: exp(min(x, 0)), ""), (0, INF, lambda x: exp(-2 * max(x, 0)), "")]),
        "pole": MF([(0, 1, lambda x: 1.0 / sqrt(x), "L"), (1, 2, lambda x: 0.5, "")]),
        "rpole": MF([(-1, 0, lambda x: 1.0 / sqrt(-x), "R")], {0.0: 0.25, 2.0: 0.125}),
        "half": MF([(1, INF, lambda x: 1.0 / (x * x), "")], {1.0: 0.5, -1.0: 0.75}),
        "bump": MF([(0, 1, lambda x: x * (1.0 - x) + 0.25, "")]),
        "neg": MF([(-2, -1, lambda x: -1.0, ""), (-1, 2, lambda x: x / 2 - 2.0, "")], {2.0: -0.25, -2.0: 0.5}),
        "far": MF([(5, 6, lambda x: 2.0, "")], {5.5e0 + 1: 0.5}),
        "full": MF([(-INF, -1, lambda x: exp(x + 1), ""), (-1, 1, lambda x: 1 + cos(x), ""), (1, INF, lambda x: 1 / (x * x * x), "")]),
    }


NAMES = ["step", "gap", "dir", "mix", "tail", "pole", "rpole", "half", "bump", "neg", "far", "full"]
SMALL = ["gap", "dir", "mix", "tail", "pole", "rpole", "half", "neg"]
NUMS = [2.0, -1.5, 0.25, 3]


def cases(tier):
    out = []
    for x in NAMES:
        out.append({"id": "pairs " + x, "kind": "pairs", "x": x})
        out.append({"id": "unary " + x, "kind": "unary", "x": x})
        out.append({"id": "integrals " + x, "kind": "ints", "x": x})
        out.append({"id": "composition " + x, "kind": "composition", "x": x})
    names = NAMES
    for x, y in itertools.product(names, names):
        out.append({"id": "chain %s %s" % (x, y), "kind": "chain", "x": x, "y": y, "z": names})
    for x in names:
        out.append({"id": "mixed " + x, "kind": "mixed", "x": x, "ys": names})
    out.append({"id": "building", "kind": "building"})
    if tier != "quick":
        for x, y, z in itertools.product(SMALL, SMALL, SMALL):
            out.append({"id": "chain3 %s %s %s" % (x, y, z), "kind": "chain3", "x": x, "y": y, "z": z})
    return out


def run(case, R):
    globals()[case["kind"]](case, R)


def vec(fn):
    def f(x):
        if np.isscalar(x):
            return fn(float(x))
        return np.array([fn(float(t)) for t in np.asarray(x).ravel()], dtype=float).reshape(np.shape(x))
    return f


def build(F, cls=None):
    from pacal import segments as S
    P = (cls or S.PiecewiseDistribution)([])
    for a, b, fn, k in F.pieces:
        f = vec(safe(fn, a, b, k))
        if a == -INF: P.addSegment(S.MInfSegment(b, f))
        elif b == INF: P.addSegment(S.PInfSegment(a, f))
        elif k: P.addSegment(S.SegmentWithPole(a, b, f, left_pole=(k == "L")))
        else: P.addSegment(S.Segment(a, b, f))
    for x, w in sorted(F.masses.items(), reverse=True):
        P.addSegment(S.DiracSegment(x, w))
    return P


def safe(fn, a, b, k):
    def f(x):
        if k == "L" and x <= a or k == "R" and x >= b:
            return np.inf
        return fn(x)
    return f


def points(F, extra=()):
    B = sorted(set(x for x in F.breaks() if np.isfinite(x)) | set(t for t in extra if np.isfinite(t))) or [0.0]
    pts = [B[0] - 0.3, B[0] - 2.0, B[0] - 11.0, B[-1] + 0.4, B[-1] + 3.0, B[-1] + 17.0]
    for a, b in zip(B, B[1:]):
        pts += [a + (b - a) * t for t in (0.11, 0.5, 0.83)]
    return sorted(pts)


def snap(P):
    out = []
    for s in P.segments:
        if s.isDirac():
            out.append(("D", s.a, s.f))
        else:
            out.append((type(s).__name__, s.a, s.b, id(s.f)))
    return out


def compare(R, asp, what, P, F, extra=(), tol=1e-12, poles=True):
    R.transitions += 1
    segs = P.segments
    ok = True
    for s, t in zip(segs, segs[1:]):
        if not (s.b <= t.a and (s.a < t.a or s.b < t.b)):
            R.fail(asp + " order", "%s: pieces %s and %s overlap or are out of order" % (what, s, t))
            ok = False
    for s in segs:
        if not s.isDirac() and not s.a < s.b:
            R.fail(asp + " order", "%s: empty piece %s" % (what, s))
            ok = False
    got = {}
    for s in segs:
        if s.isDirac():
            got[s.a] = got.get(s.a, 0.0) + float(s.f)
    for x in set(got) | set(F.masses):
        w = F.masses.get(x, 0.0)
        if not np.isfinite(w):
            continue
        R.evals += 1
        if not abs(got.get(x, 0.0) - w) <= tol * max(1, abs(w)):
            R.fail(asp + " masses", "%s: mass at %g is %r, expected %r" % (what, x, got.get(x, 0.0), w))
            ok = False
    pts, want = [], []
    for x in points(F, extra):
        if x in got or x in F.masses or F.pole(x):
            continue
        try:
            v = F.val(x)
        except ArithmeticError:
            continue
        if not np.isfinite(v):
            continue
        pts.append(x)
        want.append(v)
    want = np.array(want)
    R.seen([round(float(v), 6) for v in want])
    t = tol * (1 + np.abs(want))
    ok = R.close(asp + " array", np.asarray(P(np.array(pts))), want, t, what + " (array call)") and ok
    sc = [float(P(x)) for x in pts[::2]]
    ok = R.close(asp + " scalar", sc, want[::2], t[::2], what + " (number)") and ok
    for x in F.breaks():
        if not np.isfinite(x) or x in got or x in F.masses or F.pole(x):
            continue
        try:
            side = [v for v in F.sides(x)]
        except ArithmeticError:
            continue
        if not side or not all(np.isfinite(side)):
            continue
        R.evals += 2
        for v in (float(P(x)), float(np.asarray(P(np.array([x])))[0])):
            if not any(abs(v - w) <= tol * (1 + abs(w)) for w in side + [0.0]):
                R.fail(asp + " at break", "%s: value %r at break %g, expected one of %s" % (what, v, x, side))
                ok = False
        if P.getSegments() and x == P.getSegments()[-1].b:
            # right of this end there is no other piece whose value could be meant
            v, u = float(P(x)), float(np.asarray(P(np.array([x, x])))[1])
            if not abs(u - v) <= tol * (1 + abs(v)):
                R.fail(asp + " at the right end", "%s: value at %g is %r for a number, %r for an array" % (what, x, v, u))
                ok = False
    R.traces += 1
    return ok


def judged(op, F, G, M):
    """model of the quotient: pieces with an undefined divisor are not judged"""
    if op == "/":
        M.masses = {x: w if G.masses.get(x) else np.nan for x, w in M.masses.items()}
        ps = []
        for a, b, fn, k in M.pieces:
            ps.append((a, b, (lambda x, fn=fn: fn(x) if G.at(x) not in (None, 0.0) else np.nan), k))
        M.pieces = ps
    return M


def apply2(op, P, Q, F, G):
    return BIN[op][0](P, Q), judged(op, F, G, binary(BIN[op][1], F, G))


def pairs(case, R):
    AL = alphabet()
    F = AL[case["x"]]
    P = build(F)
    for y in NAMES:
        G = AL[y]
        for op in BIN:
            Q = build(G)
            s1, s2 = snap(P), snap(Q)
            C, M = apply2(op, P, Q, F, G)
            R.states += 1
            w = "%s %s %s" % (case["x"], op, y)
            compare(R, "binary " + op, w, C, M, F.breaks() and [b for b in F.breaks() + G.breaks() if np.isfinite(b)])
            R.true("operands", snap(P) == s1 and snap(Q) == s2, "%s changed an operand" % w)
            compare(R, "left operand", w + ": left operand", P, F)
            compare(R, "right operand", w + ": right operand", Q, G)
        # the same object on both sides
        for op in BIN:
            C, M = apply2(op, P, P, F, F)
            compare(R, "self " + op, "%s %s itself" % (case["x"], op), C, M)
            compare(R, "left operand", "%s after %s with itself" % (case["x"], op), P, F)
    R.sample = str(P)


def scalar_ops():
    out = []
    for r in NUMS:
        out += [("f+%g" % r, lambda P, r=r: P + r, lambda v, r=r: v + r),
                ("%g+f" % r, lambda P, r=r: r + P, lambda v, r=r: r + v),
                ("f-%g" % r, lambda P, r=r: P - r, lambda v, r=r: v - r),
                ("%g-f" % r, lambda P, r=r: r - P, lambda v, r=r: r - v),
                ("f*%g" % r, lambda P, r=r: P * r, lambda v, r=r: v * r),
                ("%g*f" % r, lambda P, r=r: r * P, lambda v, r=r: r * v),
                ("f/%g" % r, lambda P, r=r: P / r, lambda v, r=r: v / r),
                ("%g/f" % r, lambda P, r=r: r / P, lambda v, r=r: safe_div(r, v))]
    out += [("f**2", lambda P: P ** 2, lambda v: v ** 2), ("f**3", lambda P: P ** 3, lambda v: v ** 3), ("exp f", lambda P: P.exp(), lambda v: float(np.exp(v)))]
    return out


def unary(case, R):
    AL = alphabet()
    F = AL[case["x"]]
    P = build(F)
    s0 = snap(P)
    n = case["x"]
    for name, f, g in scalar_ops():
        R.states += 1
        M = MF([(a, b, lambda x, h=h: g(h(x)), k) for a, b, h, k in F.pieces], {x: g(w) for x, w in F.masses.items()})
        C = f(P)
        compare(R, "number", "%s for f=%s" % (name, n), C, M, tol=1e-11)
        R.true("operands", snap(P) == s0, "%s changed f=%s" % (name, n))
    for shift, scale in itertools.product([0, 1.5, -2], [1, 2.0, -1, -0.5]):
        M = affine(F, shift, scale)
        C = P.copyShiftedAndScaled(shift=shift, scale=scale)
        R.states += 1
        compare(R, "shift and scale", "%s shifted by %g scaled by %g" % (n, shift, scale), C, M, tol=1e-9)
    br = [b for b in F.breaks() if np.isfinite(b)]
    cuts = sorted(set([-3.0, -0.5, 0.0, 0.25, 0.75, 1.0, 1.7, 5.5, 7.0]) | set(br))
    for k in (1, 2, 3):
        for c in itertools.combinations(cuts, k):
            if k == 3 and sum(int(8 * abs(t)) for t in c) % 3:
                continue
            for pts in ([list(c)] if k == 1 else [list(c), list(c)[::-1]]):
                C = P.splitByPoints(pts)
                R.states += 1
                compare(R, "split", "%s split at %s" % (n, pts), C, F, c)
                cut = set(s.a for s in C.segments) | set(s.b for s in C.segments)
                R.true("split points", all(t in cut for t in c if F.at(t) is not None), "%s split at %s has no break there" % (n, pts))
    for a, b in itertools.combinations([-INF] + cuts + [INF], 2):
        C = P.restrictToInterval(a, b)
        R.states += 1
        compare(R, "restrict", "%s restricted to %g, %g" % (n, a, b), C, restrict(F, a, b), [t for t in (a, b) if np.isfinite(t)])
    T = P.toInterpolated()
    compare(R, "interpolated", "%s interpolated" % n, T, F, tol=1e-6)
    R.true("operands", snap(P) == s0, "%s was changed by splitting, restricting, scaling or interpolating" % n)
    compare(R, "left operand", n + " at the end", P, F)
    R.sample = str(P)


def quad(fn, a, b, k):
    from scipy.integrate import quad as q
    f0 = fn
    def fn(x):
        try:
            return f0(x)
        except ZeroDivisionError:       # rounding of the argument hit the pole
            return 0.0
    if k == "L":        # x = a + t^2
        return q(lambda t: 2 * t * fn(a + t * t), 0, np.sqrt(b - a), epsabs=1e-12, epsrel=1e-11, limit=200)[0]
    if k == "R":
        return q(lambda t: 2 * t * fn(b - t * t), 0, np.sqrt(b - a), epsabs=1e-12, epsrel=1e-11, limit=200)[0]
    return q(fn, a, b, epsabs=1e-12, epsrel=1e-11, limit=200)[0]


def cum(F, x):
    """integral over (-inf, x], masses included"""
    t = sum(w for y, w in F.masses.items() if y <= x)
    for a, b, fn, k in F.pieces:
        if x >= b:
            t += quad(fn, a, b, k)
        elif x > a and k == "R":
            t += quad(fn, a, b, k) - quad(fn, x, b, k)
        elif x > a:
            t += quad(fn, a, x, k)
    return t


def integral_check(R, asp, w, P, F, tol=1e-8):
    br = [b for b in F.breaks() if np.isfinite(b)]
    pts = sorted(set(points(F)) | {b for b in br if b not in F.masses})
    val = {x: cum(F, x) for x in pts}
    tot = cum(F, INF)
    R.transitions += 1
    R.close(asp + " total", float(P.integrate()), tot, tol * (1 + abs(tot)), w + " total integral")
    for a, b in itertools.combinations(pts[::2], 2):
        R.evals += 1
        v = float(P.integrate(a, b))
        e = val[b] - val[a]
        if not abs(v - e) <= tol * (1 + abs(e)):
            R.fail(asp + " interval", "%s: integral over (%g,%g) is %r, expected %r" % (w, a, b, v, e))
    C = P.cumint()
    R.close(asp + " cumulative", [float(C(x)) for x in pts], [val[x] for x in pts], tol * (1 + abs(tot)), w + " cumulative integral")
    R.close(asp + " cumulative array", np.asarray(C(np.array(pts))), [val[x] for x in pts], tol * (1 + abs(tot)), w + " cumulative integral (array)")
    for x, m in F.masses.items():
        R.close(asp + " cumulative jump", [float(C(x - 1e-9)), float(C(x + 1e-9))], [cum(F, x - 1e-9), cum(F, x + 1e-9)], 1e-4 if F.pole(x) else 1e-7 * (1 + abs(tot)), w + " cumulative integral on both sides of %g" % x)


def ints(case, R):
    AL = alphabet()
    F = AL[case["x"]]
    n = case["x"]
    R.states += 1
    P = build(F)
    s0 = snap(P)
    integral_check(R, "integral", n, P, F)
    for y in NAMES:
        G = AL[y]
        for op in "+-*":
            if op == "*" and (any(p[3] for p in F.pieces) and any(p[3] for p in G.pieces)):
                continue
            C, M = apply2(op, build(F), build(G), F, G)
            R.states += 1
            integral_check(R, "integral " + op, "%s %s %s" % (n, op, y), C, M)
    for r in (2.0, -1.5):
        integral_check(R, "integral number", "%g*%s" % (r, n), P * r, MF([(a, b, lambda x, h=h: h(x) * r, k) for a, b, h, k in F.pieces], {x: w * r for x, w in F.masses.items()}))
    for shift, scale in ((1.5, -0.5), (-2, 3.0)):
        integral_check(R, "integral affine", "%s shifted by %g scaled by %g" % (n, shift, scale), P.copyShiftedAndScaled(shift=shift, scale=scale), affine(F, shift, scale), 1e-6)
    T = P.toInterpolated()
    R.close("integral interpolated", float(T.integrate()), cum(F, INF), 2e-6, n + " interpolated")
    R.true("operands", snap(P) == s0, "%s was changed by integration" % n)
    R.sample = "%s: %r" % (n, float(P.integrate()))


def chain(case, R):
    AL = alphabet()
    F, G = AL[case["x"]], AL[case["y"]]
    for o1 in BIN:
        C, M = apply2(o1, build(F), build(G), F, G)
        s = snap(C)
        for z in case["z"]:
            H = AL[z]
            for o2 in "+-*":
                Q = build(H)
                D, N = apply2(o2, C, Q, M, H)
                R.states += 1
                w = "(%s %s %s) %s %s" % (case["x"], o1, case["y"], o2, z)
                compare(R, "chain " + o1 + o2, w, D, N, tol=1e-11)
                D, N = apply2(o2, Q, C, H, M)
                R.states += 1
                compare(R, "chain " + o1 + o2 + " right", "%s %s (%s %s %s)" % (z, o2, case["x"], o1, case["y"]), D, N, tol=1e-11)
                compare(R, "chain operand", w + ": operand", Q, H)
        R.true("operands", snap(C) == s, "(%s %s %s) was changed by a later operation" % (case["x"], o1, case["y"]))


def chain3(case, R):
    AL = alphabet()
    F, G, H = AL[case["x"]], AL[case["y"]], AL[case["z"]]
    for o1, o2 in itertools.product("+-*/", "+-*"):
        C, M = apply2(o1, build(F), build(G), F, G)
        C, M = apply2(o2, C, build(H), M, H)
        for u, o3 in itertools.product(SMALL, "+-*"):
            K = AL[u]
            D, N = apply2(o3, C, build(K), M, K)
            R.states += 1
            compare(R, "chain3", "((%s %s %s) %s %s) %s %s" % (case["x"], o1, case["y"], o2, case["z"], o3, u), D, N, tol=1e-10)


def composition(case, R):
    """densities of functions of a variable: f(y) summed over the branches, times the derivative of the inverse"""
    AL = alphabet()
    F = AL[case["x"]]
    P = build(F)
    s0 = snap(P)
    br = [b for b in F.breaks() if np.isfinite(b)]
    ys = sorted(set(points(F)) | {0.01, 0.37, 0.9, 1.3, 2.9, 4.4, 21.0, 30.0})
    todo = [("abs", lambda: P.copyAbsComposition(), lambda y: [(y, 1.0), (-y, 1.0)] if y > 0 else [], abs),
            ("square", lambda: P.copySquareComposition(), lambda y: [(np.sqrt(y), 0.5 / np.sqrt(y)), (-np.sqrt(y), 0.5 / np.sqrt(y))] if y > 0 else [], lambda x: x * x),
            ("exp", lambda: P.copyComposition(np.exp, np.log, lambda t: 1.0 / t), lambda y: [(np.log(y), 1 / y)] if y > 0 else [], lambda x: float(np.exp(x))),
            ("2-3x", lambda: P.copyComposition(lambda t: 2 - 3 * t, lambda t: (2 - t) / 3.0, lambda t: -1 / 3.0 + 0 * t), lambda y: [((2 - y) / 3.0, 1 / 3.0)], lambda x: 2 - 3 * x)]
    if not all(np.isfinite(F.breaks())):
        todo = todo[:3]
    if 0.0 not in F.masses:
        todo.append(("1/x", lambda: P.copyProbInverse(), lambda y: [(1 / y, 1 / (y * y))] if y != 0 else [], lambda x: 1.0 / x))
    for name, f, inv, g in todo:
        R.states += 1
        R.transitions += 1
        C = f()
        what = "%s of a variable with density %s" % (name, case["x"])
        ms = {}
        for x, w in F.masses.items():
            ms[g(x)] = ms.get(g(x), 0.0) + w
        got = {d.a: d.f for d in C.getDiracs()}
        for k in set(ms) | set(got):
            near = [got[j] for j in got if abs(j - k) < 1e-12 * max(1, abs(k))]
            wnear = [ms[j] for j in ms if abs(j - k) < 1e-12 * max(1, abs(k))]
            R.close("composition masses", sum(near), sum(wnear), 1e-12, what + " mass at %g" % k)
        pts, want = [], []
        for y in ys:
            xs = inv(y)
            if any(abs(x - b) < 1e-9 for x, _ in xs for b in br) or y == 0:
                continue
            pts.append(y)
            want.append(sum(F.val(x) * d for x, d in xs))
        want = np.array(want)
        R.seen([name] + [round(float(v), 6) for v in want])
        R.close("composition array", np.asarray(C(np.array(pts))), want, 1e-9 * (1 + np.abs(want)), what)
        R.close("composition number", [float(C(y)) for y in pts], want, 1e-9 * (1 + np.abs(want)), what + " (number)")
        for a, b in zip(C.segments, C.segments[1:]):
            R.true("composition order", a.b <= b.a + 1e-12, "%s: pieces %s and %s" % (what, a, b))
        R.true("operands", snap(P) == s0, what + " changed the operand")


def mixed(case, R):
    """operations with numbers, shift and scale, splitting and restriction between two binary operations"""
    AL = alphabet()
    F = AL[case["x"]]
    steps = [("f*-1.5", lambda P: P * -1.5, lambda M: MF([(a, b, lambda x, h=h: h(x) * -1.5, k) for a, b, h, k in M.pieces], {x: w * -1.5 for x, w in M.masses.items()})),
             ("2-f", lambda P: 2.0 - P, lambda M: MF([(a, b, lambda x, h=h: 2.0 - h(x), k) for a, b, h, k in M.pieces], {x: 2.0 - w for x, w in M.masses.items()})),
             ("f**2", lambda P: P ** 2, lambda M: MF([(a, b, lambda x, h=h: h(x) ** 2, k) for a, b, h, k in M.pieces], {x: w ** 2 for x, w in M.masses.items()})),
             ("mirror", lambda P: P.copyShiftedAndScaled(shift=1.0, scale=-1.0), lambda M: affine(M, 1.0, -1.0)),
             ("stretch", lambda P: P.copyShiftedAndScaled(shift=-1.0, scale=2.0), lambda M: affine(M, -1.0, 2.0)),
             ("split", lambda P: P.splitByPoints([0.25, 1.0]), lambda M: M),
             ("restrict", lambda P: P.restrictToInterval(-0.5, 1.5), lambda M: restrict(M, -0.5, 1.5))]
    for n1, f1, g1 in steps:
        P, M = f1(build(F)), g1(F)
        for n2, f2, g2 in steps:
            C, N = f2(P), g2(M)
            R.states += 1
            compare(R, "steps", "%s: %s then %s" % (case["x"], n1, n2), C, N, tol=1e-9)
        for y in case["ys"]:
            G = AL[y]
            for op in "+-*":
                C, N = apply2(op, P, build(G), M, G)
                R.states += 1
                compare(R, "step then " + op, "(%s: %s) %s %s" % (case["x"], n1, op, y), C, N, tol=1e-9)
                C2, N2 = apply2(op, build(G), P, G, M)
                compare(R, "step then right " + op, "%s %s (%s: %s)" % (y, op, case["x"], n1), C2, N2, tol=1e-9)
                C3, N3 = f1(C), g1(N)
                compare(R, "binary then step", "((%s: %s) %s %s): %s" % (case["x"], n1, op, y, n1), C3, N3, tol=1e-9)
        compare(R, "left operand", "%s: %s after use" % (case["x"], n1), P, M, tol=1e-9)


def building(case, R):
    """adding pieces in every order gives the same function; masses at one point are merged"""
    from pacal import segments as S
    AL = alphabet()
    for n in NAMES:
        F = AL[n]
        items = [("p",) + p for p in F.pieces] + [("m", x, w) for x, w in F.masses.items()]
        for perm in itertools.permutations(items):
            P = S.PiecewiseFunction([])
            for it in perm:
                if it[0] == "m":
                    P.addSegment(S.DiracSegment(it[1], it[2] * 0.25))
                    P.addSegment(S.DiracSegment(it[1], it[2] * 0.75))
                else:
                    one = build(MF([it[1:]]))
                    for s in one.segments:
                        P.addSegment(s)
            R.states += 1
            compare(R, "building", "%s built in the order %s" % (n, [i[:3:2] if i[0] == "m" else i[1:3] for i in perm]), P, F)
    # merging masses never touches the function they came from
    for x in ("dir", "mix", "rpole", "half"):
        for y in ("dir", "mix", "rpole", "half"):
            if any(AL[x].at(k) is not None for k in AL[y].masses):
                continue            # pieces are split where masses are put
            P, Q = build(AL[x]), build(AL[y])
            T = P.toInterpolated()
            T.add_diracs(Q)
            T.add_diracs(Q)
            compare(R, "sharing", "%s after its interpolation got the masses of %s" % (x, y), P, AL[x])
            compare(R, "sharing", "%s after its masses were added to %s" % (y, x), Q, AL[y])
            want = dict(AL[x].masses)
            for k, w in AL[y].masses.items():
                want[k] = want.get(k, 0) + 2 * w
            got = {s.a: s.f for s in T.getDiracs()}
            R.true("sharing masses", set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-12 for k in want), "%s + 2 masses of %s: %s, expected %s" % (x, y, got, want))
            for s in Q.getDiracs():
                T.addSegment(S.DiracSegment(s.a, 1.0))
            compare(R, "sharing", "%s after later additions" % y, Q, AL[y])
            compare(R, "sharing", "%s after later additions" % x, P, AL[x])
