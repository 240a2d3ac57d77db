"""P02: arithmetic on mixtures of uniform pieces and point masses against exact areas."""
import numpy as np
from mc import bounded as B

LEVEL = "model_checking"
RULE = ("states are expressions over an alphabet of mixtures of uniform pieces and point masses; transitions apply one of "
        "+ - * / min max with an alphabet variable on the left or right; every reachable expression up to the depth bound is "
        "built on the library and its atoms, mass, distribution function and density are compared with closed-form areas at "
        "every breakpoint and between all of them; distinct outcomes are distinct (rounded) exact distribution functions")
ASSUMPTIONS = ["division only by variables without a point mass at zero",
               "density compared away from breakpoints, where one-sided values differ"]
CPU_LIMIT = 120

V = {
    "u01": ([(1, 0, 1)], []),
    "um11": ([(1, -1, 1)], []),
    "u12": ([(1, 1, 2)], []),
    "um3m1": ([(1, -3, -1)], []),
    "um12": ([(1, -1, 2)], []),
    "um10": ([(1, -1, 0)], []),
    "uh": ([(1, 0.25, 1.75)], []),
    "gap": ([(0.3, 0, 1), (0.7, 2, 4)], []),
    "step": ([(0.5, -1, 1), (0.5, 0, 3)], []),
    "a0": ([(0.6, 0, 1)], [(0.4, 0)]),
    "ain": ([(0.5, -1, 1)], [(0.2, 0.5), (0.3, -1)]),
    "aend": ([(0.75, 1, 2)], [(0.25, 2)]),
    "aout": ([(0.5, 0, 1)], [(0.25, -2), (0.25, 3)]),
    "bern": ([], [(0.25, 0), (0.75, 1)]),
    "pm": ([], [(0.5, -1), (0.5, 2)]),
    "c2": ([], [(1, 2)]),
    "cmh": ([], [(1, -0.5)]),
    "tiny": ([(1, 0, 0.01)], []),
    "big": ([(1, 5, 60)], []),
}
SMALL = ["u01", "um12", "a0", "ain", "pm"]
MED = SMALL + ["gap", "um3m1", "aend"]
OPS = ["+", "-", "*", "/", "min", "max"]


def model(n):
    return B.Mix(*V[n])


def impl(n):
    import pacal as P
    uni, at = V[n]
    if not at and len(uni) == 1:
        return P.UniformDistr(uni[0][1], uni[0][2])
    if not uni:
        if len(at) == 1:
            return P.ConstDistr(at[0][1])
        return P.DiscreteDistr([x for w, x in at], [w for w, x in at])
    return P.MixDistr([w for w, a, b in uni] + [w for w, x in at],
                      [P.UniformDistr(a, b) for w, a, b in uni] + [P.ConstDistr(x) for w, x in at])


def lib(op, X, Y):
    import pacal as P
    return {"+": lambda: X + Y, "-": lambda: X - Y, "*": lambda: X * Y, "/": lambda: X / Y,
            "min": lambda: P.min(X, Y), "max": lambda: P.max(X, Y)}[op]()


def grid(br, unb=(False, False)):
    """(all points, points where a density may be compared)"""
    br = np.array(br)
    m = []
    for lo, hi in zip(br[:-1], br[1:]):
        if hi - lo > 1e-9:
            m += [lo + (hi - lo) * q for q in (0.03, 0.37, 0.5, 0.9)]
    s = max(1.0, abs(br[0]), abs(br[-1]))
    out = [br[0] - 0.5 * s, br[-1] + 0.5 * s]
    if unb[0]: out += [br[0] - 3 * s, br[0] - 200 * s]
    if unb[1]: out += [br[-1] + 3 * s, br[-1] + 200 * s]
    m = np.array(sorted(m + out))
    return np.array(sorted(list(br) + list(m))), m


def atoms_ok(R, name, Z, want):
    got = sorted((float(s.a), float(s.f)) for s in Z.get_piecewise_pdf().getDiracs())
    got = [(a, f) for a, f in got if abs(f) > 1e-10]
    w = sorted(want.items())
    ok = len(got) == len(w) and all(abs(a - x) <= 1e-9 * max(1, abs(x)) and abs(f - p) <= 1e-8 for (a, f), (x, p) in zip(got, w))
    R.evals += 1
    if not ok:
        R.fail("atoms " + name, "%s: point masses %s, expected %s" % (name, got[:10], w[:10]))
    return ok


def near_atoms(z, atoms):
    k = np.zeros(len(z), bool)
    for x in atoms:
        k |= np.abs(z - x) <= 1e-9 * max(1, abs(x))
    return k


def compare(R, name, Z, M, tol_cdf=1e-7, tol_pdf=2e-6):
    R.states += 1
    R.traces += 1
    if not atoms_ok(R, name, Z, M.atoms):
        return
    br = [b for b in M.breaks()]
    unb = M.unbounded()
    allp, inner = grid(br, unb)
    # library's own atoms positions may differ by rounding: evaluate exactly at them
    pts = allp[~near_atoms(allp, M.atoms)]
    want = M.cdf(pts)
    R.seen([round(float(v), 7) for v in want])
    got = Z.cdf(pts)
    R.close("cdf " + name, got, want, tol_cdf, name + ".cdf")
    if M.atoms:
        xs = np.array(sorted(float(s.a) for s in Z.get_piecewise_pdf().getDiracs() if abs(s.f) > 1e-10))
        R.close("cdf@atoms " + name, Z.cdf(xs), M.cdf(np.array(sorted(M.atoms)) + 1e-13), max(tol_cdf, 1e-7), name + ".cdf at atoms")
    k = [0, len(pts) // 3, len(pts) // 2, -1]
    R.close("cdf scalar " + name, [float(Z.cdf(float(pts[i]))) for i in k], want[k], tol_cdf, name + ".cdf scalar")
    wp = M.pdf(inner)
    sel = np.isfinite(wp)
    R.close("pdf " + name, Z.pdf(inner[sel]), wp[sel], tol_pdf * (1 + np.abs(wp[sel])), name + ".pdf")
    R.close("mass " + name, Z.get_piecewise_pdf().integrate(), 1.0, 1e-7, name + " total mass")
    if M.mean() is not None:
        R.close("mean " + name, Z.mean(), M.mean(), 1e-6 * max(1, abs(M.mean())), name + ".mean")
        R.close("var " + name, Z.var(), M.var(), 1e-6 * max(1, abs(M.var())), name + ".var")


def legal(op, Y):
    return not (op == "/" and Y.has_zero_atom())


def cases(tier):
    L = []
    for a in V:
        for b in V:
            L.append({"id": "pair:%s,%s" % (a, b), "kind": "pair", "a": a, "b": b})
    small = SMALL if tier == "quick" else MED
    for a in small:
        for b in small:
            for op in OPS:
                if legal(op, model(b)):
                    for c in (["u01", "pm"] if tier == "quick" else SMALL):
                        L.append({"id": "two:(%s %s %s),%s" % (a, op, b, c), "kind": "two", "a": a, "b": b, "op": op, "c": c, "cost": 1})
    return L


def run(case, R):
    a, b = case["a"], case["b"]
    A, Bm = model(a), model(b)
    if case["kind"] == "pair":
        for op in OPS:
            if legal(op, Bm):
                R.transitions += 1
                n = "%s %s %s" % (a, op, b)
                compare(R, n, lib(op, impl(a), impl(b)), B.Res(op, A, Bm))
        R.sample = "%s, %s: P(X+Y<=1)=%.9f" % (a, b, float(B.Res("+", A, Bm).cdf(1.0)))
        return
    op, c = case["op"], case["c"]
    M = B.Res(op, A, Bm)
    Z = lib(op, impl(a), impl(b))
    W = model(c)
    for op2 in OPS:
        for left in (True, False):
            if not left and op2 not in "-/":
                continue
            if op2 == "/" and left and W.has_zero_atom():
                continue
            if op2 == "/" and not left and M.atoms.get(0.0, 0) > 0:
                continue
            if op2 == "/" and not left and W.has_zero_atom():
                continue
            n = "(%s %s %s) %s %s" % (a, op, b, op2, c) if left else "%s %s (%s %s %s)" % (c, op2, a, op, b)
            T = lib(op2, Z, impl(c)) if left else lib(op2, impl(c), Z)
            R.transitions += 1
            R.states += 1
            R.traces += 1
            bz, bw = M.breaks(), W.breaks()
            lo, hi = M.unbounded()
            cand = []
            f = {"+": lambda x, y: x + y, "-": (lambda x, y: x - y) if left else (lambda x, y: y - x), "*": lambda x, y: x * y,
                 "/": (lambda x, y: x / y if y else 0.0) if left else (lambda x, y: y / x if x else 0.0), "min": min, "max": max}[op2]
            for x in bz:
                for y in bw:
                    cand.append(f(x, y))
            cand = np.unique(np.round(cand, 9))
            mids = (cand[1:] + cand[:-1]) / 2
            if len(mids) > 12:
                mids = mids[np.linspace(0, len(mids) - 1, 12).astype(int)]
            s = max(1.0, np.abs(cand).max())
            pts = np.concatenate([[cand[0] - 0.7 * s], mids, cand[:1] + 1e-3 * s, [cand[-1] + 0.7 * s]])
            # stay away from atoms of the result
            ats = [float(x.a) for x in T.get_piecewise_pdf().getDiracs()]
            pts = pts[[all(abs(p - q) > 1e-7 for q in ats) for p in pts]]
            want = np.array([B.second(op2, M, W, float(t), left) for t in pts])
            R.seen([round(float(v), 6) for v in want])
            R.close("cdf2 " + n, T.cdf(pts), want, 1e-6, n + ".cdf")
            R.close("mass2 " + n, T.get_piecewise_pdf().integrate(), 1.0, 1e-6, n + " total mass")
            # total mass of the atoms
            if op2 in "+-" and M.atoms and W.atoms:
                R.close("atoms2 " + n, sum(float(x.f) for x in T.get_piecewise_pdf().getDiracs()),
                        sum(M.atoms.values()) * sum(W.atoms.values()), 1e-8, n + " mass of the atoms")
    R.sample = case["id"]
