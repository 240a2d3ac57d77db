"""P01: arithmetic on discrete variables against exact enumeration of joint outcomes.

Explicit-state search: a state is an exact pmf (dict of fractions), the transitions apply one operation with one
alphabet variable on either side; every path of the search is replayed on the library and every state compared."""
from fractions import Fraction as Fr
from mc import discrete as D

LEVEL = "model_checking"
RULE = ("states are expressions over an alphabet of discrete variables, transitions apply one binary operation with an "
        "alphabet variable on the left or right, or one unary operation; every node of the search tree is built on the "
        "library and compared with the exact pmf; distinct outcomes are distinct exact pmfs")
ASSUMPTIONS = ["support points closer than 1e-9 (relative) count as one point",
               "division only by variables without mass at zero; odd and negative powers only of positive variables (others than -1)"]
CPU_LIMIT = 150

BASES = {
    "b01": ("D", [0, 1], [0.5, 0.5]),
    "pm1": ("D", [-1, 1], [0.25, 0.75]),
    "d123": ("D", [3, 1, 2], [0.5, 0.2, 0.3]),
    "m203": ("D", [-2, 0, 3], [0.1, 0.6, 0.3]),
    "half": ("D", [0.5, 1.5, 2.0], [0.25, 0.25, 0.5]),
    "tenth": ("D", [0.1, 0.2, 0.3], [0.2, 0.5, 0.3]),
    "rep": ("D", [1, 2, 1], [0.25, 0.5, 0.25]),
    "neg": ("D", [-3.0, -0.25], [0.4, 0.6]),
    "c2": ("C", 2.0), "c0": ("C", 0.0), "cm": ("C", -1.5),
    "zero": ("Z",), "one": ("O",),
    "sign": ("S", [-2, 0, 3], [0.1, 0.6, 0.3]),
    "bern": ("B", 0.3),
    "bin3": ("N", 3, 0.4),
    "wide": ("D", [-1000, 0.001, 20, 21], [0.1, 0.2, 0.3, 0.4]),
}
CORE = ["b01", "pm1", "d123", "m203", "half", "cm"]
TINY = ["b01", "pm1", "half"]


def model(b):
    t = BASES[b]
    if t[0] == "D":
        return D.pmf(t[1], t[2])
    if t[0] == "C":
        return {D.F(t[1]): Fr(1)}
    if t[0] == "Z":
        return {Fr(0): Fr(1)}
    if t[0] == "O":
        return {Fr(1): Fr(1)}
    if t[0] == "S":
        m = D.pmf(t[1], t[2])
        return {Fr(s): sum(p for x, p in m.items() if (x > 0) - (x < 0) == s) for s in (-1, 0, 1)
                if sum(p for x, p in m.items() if (x > 0) - (x < 0) == s)}
    if t[0] == "B":
        return D.pmf([0, 1], [1 - D.F(t[1]), t[1]])
    if t[0] == "N":
        from math import comb
        n, p = t[1], D.F(t[2])
        return {Fr(k): comb(n, k) * p ** k * (1 - p) ** (n - k) for k in range(n + 1)}


def impl(b):
    import pacal as P
    t = BASES[b]
    if t[0] == "D":
        return P.DiscreteDistr(list(t[1]), list(t[2]))
    if t[0] == "C":
        return P.ConstDistr(t[1])
    if t[0] == "Z":
        return P.ZeroDistr()
    if t[0] == "O":
        return P.OneDistr()
    if t[0] == "S":
        return P.sign(P.DiscreteDistr(list(t[1]), list(t[2])))
    if t[0] == "B":
        return P.BernoulliDistr(t[1])
    if t[0] == "N":
        return P.BinomialDistr(t[1], t[2])


def impl_bin(op, X, Y):
    import pacal as P
    if op == "+": return X + Y
    if op == "-": return X - Y
    if op == "*": return X * Y
    if op == "/": return X / Y
    if op == "min": return P.min(X, Y)
    if op == "max": return P.max(X, Y)


def impl_un(op, X):
    import pacal as P
    return {"neg": lambda: -X, "abs": lambda: abs(X), "sq": lambda: X ** 2, "inv": lambda: X ** -1,
            "x+0.5": lambda: X + 0.5, "x-1": lambda: X - 1, "1+x": lambda: 1 + X, "3-x": lambda: 3 - X,
            "2*x": lambda: 2 * X, "x*-0.5": lambda: X * -0.5, "x/4": lambda: X / 4, "2/x": lambda: 2 / X,
            "x**3": lambda: X ** 3, "x**-2": lambda: X ** -2, "min(x,1)": lambda: P.min(X, 1),
            "max(0.5,x)": lambda: P.max(0.5, X)}[op]()


def compare(R, name, X, A, full=True):
    """The library variable X has exactly the pmf A."""
    import numpy as np
    xs = sorted(A)
    fx = [float(x) for x in xs]
    fp = [float(A[x]) for x in xs]
    R.states += 1
    R.traces += 1
    R.seen(D.key(A))
    pw = X.get_piecewise_pdf()
    got = sorted((float(s.a), float(s.f)) for s in pw.getDiracs())
    got = [(a, f) for a, f in got if abs(f) > 1e-14]
    ok = len(got) == len(fx) and all(abs(a - x) <= 1e-9 * max(1, abs(x)) and abs(f - p) <= 1e-10
                                     for (a, f), x, p in zip(got, fx, fp))
    R.evals += len(fx)
    if not ok:
        R.fail("pmf " + name, "%s: point masses %s, expected %s" % (name, got[:12], list(zip(fx, fp))[:12]))
        return False
    if not full:
        return True
    # distribution function on and between the support points
    cum = np.cumsum(fp)
    sup = [a for a, _ in got]      # the library's own (rounded) support points
    R.close("cdf " + name, X.cdf(np.array(sup)), cum, 1e-9, name + ".cdf at support")
    R.close("cdf " + name, [X.cdf(v) for v in sup[:2]], cum[:2], 1e-9, name + ".cdf at support, scalar")
    gaps = [i for i in range(len(fx) - 1) if fx[i + 1] - fx[i] > 1e-6]
    q = [fx[0] - 1.0] + [(fx[i] + fx[i + 1]) / 2 for i in gaps] + [fx[-1] + 1.0]
    w = [0.0] + [cum[i] for i in gaps] + [1.0]
    R.close("cdf " + name, X.cdf(np.array(q)), w, 1e-9, name + ".cdf between")
    R.close("cdf " + name, [X.cdf(v) for v in q[:3]], w[:3], 1e-9, name + ".cdf scalar")
    m = float(sum(x * p for x, p in A.items()))
    v = float(sum(x * x * p for x, p in A.items()) - sum(x * p for x, p in A.items()) ** 2)
    R.close("mean " + name, X.mean(), m, 1e-8 * max(1, abs(m)), name + ".mean")
    R.close("var " + name, X.var(), v, 1e-7 * max(1, abs(v), m * m), name + ".var")
    R.close("mass " + name, X.get_piecewise_pdf().integrate(), 1.0, 1e-9, name + " total mass")
    return True


def cases(tier):
    L = []
    names = list(BASES)
    for b in names:
        L.append({"id": "base:" + b, "kind": "base", "b": b})
    for a in names:
        for b in names:
            L.append({"id": "pair:%s,%s" % (a, b), "kind": "pair", "a": a, "b": b})
    core = CORE if tier == "quick" else names
    for a in core:
        for b in core:
            for op in D.BIN:
                if D.legal_bin(op, model(a), model(b)):
                    L.append({"id": "two:(%s %s %s)" % (a, op, b), "kind": "two", "a": a, "b": b, "op": op, "with": CORE,
                              "cost": 2})
    tiny = TINY if tier == "quick" else CORE
    for a in tiny:
        for u in D.UN:
            if D.legal_un(u, model(a)):
                L.append({"id": "unary:%s(%s)" % (u, a), "kind": "unary", "a": a, "u": u, "with": CORE})
    if tier == "thorough":
        for a in CORE:
            for b in CORE:
                for op in D.BIN:
                    for c in TINY + ["m203"]:
                        for op2 in D.BIN:
                            A, B, C = model(a), model(b), model(c)
                            if D.legal_bin(op, A, B) and D.legal_bin(op2, D.binop(op, A, B), C):
                                L.append({"id": "three:(%s %s %s) %s %s" % (a, op, b, op2, c), "kind": "three", "a": a, "b": b,
                                          "op": op, "c": c, "op2": op2, "cost": 1})
    L.append({"id": "poisson", "kind": "poisson"})
    L.append({"id": "power", "kind": "power"})
    L.append({"id": "identities", "kind": "identities"})
    return L


def step_all(R, name, X, A, others, unary=True):
    """All transitions out of the state (X, A)."""
    if unary:
        for u in D.UN:
            if D.legal_un(u, A):
                R.transitions += 1
                compare(R, "%s of %s" % (u, name), impl_un(u, X), D.unop(u, A))
    for c in others:
        C = model(c)
        for op in D.BIN:
            if D.legal_bin(op, A, C):
                R.transitions += 1
                compare(R, "(%s) %s %s" % (name, op, c), impl_bin(op, X, impl(c)), D.binop(op, A, C))
            if D.legal_bin(op, C, A):
                R.transitions += 1
                compare(R, "%s %s (%s)" % (c, op, name), impl_bin(op, impl(c), X), D.binop(op, C, A))


def run(case, R):
    import numpy as np
    import pacal as P
    k = case["kind"]
    if k == "base":
        b = case["b"]
        A = model(b)
        X = impl(b)
        compare(R, b, X, A)
        xs = sorted(A)
        # point evaluation of the mass function, scalar and array, on and off the support
        pts = [float(x) for x in xs] + [float(x) + 0.123 for x in xs]
        want = [float(A[x]) for x in xs] + [0.0] * len(xs)
        R.close("pdf", X.pdf(np.array(pts)), want, 1e-12, "pdf array")
        R.close("pdf", [float(X.pdf(p)) for p in pts], want, 1e-12, "pdf scalar")
        step_all(R, b, X, A, [])
        R.sample = str(sorted((float(x), float(p)) for x, p in A.items()))
    elif k == "pair":
        A, B = model(case["a"]), model(case["b"])
        for op in D.BIN:
            if D.legal_bin(op, A, B):
                R.transitions += 1
                compare(R, "%s %s %s" % (case["a"], op, case["b"]), impl_bin(op, impl(case["a"]), impl(case["b"])), D.binop(op, A, B))
        R.sample = str(sorted((float(x), float(p)) for x, p in D.binop("+", A, B).items()))[:200]
    elif k == "two":
        a, b, op = case["a"], case["b"], case["op"]
        A = D.binop(op, model(a), model(b))
        X = impl_bin(op, impl(a), impl(b))
        n = "%s %s %s" % (a, op, b)
        if not compare(R, n, X, A):
            return
        step_all(R, n, X, A, case["with"])
        R.sample = n
    elif k == "unary":
        A = D.unop(case["u"], model(case["a"]))
        X = impl_un(case["u"], impl(case["a"]))
        n = "%s of %s" % (case["u"], case["a"])
        if not compare(R, n, X, A):
            return
        step_all(R, n, X, A, case["with"])
        R.sample = n
    elif k == "three":
        A = D.binop(case["op2"], D.binop(case["op"], model(case["a"]), model(case["b"])), model(case["c"]))
        X = impl_bin(case["op2"], impl_bin(case["op"], impl(case["a"]), impl(case["b"])), impl(case["c"]))
        for d in TINY:
            for op in D.BIN:
                if D.legal_bin(op, A, model(d)):
                    R.transitions += 1
                    compare(R, "%s %s %s" % (case["id"], op, d), impl_bin(op, X, impl(d)), D.binop(op, A, model(d)))
        R.sample = case["id"]
    elif k == "poisson":
        from math import exp, factorial
        for lam in (0.3, 1, 2.5):
            X = P.PoissonDistr(lam)
            got = {float(s.a): float(s.f) for s in X.get_piecewise_pdf().getDiracs()}
            for i in range(8):
                R.close("poisson", got.get(float(i), 0.0), exp(-lam) * lam ** i / factorial(i), 1e-12, "Poisson(%s)[%d]" % (lam, i))
            R.close("poisson", sum(got.values()), 1.0, 1e-12, "mass")
            R.close("poisson", X.mean(), lam, 1e-10, "mean")
            for mu in (0.3, 1):
                S = X + P.PoissonDistr(mu)
                gs = {round(float(s.a)): float(s.f) for s in S.get_piecewise_pdf().getDiracs()}
                R.states += 1; R.transitions += 1; R.traces += 1
                for i in range(8):
                    R.close("poisson", gs.get(i, 0.0), exp(-lam - mu) * (lam + mu) ** i / factorial(i), 1e-12, "sum [%d]" % i)
        R.seen("poisson")
    elif k == "power":
        # X ** Y for positive X: exact outcome enumeration in floating point
        for xs, px in (([1, 2, 3], [0.2, 0.3, 0.5]), ([0.5, 4], [0.5, 0.5])):
            for ys, py in (([0, 1], [0.4, 0.6]), ([-1, 0.5, 2], [0.25, 0.25, 0.5])):
                Z = P.DiscreteDistr(xs, px) ** P.DiscreteDistr(ys, py)
                want = {}
                for x, p in zip(xs, px):
                    for y, q in zip(ys, py):
                        v = round(float(x) ** y, 9)
                        want[v] = want.get(v, 0) + p * q
                got = sorted((round(float(s.a), 9), float(s.f)) for s in Z.get_piecewise_pdf().getDiracs())
                R.states += 1; R.transitions += 1; R.traces += 1
                R.close("power", [g[1] for g in got], [want[v] for v in sorted(want)], 1e-10, "masses of %s**%s" % (xs, ys))
                R.close("power", [g[0] for g in got], sorted(want), 1e-7, "support")
        for b in (2, 0.5, 3.0):
            Z = b ** P.DiscreteDistr([-1, 0, 2], [0.2, 0.3, 0.5])
            got = sorted((float(s.a), float(s.f)) for s in Z.get_piecewise_pdf().getDiracs())
            want = sorted([(b ** -1, 0.2), (1.0, 0.3), (b ** 2, 0.5)])
            R.close("rpow", got, want, 1e-9, "%s**X" % b)
        R.seen("power")
    elif k == "identities":
        # neutral constants give plain numbers or the same law
        for b in BASES:
            A = model(b)
            X = impl(b)
            compare(R, b + "+0", X + 0, A)
            compare(R, b + "*1", X * 1, A)
            compare(R, "1*" + b, 1 * X, A)
            compare(R, b + "/1", X / 1, A)
            compare(R, b + "**1", X ** 1, A)
            R.true("times0", X * 0 == 0 and 0 * X == 0 and X ** 0 == 1, "0*X, X**0")
            compare(R, "+".join([b] * 2), X + X, D.binop("+", A, A))
        R.sample = "identities"
