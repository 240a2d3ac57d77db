"""Exact reference model for mixtures of uniform pieces and point masses, and for one operation on two of them
(closed-form areas), plus a second operation by one-dimensional integration of the closed form."""
import numpy as np


class Mix(object):
    """uni: list of (weight, a, b); atoms: list of (weight, x)"""
    def __init__(self, uni=(), atoms=()):
        self.uni = [tuple(map(float, u)) for u in uni]
        d = {}
        for w, x in atoms:
            d[float(x)] = d.get(float(x), 0.0) + float(w)
        self.atoms = d
        tot = sum(u[0] for u in self.uni) + sum(d.values())
        assert abs(tot - 1) < 1e-12, tot
    def breaks(self):
        return sorted(set([u[1] for u in self.uni] + [u[2] for u in self.uni] + list(self.atoms)))
    def cdf(self, z):
        z = np.asarray(z, float)
        y = np.zeros_like(z)
        for w, a, b in self.uni:
            y = y + w * np.clip((z - a) / (b - a), 0, 1)
        for x, w in self.atoms.items():
            y = y + w * (z >= x)
        return y
    def pdf(self, z):
        z = np.asarray(z, float)
        y = np.zeros_like(z)
        for w, a, b in self.uni:
            y = y + w / (b - a) * ((z > a) & (z < b))
        return y
    def mean(self):
        return sum(w * (a + b) / 2 for w, a, b in self.uni) + sum(w * x for x, w in self.atoms.items())
    def m2(self):
        return sum(w * (a * a + a * b + b * b) / 3 for w, a, b in self.uni) + sum(w * x * x for x, w in self.atoms.items())
    def near_zero(self):
        return any(a <= 0 <= b for w, a, b in self.uni)
    def has_zero_atom(self):
        return self.atoms.get(0.0, 0) > 0


def _r(t): return np.maximum(t, 0.0)


def _halves(w, a, b):
    """positive and negative parts (weight, lo, hi, sign) with 0 <= lo < hi"""
    out = []
    if b > 0:
        lo = max(a, 0.0)
        out.append((w * (b - lo) / (b - a), lo, b, 1))
    if a < 0:
        hi = min(b, 0.0)
        out.append((w * (hi - a) / (b - a), -hi, -a, -1))
    return out


def _mul_pos(a, b, c, d, z):
    """cdf and pdf of the product of uniforms on [a,b], [c,d], 0 <= a, c"""
    z = np.asarray(z, float)
    A = (b - a) * (d - c)
    with np.errstate(all="ignore"):
        x1 = np.clip(z / d, a, b)
        x2 = np.clip(z / c, a, b) if c > 0 else np.where(z > 0, b, a)
        L = np.where((x1 > 0) & (x2 > 0), np.log(np.where(x2 > 0, x2, 1) / np.where(x1 > 0, x1, 1)), 0.0)
        F = ((d - c) * (x1 - a) + z * L - c * (x2 - x1)) / A
    pos = z > 0
    return np.where(pos, np.clip(F, 0, 1), 0.0), np.where(pos, L / A, 0.0)


def _div_pos(a, b, c, d, z):
    """cdf and pdf of X/Y, X uniform on [a,b], Y uniform on [c,d], 0 <= c"""
    z = np.asarray(z, float)
    A = (b - a) * (d - c)
    with np.errstate(all="ignore"):
        za = np.where(z != 0, a / z, 0.0)
        zb = np.where(z != 0, b / z, 0.0)
        y1 = np.clip(np.minimum(za, zb), c, d)
        y2 = np.clip(np.maximum(za, zb), c, d)
    mid = z * (y2 ** 2 - y1 ** 2) / 2 - a * (y2 - y1)
    F = np.where(z > 0, mid + (b - a) * (d - y2), mid + (b - a) * (y1 - c))
    F = np.where(z == 0, (np.clip(0.0, a, b) - a) * (d - c), F)
    f = (y2 ** 2 - y1 ** 2) / 2
    f = np.where(z == 0, ((d * d - c * c) / 2 if a < 0 < b else np.nan), f)
    return F / A, f / A


def _u_cdf(a, b, z): return np.clip((z - a) / (b - a), 0, 1)
def _u_pdf(a, b, z): return ((z > a) & (z < b)) / (b - a)


class Res(object):
    """Law of X op Y for two Mix."""
    def __init__(self, op, X, Y):
        self.op, self.X, self.Y = op, X, Y
        at = {}
        def add(x, p):
            x = float(x) + 0.0
            for k in at:
                if abs(k - x) <= 1e-12 * max(1, abs(x)):
                    at[k] += p
                    return
            at[x] = p
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y,
             "min": min, "max": max}[op]
        for x, p in X.atoms.items():
            for y, q in Y.atoms.items():
                add(f(x, y), p * q)
        cx = sum(u[0] for u in X.uni)
        cy = sum(u[0] for u in Y.uni)
        if op == "*":
            if X.has_zero_atom() and cy: add(0.0, X.atoms[0.0] * cy)
            if Y.has_zero_atom() and cx: add(0.0, Y.atoms[0.0] * cx)
        if op == "/" and X.has_zero_atom() and cy:
            add(0.0, X.atoms[0.0] * cy)
        if op in ("min", "max"):
            for P, Q in ((X, Y), (Y, X)):
                for x, p in P.atoms.items():
                    c = sum(w * float(_u_cdf(a, b, x)) for w, a, b in Q.uni)
                    m = sum(w for w, a, b in Q.uni)
                    q = (m - c) if op == "min" else c
                    if q > 1e-15:
                        add(x, p * q)
        self.atoms = {x: p for x, p in at.items() if p > 1e-15}

    def breaks(self):
        bx, by = self.X.breaks(), self.Y.breaks()
        s = set()
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
             "/": lambda x, y: x / y if y else None, "min": min, "max": max}[self.op]
        if self.op in "*/" :
            s.add(0.0)
        for x in bx:
            for y in by:
                v = f(x, y)
                if v is not None:
                    s.add(float(v) + 0.0)
        return sorted(s)

    def _parts(self, z):
        """cdf and continuous density at z, for + - * /"""
        op, X, Y = self.op, self.X, self.Y
        z = np.asarray(z, float)
        F = np.zeros_like(z)
        f = np.zeros_like(z)
        for w, a, b in X.uni:
            for v, c, d in Y.uni:
                p = w * v
                if op in "+-":
                    c1, d1 = (c, d) if op == "+" else (-d, -c)
                    A = (b - a) * (d - c)
                    t = [z - a - c1, z - b - c1, z - a - d1, z - b - d1]
                    G = (_r(t[0]) ** 2 - _r(t[1]) ** 2 - _r(t[2]) ** 2 + _r(t[3]) ** 2) / 2 / A
                    F = F + p * np.where(z >= b + d1, 1.0, G)
                    f = f + p * np.clip((_r(t[0]) - _r(t[1]) - _r(t[2]) + _r(t[3])) / A, 0, None)
                elif op == "*":
                    for w1, l1, h1, s1 in _halves(p, a, b):
                        for w2, l2, h2, s2 in _halves(1.0, c, d):
                            G, g = _mul_pos(l1, h1, l2, h2, z if s1 * s2 > 0 else -z)
                            if s1 * s2 < 0:
                                G = 1 - G
                            F = F + w1 * w2 * G
                            f = f + w1 * w2 * g
                elif op == "/":
                    for w2, l2, h2, s2 in _halves(p, c, d):
                        G, g = _div_pos(a, b, l2, h2, z) if s2 > 0 else _div_pos(-b, -a, l2, h2, z)
                        F = F + w2 * G
                        f = f + w2 * g
            for y, v in Y.atoms.items():
                p = w * v
                if op in "+-":
                    s = y if op == "+" else -y
                    F = F + p * _u_cdf(a + s, b + s, z)
                    f = f + p * _u_pdf(a + s, b + s, z)
                else:
                    k = y if op == "*" else 1 / y
                    if k == 0:
                        F = F + p * (z >= 0)
                    else:
                        lo, hi = min(a * k, b * k), max(a * k, b * k)
                        F = F + p * _u_cdf(lo, hi, z)
                        f = f + p * _u_pdf(lo, hi, z)
        for x, w in X.atoms.items():
            for v, c, d in Y.uni:
                p = w * v
                if op in "+-":
                    lo, hi = (x + c, x + d) if op == "+" else (x - d, x - c)
                    F = F + p * _u_cdf(lo, hi, z)
                    f = f + p * _u_pdf(lo, hi, z)
                elif x == 0:
                    F = F + p * (z >= 0)
                elif op == "*":
                    lo, hi = min(c * x, d * x), max(c * x, d * x)
                    F = F + p * _u_cdf(lo, hi, z)
                    f = f + p * _u_pdf(lo, hi, z)
                else:   # x / U(c, d)
                    for w2, l2, h2, s2 in _halves(1.0, c, d):
                        xx = x * s2
                        with np.errstate(all="ignore"):
                            q = np.where(z != 0, xx / z, np.inf)     # Y* where x/Y = z
                            if xx > 0:      # x/Y <= z  <=>  z > 0 and Y >= x/z
                                G = np.where(z > 0, 1 - _u_cdf(l2, h2, q), 0.0)
                            else:           # z >= 0 always; z < 0: Y <= x/z
                                G = np.where(z >= 0, 1.0, _u_cdf(l2, h2, q))
                            g = np.where(z != 0, _u_pdf(l2, h2, q) * abs(xx) / np.where(z != 0, z, 1) ** 2, 0.0)
                        F = F + p * w2 * G
                        f = f + p * w2 * g
            for y, v in Y.atoms.items():
                r = {"+": x + y, "-": x - y, "*": x * y, "/": x / y if op == "/" else 0.0}[op]
                F = F + w * v * (z >= r)
        return F, f

    def cdf(self, z):
        z = np.asarray(z, float)
        if self.op == "min":
            return 1 - (1 - self.X.cdf(z)) * (1 - self.Y.cdf(z))
        if self.op == "max":
            return self.X.cdf(z) * self.Y.cdf(z)
        # atoms sit exactly where they are listed, also after rounding
        return self._parts(z)[0]
    def pdf(self, z):
        z = np.asarray(z, float)
        if self.op == "min":
            return self.X.pdf(z) * (1 - self.Y.cdf(z)) + self.Y.pdf(z) * (1 - self.X.cdf(z))
        if self.op == "max":
            return self.X.pdf(z) * self.Y.cdf(z) + self.Y.pdf(z) * self.X.cdf(z)
        return self._parts(z)[1]
    def cdf_left(self, z):
        z = np.asarray(z, float)
        F = self.cdf(z)
        for x, p in self.atoms.items():
            F = F - p * (np.abs(z - x) <= 1e-12 * max(1, abs(x)))
        return F
    def mean(self):
        if self.op == "+": return self.X.mean() + self.Y.mean()
        if self.op == "-": return self.X.mean() - self.Y.mean()
        if self.op == "*": return self.X.mean() * self.Y.mean()
        return None
    def var(self):
        vx = self.X.m2() - self.X.mean() ** 2
        vy = self.Y.m2() - self.Y.mean() ** 2
        if self.op in "+-": return vx + vy
        if self.op == "*": return self.X.m2() * self.Y.m2() - (self.X.mean() * self.Y.mean()) ** 2
        return None
    def unbounded(self):
        """(to -inf, to +inf)"""
        if self.op != "/":
            return False, False
        X, Y = self.X, self.Y
        lo = hi = False
        xs = [(a, b) for w, a, b in X.uni] + [(x, x) for x in X.atoms]
        for a, b in xs:
            for w, c, d in Y.uni:
                if c <= 0 <= d:
                    if (b > 0 and d > 0) or (a < 0 and c < 0): hi = True
                    if (a < 0 and d > 0) or (b > 0 and c < 0): lo = True
        return lo, hi


_ts = None
def tanh_sinh():
    """nodes on (0,1) as (distance from the nearer end, side, weight)"""
    global _ts
    if _ts is None:
        h = 0.11
        k = np.arange(-28, 29) * h
        u = np.pi / 2 * np.sinh(k)
        x = 1 / (1 + np.exp(-2 * u))
        w = h * np.pi / 2 * np.cosh(k) / np.cosh(u) ** 2 / 2
        _ts = x, w / w.sum()
    return _ts


def second(op, Z, W, t, left=True):
    """P(Z op W <= t) if left, else P(W op Z <= t), for Z with cdf, cdf_left, breaks, and W a Mix; t a scalar."""
    def at(w):          # vectorised over w
        w = np.asarray(w, float)
        with np.errstate(all="ignore"):
            if op == "+":
                return Z.cdf(t - w)
            if op == "-":
                return Z.cdf(t + w) if left else 1 - Z.cdf_left(w - t)
            if op == "*":
                q = np.where(w != 0, t / np.where(w != 0, w, 1), 0)
                return np.where(w > 0, Z.cdf(q), np.where(w < 0, 1 - Z.cdf_left(q), float(t >= 0)))
            if op == "/" and left:
                return np.where(w > 0, Z.cdf(t * w), 1 - Z.cdf_left(t * w))
            if op == "/":
                z0 = Z.cdf(0.0)
                if t == 0:
                    y = np.where(w > 0, z0, 1 - z0)
                else:
                    q = w / t
                    if t > 0:
                        y = np.where(w > 0, z0 + 1 - Z.cdf_left(q), 1 - z0 + Z.cdf(q))
                    else:
                        y = np.where(w > 0, z0 - Z.cdf_left(q), Z.cdf(q) - z0)
                return np.where(w == 0, float(t >= 0), y)
            if op == "min":
                return np.where(w <= t, 1.0, Z.cdf(np.full_like(w, t)))
            if op == "max":
                return np.where(w <= t, Z.cdf(np.full_like(w, t)), 0.0)
    F = 0.0
    if W.atoms:
        xs = np.array(list(W.atoms)); ps = np.array(list(W.atoms.values()))
        F += float(np.dot(ps, at(xs)))
    br = np.array(Z.breaks())
    with np.errstate(all="ignore"):
        if op == "+": kn = t - br
        elif op == "-": kn = br - t if left else br + t
        elif op == "*": kn = t / br if t != 0 else np.array([0.0])
        elif op == "/": kn = br / t if left else br * t
        else: kn = np.array([t])
    kn = kn[np.isfinite(kn)]
    x, wt = tanh_sinh()
    for p, c, d in W.uni:
        ks = np.unique(np.concatenate([[c, d], kn[(kn > c) & (kn < d)], [0.0] if c < 0 < d else []]))
        lo, hi = ks[:-1, None], ks[1:, None]
        val = at(lo + (hi - lo) * x[None, :])
        F += p * float(np.sum((hi - lo)[:, 0] * (val @ wt))) / (d - c)
    return F
