"""P04: functions of one variable against probabilities of exact preimages."""
import numpy as np
from mc import laws as L
from mc import p02

LEVEL = "model_checking"
RULE = ("states are a variable with a sequence of functions applied; transitions apply one of the supported functions; the model carries "
        "sets of reals backwards through the functions (exact preimages with open and closed ends) and measures them with the law of the "
        "variable; every state reachable in one step (two steps over a smaller alphabet) is built on the library and its atoms, mass, "
        "distribution function, survival function and density are compared; a state is legal when the domain of the function has probability one")
ASSUMPTIONS = ["distribution functions agree to 2e-6 (5e-5 when a density pole away from zero is involved), densities to 2e-3 relative to the local scale"]
CPU_LIMIT = 120
INF = float("inf")

# ---- sets: lists of (cut, cut); a cut (v, -1) lies just before v and (v, +1) just after it
ALL = ((-INF, -1), (INF, 1))
POS = ((0.0, 1), (INF, 1))
NEG = ((-INF, -1), (0.0, -1))
NNEG = ((0.0, -1), (INF, 1))


def mono(dom, img, inc, fwd, inv):
    return ("mono", dom, img, inc, fwd, inv)


def const(dom, v):
    return ("const", dom, None, None, lambda x: v, None)


def pre_piece(p, S):
    kind, dom, img, inc, fwd, inv = p
    if kind == "const":
        v = fwd(0)
        return [dom] if any(l < (v, 0) < r for l, r in S) else []
    out = []
    for l, r in S:
        l, r = max(l, img[0]), min(r, img[1])
        if l >= r:
            continue
        if inc:
            a = dom[0] if l <= img[0] else (inv(l[0]), l[1])
            b = dom[1] if r >= img[1] else (inv(r[0]), r[1])
        else:
            a = dom[0] if r >= img[1] else (inv(r[0]), -r[1])
            b = dom[1] if l <= img[0] else (inv(l[0]), -l[1])
        if a < b:
            out.append((a, b))
    return out


def pre(g, S, consts=True):
    out = []
    for p in g:
        if consts or p[0] == "mono":
            out += pre_piece(p, S)
    return out


def affine(a, b):
    return [mono(ALL, ALL, a > 0, lambda x: a * x + b, lambda y: (y - b) / a)]


def power(al):
    img = POS
    return [mono(POS, img, al > 0, lambda x: np.power(x, al), lambda y: np.power(y, 1.0 / al))]


def recip(c):
    s = c > 0
    if s:
        return [mono(NEG, NEG, False, lambda x: c / x, lambda y: c / y), mono(POS, POS, False, lambda x: c / x, lambda y: c / y)]
    return [mono(NEG, POS, True, lambda x: c / x, lambda y: c / y), mono(POS, NEG, True, lambda x: c / x, lambda y: c / y)]


def cpow(c):
    return [mono(ALL, POS, c > 1, lambda x: np.power(c, x), lambda y: np.log(y) / np.log(c))]


def _tanhinv(y): return np.arctanh(y)
def _sig(x): return 1.0 / (1.0 + np.exp(-x)) if x > -700 else 0.0


def seg(a, b): return ((a, -1), (b, 1))
def box(a, b): return ((a, 1), (b, -1))


PI = np.pi
SIN = [mono(seg(-PI / 2, PI / 2), seg(-1.0, 1.0), True, np.sin, np.arcsin),
       mono(((PI / 2, 1), (1.5 * PI, 1)), ((-1.0, -1), (1.0, -1)), False, np.sin, lambda y: PI - np.arcsin(y))]
COS = [mono(seg(0.0, PI), seg(-1.0, 1.0), False, np.cos, np.arccos),
       mono(((PI, 1), (2 * PI, 1)), ((-1.0, 1), (1.0, 1)), True, np.cos, lambda y: 2 * PI - np.arccos(y))]
TAN = [mono(box(-PI / 2, PI / 2), ALL, True, np.tan, np.arctan)]

# name -> (expression on the library, pieces)
F = {
    "X+1.5": affine(1, 1.5), "X-2": affine(1, -2), "1-X": affine(-1, 1), "-X": affine(-1, 0), "2*X": affine(2, 0), "X*-0.5": affine(-0.5, 0),
    "X/4": affine(0.25, 0), "X/-3": affine(-1 / 3., 0), "3*X-1": affine(3, -1), "X*100": affine(100, 0), "0.5+X": affine(1, 0.5),
    "1/X": recip(1.0), "-2/X": recip(-2.0), "X**-1": recip(1.0),
    "abs(X)": [mono(((-INF, -1), (0.0, -1)), POS, False, lambda x: -x, lambda y: -y), mono(NNEG, NNEG, True, lambda x: x, lambda y: y)],
    "4*X": affine(4, 0), "6*X": affine(6, 0), "3*X-1.5": affine(3, -1.5), "X-1": affine(1, -1),
    "X**2": [mono(NEG, POS, False, lambda x: x * x, lambda y: -np.sqrt(y)), mono(NNEG, NNEG, True, lambda x: x * x, np.sqrt)],
    "X**1": affine(1, 0),
    "X**3": power(3.0), "X**-2": power(-2.0), "X**0.5": power(0.5), "X**1.5": power(1.5), "sqrt(X)": power(0.5), "X**-0.5": power(-0.5),
    "exp(X)": [mono(ALL, POS, True, lambda x: np.exp(x), np.log)],
    "log(X)": [mono(POS, ALL, True, lambda x: np.log(x), np.exp)],
    "2**X": cpow(2.0), "0.5**X": cpow(0.5),
    "atan(X)": [mono(ALL, box(-PI / 2, PI / 2), True, np.arctan, np.tan)],
    "tanh(X)": [mono(ALL, box(-1.0, 1.0), True, np.tanh, _tanhinv)],
    "sigmoid(X)": [mono(ALL, box(0.0, 1.0), True, _sig, lambda y: np.log(y / (1 - y)))],
    "sign(X)": [const(NEG, -1.0), const(((0.0, -1), (0.0, 1)), 0.0), const(POS, 1.0)],
    "max(X,0.5)": [const(((-INF, -1), (0.5, 1)), 0.5), mono(((0.5, 1), (INF, 1)), ((0.5, 1), (INF, 1)), True, lambda x: x, lambda y: y)],
    "min(0.5,X)": [mono(((-INF, -1), (0.5, -1)), ((-INF, -1), (0.5, -1)), True, lambda x: x, lambda y: y), const(((0.5, -1), (INF, 1)), 0.5)],
    "sin(X)": SIN, "cos(X)": COS, "tan(X)": TAN,
}
BIN = {"X**2+0": "X**2"}

VQ = ["N01", "N1h", "Exp2", "mExp", "Lap", "Cau2", "Gam", "Chi1", "Par", "Bhh", "B23", "U", "U12", "F35", "Lev", "Wei"]
VM = ["u01", "um11", "um10", "um3m1", "gap", "step", "a0", "ain", "aend", "aout", "bern", "pm", "c2", "cmh", "big"]
POLES = ("Chi1", "Gam", "Bhh", "Semi", "Lev")
EXTRA = {"uhp": ([(1, -1.25, 1.25)], []), "u26": ([(1, 0.1, 6.1)], []), "u14": ([(1, -1.25, 4.5)], []), "ma": ([(0.5, -1, 1)], [(0.25, 0), (0.25, 1)])}
S2 = ["N1h", "Exp2", "Chi1", "U12", "u01", "um11", "a0", "ain", "pm", "gap"]
F2 = ["X+1.5", "1-X", "X*-0.5", "1/X", "abs(X)", "X**2", "X**3", "sqrt(X)", "exp(X)", "log(X)", "2**X", "atan(X)", "tanh(X)", "sigmoid(X)", "sign(X)", "max(X,0.5)", "min(0.5,X)"]


class Ref(object):
    def __init__(self, n):
        if n in L.DEFS:
            l = L.law(n)
            self.cdf = self.cdfm = lambda v: float(l.d.cdf(v))
            self.brk, self.atoms, self.mass = l.brk, [], {}
            self.a, self.b = l.a, l.b
            self.q = [float(v) for v in l.d.ppf([1e-4, 0.01, 0.07, 0.21, 0.4, 0.56, 0.7, 0.9, 0.98, 0.9995])]
            self.scale = self.q[6] - self.q[3]
            self.sf = lambda v: float(l.d.sf(v))
        else:
            uni, at = (p02.V.get(n) or EXTRA.get(n))
            from mc import bounded as B
            m = B.Mix(uni, at)
            self.cdf = lambda v: float(m.cdf(v))
            self.cdfm = lambda v: float(m.cdf(v)) - m.atoms.get(float(v), 0.0)
            self.brk, self.atoms, self.mass = m.breaks(), sorted(m.atoms), dict(m.atoms)
            self.a, self.b = self.brk[0], self.brk[-1]
            self.q = []
            for w, a, b in m.uni:
                self.q += [a + (b - a) * t for t in (0.004, 0.11, 0.3, 0.52, 0.77, 0.99)]
            self.scale = max(self.b - self.a, 0.1)
    def at(self, cut):
        v, s = cut
        if v == -INF: return 0.0
        if v == INF: return 1.0
        return self.cdf(v) if s > 0 else self.cdfm(v)
    def prob(self, S):
        return sum(self.at(r) - self.at(l) for l, r in S)
    def cont(self, S):
        """probability of S under the continuous part"""
        return self.prob(S) - sum(self.mass[a] for a in self.atoms if any(l < (a, 0) < r for l, r in S))


@np.errstate(all="ignore")
def legal(X, fs):
    """all domains carry probability one, and stay away from the edges of what the functions can be applied to"""
    for k in range(len(fs)):
        S = [p[1] for p in F[fs[k]]]
        for f in reversed(fs[:k]):
            S = pre(F[f], S)
        if abs(X.prob(S) - 1) > 1e-12:
            return False
        # values beyond the floating point range are not part of the state space
        if X.prob(preimage(fs[:k + 1], [((1e300, -1), (INF, 1)), ((-INF, -1), (-1e300, 1))], False)) > 1e-9:
            return False
    return True


def fwd(fs, x):
    """images of x (a float) under the composition"""
    with np.errstate(all="ignore"):
        for f in fs:
            for p in F[f]:
                if p[1][0] < (x, 0) < p[1][1]:
                    x = float(p[4](x))
                    break
            else:
                return None
    return x if np.isfinite(x) else None


def preimage(fs, S, consts=True):
    with np.errstate(all="ignore"):
        for f in reversed(fs):
            S = pre(F[f], S, consts)
    return S


def image_atoms(X, fs):
    """point masses of the image: those of X carried forward, and the continuous mass every constant piece absorbs"""
    out = []
    for a in X.atoms:
        out.append((fwd(fs, a), X.mass[a]))
    for i, f in enumerate(fs):
        for p in F[f]:
            if p[0] == "const":
                m = X.cont(preimage(fs[:i], [p[1]], False))
                if m > 1e-12:
                    out.append((fwd(fs[i + 1:], p[4](0)), m))
    atoms = {}
    for y, m in out:
        k = next((k for k in atoms if abs(y - k) < 1e-9 * max(1, abs(y))), y)
        atoms[k] = atoms.get(k, 0.0) + m
    return atoms


@np.errstate(all="ignore")
def resolution(X, fs):
    """probability of what floating point cannot tell apart: values within a few ulps of a nonzero special point, or overflowing"""
    t = 0.0
    ks = set(X.brk)
    for i, f in enumerate(fs):
        new = set()
        for p in F[f]:
            for cut in (p[1] if p[0] == "const" else p[1] + p[2]):
                new.add(cut[0])
        ks = set(y for y in (fwd([f], k) for k in ks) if y is not None) | set(k for k in new if np.isfinite(k))
        S = [((1e300, -1), (INF, 1)), ((-INF, -1), (-1e300, 1))]
        for k in ks:
            e = (1e-11 if f in ("tanh(X)", "sigmoid(X)") else 32 * np.spacing(abs(k))) if k != 0 else 1e-45
            S.append(((k - e, -1), (k + e, 1)))
        t += X.cont(preimage(fs[:i + 1], S, False))
    return 4 * t


def impl(n):
    if n in L.DEFS:
        return L.impl(n)
    if n in EXTRA:
        p02.V[n] = EXTRA[n]
    return p02.impl(n)


def cases(tier):
    out = []
    for v in (VQ if tier == "quick" else list(L.DEFS)) + VM + list(EXTRA):
        X = Ref(v)
        for f in F:
            if f not in ("4*X", "6*X", "3*X-1.5", "X-1") and legal(X, [f]):
                out.append({"id": "%s: %s" % (v, f), "v": v, "fs": [f], "cost": 1})
    for v in ("B23", "U12", "gap", "step", "Bhh", "u01", "ain", "Gam", "N1h"):
        for f in ("4*X", "6*X", "3*X-1.5", "X-1", "X/4", "atan(X)", "tanh(X)", "sigmoid(X)"):
            for g in ("sin(X)", "cos(X)", "tan(X)"):
                if legal(Ref(v), [f, g]) and not (v == "N1h" and f in ("X/4", "6*X", "4*X")):
                    out.append({"id": "%s: %s; %s" % (v, f, g), "v": v, "fs": [f, g], "cost": 1})
    f2 = F2 if tier == "quick" else [f for f in F if f not in ("4*X", "6*X", "3*X-1.5", "X-1", "sin(X)", "cos(X)", "tan(X)")]
    for v in S2 + (["N01", "Lap", "um3m1", "aout", "Gam"] if tier != "quick" else []):
        X = Ref(v)
        for f in f2:
            for g in f2:
                if legal(X, [f, g]) and big_ok(X, [f, g]) and resolution(X, [f, g]) < 4e-3:
                    out.append({"id": "%s: %s; %s" % (v, f, g), "v": v, "fs": [f, g], "cost": 1})
    return out


@np.errstate(all="ignore")
def big_ok(X, fs):
    """compositions whose values overflow are left out"""
    for x in X.q + X.brk + X.atoms:
        y = fwd(fs, x)
        if y is not None and abs(y) > 1e12:
            return False
    return True


def build(X, fs):
    import pacal as P
    from pacal.distr import sigmoid
    env = {k: getattr(P, k) for k in ("exp", "log", "atan", "tanh", "sign", "sqrt", "min", "max", "sin", "cos", "tan")}
    env["sigmoid"] = sigmoid
    env["abs"] = abs
    for f in fs:
        X = eval(f, dict(env, X=X))
    return X


def run(case, R):
    fs = case["fs"]
    X = Ref(case["v"])
    Z = build(impl(case["v"]), fs)
    what = case["id"]
    R.states += 1
    R.transitions += len(fs)
    R.traces += 1
    # image points
    ys = set()
    for x in X.q + X.brk + X.atoms:
        y = fwd(fs, x)
        if y is not None:
            ys.add(y)
    ys = sorted(ys)
    atoms = image_atoms(X, fs)
    span = (ys[-1] - ys[0]) or 1.0
    pts = list(ys) + [(a + b) / 2 for a, b in zip(ys, ys[1:])] + [ys[0] - 0.3 * span, ys[-1] + 0.3 * span, 0.0, ys[0] - 5 * span, ys[-1] + 5 * span]
    # atoms are reached with rounding: look just below and just above them
    near = lambda y: any(abs(y - k) < 1e-7 * max(1, abs(k)) for k in atoms)
    pts = [y for y in pts if not near(y)]
    for k in atoms:
        pts += [k - 1e-7 * max(1, abs(k)), k + 1e-7 * max(1, abs(k))]
    pts = sorted(set(pts))
    cdf = lambda t: X.cont(preimage(fs, [((-INF, -1), (t, 1))], False)) + sum(m for k, m in atoms.items() if k <= t)
    C = [cdf(y) for y in pts]
    C = np.array(C)
    y = np.array(pts)
    R.seen([round(float(c), 6) for c in C])
    res = resolution(X, fs)
    poles = res > 1e-8 or case["v"] in ("Bhh", "Semi")
    # densities with a pole are interpolated on a logarithmic scale by min and max
    interp = case["v"] in POLES and any(f[:3] in ("min", "max") for f in fs)
    poles = poles or interp
    tol = res + (2e-4 if poles else 2e-6 if len(fs) == 1 else 1e-5)
    R.close("cdf", Z.cdf(y), C, tol, what + " cdf")
    R.close("cdf scalar", [float(Z.cdf(float(v))) for v in y[::3]], C[::3], tol, what + " cdf(number)")
    R.close("ccdf", Z.ccdf(y), 1 - C, tol, what + " ccdf")
    PW = Z.get_piecewise_pdf()
    R.close("mass", PW.integrate(), 1.0, tol, what + " mass")
    got = {}
    for s in PW.getDiracs():
        if abs(s.f) > 1e-10:
            k = next((k for k in got if abs(k - s.a) < 1e-12 * max(1, abs(k))), float(s.a))
            got[k] = got.get(k, 0.0) + float(s.f)
    ok = len(got) == len(atoms) and all(any(abs(k - a) <= 1e-9 * max(1, abs(a)) and abs(got[k] - m) < tol for k in got) for a, m in atoms.items())
    R.true("atoms", ok, "%s: point masses %s, expected %s" % (what, sorted(got.items()), sorted(atoms.items())))
    # density away from kinks, from a central difference of the exact distribution function
    kinks = [k for k in (fwd(fs, x) for x in X.brk + X.atoms + [0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5]) if k is not None] + list(atoms)
    for i, f in enumerate(fs):
        for p in F[f]:
            for cut in (p[1] if p[0] == "const" else p[1] + p[2]):
                if np.isfinite(cut[0]):
                    for k in (fwd(fs[i:], cut[0]), fwd(fs[i + 1:], cut[0])):
                        if k is not None: kinks.append(k)
    dy, dw = [], []
    F1 = cdf
    for v in y:
        d = min([abs(v - k) for k in kinks] + [span])
        if d < 1e-6 * span:
            continue
        h = 0.004 * d
        f1, f2 = (F1(v + h) - F1(v - h)) / (2 * h), (F1(v + 2 * h) - F1(v - 2 * h)) / (4 * h)
        if abs(f1 - f2) <= 3e-4 * abs(f1) + 1e-9 and h * f1 > 1e-9 or (f1 == 0 and f2 == 0):
            dy.append(v)
            dw.append((4 * f1 - f2) / 3)
    if dy and not atoms_only(fs):
        dy, dw = np.array(dy), np.array(dw)
        tp = (8e-2 if interp else 1e-2 if poles else 2e-3) * np.abs(dw) + 1e-4 * max(dw.max(), 1e-3) * (30 if poles else 1)
        R.close("density piecewise", PW(dy), dw, tp, what + " piecewise density")
        if not X.atoms and not atoms:
            R.close("density", Z.pdf(dy), dw, tp, what + " pdf")
            R.close("density scalar", [float(Z.pdf(float(v))) for v in dy], dw, tp, what + " pdf(number)")
    R.sample = "%s: P(<=%.6g)=%.9f" % (what, y[len(y) // 2], C[len(y) // 2])


def atoms_only(fs):
    return "sign(X)" in fs
