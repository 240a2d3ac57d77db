"""P13: formulas, sources, dependence and ranges of expressions, over every expression of a bounded grammar."""
import itertools
import re
import warnings
import numpy as np

LEVEL = "model_checking"
RULE = ("states are the nodes of every expression of a bounded grammar (four distributions with bounded, half-bounded and unbounded support, or three abstract variables; all operators and functions; shared "
        "subexpressions), built by applying one operation at a time to states reached before; on each state the formula is expanded through the library's symbols and through "
        "getEquations and evaluated on every point of a grid of source values against the typed expression, the sources, ancestors and derived nodes are compared with those of the typed tree, and the "
        "expression's values over the grid of the supports (with large values for infinite supports) must lie in the reported range; every ordered pair of states of one and two levels is combined and the dependence warning compared with the intersection of the sources")
ASSUMPTIONS = ["formulas are compared as functions, on a grid, not as text", "numbers inside min and max appear as constant variables"]
CPU_LIMIT = 200

UN = ["neg", "inv", "abs", "sq", "cube", "root", "exp", "log", "atan", "tanh", "sig", "sin", "cos", "tan", "sign", "+2", "3-", "*2", "*-0.5", "/4", "2/", "2**", "-1.5", "min1", "1max", "+0", "**-1", "**-2", "**0.5", "0.5**"]
BI = ["+", "-", "*", "/", "min", "max", "**"]
RV_UN = [u for u in UN if u not in ("sig", "sin", "cos", "tan", "min1", "1max")]
SRC = ["x", "y", "u", "d"]          # U(1/2,2), N(0,1), U(-1,1), discrete on 1, 3
SUPP = {"x": [0.5, 0.8, 1.0, 1.7, 2.0], "y": [-300.0, -30.0, -2.0, -0.3, 0.7, 1.0, 5.0, 40.0, 300.0], "u": [-1.0, -0.6, -1e-9, 1e-9, 0.4, 1.0], "d": [1.0, 3.0], "e": [1e-6, 1e-3, 0.3, 1.0, 4.0, 1e5]}
EVAL = {"x": [0.6, 1.3, 1.9], "y": [-1.1, 0.4, 2.3], "u": [-0.7, 0.2, 0.9], "d": [1.0, 3.0, 3.0], "e": [0.2, 0.9, 3.1]}


def num(o, *a):
    """an operation on numbers"""
    with np.errstate(all="ignore"):
        if len(a) == 2:
            x, y = [np.float64(t) for t in a]
            if np.isnan(x) or np.isnan(y): return np.nan
            if o == "**": return np.exp(y * np.log(x))
            if o == "/": return x / y if y != 0 else np.nan
            return {"+": x + y, "-": x - y, "*": x * y, "min": min(x, y), "max": max(x, y)}[o]
        x = np.float64(a[0])
        inv = lambda: 1 / x if x != 0 else np.nan
        return {"neg": lambda: -x, "inv": inv, "**-1": inv, "abs": lambda: abs(x), "sq": lambda: x * x, "cube": lambda: x ** 3 if x >= 0 else np.nan, "root": lambda: np.sqrt(x), "**0.5": lambda: np.sqrt(x), "exp": lambda: np.exp(x),
                "log": lambda: np.log(x) if x > 0 else np.nan, "atan": lambda: np.arctan(x), "tanh": lambda: np.tanh(x), "sig": lambda: 1 / (1 + np.exp(-x)), "sin": lambda: np.sin(x), "cos": lambda: np.cos(x), "tan": lambda: np.tan(x),
                "sign": lambda: np.sign(x) if x != 0 else np.nan, "+2": lambda: x + 2, "3-": lambda: 3 - x, "*2": lambda: x * 2, "*-0.5": lambda: x * -0.5, "/4": lambda: x / 4, "2/": lambda: 2 * inv(), "2**": lambda: 2 ** x, "0.5**": lambda: 0.5 ** x,
                "-1.5": lambda: x - 1.5, "min1": lambda: min(x, 1.0), "1max": lambda: max(1.0, x), "+0": lambda: x + 0, "**-2": lambda: 1 / x ** 2 if x > 0 else np.nan}[o]()


def lib(o, m, *a):
    """the same on the library; m: functions"""
    if len(a) == 2:
        x, y = a
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "min": lambda: m.min(x, y), "max": lambda: m.max(x, y), "**": lambda: x ** y}[o]()
    x, = a
    return {"neg": lambda: -x, "inv": lambda: 1 / x, "**-1": lambda: x ** -1, "abs": lambda: abs(x), "sq": lambda: x ** 2, "cube": lambda: x ** 3, "root": lambda: m.sqrt(x), "**0.5": lambda: x ** 0.5, "exp": lambda: m.exp(x),
            "log": lambda: m.log(x), "atan": lambda: m.atan(x), "tanh": lambda: m.tanh(x), "sig": lambda: m.sigmoid(x), "sin": lambda: m.sin(x), "cos": lambda: m.cos(x), "tan": lambda: m.tan(x), "sign": lambda: m.sign(x), "+2": lambda: 2 + x,
            "3-": lambda: 3 - x, "*2": lambda: 2 * x, "*-0.5": lambda: x * -0.5, "/4": lambda: x / 4, "2/": lambda: 2 / x, "2**": lambda: 2 ** x, "0.5**": lambda: 0.5 ** x, "-1.5": lambda: x - 1.5, "min1": lambda: m.min(x, 1),
            "1max": lambda: m.max(1, x), "+0": lambda: x + 0, "**-2": lambda: x ** -2}[o]()


class Node(object):
    """a state: library object, tree, child states"""
    def __init__(self, obj, op, kids, name=None):
        self.obj, self.op, self.kids, self.name = obj, op, kids, name
        self.src = set([name]) if name else set().union(*[k.src for k in kids])
        self.depth = 0 if name else 1 + max(k.depth for k in kids)
    def __str__(self):
        return self.name or "%s(%s)" % (self.op, ",".join(map(str, self.kids)))
    def at(self, env, memo=None):
        memo = {} if memo is None else memo
        if id(self) not in memo:
            memo[id(self)] = np.float64(env[self.name]) if self.name else num(self.op, *[k.at(env, memo) for k in self.kids])
        return memo[id(self)]
    def tree(self):
        out = [self]
        for k in self.kids:
            out += [t for t in k.tree() if t not in out]
        return out


class MRV(object):
    """functions for abstract variables"""
    def __init__(self):
        import pacal as P
        from pacal import rv
        self.min, self.max = rv.min, rv.max
        for n in ("sqrt", "exp", "log", "atan", "tanh", "sign"):
            setattr(self, n, getattr(P, n))


def sources(kind, named):
    import pacal as P
    from pacal.rv import RV
    s = lambda n: {"sym": n} if named else {}
    if kind == "distr":
        d = {"x": P.UniformDistr(0.5, 2, **s("x")), "y": P.NormalDistr(0, 1, **s("y")), "u": P.UniformDistr(-1, 1, **s("u")), "d": P.DiscreteDistr([1.0, 3.0], [0.5, 0.5])}
    else:
        d = {"x": RV(a=0.5, b=2.0, **s("x")), "y": RV(a=-np.inf, b=np.inf, **s("y")), "u": RV(a=-1.0, b=1.0, **s("u")), "e": RV(a=0.0, b=np.inf, **s("e"))}
    return dict((k, Node(v, None, [], k)) for k, v in d.items())


def build(R, kind, o, kids, refused=None):
    import pacal as P
    m = P if kind == "distr" else MRV()
    if kind == "rv" and o == "root" and kids[0].obj.range()[0] < 0:
        return None                       # the square root of an abstract variable is not checked
    try:
        v = lib(o, m, *[k.obj for k in kids])
    except ValueError as e:
        # refused: only when the operand is not known to be positive
        if o in ("log", "root", "**0.5", "cube", "**-2", "**"):
            lo = kids[0].obj.range()[0]
            R.true("refused", lo <= 0 or np.isnan(lo), "%s(%s) refused although the range of the operand is %s" % (o, ",".join(map(str, kids)), kids[0].obj.range()))
        else:
            R.fail("refused", "%s(%s): %s" % (o, ",".join(map(str, kids)), e))
        return None
    if not hasattr(v, "getSym"):
        R.fail("build", "%s(%s) is %r" % (o, ",".join(map(str, kids)), v))
        return None
    return Node(v, o, list(kids))


def singular(n, o):
    """would the operation be applied outside of its domain with positive probability, or to a reciprocal of zero?"""
    kid = n
    vals = []
    for env in envs(n, EVAL):
        v = kid.at(env)
        if not np.isnan(v): vals.append(v)
    if not vals:
        return True
    if o in ("sin",): return min(vals) < -1.5 or max(vals) > 4.7
    if o in ("cos",): return min(vals) < 0 or max(vals) > 6.2
    if o == "tan": return min(vals) < -1.5 or max(vals) > 1.5
    return False


def envs(n, table):
    names = sorted(n.src)
    for t in itertools.product(*[table[k] for k in names]):
        yield dict(zip(names, t))


TRIG_OK = {"sin": ("x", "u"), "cos": ("x",), "tan": ("u",)}


def cases(tier):
    out = []
    for kind in ("distr", "rv"):
        for named in (True, False):
            out.append({"id": "%s one level%s" % (kind, " named" if named else ""), "kind": "one", "k": kind, "named": named})
        un = UN if kind == "distr" else RV_UN
        for o in un + BI:
            out.append({"id": "%s second level %s" % (kind, o), "kind": "two", "k": kind, "o": o, "full": tier != "quick"})
    for g in range(8 if tier == "quick" else 24):
        out.append({"id": "three levels %d" % g, "kind": "three", "g": g, "n": 8 if tier == "quick" else 24, "full": tier != "quick"})
    out.append({"id": "dependence one level", "kind": "dep1"})
    for g in range(6):
        out.append({"id": "dependence two levels %d" % g, "kind": "dep2", "g": g})
    for kind in ("distr", "rv"):
        for o in ["+", "*", "/", "max"]:
            out.append({"id": "renaming %s %s" % (kind, o), "kind": "renaming", "k": kind, "o": o})
        for k in range(4):
            out.append({"id": "namesakes %s %d" % (kind, k), "kind": "namesakes", "k": kind, "n": k})
    out.append({"id": "numbers", "kind": "numbers"})
    return out


def run(case, R):
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        globals()[case["kind"]](case, R)


# ------------------------------------------------------------------ checks of one state
def follow(v, env, memo):
    """value of a variable: its formula applied to the values of its parents"""
    if id(v) not in memo:
        if not v.parents:
            memo[id(v)] = env.get(v.getSymname())
        else:
            memo[id(v)] = number(v.getSym(), [(p.getSymname(), follow(p, env, memo)) for p in v.parents])
    return memo[id(v)]


def solve(name, eqs, env, memo, depth=0):
    """value of a name through the list of equations"""
    if name in env: return env[name]
    if not name.is_Symbol: return number(name, [])
    if name not in eqs or depth > 20: return None
    if name not in memo:
        memo[name] = number(eqs[name], [(t, solve(t, eqs, env, memo, depth + 1)) for t in eqs[name].free_symbols])
    return memo[name]


_compiled = {}


def consts(v, out, seen):
    if id(v) in seen: return
    seen.add(id(v))
    if hasattr(v, "c") and not v.parents:
        out[v.getSymname()] = v.c
    for p in v.parents:
        consts(p, out, seen)


def close(a, b):
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def number(f, sub):
    import sympy
    if any(t is None for n, t in sub): return None
    names = sorted(f.free_symbols, key=str)
    val = dict(sub)
    if any(n not in val for n in names): return None
    args = [val[n] for n in names]
    if f not in _compiled:
        if len(_compiled) > 20000: _compiled.clear()
        _compiled[f] = sympy.lambdify(names, f, "math")
    try:
        z = _compiled[f](*args)
        if isinstance(z, complex) and abs(z.imag) > 1e-12 * max(1.0, abs(z.real)): return None
        return float(z.real) if isinstance(z, complex) else float(z)
    except (TypeError, ValueError, ZeroDivisionError, OverflowError):
        return None


_token = re.compile(r"\s*(\*\*|[-+*/(),|]|[A-Za-z_@][A-Za-z_0-9]*|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")
_funcs = {"exp": np.exp, "log": np.log, "atan": np.arctan, "tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "sin": np.sin, "cos": np.cos, "tan": np.tan, "sign": np.sign, "sqr": lambda x: x * x,
          "min": lambda x, y: np.where(np.isnan(x + y), np.nan, np.minimum(x, y)), "max": lambda x, y: np.where(np.isnan(x + y), np.nan, np.maximum(x, y))}


class Unreadable(Exception):
    pass


def read(text, val):
    """value of a printed name, read with the usual precedence of the operators; val: values of the leaves @k"""
    toks, p = [], 0
    while p < len(text.rstrip()):
        m = _token.match(text, p)
        if not m: raise Unreadable(text)
        toks.append(m.group(1)); p = m.end()
    toks.append("")
    pos = [0]
    def nxt(t=None):
        u = toks[pos[0]]
        if t is not None and u != t: raise Unreadable("%s: %r expected at token %d" % (text, t, pos[0]))
        pos[0] += 1
        return u
    def add():
        v = mul()
        while toks[pos[0]] in ("+", "-"):
            o = nxt(); w = mul()
            v = v + w if o == "+" else v - w
        return v
    def mul():
        v = fac()
        while toks[pos[0]] in ("*", "/"):
            o = nxt(); w = fac()
            v = v * w if o == "*" else v / w
        return v
    def fac():
        if toks[pos[0]] in ("-", "+"):
            o = nxt(); w = fac()
            return -w if o == "-" else w
        v = atom()
        if toks[pos[0]] == "**":
            nxt(); v = v ** fac()
        return v
    def atom():
        t = nxt()
        if t in ("(", "|"):
            v = add(); nxt(")" if t == "(" else "|")
            return abs(v) if t == "|" else v
        if t in val: return val[t]
        if t in _funcs:
            nxt("("); a = [add()]
            while toks[pos[0]] == ",":
                nxt(); a.append(add())
            nxt(")")
            return _funcs[t](*a)
        try:
            return np.float64(t)
        except ValueError:
            raise Unreadable("%s: token %r" % (text, t))
    v = add(); nxt("")
    return float(v)


def judge_name(R, n):
    """the printed name, read with the names of the sources as variables"""
    text = n.obj.getName()
    leaf = sorted(set((t.obj.getName(), t.name) for t in n.tree() if t.name), key=lambda t: -len(t[0]))
    for s, k in leaf:
        text = text.replace(s, "@" + k)
    k = 0
    for env in envs(n, EVAL):
        w = n.at(env)
        if not np.isfinite(w) or abs(w) > 1e30: continue
        k += 1
        if k > 4: break
        R.transitions += 1
        try:
            z = read(text, dict(("@" + t, np.float64(v)) for t, v in env.items()))
        except Unreadable as e:
            R.fail("name", "%s: the name %s cannot be read (%s)" % (n, n.obj.getName(), e))
            return
        if not close(z, w):
            R.fail("name", "%s: the name %s reads as %r at %s, expected %r" % (n, n.obj.getName(), z, env, w))
            return


def judge_sources(R, n):
    """sources and ancestors"""
    v, nm = n.obj, str(n)
    if n.op:
        leaf = [t for t in n.tree() if t.name]
        own = set(t.obj for t in leaf)
        got = v.getParentsFree()
        extra = [t for t in got - own if not hasattr(t, "c")]
        R.true("sources", own <= got and not extra, "%s: sources %s, expected %s" % (nm, got, own))
        allp = v.getParentsAll()
        R.true("parents", set(t.obj for t in n.tree()) <= allp, "%s: getParentsAll misses %s" % (nm, [str(t) for t in n.tree() if t.obj not in allp]))
        R.true("parents", v.getParentsDep() == set(t for t in allp if t.parents), "%s: getParentsDep" % nm)
        anc = v.getAncestorIDs()
        R.true("ancestors", anc == set(t.id() for t in allp), "%s: getAncestorIDs" % nm)
        R.true("linked", v.isLinked() and not v.isFree(), "%s: isFree/isLinked" % nm)


def judge(R, n, kind, formula=True):
    v = n.obj
    R.states += 1
    nm = str(n)
    judge_sources(R, n)
    # range
    a, b = v.range()
    nonneg = (n.depth <= 1 or kind == 'rv') and v.is_nonneg()       # needs the density of a distribution
    tab = SUPP
    for env in envs(n, tab):
        w = n.at(env)
        R.evals += 1
        if np.isnan(w):
            continue
        t = 1e-9 * max(1.0, abs(w)) if np.isfinite(w) else 0
        if not a - t <= w <= b + t:
            R.fail("range", "%s takes the value %r at %s, reported range (%r, %r)" % (nm, w, env, a, b))
            break
        if w < -t and nonneg:
            R.fail("nonneg", "%s takes the value %r at %s and is reported nonnegative" % (nm, w, env))
            break
    for s in (str(v), repr(v), v.getName()):
        R.true("text", isinstance(s, str), nm)
    judge_name(R, n)
    if not formula:
        return
    # formula: through parents and through the equations
    cs = {}
    consts(v, cs, set())
    leaf = dict((t.name, t.obj.getSymname()) for t in n.tree() if t.name)
    for t in n.tree():
        if t.op:
            ps = set(p.getSymname() for p in t.obj.parents)
            R.true("symbols", t.obj.getSym().free_symbols <= ps, "%s: formula %s contains symbols that are no operands" % (t, t.obj.getSym()))
    l, r = v.getEquations()
    eqs = dict(zip(r, l))
    k = 0
    for env in envs(n, EVAL):
        w = n.at(env)
        if not np.isfinite(w) or abs(w) > 1e30:
            continue
        k += 1
        if k > 5:
            break
        sub = dict([(s, float(env[t])) for t, s in leaf.items()] + list(cs.items()))
        z = follow(v, sub, {})
        R.transitions += 2
        if z is None or not close(z, w):
            R.fail("formula", "%s: formula %s gives %s at %s, expected %r" % (nm, v.getSym(), z, env, w))
            return
        if not any(t.op and t.obj.getSym().is_Atom for t in n.tree()):      # equations that sympy reduces to a number or a name are left out
            z = solve(v.getSymname(), eqs, sub, {})
            if z is None or not close(z, w):
                R.fail("equations", "%s: equations %s give %s at %s, expected %r" % (nm, list(zip(r, l)), z, env, w))
                return
    R.seen(str(v.getSym()))


def legal(n, o):
    return not (o in TRIG_OK and (n.name not in TRIG_OK[o]))


def level1(R, kind, S, un, bi):
    out = []
    for o in un:
        for n in S.values():
            if legal(n, o):
                t = build(R, kind, o, [n])
                if t: out.append(t)
    for o in bi:
        for n, m in itertools.product(S.values(), S.values()):
            t = build(R, kind, o, [n, m])
            if t: out.append(t)
    return out


def one(case, R):
    kind = case["k"]
    S = sources(kind, case["named"])
    ns = level1(R, kind, S, UN if kind == "distr" else RV_UN, BI)
    for n in list(S.values()) + ns:
        judge(R, n, kind)
    R.sample = "%s: %s" % (ns[5], ns[5].obj.getSym())


def two(case, R):
    """the operation applied to every state of level one, with every source as second operand"""
    kind, o = case["k"], case["o"]
    S = sources(kind, True)
    L1 = level1(R, kind, S, UN if kind == "distr" else RV_UN, BI)
    if o in BI:
        sec = list(S.values())
        todo = [(n, m) for i, n in enumerate(L1) for m in (sec if case["full"] else [sec[i % len(sec)]])] + [(m, n) for i, n in enumerate(L1) for m in (sec if case["full"] else [sec[(i + 1) % len(sec)]])]
        todo += [(n, n) for n in L1[::7]] + [(n, L1[(i * 5 + 3) % len(L1)]) for i, n in enumerate(L1[::4 if case["full"] else 12])]
    else:
        todo = [(n,) for n in L1]
    for i, kids in enumerate(todo):
        if o in TRIG_OK:
            if any(singular(k, o) for k in kids):
                continue
            # ranges of the periodic functions are only given on the supported interval
            lo, hi = kids[0].obj.range()
            if not (np.isfinite(lo) and np.isfinite(hi)) or singular_range(o, lo, hi):
                continue
        t = build(R, kind, o, kids)
        if t:
            judge(R, t, kind)


def singular_range(o, lo, hi):
    return {"sin": lo < -1.57 or hi > 4.71, "cos": lo < 0 or hi > 6.28, "tan": lo < -1.57 or hi > 1.57}[o]


def three(case, R):
    """deeper, with shared subexpressions"""
    S = sources("distr", True)
    un = ["neg", "inv", "abs", "sq", "exp", "3-", "*2", "atan", "1max"]
    L1 = level1(R, "distr", S, un[:6], ["+", "*", "min", "/"])
    i = 0
    for a, b in itertools.product(*((L1, L1) if case["full"] else (L1[::2], L1[1::3]))):
        for o in ("+", "-", "*", "max"):
            i += 1
            if i % case["n"] != case["g"] or (i // case["n"]) % (1 if case["full"] else 9):
                continue
            t = build(R, "distr", o, [a, b])
            if not t:
                continue
            for u in [un[i % len(un)], un[(i + 4) % len(un)]]:
                w = build(R, "distr", u, [t])
                if w:
                    judge(R, w, "distr", formula=i % 3 == 0 or case["full"])
            w = build(R, "distr", "*", [t, a])
            if w:
                judge(R, w, "distr", formula=i % 3 == 0 or case["full"])


def warned(f):
    from pacal import params
    old = params.general.warn_on_dependent
    params.general.warn_on_dependent = True
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = f()
        return r, any("independent" in str(t.message) for t in w)
    finally:
        params.general.warn_on_dependent = old


def dep(R, n, m, o):
    r, got = warned(lambda: build(R, "distr", o, [n, m]))
    if r is None:
        return
    want = bool(n.src & m.src)
    R.states += 1
    R.transitions += 1
    R.seen((want, n.depth, m.depth))
    R.true("dependence", got == want, "%s and %s: dependence %s, common sources %s" % (n, m, "reported" if got else "not reported", sorted(n.src & m.src)))
    R.true("dependence", bool(n.obj.getAncestorIDs() & m.obj.getAncestorIDs()) == want, "%s and %s: common ancestors" % (n, m))
    # a function of one variable is never a dependence of operands
    t, g = warned(lambda: -r.obj)
    R.true("dependence", not g, "-(%s): warning for a function of one variable" % r)


def dep1(case, R):
    S = sources("distr", True)
    L1 = list(S.values()) + [t for t in level1(R, "distr", S, ["neg", "exp", "sign", "abs", "sin", "2/", "min1", "sq"], ["+", "min"])]
    for n, m in itertools.product(L1, L1):
        dep(R, n, m, "+")
    for n, m in itertools.product(L1[::3], L1[::2]):
        for o in ("-", "*", "min", "max"):
            dep(R, n, m, o)


def dep2(case, R):
    S = sources("distr", True)
    L1 = list(S.values()) + level1(R, "distr", S, ["neg", "exp"], ["+", "*"])
    L2 = [t for t in [build(R, "distr", o, [n, m]) for n, m in itertools.product(L1[::2], L1[::5]) for o in ("-", "max")] if t]
    L2 += [t for t in [build(R, "distr", o, [n]) for n in L1 for o in ("atan", "sign", "+2")] if t]
    for n, m in itertools.product(L1[::3] + L2[::4], L2[case["g"]::6]):
        dep(R, n, m, "+")


def namesakes(case, R):
    """sources are told apart by identity, whatever their symbols: every assignment of two symbols to three sources"""
    import pacal as P
    from pacal.rv import RV
    kind = case["k"]
    for syms in list(itertools.product("pq", repeat=3))[case["n"]::4]:
        if kind == "distr": d = {"x": P.UniformDistr(0.5, 2, sym=syms[0]), "y": P.NormalDistr(0, 1, sym=syms[1]), "u": P.UniformDistr(-1, 1, sym=syms[2])}
        else: d = {"x": RV(a=0.5, b=2.0, sym=syms[0]), "y": RV(a=-np.inf, b=np.inf, sym=syms[1]), "u": RV(a=-1.0, b=1.0, sym=syms[2])}
        S = dict((k, Node(v, None, [], k)) for k, v in d.items())
        L1 = level1(R, kind, S, ["neg", "abs", "exp", "*2"], ["+", "-", "*", "max"])
        L2 = [t for t in [build(R, kind, o, [n, m]) for i, (n, m) in enumerate(itertools.product(L1, L1)) for o in (["+", "*", "-"][i % 3],) if i % 5 == 0] if t]
        for n in L1 + L2:
            R.states += 1
            judge_sources(R, n)
            R.seen((syms, len(n.src), n.depth))
        if kind == "distr":
            for n, m in itertools.product(list(S.values()) + L1[::3], L1[::2] + L2[::6]):
                dep(R, n, m, "+")


def renaming(case, R):
    """setSym and make_free"""
    import sympy
    for kind in (case["k"],):
        for o in (case["o"],):
            S = sources(kind, True)
            names = list(S)
            for a, b, c in itertools.product(names, repeat=3):
                S = sources(kind, True)
                z = build(R, kind, o, [S[a], S[b]])
                z.obj.setSym("z")
                R.states += 1
                R.same("name", str(z.obj.getSymname()), "z", "name after setSym")
                w = build(R, kind, "-", [z, S[c]])
                w.obj.setSym(sympy.Symbol("w"))
                R.same("renamed formula", str(w.obj.getSym() - (sympy.Symbol("z") - S[c].obj.getSymname())), "0", "formula of z - %s is %s" % (c, w.obj.getSym()))
                judge(R, w, kind)
                judge(R, z, kind)
                z.obj.make_free()
                R.same("freed", (z.obj.isFree(), str(z.obj.getSym()), [str(t) for t in z.obj.getParentsFree()] == [str(z.obj)]), (True, "z", True), "variable made free")
                R.true("freed sources", w.obj.getParentsFree() == set([z.obj, S[c].obj]), "sources of z - %s after z was made free" % c)


def numbers(case, R):
    """the functions applied to plain numbers and arrays"""
    import pacal as P
    from pacal import rv
    fs = {"exp": np.exp, "log": np.log, "sqrt": np.sqrt, "atan": np.arctan, "tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "sin": np.sin, "cos": np.cos, "tan": np.tan, "sign": np.sign}
    for f, g in fs.items():
        for x in (0.5, 2, 1.0, np.float64(0.25), np.array([0.5, 1.5]), -1, -0.5, np.array([-1.0, 0.0, 3.0])):
            if f in ("log", "sqrt") and np.any(np.asarray(x) <= 0):
                continue
            R.states += 1
            R.evals += 1
            got = getattr(P, f)(x)
            R.close("number", got, g(np.asarray(x, float)), 1e-12, "%s(%r)" % (f, x))
            R.same("number shape", np.shape(got), np.shape(x), "%s(%r)" % (f, x))
    for a, b in itertools.product((-1, 0.5, 2, 2.5), repeat=2):
        for m in (P, rv):
            R.same("number", (m.min(a, b), m.max(a, b), m.min([a, b, 0]), m.max(a, b, 7)), (min(a, b), max(a, b), min(a, b, 0), max(a, b, 7)), "min and max of %r, %r" % (a, b))
