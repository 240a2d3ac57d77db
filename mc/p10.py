"""P10: queries and operations never change a variable: every history of actions up to a depth, against a pristine process."""
import itertools
import os
import pickle
import numpy as np

LEVEL = "model_checking"
RULE = ("a scene is a set of live variables (two sources, a combination of them, a function of one, a mixture); states are scenes after a history of actions "
        "(queries, operations, failing calls, work on the piecewise functions); every history of length one over all actions and of length two over "
        "those that fill caches is executed on new objects, and one long history per scene contains every ordered pair of actions in succession; "
        "after every history all answers about all live variables (densities, distribution function, quantile, moments, pieces, point masses, range, ancestors, formula), "
        "and about newly derived ones, are compared with those of a pristine process; global settings, operands and argument arrays are compared as well")
ASSUMPTIONS = ["the random source is excluded from the comparison: draws are not answers about the variable"]
CPU_LIMIT = 800
ISOLATE = True


def scenes():
    import pacal as P
    def s_uniform():
        x, y = P.UniformDistr(0, 1), P.UniformDistr(1, 3)
        return {"x": x, "y": y, "z": x * y, "w": x ** 2}
    def s_normal():
        x, y = P.NormalDistr(1, 2), P.ExponentialDistr(2)
        return {"x": x, "y": y, "z": P.min(x, y), "w": abs(x)}
    def s_discrete():
        x, y = P.DiscreteDistr([-1, 0, 2], [0.25, 0.25, 0.5]), P.BinomialDistr(2, 0.5)
        return {"x": x, "y": y, "z": x + y, "w": 3 * x - 1}
    def s_mixed():
        x, y = P.MixDistr([0.5, 0.5], [P.UniformDistr(0, 2), P.ConstDistr(1)]), P.DiscreteDistr([1, 2], [0.5, 0.5])
        return {"x": x, "y": y, "z": x + y, "w": -x}
    def s_cond():
        u = P.BetaDistr(2, 3)
        x, y = u | P.Gt(0.25), P.UniformDistr(-1, 1)
        return {"x": x, "y": y, "z": P.max(x, y), "w": P.exp(x), "u": u}
    def s_heavy():
        x, y = P.CauchyDistr(1, 0), P.UniformDistr(0, 1)
        return {"x": x, "y": y, "z": x + 2 * y, "w": P.atan(x)}
    def s_pole():
        x, y = P.ChiSquareDistr(1), P.UniformDistr(1, 2)
        return {"x": x, "y": y, "z": P.max(x, y), "w": P.sqrt(x)}
    def s_chain():
        y = P.UniformDistr(0, 1)
        x = y + P.UniformDistr(0, 1)
        return {"x": x, "y": y, "z": x - P.UniformDistr(1, 2), "w": x / 2}
    def s_sign():
        x, y = P.BernoulliDistr(0.25) * 2 - 1, P.UniformDistr(1, 2)
        return {"x": x, "y": y, "z": x * y, "w": abs(x)}
    def s_const():
        x, y = P.ConstDistr(2.0), P.ExponentialDistr(1)
        return {"x": x, "y": y, "z": x + y, "w": x + 1}
    return {"uniform": s_uniform, "normal": s_normal, "discrete": s_discrete, "mixed": s_mixed, "cond": s_cond,
            "heavy": s_heavy, "pole": s_pole, "chain": s_chain, "sign": s_sign, "const": s_const}


SCENES = ["uniform", "normal", "discrete", "mixed", "cond", "heavy", "pole", "chain", "sign", "const"]
PTS = np.array([-7.3, -1.5, -0.6, -0.25, 0.1, 0.35, 0.5625, 0.8, 1.1, 1.7, 2.2, 3.4, 6.1])


def quiet(f):
    def g(s):
        try:
            return f(s)
        except (NotImplementedError, ArithmeticError):
            return None
    return g


def bad(f):
    """a call that has to be refused or at least does no harm"""
    def g(s):
        try:
            return f(s)
        except Exception:
            return None
    return g


def fig(f):
    def g(s):
        import pylab
        pylab.figure()
        try:
            return f(s)
        finally:
            pylab.close("all")
    return g


def actions():
    import pacal as P
    from pacal.stats.iid_ops import iid_sum, iid_max, iid_average, iid_order_stat
    A = {}
    # queries that fill caches or walk the pieces
    A["pdf"] = lambda s: (s["x"].pdf(0.3), s["x"].pdf(PTS), s["z"].pdf(PTS))
    A["cdf"] = lambda s: (s["x"].cdf(0.3), s["x"].cdf(PTS))
    A["cdf z"] = lambda s: s["z"].cdf(PTS[:5])
    A["ccdf"] = lambda s: s["x"].ccdf(PTS)
    A["cdf interp"] = lambda s: s["x"].get_piecewise_cdf_interp()(PTS)
    A["ccdf interp"] = lambda s: s["x"].get_piecewise_ccdf_interp()(PTS)
    A["quantile"] = lambda s: (s["x"].quantile(0.3), s["x"].quantile(np.array([0.1, 0.9])), s["x"].ci(0.1))
    A["invcdf"] = lambda s: s["y"].get_piecewise_invcdf()(0.4)
    A["moments"] = lambda s: (s["x"].mean(), s["x"].var(), s["x"].skewness(), s["x"].kurtosis(), s["x"].moment(3, 0))
    A["spread"] = lambda s: (s["x"].median(), s["x"].medianad(), s["x"].iqrange(0.25))
    A["mode entropy"] = lambda s: (s["x"].mode(), s["x"].entropy())
    A["summary"] = lambda s: s["x"].summary_map()
    A["print"] = lambda s: (str(s["x"]), repr(s["z"]), s["x"].getName(), s["z"].getName(), str(s["x"].get_piecewise_pdf()))
    A["range"] = lambda s: (s["x"].range(), s["z"].range(), s["w"].range(), s["x"].is_nonneg())
    A["tails"] = lambda s: (s["x"].tailexp(), s["x"].int_error())
    A["divergence"] = lambda s: (s["x"].L2_dist(s["y"]) if s["x"].get_piecewise_pdf().getDiracs() == s["y"].get_piecewise_pdf().getDiracs() == [] else None)
    A["meanf"] = lambda s: s["x"].meanf(lambda t: t * t)
    A["sample"] = lambda s: (s["y"].rand(5), s["y"].rand_invcdf(5))
    A["sample x"] = lambda s: s["x"].rand(3)
    A["sample z"] = lambda s: s["z"].rand(3)
    A["plot"] = fig(lambda s: s["x"].plot())
    A["plot cdf"] = fig(lambda s: s["x"].get_piecewise_cdf().plot(xmin=-1, xmax=3))
    A["hist"] = fig(lambda s: s["y"].hist(n=50))
    A["boxplot"] = fig(lambda s: s["y"].boxplot())
    A["space"] = lambda s: s["x"].get_piecewise_pdf().getPiecewiseSpace(xmin=-1, xmax=2, numberOfPoints=7)
    # operations
    A["x+y"] = lambda s: (s["x"] + s["y"]).pdf(PTS)
    A["x-y"] = lambda s: (s["x"] - s["y"]).pdf(PTS)
    A["x*y"] = lambda s: (s["x"] * s["y"]).pdf(PTS)
    A["y+x"] = lambda s: (s["y"] + s["x"]).cdf(0.5)
    A["x+x"] = lambda s: (s["x"] + s["x"]).pdf(PTS)
    A["min"] = lambda s: P.min(s["x"], s["y"]).pdf(PTS)
    A["max"] = lambda s: P.max(s["y"], s["x"]).pdf(PTS)
    A["affine"] = lambda s: (2 * s["x"] - 3, -s["x"], s["x"] / 4, 1 - s["z"]) and (2 * s["x"] - 3).pdf(PTS)
    A["square"] = lambda s: (s["x"] ** 2).pdf(PTS)
    A["abs"] = lambda s: abs(s["x"] - 1).pdf(PTS)
    A["exp"] = lambda s: P.exp(s["w"]).pdf(PTS)
    A["condition"] = lambda s: (s["y"] | P.Gt(0.75)).pdf(PTS)
    A["condition x"] = bad(lambda s: (s["x"] | P.Between(-0.5, 1.5)).cdf(PTS))
    A["mixture"] = lambda s: P.MixDistr([0.3, 0.7], [s["x"], s["y"]]).pdf(PTS)
    A["iid sum"] = lambda s: iid_sum(s["y"], 3).pdf(PTS)
    A["iid max"] = lambda s: iid_max(s["y"], 3).pdf(PTS)
    A["iid order"] = lambda s: iid_order_stat(s["y"], 3, 2).pdf(PTS)
    # work on the piecewise functions a variable hands out
    def algebra(s):
        f, g = s["x"].get_piecewise_pdf(), s["y"].get_piecewise_pdf()
        h = f + g
        h2 = h * 0.5 - f
        h2(PTS)
        (f * 2.0)(PTS)
        f.splitByPoints([0.2, 0.7]).restrictToInterval(0.1, 0.9)
        f.copyShiftedAndScaled(1.0, -2.0)(PTS)
    A["pieces"] = algebra
    def add_masses(s):
        f = s["x"].get_piecewise_pdf().toInterpolated()
        f.add_diracs(s["y"].get_piecewise_pdf())
        f.add_diracs(s["x"].get_piecewise_pdf())
        g = s["y"].get_piecewise_pdf().toInterpolated()
        g.add_diracs(s["x"].get_piecewise_pdf())
    A["masses"] = bad(add_masses)
    A["cumulative"] = lambda s: s["x"].get_piecewise_pdf().cumint()(PTS)
    # calls with arguments of other kinds
    A["arguments"] = lambda s: (s["x"].pdf(np.array([1, 2])), s["x"].cdf(np.array([0, 1])), s["x"].pdf(1), s["x"].cdf(np.inf))
    def constructor(s):
        xi, pi, ws, ds = [3, 1, 2], np.array([0.25, 0.5, 0.25]), [1.0, 1.0], [s["x"], s["y"]]
        br = [0, 0.5, 1]
        d = [P.DiscreteDistr(xi, pi), P.MixDistr(ws, ds), P.FunDistr(lambda t: 1.0 + 0 * t, br)]
        for e in d:
            e.pdf(PTS)
        (d[0] + d[0]).pdf(PTS)
        if xi != [3, 1, 2] or list(pi) != [0.25, 0.5, 0.25] or ws != [1.0, 1.0] or ds != [s["x"], s["y"]] or br != [0, 0.5, 1]:
            raise AssertionError("a constructor changed its arguments")
    A["constructors"] = constructor
    def reused(s):
        """the caller goes on using the arrays passed in and handed out"""
        for n in ("x", "z"):
            d = s[n]
            f = d.get_piecewise_pdf()
            asks = [("pdf", d.pdf, PTS), ("cdf", d.cdf, PTS[:4]), ("ccdf", d.ccdf, PTS[:4]), ("piecewise density", f, PTS), ("distribution function", d.get_piecewise_cdf(), PTS[:4])]
            if n == "x":
                asks.append(("quantile", d.quantile, np.array([0.15, 0.4, 0.85])))
            for name, ask, arg in asks:
                a = arg.copy()
                first = np.array(ask(a), float)
                b = a.copy()
                a[0] = a[1]                     # same object, other contents
                b[0] = b[1]
                got = ask(a)
                want = np.array(ask(b.copy()), float)
                if not np.array_equal(a, b):
                    raise AssertionError("%s of %s changed its argument" % (name, n))
                if not np.array_equal(np.asarray(got, float), want, equal_nan=True):
                    raise AssertionError("%s of %s for an array modified since the last call: %s, for a new array with the same contents %s" % (name, n, got, want))
                if isinstance(got, np.ndarray):
                    got[...] = 77.0             # the answer belongs to the caller
                    more = np.array(ask(a), float)
                    if not np.array_equal(more, want, equal_nan=True):
                        raise AssertionError("%s of %s after the caller modified the last answer: %s, before %s" % (name, n, more, want))
                again = np.array(ask(arg.copy()), float)
                if not np.array_equal(first, again, equal_nan=True):
                    raise AssertionError("%s of %s asked for the second time: %s, first %s" % (name, n, again, first))
        xs, ps = s["y"].get_piecewise_pdf().getBreaks(), s["y"].getAncestorIDs()
        before = pieces(s["y"])
        if isinstance(xs, list): xs.append(99.0)
        if isinstance(ps, list): ps.append(99)
        if pieces(s["y"]) != before or 99.0 in list(s["y"].get_piecewise_pdf().getBreaks()):
            raise AssertionError("the list of breakpoints handed out is the variable's own")
    A["reused arrays"] = reused
    def blank(s):
        from pacal.segments import PiecewiseFunction, PiecewiseDistribution, CumulativePiecewiseFunction, ConstSegment
        for c in (PiecewiseFunction, PiecewiseDistribution, CumulativePiecewiseFunction):
            f = c()
            if len(f.segments):
                raise AssertionError("a new %s is not empty" % c.__name__)
            f.addSegment(ConstSegment(0, 1, 1.0))
    A["blank"] = blank
    # refused calls
    A["bad operand"] = bad(lambda s: s["x"] + "a")
    A["bad condition"] = bad(lambda s: (s["y"] | P.Between(50.0, 60.0)).pdf(PTS))
    A["bad log"] = bad(lambda s: P.log(-s["y"] - 10).pdf(PTS))
    A["bad mixture"] = bad(lambda s: P.MixDistr([0.5], [s["x"], s["y"]]).pdf(PTS))
    A["bad iid"] = bad(lambda s: iid_sum(s["y"], -1).pdf(PTS))
    A["bad iid all"] = bad(lambda s: iid_sum(s["y"], 0, all=True))
    A["bad average"] = bad(lambda s: iid_average(s["y"], 0, all=True))
    A["bad order"] = bad(lambda s: iid_order_stat(s["y"], 2, 5).pdf(PTS))
    A["bad quantile"] = bad(lambda s: s["x"].quantile(1.5))
    return A


CACHING = ["pdf", "cdf", "cdf z", "ccdf", "cdf interp", "quantile", "invcdf", "moments", "spread", "summary", "sample", "x+y", "x*y", "min", "mixture", "condition x", "iid sum", "pieces", "masses", "bad iid all"]
SLOW = {"normal": {"x*y", "sample", "max", "x-y", "x+x", "y+x", "min"}, "heavy": {"x*y", "x+x", "plot cdf"}, "pole": {"x+x", "plot cdf"}, "const": {"sample", "iid max"}}
HEAVY = {"invcdf", "iid sum", "summary", "cdf interp", "ccdf interp"}


def cases(tier):
    out = []
    for s in SCENES:
        out.append({"id": "single " + s, "kind": "single", "scene": s})
        first = CACHING
        for a in first:
            out.append({"id": "pairs %s: %s" % (s, a), "kind": "pairs", "scene": s, "first": a})
        out.append({"id": "long " + s, "kind": "long", "scene": s, "full": tier != "quick", "cost": 10})
        if tier != "quick":
            for a, b in itertools.permutations(CACHING, 2):
                out.append({"id": "triples %s: %s, %s" % (s, a, b), "kind": "triples", "scene": s, "ab": [a, b]})
    return out


def settings():
    import pacal
    out = {}
    def walk(c, pre):
        for k in sorted(vars(c)):
            if k.startswith("_"):
                continue
            v = getattr(c, k)
            if isinstance(v, type):
                walk(v, pre + k + ".")
            elif isinstance(v, (int, float, str, bool, type(None), tuple, list)):
                out[pre + k] = repr(v)
            else:
                out[pre + k] = str(type(v))
    for k in sorted(vars(pacal.params)):
        v = getattr(pacal.params, k)
        if isinstance(v, type) and not k.startswith("_"):
            walk(v, k + ".")
    out["numpy errors"] = repr(sorted(np.geterr().items()))
    return out


def pieces(d):
    out = []
    for s in d.get_piecewise_pdf().segments:
        out.append((type(s).__name__, float(s.a), float(s.b), float(s.f) if s.isDirac() else None))
    return out


def num(v):
    return np.asarray(v, float).ravel()


def fingerprint(s, names, full=True):
    """everything asked about the live variables, and about new ones derived from them"""
    import pacal as P
    out = {}
    for n in names:
        d = s[n]
        out[n, "pieces"] = [p for p in pieces(d)]
        out[n, "density"] = num(d.pdf(PTS))
        out[n, "distribution function"] = num([float(d.cdf(t)) for t in PTS[1::2]])
        out[n, "total"] = num(d.get_piecewise_pdf().integrate())
        out[n, "range"] = num(d.range())
        out[n, "ancestors"] = len(d.getAncestorIDs())
        out[n, "formula"] = len(str(d.getSym()).split("X"))
        if full:
            out[n, "mean and variance"] = num([d.mean(), d.var()])
            out[n, "quantiles"] = num([d.quantile(0.3), d.quantile(0.9)])
    if full:
        new = (s["x"] + 1.5)
        out["new", "x+1.5"] = num(new.pdf(PTS))
        new = P.MixDistr([0.25, 0.75], [s["x"], s["y"]])
        out["new", "mixture"] = num(new.pdf(PTS))
        out["new", "mixture pieces"] = pieces(new)
        new = s["w"] + 2 * s["y"]
        out["new", "w+2y"] = num([float(new.cdf(t)) for t in (0.5, 2.2)])
    return out


def differs(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            with np.errstate(all="ignore"):
                same = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-11 * (1 + np.abs(x)))
            if x.shape != y.shape or not same.all():
                return "%s of %s: %s, in a pristine process %s" % (k[1], k[0], y, x)
        elif x != y:
            return "%s of %s: %s, in a pristine process %s" % (k[1], k[0], y, x)
    return None


def in_child(f):
    """result of f() computed in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            b = pickle.dumps(f())
        except BaseException as e:
            b = pickle.dumps(RuntimeError(repr(e)))
        with os.fdopen(w, "wb") as fh:
            fh.write(b)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    v = pickle.loads(b)
    if isinstance(v, RuntimeError):
        raise v
    return v


def prepare(case, full=True):
    make = scenes()[case["scene"]]
    names = sorted(make())
    ref = in_child(lambda: fingerprint(make(), names, full))
    return make, names, ref, actions()


def step(R, s, A, a, hist):
    snap = PTS.copy()
    st = settings()
    try:
        A[a](s)
    except CaseError:
        raise
    except Exception as e:
        R.fail("action fails", "%s: %s: %s" % (" ; ".join(hist), type(e).__name__, e))
    R.transitions += 1
    if not np.array_equal(PTS, snap):
        PTS[:] = snap
        R.fail("argument changed", "%s changed the array it was given" % " ; ".join(hist))
    st2 = settings()
    if st2 != st:
        R.fail("settings", "%s changed %s" % (" ; ".join(hist), [(k, st[k], st2.get(k)) for k in st if st2.get(k) != st[k]][:5]))
    R.evals += 2


class CaseError(Exception):
    pass


def history(R, make, names, ref, A, acts):
    s = make()
    hist = []
    for a in acts:
        hist.append(a)
        step(R, s, A, a, hist)
    R.states += 1
    R.seen(tuple(acts))
    d = differs(ref, fingerprint(s, names))
    R.evals += len(ref)
    R.traces += 1
    if d:
        R.fail("history", "after %s: %s" % (" ; ".join(hist), d))


def run(case, R):
    import pylab
    import warnings
    import pacal
    warnings.simplefilter("ignore")
    pacal.params.general.warn_on_dependent = True
    globals()[case["kind"]](case, R)


def single(case, R):
    make, names, ref, A = prepare(case)
    for a in A:
        history(R, make, names, ref, A, [a])
        history(R, make, names, ref, A, [a, a])
    R.sample = "%s: %d actions, fingerprint of %d answers" % (case["scene"], len(A), len(ref))


def pairs(case, R):
    make, names, ref, A = prepare(case)
    for b in CACHING:
        if b != case["first"] and not (case["scene"] == "normal" and "x*y" in (b, case["first"]) and "x+y" not in (b, case["first"])):
            history(R, make, names, ref, A, [case["first"], b])


def triples(case, R):
    make, names, ref, A = prepare(case)
    for c in CACHING:
        history(R, make, names, ref, A, case["ab"] + [c])


def euler(n):
    """closed walk on the complete directed graph with loops: every ordered pair occurs in succession exactly once"""
    out = [0]
    used = set()
    stack = [0]
    adj = {i: list(range(n)) for i in range(n)}
    path = []
    while stack:
        v = stack[-1]
        if adj[v]:
            stack.append(adj[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]


def long(case, R):
    """one history of a single scene with every ordered pair of actions in succession"""
    make, names, ref, A = prepare(case)
    names_a = [a for a in A if case["full"] or a not in HEAVY | SLOW.get(case["scene"], set())]
    s = make()
    prev = None
    for n, i in enumerate(euler(len(names_a))):
        a = names_a[i]
        step(R, s, A, a, ["... (%d steps)" % n, str(prev), a])
        prev = a
        R.states += 1
        if n % 25 == 24 or (n < 60 and n % 6 == 0):
            d = differs(ref, fingerprint(s, names))
            R.traces += 1
            R.evals += len(ref)
            if d:
                R.fail("long history", "after %d actions ending in %s: %s" % (n + 1, a, d))
                break
    d = differs(ref, fingerprint(s, names))
    if d:
        R.fail("long history", "at the end: %s" % d)
    R.sample = "%s: %d steps" % (case["scene"], n + 1)
