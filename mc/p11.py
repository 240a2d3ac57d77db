"""P11: parallel evaluation, under a pool whose schedules are enumerated, and under real pools, against serial evaluation."""
import itertools
import multiprocessing
import pickle
import numpy as np

LEVEL = "model_checking"
RULE = ("the pool of worker processes is replaced by a controlled scheduler: tasks, functions and results cross a pickle boundary, points are cut into chunks, chunks are "
        "executed in a chosen order (also after the caller's objects have changed names), results are put back by index as multiprocessing promises; for every operation of the alphabet every "
        "combination of chunk size and completion order is executed, for selected operations every permutation of four chunks at every "
        "parallel call is executed (one deviation at a time), and real pools of 1 to 4 workers started before and after the variables "
        "are used as well; all results (pieces, densities, distribution function) have to equal the serial ones; a fault is injected at every evaluation point in turn and has to reach the caller")
ASSUMPTIONS = ["user functions are picklable (module-level), as multiprocessing requires", "a worker process that is killed is not modelled"]
CPU_LIMIT = 600
ISOLATE = True
PTS = np.array([-6.1, -1.5, -0.4, 0.2, 0.6, 0.95, 1.3, 1.9, 2.6, 4.4])


# ------------------------------------------------------------------ the controlled pool
class Schedule(object):
    def __init__(self, size=None, order="forward", at=None, perm=None):
        self.size, self.order, self.at, self.perm = size, order, at, perm
        self.calls = 0
        self.tasks = 0
    def plan(self, n):
        """-> list of chunks (lists of indices) in order of execution"""
        i, self.calls = self.calls, self.calls + 1
        if self.at is not None:
            size = max(1, -(-n // 4))
            ch = [list(range(k, min(k + size, n))) for k in range(0, n, size)]
            if i == self.at and len(ch) == len(self.perm):
                ch = [ch[k] for k in self.perm]
            return ch
        size = self.size or n or 1
        ch = [list(range(k, min(k + size, n))) for k in range(0, n, size)]
        if self.order == "backward": ch = ch[::-1]
        elif self.order == "odd first": ch = ch[1::2] + ch[::2]
        elif self.order == "rotated": ch = ch[len(ch) // 2:] + ch[:len(ch) // 2]
        elif self.order == "outside in":
            ch = [c for p in zip(ch, ch[::-1]) for c in p][:len(ch)] if len(ch) % 2 == 0 else ch[:1] + ch[:0:-1]
        return ch


class Result(object):
    def __init__(self, f):
        try:
            self.v, self.e = f(), None
        except Exception as e:
            self.v, self.e = None, e
    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.v
    def wait(self, timeout=None): pass
    def ready(self): return True
    def successful(self): return self.e is None


class FakePool(object):
    """stands for multiprocessing.Pool: same interface, schedule under control"""
    schedule = None
    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self.init, self.initargs = initializer, initargs
        self._pool = [None] * (processes or 2)
    def _work(self, blob):
        """what a worker does with one chunk"""
        p = multiprocessing.current_process()
        name = p.name
        if self.init:
            self.init(*self.initargs)
        try:
            f, args, star = pickle.loads(blob)
            return [pickle.loads(pickle.dumps(f(*a) if star else f(a))) for a in args]
        finally:
            p.name = name
    def _run(self, f, xs, star=False):
        xs = list(xs)
        S = FakePool.schedule
        order = []
        out = [None] * len(xs)
        error = None
        for ch in S.plan(len(xs)):
            S.tasks += 1
            blob = pickle.dumps((f, [xs[i] for i in ch], star))
            try:
                for i, v in zip(ch, self._work(blob)):
                    out[i] = v
                    order.append(i)
            except Exception as e:
                error = e
                break
        return out, order, error
    def map(self, f, xs, chunksize=None):
        out, order, error = self._run(f, xs)
        if error is not None:
            raise error
        return out
    def starmap(self, f, xs, chunksize=None):
        out, order, error = self._run(f, xs, True)
        if error is not None:
            raise error
        return out
    def imap(self, f, xs, chunksize=1):
        return iter(self.map(f, xs))
    def imap_unordered(self, f, xs, chunksize=1):
        out, order, error = self._run(f, xs)
        for i in order:
            yield out[i]
        if error is not None:
            raise error
    def map_async(self, f, xs, chunksize=None, callback=None, error_callback=None): return self._async(lambda: self.map(f, xs), callback, error_callback)
    def starmap_async(self, f, xs, chunksize=None, callback=None, error_callback=None): return self._async(lambda: self.starmap(f, xs), callback, error_callback)
    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        from functools import partial
        return self._async(lambda: self._work(pickle.dumps((partial(f, **kwds), [tuple(args)], True)))[0], callback, error_callback)
    def apply(self, f, args=(), kwds={}): return self.apply_async(f, args, kwds).get()
    def _async(self, g, cb, ecb):
        r = Result(g)
        if r.e is None and cb: cb(r.v)
        if r.e is not None and ecb: ecb(r.e)
        return r
    def close(self): pass
    def terminate(self): pass
    def join(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


# ------------------------------------------------------------------ alphabet
def makers():
    import pacal as P
    from pacal.stats import iid_ops as I
    return {
        "u01": lambda: P.UniformDistr(0, 1), "u12": lambda: P.UniformDistr(1, 2), "um11": lambda: P.UniformDistr(-1, 1),
        "N": lambda: P.NormalDistr(1, 2), "Exp": lambda: P.ExponentialDistr(2), "Chi1": lambda: P.ChiSquareDistr(1), "Cau": lambda: P.CauchyDistr(1, 0),
        "Beta": lambda: P.BetaDistr(2, 3), "Gamma": lambda: P.GammaDistr(2, 1), "Par": lambda: P.ParetoDistr(2.5), "Lap": lambda: P.LaplaceDistr(1),
        "T": lambda: P.StudentTDistr(3), "F": lambda: P.FDistr(3, 5), "Wei": lambda: P.WeibullDistr(2), "Gum": lambda: P.GumbelDistr(), "Semi": lambda: P.SemicircleDistr(),
        "Trap": lambda: P.TrapezoidalDistr(0, 1, 2, 4), "Levy": lambda: P.LevyDistr(), "Fre": lambda: P.FrechetDistr(3), "Moll": lambda: P.MollifierDistr(0.5),
        "Bin": lambda: P.BinomialDistr(3, 0.25), "Disc": lambda: P.DiscreteDistr([-1, 2], [0.25, 0.75]), "Poi": lambda: P.PoissonDistr(1.0), "One": lambda: P.ConstDistr(1.5),
        "mix": lambda: P.MixDistr([0.5, 0.5], [P.UniformDistr(0, 1), P.ConstDistr(2)]), "cond": lambda: P.NormalDistr(0, 1) | P.Gt(0.5),
        "condl": lambda: P.ExponentialDistr(1) | P.Lt(2), "condb": lambda: P.CauchyDistr() | P.Between(-1, 2),
        "exp": lambda: P.exp(P.UniformDistr(0, 1)), "log": lambda: P.log(P.UniformDistr(1, 2)), "atan": lambda: P.atan(P.NormalDistr()), "sqrt": lambda: P.sqrt(P.UniformDistr(1, 2)),
        "sin": lambda: P.sin(P.UniformDistr(0.1, 1)), "cos": lambda: P.cos(P.UniformDistr(0.1, 1)), "tan": lambda: P.tan(P.UniformDistr(-0.5, 1)), "tanh": lambda: P.tanh(P.UniformDistr(-1, 1)),
        "sigmoid": lambda: P.sigmoid(P.NormalDistr()), "sq": lambda: P.NormalDistr() ** 2, "cube": lambda: P.UniformDistr(1, 2) ** 3, "abs": lambda: abs(P.UniformDistr(-1, 2)),
        "inv": lambda: 1 / P.UniformDistr(1, 2), "2**": lambda: 2 ** P.UniformDistr(0, 1), "aff": lambda: 3 - 2 * P.BetaDistr(2, 2), "neg": lambda: -P.ExponentialDistr(),
        "order": lambda: I.iid_order_stat(P.UniformDistr(0, 1), 3, 2), "med": lambda: I.iid_median(P.UniformDistr(0, 1), 3), "avg": lambda: I.iid_average(P.UniformDistr(0, 1), 2),
        "sum": lambda: P.UniformDistr(0, 1) + P.UniformDistr(0, 2), "prod": lambda: P.UniformDistr(0, 1) * P.UniformDistr(1, 2), "quot": lambda: P.UniformDistr(0, 1) / P.UniformDistr(1, 2),
        "fun": lambda: P.FunDistr(parabola, [0, 1]),
    }


def parabola(x):
    return 6.0 * x * (1.0 - x)


ALL = ["u01", "u12", "um11", "N", "Exp", "Chi1", "Cau", "Beta", "Gamma", "Par", "Lap", "T", "F", "Wei", "Gum", "Semi", "Trap", "Levy", "Fre", "Moll", "Bin", "Disc", "Poi", "One",
       "mix", "cond", "condl", "condb", "exp", "log", "atan", "sqrt", "sin", "cos", "tan", "tanh", "sigmoid", "sq", "cube", "abs", "inv", "2**", "aff", "neg", "order", "med", "avg",
       "sum", "prod", "quot", "fun"]
CORE = [("u01", "um11"), ("u12", "Beta"), ("mix", "u01"), ("um11", "Disc"), ("Exp", "u01"), ("sum", "u12")]
OPS = ["+", "-", "*", "/", "min", "max"]
SIZES = [1, 2, 3, 7, None]
ORDERS = ["forward", "backward", "odd first", "rotated", "outside in"]


def cases(tier):
    out = []
    for x, y in CORE + ([] if tier == "quick" else [("N", "u01"), ("N", "Exp"), ("Cau", "u12"), ("Chi1", "u01"), ("prod", "quot"), ("cond", "aff")]):
        for op in OPS:
            out.append({"id": "schedules %s %s %s" % (x, op, y), "kind": "schedules", "x": x, "y": y, "op": op})
    for x, y, op in [("u01", "um11", "+"), ("u01", "um11", "*"), ("um11", "u12", "/"), ("u01", "Beta", "max"), ("Exp", "u01", "min"), ("mix", "u01", "-")]:
        for at in range(6 if tier == "quick" else 14):
            out.append({"id": "permutations %s %s %s call %d" % (x, op, y, at), "kind": "perms", "x": x, "y": y, "op": op, "at": at})
    for x in ALL:
        out.append({"id": "operand " + x, "kind": "operand", "x": x, "ops": ["+", "*"] if tier == "quick" else OPS})
    for n in (1, 2, 3, 4):
        for when in ("before", "after"):
            out.append({"id": "pool of %d, variables %s" % (n, when), "kind": "pool", "n": n, "when": when})
    for op in OPS:
        out.append({"id": "faults " + op, "kind": "faults", "op": op, "n": 12 if tier == "quick" else 48})
    out.append({"id": "identities", "kind": "identities"})
    out.append({"id": "small programs", "kind": "programs"})
    for m in ("copula", "model", "interpolation"):
        out.append({"id": "joint " + m, "kind": "joint", "m": m})
    return out


def run(case, R):
    import warnings
    warnings.simplefilter("ignore")
    globals()[case["kind"]](case, R)


def combine(op, X, Y):
    import pacal as P
    return {"+": lambda: X + Y, "-": lambda: X - Y, "*": lambda: X * Y, "/": lambda: X / Y, "min": lambda: P.min(X, Y), "max": lambda: P.max(X, Y)}[op]()


def view(Z):
    f = Z.get_piecewise_pdf()
    segs = [(type(s).__name__, float(s.a), float(s.b), float(s.f) if s.isDirac() else None) for s in f.segments]
    return segs, np.asarray(Z.pdf(PTS), float), np.array([float(Z.cdf(t)) for t in PTS[::3]])


class mode(object):
    def __init__(self, parallel, schedule=None, nprocs=None):
        self.parallel, self.schedule, self.nprocs = parallel, schedule, nprocs
    def __enter__(self):
        from pacal import params
        self.old = (params.general.parallel, params.general.process_pool, params.general.nprocs, multiprocessing.Pool, FakePool.schedule)
        params.general.parallel = self.parallel
        params.general.process_pool = None
        params.general.nprocs = self.nprocs
        if self.schedule is not None:
            FakePool.schedule = self.schedule
            multiprocessing.Pool = FakePool
        return self
    def __exit__(self, *a):
        from pacal import params
        if self.schedule is None and params.general.process_pool is not None:
            params.general.process_pool.terminate()
            params.general.process_pool.join()
        params.general.parallel, params.general.process_pool, params.general.nprocs, multiprocessing.Pool, FakePool.schedule = self.old
        return False


def same(R, asp, what, got, want):
    R.evals += 3
    R.traces += 1
    if got[0] != want[0]:
        R.fail(asp, "%s: pieces %s, serially %s" % (what, got[0][:6], want[0][:6]))
        return False
    for g, w, n in zip(got[1:], want[1:], ("densities", "distribution function")):
        with np.errstate(all="ignore"):
            ok = (g == w) | (np.abs(g - w) <= 1e-12 * (1 + np.abs(w))) | (np.isnan(g) & np.isnan(w))
        if not np.all(ok):
            R.fail(asp, "%s: %s %s, serially %s" % (what, n, g, w))
            return False
    return True


def serial(x, op, y):
    M = makers()
    with mode(False):
        return view(combine(op, M[x](), M[y]()))


def schedules(case, R):
    M = makers()
    want = serial(case["x"], case["op"], case["y"])
    tasks = 0
    for size, order in itertools.product(SIZES, ORDERS):
        S = Schedule(size, order)
        with mode(True, S):
            got = view(combine(case["op"], M[case["x"]](), M[case["y"]]()))
        R.states += 1
        R.transitions += S.tasks
        tasks += S.tasks
        R.seen((case["id"], size, order))
        same(R, "schedule", "%s with chunks of %s, %s" % (case["id"][10:], size, order), got, want)
    R.sample = "%s: %d chunk executions" % (case["id"], tasks)


def perms(case, R):
    M = makers()
    want = serial(case["x"], case["op"], case["y"])
    for perm in itertools.permutations(range(4)):
        S = Schedule(at=case["at"], perm=perm)
        with mode(True, S):
            got = view(combine(case["op"], M[case["x"]](), M[case["y"]]()))
        R.states += 1
        R.transitions += S.tasks
        R.seen((case["id"], perm))
        same(R, "permutation", "%s with order %s at parallel call %d" % (case["id"], perm, case["at"]), got, want)


def operand(case, R):
    """every kind of operand crosses the process boundary"""
    M = makers()
    for op in case["ops"]:
        want = serial(case["x"], op, "u12")
        S = Schedule(5, "backward")
        with mode(True, S):
            got = view(combine(op, M[case["x"]](), M["u12"]()))
        R.states += 1
        R.transitions += S.tasks
        same(R, "operand", "%s %s u12" % (case["x"], op), got, want)
        # built serially, evaluated in parallel and the other way round
        with mode(False):
            Z = combine(op, M[case["x"]](), M["u12"]())
        S = Schedule(3, "odd first")
        with mode(True, S):
            got = view(Z)
        same(R, "switched on", "%s %s u12 built serially, evaluated in parallel" % (case["x"], op), got, want)
        with mode(True, Schedule(4)):
            Z = combine(op, M[case["x"]](), M["u12"]())
        with mode(False):
            got = view(Z)
        same(R, "switched off", "%s %s u12 built in parallel mode, evaluated serially" % (case["x"], op), got, want)


def pool(case, R):
    """real worker processes"""
    M = makers()
    todo = [("u01", "+", "um11"), ("u01", "*", "Beta"), ("um11", "/", "u12"), ("Exp", "max", "u01"), ("mix", "-", "u01"), ("N", "min", "u12"), ("sum", "+", "order")]
    want = [serial(x, op, y) for x, op, y in todo]
    with mode(True, None, case["n"]):
        if case["when"] == "before":
            objs = [combine(op, M[x](), M[y]()) for x, op, y in todo]
            got = [view(Z) for Z in objs]
        else:
            view(M["u01"]() + M["u12"]())           # starts the workers
            got = [view(combine(op, M[x](), M[y]())) for x, op, y in todo]
    for t, g, w in zip(todo, got, want):
        R.states += 1
        R.transitions += 1
        same(R, "pool", "%s %s %s with %d workers" % (t + (case["n"],)), g, w)


FAILURES = {"value": ValueError, "memory": MemoryError, "zero division": ZeroDivisionError, "overflow": OverflowError, "floating point": FloatingPointError,
            "type": TypeError, "index": IndexError, "runtime": RuntimeError, "not implemented": NotImplementedError, "attribute": AttributeError, "key": KeyError, "linear algebra": np.linalg.LinAlgError}


class Broken(object):
    """a density that fails on one small interval"""
    def __init__(self, lo, hi, kind): self.lo, self.hi, self.kind = lo, hi, kind
    def __call__(self, x):
        if np.any((np.asarray(x) >= self.lo) & (np.asarray(x) <= self.hi)):
            raise FAILURES[self.kind]("failure injected at %g" % self.lo)
        return 1.0 + 0.0 * np.asarray(x)


def faults(case, R):
    import pacal as P
    M = makers()
    n = case["n"]
    for k in range(n):
        for kind in (FAILURES if k == n // 2 else ("value", "memory")):
            lo, hi = k / float(n), (k + 1.0) / n
            res = []
            for par in (False, True):
                with mode(par, Schedule(2, "backward") if par else None):
                    X = P.FunDistr(Broken(lo, hi, kind), [0.0, 1.0])
                    try:
                        Z = combine(case["op"], X, M["u12"]())
                        Z.get_piecewise_pdf()
                        res.append("no error")
                    except Exception as e:
                        res.append((type(e).__name__, str(e)))
                    # the library stays usable
                    after = view(combine(case["op"], M["u01"](), M["u12"]()))
                    if par:
                        same(R, "after a fault", "after a fault at %g in %s" % (lo, case["op"]), after, prev)
                    prev = after
            R.states += 1
            R.transitions += 2
            R.seen((case["op"], k, res[0][0]))
            R.true("fault", res[0] == res[1], "density failing on [%g, %g] (%s): serially %s, in parallel %s" % (lo, hi, case["op"], res[0], res[1]))
    R.sample = "%s: %s" % (case["op"], res)


def identities(case, R):
    import gc
    import pacal as P
    M = makers()
    with mode(True, Schedule(2)):
        # distinct variables, distinct identities; a copy that went to a worker and back is the same variable
        objs = [M[k]() for k in ALL if k not in ("Fre", "Levy")] + [P.UniformDistr(0, 1, sym="a"), P.NormalDistr(0, 1, sym="b"), P.UniformDistr(0, 1, sym="a")]
        ids = [o.id() for o in objs]
        R.true("distinct", len(set(ids)) == len(ids), "two live variables share an identity")
        for o in objs:
            c = pickle.loads(pickle.dumps(o))
            R.transitions += 1
            R.true("survives", c.id() == o.id(), "%s: identity %r became %r on the way to a worker" % (type(o).__name__, o.id(), c.id()))
            R.true("ancestors", c.getAncestorIDs() == o.getAncestorIDs(), "%s: set of ancestors changed on the way to a worker" % type(o).__name__)
        fresh = [P.UniformDistr(0, 1, sym="s%d" % i) for i in range(5)]
        blobs = [pickle.dumps(o) for o in fresh]
        for o, b in zip(fresh, blobs):
            R.true("survives", pickle.loads(b).id() == o.id(), "identity of a variable with a given symbol differs in the worker")
        # identities are not handed out again while a copy is alive
        copies = {}
        for rnd in range(40):
            xs = [P.UniformDistr(0, 1) for _ in range(10)]
            for x in xs:
                R.evals += 1
                if x.id() in copies:
                    R.fail("reused", "a new variable got the identity of another one whose copy is alive")
            for x in xs:
                copies[x.id()] = pickle.loads(pickle.dumps(x))
            del xs, x
            gc.collect()
        R.states += len(copies)
        # dependence is seen the same
        x, y = M["u01"](), M["u12"]()
        z = x + y
        a = z.getAncestorIDs()
        c = pickle.loads(pickle.dumps((x, y, z)))
        R.same("dependence", [bool(t.getAncestorIDs() & a) for t in c], [True, True, True], "copies share ancestors with the original")
        R.same("independence", bool(M["u01"]().getAncestorIDs() & a), False, "a new variable has no common ancestors")
    R.sample = str(ids[:2])


def programs(case, R):
    """expressions of depth two and three, with reuse of intermediate results"""
    import pacal as P
    M = makers()
    def prog(a, b, c, o1, o2):
        x, y, z = M[a](), M[b](), M[c]()
        t = combine(o1, x, y)
        return [view(t), view(combine(o2, t, z)), view(combine(o2, z, t))]
    for a, b, c in [("u01", "u12", "um11"), ("Disc", "u01", "u12"), ("u12", "mix", "u01")]:
        for o1, o2 in itertools.product(["+", "*", "max"], ["-", "/", "min"]):
            if o2 == "/" and (c == "um11" or a == "Disc" or b == "mix" or c == "u01"):
                continue
            with mode(False):
                want = prog(a, b, c, o1, o2)
            for size, order in ((1, "backward"), (4, "odd first")):
                S = Schedule(size, order)
                with mode(True, S):
                    got = prog(a, b, c, o1, o2)
                R.states += 3
                R.transitions += S.tasks
                for g, w in zip(got, want):
                    same(R, "program", "(%s %s %s) %s %s" % (a, o1, b, o2, c), g, w)


def joint(case, R):
    """joint distributions and models evaluate through the same map"""
    import pacal as P
    from pacal.depvars import copulas, models, nddistr
    def copula():
        X, Y = P.UniformDistr(0, 1, sym="X"), P.BetaDistr(2, 2, sym="Y")
        C = copulas.FrankCopula(theta=2.0, marginals=[X, Y])
        m = C.eliminate(Y)
        v = np.array([0.1, 0.35, 0.8])
        return [np.asarray(C.pdf(v, v), float), np.asarray(m.pdf(v), float)]
    def model():
        X, Y = P.UniformDistr(0, 1, sym="X"), P.UniformDistr(0, 2, sym="Y")
        Z = X + Y
        Z.setSym("Z")
        M = models.Model(nddistr.NDProductDistr([nddistr.Factor1DDistr(X), nddistr.Factor1DDistr(Y)]), [Z])
        a = M.inference([Z])
        b = M.inference([X], [Z], [1.25])
        v = np.array([0.3, 0.6, 0.9])
        return [np.asarray(a.as1DDistr().pdf(v), float), np.asarray(b.as1DDistr().pdf(v), float)]
    def interpolation():
        X, Y, Z = P.UniformDistr(0, 1, sym="X"), P.BetaDistr(2, 2, sym="Y"), P.UniformDistr(1, 2, sym="Z")
        C = copulas.ClaytonCopula(theta=0.75, marginals=[X, Y, Z])
        m = C.eliminate(Z)
        v = np.array([0.2, 0.5, 0.7])
        return [np.asarray(m.pdf(v, v[::-1]), float)]
    f = {"copula": copula, "model": model, "interpolation": interpolation}[case["m"]]
    with mode(False):
        want = f()
    for size, order in ((1, "backward"), (3, "odd first"), (None, "forward")):
        S = Schedule(size, order)
        with mode(True, S):
            got = f()
        R.states += 1
        R.transitions += S.tasks
        for g, w in zip(got, want):
            # the order in which a model eliminates its variables is not fixed, its accuracy on densities with kinks is a few 1e-3
            R.close("joint", g, w, (1e-2 if case["m"] == "model" else 1e-10) * (1 + np.abs(w)), "%s with chunks of %s, %s" % (case["m"], size, order))
    R.sample = "%s: %s" % (case["m"], want[0])
