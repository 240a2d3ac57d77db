"""P19: plots, histograms and box plots show the variable they are asked for."""
import contextlib
import itertools
import numpy as np
from mc import alphabet as A

LEVEL = "model_checking"
RULE = ("(a) curves: states are (variable, function drawn, window, number of points): for every variable of the alphabet the density, the distribution function, its "
        "complement, its interpolated form and the quantile function are drawn on an off-screen canvas for every window whose ends are enumerated from no limit, left of the "
        "support, every break and atom, between them, and right of the support, for several numbers of points and with segments and nodes shown or not; from the lines on "
        "the canvas: every vertex of a curve is a point of the function, the curves cover the window (the support, or all but a thousandth of the mass, without window), "
        "nothing is drawn outside, every atom in the window and no other is drawn with its mass, the sampling space lies in the window and covers it; (b) histograms: all "
        "samples of length n over a small set of values, with rejection outside of every window, for several numbers of bins: every bar's area is the share of the values in it; "
        "(c) box plots of every variable are the five numbers and the mean")
ASSUMPTIONS = ["what is drawn is compared with what the variable answers for density, distribution function and quantile, which P04-P06 compare with the law",
               "without a window an infinite support has to be drawn between its quantiles 0.01 and 0.99"]
CPU_LIMIT = 120

Q_NAMES = ["N1h", "Exp2", "mExp", "Lap", "Cau", "Chi1", "Par", "U12", "B23", "Bhh", "Semi", "u01", "um11", "gap", "ain", "aout", "a0", "pm", "Bin3", "Dneg", "Two", "Dsum",
           "N1h: 1/X", "Exp2: log(X)", "um11: abs(X)", "U12: X*-0.5", "N1h: max(X,0.5)", "gap: exp(X)",
           "u01|+|gap", "u01|*|um11", "u01|/|um11", "ain|-|u01"]


def cases(tier):
    from mc import p06
    names = list(Q_NAMES)
    if tier != "quick": names += [n for n in A.BASE + A.MIXED + A.DISCRETE + A.derived() + A.PAIRS if n not in names]
    out = []
    for n in names:
        for what in ("pdf", "cdf", "ccdf", "cdf interpolated", "quantile"):
            out.append({"id": "%s: draw %s" % (n, what), "kind": "curve", "v": n, "f": what})
        out.append({"id": "%s: box" % n, "kind": "box", "v": n})
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for k, w in enumerate(WINDOWS):
            out.append({"id": "samples of %d: window %d" % (n, k), "kind": "hist", "n": n, "w": list(w)})
    return out


WINDOWS = [(None, None), (0.0, None), (None, 0.5), (-1.0, 0.5), (0.25, 2.0), (2.0, 3.0), (-5.0, 9.0), (-1.0, -1.0)]
VALUES = [-1.0, 0.0, 0.4, 2.0]


@contextlib.contextmanager
def canvas():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    f, ax = plt.subplots()
    try: yield ax
    finally: plt.close(f)


def lines(ax):
    for l in ax.lines:
        yield l.get_linestyle(), l.get_marker(), np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float), l


def run(case, R):
    import pacal
    pacal.params.general.parallel = False
    with np.errstate(all="ignore"):
        {"curve": curve, "box": box, "hist": hist}[case["kind"]](case, R)


def gaps(spans, lo, hi):
    """longest part of [lo, hi] not covered by the spans"""
    g, at = 0.0, lo
    for a, b in sorted(spans):
        if a > hi: break
        if a > at: g = max(g, min(a, hi) - at)
        at = max(at, b)
    return max(g, hi - at)


def valid(V, p, q):
    """is q a quantile of p, up to the accuracy of interpolated quantiles"""
    t = V.tol + (5e-3 if ": " in V.name else 2e-5)
    d = 1e-9 * max(1.0, abs(q)) if np.isfinite(q) else 0.0
    return not np.isnan(q) and V.cdfm(q - d) <= p + t and V.cdf(q + d) >= p - t


def curve(case, R):
    V = A.Var(case["v"])
    X = V.build()
    F = case["f"]
    n = case["id"]
    atoms = sorted(V.atoms)
    near = lambda x, y: abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))
    PW = X.get_piecewise_pdf()
    if F == "pdf": fun, ref = PW, lambda x: np.asarray(PW(x), dtype=float)
    elif F == "cdf": fun, ref = X.get_piecewise_cdf(), lambda x: np.asarray(X.cdf(x), dtype=float)
    elif F == "ccdf": fun, ref = X.get_piecewise_ccdf(), lambda x: np.asarray(X.ccdf(x), dtype=float)
    elif F == "cdf interpolated": fun, ref = X.get_piecewise_cdf_interp(), lambda x: np.asarray(X.cdf(x), dtype=float)
    else: fun, ref = X.get_piecewise_invcdf(), lambda x: np.asarray(X.quantile(x), dtype=float)
    tol = {"cdf interpolated": 2e-5}.get(F, 1e-9)
    breaks = [float(b) for b in X.get_piecewise_pdf().getBreaks() if np.isfinite(b)] + V.brk
    if F == "quantile":
        breaks = sorted(set(round(p, 12) for b in breaks for p in (V.cdfm(b), V.cdf(b))) | {0.0, 1.0})
        lo, hi, most = 0.0, 1.0, (0.001, 0.999)
        marks = [0.0, 0.2, 0.5, 0.77, 1.0]
    else:
        lo, hi = (float(v) for v in X.range())
        q = lambda p: float(X.quantile(p))
        most = (lo if np.isfinite(lo) else q(0.01), hi if np.isfinite(hi) else q(0.99))
        pts = sorted(set([b for b in V.brk] + [(a + b) / 2 for a, b in zip(V.pts, V.pts[1:])] + [float(b) for b in PW.getBreaks() if np.isfinite(b)]))
        if len(pts) > 6: pts = [pts[i] for i in sorted(set(np.linspace(0, len(pts) - 1, 6).astype(int)))]
        marks = sorted(set([pts[0] - V.span] + pts + [pts[-1] + 0.7 * V.span]))
    wins = [(None, None)] + [(None, m) for m in marks] + [(m, None) for m in marks] + [w for w in itertools.combinations(marks, 2)]
    for w, num in [(w, 40) for w in wins] + [(w, k) for w in wins[::5] for k in (2, None)]:
        for show in ((False, False), (True, True)) if (num == 40 and len(wins) < 12 or w in wins[::4]) else ((None, None),):
            what = "%s in %s, %s points, segments and nodes %s" % (n, w, num, show[0])
            R.transitions += 1
            with canvas() as ax:
                kw = {}
                if num is not None: kw["numberOfPoints"] = num
                if show[0] is not None: kw.update(show_nodes=show[1], show_segments=show[0])
                (X if F == "pdf" else fun).plot(xmin=w[0], xmax=w[1], label="L", color="m", **kw)
                left = -np.inf if w[0] is None else w[0]
                right = np.inf if w[1] is None else w[1]
                spans, shown, labels = [], {}, 0
                eps = 1e-9 * max(1.0, *[abs(m) for m in marks])
                for style, mark, x, y, line in lines(ax):
                    if len(x) == 0: continue
                    labels += line.get_label() == "L"
                    inside = np.all(x >= left - eps) and np.all(x <= right + eps)
                    R.true("outside of the window", inside, "%s: line from %r to %r" % (what, x.min(), x.max()))
                    R.true("order", np.all(np.diff(x) >= 0) or mark == "o", "%s: curve runs backwards" % what)
                    if mark == "^":
                        shown[float(x[0])] = float(y[0])
                    elif mark == "o" or style == "-" and not (len(x) == 2 and x[0] == x[1]):
                        R.true("colour", mark == "o" or line.get_color() == "m", "%s: colour %s" % (what, line.get_color()))
                        ok = np.ones(len(x), dtype=bool)
                        for b in breaks: ok &= np.abs(x - b) > 1e-9 * max(1.0, abs(b))
                        if F == "quantile":
                            for p, v in zip(x[ok], y[ok]):
                                if mark != "o" and not valid(V, p, v): R.fail("value", "%s: %r drawn at %r, where P(<)=%r and P(<=)=%r" % (what, v, p, V.cdfm(v), V.cdf(v)))
                            R.evals += int(ok.sum())
                        else:
                            r = ref(x[ok])
                            R.close("value", y[ok], r, tol * (1 + np.abs(r)), what)
                        if mark != "o":
                            spans.append((x.min(), x.max()))
                            if num is not None: R.true("points", len(x) == num, "%s: %d points" % (what, len(x)))
                    elif style in ("--", "-."):
                        at = [b for b in breaks + [left, right] if np.isfinite(b) and near(b, x[0])]
                        R.true("verticals", x[0] == x[-1] and (at or F != "pdf"), "%s: dashed line at %r" % (what, x))
                want = dict((a, V.atoms[a]) for a in atoms if left <= a <= right) if F == "pdf" else {}
                ok = all(any(near(a, b) and abs(shown[b] - want[a]) < 1e-6 for b in shown) for a in want) and all(any(near(a, b) for a in want) or near(b, left) or near(b, right) for b in shown)
                R.true("atoms", ok, "%s: atoms drawn %s, expected %s" % (what, shown, want))
                a, b = max(left, most[0] if w[0] is None else lo), min(right, most[1] if w[1] is None else hi)
                if F == "pdf":
                    holes = [(s, t) for s, t in zip([v for v in V.brk][:-1], V.brk[1:]) if abs(V.cdfm(t) - V.cdf(s)) < 1e-12]
                else: holes = []
                if a < b and not (F == "pdf" and sum(V.atoms.values()) > 1 - 1e-9):
                    g = gaps(spans + holes, a, b)
                    R.true("coverage", g <= 1e-6 * max(1.0, abs(a), abs(b)), "%s: [%g, %g] is not covered, gap %g" % (what, a, b, g))
                R.true("label", labels <= 1, "%s: %d curves labelled" % (what, labels))
                R.states += 1
            if show[0] is None and num == 40:
                s = np.asarray(fun.getPiecewiseSpace(xmin=w[0], xmax=w[1], numberOfPoints=num), dtype=float)
                R.true("space inside", np.all(s >= left - eps) and np.all(s <= right + eps), "%s: space %s" % (what, s[:3]))
                if a < b and spans:
                    sp = [(s[i], s[i + num - 1]) for i in range(0, len(s) - num + 1, num)]
                    R.true("space", gaps(sp + holes, a, b) <= 1e-6 * max(1.0, abs(a), abs(b)), "%s: getPiecewiseSpace leaves a gap in [%g, %g]" % (what, a, b))
    R.traces += 1
    R.seen((case["f"], len(wins), tuple(round(b, 6) for b in breaks[:9])))
    if F == "pdf":
        import pacal
        from pacal import params
        for p, once in ((0.05, False), (0.3, False), (0.2, True)):
            lo2, hi2 = X.ci(p)
            with canvas() as ax:
                if not once: X.plot(cl=p, numberOfPoints=10)
                else:
                    try:
                        params.segments.plot.ciLevel = p
                        X.get_piecewise_cdf().plot(numberOfPoints=3)
                        ax.clear()
                        X.plot(numberOfPoints=10)
                    finally: params.segments.plot.ciLevel = None
                xs = np.concatenate([x for st, mk, x, y, l in lines(ax) if st == "-"] or [np.zeros(0)])
                R.true("level", len(xs) or hi2 - lo2 < 1e-9 or sum(V.atoms.values()) > 0.3, "%s: plot(cl=%g) draws nothing" % (n, p))
                R.true("level", len(xs) == 0 or np.all(xs >= lo2 - 1e-9) and np.all(xs <= hi2 + 1e-9), "%s: plot(cl=%g) draws [%s]" % (n, p, xs))
    R.sample = "%s: %d windows" % (n, len(wins))


def box(case, R):
    V = A.Var(case["v"])
    X = V.build()
    n = case["id"]
    five = [float(v) for v in X.five_number_summary()]
    mean = float(X.mean())
    for pos, width, useci, mean_too in itertools.product((1, 3.5), (0.3, 1.0), (None, 0.5, 0.9), (True, False)):
        R.transitions += 1
        want = list(five)
        if useci is not None: want[0], want[4] = (float(v) for v in X.interval(useci))
        with canvas() as ax:
            X.boxplot(pos=pos, width=width, useci=useci, showMean=mean_too)
            got = sorted((round(min(x), 9), round(max(x), 9), float(min(y)), float(max(y))) for st, mk, x, y, l in lines(ax))
        w, W = width / 2, width
        exp = [(pos - W, pos + W, want[i], want[i]) for i in (1, 2, 3)] + [(pos - w, pos + w, want[i], want[i]) for i in (0, 4)]
        exp += [(s, s, want[1], want[3]) for s in (pos - W, pos + W)] + [(pos, pos, min(want[0], want[1]), max(want[0], want[1])), (pos, pos, min(want[3], want[4]), max(want[3], want[4]))]
        if mean_too: exp.append((pos - W, pos + W, mean, mean))
        exp.sort()
        exp = sorted((round(a, 9), round(b, 9), c, d) for a, b, c, d in exp)
        same = len(got) == len(exp) and all(np.allclose(g, e, rtol=1e-9, atol=1e-12, equal_nan=True) for g, e in zip(got, exp))
        R.true("box", same, "%s at %g, %g, %s, %s: lines %s, expected %s" % (n, pos, width, useci, mean_too, got, exp))
        R.states += 1
    R.traces += 1
    R.sample = "%s: %s" % (n, five)


def hist(case, R):
    import pacal as P
    n, (lo, hi) = case["n"], case["w"]
    inside = lambda v: (lo is None or v >= lo) and (hi is None or v <= hi)
    for script in itertools.product(VALUES, repeat=n):
        if not any(inside(v) for v in script): continue
        for bins in (1, 3, 4):
            X = P.UniformDistr(-2, 3)
            drawn = []
            def rand(k=None, cache=None):
                out = [script[(len(drawn) + i) % n] for i in range(k)]
                drawn.extend(out)
                return np.array(out)
            X.rand = rand
            R.transitions += 1
            with canvas() as ax:
                X.hist(n=n, xmin=lo, xmax=hi, bins=bins)
                bars = sorted((p.get_x(), p.get_width(), p.get_height()) for p in ax.patches)
            used = np.array([v for v in drawn if inside(v)])
            what = "draws %s, window [%s, %s], %d bins" % (drawn, lo, hi, bins)
            R.states += 1
            if not R.true("number of values", len(used) == n, "%s: %d values used" % (what, len(used))): continue
            R.true("number of bars", len(bars) == bins, "%s: %d bars" % (what, len(bars)))
            if used.min() == used.max():
                i = [b for b in bars if b[0] - 1e-12 <= used[0] <= b[0] + b[1] + 1e-12]
                R.true("single value", any(abs(b[2] - n / len(drawn)) < 1e-9 for b in i), "%s: bars %s" % (what, bars))
                continue
            R.close("extent", [bars[0][0], bars[-1][0] + bars[-1][1]], [used.min(), used.max()], 1e-9, what)
            for i, (x, w, h) in enumerate(bars):
                c = np.sum((used >= x - 1e-9) & ((used < x + w - 1e-9) if i < bins - 1 else (used <= x + w + 1e-9)))
                R.close("area of a bar", h * w, c / len(drawn), 1e-9, what)
            R.seen(tuple(round(b[2], 6) for b in bars))
    R.traces += 1
    R.sample = "%d values, window [%s, %s]" % (n, lo, hi)
