From 994db87e5df84b545d0ec8ada102be74a98fa9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 01/42] fix: keep point masses in the distribution of 1/X

Segment.probInverse treated a Dirac segment as an interval.
---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index dd0241e..fe933bc 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -358,6 +358,8 @@ class Segment(object):
     def probInverse(self, pole_at_zero = False): # TODO unused ??
         """It produce probalilistic composition g o f for a given distribution f
         """
+        if self.isDirac():
+            return DiracSegment(1.0 / self.a, self.f)
         g = _op_one_over_x
         ginv = _op_one_over_x
         fun = partial(_prob_composition_safe, self.f, _op_one_over_x, _op_one_over_xsqaure)
-- 
2.43.0


From 671d26bb80e6bda727103f0f310264cc9e8dd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 02/42] fix: density of a continuous variable divided by a
 discrete one

The divisor's atom scales the argument: f_X(z*a)*|a|, not f_X(a)*|a|.
---
 pacal/indeparith.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 027b5b8..6c2af6f 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -566,9 +566,9 @@ class Convxrunner(object):
                 e = 0.0
                 assert (segi.a != 0.0)
             elif segi.isSegment() and segj.isDirac():
-                i = segj.f*segi.f(segj.a)*abs(segj.a)
-                e = 0.0
                 assert (segj.a != 0.0)
+                i = segj.f*segi.f(x*segj.a)*abs(segj.a)
+                e = 0.0
             I += i
             err += e
         return I
@@ -615,7 +615,7 @@ class Convxrunner(object):
 
             elif segi.isSegment() and segj.isDirac():
                 assert (segj.a != 0.0)
-                i = segj.f * segi.f(segj.a) * abs(segj.a)
+                i = segj.f * segi.f(x * segj.a) * abs(segj.a)
                 e = 0
             I += i
             err += e
-- 
2.43.0


From a141b44d937cdfc17b72852dcb9c62a8c88f4187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 03/42] fix: DiscreteDistr with repeated support points

A zero-length constant segment between equal points cannot be inserted.
---
 pacal/distr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 98e6946..7edde7f 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1085,8 +1085,9 @@ class DiscreteDistr(Distr):
         self.piecewise_pdf = PiecewiseDistribution([])
         for i in range(len(self.xi)):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
-        for i in range(len(self.xi)-1):
-            self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
+        breaks = self.piecewise_pdf.getBreaks() # repeated values are merged
+        for i in range(len(breaks)-1):
+            self.piecewise_pdf.addSegment(ConstSegment(breaks[i], breaks[i+1], 0))
     def rand_raw(self, n):
         u = uniform(0, 1, n)
         i = searchsorted(self.cumP, u)
-- 
2.43.0


From 248747c70ac6d60b6b5dae651e7801d47393a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:50 +0000
Subject: [PATCH 04/42] fix: no zero-mass atoms outside the range of min and
 max

Atoms below (above) the range of a maximum (minimum) were kept with zero mass,
which left gaps in the density and in the distribution function. Conditional
distributions relied on them (and on the atom at the bound being the first or
last segment): they now restrict the density directly, so conditioning on one
of several atoms works too.
---
 pacal/distr.py      | 32 ++++++++++++--------------------
 pacal/indeparith.py | 19 +++++++++++++------
 2 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 7edde7f..861e747 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1236,20 +1236,22 @@ class ConstDistr(DiscreteDistr):
     def getName(self):
         return str(self.c)
 
+def _condition_pdf(pdf, L, U):
+    """pdf restricted to the open interval (L, U) and renormalised"""
+    restricted = PiecewiseDistribution([])
+    for seg in pdf.splitByPoints([L, U]).segments:
+        if L <= seg.a and seg.b <= U and not (seg.isDirac() and (seg.a == L or seg.a == U)):
+            restricted.addSegment(seg)
+    pmass = restricted.integrate()
+    return (restricted * (1.0 / pmass)).toInterpolated()
+
 class CondGtDistr(Distr):
     def __init__(self, d, L=None, **kwargs):
         self.L = L
         self.d = d
         super(CondGtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        Z = MaxDistr(ConstDistr(self.L), self.d)
-        # Do poprawki zostaja tu diraki o wys.=0, tak samo Lt
-        #print Z.get_piecewise_pdf(), self.L
-        while(Z.get_piecewise_pdf().segments[0].a<self.L):
-            diracB = Z.get_piecewise_pdf().segments.pop(0)
-        diracB = Z.get_piecewise_pdf().segments.pop(0)
-        #print Z.get_piecewise_pdf(), diracB
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        self.piecewise_pdf = _condition_pdf(self.d.get_piecewise_pdf(), self.L, np.inf)
     def __str__(self):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
@@ -1271,9 +1273,7 @@ class CondLtDistr(Distr):
         self.d = d
         super(CondLtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        Z = MinDistr(ConstDistr(self.U), self.d)
-        diracB = Z.get_piecewise_pdf().segments.pop(-1)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        self.piecewise_pdf = _condition_pdf(self.d.get_piecewise_pdf(), -np.inf, self.U)
     def __str__(self):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
@@ -1290,15 +1290,7 @@ class CondBetweenDistr(Distr):
         self.d = d
         super(CondBetweenDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
-        #Z = MaxDistr(ConstDistr(self.L), self.d)
-        #Z = MinDistr(Z, ConstDistr(self.U))
-        #Z = min(max(self.d, self.L), self.U)
-        Z = max(min(self.d, self.U), self.L)
-        diracL = Z.get_piecewise_pdf().segments.pop(0)
-        diracU = Z.get_piecewise_pdf().segments.pop(-1)
-        pmass = 1. - (diracL.f + diracU.f)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1./pmass])).get_piecewise_pdf()
-
+        self.piecewise_pdf = _condition_pdf(self.d.get_piecewise_pdf(), self.L, self.U)
     def __str__(self):
         return "{0} | {1}<X<{2}".format(self.d, self.L, self.U)
     def getName(self):
diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 6c2af6f..978ba2d 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1428,20 +1428,27 @@ def _probDiracAtZeroInProd(f, g):
     else:
         return None
 
+def _addDirac(discr, a, mass):
+    """add an atom, unless it has no mass: such an atom may lie outside of the
+    range of the result
+    """
+    if mass > 0.0:
+        discr.addSegment(DiracSegment(a, mass))
+
 def _probDiracsInMin(f, g):
     """return discrete part of convmin
     """
     f_discr = PiecewiseDistribution([])
     for fi in f.getDiracs():
-        f_discr.addSegment(DiracSegment(fi.a, fi.f * g.integrate(a = fi.a)))
+        _addDirac(f_discr, fi.a, fi.f * g.integrate(a = fi.a))
     g_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
-        g_discr.addSegment(DiracSegment(gi.a, gi.f * f.integrate(a = gi.a)))
+        _addDirac(g_discr, gi.a, gi.f * f.integrate(a = gi.a))
     h_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
         dirac_f = f.getDirac(gi.a)
         if dirac_f is not None:
-            h_discr.addSegment(DiracSegment(gi.a, gi.f * dirac_f.f))
+            _addDirac(h_discr, gi.a, gi.f * dirac_f.f)
     f_discr.add_diracs(g_discr)
     f_discr.add_diracs(h_discr)
     return f_discr
@@ -1451,15 +1458,15 @@ def _probDiracsInMax(f, g):
     """
     f_discr = PiecewiseDistribution([])
     for fi in f.getDiracs():
-        f_discr.addSegment(DiracSegment(fi.a, fi.f * g.integrate(b = fi.a)))
+        _addDirac(f_discr, fi.a, fi.f * g.integrate(b = fi.a))
     g_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
-        g_discr.addSegment(DiracSegment(gi.a, gi.f * f.integrate(b = gi.a)))
+        _addDirac(g_discr, gi.a, gi.f * f.integrate(b = gi.a))
     h_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
         dirac_f = f.getDirac(gi.a)
         if dirac_f is not None:
-            h_discr.addSegment(DiracSegment(gi.a, gi.f * dirac_f.f))
+            _addDirac(h_discr, gi.a, gi.f * dirac_f.f)
     f_discr.add_diracs(g_discr)
     f_discr.add_diracs(h_discr)
     return f_discr
-- 
2.43.0


From 54697d78364cba5f2362776515221a4212a484f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:04 +0000
Subject: [PATCH 05/42] fix: evaluate piecewise functions correctly between
 their segments

A scalar argument between two segments was passed to the following segment, the
distribution function was zero across a gap in the density when evaluated on an
array, and values at integer arrays were truncated to integers.
---
 pacal/segments.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index fe933bc..da5e016 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1075,7 +1075,7 @@ class PiecewiseFunction(object):
             return None
         else:
             # iterate over segments
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             for seg in self.getSegments():#segments:
                 ind = ((x>=seg.a) & (x<seg.b))
                 if ind.any():
@@ -1105,7 +1105,12 @@ class PiecewiseFunction(object):
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
         if  0 < ind < len(self.segments):
-            return self.segments[ind]
+            if self.segments[ind].a <= x <= self.segments[ind].b :
+                return self.segments[ind]
+            elif self.segments[ind-1].b == x:
+                return self.segments[ind-1]
+            else: # between segments
+                return None
         elif ind == 0:
             if self.segments[ind].a <= x <= self.segments[ind].b :
                 return  self.segments[ind]
@@ -1165,7 +1170,11 @@ class PiecewiseFunction(object):
     def cumint(self):
         integralPFun = CumulativePiecewiseFunction([])
         f0 = 0
+        prev_b = None
         for seg in self.segments:
+            if prev_b is not None and prev_b < seg.a: # constant over a gap
+                integralPFun.addSegment(Segment(prev_b, seg.a, ConstFun(f0)))
+            prev_b = seg.b
             if seg.isPInf():
                 f0 = f0 + seg.integrate(seg.a)
             segi = seg.cumint(f0)
-- 
2.43.0


From e601c8a5a26dd6b858acb54b859bc6884b9a561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:32 +0000
Subject: [PATCH 06/42] fix: min and max of variables whose density has a pole

The result was interpolated as if it were smooth, giving infinities, NaN or a
total mass different from one; inner integrals now also treat the poles.
---
 pacal/indeparith.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 978ba2d..92dd99f 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -384,7 +384,7 @@ class Convxrunner(object):
                     funi = partial(funi_minx, segi, segj, x)
                     L = max(segi.a,x)
                     U = segi.b
-                    i, e = _segint(funi, L, U)
+                    i, e = _segint(funi, L, U, force_poleL = segi.hasLeftPole(), force_poleU = segi.hasRightPole())
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)   # TODO
                     e=0
@@ -400,7 +400,7 @@ class Convxrunner(object):
                     funj = partial(funj_minx, segi, segj, x)
                     L = max(segj.a, x)
                     U = segj.b
-                    i, e = _segint(funj, L, U)
+                    i, e = _segint(funj, L, U, force_poleL = segj.hasLeftPole(), force_poleU = segj.hasRightPole())
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -427,7 +427,7 @@ class Convxrunner(object):
                     L = segi.a
                     U = min(segi.b,x)
                     funi = partial(funi_maxx, segi, segj, x)
-                    i, e = _segint(funi, L, U)
+                    i, e = _segint(funi, L, U, force_poleL = segi.hasLeftPole(), force_poleU = segi.hasRightPole())
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -443,7 +443,7 @@ class Convxrunner(object):
                     L = segj.a
                     U = min(segj.b,x)
                     funj = partial(funj_maxx, segi, segj, x)
-                    i, e = _segint(funj, L, U)
+                    i, e = _segint(funj, L, U, force_poleL = segj.hasLeftPole(), force_poleU = segj.hasRightPole())
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -699,6 +699,20 @@ def epseq(a,b):
 #        wyn[j]=I
 #    return wyn
 
+def _segments_with_poles(f, g, a, b, fun):
+    """Segments representing fun on [a, b], which has poles at those ends of the
+    interval where f or g has one
+    """
+    segs = f.getSegments() + g.getSegments()
+    left_pole = any(seg.hasLeftPole() and seg.a == a for seg in segs)
+    right_pole = any(seg.hasRightPole() and seg.b == b for seg in segs)
+    if left_pole and right_pole:
+        m = (a + b) / 2.0
+        return [SegmentWithPole(a, m, fun, left_pole = True), SegmentWithPole(m, b, fun, left_pole = False)]
+    elif left_pole or right_pole:
+        return [SegmentWithPole(a, b, fun, left_pole = left_pole)]
+    return [Segment(a, b, fun)]
+
 def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpoint !!!
     """Probabilistic minimum of f and g.
     """
@@ -730,9 +744,8 @@ def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpo
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2, op)
         #fun = partial(convminx, segList)
         fun = Convxrunner(segList, params.integration_finite).convminx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        for seg in _segments_with_poles(f, g, ub[i], ub[i+1], fun):
+            fg.addSegment(seg.toInterpolatedSegment())
     fg_discr = convdiracs(f, g, fun = op)
 
     # Discrete parts of distribution
@@ -821,9 +834,8 @@ def convmax(f, g):
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2.0, op)
         #fun = partial(convmaxx, segList)
         fun = Convxrunner(segList, params.integration_finite).convmaxx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        for seg in _segments_with_poles(f, g, ub[i], ub[i+1], fun):
+            fg.addSegment(seg.toInterpolatedSegment())
     # Discrete parts of distribution
     fg_discr  =_probDiracsInMax(f, g)
     fg.add_diracs(fg_discr)
-- 
2.43.0


From e057a9a87bcab62b9d8871c0e7e512c9b53812de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:14 +0000
Subject: [PATCH 07/42] fix: gaps in convolution, atom at zero in division,
 integrals over disjoint intervals

---
 pacal/indeparith.py |  4 +++
 pacal/segments.py   | 62 ++++++++++++++++++++++++++-------------------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 92dd99f..1e7b713 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1204,6 +1204,10 @@ def convdiv(f, g):
         fg_discr = convdiracs(f, g, fun = operator.div)
     for seg in fg_discr.getDiracs():
         fg.addSegment(seg)
+    # the numerator's atom at zero divided by the continuous part of g
+    zero_mass = sum(fi.f for fi in f.getDiracs() if fi.a == 0.0)
+    if zero_mass > 0.0:
+        _addDirac(fg, 0.0, zero_mass * sum(seg.integrate() for seg in g.getSegments()))
     return fg
 
 #def convdivx(segList, xx):
diff --git a/pacal/segments.py b/pacal/segments.py
index da5e016..3af588f 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -166,6 +166,8 @@ class Segment(object):
             a=self.a
         if b==None or b>self.b:
             b=self.b
+        if a >= b: # nothing in common with [self.a, self.b]
+            return 0.0
         #i,e = integrate_fejer2(self, self.a, self.b, debug_plot = False)
         i,e = integrate_fejer2(self, a, b, debug_plot = False)
         return i
@@ -493,6 +495,8 @@ class ConstSegment(Segment):
             a=self.a
         if b==None or b>self.b:
             b=self.b
+        if a >= b: # nothing in common with [self.a, self.b]
+            return 0.0
         return self.const*(b-a)
     #def f(self, x):
     #    return 0.0*x + self.const
@@ -808,7 +812,7 @@ class SegmentWithPole(Segment):
             a = self.a
         if b == None or b > self.b:
             b = self.b
-        if a == b:
+        if a >= b: # nothing in common with [self.a, self.b]
             return 0.0
         if self.hasLeftPole() and a == self.a:
             i,e = integrate_fejer2_Xn_transformP(self, a, b)
@@ -1472,33 +1476,39 @@ class PiecewiseFunction(object):
 
     def getBreaksExtended(self):
         # a version which reports poles on the left/right of each breakpoint, etc.
-        #segments = self.getSegments()
-        segments = self.segments
-        if len(segments) == 0:
-            return []
-        breaks = [breakPoint(segments[0].a, False, False)]
-        for seg in segments:
+        eps = params.pole_detection.continuity_eps
+        lefts = {}   # continuous segments beginning at a breakpoint
+        rights = {}  # continuous segments ending at a breakpoint
+        diracs = set()
+        for seg in self.segments:
             if seg.isDirac():
-                breaks[-1].dirac = True
-            if seg.hasLeftPole():
-                breaks[-1].posPole = True
-            if seg.hasRightPole():
-                breaks.append(breakPoint(seg.b, True, False))
+                diracs.add(seg.a)
+            else:
+                lefts[seg.a] = seg
+                rights[seg.b] = seg
+        breaks = []
+        for x in sorted(set(lefts) | set(rights) | diracs):
+            seg_l = rights.get(x) # segment on the left of x
+            seg_r = lefts.get(x)  # segment on the right of x
+            negPole = seg_l is not None and bool(seg_l.hasRightPole())
+            posPole = seg_r is not None and bool(seg_r.hasLeftPole())
+            if x in diracs:
+                breaks.append(breakPoint(x, False, False, dirac = True))
+            if seg_l is None and seg_r is None:
+                continue
+            # check continuity
+            Cont = True
+            if isinf(x):
+                pass
+            elif seg_l is not None and seg_r is not None:
+                if not negPole and not posPole:
+                    Cont = not abs(seg_l.f(x) - seg_r.f(x)) > eps
+            elif negPole or posPole:
+                Cont = False
             else:
-                breaks.append(breakPoint(seg.b, False, False))
-        # check continuity
-        seg = segments[0]
-        if not seg.isDirac() and not isinf(seg.a) and (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps):
-            breaks[0].Cont = False
-        seg = segments[-1]
-        if not seg.isDirac() and not isinf(seg.b) and (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps):
-            breaks[-1].Cont = False
-        for i, seg in enumerate(segments[1:]):
-            if not seg.isDirac() and not segments[i].isDirac():
-                if not segments[i].hasRightPole() and not seg.hasLeftPole():
-                    if (segments[i].hasRightPole() or seg.hasLeftPole()
-                        or abs(segments[i].f(self.segments[i].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps):
-                        breaks[i+1].Cont = False
+                seg = seg_l if seg_r is None else seg_r
+                Cont = not seg.f(x) > eps
+            breaks.append(breakPoint(x, negPole, posPole, Cont))
         return breaks
 
     def getBreaks(self):
-- 
2.43.0


From f1b1a855b98a0d8188a7ba78ddd6efb4c37503a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:02 +0000
Subject: [PATCH 08/42] fix: accuracy of pole interpolation for densities of
 large or small scale

---
 pacal/interpolation.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index c1f33fe..6cc53be 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -28,7 +28,7 @@ from numpy import where, dot, zeros
 from numpy import maximum
 from numpy import newaxis, subtract, isscalar, hstack
 from numpy import finfo, size, double
-from numpy import isnan, isinf
+from numpy import isnan, isinf, isfinite
 from numpy import arange, cos, sin, log, exp, pi, log1p, expm1
 
 from numpy import cumsum, flipud, real, imag, linspace
@@ -598,7 +598,10 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
             self.wrapped_f = f
         self.orig_a = a
         self.orig_b = b
-        self.sign = int(sign(self.wrapped_f(float(a + b) / 2)).item())
+        fmid = asarray(self.wrapped_f(float(a + b) / 2)).item()
+        self.sign = int(sign(fmid))
+        # log1p is applied to values of order 1, whatever the scale of f
+        self.scale = abs(fmid) if isfinite(fmid) and fmid != 0 else 1.0
         if self.sign == 0:
             self.sign = 1
         if a == 0:
@@ -610,12 +613,12 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
                                                 self.xtinv(self.orig_a), self.xtinv(self.orig_b),
                                                 *args, **kwargs)
     def spec_f(self, x):
-        return log1p(self.sign * self.wrapped_f(self.xt(x)))
+        return log1p(self.sign * self.wrapped_f(self.xt(x)) / self.scale)
     def interp_at(self, x):
-        y = self.sign * expm1(abs(super(PoleInterpolatorP, self).interp_at(self.xtinv(x))))
+        y = self.sign * self.scale * expm1(abs(super(PoleInterpolatorP, self).interp_at(self.xtinv(x))))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), self.sign * expm1(self.Ys)
+        return self.xt(self.Xs), self.sign * self.scale * expm1(self.Ys)
     def test_accuracy_tmp(self, new_Xs, new_Ys):
         """Test accuracy by comparing true and interpolated values at
         given points."""
@@ -627,7 +630,7 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         Ys = concatenate(([self.Ys[0]], self.Ys))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
+        Ys = self.scale * exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
@@ -647,7 +650,10 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
             self.wrapped_f = f
         self.orig_a = a
         self.orig_b = b
-        self.sign = int(sign(self.wrapped_f(float(a + b) / 2)).item())
+        fmid = asarray(self.wrapped_f(float(a + b) / 2)).item()
+        self.sign = int(sign(fmid))
+        # log1p is applied to values of order 1, whatever the scale of f
+        self.scale = abs(fmid) if isfinite(fmid) and fmid != 0 else 1.0
         if b == 0:
             offset = 1e-50
         else:
@@ -657,12 +663,12 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
                                                 self.xtinv(self.orig_a), self.xtinv(self.orig_b),
                                                 *args, **kwargs)
     def spec_f(self, x):
-        return log1p(self.sign * self.wrapped_f(self.xt(x)))
+        return log1p(self.sign * self.wrapped_f(self.xt(x)) / self.scale)
     def interp_at(self, x):
-        y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
+        y = self.sign * self.scale * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), expm1(self.Ys)
+        return self.xt(self.Xs), self.sign * self.scale * expm1(self.Ys)
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
@@ -674,7 +680,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         Ys = concatenate((self.Ys, [self.Ys[-1]]))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
+        Ys = self.scale * exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
-- 
2.43.0


From 2926b3122c0acf411255d0bb49f61988f92b5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:06 +0000
Subject: [PATCH 09/42] fix: products and quotients of densities with poles
 away from zero

---
 pacal/indeparith.py | 48 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 1e7b713..95efc48 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -38,6 +38,40 @@ def _testConvPole(seg, L, U, pole_eps = None):
         poleR = True
     return poleL, poleR
 
+def _integrand_poles(seg, L, U, other_L, other_U):
+    """Does the integrand of a product or quotient have poles at L and U, the
+    ends of the integration interval?  An end of the interval away from zero is
+    either an end of seg or comes from the other segment: other_L and other_U tell
+    whether that one has a pole there.  Poles at zero need no special treatment."""
+    if not L < U:
+        return False, False
+    poleL = L != 0 and isfinite(L) and bool(seg.hasLeftPole() if L == seg.a else other_L)
+    poleU = U != 0 and isfinite(U) and bool(seg.hasRightPole() if U == seg.b else other_U)
+    return poleL, poleU
+
+def _segint_poles(fun, L, U, force_minf, force_pinf, force_poleL, force_poleU):
+    """Integrate fun over [L, U], the ends with poles separately from very wide
+    or infinite parts of the interval."""
+    # rounding must not put an argument exactly at a pole
+    if force_poleL:
+        L = L + 2 * finfo(float).eps * abs(L)
+    if force_poleU:
+        U = U - 2 * finfo(float).eps * abs(U)
+    i, e = 0.0, 0.0
+    if force_minf or force_pinf or isinf(L) or isinf(U):
+        d = (U - L) / 2
+        if force_poleL:
+            M = L + (d if force_minf else min(d, max(1.0, abs(L))))
+            i0, e0 = _segint(fun, L, M, force_poleL = True)
+            i, e, L = i + i0, e + e0, M
+        if force_poleU:
+            M = U - (d if force_pinf else min(d, max(1.0, abs(U)))) / 2
+            i0, e0 = _segint(fun, M, U, force_poleU = True)
+            i, e, U = i + i0, e + e0, M
+        force_poleL = force_poleU = False
+    i0, e0 = _segint(fun, L, U, force_minf, force_pinf, force_poleL, force_poleU)
+    return i + i0, e + e0
+
 def _unique_breakpoints(breaks, eps = 4 * finfo(float).eps):
     """Make breakpoints list unique"""
     ubreaks = []
@@ -483,6 +517,7 @@ class Convxrunner(object):
                     if x>0:
                         L = max(segi.a, sign(segi.a+segi.b)*x/abs(segj.b))
                         U = min(segi.b, sign(segi.a+segi.b)*x/abs(segj.a))
+                        forcepoleL, forcepoleU = _integrand_poles(segi, L, U, segj.hasRightPole(), segj.hasLeftPole())
                     else:
                         L = segi.a
                         U = segi.b
@@ -491,11 +526,12 @@ class Convxrunner(object):
                     if x<0:
                         L = max(segi.a, -sign(segi.a+segi.b)*x/abs(segj.a))
                         U = min(segi.b, -sign(segi.a+segi.b)*x/abs(segj.b))
+                        forcepoleL, forcepoleU = _integrand_poles(segi, L, U, segj.hasLeftPole(), segj.hasRightPole())
                     else: # TODO: fix needed when x=0 and second argument contains 0 - FIXED
                         L = segi.a
                         U = segi.b
                         i1, e1 = _segint(funj, segj.a, segj.b)
-                i, e = _segint(funi, L, U, force_poleL = forcepoleL, force_poleU = forcepoleU )
+                i, e = _segint_poles(funi, L, U, False, False, forcepoleL, forcepoleU)
                 i=i+i1
             elif segi.isDirac() and segj.isSegment():
                 i = segi.f*segj.f(x/segi.a)*1.0/abs(segi.a)   # TODO
@@ -541,6 +577,7 @@ class Convxrunner(object):
         err = 0.0
         for segi, segj in segList :
             if segi.isSegment() and segj.isSegment():
+                force_poleL = force_poleU = False
                 if x == 0:
                     L = segj.a
                     U = segj.b
@@ -550,6 +587,8 @@ class Convxrunner(object):
                     L, U = min(L, U), max(L, U)
                     L = max(segj.a, L)
                     U = min(segj.b, U)
+                    poles = segi.hasLeftPole(), segi.hasRightPole()
+                    force_poleL, force_poleU = _integrand_poles(segj, L, U, *(poles if x > 0 else poles[::-1]))
 
                 # integrate with variable transform even for finite intervals
                 # if the integration domain is very wide
@@ -559,7 +598,7 @@ class Convxrunner(object):
                     force_minf = True
                 if not isinf(U) and U > 0 and (isinf(segi.b) or isinf(segj.b)):
                     force_pinf = True
-                i, e = _segint(fun, L, U, force_minf, force_pinf)
+                i, e = _segint_poles(fun, L, U, force_minf, force_pinf, force_poleL, force_poleU)
 
             elif segi.isDirac() and segj.isSegment():
                 i = segi.f * segj.f(segi.a/x) * abs(segi.a)/x/x
@@ -589,6 +628,7 @@ class Convxrunner(object):
         err = 0.0
         for segi, segj in segList:
             if segi.isSegment() and segj.isSegment():
+                force_poleL = force_poleU = False
                 if x == 0:
                     L = segj.a
                     U = segj.b
@@ -598,6 +638,8 @@ class Convxrunner(object):
                     L, U = min(L, U), max(L, U)
                     L = max(segi.a, L)
                     U = min(segi.b, U)
+                    poles = segj.hasLeftPole(), segj.hasRightPole()
+                    force_poleL, force_poleU = _integrand_poles(segi, L, U, *(poles if x > 0 else poles[::-1]))
 
                 # integrate with variable transform even for finite intervals
                 # if the integration domain is very wide
@@ -607,7 +649,7 @@ class Convxrunner(object):
                     force_minf = True
                 if not isinf(U) and U > 0 and (isinf(segi.b) or isinf(segj.b)):
                     force_pinf = True
-                i, e = _segint(fun, L, U, force_minf, force_pinf)
+                i, e = _segint_poles(fun, L, U, force_minf, force_pinf, force_poleL, force_poleU)
             elif segi.isDirac() and segj.isSegment():
                 assert (segi.a != 0.0)
                 i = segi.f * segj.f(segi.a/x) * abs(segi.a) / x / x
-- 
2.43.0


From 3ef5e8ffca3c682a8765daf24ba525c928bc987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:06 +0000
Subject: [PATCH 10/42] fix: infinite density in the tail caused by rounding at
 the segment end

---
 pacal/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 6cc53be..b3f8c03 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -528,7 +528,8 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
                                                        par=params.interpolation_asymp,
                                                        *args, **kwargs)
     def spec_f(self, x):
-        return log(abs(self.wrapped_f(self.xt(x))))
+        # rounding in xt must not lead outside of the domain of the function
+        return log(abs(self.wrapped_f(maximum(self.xt(x), self.orig_a))))
     def interp_at(self, x):
         if isscalar(x):
             if x > self.orig_b:
-- 
2.43.0


From e8988d043d92a3c28290ddb00825d90e61b788cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:30 +0000
Subject: [PATCH 11/42] fix: density of reciprocals and squares at arrays of
 points

---
 pacal/distr.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 861e747..2529c3f 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -804,11 +804,11 @@ class InvDistr(InvRV, OpDistr):
         self.pole_at_zero = False
     def pdf(self, x):
         if isscalar(x):
-            y = self.d.pdf(1.0/x)/x**2
+            y = self.d.pdf(1.0/x)/x**2 if x != 0 else 0.0
         else:
             y = zeros_like(x, dtype=float)
             mask = x != 0
-            y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
+            y[mask] = self.d.pdf(1.0/x[mask])/x[mask]**2
         return y
     def rand_op(self, n, cache):
         return 1.0/self.d.rand(n, cache)
@@ -925,10 +925,16 @@ class SquareDistr(OpDistr):
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
     def pdf(self,x):
-        if x <= 0:  # won't work for x == 0
-            f = 0
+        if isscalar(x):
+            if x <= 0:  # won't work for x == 0
+                f = 0
+            else:
+                f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
         else:
-            f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
+            f = zeros_like(x, dtype=float)
+            mask = x > 0
+            r = sqrt(x[mask])
+            f[mask] = (self.d.pdf(-r) + self.d.pdf(r)) / (2*r)
         return f
     def rand_op(self, n, cache):
         r = self.d.rand(n, cache)
-- 
2.43.0


From 01fca4b6e23cbc150897d40987251fad31a1d935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 12/42] fix: ranges of derived variables

---
 pacal/distr.py | 15 ++++++++++
 pacal/rv.py    | 74 ++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 69 insertions(+), 20 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 2529c3f..11d8343 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -29,6 +29,7 @@ from . import params
 from pacal.indeparith import conv, convprod, convdiv, convmin, convmax
 from pacal.segments import PiecewiseFunction, PiecewiseDistribution, DiracSegment, ConstSegment
 from pacal.rv import *
+from pacal.rv import _range_func, _range_abs, _range_mul
 
 
 def _mgf_fun(distr, t):
@@ -562,6 +563,10 @@ class FuncDistr(FuncRV, OpDistr):
     def __init__(self, d, pole_at_zero = False, fname = "f", sym = None):
         super(FuncDistr, self).__init__(d, sym = sym, fname = fname)
         self.pole_at_zero = pole_at_zero
+        self.a, self.b = self.init_range()
+    def init_range(self):
+        """Range of the result, for nondecreasing functions."""
+        return _range_func(self.f, self.d.range())
 # functions need to be implemented directly (not passed to constructor)
 #        self.f = f
 #        self.f_inv = f_inv
@@ -897,6 +902,7 @@ class AbsDistr(OpDistr):
     def __init__(self, d):
         super(AbsDistr, self).__init__([d])
         self.d = d
+        self.a, self.b = _range_abs(d.range())
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
     def pdf(self, x):
@@ -922,6 +928,8 @@ class SquareDistr(OpDistr):
     def __init__(self, d):
         super(SquareDistr, self).__init__([d])
         self.d = d
+        r = _range_abs(d.range())
+        self.a, self.b = _range_mul(r, r)
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
     def pdf(self,x):
@@ -1057,6 +1065,11 @@ class TanDistr(FuncDistr):
         super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
     def f(self, x):
         return numpy.tan(x)
+    def init_range(self):
+        a, b = self.d.range()
+        if -pi/2 <= a and b <= pi/2:
+            return _range_func(self.f, (a, b))
+        return -Inf, Inf
     def f_inv(self, x):
         return numpy.arctan(x)
     def f_inv_deriv(self, x):
@@ -1104,6 +1117,8 @@ class DiscreteDistr(Distr):
         return "Discrete({0})#{1}".format(pstr, self.id())
     def getName(self):
         return "Di({0})".format(len(self.xi))
+    def range(self):
+        return self.xi[0], self.xi[-1]
 
 class SignDistr(DiscreteDistr):
     def __init__(self, d):
diff --git a/pacal/rv.py b/pacal/rv.py
index c0f29f1..1937941 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -58,6 +58,9 @@ class RV(object):
 
     def range(self):
         return self.a, self.b
+    def is_nonneg(self):
+        """check, if distribution is positive definite"""
+        return self.range()[0] >= 0
 
     def getName(self):
         """return, string representation of RV"""
@@ -302,13 +305,34 @@ def _wrapped_name(d, incl_classes = None):
     return d_name
 
 
+def _range_mul(r1, r2):
+    """Range of a product given ranges of the factors."""
+    breaks = [0.0 if x == 0 or y == 0 else x * y for x in r1 for y in r2]
+    return _builtin_min(breaks), _builtin_max(breaks)
+def _range_inv(r):
+    """Range of 1/X given the range of X."""
+    a, b = r
+    if a < 0 < b or a == b == 0:
+        return -numpy.inf, numpy.inf
+    return (1.0 / b if b != 0 else -numpy.inf), (1.0 / a if a != 0 else numpy.inf)
+def _range_abs(r):
+    """Range of |X| given the range of X."""
+    a, b = r
+    if a <= 0 <= b:
+        return 0.0, _builtin_max(-a, b)
+    return _builtin_min(abs(a), abs(b)), _builtin_max(abs(a), abs(b))
+def _range_func(f, r):
+    """Range of f(X) for nondecreasing f given the range of X."""
+    with numpy.errstate(all = "ignore"):
+        return float(f(numpy.float64(r[0]))), float(f(numpy.float64(r[1])))
+
 class OpRV(RV):
     """Base class for operations on RVs."""
     def __str__(self):
         if len(self.parents)==2:
             if isinstance(self.getSym(), sympy.Add):
                 op = "+"
-            if isinstance(self.getSym(), sympy.Mul):
+            elif isinstance(self.getSym(), sympy.Mul):
                 op = "*"
             else:
                 op = str(self.getSym().__class__)
@@ -333,8 +357,9 @@ class ShiftedScaledRV(OpRV):
         self.shift = shift
         self.scale = scale
         super(ShiftedScaledRV, self).__init__([d], sym = (d.getSymname() * self.scale + self.shift))
-        a = d.a * self.scale + self.shift
-        b = d.b * self.scale + self.shift
+        a, b = d.range()
+        a = a * self.scale + self.shift
+        b = b * self.scale + self.shift
         self.a, self.b = min(a, b), max(a, b)
         self.d = d
     def __str__(self):
@@ -362,6 +387,7 @@ class ExpRV(FuncRV):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpRV, self).__init__(d, fname = "exp", sym = sympy.exp(d.getSymname()))
+        self.a, self.b = _range_func(numpy.exp, d.range())
     def is_nonneg(self):
         return True
 class LogRV(FuncRV):
@@ -370,21 +396,25 @@ class LogRV(FuncRV):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
         super(LogRV, self).__init__(d, fname = "log", sym = sympy.log(d.getSymname()))
+        self.a, self.b = _range_func(numpy.log, d.range())
 
 class AtanRV(FuncRV):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
         super(AtanRV, self).__init__(d, fname ="atan", sym = sympy.atan(d.getSymname()))
+        self.a, self.b = _range_func(numpy.arctan, d.range())
 
 class TanhRV(FuncRV):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
         super(TanhRV, self).__init__(d, fname ="tanh", sym = sympy.tanh(d.getSymname()))
+        self.a, self.b = _range_func(numpy.tanh, d.range())
 
 class InvRV(OpRV):
     """Inverse of random variable."""
     def __init__(self, d):
         super(InvRV, self).__init__([d], sym = 1 / d.getSymname())
+        self.a, self.b = _range_inv(d.range())
         self.d = d
     def __str__(self):
         return "1/#{0}".format(self.d.id())
@@ -399,18 +429,21 @@ class InvRV(OpRV):
 class PowRV(FuncRV):
     """Inverse of random variable."""
     def __init__(self, d, alpha = 1):
-        super(PowRV, self).__init__([d], fname="pow", sym = d.getSymname()**alpha)
+        super(PowRV, self).__init__(d, fname="pow", sym = d.getSymname()**alpha)
+        a, b = _range_func(lambda x: x ** alpha, d.range())
+        self.a, self.b = _builtin_min(a, b), _builtin_max(a, b)
         self.d = d
         self.alpha = alpha
     def __str__(self):
-        return "#{0}**{1}".format(self.d1.id(), self.alpha)
+        return "#{0}**{1}".format(self.d.id(), self.alpha)
     def getName(self):
         return "{0}**{1}".format(_wrapped_name(self.d), self.alpha)
 
 class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymame())) # TODO abs unpleasant in sympy
+        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
+        self.a, self.b = _range_abs(d.range())
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
@@ -420,7 +453,8 @@ class AbsRV(OpRV):
 class SignRV(RV):
     def __init__(self, d):
         self.d = d
-        super(SignRV, self).__init__(d, sym = sympy.sign(d.getSymname()))
+        super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
+        self.a, self.b = _range_func(numpy.sign, d.range())
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
@@ -430,6 +464,8 @@ class SquareRV(OpRV):
     """Injective function of random variable"""
     def __init__(self, d):
         super(SquareRV, self).__init__([d], sym = d.getSymname()**2)
+        r = _range_abs(d.range())
+        self.a, self.b = _range_mul(r, r)
         self.d = d
     def __str__(self):
         return "#{0}**2".format(self.d.id())
@@ -462,7 +498,7 @@ class SubRV(OpRV):
         #self.a, self.b = min(breaks), max(breaks)
         a1, b1 = d1.range()
         a2, b2 = d2.range()
-        self.a, self.b = a1-a2, b1-b2
+        self.a, self.b = a1-b2, b1-a2
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -476,8 +512,7 @@ class SubRV(OpRV):
 class MulRV(OpRV):
     def __init__(self, d1, d2):
         super(MulRV, self).__init__([d1, d2], sym = d1.getSymname() * d2.getSymname())
-        breaks = unique(multiply.outer(d1.range(), d2.range()))
-        self.a, self.b = min(breaks), max(breaks)
+        self.a, self.b = _range_mul(d1.range(), d2.range())
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -492,14 +527,7 @@ class MulRV(OpRV):
 class DivRV(OpRV):
     def __init__(self, d1, d2):
         super(DivRV, self).__init__([d1, d2], sym = d1.getSymname() / d2.getSymname())
-        d1range = list(d1.range())
-        d2range = list(d2.range())
-        if prod(d1range)<0:
-            d1range.append(0.0)
-        if prod(d2range)<0:
-            d2range.append(0.0)
-        breaks = unique(divide.outer(d1range, d2range))
-        self.a, self.b = min(breaks), max(breaks)
+        self.a, self.b = _range_mul(d1.range(), _range_inv(d2.range()))
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -514,9 +542,12 @@ class DivRV(OpRV):
 class MinRV(OpRV):
     def __init__(self, d1, d2):
         super(MinRV, self).__init__([d1, d2], sym = sympy_min(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = _builtin_min(a1, a2), _builtin_min(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         #return "min(#{0}, #{1})".format(self.d1.id(), self.d2.id())
         return "min({0},{1})".format(self.d1, self.d2)
     def getName(self):
@@ -527,9 +558,12 @@ class MinRV(OpRV):
 class MaxRV(OpRV):
     def __init__(self, d1, d2):
         super(MaxRV, self).__init__([d1, d2], sym = sympy_max(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = _builtin_max(a1, a2), _builtin_max(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         return "max(#{0}, #{1})".format(self.d1.id(), self.d2.id())
     def getName(self):
         return "max({0}, {1})".format(self.d1.getName(), self.d2.getName())
-- 
2.43.0


From 49a441d6cc5bdd4cbcbc6089952a0bf2420fa891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 13/42] fix: densities of standard distributions at arrays of
 integers, at numbers and at the ends of the support

---
 pacal/standard_distr.py | 67 +++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 872caa6..1890b9c 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -8,6 +8,8 @@ from numpy import pi, sqrt, exp, log, log1p, cos, floor
 from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel, randint
 from numpy.random import f as f_rand
 
+from scipy.special import xlogy
+
 from numpy import finfo, double
 from functools import partial
 _MAX_EXP_ARG = log(finfo(double).max)
@@ -62,6 +64,8 @@ class PDistr(Distr):
     def getName(self):
         #return "PDISTR({0})".format(self.get_piecewise_pdf())
         return "PDISTR({0},{1})".format(self.get_piecewise_pdf().segments[0].a, self.get_piecewise_pdf().segments[-1].b)
+    def range(self):
+        return self.get_piecewise_pdf().range()
     def rand_raw(self, n = 1):
         return self.rand_invcdf(n)
 
@@ -331,7 +335,7 @@ class ExponentialDistr(Distr):
             else:
                 y = self.lmbda * exp(-self.lmbda * x)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0)
             y[mask] = self.lmbda * exp(-self.lmbda * x[mask])
         return y
@@ -378,7 +382,7 @@ class GammaDistr(Distr):
             else:
                 y = exp(self.log_pdf(x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = exp(self.log_pdf(x[mask]))
             mask_zero = (x == 0)
@@ -419,11 +423,11 @@ class BetaDistr(Distr):
             if x < 0 or x > 1:
                 y = 0
             else:
-                y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
+                y = exp(self.lg_norm + xlogy(self.alpha - 1, x) + xlogy(self.beta - 1, 1-x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
-            y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
+            y[mask] = exp(self.lg_norm + xlogy(self.alpha - 1, x[mask]) + xlogy(self.beta - 1, 1-x[mask]))
         return y
     def init_piecewise_pdf(self):
         if self.alpha > 1 and self.beta > 1:
@@ -469,11 +473,11 @@ class ParetoDistr(Distr):
             if x < self.xmin:
                 y = 0
             else:
-                y = self.nrm / x ** (self.alpha + 1)
+                y = self.nrm / x ** (self.alpha + 1.0)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= self.xmin)
-            y[mask] = self.nrm / x[mask] ** (self.alpha + 1)
+            y[mask] = self.nrm / x[mask] ** (self.alpha + 1.0)
         return y
     def init_piecewise_pdf(self):
         self.piecewise_pdf = PiecewiseDistribution([])
@@ -503,7 +507,7 @@ class LevyDistr(Distr):
             else:
                 y = self.nrm * exp(log(x - self.xmin)*(-1.5) -0.5 * self.c / (x - self.xmin))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > self.xmin)
             y[mask] = self.nrm * exp(log(x[mask] - self.xmin)*(-1.5) -0.5 * self.c / (x[mask] - self.xmin))
         return y
@@ -585,10 +589,12 @@ class SemicircleDistr(Distr):
         if isscalar(x):
             if -self.R <= x <= self.R:
                 y = self.norm * sqrt(self.R*self.R - x*x)
+            else:
+                y = 0
         else:
             mask = (-self.R <= x) & (x <= self.R)
-            y = zeros_like(x)
-            y[mask] = self.norm * sqrt(self.R*self.R - x*x)
+            y = zeros_like(x, dtype=float)
+            y[mask] = self.norm * sqrt(self.R*self.R - x[mask]*x[mask])
         return y
     def init_piecewise_pdf(self):
         # split at inflection points
@@ -628,7 +634,7 @@ class FDistr(Distr):
                 lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x) - (self.df1 + self.df2) * log(self.df1 * x + self.df2)) - log(x)
                 y = exp(lgy)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x==0] = self.pdf_at_0
             mask = (x > 0)
             lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x[mask]) - (self.df1 + self.df2) * log(self.df1 * x[mask] + self.df2)) - log(x[mask])
@@ -668,7 +674,7 @@ class WeibullDistr(Distr):
         if self.k < 1:
             self.pdf_at_0 = np.inf
         elif self.k == 1:
-            self.pdf_at_0 = 1
+            self.pdf_at_0 = self.nrm
         else:
             self.pdf_at_0 = 0
     def pdf(self, x):
@@ -680,7 +686,7 @@ class WeibullDistr(Distr):
             else:
                 y = self.nrm * exp(log(x / self.lmbda)*(self.k-1) - (x / self.lmbda)**self.k)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = self.nrm * exp(log(x[mask] / self.lmbda)*(self.k-1) - (x[mask] / self.lmbda)**self.k)
             mask_zero = (x == 0)
@@ -746,7 +752,7 @@ class GumbelDistr(Distr):
     def getName(self):
         return "Gumbel({0},{1})".format(self.mu, self.sigma)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return -np.inf, np.inf
 
 class FrechetDistr(Distr):
     def __init__(self, alpha = 2, s = 1, m = 0, **kwargs):
@@ -765,7 +771,7 @@ class FrechetDistr(Distr):
             else:
                 y = self.nrm * exp(-(self.alpha+1) * log(t) - t ** (-self.alpha))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (t > 0)
             y[mask] = self.nrm * exp(-(self.alpha+1) * log(t[mask]) - t[mask] ** (-self.alpha))
         return y
@@ -789,7 +795,7 @@ class FrechetDistr(Distr):
     def getName(self):
         return "Frechet({0},{1},{2})".format(self.alpha, self.s, self.m)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return self.m, np.inf
 
 
 #f(x;\alpha ,\beta )= (k/s) * (x/s)**(k-1) / ((1 + (x/s)**k)**2)  # Wikipedia form
@@ -803,14 +809,20 @@ class FrechetDistr(Distr):
 class LogLogisticDistr(Distr):
     def __init__(self, k, s=1.0, **kwargs):
         if k <= 0:
-            raise RuntimeError("Shape parameter k must be > 0, got {}".format(alpha))
+            raise RuntimeError("Shape parameter k must be > 0, got {}".format(k))
         if s <= 0:
-            raise RuntimeError("Scale parameter s must be > 0, got {}".format(beta))
+            raise RuntimeError("Scale parameter s must be > 0, got {}".format(s))
         super().__init__(**kwargs)
         self.k = k
         self.s = s
         self.log_k = np.log(k)
         self.log_s_pow_k = k * np.log(s)
+        if k < 1:
+            self.pdf_at_0 = np.inf
+        elif k == 1:
+            self.pdf_at_0 = 1.0 / s
+        else:
+            self.pdf_at_0 = 0
     def log_pdf(self, x):
         # pdf form from www.randomservices.org
         lx = np.log(x)
@@ -818,12 +830,21 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
-        y = zeros_like(x)
-        mask = (x >= 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
         #  / ((self.s_pow_k + x[mask]**self.k)**2)
-        y[mask] = np.exp(self.log_pdf(x))
+        if isscalar(x):
+            if x < 0:
+                y = 0
+            elif x == 0:
+                y = self.pdf_at_0
+            else:
+                y = exp(self.log_pdf(x))
+        else:
+            y = zeros_like(x, dtype=float)
+            mask = (x > 0)
+            y[mask] = exp(self.log_pdf(x[mask]))
+            y[x == 0] = self.pdf_at_0
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
@@ -877,7 +898,7 @@ class MollifierDistr(Distr):
                 t = x / self.epsilon
                 y = self.nrm * exp(-1.0 / (1 - t*t))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (abs(x) < self.epsilon)
             y[mask] = self.nrm * exp(-1.0 / (1 - (x[mask] / self.epsilon)**2))
         return y
-- 
2.43.0


From e42fb551900cd5a88f57a0edf085ccb6f0964ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 14/42] fix: narrow normal distributions far from zero

---
 pacal/interpolation.py  |  2 +-
 pacal/standard_distr.py | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index b3f8c03..b457f7e 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -808,7 +808,7 @@ class PInfInterpolator(object):
         exponent = params.interpolation_infinite.exponent # var transform interpolator's exponent
         max_order = 1e06          # maximum order of difference for Ys in barycentric interpolator
         min_x_barycentric = 1.0 / max_order  # minimum x for which barycentric interpolator is used
-        min_nonzero_y = 1e-100    # minimum value of Y considered nonzero
+        min_nonzero_y = 1e-60     # minimum value of Y considered nonzero
 
         if f is not None:
             self.f = f
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 1890b9c..bf08a9f 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -158,6 +158,17 @@ class NormalDistr(Distr):
         #pdf = partial(_norm_pdf, self.mu, self.nrm, self.one_over_twosigma2)
         self.piecewise_pdf = PiecewiseDistribution([])
         wrapped_pdf = wrap_pdf(self.pdf)
+        if abs(self.mu) > 100 * self.sigma:
+            # the transform used on infinite tails has the scale of the end of
+            # the tail, narrow tails far from zero are integrated as finite ones
+            t1 = self.mu - 10 * self.sigma
+            t2 = self.mu + 10 * self.sigma
+            self.piecewise_pdf.addSegment(MInfSegment(t1, wrapped_pdf))
+            self.piecewise_pdf.addSegment(Segment(t1, b1, wrapped_pdf))
+            self.piecewise_pdf.addSegment(Segment(b1, b2, wrapped_pdf))
+            self.piecewise_pdf.addSegment(Segment(b2, t2, wrapped_pdf))
+            self.piecewise_pdf.addSegment(PInfSegment(t2, wrapped_pdf))
+            return
         self.piecewise_pdf.addSegment(MInfSegment(b1, wrapped_pdf))
         self.piecewise_pdf.addSegment(Segment(b1, b2, wrapped_pdf))
         self.piecewise_pdf.addSegment(PInfSegment(b2, wrapped_pdf))
-- 
2.43.0


From b4209b7d45d2e95e3c0359040dfa099d7bc0d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:43 +0000
Subject: [PATCH 15/42] fix: poles and ends of densities of functions of a
 variable

---
 pacal/segments.py | 246 ++++++++++++++++++++++++----------------------
 1 file changed, 127 insertions(+), 119 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 3af588f..89dba3e 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -20,7 +20,7 @@ from numpy import sign, isinf, isfinite, exp, isneginf, isposinf
 from numpy import logspace, sqrt, minimum, maximum, pi, mean, log10
 from numpy import append, nan_to_num, select
 from numpy.random import uniform
-from numpy import argmax, argmin
+from numpy import argmax, argmin, spacing
 import numpy
 from pylab import plot, semilogx, xlabel, ylabel, axis, loglog, figure, subplot
 
@@ -35,8 +35,11 @@ def prob_comp_fun(f, ginv, ginvderiv, x):
             y = f(ginv(x)) * abs(ginvderiv(x))
         except ArithmeticError:
             y = 0
+        if not isfinite(y):
+            y = 0
     else:
-        y = _safe_call(f(ginv(x)) * abs(ginvderiv(x)))
+        y = f(ginv(x)) * abs(ginvderiv(x))
+        y[~isfinite(y)] = 0
     return y
 def call_segint(seg, y0, x):
     if isscalar(x):
@@ -92,6 +95,18 @@ def _prob_composition2(f, ginv, ginvderiv, x):
 def _prob_composition_safe(f, ginv, ginvderiv, x):
     return _safe_call(f(ginv(x)) * abs(ginvderiv(x)))
 
+def _clipped_call(fun, lo, hi, x):
+    return fun(minimum(maximum(x, lo), hi))
+
+def _test_image_pole(fun, x, width, pos):
+    """Does the density fun of a transformed variable have a pole at
+    the end x of its segment?"""
+    if x == 0:
+        fromTo = (log10(width) - 1, log10(width) - 10)
+    else:
+        fromTo = (log10(width) - 1, min(log10(width), log10(abs(x))) - 7)
+    return testPole(fun, x, pos = pos, deriv = False, fromTo = fromTo)
+
 def _call_f(obj, x):
     return obj.f(x)
 def wrap_f(f):
@@ -169,7 +184,10 @@ class Segment(object):
         if a >= b: # nothing in common with [self.a, self.b]
             return 0.0
         #i,e = integrate_fejer2(self, self.a, self.b, debug_plot = False)
-        i,e = integrate_fejer2(self, a, b, debug_plot = False)
+        if a * b > 0 and max(a / b, b / a) > 1e3:
+            i,e = integrate_wide_interval(self, a, b, debug_plot = False)
+        else:
+            i,e = integrate_fejer2(self, a, b, debug_plot = False)
         return i
     def cumint(self, y0 = 0.0):
         """indefinite integral over interval (a, x)"""
@@ -324,129 +342,108 @@ class Segment(object):
             a = self.b
             b = self.a
         return Segment(a * scale + shift, b * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift))
+    def _safeFun(self):
+        """The function to use in compositions with other functions.
+        Rounding of its argument should not hit a pole."""
+        if self.hasPole() and (self.safe_a != self.a or self.safe_b != self.b):
+            return partial(_clipped_call, self.f, self.safe_a, self.safe_b)
+        return self.f
+    def _imageSegments(self, fun, ends, pole_at_zero = False, test_poles = True):
+        """List of segments with the density fun of a transformed
+        variable.
+
+        ends are the images of the ends of this segment.  A segment
+        with poles on both ends is split in the middle, one with a
+        pole and an infinite end is split next to the pole.
+        """
+        (lo, lpole), (hi, rpole) = sorted(zip(ends, [self.hasLeftPole(), self.hasRightPole()]))
+        if lo == hi:
+            return [DiracSegment(lo, self.integrate())]
+        width = min(hi - lo, 1.0)
+        # finite images of infinity are approached as a limit
+        safe_ends = []
+        for end, image, d in [(self.a, ends[0], ends[1] - ends[0]), (self.b, ends[1], ends[0] - ends[1])]:
+            if isinf(end) and isfinite(image):
+                image += sign(d) * (spacing(abs(image)) if image != 0 else 1e-100)
+            safe_ends.append(image)
+        if tuple(safe_ends) != tuple(ends):
+            fun = partial(_clipped_call, fun, min(safe_ends), max(safe_ends))
+        if isfinite(lo):
+            lpole = lpole or (lo == 0 and pole_at_zero) or (test_poles and _test_image_pole(fun, lo, width, True))
+        if isfinite(hi):
+            rpole = rpole or (hi == 0 and pole_at_zero) or (test_poles and _test_image_pole(fun, hi, width, False))
+        if isinf(lo):
+            if not rpole:
+                return [MInfSegment(hi, fun)]
+            return [MInfSegment(hi - 1.0, fun), SegmentWithPole(hi - 1.0, hi, fun, left_pole = False)]
+        if isinf(hi):
+            if not lpole:
+                return [PInfSegment(lo, fun)]
+            return [SegmentWithPole(lo, lo + 1.0, fun), PInfSegment(lo + 1.0, fun)]
+        if lpole and rpole:
+            mid = 0.5 * (lo + hi)
+            return [SegmentWithPole(lo, mid, fun), SegmentWithPole(mid, hi, fun, left_pole = False)]
+        if lpole:
+            return [SegmentWithPole(lo, hi, fun)]
+        if rpole:
+            return [SegmentWithPole(lo, hi, fun, left_pole = False)]
+        return [Segment(lo, hi, fun)]
+
     def probComposition(self, g, ginv, ginvderiv, pole_at_zero = False):
-        """It produce probabilistic composition g o f for a given distribution f
+        """It produce probabilistic composition g o f for a given
+        distribution f, as a list of segments
         """
         if self.isDirac():
-            return DiracSegment(g(self.a), self.f)
-        fun = partial(prob_comp_fun, self.f, ginv, ginvderiv)
+            return [DiracSegment(g(self.a), self.f)]
+        fun = partial(prob_comp_fun, self._safeFun(), ginv, ginvderiv)
         #print fun.func, fun.args
-        if (isinf(g(array([self.a])))):
-        #if (self.a==0):
-            if  g(self.b)<0:
-                return MInfSegment(g(self.b), fun)
-            else:
-                return PInfSegment(g(self.b), fun)
-        if (isinf(g(array([self.b])))):
-        #elif (self.b==0):
-            if g(self.a)>0:
-                return PInfSegment(g(self.a), fun)
-            else:
-                return MInfSegment(g(self.a), fun)
-        else:
-            if g(self.a) < g(self.b):
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.a), g(self.b), fun)
-                else:
-                    return Segment(g(self.a),g(self.b), fun)
-            elif g(self.a) == g(self.b):
-                return DiracSegment(g(self.a), self.integrate())
-            else:
-                if g(self.b)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.b), g(self.a), fun, left_pole = False)
-                else:
-                    return Segment(g(self.b),g(self.a), fun)
-    # TODO: unused
-    def probInverse(self, pole_at_zero = False): # TODO unused ??
-        """It produce probalilistic composition g o f for a given distribution f
+        ga = float(g(array([self.a]))[0])
+        gb = float(g(array([self.b]))[0])
+        if isinf(ga):
+            ga = -np.inf if gb < 0 else np.inf
+        elif isinf(gb):
+            gb = np.inf if ga > 0 else -np.inf
+        return self._imageSegments(fun, (ga, gb), pole_at_zero)
+
+    def probInverse(self, pole_at_zero = False):
+        """It produce probalilistic composition 1/x o f for a given
+        distribution f, as a list of segments
         """
         if self.isDirac():
-            return DiracSegment(1.0 / self.a, self.f)
+            return [DiracSegment(1.0 / self.a, self.f)]
         g = _op_one_over_x
-        ginv = _op_one_over_x
-        fun = partial(_prob_composition_safe, self.f, _op_one_over_x, _op_one_over_xsqaure)
-        if (self.a==0):
-            if  g(self.b)<0:
-                return MInfSegment(g(self.b), fun)
-            else:
-                return PInfSegment(g(self.b), fun)
-        #if (isinf(g(self.b))):
-        elif (self.b==0):
-            if g(self.a)>0:
-                return PInfSegment(g(self.a), fun)
-            else:
-                return MInfSegment(g(self.a), fun)
+        fun = partial(_prob_composition_safe, self._safeFun(), _op_one_over_x, _op_one_over_xsqaure)
+        if self.a == 0:
+            ends = (np.inf, g(self.b))
+        elif self.b == 0:
+            ends = (g(self.a), -np.inf)
         else:
-            if g(self.a)<=g(self.b):
-                #return Segment(g(self.a)+8* finfo(float).eps,g(self.b)-4* finfo(float).eps, fun)
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.a), g(self.b), fun)
-                else:
-                    return Segment(g(self.a), g(self.b), fun)
-
-            else:
-                #return Segment(g(self.b)+4* finfo(float).eps,g(self.a)-4* finfo(float).eps, fun)
-                #return Segment(g(self.b), g(self.a), fun)
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.b), g(self.a), fun)
-                else:
-                    return Segment(g(self.b), g(self.a), fun)
+            ends = (g(self.a), g(self.b))
+        return self._imageSegments(fun, ends, pole_at_zero)
 
     def squareComposition(self):
         """Produce square of a random variable X^2 ~ f for a given distribution f over segment [a,b]
         we assume that:  a * b >= 0
         """
         g = _op_square
-        ginv = _op_sqrt
-        ginvderiv = _op_half_over_sqrt
         if self.isDirac():
-            return DiracSegment(g(self.a), self.f)
+            return [DiracSegment(g(self.a), self.f)]
         assert (self.a>=0 and self.b>0) or (self.a<0 and self.b<=0)
-        if self.a>=0:
-            if (isinf(self.b)):
-                return PInfSegment(g(self.a), partial(_prob_composition, self.f, ginv, ginvderiv))
-            else:
-                if self.a>0:
-                    return Segment(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
-        else:
-            if (isinf(self.a)):
-                return PInfSegment(g(self.b), partial(_prob_composition2, self.f, ginv, ginvderiv))
-            else:
-                if self.b<0:
-                    return Segment(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
+        comp = _prob_composition if self.a >= 0 else _prob_composition2
+        fun = partial(comp, self._safeFun(), _op_sqrt, _op_half_over_sqrt)
+        return self._imageSegments(fun, (g(self.a), g(self.b)), pole_at_zero = True, test_poles = False)
 
     def absComposition(self):
         """It produce absolute value of random variable |X| o f for a given distribution f over segment [a,b]
         we assume that:  a * b >= 0
         """
-
         g = operator.abs
-        ginv = operator.abs
-        ginvderiv = ConstFun(1)
         if self.isDirac():
-            return DiracSegment(g(self.a), self.f)
+            return [DiracSegment(g(self.a), self.f)]
         assert (self.a>=0 and self.b>0) or (self.a<0 and self.b<=0)
-        if self.a>=0:
-            if (isinf(self.b)):
-                return PInfSegment(g(self.a), partial(_prob_composition, self.f, ginv, ginvderiv))
-            else:
-                if self.a>0:
-                    return Segment(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
-        else:
-            if (isinf(self.a)):
-                return PInfSegment(g(self.b), partial(_prob_composition2, self.f, ginv, ginvderiv))
-            else:
-                if self.b<0:
-                    return Segment(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
-
+        comp = _prob_composition if self.a >= 0 else _prob_composition2
+        fun = partial(comp, self._safeFun(), operator.abs, ConstFun(1))
+        return self._imageSegments(fun, (g(self.a), g(self.b)), pole_at_zero = not isinf(self.a) and not isinf(self.b), test_poles = False)
 
     def __lt__(self, other):
         if (self.a <= other.a and self.b < other.b) or (self.a < other.a and self.b <= other.b)  :
@@ -835,9 +832,9 @@ class SegmentWithPole(Segment):
         """
         _1_scale = 1.0 / scale
         if scale > 0:
-            return SegmentWithPole(self.a * scale + shift, self.b * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift), left_pole = self.left_pole)
+            return SegmentWithPole(self.a * scale + shift, self.b * scale + shift, partial(_shift_and_scale, self._safeFun(), _1_scale, shift), left_pole = self.left_pole)
         else:
-            return SegmentWithPole(self.b * scale + shift, self.a * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift), left_pole = not self.left_pole)
+            return SegmentWithPole(self.b * scale + shift, self.a * scale + shift, partial(_shift_and_scale, self._safeFun(), _1_scale, shift), left_pole = not self.left_pole)
     def cumint(self, y0 = 0.0):
         """indefinite integral over interval (a, x)"""
         return SegmentWithPole(self.a , self.b, partial(call_segint, self, y0), left_pole = self.left_pole)
@@ -1400,8 +1397,8 @@ class PiecewiseFunction(object):
         self_with_zero = self.splitByPoints([0])
         copyFunction = self.__class__([])
         for seg in self_with_zero.segments:
-            segcomp = seg.probComposition(f, finv, finvDeriv, pole_at_zero = pole_at_zero)
-            copyFunction.addSegment(segcomp)
+            for segcomp in seg.probComposition(f, finv, finvDeriv, pole_at_zero = pole_at_zero):
+                copyFunction.addSegment(segcomp)
         return copyFunction
 
     def copyCompositionNoninjective(self, intervals, fs, finvs, finvDerivs, pole_at_zero = False):
@@ -1434,8 +1431,8 @@ class PiecewiseFunction(object):
         self_with_zero = self.splitByPoints([0])
         copyFunction = self.__class__([])
         for seg in self_with_zero.segments:
-            segcomp = seg.probInverse(pole_at_zero = pole_at_zero)
-            copyFunction.addSegment(segcomp)
+            for segcomp in seg.probInverse(pole_at_zero = pole_at_zero):
+                copyFunction.addSegment(segcomp)
         return copyFunction
     def copySquareComposition(self):
         """Composition with x^2"""
@@ -1445,9 +1442,11 @@ class PiecewiseFunction(object):
         rightFunction = self.__class__([])
         for seg in fun.segments:
             if seg.a >= 0:
-                leftFunction.addSegment(seg.squareComposition())
+                for segcomp in seg.squareComposition():
+                    leftFunction.addSegment(segcomp)
             else:
-                rightFunction.addSegment(seg.squareComposition())
+                for segcomp in seg.squareComposition():
+                    rightFunction.addSegment(segcomp)
         if len(rightFunction.segments) == 0:
             copyFunction = leftFunction
         elif len(leftFunction.segments) == 0:
@@ -1462,9 +1461,11 @@ class PiecewiseFunction(object):
         rightFunction = self.__class__([])
         for seg in fun.segments:
             if seg.a >= 0:
-                leftFunction.addSegment(seg.absComposition())
+                for segcomp in seg.absComposition():
+                    leftFunction.addSegment(segcomp)
             else:
-                rightFunction.addSegment(seg.absComposition())
+                for segcomp in seg.absComposition():
+                    rightFunction.addSegment(segcomp)
         leftFunction = leftFunction.splitByPoints(rightFunction.getBreaks())
         #leftFunction.add_diracs(rightFunction)
         copyFunction = leftFunction + rightFunction
@@ -1713,16 +1714,23 @@ class PiecewiseFunction(object):
                 seg = segf
             if seg is None: # only diracs
                 continue
+            seg_fun = make_segfun(segf, segg)
+            left_pole = any(s is not None and s.hasLeftPole() for s in (segf, segg))
+            right_pole = any(s is not None and s.hasRightPole() for s in (segf, segg))
             if seg.isMInf():
-                fun.addSegment(MInfSegment(seg.b, make_segfun(segf, segg)))
+                fun.addSegment(MInfSegment(seg.b, seg_fun))
             elif seg.isPInf():
-                fun.addSegment(PInfSegment(seg.a, make_segfun(segf, segg)))
-            elif seg.isSegment() and seg.hasLeftPole():
-                fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = True))
-            elif seg.isSegment() and seg.hasRightPole():
-                fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = False))
+                fun.addSegment(PInfSegment(seg.a, seg_fun))
+            elif seg.isSegment() and left_pole and right_pole:
+                mid = 0.5 * (seg.a + seg.b)
+                fun.addSegment(SegmentWithPole(seg.a, mid, seg_fun, left_pole = True))
+                fun.addSegment(SegmentWithPole(mid, seg.b, seg_fun, left_pole = False))
+            elif seg.isSegment() and left_pole:
+                fun.addSegment(SegmentWithPole(seg.a, seg.b, seg_fun, left_pole = True))
+            elif seg.isSegment() and right_pole:
+                fun.addSegment(SegmentWithPole(seg.a, seg.b, seg_fun, left_pole = False))
             elif seg.isSegment():
-                si=Segment(seg.a, seg.b, make_segfun(segf, segg))
+                si=Segment(seg.a, seg.b, seg_fun)
                 fun.addSegment(si)
             else:
                 assert False
-- 
2.43.0


From 6a229d163bd35669864d8a80b0430ed81da21b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:43 +0000
Subject: [PATCH 16/42] fix: sin on its second branch, tanh near zero, sign
 without zero-mass values

---
 pacal/distr.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 11d8343..aaf065b 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -714,11 +714,11 @@ class TanhDistr(FuncDistr):
             if x <= -1 or x >= 1:
                 y = 0
             else:
-                y = 0.5 * numpy.log((1.0+x) / (1.0-x))
+                y = numpy.arctanh(x)
         else:
             mask = (x > -1) & (x < 1)
             y = zeros_like(x, dtype=float)
-            y[mask] = 0.5 * numpy.log((1.0+x[mask]) / (1.0-x[mask]))
+            y[mask] = numpy.arctanh(x[mask])
         return y
     def f_inv_deriv(self, x):
         if isscalar(x):
@@ -1014,7 +1014,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         return True
 
 def _pi_m_arcsin(x):
-    return 2*pi-arccos(x)
+    return pi-arcsin(x)
 def _arcsin_der1(x):
     return (1-x**2)**(-0.5)
 def _arcsin_der2(x):
@@ -1130,10 +1130,17 @@ class SignDistr(DiscreteDistr):
         else:
             prZero = diracZero.f
         prMinus = float(self.d.cdf(0)) - prZero
+        lo, hi = self.d.range()
+        xi, pi = [], []
+        if lo < 0:
+            xi.append(-1)
+            pi.append(prMinus)
         if prZero > 0:
-            xi = [-1,0,1]; pi=[prMinus, prZero, prPlus]
-        else:
-            xi = [-1,1]; pi=[prMinus, prPlus]
+            xi.append(0)
+            pi.append(prZero)
+        if hi > 0:
+            xi.append(1)
+            pi.append(prPlus)
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
     def __str__(self):
-- 
2.43.0


From 0b13b4ac304dd04711362e2640045f02b84ca573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:52 +0000
Subject: [PATCH 17/42] fix: inverse distribution functions on single
 intervals, at jumps and at the ends

---
 pacal/segments.py | 71 +++++++++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 89dba3e..98621d0 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1850,12 +1850,14 @@ class PiecewiseFunction(object):
             if (vals[i][1]<=y) & (y<=vals[i+1][0]):
                 x = breaks[i+1]
         if x is None and fix_for_cdf:
-            m = min(min(v) for v in self.getSegVals())
-            M = max(max(v) for v in self.getSegVals())
-            if 0 <= y < m:
-                x = -np.inf
-            if 1 >= y > M:
-                x = np.inf
+            m = min(min(v) for v in vals)
+            M = max(max(v) for v in vals)
+            eps = 4 * finfo(float).eps # arguments outside of [0, 1] by rounding only
+            if -eps <= y < m:
+                x = -np.inf if m > 0 else self.inverse_scalar(m)
+            if 1 + eps >= y > M:
+                # a constant last segment means that the support is bounded
+                x = self.segments[-1].a if vals[-1][0] == vals[-1][1] else np.inf
         if x is None: # It means
             print("ASSERT x is None y=", y, self.__str__())
             print("ASSERT x is None vals=", vals)
@@ -1874,28 +1876,25 @@ class PiecewiseFunction(object):
         """
         return inverse of cumulative distribution function as piecewise function
         """
-        breakvals = []
-        rpoles = []
-        lpoles = []
         # only for distribution
+        zero_val = None
         if rangeY is None:
-            vals = self.getSegVals()
-            for i in range(len(vals)):
-                breakvals.extend(vals[i])
-            breakvals[0] = vals[0][0]
-            breakvals[-1] = vals[-1][1]
-            x0 = self(0)
-            if x0 not in breakvals:
-                breakvals.append(x0)
-                breakvals.sort()
+            breakvals = array([v for val in self.getSegVals() for v in val])
+            # the inverse is defined on the whole [0, 1], also when rounding
+            # makes the largest value of the distribution function different
+            breakvals = breakvals[(0.0001 < breakvals) & (breakvals < 1 - 0.0001)]
+            if len(breakvals) == 0:
+                # different segments for singularities at both ends
+                breakvals = [0.5]
+            breakvals = [0.0] + list(breakvals) + [1.0]
+            # interpolators used at poles need a function of constant sign
+            zero_val = float(self(0.0))
+            if zero_val in breakvals or not 1e-14 < zero_val < 1 - 1e-14:
+                zero_val = None
         else:
             #breakvals[0] = rangeY[0]
             #breakvals[-1] = rangeY[1]
             breakvals=rangeY
-#        if vals[0]>=0 and vals[0]<1:
-#            breakvals[0] = 0
-#        if vals[-1]>0 and vals[-1]<=1:
-#            breakvals[-1] = 1
         def _tmp_inv(x):
             y = self.inverse(x)
             return y
@@ -1903,14 +1902,26 @@ class PiecewiseFunction(object):
         if include_zero_break:
             if 0 not in breakvals:
                 breakvals = numpy.insert(breakvals, numpy.searchsorted(breakvals, 0), 0)
-        for i in breakvals:
-            lpoles.append(False)
-            rpoles.append(False)
-        if use_end_poles:
-            rpoles[-1]=True
-            lpoles[0]=True
-        fun2 = PiecewiseFunction(fun = _tmp_inv, breakPoints=breakvals,
-                                 lpoles=lpoles, rpoles=rpoles)
+        if zero_val is not None:
+            breakvals = breakvals[(breakvals < 0.0001) | (abs(breakvals - zero_val) > 1e-5) | (breakvals > 1 - 0.0001)]
+            breakvals = numpy.insert(breakvals, numpy.searchsorted(breakvals, zero_val), zero_val)
+        fun2 = PiecewiseFunction([])
+        last = len(breakvals) - 2
+        for i in range(last + 1):
+            a, b = breakvals[i], breakvals[i+1]
+            # the inverse may jump at inner breakpoints, use one-sided values
+            eps = 4 * finfo(float).eps
+            fun = partial(_clipped_call, _tmp_inv, a + eps if i > 0 else -np.inf, b - eps if i < last else np.inf)
+            left_pole = right_pole = False
+            if use_end_poles:
+                left_pole = i == 0 or (i == 1 and a == zero_val)
+                right_pole = i == last or (i == last - 1 and b == zero_val)
+            if right_pole and (i == last or not left_pole):
+                fun2.addSegment(SegmentWithPole(a, b, fun, left_pole = False))
+            elif left_pole:
+                fun2.addSegment(SegmentWithPole(a, b, fun, left_pole = True))
+            else:
+                fun2.addSegment(Segment(a, b, fun))
         if use_interpolated:
             fun2 = fun2.toInterpolated()
         return fun2
-- 
2.43.0


From 6cbb0194d73a539507aa02286801377031bd0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:25 +0000
Subject: [PATCH 18/42] fix: Kullback-Leibler divergence with different
 supports, means of functions that cancel

---
 pacal/segments.py | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 98621d0..34d629a 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -123,6 +123,13 @@ def _scalar_segfun_op(seg, op, r, x):
     return op(r, seg.f(x))
 def _segfun_segfun_op(seg1, seg2, op, x):
     return op(seg1.f(x), seg2.f(x))
+def _kl_integrand(segf, segg, x):
+    f = numpy.asarray(segf.f(x), dtype = float)
+    g = numpy.asarray(segg.f(x), dtype = float)
+    pos = f > 0
+    # densities may underflow in the tails
+    tiny = finfo(float).tiny
+    return numpy.where(pos, f * (numpy.log(maximum(f, tiny)) - numpy.log(maximum(g, tiny))), 0.0)
 
 
 class Segment(object):
@@ -1960,8 +1967,18 @@ class PiecewiseDistribution(PiecewiseFunction):
             I = I + i
             absI += abs(i)
         if  absI > 0 and abs(E/absI)>1.0e-3 and abs(absI)>1e-10:
-            #print I, absI, E
-            return np.nan
+            # positive and negative values may cancel, compare the error
+            # with the integral of |f|
+            absI, E = 0.0, 0.0
+            for seg in self.segments:
+                if seg.isDirac():
+                    i, e = abs(nan_to_num(f(seg.a)))*seg.f, 0
+                else:
+                    i, e = _segint(lambda x: abs(nan_to_num(f(x))) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
+                E += abs(e)
+                absI += abs(i)
+            if not E < 1.0e-3 * absI:
+                return np.nan
         return I
 
     def median(self):
@@ -2022,8 +2039,28 @@ class PiecewiseDistribution(PiecewiseFunction):
         return fun.integrate()**0.5
 
     def KL_distance(self, other):
-        fun = self * (self._log() - other._log())
-        return fun.integrate()
+        """Kullback-Leibler divergence, infinite when self has mass where
+        other has none."""
+        breaks = unique(concatenate((self.getBreaks(), other.getBreaks())))
+        f = self.splitByPoints(breaks)
+        g = other.splitByPoints(breaks)
+        I = 0.0
+        for segf, segg in _makeCommonSegmentList(f, g):
+            if segf is None or segf.integrate() <= 0:
+                continue
+            if segg is None or segg.integrate() <= 0:
+                return np.inf
+            i, e = _segint(partial(_kl_integrand, segf, segg), segf.a, segf.b,
+                           force_poleL = segf.hasLeftPole() or segg.hasLeftPole(),
+                           force_poleU = segf.hasRightPole() or segg.hasRightPole())
+            I += i
+        for dirac in self.getDiracs():
+            if dirac.f > 0:
+                other_dirac = other.getDirac(dirac.a)
+                if other_dirac is None or other_dirac.f <= 0:
+                    return np.inf
+                I += dirac.f * numpy.log(dirac.f / other_dirac.f)
+        return I
 
     def tailexp(self):
         segMInf = self.segments[0]
-- 
2.43.0


From 009ed3702ef81f3dc61432f49e87cb3ceafb0830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:25 +0000
Subject: [PATCH 19/42] fix: moments without a mean, skewness of constants,
 range of sin and cos

---
 pacal/distr.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index aaf065b..8e1c122 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -161,6 +161,8 @@ class Distr(RV):
         """Moment about c of k-th order of distribution. """
         if c is None:
             c = self.mean()
+            if not isfinite(c):
+                return np.nan
         def f(x, c=c, k=k):
             return (x-c)**k
         return self.get_piecewise_pdf().meanf(f=f)
@@ -168,12 +170,12 @@ class Distr(RV):
         if not self.var() == 0:
             return self.moment(3, self.mean()) / self.var()**1.5
         else:
-            return NaN
+            return np.nan
     def kurtosis(self):
         if not self.var() == 0:
             return self.moment(4, self.mean()) / self.var()**2
         else:
-            return NaN
+            return np.nan
     def mgf(self):
         return PiecewiseFunction(fun=partial(_mgf_fun, self), breakPoints=self.get_piecewise_pdf().getBreaks())
     def cf(self):
@@ -975,6 +977,17 @@ class FuncNoninjectiveDistr(OpDistr):
         self.fname = fname
         self.d = d
         super(FuncNoninjectiveDistr, self).__init__([d])
+        self.a, self.b = self.init_range()
+    def init_range(self):
+        """Range of the result, functions are monotone on each interval."""
+        a, b = self.d.range()
+        vals = []
+        for (l, u), f in zip(self.intervals, self.fs):
+            if l <= b and a <= u:
+                vals.extend(_range_func(f, (max(a, l), min(b, u))))
+        if len(vals) == 0:
+            return -Inf, Inf
+        return min(*vals), max(*vals)
     def pdf(self, x):
         return self.get_piecewise_pdf()(x)
 #    def pdf(self, x):
@@ -1029,7 +1042,7 @@ class SinDistr(FuncNoninjectiveDistr):
         self.pole_at_zero = False
         super(SinDistr, self).__init__(d, fname = "sin")
     def is_nonneg(self):
-        return True
+        return self.range()[0] >= 0
 def sin(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1052,7 +1065,7 @@ class CosDistr(FuncNoninjectiveDistr):
         self.pole_at_zero = False
         super(CosDistr, self).__init__(d, fname = "cos")
     def is_nonneg(self):
-        return True
+        return self.range()[0] >= 0
 def cos(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
-- 
2.43.0


From 073382283f9490352a0bf2b81401a8ca133e295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:13 +0000
Subject: [PATCH 20/42] fix: pointwise operations of piecewise functions with
 numbers and point masses

---
 pacal/segments.py | 49 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 34d629a..3fef0d3 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1096,9 +1096,10 @@ class PiecewiseFunction(object):
     def addSegment(self, segment):
         """It insert segment in proper order"""
         if segment.isDirac():
-            for seg in self.getDiracs():
-                if abs(segment.a - seg.a) <= params.segments.unique_eps:
-                    seg.f += segment.f
+            for i, seg in enumerate(self.segments):
+                if seg.isDirac() and abs(segment.a - seg.a) <= params.segments.unique_eps:
+                    # the old segment may be shared with another function
+                    self.segments[i] = DiracSegment(seg.a, seg.f + segment.f)
                     return
         if len(self.segments) > bisect.bisect_left(self.segments, segment):
             seg = self.segments[bisect.bisect_left(self.segments, segment)]
@@ -1110,6 +1111,8 @@ class PiecewiseFunction(object):
         self.breaks = unique(append(self.breaks, [segment.a, segment.b]))
     def findSegment(self, x):
         """It return segment containing point x"""
+        if len(self.segments) == 0:
+            return None
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
         if  0 < ind < len(self.segments):
@@ -1589,11 +1592,7 @@ class PiecewiseFunction(object):
     def add_diracs(self, other):
         """Pointwise sum of discrete part of two piecewise functions """
         for other_dirac in other.getDiracs():
-            self_dirac = self.getDirac(other_dirac.a)
-            if self_dirac is None:
-                self.addSegment(other_dirac)
-            else:
-                self_dirac.f += other_dirac.f
+            self.addSegment(DiracSegment(other_dirac.a, other_dirac.f))
 
 
     def __add__(self, other):
@@ -1606,7 +1605,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.sub)
         elif isinstance(other, numbers.Real):
-            return self.__rsub__(other)
+            return self._roperation__(other, operator.sub)
         return NotImplemented
     def __mul__(self, other):
         if isinstance(other, PiecewiseFunction):
@@ -1619,7 +1618,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.truediv)
         elif isinstance(other, numbers.Real):
-            return self._operation__(other, operation = operator.truediv)
+            return self._roperation__(other, operation = operator.truediv)
         return NotImplemented
     def __div__(self, other):
         #TODO handle zeros in denominator, !!!currently unhandled!!!
@@ -1680,20 +1679,18 @@ class PiecewiseFunction(object):
         return fun
 
     def op_diracs(self, other, op):
-        """Pointwise operation on discrete parts of two piecewise functions."""
-        ai = []
-        for tmp in self.getDiracs():
-            ai.append(tmp.a)
-        for tmp in other.getDiracs():
-            if not tmp.a in set(ai):
-                ai.append(tmp.a)
-        for dirac in ai:#other.getDiracs():
-            self_dirac = self.getDirac(dirac)
-            other_dirac = other.getDirac(dirac)
-            if self_dirac is None:
-                self.addSegment(DiracSegment(other_dirac.a, other_dirac.f))
-            elif other_dirac is not None:
-                self_dirac.f = op(self_dirac.f,  other_dirac.f)
+        """Pointwise operation on discrete parts of two piecewise
+        functions.  Where only one function has a Dirac segment, the
+        mass of the other is zero."""
+        for other_dirac in other.getDiracs():
+            if self.getDirac(other_dirac.a) is None:
+                self.addSegment(DiracSegment(other_dirac.a, 0.0))
+        for self_dirac in self.getDiracs():
+            other_dirac = other.getDirac(self_dirac.a)
+            if other_dirac is not None:
+                self_dirac.f = op(self_dirac.f, other_dirac.f)
+            elif op is not operator.truediv:
+                self_dirac.f = op(self_dirac.f, 0.0)
 
     def _operation__(self, other, operation = operator.add):
         """Pointwise operation on two piecewise functions."""
@@ -1741,7 +1738,7 @@ class PiecewiseFunction(object):
                 fun.addSegment(si)
             else:
                 assert False
-        fun.op_diracs(self, operation)
+        fun.add_diracs(self)
         fun.op_diracs(other, operation)
         return fun
 
@@ -1793,7 +1790,7 @@ class PiecewiseFunction(object):
         return fun
     def splitByPoints(self, points):
         """Pointwise subtraction of two piecewise functions """
-        points = array(points)
+        points = unique(points)
         fun = self.__class__([])
         for seg in self.segments:
             inds = points[(seg.a<points) & (points<seg.b)]
-- 
2.43.0


From 239f3786b0c9424dbec5f5f018f2e912a2df607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 21/42] fix: new piecewise functions do not share their list of
 segments

---
 pacal/segments.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 3fef0d3..574a594 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1061,13 +1061,9 @@ class PiecewiseFunction(object):
                     assert(False) # no segment of such type
         else:
             # TODO to remove
-            self.segments = segments
-            if len(segments)>0 :
-                i=0
-                for seg in self.segments:
-                    self.breaks[i]=seg.a
-                    i=i+1;
-                self.breaks[i]=seg.b
+            self.segments = []
+            for seg in segments:
+                self.addSegment(seg)
 
     def __call__(self, x):
         if isscalar(x):
-- 
2.43.0


From ae4f851f75e673958f3e33476bb508aac060ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 22/42] fix: restore the dependency warning setting when an
 i.i.d. operation fails

---
 pacal/stats/iid_ops.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d3d1423..f909c82 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -34,11 +34,13 @@ def _int_exp_all(x, n, op = operator.mul):
 def iid_op(X, n, op, all = False):
     old_warn = params.general.warn_on_dependent
     params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all(X, n, op)
-    else:
-        y = _int_exp(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    try:
+        if all:
+            y = _int_exp_all(X, n, op)
+        else:
+            y = _int_exp(X, n, op)
+    finally:
+        params.general.warn_on_dependent = old_warn
     return y
 def iid_sum(X, n, all = False):
     return iid_op(X, n, op = operator.add, all = all)
@@ -101,11 +103,13 @@ def _int_exp_all2(x, n, op = operator.mul):
 def iid_op2(X, n, op, all = False):
     old_warn = params.general.warn_on_dependent
     params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all2(X, n, op)
-    else:
-        y = _int_exp2(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    try:
+        if all:
+            y = _int_exp_all2(X, n, op)
+        else:
+            y = _int_exp2(X, n, op)
+    finally:
+        params.general.warn_on_dependent = old_warn
     return y
 #def _lambda_average(n1, x1, n2, x2):
 #    n = float(n1 + n2)
-- 
2.43.0


From 8ce6c38a85f4743e6a8cd92b88a5d999fa055ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 23/42] fix: powers and wrapped methods of piecewise functions
 can be sent to worker processes

---
 pacal/segments.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 574a594..270a89a 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -59,6 +59,10 @@ def _op_rsub(x, y):
     return y - x
 def _op_rdiv(x, y):
     return y / x
+def _op_pow(k, x):
+    return x ** k
+def _op_minus_log(x):
+    return -numpy.log(x)
 def _op_square(x):
     return x * x
 def _op_sqrt(x):
@@ -107,12 +111,12 @@ def _test_image_pole(fun, x, width, pos):
         fromTo = (log10(width) - 1, min(log10(width), log10(abs(x))) - 7)
     return testPole(fun, x, pos = pos, deriv = False, fromTo = fromTo)
 
-def _call_f(obj, x):
-    return obj.f(x)
+def _call_f(obj, name, x):
+    return getattr(obj, name)(x)
 def wrap_f(f):
     if params.general.parallel:
         if is_instance_method(f):
-            return partial(_call_f, f.__self__)
+            return partial(_call_f, f.__self__, f.__name__)
         return f
     return f
 def _safe_fun_on_f_call(seg, fun, x):
@@ -1739,7 +1743,7 @@ class PiecewiseFunction(object):
         return fun
 
     def __pow__(self, k):
-        return self._function__(fun = lambda x : x**k)
+        return self._function__(fun = partial(_op_pow, k))
     def _log(self):
         #TODO handle zeros in arguments
         return self._function__(fun = numpy.log)
@@ -1747,7 +1751,7 @@ class PiecewiseFunction(object):
         return self._function__(fun = numpy.exp)
     def _log1(self):
         #TODO handle zeros in arguments
-        return self._function__(fun = lambda x : -numpy.log(x))
+        return self._function__(fun = _op_minus_log)
 
     def _function__(self, fun = lambda x: x):
         """Pointwise sum of two piecewise functions."""
-- 
2.43.0


From 9501a51b916c1e982c23e9db02429160dba8bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 24/42] fix: identities of variables are unique and fixed
 before they are sent to worker processes

---
 pacal/rv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index 1937941..b261e3b 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -1,5 +1,6 @@
 """Random Variable class"""
 
+import itertools
 import numbers
 from os import getpid
 
@@ -13,8 +14,11 @@ from sympy import var
 from . import params
 from .sympy_utils import sympy_min, sympy_max, sympy_abs
 
+_rv_counter = itertools.count(1)
+
 class RV(object):
     def __init__(self, parents = [], sym = None, a=0.0, b=1.0):
+        self.id()  # fixed before the variable can be sent anywhere
         self.parents = parents
         self.a = a
         self.b = b
@@ -36,7 +40,7 @@ class RV(object):
         mode."""
         if params.general.parallel:
             if not hasattr(self, "_id"):
-                self._id = str(getpid()) + "_" + str(id(self))
+                self._id = str(getpid()) + "_" + str(next(_rv_counter))
             rvid = self._id
         else:
             rvid = id(self)
-- 
2.43.0


From 664a91e4df6fac67f2c05ce6377bb1ec0d344914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:45 +0000
Subject: [PATCH 25/42] fix: informational output of sparse grids with current
 numpy

---
 pacal/depvars/sparse_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/sparse_grids.py b/pacal/depvars/sparse_grids.py
index ce8ba33..d5dda3e 100644
--- a/pacal/depvars/sparse_grids.py
+++ b/pacal/depvars/sparse_grids.py
@@ -189,7 +189,7 @@ class AdaptiveSparseGridInterpolator(object):
             c = (-1)**(q-si) * binomial_coeff(self.d - 1, q-si)
             subgrid_map[p] = (c, array(subgrid_indices))
         if params.interpolation_nd.debug_info:
-            print(len(subgrid_map), "rect. subgrids,", sum(len(subgrid_map[k]) for k in subgrid_map), "ops per X,", len(nodes), "nodes,", end=' ')
+            print(len(subgrid_map), "rect. subgrids,", sum([len(subgrid_map[k]) for k in subgrid_map]), "ops per X,", len(nodes), "nodes,", end=' ')
             print("full grid size", self.exps[q-self.d+1]**self.d, "dim", self.d)
         return nodes, subgrid_map
 
-- 
2.43.0


From 812c9cc71d4c6b3b0a8174ce5c286c6d8e4288a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 26/42] fix: single draws, draws of mixtures, log-logistic
 variables and signs

---
 pacal/distr.py          | 29 +++++++++++++++++++++--------
 pacal/standard_distr.py | 16 +++++++++-------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 8e1c122..e64b212 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -551,7 +551,7 @@ class OpDistr(Distr):
     """Base class for operations on distributions.
 
     Currently only does caching for random number generation."""
-    def rand(self, n = 1, cache = None):
+    def rand(self, n = None, cache = None):
         if self.indep:
             return self.rand_op(n, None)
         if cache is None:
@@ -1005,11 +1005,13 @@ class FuncNoninjectiveDistr(OpDistr):
     def getName(self):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
-        X = self.d.rand(n, cache)
+        X = asarray(self.d.rand(n, cache), dtype=float)
         Y = zeros_like(X)
         for i in range(len(self.intervals)):
             mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
             Y[mask] = self.fs[i](X[mask])
+        if n is None:
+            return Y[()]
         return Y
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyCompositionNoninjective(self.intervals, self.fs, self.f_invs, self.f_inv_derivs, pole_at_zero=self.pole_at_zero)
@@ -1120,10 +1122,9 @@ class DiscreteDistr(Distr):
         breaks = self.piecewise_pdf.getBreaks() # repeated values are merged
         for i in range(len(breaks)-1):
             self.piecewise_pdf.addSegment(ConstSegment(breaks[i], breaks[i+1], 0))
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         u = uniform(0, 1, n)
-        i = searchsorted(self.cumP, u)
-        i[i > len(self.xi)] = len(self.xi)
+        i = minimum(searchsorted(self.cumP, u), len(self.xi) - 1)
         return array(self.xi)[i]
     def __str__(self):
         pstr = ", ".join("{0}:{1}".format(x, p) for x, p in self.px)
@@ -1156,6 +1157,14 @@ class SignDistr(DiscreteDistr):
             pi.append(prPlus)
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
+    def rand(self, n = None, cache = None):
+        if self.indep:
+            return numpy.sign(self.d.rand(n))
+        if cache is None:
+            cache = {}
+        if self.id() not in cache:
+            cache[self.id()] = numpy.sign(self.d.rand(n, cache))
+        return cache[self.id()]
     def __str__(self):
         return "sign({0})".format(id(self.d))
     def getName(self):
@@ -1269,6 +1278,8 @@ class ConstDistr(DiscreteDistr):
         super(ConstDistr, self).__init__([c], [p], **kwargs)
         self.c = c
     def rand_raw(self, n = None):
+        if n is None:
+            return self.c
         r = zeros(n)
         r.fill(self.c)
         return r
@@ -1297,7 +1308,9 @@ class CondGtDistr(Distr):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
         return "{0} | X>{1}".format(self.d.getName(), self.L)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         tab=array([])
         k=0
         while k<n:
@@ -1319,7 +1332,7 @@ class CondLtDistr(Distr):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
         return "{0} | X<{1}".format(self.d.getName(), self.U)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def range(self):
         return self.d.range()[0], self.U
@@ -1336,7 +1349,7 @@ class CondBetweenDistr(Distr):
         return "{0} | {1}<X<{2}".format(self.d, self.L, self.U)
     def getName(self):
         return "{0} | {1}<X<{2}".format(self.d.getName(), self.L, self.U)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def range(self):
         return self.L, self.U
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index bf08a9f..e5fa415 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -5,7 +5,7 @@ from __future__ import print_function
 import numpy as np
 from numpy import isscalar, zeros_like, zeros, cumsum, array, searchsorted, bincount
 from numpy import pi, sqrt, exp, log, log1p, cos, floor
-from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel, randint
+from numpy.random import normal, uniform, chisquare, exponential, gamma, beta, pareto, laplace, standard_t, weibull, gumbel
 from numpy.random import f as f_rand
 
 from scipy.special import xlogy
@@ -44,7 +44,7 @@ class FunDistr(Distr):
         self.piecewise_pdf = PiecewiseDistribution(fun = self.fun, breakPoints = self.breakPoints, **self.kwargs)
         if self.interpolated:
             self.piecewise_pdf = self.piecewise_pdf.toInterpolated()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def range(self):
         return self.breakPoints[0], self.breakPoints[-1]
@@ -66,7 +66,7 @@ class PDistr(Distr):
         return "PDISTR({0},{1})".format(self.get_piecewise_pdf().segments[0].a, self.get_piecewise_pdf().segments[-1].b)
     def range(self):
         return self.get_piecewise_pdf().range()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
 
 class MixDistr(Distr):
@@ -97,9 +97,11 @@ class MixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         r = zeros(n)
-        idx = randint(0, self.nmix, n)
+        idx = searchsorted(cumsum(self.probs)[:-1], uniform(0, 1, n), side = "right")
         nk = bincount(idx, minlength = self.nmix)
         for k in range(self.nmix):
             r[idx == k] = self.distrs[k].rand(nk[k])
@@ -882,7 +884,7 @@ class LogLogisticDistr(Distr):
                                                    breakPoints = breakPoints,
                                                    lpoles=lpoles)
     def rand_raw(self, n = None):
-        u = uniform(self.a, self.b, n)
+        u = uniform(0, 1, n)
         ll = self.s * (u / (1-u))**(1.0 / self.k)
         return ll
     def __str__(self):
@@ -922,7 +924,7 @@ class MollifierDistr(Distr):
         self.piecewise_pdf.addSegment(Segment(-self.epsilon, infl1, wrapped_pdf))
         self.piecewise_pdf.addSegment(Segment(infl1, infl2, wrapped_pdf))
         self.piecewise_pdf.addSegment(Segment(infl2, self.epsilon, wrapped_pdf))
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def __str__(self):
         return "MollifierDistr(epsilon={0})#{1}".format(self.epsilon, self.id())
-- 
2.43.0


From d8f6a6fda3a810e60365c8bfc6aca76d03322904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 27/42] fix: formulas of functions of variables, equations and
 parents of expressions, sigmoid of numbers

---
 pacal/distr.py | 26 ++++++++++++++------------
 pacal/rv.py    |  4 ++--
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index e64b212..cb39db8 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -618,7 +618,7 @@ class ExpDistr(FuncDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpDistr, self).__init__(d, pole_at_zero = True,
-                                       fname = "exp")
+                                       fname = "exp", sym = sympy.exp(d.getSymname()))
     def f(self, x):
         return numpy.exp(x)
     def f_inv(self, x):
@@ -640,7 +640,7 @@ class LogDistr(FuncDistr):
     def __init__(self, d):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
-        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log")
+        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log", sym = sympy.log(d.getSymname()))
     def f(self, x):
         return numpy.log(x)
     def f_inv(self, x):
@@ -669,7 +669,7 @@ def sign(d):
 class AtanDistr(FuncDistr):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
-        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan")
+        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan", sym = sympy.atan(d.getSymname()))
 
     def f(self, x):
         return numpy.arctan(x)
@@ -707,7 +707,7 @@ def atan(d):
 class TanhDistr(FuncDistr):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
-        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh", sym = sympy.tanh(d.getSymname()))
 
     def f(self, x):
         return numpy.tanh(x)
@@ -746,7 +746,7 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid", sym = 1 / (1 + sympy.exp(-d.getSymname())))
 
     def f(self, x):
         if isscalar(x):
@@ -789,6 +789,7 @@ def sigmoid(d):
     """Overload the tanh function."""
     if isinstance(d, Distr):
         return SigmoidDistr(d)
+    x = d
     if isscalar(x):
         if x > 0:
             y = 1.0 / (1.0 + numpy.exp(-x))
@@ -902,7 +903,7 @@ class PowDistr(PowRV, OpDistr):
 class AbsDistr(OpDistr):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsDistr, self).__init__([d])
+        super(AbsDistr, self).__init__([d], sym = sympy_abs(d.getSymname()))
         self.d = d
         self.a, self.b = _range_abs(d.range())
     def init_piecewise_pdf(self):
@@ -928,7 +929,7 @@ class AbsDistr(OpDistr):
 class SquareDistr(OpDistr):
     """Injective function of random variable"""
     def __init__(self, d):
-        super(SquareDistr, self).__init__([d])
+        super(SquareDistr, self).__init__([d], sym = d.getSymname()**2)
         self.d = d
         r = _range_abs(d.range())
         self.a, self.b = _range_mul(r, r)
@@ -966,7 +967,7 @@ def sqrt(d):
 
 class FuncNoninjectiveDistr(OpDistr):
     """Non-injective function of random variable only piecewise smooth functions are permitted"""
-    def __init__(self, d, fname="f"):
+    def __init__(self, d, fname="f", sym = None):
 # ====================================
 #        self.intervals = []
 #        self.fs = []
@@ -976,7 +977,7 @@ class FuncNoninjectiveDistr(OpDistr):
 # ====================================
         self.fname = fname
         self.d = d
-        super(FuncNoninjectiveDistr, self).__init__([d])
+        super(FuncNoninjectiveDistr, self).__init__([d], sym = sym)
         self.a, self.b = self.init_range()
     def init_range(self):
         """Range of the result, functions are monotone on each interval."""
@@ -1042,7 +1043,7 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arcsin, _pi_m_arcsin]
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
-        super(SinDistr, self).__init__(d, fname = "sin")
+        super(SinDistr, self).__init__(d, fname = "sin", sym = sympy.sin(d.getSymname()))
     def is_nonneg(self):
         return self.range()[0] >= 0
 def sin(d):
@@ -1065,7 +1066,7 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arccos, _twopi_m_arccos]
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
-        super(CosDistr, self).__init__(d, fname = "cos")
+        super(CosDistr, self).__init__(d, fname = "cos", sym = sympy.cos(d.getSymname()))
     def is_nonneg(self):
         return self.range()[0] >= 0
 def cos(d):
@@ -1077,7 +1078,7 @@ def cos(d):
 class TanDistr(FuncDistr):
     """Tangent of a random variable"""
     def __init__(self, d):
-        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
+        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan", sym = sympy.tan(d.getSymname()))
     def f(self, x):
         return numpy.tan(x)
     def init_range(self):
@@ -1157,6 +1158,7 @@ class SignDistr(DiscreteDistr):
             pi.append(prPlus)
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
+        self.sym = sympy.sign(d.getSymname())
     def rand(self, n = None, cache = None):
         if self.indep:
             return numpy.sign(self.d.rand(n))
diff --git a/pacal/rv.py b/pacal/rv.py
index b261e3b..c035689 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -98,7 +98,7 @@ class RV(object):
         if node is None:
             node = self
         p = node.parents
-        if not node.getSym().is_Atom and not node.getSym() in set(l):
+        if not node.getSym().is_Atom and not (node.getSym(), node.getSymname()) in set(zip(l, r)):
             l.append(node.getSym())
             r.append(node.getSymname())
         if p is None or len(p)==0:
@@ -168,7 +168,7 @@ class RV(object):
     def getParentsAll(self):
         l = set([self])
         for p in self.parents:
-            l.update(p.getParentsDep())
+            l.update(p.getParentsAll())
         return l
     def getParentsFree(self):
         l = set()
-- 
2.43.0


From 54df42d8326c5e1c3366ab2d019b942aff62575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 28/42] fix: chi-square densities for less than one degree of
 freedom

---
 pacal/standard_distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index e5fa415..c3c8cbc 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -269,7 +269,7 @@ class ChiSquareDistr(Distr):
         self.df = df
         self.df2 = df / 2.0
         self.lg_norm = lgamma(self.df2) + self.df2 * log(2)
-        if self.df == 1:
+        if self.df < 2:
             self.pdf_at_0 = np.inf
             self.lpdf_at_0 = np.inf
         elif self.df == 2:
@@ -298,7 +298,7 @@ class ChiSquareDistr(Distr):
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
-        if 1 <= self.df <= 20:
+        if self.df <= 20:
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                    breakPoints = [0.0, self.df/2.0, self.df*2.0, np.inf],
                                                    lpoles=[True, False, False, False])
-- 
2.43.0


From f571083958eb02e2ac70234d6b1beb5d38d23230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 29/42] fix: geometric averages of all sizes and mixtures of
 order statistics

---
 pacal/stats/iid_ops.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index f909c82..ad9a390 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -51,19 +51,22 @@ def iid_min(X, n, all = False):
 def iid_max(X, n, all = False):
     return iid_op(X, n, op = pacal.distr.max, all = all)
 
-def iid_order_stat(X, n, k, **kwargs):
-    """It gives distribution of $k$-th observation in ordered sample size of n."""
+def _order_stat_fun(X, n, k):
+    """Density of $k$-th observation in ordered sample size of n as a piecewise function."""
     pdf = X.get_piecewise_pdf()
     cdf = X.get_piecewise_cdf()
     ccdf = 1 - X.get_piecewise_cdf()
     fun = (k * binomial_coeff(n, k)) * pdf * (pow(cdf, k-1) * pow(ccdf, n-k))
+    return fun.toInterpolated()
+def iid_order_stat(X, n, k, **kwargs):
+    """It gives distribution of $k$-th observation in ordered sample size of n."""
     #return PDistr(fun.toInterpolated())
-    return FunDistr(fun = fun.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
+    return FunDistr(fun = _order_stat_fun(X, n, k), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
 def iid_unknown(X, n, k, **kwargs):
     """It gives distribution of sample _unknown on level k based on sample size of n."""
     fun = PiecewiseFunction([])
     for i in range(k, n+1):
-        fun += iid_order_stat(X, n, i).get_piecewise_pdf()
+        fun += _order_stat_fun(X, n, i)
     fun2 = (1.0 / (1+n-k)) * fun
     return FunDistr(fun = fun2.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
 
@@ -131,7 +134,7 @@ def iid_average(X, n, all = False):
 def iid_average_geom(X, n, all = False):
     #return iid_op2(X, n, op = _lambda_average_geom, all = all)
     if all:
-        return [x**(1.0/n) for x in iid_prod(X, n, all=True)]
+        return [x**(1.0/(i+1)) for i, x in enumerate(iid_prod(X, n, all=True))]
     return iid_prod(X, n)**(1.0/n)
 
 
-- 
2.43.0


From b3e877c6c4affa8ab3b5eea9ba3bc81699a6884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 30/42] fix: Chebyshev coefficients, roots and trimming of
 interpolators

---
 pacal/interpolation.py | 16 ++++++----------
 pacal/segments.py      |  6 +++++-
 pacal/utils.py         | 11 +++++++++--
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index b457f7e..5485dc6 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -178,14 +178,9 @@ class BarycentricInterpolator(Interpolator):
             roots = roots[unit]
             return (roots*(self.Xs[-1]-self.Xs[0])+(self.Xs[0]+self.Xs[-1]))*0.5
         else:
-            Ys = self.interp_at(chebspace(self.Xs[0], self.Xs[-1], self.n))
-            cs = flipud(chebt2(Ys))
-            roots = chebroots(cs)
-            reals = abs(imag(roots)) < params.interpolation.convergence.abstol
-            roots = real(roots[reals])
-            unit = (roots>-1.0) & (roots < 1.0)
-            roots = roots[unit]
-            return (roots*(self.Xs[-1]-self.Xs[0])+(self.Xs[0]+self.Xs[-1]))*0.5
+            # nodes need not reach the ends of the interval
+            Xs, Ws = chebspace(self.a, self.b, max(3, len(self.Xs)), returnWeights=True)
+            return BarycentricInterpolator(Xs, self.interp_at(Xs), Ws).roots(use_2nd=True)
     def trim(self, abstol=None):
         return self
 class AdaptiveInterpolator(object):
@@ -255,10 +250,11 @@ class ChebyshevInterpolator(BarycentricInterpolator, AdaptiveInterpolator):
         self.Xs, self.Ys = combine_interpolation_nodes_fast(self.Xs, self.Ys, new_Xs, new_Ys)
         self.init_weights(self.Xs)
     def trim(self, abstol=None):
-        c = chebt2(self.Ys)
+        # nodes need not reach the ends of the interval
+        c = chebt2(self.interp_at(chebspace(self.a, self.b, max(3, len(self.Xs)))))
         if abstol is None:
             abstol = params.interpolation.convergence.abstol
-        while c[0] < abstol:
+        while len(c) > 2 and abs(c[0]) < abstol:
             c = c[1:]
         Ydiffvals = ichebt2(c)
         Ydiffvals = flipud(Ydiffvals)
diff --git a/pacal/segments.py b/pacal/segments.py
index 270a89a..98305b2 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -212,7 +212,7 @@ class Segment(object):
         return self.toInterpolatedSegment().diff()
     def roots(self):
         return self.toInterpolatedSegment().roots()
-    def trim(self):
+    def trim(self, abstol=None):
         return self
 
     def maximum(self):
@@ -979,6 +979,8 @@ class MInfInterpolatedSegment(InterpolatedSegment, MInfSegment):
         MInfSegment.__init__(self, b, interpolatorOfF)
     def diff(self):
         return MInfInterpolatedSegment(self.a, self.f.diff())
+    def trim(self, abstol=None):
+        return self
 class PInfInterpolatedSegment(InterpolatedSegment, PInfSegment):
     """Interpolated Segment on interval [a, inf]
     """
@@ -986,6 +988,8 @@ class PInfInterpolatedSegment(InterpolatedSegment, PInfSegment):
         PInfSegment.__init__(self, a, interpolatorOfF)
     def diff(self):
         return PInfInterpolatedSegment(self.a, self.f.diff())
+    def trim(self, abstol=None):
+        return self
 class breakPoint(object):
     """Decribe a breakpoint of a piecewise function."""
     def __init__(self, x, negPole, posPole, Cont = True, dirac = False):
diff --git a/pacal/utils.py b/pacal/utils.py
index ffa5d57..f08ca72 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -178,14 +178,14 @@ def chebt2(f):
     #print n, len(fftcoef)
     #print fftcoef[n-1:]
     #print fftcoef[n-1:0:-1]
-    fftcoef[n-1:0:-1] += fftcoef[n-1:] # z+conj(z)
+    fftcoef[n-2:0:-1] += fftcoef[n:] # z+conj(z)
     return fftcoef[n-1::-1]
     #return c
 def ichebt2(c):
     """inverse chebyshev transformation, values of function in Chebyshev
     nodes of the second kind, see chebfun for details"""
     n = len(c)
-    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, c[0:-1]/2));
+    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, [c[0]], c[1:-1]/2));
     v = np.real(ifft(oncircle));
     f = (n-1)*np.concatenate(([2*v[0]], v[1:n-1]+v[-1:n-1:-1], [2*v[n-1]] ))
     return f
@@ -215,6 +215,8 @@ def ichebt1(c):
 def cheb1companion(c):
     """s_n[f] = sum_{i=0}^n c_i T_i(x)"""
     n = len(c)
+    if n == 2:
+        return np.array([[-c[0]/c[1]]])
     CT = np.zeros((n-1, n-1))
     CT[0,1] = 1
     i=np.arange(1,n-2)
@@ -225,6 +227,11 @@ def cheb1companion(c):
     CT[-1, -2] = CT[-1, -2] + .5
     return CT
 def chebroots(c):
+    # negligible leading coefficients only add spurious roots far away
+    while len(c) > 1 and abs(c[-1]) <= len(c) * finfo(double).eps * abs(c).max():
+        c = c[:-1]
+    if len(c) < 2:
+        return np.array([])
     return np.sort(eigvals(cheb1companion(c)))
 def epsunique(tab, eps = params.segments.unique_eps):
     ub = np.unique(tab[isnan(tab)==False])
-- 
2.43.0


From 4d1a3e6ce615716cc8c781e0bdd43ae56966043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 31/42] fix: debug plots of slowly converging integrals

---
 pacal/integration.py | 6 +++---
 pacal/utils.py       | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index fc6d34d..ee7bf48 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -28,7 +28,7 @@ from .utils import cheb_nodes, incremental_cheb_nodes
 from .utils import combine_interpolation_nodes_fast
 from .utils import combine_interpolation_nodes_fast_vector
 from .utils import convergence_monitor
-from .utils import debug_plot
+from .utils import debug_plot as show_debug_plot
 
 from .vartransforms import VarTransformAlgebraic_PMInf
 from .vartransforms import VarTransformAlgebraic_PInf
@@ -116,7 +116,7 @@ def integrate_clenshaw(f, a, b, maxn = 2**16, tol = 10e-16,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        show_debug_plot(a, b, nodes, fs, coeffs)
     return I, err
 
 def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
@@ -156,7 +156,7 @@ def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        show_debug_plot(a, b, nodes, fs, coeffs)
     # return currently best result
     I, err, _extra = cm.get_best_result()
     return I, err
diff --git a/pacal/utils.py b/pacal/utils.py
index f08ca72..800f6da 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -573,6 +573,10 @@ def debug_plot(a, b, nodes, fs, coeffs):
         #curfig = gcf()
         #print dir(curfig)
         _debug_fig = figure()
+        if getattr(_debug_fig.canvas, "required_interactive_framework", None) is None:
+            # nobody can press a key in the figure
+            _debug_cancelled = True
+            return
         ax = _debug_fig.add_subplot(111)
         #subplots_adjust(bottom=0.15)
         butax = axes([0.8, 0.015, 0.1, 0.04])
-- 
2.43.0


From 5b3133b38f0900a3c703bc124253816a85293666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 32/42] fix: joint densities of scalars and integers,
 conditioning down to one variable

---
 pacal/depvars/nddistr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 0543ae8..9b74122 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -80,7 +80,7 @@ class NDFun(object):
         elif isscalar(X[0]):
             mask = (X[0] >= self.a[0]) and (X[0] <= self.b[0])
             for i in range(1, len(X)):
-                mask = mask or ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
+                mask = mask and ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
             if mask:
                 y = self.fun(*X)
             else:
@@ -89,7 +89,7 @@ class NDFun(object):
             mask = (X[0] >= self.a[0]) & (X[0] <= self.b[0])
             for i in range(1, len(X)):
                 mask &= ((X[i] >= self.a[i]) & (X[i] <= self.b[i]))
-            y = zeros_like(X[0])
+            y = zeros_like(X[0], dtype=float)
             y[mask] = self.fun(*[xi[mask] for xi in X])
         if self.safe:
             y = nan_to_num(y)
@@ -172,7 +172,7 @@ class NDFun(object):
 #                y = integrate_fejer2(partial(integ_f, self, arg, c_var, v1, X), self.a[v1], self.b[v1])
 #            return NDConstFactor(y[0])
             if hasattr(self, "f"):
-                y = integrate_fejer2(partial(InterpRunner(self.fun, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
+                y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
             else:
                 y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
             return NDConstFactor(y[0])
-- 
2.43.0


From d17c762107d8d932c15f5aaaa91b6b327e3901eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 33/42] fix: copulas: conditional distributions, marginals,
 dependence coefficients, limiting copulas

---
 pacal/depvars/copulas.py | 238 +++++++++++++++++----------------------
 1 file changed, 106 insertions(+), 132 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 0dcd81e..2a60bc0 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -2,6 +2,8 @@
 
 from __future__ import print_function
 
+from copy import copy
+
 from pacal.integration import *
 from pacal.interpolation import *
 from matplotlib.collections import PolyCollection
@@ -20,7 +22,7 @@ from pacal.utils import epsunique, bisect, fmin2
 from pacal.indeparith import _findSegList, convdiracs
 from pacal.integration import integrate_fejer2, integrate_iter
 
-from pacal.depvars.nddistr import NDDistr, NDFun
+from pacal.depvars.nddistr import NDDistr, NDFun, NDOneFactor
 import pylab as plt
 
 import sympy
@@ -54,7 +56,7 @@ class Copula(NDDistr):
         return a, b
     def setMarginals(self, *marginals):
         if len(marginals) > 0 and isinstance(marginals[0], pacal.distr.Distr):
-            self.marginals = marginals
+            Copula.__init__(self, list(marginals))
     def pdf(self, *X):
         """joint probability density function with marginals *X"""
         if self.marginals is None or len(self.marginals) == 0:
@@ -77,11 +79,24 @@ class Copula(NDDistr):
             F = [self.marginals[i].get_piecewise_cdf_interp()(X[i]) for i in range(len(X))]
             return self.ccdf(*F)
 
+    def eliminate(self, var, a=None, b=None):
+        """Marginals of these copulas are copulas of the same family."""
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        if len(c_var) == 0:
+            return NDOneFactor()
+        if len(c_var) == 1:
+            return PiCopula([self.marginals[c_var[0]]])
+        m = copy(self)
+        m.setMarginals(*[self.marginals[i] for i in c_var])
+        return m
+
     def dualcdf(self, *X):
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for i in range(len(X)):
             si += self.marginals[i].get_piecewise_cdf_interp()(X[i])
-        return si - self.ccdf(*X)
+        return si - self.cdf(*X)
     def jpdf_(self, f, g, x, y):
         """joint probability density function with marginals *X"""
         if isinstance(f, Distr):
@@ -194,18 +209,15 @@ class Copula(NDDistr):
 
     def cov(self, i=None, j=None):
         if i is not None and j is not None:
-            var, c_var = self.prepare_var([i, j])
+            (i, j), c_var = self.prepare_var([i, j])
+            if i == j:
+                return self.marginals[i].var()
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
-            fmean = f.mean()
-            gmean = g.mean()
+            f, g = self.marginals[min(i, j)], self.marginals[max(i, j)]
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
-            print(fmean, gmean, var, c_var, f0, f1, g0, g1)
-            if i == j:
-                c, e = c, e = integrate_fejer2(lambda x: (x - fmean) ** 2 * f.pdf(x), f0, f1)                  
-            else:
-                c, e = integrate_iter(lambda x, y: (x - fmean) * (y - gmean) * dij.pdf(x, y), f0, f1, g0, g1)
+            # Hoeffding's formula, valid also for singular copulas
+            c, e = integrate_iter(lambda x, y: dij.cdf(x, y) - f.cdf(x) * g.cdf(y), f0, f1, g0, g1)
             return c
         else:
             c = zeros((self.d, self.d))
@@ -215,10 +227,10 @@ class Copula(NDDistr):
             return c
     def corrcoef(self, i=None, j=None):
         if i is not None and j is not None:
-            var, c_var = self.prepare_var([i, j])
-            dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
-            return self.cov(i, j)/f.std()/g.std()
+            i, j = self.prepare_var([i, j])[0]
+            if i == j:
+                return 1.0
+            return self.cov(i, j)/self.marginals[i].std()/self.marginals[j].std()
         else:
             c = zeros((self.d, self.d))
             for i in range(self.d):
@@ -226,29 +238,17 @@ class Copula(NDDistr):
                     c[i, j] = self.corrcoef(i, j)                                          
             return c
     def tau(self, i=None, j=None):
-        """Kendall's tau: 4*\\int C(x,y) dC(x,y)-1
+        """Kendall's tau: 4*\\int C(x,y) dC(x,y)-1, the same for all marginals
         """
-        if i is not None and j is not None:
-            var, c_var = self.prepare_var([i, j])
-            dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
-            f0, f1 = f.get_piecewise_pdf().range()
-            g0, g1 = g.get_piecewise_pdf().range()
-            if i == j:
-                c, e = 1, 0
-            else:
-                c, e = integrate_iter(lambda x, y: dij.cdf(x, y) * dij.pdf(x, y), f0, f1, g0, g1)
-                c = 4 * c - 1
-            return c
-        else:
-            c = zeros((self.d, self.d))
-            for i in range(self.d):
-                for j in range(self.d):
-                    c[i, j] = self.ctau(i, j)                                          
-            return c
+        return self.ctau(i, j)
     def beta(self, i=None, j=None):
         """Blomqvist's beta: 4 * C(0.5, 0.5) - 1
         """
+        if i is not None and j is not None:
+            var, c_var = self.prepare_var([i, j])
+            if var[0] == var[1]:
+                return 1.0
+            return self.eliminate(c_var).beta()
         return 4*self.ccdf(0.5,0.5)-1
     def rho_s(self, i=None, j=None):
         """Spearmans rho: 12*\\int x*y dC(x,y)-3 = 12 \\int C(d,y)dxdy - 3
@@ -294,28 +294,28 @@ class PiCopula(Copula):
     def __init__(self, marginals=None):
         super(PiCopula, self).__init__(marginals=marginals)
     def cpdf(self, *X):
-        return ones_like(X[0])
+        return ones_like(X[0], dtype=float)
     def ccdf(self, *X):
-        pi = ones_like(X[0])
+        pi = ones_like(X[0], dtype=float)
         for xi in X:
-            pi *= xi
+            pi = pi * xi
         return pi
 class MCopula(Copula):
     def __init__(self, marginals=None):
         super(MCopula, self).__init__(marginals)
         self._segint = self._segmin
     def cpdf(self, *X):
-        return zeros_like(X[0])#self.ccdf(*X)
+        return zeros_like(X[0], dtype=float)
     def ccdf(self, *X):
-        mi = zeros_like(X[0])+1
-        for xi in X[0:]:
-            xia = array(xi)
-            ind = xia < mi
-            if isscalar(mi) | size(mi)==1:
-                mi = xia
-            else:
-                mi[ind] = xia[ind]
+        mi = X[0]
+        for xi in X[1:]:
+            mi = np.minimum(mi, xi)
         return mi
+    def ctau(self, i=None, j=None):
+        """Kendall's tau of a singular copula."""
+        if i is not None and j is not None:
+            return 1.0
+        return super(MCopula, self).ctau()
     def _segmin(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         xopt = fmin2(lambda x: fun(float(x)), L, U, xtol = 1e-16)
@@ -380,19 +380,18 @@ class WCopula(MCopula):
         super(WCopula, self).__init__(marginals)
         self._segint = self._segmax
     def cpdf(self, *X):
-        return zeros_like(X[0])#self.ccdf(*X)
+        return zeros_like(X[0], dtype=float)
     def ccdf(self, *X):
-        si = zeros_like(X[0])
-        for xi in X[0:]:
-            si += array(xi)
-        si = si - 1
-        ind = (si < 0)
-        if isscalar(si) | size(si)==1:
-            if ind:
-                si = 0.0
-        else:
-            si[ind] = 0
-        return si
+        si = 1.0 - len(X)
+        for xi in X:
+            si = si + xi
+        return np.maximum(si, 0.0)
+    def ctau(self, i=None, j=None):
+        """Kendall's tau of a singular copula."""
+        if i is not None and j is not None:
+            i, j = self.prepare_var([i, j])[0]
+            return 1.0 if i == j else -1.0
+        return super(WCopula, self).ctau()
     def _segmax(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         #xopt = fminbound(fun, L, U, xtol = 1e-16)
@@ -442,22 +441,22 @@ class ArchimedeanCopula(Copula):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
         si = zeros_like(X[0])
         for xi in X:
-            si = si + self.fi(xi)
-        si = self.fi_inv_nth_deriv(si)
-        pi = ones_like(X[0])
+            si = si + self.fi(np.asarray(xi, dtype=float))
+        si = np.where(self._in_support(si), self.fi_inv_nth_deriv(si), 0.0)[()]
+        pi = ones_like(X[0], dtype=float)
         for xi in X:
-            pi = pi * self.fi_deriv(xi)
+            pi = pi * self.fi_deriv(np.asarray(xi, dtype=float))
         return si * pi
     def ccdf(self, *X):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for xi in X:
-            si += self.fi(xi)
-        ind = (si < 0) # or isnan(si)
-        #if len(ind)>0:
-        si[ind] = 0.0
-        si = self.fi_inv(si)
-        return si
+            si = si + self.fi(np.asarray(xi, dtype=float))
+        si = np.maximum(si, 0.0)
+        return np.where(self._in_support(si), self.fi_inv(si), 0.0)[()]
+    def _in_support(self, si):
+        """Nonstrict generators have finite value at zero."""
+        return si < self.fi(np.zeros(1))[0]
 class ArchimedeanSymbolicCopula(ArchimedeanCopula):
     # TODO
     def __init__(self,
@@ -474,7 +473,9 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         self.sym_fi = fi(self.t, self.theta)
         self.sym_fi_deriv = sympy.diff(self.sym_fi, self.t)
         if fi_inv is  None:
-            self.sym_fi_inv = sympy.solve(self.sym_fi - self.s, self.t)[0]
+            # the inverse of a generator is one at zero
+            solutions = sympy.solve(self.sym_fi - self.s, self.t)
+            self.sym_fi_inv = min(solutions, key=lambda u: abs(complex(u.subs(self.s, 0)) - 1.0))
         else:
             self.sym_fi_inv = fi_inv(self.s, self.theta)
         self.sym_fi_inv_nth_deriv = sympy.diff(self.sym_fi_inv, self.s, self.d)
@@ -488,13 +489,15 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         si = 0
         for i in range(self.d):
             si += self.fi_(vars[i], self.theta)
-        self.sym_C = self.fi_inv_(si, self.theta)
+        self.sym_C = self.sym_fi_inv.subs(self.s, si)
 
     def eliminate(self, var):
         var, c_var = self.prepare_var(var)
         c_marginals = [self.marginals[i] for i in c_var]
         if len(var) == 0:
             return self
+        if len(c_var) == 0:
+            return NDOneFactor()
         return ArchimedeanSymbolicCopula(fi=self.fi_,
                                          fi_inv=self.fi_inv_,
                                          theta=self.theta,
@@ -504,75 +507,46 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         """It returns conditional copula f([var, c_vars]) = C(c_var | var)
         """
         var, c_var = self.prepare_var(var)
-        symvars = [self.symVars[i] for i in var]
         DC = self.sym_C
-        for i in range(len(self.Vars)):
-            if i in set(var):
-                DC = sympy.diff(DC, self.symVars[i])
-            else:
-                pass
-        dC = sympy.lambdify(self.symVars, DC, "numpy")
-        return NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))       
+        for i in var:
+            DC = sympy.diff(DC, self.symVars[i])
+        num = sympy.lambdify(self.symVars, DC, "numpy")
+        den = self.eliminate(c_var)
+        def fun_(*U):
+            U = [np.asarray(u, dtype=float) for u in U]
+            return np.where(self.ccdf(*U) > 0, num(*U), 0.0)[()] / den.cpdf(*[U[i] for i in sorted(var)])
+        return fun_
 
     def condition(self, var, *X):
         """It returns conditional pdf for given copula
         f(c_var) = Pr(c_var | var=X)
         """
         var, c_var = self.prepare_var(var)
-        num = self.pdf
-        den = self.eliminate(c_var)
+        if len(c_var) == 0:
+            return NDOneFactor()
+        X = dict(zip(var, X))
+        den = self.eliminate(c_var).pdf(*[X[i] for i in sorted(var)])
         def fun_(*Y_):
-            j, k = 0, 0
-            Y, Yvar = [], []
-            #dF = ones_like(X[0])
-            for i in range(len(self.Vars)):
-                if i in set(var):
-                    Y.append(X[j])
-                    Yvar.append(X[j])
-                    j += 1
-                else:
-                    Y.append(Y_[k])
-                    k += 1
-            return num(*Y) / den.pdf(*X)
+            Y = dict(zip(c_var, Y_))
+            return self.pdf(*[Y[i] if i in Y else X[i] for i in range(self.d)]) / den
         return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def conditionCDF(self, var, *X):
         """It returns conditional cdf for given copula
         f(c_var) = Pr(Y<c_var | var=X)
         """
-        funcond = self.ccond(var)
+        condfun = self.condfun(var).fun
         var, c_var = self.prepare_var(var)
-        new_cond = var
+        X = dict(zip(var, X))
         def fun_(*Y_):
-            j, k = 0, 0
-            Y = []
-            dF = ones_like(X[0])
-            for i in range(len(self.Vars)):
-                if i in set(var):
-                    Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
-                    j += 1
-                else:
-                    Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
-                    dF *= self.marginals[i].get_piecewise_pdf()(Y_[k])
-                    k += 1
-            return funcond(*Y)
-        return NDFun(len(new_cond), [self.Vars[i] for i in c_var], fun_)
+            Y = dict(zip(c_var, Y_))
+            return condfun(*[Y[i] if i in Y else X[i] for i in range(self.d)])
+        return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def condfun(self, var):
         """It returns conditional cdf function f([var, c_vars]) = Pr(Y<c_var | var)
         """
         funcond = self.ccond(var)
-        var, c_var = self.prepare_var(var)
-        new_cond = var
         def fun_(*X):
-            j, k = 0, 0
-            Y = []
-            dF = ones_like(X[0])
-            for i in range(len(self.Vars)):
-                Y.append(self.marginals[i].get_piecewise_cdf()(X[i]))
-                if i in set(var):
-                    pass
-                else:
-                    dF *= self.marginals[i].get_piecewise_pdf()(X[i])                    
-            return funcond(*Y)
+            return funcond(*[self.marginals[i].get_piecewise_cdf()(X[i]) for i in range(self.d)])
         return NDFun(self.d, self.Vars, fun_)
     def debug_info(self):
         #self.fi_inv_defiv = simplify(sympy.diff(self.sym_fi_inv(self.s, self.theta), self.s))
@@ -609,17 +583,17 @@ class GumbelCopula2d(Copula):
     def fi_inv(self, s):
         return exp(-s ** self.one_over_theta)
     def cpdf(self, *X):
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si) * (si ** (self.one_over_theta - 2.0) * (-1.0 + self.theta + si ** self.one_over_theta)) / self.theta_square
         for xi in X:
-            si *= self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi          
+            si = si * self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi          
         return si
     def ccdf(self, *X):
-        si = zeros_like(X[0])
+        si = zeros_like(X[0], dtype=float)
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si)
         return si
 
@@ -702,17 +676,17 @@ class FrankCopula2d(Copula):
             return -1.0 / self.theta * logexp_p1(-s, 0)
     def cpdf(self, *X):
         si = zeros_like(X[0])
-        pi = ones_like(X[0])
+        pi = ones_like(X[0], dtype=float)
         n = len(X)
         for xi in X:
-            si += xi
-            pi *= -np.expm1(-self.theta * xi)
+            si = si + xi
+            pi = pi * -np.expm1(-self.theta * xi)
         yi = self.theta * self.eta * np.exp(-self.theta * si) / (self.eta - pi) ** n
         return yi
     def ccdf(self, *X):
-        pi = ones_like(X[0])
+        pi = ones_like(X[0], dtype=float)
         for xi in X:
-            pi *= -expm1(-self.theta * xi)
+            pi = pi * -expm1(-self.theta * xi)
         yi = -self.one_over_theta * np.log1p(-pi / self.eta)
         return yi
 
-- 
2.43.0


From 540354421b4667606de4a57b758cd6f5e58413ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:42 +0000
Subject: [PATCH 34/42] fix: joint distributions: elimination of several
 variables, normal conditionals, covariances, order statistics

---
 pacal/depvars/nddistr.py | 95 ++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 48 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 9b74122..b355bcb 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -171,10 +171,7 @@ class NDFun(object):
 #            else:
 #                y = integrate_fejer2(partial(integ_f, self, arg, c_var, v1, X), self.a[v1], self.b[v1])
 #            return NDConstFactor(y[0])
-            if hasattr(self, "f"):
-                y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
+            y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
             return NDConstFactor(y[0])
         #m = NDInterpolatedDistr(self.d - 1, partial(self.interp_f, self, arg, c_var, v1), [self.Vars[i] for i in c_var])
         m = NDInterpolatedDistr(self.d - 1, InterpRunner(self, arg, c_var, v1).interpxx, [self.Vars[i] for i in c_var])
@@ -182,7 +179,8 @@ class NDFun(object):
             return m
         else:
             # TODO: eliminate all vars at once using sparse grid integration
-            return m.eliminate(var[:-1])
+            # (the positions of the remaining variables have changed)
+            return m.eliminate([self.Vars[i] for i in var[:-1]])
 
 
 class InterpRunner(object):
@@ -193,14 +191,8 @@ class InterpRunner(object):
         self.v1 = v1
     def interp_fx(self, X):
         ndfun = self.ndfun
-        arg = self.arg
-        c_var = self.c_var
         v1 = self.v1
-        if hasattr(self.ndfun, "f"):
-            y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])[0]
-        else:
-            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])[0]
-        return y
+        return integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])[0]
     def interpxx(self, *X):
         """convolution of f and g
         """
@@ -208,10 +200,7 @@ class InterpRunner(object):
         v1 = self.v1
         if isscalar(X[0]):
             # TODO: fix integration bounds!!!!
-            if hasattr(self.ndfun, "f"):
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
+            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
             return y[0]
         xx = transpose(array(X))
         if isscalar(xx):
@@ -252,18 +241,12 @@ class InterpRunner(object):
 #        print self.ndfun.b[v1]
         if isscalar(X[0]):
             # TODO: fix integration bounds!!!!
-            if hasattr(self.ndfun, "f"):
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
+            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
             return y[0]
         y = np.asarray(zeros_like(X[0]))
         for i in range(len(X[0])):
             # TODO: fix integration bounds!!!!
-            if hasattr(self.ndfun, "f"):
-                y[i] = integrate_fejer2(partial(self.integ_f, [x[i] for x in X]), ndfun.f.a[v1], ndfun.f.b[v1])[0]
-            else:
-                y[i] = integrate_fejer2(partial(self.integ_f, [x[i] for x in X]), ndfun.a[v1], ndfun.b[v1])[0]
+            y[i] = integrate_fejer2(partial(self.integ_f, [x[i] for x in X]), ndfun.a[v1], ndfun.b[v1])[0]
         return y
     def safe_interp_f(self, xt):
         #print ":::", xt
@@ -348,15 +331,15 @@ class NDDistr(NDFun):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g  = dij.Vars[0], self.Vars[1]
-            fmean = 0 #f.mean()
-            gmean = 0 #g.mean()
-            f0, f1 = f.range()
-            g0, g1 = g.range()
-            if i == j:
-                c, e =  1, 0#integrate_fejer2(lambda x: (x - fmean) ** 2 * f.pdf(x), f0, f1)
-            else:
-                c, e = integrate_iter(lambda x, y: (x - fmean) * (y - gmean) * dij.pdf(x, y), f0, f1, g0, g1)
+            if var[0] == var[1]:
+                a, b = dij.a[0], dij.b[0]
+                m = integrate_fejer2(lambda x: x * dij(x), a, b)[0]
+                return integrate_fejer2(lambda x: (x - m) ** 2 * dij(x), a, b)[0]
+            rng = dij.a[0], dij.b[0], dij.a[1], dij.b[1]
+            fun = lambda h: integrate_iter(lambda x, y: h(x, y) * dij(x, zeros_like(x) + y), *rng)[0]
+            fmean = fun(lambda x, y: x)
+            gmean = fun(lambda x, y: y)
+            c = fun(lambda x, y: (x - fmean) * (y - gmean))
             return c
         else:
             c = zeros((self.d, self.d))
@@ -487,6 +470,11 @@ class Factor1DDistr(NDDistr):
         return str(self.distr)
     def pdf(self, *X):
         return self.distr.pdf(*X)
+    def eliminate(self, var, a=None, b=None):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        return NDOneFactor()
 
 class NDConstFactor(NDDistr):
     def __init__(self, c):
@@ -517,11 +505,11 @@ class NDNormalDistr(NDDistr):
         assert len(Sigma.shape) == 2
         assert Sigma.shape[0] == Sigma.shape[1] == d
         if Vars is None:
-            Vars = [NormalDistr(mu[i], Sigma[i,i], sym = LETTERS[i]) for i in range(d)]
+            Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
-        self.a = [m-5 for m in mu] # FIX THIS!!!
-        self.b = [m+5 for m in mu] # FIX THIS!!!
+        self.a = [mu[i] - 5 * sqrt(Sigma[i,i]) for i in range(d)] # FIX THIS!!!
+        self.b = [mu[i] + 5 * sqrt(Sigma[i,i]) for i in range(d)] # FIX THIS!!!
         self.mu = mu
         self.Sigma = Sigma
         self.invSigma = array(Sigma.I)
@@ -531,13 +519,13 @@ class NDNormalDistr(NDDistr):
             X = np.asarray(X) - self.mu
             return self.nrm * exp(-0.5 * dot(X, dot(self.invSigma, X).T))
         else:
-            Xa = np.asarray(X)
+            Xa = np.asarray(X, dtype=float)
             Xa = Xa.transpose(list(range(1, len(X[0].shape) + 1)) + [0])
             Xa -= self.mu
             Z = (dot(Xa, self.invSigma) * Xa).sum(axis= -1)
             return self.nrm * exp(-0.5 * Z)
 
-    def eliminate(self, var):
+    def eliminate(self, var, a=None, b=None):
         var, c_var = self.prepare_var(var)
         # assume var is a dimension number here
         m_mu = delete(self.mu, var)
@@ -549,14 +537,17 @@ class NDNormalDistr(NDDistr):
         var, c_var = self.prepare_var(var)
         if len(c_var) == 0:
             return NDOneFactor()
-        Sigma_11 = self.Sigma[c_var, c_var]
-        Sigma_12 = self.Sigma[c_var, var]
-        Sigma_21 = self.Sigma[var, c_var]
-        Sigma_22 = self.Sigma[var, var]
-        c_mu = self.mu[c_var] + Sigma_12 * Sigma_22.I * (X - self.mu[var])
-        c_mu = array(c_mu)[0]
-        c_Sigma = Sigma_11 - Sigma_12 * Sigma_22.I * Sigma_21
+        Sigma = array(self.Sigma)
+        X = array([float(numpy.squeeze(x)) for x in X])
+        coef = dot(Sigma[np.ix_(c_var, var)], np.linalg.inv(Sigma[np.ix_(var, var)]))
+        c_mu = self.mu[c_var] + dot(coef, X - self.mu[var])
+        c_Sigma = Sigma[np.ix_(c_var, c_var)] - dot(coef, Sigma[np.ix_(var, c_var)])
         return NDNormalDistr(c_mu, c_Sigma, [self.Vars[i] for i in c_var])
+    def cov(self, i=None, j=None):
+        if i is None or j is None:
+            return array(self.Sigma)
+        i, j = self.prepare_var([i, j])[0]
+        return self.Sigma[i, j]
 
 class GausianCopula(NDDistr): # TODO
     def __init__(self, mu, Sigma, marginals=None):
@@ -642,7 +633,7 @@ class ConditionalDistr(NDFun):
             marg = nd.eliminate(c_var)
         self.marg = marg
     def pdf(self, *X):
-        return self.nd(*X) / self.marg(*[X[i] for i in self.cond_vars])
+        return self.nd(*X) / self.marg(*[X[i] for i in sorted(self.cond_vars)])
     def eliminate(self, var):
         var, c_var = self.prepare_var(var)
         if set(c_var) == set(self.cond_vars): # all unconditionned vars eliminated
@@ -655,7 +646,7 @@ class ConditionalDistr(NDFun):
         new_cond = set(self.cond_vars) - set(var)
         if len(new_cond) == 0: # no conditioning variables left
             return self.nd.condition(var, *X, **kwargs)
-        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=self.marg)
+        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in sorted(new_cond)])
         return cd
 
 def _get_str_sym_name(v):
@@ -773,7 +764,7 @@ class NDProductDistr(NDDistr):
                     cV.append(V)
                     cX.append(X[i])
             #print cf, cf.Vars[0].getSymname(), cf.condition(cV, cX, normalize=False)
-            new_cond_factors.append(cf.condition(cV, cX, normalize=False))
+            new_cond_factors.append(cf.condition(cV, *cX, normalize=False))
         cfp = NDProductDistr(kept_factors + new_cond_factors)
         nrm = cfp.eliminate(list(range(cfp.d)))
         nrm = nrm.as_constant()
@@ -822,6 +813,14 @@ class IJthOrderStatsNDDistr(NDDistr):
         a, b = getRanges([f, f])
         self.a = a
         self.b = b
+    def eliminate(self, var, a=None, b=None):
+        """Marginals are the laws of single order statistics."""
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        if len(c_var) == 0:
+            return NDOneFactor()
+        return Factor1DDistr(self.Vars[c_var[0]])
     def pdf(self, *X):
         assert len(X) == 2, "this is 2d distribution"
         x, y = X
-- 
2.43.0


From 22af4350eb8d86c965f76671679f8ccb6d5145d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:59 +0000
Subject: [PATCH 35/42] fix: models: conditioning after exchanges, refused
 steps, order of exchanges, operations of two variables touching zero

---
 pacal/depvars/models.py  | 66 ++++++++++++++++++++++------------------
 pacal/depvars/nddistr.py | 57 ++++++++++++++++++----------------
 2 files changed, 67 insertions(+), 56 deletions(-)

diff --git a/pacal/depvars/models.py b/pacal/depvars/models.py
index 07120e7..f4ffaa8 100644
--- a/pacal/depvars/models.py
+++ b/pacal/depvars/models.py
@@ -250,6 +250,13 @@ class Model(object):
         cond = {}
         for v, x in zip(cond_rvs, cond_X):
             cond[v] = x
+        if len(cond_rvs) != len(cond_X):
+            raise RuntimeError("One value is needed for each conditioning variable")
+        for v in wanted_rvs | set(cond):
+            if v not in M.all_vars:
+                raise RuntimeError("Variable " + str(v) + " is not in the model")
+        if wanted_rvs & set(cond):
+            raise RuntimeError("Wanted variables cannot be conditioned on")
         ii=0
         while wanted_rvs != set(M.all_vars):
             print("OUTER LOOP| wanted:", [tmp_rv.getSymname() for tmp_rv in wanted_rvs], "all:", [tmp_rv.getSymname() for tmp_rv in M.all_vars], "dep:", [tmp_rv.getSymname() for tmp_rv in M.dep_rvs])
@@ -324,9 +331,9 @@ class Model(object):
                         #key = ((nparents-1 + nterms)*(nchildren-1), 1*(fv in wanted_rvs)) # heuristic for deciding which vars to exchange
                         pairs.append((key, fv, dv))
                 print([(key, fv.getSymname(), dv.getSymname()) for key, fv, dv
-                           in sorted(pairs, key=lambda x: (x[0], id(x[1]), id(x[2])))])
+                           in sorted(pairs, key=lambda x: (x[0], _get_str_sym_name(x[1]), _get_str_sym_name(x[2])))])
                 if len(pairs) > 0:
-                    pairs.sort(key=lambda x: (x[0], id(x[1]), id(x[2])))
+                    pairs.sort(key=lambda x: (x[0], _get_str_sym_name(x[1]), _get_str_sym_name(x[2])))
                     _key, fv, dv = pairs[0]
                     M.varschange(fv, dv)
                     if fv not in wanted_rvs:
@@ -351,7 +358,7 @@ class Model(object):
     def are_free(self, vars):
         for v in vars:
             if not self.is_free(v): return False
-            return True
+        return True
     def varchange_and_eliminate(self, var):
         if self.is_free(var) and len(self.dep_rvs)==0:
             # eliminujemy pozostale zmienne wolne
@@ -386,10 +393,12 @@ class Model(object):
             print("condition on variable: ",  var.getSymname(), "=" ,X)
         if not self.is_free(var):
             raise RuntimeError("You can only condition on free variables")
+        # do this first, it fails if X is outside of the range of var
+        nddistr = self.nddistr.condition([var], X)
         self.subst_for_rv_in_children(var, sympy.S(X))
         self.free_rvs.remove(var)
         self.all_vars.remove(var)
-        self.nddistr = self.nddistr.condition([var], X)
+        self.nddistr = nddistr
 
     def as1DDistr(self):
         if len(self.dep_rvs) > 0:
@@ -483,8 +492,11 @@ class TwoVarsModel(Model):
         self.lJy = my_lambdify([y, z], self.Jy, "numpy")
         self.z = z
     def solveCutsX(self, fun, ay, by):
-        axc = eq_solve(fun, ay, self.symvars[0])[0]
-        bxc = eq_solve(fun, by, self.symvars[0])[0]
+        axc = eq_solve(fun, ay, self.symvars[0])
+        bxc = eq_solve(fun, by, self.symvars[0])
+        # the value may never be reached
+        axc = axc[0] if len(axc) > 0 else sympy.nan
+        bxc = bxc[0] if len(bxc) > 0 else sympy.nan
         return (axc, bxc)
     def solveCutsY(self, fun, ax, bx):
         #ayc = eq_solve(fun - ay, self.z)[0]
@@ -500,30 +512,24 @@ class TwoVarsModel(Model):
             axc = None
         if not bxc.is_extended_real:
             bxc = None
-        aycz, bycz = self.solveCutsY(self.fun_alongx, ax, bx)
-        ayc = aycz.subs(self.z, z)
-        byc = bycz.subs(self.z, z)
-        if not ayc.is_extended_real:
-            ayc = None
-        if not byc.is_extended_real:
-            byc = None
-        #print("========")
-        #print(ay, ayc, by)
-        #print(ay, byc, by)
-        #print(ax,bx,axc, bxc)
-        if (ay < ayc and ayc < by):
-            L = ax
-        else:
-            L = min(max(axc, ax), min(bxc, bx))
-        if (ay < byc and byc < by):
-            U = bx
-        else:
-            U = max(max(axc, ax), min(bxc, bx))
-        if L < U:
-            pass
-        else:
-            L, U = U, L
-        return max(ax, L), min(bx, U)
+        # the curve is inside of the rectangle between some of the cuts
+        cuts = [min(max(float(c), ax), bx) for c in (axc, bxc) if c is not None]
+        cuts = sorted(set(cuts + [ax, bx]))
+        L, U = bx, ax
+        for l, u in zip(cuts[:-1], cuts[1:]):
+            if isinf(l) and isinf(u):
+                m = 0.0
+            elif isinf(l):
+                m = u - 1.0
+            elif isinf(u):
+                m = l + 1.0
+            else:
+                m = (l + u) / 2.0
+            if ay < self.lfun_alongx(m, z) < by:
+                L, U = min(L, l), max(U, u)
+        if L > U:
+            return ax, ax
+        return L, U
 
     def plotFrame(self, ax, bx, ay, by):
         figure()
diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index b355bcb..547a54e 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -181,6 +181,33 @@ class NDFun(object):
             # TODO: eliminate all vars at once using sparse grid integration
             # (the positions of the remaining variables have changed)
             return m.eliminate([self.Vars[i] for i in var[:-1]])
+    def condition(self, var, *X, **kwargs):
+        """Return the NDDistr conditioned on var=X.
+
+        The default implementation uses NDInterpolatedDistr"""
+        var, c_var = self.prepare_var(var)
+        for i in range(len(var)):
+            ai, bi = self.Vars[var[i]].range()
+            assert ai <= numpy.squeeze(X[i]) <= bi, "var({0})={1} outside of range [{2}, {3}]".format(var[i], X[i], ai, bi)
+        if len(c_var) == 0:
+            return NDOneFactor()
+        if not hasattr(X, "__iter__"):
+            X = [X]
+        assert len(X) == len(var)
+        arg = [None] * self.d
+        normalize = kwargs.get("normalize", True)
+        if not normalize:
+            # a factor of a product: it may be singular where the
+            # other factors vanish, so it cannot be interpolated alone
+            return NDFun(len(c_var), [self.Vars[i] for i in c_var], partial(_cond_f, self, arg, c_var, var, X))
+        unnormalized = NDInterpolatedDistr(len(c_var), partial(_cond_f, self, arg, c_var, var, X), [self.Vars[i] for i in c_var])
+        nrm = unnormalized.eliminate(list(range(unnormalized.d)))
+        if isinstance(nrm, NDConstFactor):
+            nrm = nrm.c
+        elif isinstance(nrm, NDProductDistr):
+            nrm = nrm.as_constant().c
+        unnormalized.f.Ys /= nrm
+        return unnormalized
 
 
 class InterpRunner(object):
@@ -258,7 +285,10 @@ class InterpRunner(object):
 def _cond_f(f, arg, c_var, var, Xcond, *Xfree):
     """Helper function for intepolating after conditional density."""
     for i, j in enumerate(var):
-        arg[j] = zeros(Xfree[0].shape) + Xcond[i]
+        if isscalar(Xfree[0]):
+            arg[j] = Xcond[i]
+        else:
+            arg[j] = zeros(Xfree[0].shape) + Xcond[i]
     for i, j in enumerate(c_var):
         arg[j] = Xfree[i]
     return f(*arg)
@@ -266,31 +296,6 @@ class NDDistr(NDFun):
     def __init__(self, d, Vars=None):
         super(NDDistr, self).__init__(d, Vars, self.pdf)
         self.marginals = Vars
-    def condition(self, var, *X, **kwargs):
-        """Return the NDDistr conditioned on var=X.
-
-        The default implementation uses NDInterpolatedDistr"""
-        var, c_var = self.prepare_var(var)
-        for i in range(len(var)):
-            ai, bi = self.Vars[var[i]].range()
-            assert ai <= numpy.squeeze(X[i]) <= bi, "var({0})={1} outside of range [{2}, {3}]".format(var[i], X[i], ai, bi)
-        if len(c_var) == 0:
-            return NDOneFactor()
-        if not hasattr(X, "__iter__"):
-            X = [X]
-        assert len(X) == len(var)
-        arg = [None] * self.d
-        unnormalized = NDInterpolatedDistr(len(c_var), partial(_cond_f, self, arg, c_var, var, X), [self.Vars[i] for i in c_var])
-        normalize = kwargs.get("normalize", True)
-        if normalize:
-            nrm = unnormalized.eliminate(list(range(unnormalized.d)))
-            if isinstance(nrm, NDConstFactor):
-                nrm = nrm.c
-            elif isinstance(nrm, NDProductDistr):
-                nrm = nrm.as_constant().c
-            unnormalized.f.Ys /= nrm
-        return unnormalized
-
     def regfun(self, var, type=0):
         """It gives reggersion function E(var | I) """
         var, c_var = self.prepare_var(var)
-- 
2.43.0


From ff0b45719210a32f66d00eb71889f15b32f8c125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 36/42] fix: copulas: conditioning inside of products and
 outside of the range

---
 pacal/depvars/copulas.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 2a60bc0..3e168da 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -517,11 +517,14 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
             return np.where(self.ccdf(*U) > 0, num(*U), 0.0)[()] / den.cpdf(*[U[i] for i in sorted(var)])
         return fun_
 
-    def condition(self, var, *X):
+    def condition(self, var, *X, **kwargs):
         """It returns conditional pdf for given copula
         f(c_var) = Pr(c_var | var=X)
         """
         var, c_var = self.prepare_var(var)
+        for i, x in zip(var, X):
+            ai, bi = self.Vars[i].range()
+            assert ai <= x <= bi, "var({0})={1} outside of range [{2}, {3}]".format(i, x, ai, bi)
         if len(c_var) == 0:
             return NDOneFactor()
         X = dict(zip(var, X))
-- 
2.43.0


From e677631329bce8ac9957abf7cda9fb1da169a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 37/42] fix: printed names: parentheses around differences,
 shifts and powers

---
 pacal/rv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c035689..5966031 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -441,7 +441,8 @@ class PowRV(FuncRV):
     def __str__(self):
         return "#{0}**{1}".format(self.d.id(), self.alpha)
     def getName(self):
-        return "{0}**{1}".format(_wrapped_name(self.d), self.alpha)
+        incl = [PowRV] if isinstance(self.d, PowRV) else None
+        return "{0}**{1}".format(_wrapped_name(self.d, incl_classes = incl), self.alpha)
 
 class AbsRV(OpRV):
     """Absolute value of a distribution."""
@@ -508,7 +509,7 @@ class SubRV(OpRV):
     def __str__(self):
         return "#{0}-#{1}".format(self.d1.id(), self.d2.id())
     def getName(self):
-        n2 = _wrapped_name(self.d2, incl_classes = [SumRV])
+        n2 = _wrapped_name(self.d2, incl_classes = [SumRV, SubRV, ShiftedScaledRV])
         return "{0}-{1}".format(self.d1.getName(), n2)
     def getOperation(self):
         return "-"
-- 
2.43.0


From c9dd058d3267943137c48d41456dbfdb14e89023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 38/42] fix: plots: limits from a confidence level, dashed
 lines at the ends of pieces inside of the window only

---
 pacal/segments.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 98305b2..35770f6 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1344,7 +1344,7 @@ class PiecewiseFunction(object):
                 h0 = 0.0
             # plot right dashed line if next segment further off
             if i < len(self.segments) - 1 and self.segments[i+1].a > seg.b + params.segments.unique_eps:
-                if (not seg.isPInf()) and (xmin is None or xmin<=xi) and (xmax is None or xi<=xmax):
+                if (not seg.isPInf()) and (xmin is None or xmin<=seg.b) and (xmax is None or seg.b<=xmax):
                     plot([seg.b,seg.b], [h0, 0], 'k--')
                     h0 = 0.0
             if "label" in args:
@@ -1354,6 +1354,9 @@ class PiecewiseFunction(object):
         xi = seg.b
         if (not seg.isPInf()) and (xmin is None or xmin<=xi) and (xmax is None or xi<=xmax):
             plot([xi,xi], [h0, 0], 'k--')
+    def ci(self, p = 0.05):
+        """Limits of a plot at level p: none, see subclasses for distributions."""
+        return None, None
     def getPiecewiseSpace(self,
              xmin = None,
              xmax = None,
@@ -2031,6 +2034,10 @@ class PiecewiseDistribution(PiecewiseFunction):
         """Interquartile range for a given level."""
         cpf = self.cumint()
         return cpf.inverse(1-level)-cpf.inverse(level)
+    def ci(self, p = 0.05):
+        """Confidence interval for a given significance level."""
+        cpf = self.cumint()
+        return cpf.inverse(p/2.0), cpf.inverse(1-p/2.0)
     def entropy(self):
         fun = self * self._log1()
         return fun.integrate()
-- 
2.43.0


From 04099a19bdea65e5002fa256f6f8268418411674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 39/42] fix: likelihood estimator: parameters from the
 constructor, inadmissible parameters during the search

---
 pacal/stats/distr_est.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pacal/stats/distr_est.py b/pacal/stats/distr_est.py
index 4043e33..8d7ba21 100644
--- a/pacal/stats/distr_est.py
+++ b/pacal/stats/distr_est.py
@@ -2,8 +2,9 @@ from __future__ import print_function
 
 import inspect
 from pacal import MixDistr
-from numpy import prod, array, nan_to_num, ones, log
+from numpy import prod, array, nan_to_num, ones, log, inf
 from scipy.optimize import fmin
+from pylab import hist
 
 class LoglikelihoodEstimator(object):
     def __init__(self, distr=None, xi=None, params=None, defvals=None, parconstr={}, debug_info=False):
@@ -11,7 +12,7 @@ class LoglikelihoodEstimator(object):
         self.parconstr = parconstr
         self.debug_info = debug_info
         if params is None:
-            argspec = inspect.getargspec(distr.__dict__["__init__"])
+            argspec = inspect.getfullargspec(distr.__init__)
             argspec.args.remove("self")
             self.params = argspec.args
             nargs = len(self.params)
@@ -36,15 +37,20 @@ class LoglikelihoodEstimator(object):
     def logli(self, parvals):
         kwargs = self.make_kwargs(self.params, parvals)
         #self.distr(**kwargs).summary()
-        ll=-sum(log(self.distr(**kwargs).get_piecewise_pdf()(self.xi)+1e-300))
-        if self.debug_info: print(parvals, ll, self.distr(**kwargs).get_piecewise_pdf()(self.xi))
+        try:
+            distr = self.distr(**kwargs)
+        except AssertionError:
+            # not admissible as parameters
+            return inf
+        ll=-sum(log(distr.get_piecewise_pdf()(self.xi)+1e-300))
+        if self.debug_info: print(parvals, ll, distr.get_piecewise_pdf()(self.xi))
         return ll
     def find_params(self):
         paropt=fmin(self.logli, self.defvals)
         kwargs = self.make_kwargs(self.params,  paropt)
         if self.debug_info:
             self.distr(**kwargs).plot()
-            hist(self.xi, bins=40, normed=True)
+            hist(self.xi, bins=40, density=True)
         return kwargs
     def __str__(self):
         return "Distr"
-- 
2.43.0


From 03fea8bfd3c824640a2ed787a2721edcc9ecc86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 40/42] fix: moment generating function on the whole line,
 density of exp(X) at a number zero

---
 pacal/distr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index cb39db8..932d60d 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -36,7 +36,7 @@ def _mgf_fun(distr, t):
     if isscalar(t):
         return distr.meanf(f=lambda x: exp(t*x))
     else:
-        y = zeros_like(t)
+        y = zeros_like(t, dtype=float)
         for i in range(len(t)):
             y[i] = _mgf_fun(distr, t[i])
         return y
@@ -177,7 +177,7 @@ class Distr(RV):
         else:
             return np.nan
     def mgf(self):
-        return PiecewiseFunction(fun=partial(_mgf_fun, self), breakPoints=self.get_piecewise_pdf().getBreaks())
+        return PiecewiseFunction(fun=partial(_mgf_fun, self), breakPoints=[-numpy.inf, 0.0, numpy.inf])
     def cf(self):
         # TODO
         pass
@@ -624,7 +624,7 @@ class ExpDistr(FuncDistr):
     def f_inv(self, x):
         return numpy.log(x)
     def f_inv_deriv(self, x):
-        return 1.0/abs(x)
+        return numpy.divide(1.0, abs(x))
     def is_nonneg(self):
         return True
 def exp(d):
-- 
2.43.0


From 6e495392a615dc269cfb766d7bbfbbf7066cdb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 41/42] fix: density of sigmoid(X) at the numbers 0 and below:
 range is (0, 1)

---
 pacal/distr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 932d60d..23f47ff 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -764,23 +764,23 @@ class SigmoidDistr(FuncDistr):
         return y
     def f_inv(self, x):
         if isscalar(x):
-            if x <= -1 or x >= 1:
+            if x <= 0 or x >= 1:
                 y = 0
             else:
                 y = numpy.log(x / (1.0-x))
         else:
-            mask = (x > -1) & (x < 1)
+            mask = (x > 0) & (x < 1)
             y = zeros_like(x, dtype=float)
             y[mask] = numpy.log(x[mask] / (1.0-x[mask]))
         return y
     def f_inv_deriv(self, x):
         if isscalar(x):
-            if x <= -1 or x >= 1:
+            if x <= 0 or x >= 1:
                 y = 0
             else:
                 y = 1.0 / (x*(1 - x))
         else:
-            mask = (x > -1) & (x < 1)
+            mask = (x > 0) & (x < 1)
             y = zeros_like(x, dtype=float)
             y[mask] = 1.0 / (x[mask] * (1 - x[mask]))
         return y
-- 
2.43.0


From 972de4a28aa79a221f660ef10ac16bd53ad66767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 42/42] fix: mean and variance of small-scale heavy tails
 reported as finite

---
 pacal/segments.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 35770f6..4db7b9a 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1942,7 +1942,7 @@ class PiecewiseDistribution(PiecewiseFunction):
     Base representation of probability distribution function using
     piecewise function."""
     def mean(self):
-        I = 0.0
+        I, absI = 0.0, 0.0
         E = 0.0
         for seg in self.segments:
             if seg.isDirac():
@@ -1951,6 +1951,18 @@ class PiecewiseDistribution(PiecewiseFunction):
                 i, e = _segint(lambda x: x * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
             E += e
             I = I + i
+            absI += abs(i)
+        if E > 5.0e-2 * absI:
+            # small scale, or positive and negative values cancel: compare
+            # the error with the integral of |x|
+            absI = 0.0
+            for seg in self.segments:
+                if seg.isDirac():
+                    absI += seg.f*abs(seg.a)
+                else:
+                    absI += _segint(lambda x: abs(x) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())[0]
+            if E > 5.0e-2 * absI:
+                return np.nan
         if E>1.0e-1:
             return np.nan
         return I
@@ -1999,7 +2011,7 @@ class PiecewiseDistribution(PiecewiseFunction):
         for seg in self.getDiracs():
             i = seg.f*(seg.a - m) ** 2
             I += i
-        if E>1.0e-0:
+        if E>1.0e-0 or E > 5.0e-2 * I:
             return np.inf
         else:
             return I
-- 
2.43.0

