From e3a0f6ffe1093f0e656703e80af0b3bfdf1bebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:19 +0000
Subject: [PATCH 01/97] fix: keep both ends of a hole in the support as
 breakpoints in sums

---
 pacal/segments.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index dd0241e..cd241da 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1466,7 +1466,11 @@ class PiecewiseFunction(object):
         if len(segments) == 0:
             return []
         breaks = [breakPoint(segments[0].a, False, False)]
+        left = [] # index of the breakpoint at the left end of each segment
         for seg in segments:
+            if seg.a > breaks[-1].x: # hole in the support
+                breaks.append(breakPoint(seg.a, False, False))
+            left.append(len(breaks) - 1)
             if seg.isDirac():
                 breaks[-1].dirac = True
             if seg.hasLeftPole():
@@ -1476,18 +1480,20 @@ class PiecewiseFunction(object):
             else:
                 breaks.append(breakPoint(seg.b, False, False))
         # check continuity
-        seg = segments[0]
-        if not seg.isDirac() and not isinf(seg.a) and (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps):
-            breaks[0].Cont = False
-        seg = segments[-1]
-        if not seg.isDirac() and not isinf(seg.b) and (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps):
-            breaks[-1].Cont = False
+        def left_end_cont(seg):
+            return seg.isDirac() or isinf(seg.a) or not (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps)
+        def right_end_cont(seg):
+            return seg.isDirac() or isinf(seg.b) or not (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps)
+        breaks[0].Cont = left_end_cont(segments[0])
+        breaks[-1].Cont = right_end_cont(segments[-1])
         for i, seg in enumerate(segments[1:]):
-            if not seg.isDirac() and not segments[i].isDirac():
+            if left[i+1] > left[i] + 1: # a hole between the two segments
+                breaks[left[i]+1].Cont = right_end_cont(segments[i])
+                breaks[left[i+1]].Cont = left_end_cont(seg)
+            elif not seg.isDirac() and not segments[i].isDirac():
                 if not segments[i].hasRightPole() and not seg.hasLeftPole():
-                    if (segments[i].hasRightPole() or seg.hasLeftPole()
-                        or abs(segments[i].f(self.segments[i].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps):
-                        breaks[i+1].Cont = False
+                    if abs(segments[i].f(segments[i].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps:
+                        breaks[left[i+1]].Cont = False
         return breaks
 
     def getBreaks(self):
-- 
2.43.0


From 02accc4538cd79452ca4ea0300943a9e74b3ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:49 +0000
Subject: [PATCH 02/97] fix: cumulative function is constant over holes in the
 support

---
 pacal/segments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index cd241da..ace6d8f 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1163,7 +1163,10 @@ class PiecewiseFunction(object):
     def cumint(self):
         integralPFun = CumulativePiecewiseFunction([])
         f0 = 0
-        for seg in self.segments:
+        for i, seg in enumerate(self.segments):
+            if i > 0 and seg.a - self.segments[i-1].b > params.segments.unique_eps:
+                # hole in the support, the integral is constant there
+                integralPFun.addSegment(ConstSegment(self.segments[i-1].b, seg.a, f0))
             if seg.isPInf():
                 f0 = f0 + seg.integrate(seg.a)
             segi = seg.cumint(f0)
-- 
2.43.0


From 9ff5e64488e3c780c58f875e11e8c2666b7b786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:49 +0000
Subject: [PATCH 03/97] fix: findSegment returns None inside a hole between
 segments

---
 pacal/segments.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index ace6d8f..8a1bb77 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1103,7 +1103,12 @@ class PiecewiseFunction(object):
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
         if  0 < ind < len(self.segments):
-            return self.segments[ind]
+            if self.segments[ind].a <= x <= self.segments[ind].b:
+                return self.segments[ind]
+            elif self.segments[ind-1].b == x:
+                return self.segments[ind-1]
+            else: # hole in the support
+                return None
         elif ind == 0:
             if self.segments[ind].a <= x <= self.segments[ind].b :
                 return  self.segments[ind]
-- 
2.43.0


From bcb42faf07619f6929ff1c2a9f7c095a2836e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:49 +0000
Subject: [PATCH 04/97] fix: reciprocal of distributions with discrete parts

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 8a1bb77..46691b0 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -360,6 +360,8 @@ class Segment(object):
         """
         g = _op_one_over_x
         ginv = _op_one_over_x
+        if self.isDirac():
+            return DiracSegment(g(self.a), self.f)
         fun = partial(_prob_composition_safe, self.f, _op_one_over_x, _op_one_over_xsqaure)
         if (self.a==0):
             if  g(self.b)<0:
-- 
2.43.0


From c53a2d6745f873e10cd6976a8df0daf2c1b54520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:49 +0000
Subject: [PATCH 05/97] fix: no zero-mass atoms in min/max, conditioning drops
 only the atom at the cut

---
 pacal/distr.py      | 25 +++++++++++++------------
 pacal/indeparith.py | 16 ++++++++++++----
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 98e6946..eb98831 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1235,6 +1235,13 @@ class ConstDistr(DiscreteDistr):
     def getName(self):
         return str(self.c)
 
+def _pop_dirac(f, x):
+    """Remove Dirac at x from a piecewise function, return its mass."""
+    for i, seg in enumerate(f.segments):
+        if seg.isDirac() and seg.a == x:
+            return f.segments.pop(i).f
+    return 0
+
 class CondGtDistr(Distr):
     def __init__(self, d, L=None, **kwargs):
         self.L = L
@@ -1242,13 +1249,8 @@ class CondGtDistr(Distr):
         super(CondGtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
         Z = MaxDistr(ConstDistr(self.L), self.d)
-        # Do poprawki zostaja tu diraki o wys.=0, tak samo Lt
-        #print Z.get_piecewise_pdf(), self.L
-        while(Z.get_piecewise_pdf().segments[0].a<self.L):
-            diracB = Z.get_piecewise_pdf().segments.pop(0)
-        diracB = Z.get_piecewise_pdf().segments.pop(0)
-        #print Z.get_piecewise_pdf(), diracB
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        lost = _pop_dirac(Z.get_piecewise_pdf(), self.L)
+        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-lost)])).get_piecewise_pdf()
     def __str__(self):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
@@ -1271,8 +1273,8 @@ class CondLtDistr(Distr):
         super(CondLtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
         Z = MinDistr(ConstDistr(self.U), self.d)
-        diracB = Z.get_piecewise_pdf().segments.pop(-1)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        lost = _pop_dirac(Z.get_piecewise_pdf(), self.U)
+        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-lost)])).get_piecewise_pdf()
     def __str__(self):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
@@ -1293,9 +1295,8 @@ class CondBetweenDistr(Distr):
         #Z = MinDistr(Z, ConstDistr(self.U))
         #Z = min(max(self.d, self.L), self.U)
         Z = max(min(self.d, self.U), self.L)
-        diracL = Z.get_piecewise_pdf().segments.pop(0)
-        diracU = Z.get_piecewise_pdf().segments.pop(-1)
-        pmass = 1. - (diracL.f + diracU.f)
+        f = Z.get_piecewise_pdf()
+        pmass = 1. - (_pop_dirac(f, self.L) + _pop_dirac(f, self.U))
         self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1./pmass])).get_piecewise_pdf()
 
     def __str__(self):
diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 027b5b8..1a55a5d 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1433,10 +1433,14 @@ def _probDiracsInMin(f, g):
     """
     f_discr = PiecewiseDistribution([])
     for fi in f.getDiracs():
-        f_discr.addSegment(DiracSegment(fi.a, fi.f * g.integrate(a = fi.a)))
+        mass = fi.f * g.integrate(a = fi.a)
+        if mass > 0:
+            f_discr.addSegment(DiracSegment(fi.a, mass))
     g_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
-        g_discr.addSegment(DiracSegment(gi.a, gi.f * f.integrate(a = gi.a)))
+        mass = gi.f * f.integrate(a = gi.a)
+        if mass > 0:
+            g_discr.addSegment(DiracSegment(gi.a, mass))
     h_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
         dirac_f = f.getDirac(gi.a)
@@ -1451,10 +1455,14 @@ def _probDiracsInMax(f, g):
     """
     f_discr = PiecewiseDistribution([])
     for fi in f.getDiracs():
-        f_discr.addSegment(DiracSegment(fi.a, fi.f * g.integrate(b = fi.a)))
+        mass = fi.f * g.integrate(b = fi.a)
+        if mass > 0:
+            f_discr.addSegment(DiracSegment(fi.a, mass))
     g_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
-        g_discr.addSegment(DiracSegment(gi.a, gi.f * f.integrate(b = gi.a)))
+        mass = gi.f * f.integrate(b = gi.a)
+        if mass > 0:
+            g_discr.addSegment(DiracSegment(gi.a, mass))
     h_discr = PiecewiseDistribution([])
     for gi in g.getDiracs():
         dirac_f = f.getDirac(gi.a)
-- 
2.43.0


From 3a60f563c271973fac10a748d9d58276158c2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:49 +0000
Subject: [PATCH 06/97] fix: do not create zero-density pieces between atoms

---
 pacal/distr.py      |  2 --
 pacal/indeparith.py | 10 ++++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index eb98831..8a76309 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1085,8 +1085,6 @@ class DiscreteDistr(Distr):
         self.piecewise_pdf = PiecewiseDistribution([])
         for i in range(len(self.xi)):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
-        for i in range(len(self.xi)-1):
-            self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
     def rand_raw(self, n):
         u = uniform(0, 1, n)
         i = searchsorted(self.cumP, u)
diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 1a55a5d..0d71532 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -129,6 +129,8 @@ def conv(f, g):
         breaks = breaks[:-1]
     for i in range(len(breaks)-1):
         segList = _findSegListAdd(f, g, (breaks[i][0] + breaks[i+1][0])/2)
+        if len(segList) == 0: # no density here
+            continue
         fun = Convxrunner(segList, params.integration_finite).convx
         seg = Segment(breaks[i][0], breaks[i+1][0], fun)
         left_pole = False; NoL = False; right_pole = False; NoR = False
@@ -728,6 +730,8 @@ def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpo
         ub=ub[0:-1]
     for i in range(len(ub)-1) :
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2, op)
+        if len(segList) == 0: # no density here
+            continue
         #fun = partial(convminx, segList)
         fun = Convxrunner(segList, params.integration_finite).convminx
         seg = Segment(ub[i],ub[i+1], fun)
@@ -819,6 +823,8 @@ def convmax(f, g):
         ub=ub[0:-1]
     for i in range(len(ub)-1) :
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2.0, op)
+        if len(segList) == 0: # no density here
+            continue
         #fun = partial(convmaxx, segList)
         fun = Convxrunner(segList, params.integration_finite).convmaxx
         seg = Segment(ub[i],ub[i+1], fun)
@@ -952,6 +958,8 @@ def convprod(f, g):
         ub=ub[0:-1]
     for i in range(len(ub)-1) :
         segList = _findSegList(f, g, (ub[i] + ub[i+1])/2, op)
+        if len(segList) == 0: # no density here
+            continue
         #fun = partial(convprodx, segList)
         fun = Convxrunner(segList, params.integration_finite).convprodx
         _NoL = False
@@ -1153,6 +1161,8 @@ def convdiv(f, g):
         ub=ub[0:-1]
     for i in range(len(ub)-1) :
         segList = _findSegListDiv(f, g, (ub[i] + ub[i+1])/2)
+        if len(segList) == 0: # no density here
+            continue
         #fun = partial(fun_div, segList)
         fun = Convxrunner(segList, params.integration_infinite).fun_div
         _NoL = False
-- 
2.43.0


From 175c4f1f8e8d075391eec9ba736ba17b11193486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:39 +0000
Subject: [PATCH 07/97] fix: sign of a random variable has no atoms of zero
 mass

---
 pacal/distr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 8a76309..7a6dba1 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1106,10 +1106,9 @@ class SignDistr(DiscreteDistr):
         else:
             prZero = diracZero.f
         prMinus = float(self.d.cdf(0)) - prZero
-        if prZero > 0:
-            xi = [-1,0,1]; pi=[prMinus, prZero, prPlus]
-        else:
-            xi = [-1,1]; pi=[prMinus, prPlus]
+        px = [(x, p) for x, p in [(-1, prMinus), (0, prZero), (1, prPlus)] if p > 0]
+        xi = [x for x, p in px]
+        pi = [p for x, p in px]
         super(SignDistr, self).__init__(xi, pi)
         self.parents = [d]
     def __str__(self):
-- 
2.43.0


From 1177446a012f10cc7664585ddb06e6bb39831cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:25 +0000
Subject: [PATCH 08/97] fix: integral of a segment over an interval it does not
 meet is zero

---
 pacal/segments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 46691b0..ac9131e 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -493,6 +493,8 @@ class ConstSegment(Segment):
             a=self.a
         if b==None or b>self.b:
             b=self.b
+        if a >= b: # nothing in common
+            return 0.0
         return self.const*(b-a)
     #def f(self, x):
     #    return 0.0*x + self.const
@@ -808,7 +810,7 @@ class SegmentWithPole(Segment):
             a = self.a
         if b == None or b > self.b:
             b = self.b
-        if a == b:
+        if a >= b: # nothing in common
             return 0.0
         if self.hasLeftPole() and a == self.a:
             i,e = integrate_fejer2_Xn_transformP(self, a, b)
-- 
2.43.0


From 2d7124d745e698a0eaa018e5d375190813adad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:00 +0000
Subject: [PATCH 09/97] fix: quotient of a density and an atom evaluates the
 density at x*a

---
 pacal/indeparith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 0d71532..47a9c04 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -568,7 +568,7 @@ class Convxrunner(object):
                 e = 0.0
                 assert (segi.a != 0.0)
             elif segi.isSegment() and segj.isDirac():
-                i = segj.f*segi.f(segj.a)*abs(segj.a)
+                i = segj.f*segi.f(x*segj.a)*abs(segj.a)
                 e = 0.0
                 assert (segj.a != 0.0)
             I += i
@@ -617,7 +617,7 @@ class Convxrunner(object):
 
             elif segi.isSegment() and segj.isDirac():
                 assert (segj.a != 0.0)
-                i = segj.f * segi.f(segj.a) * abs(segj.a)
+                i = segj.f * segi.f(x*segj.a) * abs(segj.a)
                 e = 0
             I += i
             err += e
-- 
2.43.0


From f94bb011a472c6ed29cf6ada66e41e433e4fd83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 10/97] fix: quotient keeps the atom at zero of the numerator
 over a density

---
 pacal/indeparith.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 47a9c04..68b0548 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1202,6 +1202,13 @@ def convdiv(f, g):
         fg_discr = convdiracs(f, g, fun = operator.div)
     for seg in fg_discr.getDiracs():
         fg.addSegment(seg)
+    dirac_at_zero = _probDiracAtZeroInDiv(f, g)
+    if dirac_at_zero is not None:
+        seg0 = fg.getDirac(0.0)
+        if seg0 is not None:
+            seg0.f = seg0.f + dirac_at_zero.f
+        else:
+            fg.addSegment(dirac_at_zero)
     return fg
 
 #def convdivx(segList, xx):
@@ -1437,6 +1444,20 @@ def _probDiracAtZeroInProd(f, g):
         return DiracSegment(0, intf + intg)
     else:
         return None
+def _probDiracAtZeroInDiv(f, g):
+    """return None or DiracSegment at point 0 for the quotient of f and the
+    continuous part of g
+    """
+    fi = f.getDirac(0.0)
+    if fi is None:
+        return None
+    mass = 0
+    for seg in g.getSegments():
+        mass += seg.integrate() * fi.f
+    if mass > 0.0:
+        return DiracSegment(0, mass)
+    else:
+        return None
 
 def _probDiracsInMin(f, g):
     """return discrete part of convmin
-- 
2.43.0


From eed56c441f0120882ddc90099ebdc55fd22cf873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:58 +0000
Subject: [PATCH 11/97] fix: pole interpolation is independent of the width of
 the interval

---
 pacal/interpolation.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index c1f33fe..3d877c4 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -606,16 +606,17 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         else:
             offset = abs(a) * finfo(double).eps
         self.offset = offset
+        self.fscale = float(b - a) # makes the log transform independent of the width of the interval
         super(PoleInterpolatorP, self).__init__(_wrap_f(self.spec_f),
                                                 self.xtinv(self.orig_a), self.xtinv(self.orig_b),
                                                 *args, **kwargs)
     def spec_f(self, x):
-        return log1p(self.sign * self.wrapped_f(self.xt(x)))
+        return log1p(self.sign * self.wrapped_f(self.xt(x)) * self.fscale)
     def interp_at(self, x):
-        y = self.sign * expm1(abs(super(PoleInterpolatorP, self).interp_at(self.xtinv(x))))
+        y = self.sign * expm1(abs(super(PoleInterpolatorP, self).interp_at(self.xtinv(x)))) / self.fscale
         return y
     def getNodes(self):
-        return self.xt(self.Xs), self.sign * expm1(self.Ys)
+        return self.xt(self.Xs), self.sign * expm1(self.Ys) / self.fscale
     def test_accuracy_tmp(self, new_Xs, new_Ys):
         """Test accuracy by comparing true and interpolated values at
         given points."""
@@ -627,7 +628,7 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         Ys = concatenate(([self.Ys[0]], self.Ys))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
+        Ys = exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset) / self.fscale
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
@@ -653,16 +654,17 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         else:
             offset = abs(b) * finfo(double).eps
         self.offset = offset
+        self.fscale = float(b - a) # makes the log transform independent of the width of the interval
         super(PoleInterpolatorN, self).__init__(_wrap_f(self.spec_f),
                                                 self.xtinv(self.orig_a), self.xtinv(self.orig_b),
                                                 *args, **kwargs)
     def spec_f(self, x):
-        return log1p(self.sign * self.wrapped_f(self.xt(x)))
+        return log1p(self.sign * self.wrapped_f(self.xt(x)) * self.fscale)
     def interp_at(self, x):
-        y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
+        y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x))) / self.fscale
         return y
     def getNodes(self):
-        return self.xt(self.Xs), expm1(self.Ys)
+        return self.xt(self.Xs), expm1(self.Ys) / self.fscale
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
@@ -674,7 +676,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         Ys = concatenate((self.Ys, [self.Ys[-1]]))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
+        Ys = exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1) / self.fscale
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
-- 
2.43.0


From 43e1f135d20eacade2345154ba6b916763cbe2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:28 +0000
Subject: [PATCH 12/97] fix: sin of a variable inverts the sine correctly on
 [pi/2, 3pi/2]

---
 pacal/distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 7a6dba1..8371d72 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1000,7 +1000,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         return True
 
 def _pi_m_arcsin(x):
-    return 2*pi-arccos(x)
+    return pi-numpy.arcsin(x)
 def _arcsin_der1(x):
     return (1-x**2)**(-0.5)
 def _arcsin_der2(x):
-- 
2.43.0


From 7576116e43ed1739dffdcf5564923a50783ac71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:28 +0000
Subject: [PATCH 13/97] fix: functions of a variable keep the poles of its
 density

probComposition, probInverse, squareComposition and absComposition dropped
the poles of the segments they were applied to and missed the ones which
appear where the derivative of the inverse is infinite (sin, cos) or where
a slowly decreasing tail is mapped to a finite point (atan, tanh, 1/x).
---
 pacal/segments.py | 91 ++++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 41 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index ac9131e..bba45b7 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -35,8 +35,11 @@ def prob_comp_fun(f, ginv, ginvderiv, x):
             y = f(ginv(x)) * abs(ginvderiv(x))
         except ArithmeticError:
             y = 0
+        if not isfinite(y):
+            y = 0
     else:
-        y = _safe_call(f(ginv(x)) * abs(ginvderiv(x)))
+        y = f(ginv(x)) * abs(ginvderiv(x))
+        y[~isfinite(y)] = 0
     return y
 def call_segint(seg, y0, x):
     if isscalar(x):
@@ -85,6 +88,13 @@ def _op_one_over_xsqaure(x):
         y[mask] = 1.0 / (x[mask])**2
     return y
 
+def _segment_with_ends(a, b, f, left_pole, right_pole):
+    """Finite segment on [a, b] with the given kind of ends."""
+    if left_pole:
+        return SegmentWithPole(a, b, f, left_pole = True)
+    if right_pole:
+        return SegmentWithPole(a, b, f, left_pole = False)
+    return Segment(a, b, f)
 def _prob_composition(f, ginv, ginvderiv, x):
     return f(ginv(x)) * abs(ginvderiv(x))
 def _prob_composition2(f, ginv, ginvderiv, x):
@@ -342,18 +352,26 @@ class Segment(object):
             else:
                 return MInfSegment(g(self.a), fun)
         else:
+            # poles of the density are carried over, new ones appear
+            # where the derivative of the inverse is infinite
+            pole_a, pole_b = self._imagePoles(g, ginvderiv)
+            increasing = g(self.a) < g(self.b)
+            if isinf(self.a):
+                pole_a = testPole(fun, g(self.a), pos = increasing, deriv = False)
+            if isinf(self.b):
+                pole_b = testPole(fun, g(self.b), pos = not increasing, deriv = False)
             if g(self.a) < g(self.b):
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.a), g(self.b), fun)
-                else:
-                    return Segment(g(self.a),g(self.b), fun)
+                pole_a = pole_a or (g(self.a)==0.0 and pole_at_zero)
+                return _segment_with_ends(g(self.a), g(self.b), fun, pole_a, pole_b)
             elif g(self.a) == g(self.b):
                 return DiracSegment(g(self.a), self.integrate())
             else:
-                if g(self.b)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.b), g(self.a), fun, left_pole = False)
-                else:
-                    return Segment(g(self.b),g(self.a), fun)
+                pole_b = pole_b or (g(self.b)==0.0 and pole_at_zero)
+                return _segment_with_ends(g(self.b), g(self.a), fun, pole_b, pole_a)
+    def _imagePoles(self, g, ginvderiv):
+        """Does the density of g(X) have poles at the images of the ends?"""
+        ginf = isinf(ginvderiv(array([g(self.a), g(self.b)], dtype=float)))
+        return self.hasLeftPole() or ginf[0], self.hasRightPole() or ginf[1]
     # TODO: unused
     def probInverse(self, pole_at_zero = False): # TODO unused ??
         """It produce probalilistic composition g o f for a given distribution f
@@ -375,21 +393,15 @@ class Segment(object):
             else:
                 return MInfSegment(g(self.a), fun)
         else:
-            if g(self.a)<=g(self.b):
-                #return Segment(g(self.a)+8* finfo(float).eps,g(self.b)-4* finfo(float).eps, fun)
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.a), g(self.b), fun)
-                else:
-                    return Segment(g(self.a), g(self.b), fun)
-
-            else:
-                #return Segment(g(self.b)+4* finfo(float).eps,g(self.a)-4* finfo(float).eps, fun)
-                #return Segment(g(self.b), g(self.a), fun)
-                if g(self.a)==0.0 and pole_at_zero:
-                    return SegmentWithPole(g(self.b), g(self.a), fun)
-                else:
-                    return Segment(g(self.b), g(self.a), fun)
-
+            pole_a, pole_b = self.hasLeftPole(), self.hasRightPole()
+            if self.isMInf():
+                pole_a = pole_at_zero or self._heavyTail()
+            if self.isPInf():
+                pole_b = pole_at_zero or self._heavyTail()
+            return _segment_with_ends(g(self.b), g(self.a), fun, pole_b, pole_a)
+    def _heavyTail(self):
+        """Does the density decrease slower than x**-2 at infinity?"""
+        return self.tailexp() > -2 + 1e-6
     def squareComposition(self):
         """Produce square of a random variable X^2 ~ f for a given distribution f over segment [a,b]
         we assume that:  a * b >= 0
@@ -404,18 +416,14 @@ class Segment(object):
             if (isinf(self.b)):
                 return PInfSegment(g(self.a), partial(_prob_composition, self.f, ginv, ginvderiv))
             else:
-                if self.a>0:
-                    return Segment(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
+                return _segment_with_ends(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv),
+                                          self.a==0 or self.hasLeftPole(), self.hasRightPole())
         else:
             if (isinf(self.a)):
                 return PInfSegment(g(self.b), partial(_prob_composition2, self.f, ginv, ginvderiv))
             else:
-                if self.b<0:
-                    return Segment(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
+                return _segment_with_ends(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv),
+                                          self.b==0 or self.hasRightPole(), self.hasLeftPole())
 
     def absComposition(self):
         """It produce absolute value of random variable |X| o f for a given distribution f over segment [a,b]
@@ -432,19 +440,14 @@ class Segment(object):
             if (isinf(self.b)):
                 return PInfSegment(g(self.a), partial(_prob_composition, self.f, ginv, ginvderiv))
             else:
-                if self.a>0:
-                    return Segment(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv))
+                return _segment_with_ends(g(self.a), g(self.b), partial(_prob_composition, self.f, ginv, ginvderiv),
+                                          self.hasLeftPole(), self.hasRightPole())
         else:
             if (isinf(self.a)):
                 return PInfSegment(g(self.b), partial(_prob_composition2, self.f, ginv, ginvderiv))
             else:
-                if self.b<0:
-                    return Segment(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
-                else:
-                    return SegmentWithPole(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv))
-
+                return _segment_with_ends(g(self.b), g(self.a), partial(_prob_composition2, self.f, ginv, ginvderiv),
+                                          self.hasRightPole(), self.hasLeftPole())
 
     def __lt__(self, other):
         if (self.a <= other.a and self.b < other.b) or (self.a < other.a and self.b <= other.b)  :
@@ -1395,6 +1398,9 @@ class PiecewiseFunction(object):
     def copyComposition(self, f, finv, finvDeriv, pole_at_zero = False):
         """Composition with injective function f"""
         self_with_zero = self.splitByPoints([0])
+        mids = [0.5 * (seg.a + seg.b) for seg in self_with_zero.segments
+                if not seg.isDirac() and not seg.isMorPInf() and all(seg._imagePoles(f, finvDeriv))]
+        self_with_zero = self_with_zero.splitByPoints(mids)
         copyFunction = self.__class__([])
         for seg in self_with_zero.segments:
             segcomp = seg.probComposition(f, finv, finvDeriv, pole_at_zero = pole_at_zero)
@@ -1437,6 +1443,9 @@ class PiecewiseFunction(object):
     def copySquareComposition(self):
         """Composition with x^2"""
         fun = self.splitByPoints([0.0])
+        # a pole appears at zero, segments with the other end infinite need splitting
+        fun = fun.splitByPoints([0.5 * (seg.a + seg.b) for seg in fun.segments if not seg.isMorPInf()
+                                 and (seg.a == 0 and seg.hasRightPole() or seg.b == 0 and seg.hasLeftPole())])
         copyFunction = self.__class__([])
         leftFunction = self.__class__([])
         rightFunction = self.__class__([])
-- 
2.43.0


From 23b0a6170834b233f5f0af6a3101a66ba7a72216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:28 +0000
Subject: [PATCH 14/97] fix: sigmoid of a number

---
 pacal/distr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 8371d72..9e509c2 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -778,10 +778,10 @@ class SigmoidDistr(FuncDistr):
             y[mask] = 1.0 / (x[mask] * (1 - x[mask]))
         return y
 
-def sigmoid(d):
+def sigmoid(x):
     """Overload the tanh function."""
-    if isinstance(d, Distr):
-        return SigmoidDistr(d)
+    if isinstance(x, Distr):
+        return SigmoidDistr(x)
     if isscalar(x):
         if x > 0:
             y = 1.0 / (1.0 + numpy.exp(-x))
-- 
2.43.0


From f8d06e7d31dea266d0cd33a28d0a63274063a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:10 +0000
Subject: [PATCH 15/97] fix: consecutive shifts of a density with a pole are
 merged

1/2 - (1/2 - X**2) had infinite total mass.
---
 pacal/segments.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index bba45b7..8ab611c 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -54,6 +54,13 @@ def call_segint2(seg, y0, x):
 
 def _shift_and_scale(f, one_over_scale, shift, x):
     return abs(one_over_scale) * f((x - shift) * one_over_scale)
+def _shifted_and_scaled(f, one_over_scale, shift):
+    """Shift and scale f; consecutive shifts are merged, a sequence of
+    them would lose the digits which matter close to a pole."""
+    if isinstance(f, partial) and f.func is _shift_and_scale:
+        f, s, t = f.args
+        return partial(_shift_and_scale, f, s * one_over_scale, shift + t / one_over_scale)
+    return partial(_shift_and_scale, f, one_over_scale, shift)
 
 def _op_rsub(x, y):
     return y - x
@@ -331,7 +338,7 @@ class Segment(object):
         else:
             a = self.b
             b = self.a
-        return Segment(a * scale + shift, b * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift))
+        return Segment(a * scale + shift, b * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift))
     def probComposition(self, g, ginv, ginvderiv, pole_at_zero = False):
         """It produce probabilistic composition g o f for a given distribution f
         """
@@ -578,9 +585,9 @@ class MInfSegment(Segment):
         """
         _1_scale = 1.0 / scale
         if scale > 0:
-            return MInfSegment(self.b * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift))
+            return MInfSegment(self.b * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift))
         else:
-            return PInfSegment(self.b * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift))
+            return PInfSegment(self.b * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift))
     def isMInf(self):
         return True
     def tailexp(self):
@@ -667,9 +674,9 @@ class PInfSegment(Segment):
         """
         _1_scale = 1.0 / scale
         if scale > 0:
-            return PInfSegment(self.a * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift))
+            return PInfSegment(self.a * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift))
         else:
-            return MInfSegment(self.a * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift))
+            return MInfSegment(self.a * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift))
     def isPInf(self):
         return True
     def tailexp(self):
@@ -836,9 +843,9 @@ class SegmentWithPole(Segment):
         """
         _1_scale = 1.0 / scale
         if scale > 0:
-            return SegmentWithPole(self.a * scale + shift, self.b * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift), left_pole = self.left_pole)
+            return SegmentWithPole(self.a * scale + shift, self.b * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift), left_pole = self.left_pole)
         else:
-            return SegmentWithPole(self.b * scale + shift, self.a * scale + shift, partial(_shift_and_scale, self.f, _1_scale, shift), left_pole = not self.left_pole)
+            return SegmentWithPole(self.b * scale + shift, self.a * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift), left_pole = not self.left_pole)
     def cumint(self, y0 = 0.0):
         """indefinite integral over interval (a, x)"""
         return SegmentWithPole(self.a , self.b, partial(call_segint, self, y0), left_pole = self.left_pole)
-- 
2.43.0


From 93737ec6300775759462b21f4622e5960843e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:22 +0000
Subject: [PATCH 16/97] fix: functions of integer arrays give real values

---
 pacal/distr.py          |  4 ++--
 pacal/interpolation.py  |  6 +++---
 pacal/segments.py       | 10 +++++-----
 pacal/standard_distr.py | 22 +++++++++++-----------
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 9e509c2..73793e4 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -35,7 +35,7 @@ def _mgf_fun(distr, t):
     if isscalar(t):
         return distr.meanf(f=lambda x: exp(t*x))
     else:
-        y = zeros_like(t)
+        y = zeros_like(t, dtype=float)
         for i in range(len(t)):
             y[i] = _mgf_fun(distr, t[i])
         return y
@@ -979,7 +979,7 @@ class FuncNoninjectiveDistr(OpDistr):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
         X = self.d.rand(n, cache)
-        Y = zeros_like(X)
+        Y = zeros_like(X, dtype=float)
         for i in range(len(self.intervals)):
             mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
             Y[mask] = self.fs[i](X[mask])
diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 3d877c4..1fcfa3f 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -538,7 +538,7 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
             return y
         else:
             x = asarray(x, dtype=float)
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x <= self.orig_b)
             y[mask] = exp(super(LogTransformInterpolator, self).interp_at(self.xtinv(x[mask])))
         return y
@@ -725,7 +725,7 @@ class ZeroNeighborhoodInterpolator(object):
     def interp_at(self, xx):
         if size(xx) == 1:
             xx = array([xx])
-        y = zeros_like(xx)
+        y = zeros_like(xx, dtype=float)
         for j in range(len(xx)):
             x = xx[j]
             for I in self.interps:
@@ -1018,7 +1018,7 @@ if __name__ == "__main__":
         if isscalar(x):
             return 0 if x < 0 else 1.0 / coeffs[kk] * x ** (kk / 2.0 - 1.0) * exp(-x / 2.0)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x >= 0] = 1.0 / coeffs[kk] * x[x >= 0] ** (kk / 2.0 - 1.0) * exp(-x[x >= 0] / 2.0)
         return y
     #ci = ChebyshevInterpolator_PInf(cauchy, 1)
diff --git a/pacal/segments.py b/pacal/segments.py
index 8ab611c..28a3f28 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -91,7 +91,7 @@ def _op_one_over_xsqaure(x):
             y = np.inf
     else:
         mask = (x != 0.0)
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[mask] = 1.0 / (x[mask])**2
     return y
 
@@ -171,7 +171,7 @@ class Segment(object):
                 return self.f(x)
             else:
                 return 0
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         ind = where((x>=self.a) & (x<=self.b))
         if len(ind)>0:
             y[ind] = self.f(x[ind])
@@ -694,7 +694,7 @@ class DiracSegment(Segment):
         if isscalar(x):
             y = (x==self.a) * 1
         else:
-            y=zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x==self.a] = 1 # TODO it should be Inf or self.f
         return y
     def integrate(self, a, b):
@@ -968,7 +968,7 @@ class InterpolatedSegmentWithPole2(InterpolatedSegmentWithPole):
         if isscalar(x):
             x=array(x)
         ind = where((x>=self.a) & (x<=self.b))
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[ind] = self.f(x[ind])/abs(x[ind]-self.pole) ** self.exponent
         return y
 
@@ -1087,7 +1087,7 @@ class PiecewiseFunction(object):
             return None
         else:
             # iterate over segments
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             for seg in self.getSegments():#segments:
                 ind = ((x>=seg.a) & (x<seg.b))
                 if ind.any():
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 872caa6..2854a6a 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -331,7 +331,7 @@ class ExponentialDistr(Distr):
             else:
                 y = self.lmbda * exp(-self.lmbda * x)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0)
             y[mask] = self.lmbda * exp(-self.lmbda * x[mask])
         return y
@@ -378,7 +378,7 @@ class GammaDistr(Distr):
             else:
                 y = exp(self.log_pdf(x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = exp(self.log_pdf(x[mask]))
             mask_zero = (x == 0)
@@ -421,7 +421,7 @@ class BetaDistr(Distr):
             else:
                 y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
             y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
         return y
@@ -471,7 +471,7 @@ class ParetoDistr(Distr):
             else:
                 y = self.nrm / x ** (self.alpha + 1)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= self.xmin)
             y[mask] = self.nrm / x[mask] ** (self.alpha + 1)
         return y
@@ -503,7 +503,7 @@ class LevyDistr(Distr):
             else:
                 y = self.nrm * exp(log(x - self.xmin)*(-1.5) -0.5 * self.c / (x - self.xmin))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > self.xmin)
             y[mask] = self.nrm * exp(log(x[mask] - self.xmin)*(-1.5) -0.5 * self.c / (x[mask] - self.xmin))
         return y
@@ -587,7 +587,7 @@ class SemicircleDistr(Distr):
                 y = self.norm * sqrt(self.R*self.R - x*x)
         else:
             mask = (-self.R <= x) & (x <= self.R)
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[mask] = self.norm * sqrt(self.R*self.R - x*x)
         return y
     def init_piecewise_pdf(self):
@@ -628,7 +628,7 @@ class FDistr(Distr):
                 lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x) - (self.df1 + self.df2) * log(self.df1 * x + self.df2)) - log(x)
                 y = exp(lgy)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x==0] = self.pdf_at_0
             mask = (x > 0)
             lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x[mask]) - (self.df1 + self.df2) * log(self.df1 * x[mask] + self.df2)) - log(x[mask])
@@ -680,7 +680,7 @@ class WeibullDistr(Distr):
             else:
                 y = self.nrm * exp(log(x / self.lmbda)*(self.k-1) - (x / self.lmbda)**self.k)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = self.nrm * exp(log(x[mask] / self.lmbda)*(self.k-1) - (x[mask] / self.lmbda)**self.k)
             mask_zero = (x == 0)
@@ -765,7 +765,7 @@ class FrechetDistr(Distr):
             else:
                 y = self.nrm * exp(-(self.alpha+1) * log(t) - t ** (-self.alpha))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (t > 0)
             y[mask] = self.nrm * exp(-(self.alpha+1) * log(t[mask]) - t[mask] ** (-self.alpha))
         return y
@@ -818,7 +818,7 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         mask = (x >= 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
@@ -877,7 +877,7 @@ class MollifierDistr(Distr):
                 t = x / self.epsilon
                 y = self.nrm * exp(-1.0 / (1 - t*t))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (abs(x) < self.epsilon)
             y[mask] = self.nrm * exp(-1.0 / (1 - (x[mask] / self.epsilon)**2))
         return y
-- 
2.43.0


From fda8df2b15cc86a49ec116697d50bb09a1b9f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 17/97] fix: declared ranges of derived, discrete and
 conditioned variables

---
 pacal/distr.py          | 28 ++++++++++++++++---
 pacal/rv.py             | 61 +++++++++++++++++++++++++++++++----------
 pacal/standard_distr.py |  2 ++
 3 files changed, 72 insertions(+), 19 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 73793e4..b6bcfe1 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -29,6 +29,7 @@ from . import params
 from pacal.indeparith import conv, convprod, convdiv, convmin, convmax
 from pacal.segments import PiecewiseFunction, PiecewiseDistribution, DiracSegment, ConstSegment
 from pacal.rv import *
+from pacal.rv import _image_range, _abs_range
 
 
 def _mgf_fun(distr, t):
@@ -371,7 +372,7 @@ class Distr(RV):
         m = self.median()
         iqr = self.iqrange(0.25)
         c = self.interval(0.95)
-        r = self.range()
+        r = self.range_()
         if isfinite(r[0]) and isfinite(r[1]):
             return [r[0], c[0], m, c[1], r[1]]
         elif isfinite(r[0]):
@@ -561,6 +562,7 @@ class FuncDistr(FuncRV, OpDistr):
     """Injective function of random variable"""
     def __init__(self, d, pole_at_zero = False, fname = "f", sym = None):
         super(FuncDistr, self).__init__(d, sym = sym, fname = fname)
+        self.a, self.b = self.f_range(d.range())
         self.pole_at_zero = pole_at_zero
 # functions need to be implemented directly (not passed to constructor)
 #        self.f = f
@@ -576,6 +578,9 @@ class FuncDistr(FuncRV, OpDistr):
 
     def f_inv_deriv(self, x):
         pass
+    def f_range(self, r):
+        """Range of f over the range r of the argument."""
+        return _image_range(self.f, r)
     def pdf(self, x):
         y = self.d.pdf(self.f_inv(x)) * abs(self.f_inv_deriv(x))
         if isscalar(x):
@@ -896,6 +901,7 @@ class AbsDistr(OpDistr):
     """Absolute value of a distribution."""
     def __init__(self, d):
         super(AbsDistr, self).__init__([d])
+        self.a, self.b = _abs_range(d.range())
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
@@ -921,6 +927,7 @@ class SquareDistr(OpDistr):
     """Injective function of random variable"""
     def __init__(self, d):
         super(SquareDistr, self).__init__([d])
+        self.a, self.b = _image_range(lambda x: x**2, _abs_range(d.range()))
         self.d = d
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
@@ -961,6 +968,11 @@ class FuncNoninjectiveDistr(OpDistr):
         self.fname = fname
         self.d = d
         super(FuncNoninjectiveDistr, self).__init__([d])
+        a, b = d.range()
+        parts = [_image_range(f, (max(a, i[0]), min(b, i[1])))
+                 for i, f in zip(self.intervals, self.fs) if a <= i[1] and i[0] <= b]
+        if len(parts) > 0:
+            self.a, self.b = min(p[0] for p in parts), max(p[1] for p in parts)
     def pdf(self, x):
         return self.get_piecewise_pdf()(x)
 #    def pdf(self, x):
@@ -1056,6 +1068,10 @@ class TanDistr(FuncDistr):
     def f_inv_deriv(self, x):
         y = 1.0 / (1 + x**2)
         return y
+    def f_range(self, r):
+        if r[0] <= -pi/2 or r[1] >= pi/2:
+            return -Inf, Inf
+        return super(TanDistr, self).f_range(r)
 
 def tan(d):
     """Overload the exp function."""
@@ -1074,6 +1090,7 @@ class DiscreteDistr(Distr):
         self.xi = [p[0] for p in px]
         self.pi = [p[1] for p in px]
         self.cumP = cumsum(self.pi)
+        self.a, self.b = self.xi[0], self.xi[-1]
     def pdf(self, x):
         """it override pdf() method to obtain discrete probabilities"""
         x = asarray(x)
@@ -1261,7 +1278,8 @@ class CondGtDistr(Distr):
             k = len(tab)
         return tab[0:n] #self.rand_invcdf(n)
     def range(self):
-        return self.L, self.d.range()[1]
+        a, b = self.d.range()
+        return max(self.L, a), b
 
 class CondLtDistr(Distr):
     def __init__(self, d, U=None, **kwargs):
@@ -1279,7 +1297,8 @@ class CondLtDistr(Distr):
     def rand_raw(self, n):
         return self.rand_invcdf(n)
     def range(self):
-        return self.d.range()[0], self.U
+        a, b = self.d.range()
+        return a, min(self.U, b)
 
 class CondBetweenDistr(Distr):
     def __init__(self, d, L=None, U=None, **kwargs):
@@ -1303,7 +1322,8 @@ class CondBetweenDistr(Distr):
     def rand_raw(self, n):
         return self.rand_invcdf(n)
     def range(self):
-        return self.L, self.U
+        a, b = self.d.range()
+        return max(self.L, a), min(self.U, b)
 
 class Condition(object):
     pass
diff --git a/pacal/rv.py b/pacal/rv.py
index c0f29f1..cddccf1 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -4,8 +4,6 @@ import numbers
 from os import getpid
 
 import numpy
-from numpy import unique
-from numpy import add, subtract, divide, prod, multiply
 
 import sympy
 from sympy import var
@@ -13,6 +11,31 @@ from sympy import var
 from . import params
 from .sympy_utils import sympy_min, sympy_max, sympy_abs
 
+def _image_range(f, r):
+    """Range of a monotone function of a variable of range r."""
+    with numpy.errstate(all="ignore"):
+        y = [float(f(numpy.float64(x))) for x in r]
+    if numpy.isnan(y).any():
+        return -numpy.inf, numpy.inf
+    return min(y), max(y)
+def _abs_range(r):
+    a, b = r
+    if a <= 0 <= b:
+        return 0.0, max(-a, b)
+    return min(abs(a), abs(b)), max(abs(a), abs(b))
+def _inv_range(r):
+    a, b = r
+    if a < 0 < b or a == b == 0:
+        return -numpy.inf, numpy.inf
+    if a == 0:
+        return 1.0 / b, numpy.inf
+    if b == 0:
+        return -numpy.inf, 1.0 / a
+    return 1.0 / b, 1.0 / a
+def _mul_range(r1, r2):
+    prods = [x * y if x != 0 and y != 0 else 0.0 for x in r1 for y in r2]
+    return min(prods), max(prods)
+
 class RV(object):
     def __init__(self, parents = [], sym = None, a=0.0, b=1.0):
         self.parents = parents
@@ -333,8 +356,9 @@ class ShiftedScaledRV(OpRV):
         self.shift = shift
         self.scale = scale
         super(ShiftedScaledRV, self).__init__([d], sym = (d.getSymname() * self.scale + self.shift))
-        a = d.a * self.scale + self.shift
-        b = d.b * self.scale + self.shift
+        a, b = d.range()
+        a = a * self.scale + self.shift
+        b = b * self.scale + self.shift
         self.a, self.b = min(a, b), max(a, b)
         self.d = d
     def __str__(self):
@@ -362,6 +386,7 @@ class ExpRV(FuncRV):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpRV, self).__init__(d, fname = "exp", sym = sympy.exp(d.getSymname()))
+        self.a, self.b = _image_range(numpy.exp, d.range())
     def is_nonneg(self):
         return True
 class LogRV(FuncRV):
@@ -370,21 +395,25 @@ class LogRV(FuncRV):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
         super(LogRV, self).__init__(d, fname = "log", sym = sympy.log(d.getSymname()))
+        self.a, self.b = _image_range(numpy.log, d.range())
 
 class AtanRV(FuncRV):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
         super(AtanRV, self).__init__(d, fname ="atan", sym = sympy.atan(d.getSymname()))
+        self.a, self.b = _image_range(numpy.arctan, d.range())
 
 class TanhRV(FuncRV):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
         super(TanhRV, self).__init__(d, fname ="tanh", sym = sympy.tanh(d.getSymname()))
+        self.a, self.b = _image_range(numpy.tanh, d.range())
 
 class InvRV(OpRV):
     """Inverse of random variable."""
     def __init__(self, d):
         super(InvRV, self).__init__([d], sym = 1 / d.getSymname())
+        self.a, self.b = _inv_range(d.range())
         self.d = d
     def __str__(self):
         return "1/#{0}".format(self.d.id())
@@ -400,6 +429,7 @@ class PowRV(FuncRV):
     """Inverse of random variable."""
     def __init__(self, d, alpha = 1):
         super(PowRV, self).__init__([d], fname="pow", sym = d.getSymname()**alpha)
+        self.a, self.b = _image_range(lambda x: x**alpha, d.range())
         self.d = d
         self.alpha = alpha
     def __str__(self):
@@ -411,6 +441,7 @@ class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
         super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymame())) # TODO abs unpleasant in sympy
+        self.a, self.b = _abs_range(d.range())
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
@@ -421,6 +452,7 @@ class SignRV(RV):
     def __init__(self, d):
         self.d = d
         super(SignRV, self).__init__(d, sym = sympy.sign(d.getSymname()))
+        self.a, self.b = _image_range(numpy.sign, d.range())
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
@@ -430,6 +462,7 @@ class SquareRV(OpRV):
     """Injective function of random variable"""
     def __init__(self, d):
         super(SquareRV, self).__init__([d], sym = d.getSymname()**2)
+        self.a, self.b = _image_range(lambda x: x**2, _abs_range(d.range()))
         self.d = d
     def __str__(self):
         return "#{0}**2".format(self.d.id())
@@ -462,7 +495,7 @@ class SubRV(OpRV):
         #self.a, self.b = min(breaks), max(breaks)
         a1, b1 = d1.range()
         a2, b2 = d2.range()
-        self.a, self.b = a1-a2, b1-b2
+        self.a, self.b = a1-b2, b1-a2
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -476,8 +509,7 @@ class SubRV(OpRV):
 class MulRV(OpRV):
     def __init__(self, d1, d2):
         super(MulRV, self).__init__([d1, d2], sym = d1.getSymname() * d2.getSymname())
-        breaks = unique(multiply.outer(d1.range(), d2.range()))
-        self.a, self.b = min(breaks), max(breaks)
+        self.a, self.b = _mul_range(d1.range(), d2.range())
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -492,14 +524,7 @@ class MulRV(OpRV):
 class DivRV(OpRV):
     def __init__(self, d1, d2):
         super(DivRV, self).__init__([d1, d2], sym = d1.getSymname() / d2.getSymname())
-        d1range = list(d1.range())
-        d2range = list(d2.range())
-        if prod(d1range)<0:
-            d1range.append(0.0)
-        if prod(d2range)<0:
-            d2range.append(0.0)
-        breaks = unique(divide.outer(d1range, d2range))
-        self.a, self.b = min(breaks), max(breaks)
+        self.a, self.b = _mul_range(d1.range(), _inv_range(d2.range()))
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
@@ -514,6 +539,9 @@ class DivRV(OpRV):
 class MinRV(OpRV):
     def __init__(self, d1, d2):
         super(MinRV, self).__init__([d1, d2], sym = sympy_min(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = min(a1, a2), min(b1, b2)
         self.d1 = d1
         self.d2 = d2
     def __str(self):
@@ -527,6 +555,9 @@ class MinRV(OpRV):
 class MaxRV(OpRV):
     def __init__(self, d1, d2):
         super(MaxRV, self).__init__([d1, d2], sym = sympy_max(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = max(a1, a2), max(b1, b2)
         self.d1 = d1
         self.d2 = d2
     def __str(self):
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 2854a6a..c8b023b 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -59,6 +59,8 @@ class PDistr(Distr):
             self.piecewise_pdf = PiecewiseDistribution();
             for seg in self.segs:
                 self.piecewise_pdf.addSegment(seg)
+    def range(self):
+        return self.range_()
     def getName(self):
         #return "PDISTR({0})".format(self.get_piecewise_pdf())
         return "PDISTR({0},{1})".format(self.get_piecewise_pdf().segments[0].a, self.get_piecewise_pdf().segments[-1].b)
-- 
2.43.0


From 142950181f24c487876dc94bc929bcf43aed7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 18/97] fix: skewness and kurtosis of a constant

---
 pacal/distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index b6bcfe1..cd1f18f 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -168,12 +168,12 @@ class Distr(RV):
         if not self.var() == 0:
             return self.moment(3, self.mean()) / self.var()**1.5
         else:
-            return NaN
+            return numpy.nan
     def kurtosis(self):
         if not self.var() == 0:
             return self.moment(4, self.mean()) / self.var()**2
         else:
-            return NaN
+            return numpy.nan
     def mgf(self):
         return PiecewiseFunction(fun=partial(_mgf_fun, self), breakPoints=self.get_piecewise_pdf().getBreaks())
     def cf(self):
-- 
2.43.0


From b3a5f87862f029df9134eb327cee0e8b51b473c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 19/97] fix: moments of laws with cancelling halves are not nan

---
 pacal/segments.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 28a3f28..bc7d0e3 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1954,8 +1954,14 @@ class PiecewiseDistribution(PiecewiseFunction):
             I = I + i
             absI += abs(i)
         if  absI > 0 and abs(E/absI)>1.0e-3 and abs(absI)>1e-10:
-            #print I, absI, E
-            return np.nan
+            # integrals over single segments may cancel out, the error
+            # has to be compared with the integral of the absolute value
+            for seg in self.getSegments():
+                i, e = _segint(lambda x: abs(nan_to_num(f(x))) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
+                absI += i
+            if not abs(E/absI)<=1.0e-3:
+                #print I, absI, E
+                return np.nan
         return I
 
     def median(self):
-- 
2.43.0


From 54dbadb8290f9c9f2266d554f616cbf47a533d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 20/97] fix: atoms of pointwise operations when only one
 function has an atom

---
 pacal/segments.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index bc7d0e3..3cdfc13 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1685,20 +1685,16 @@ class PiecewiseFunction(object):
         return fun
 
     def op_diracs(self, other, op):
-        """Pointwise operation on discrete parts of two piecewise functions."""
-        ai = []
-        for tmp in self.getDiracs():
-            ai.append(tmp.a)
-        for tmp in other.getDiracs():
-            if not tmp.a in set(ai):
-                ai.append(tmp.a)
-        for dirac in ai:#other.getDiracs():
-            self_dirac = self.getDirac(dirac)
-            other_dirac = other.getDirac(dirac)
-            if self_dirac is None:
-                self.addSegment(DiracSegment(other_dirac.a, other_dirac.f))
-            elif other_dirac is not None:
-                self_dirac.f = op(self_dirac.f,  other_dirac.f)
+        """Diracs of a pointwise operation on two piecewise functions,
+        a function without Dirac at a given point is zero there."""
+        diracs = []
+        for a in unique([d.a for d in self.getDiracs() + other.getDiracs()]):
+            f, g = [0.0 if d is None else float(d.f) for d in (self.getDirac(a), other.getDirac(a))]
+            with numpy.errstate(all="ignore"):
+                y = op(numpy.float64(f), numpy.float64(g))
+            if y != 0:
+                diracs.append(DiracSegment(a, y))
+        return diracs
 
     def _operation__(self, other, operation = operator.add):
         """Pointwise operation on two piecewise functions."""
@@ -1739,8 +1735,8 @@ class PiecewiseFunction(object):
                 fun.addSegment(si)
             else:
                 assert False
-        fun.op_diracs(self, operation)
-        fun.op_diracs(other, operation)
+        for dirac in self.op_diracs(other, operation):
+            fun.addSegment(dirac)
         return fun
 
     def __pow__(self, k):
-- 
2.43.0


From b231b10e6ee0b802223212deb2eba6a0519f8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 21/97] fix: KL distance is infinite when the other law misses
 a part of the support

---
 pacal/segments.py | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 3cdfc13..2b73988 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -18,7 +18,7 @@ from numpy import linspace, multiply, add, divide, size
 from numpy import unique, union1d, isnan, isscalar, diff, size
 from numpy import sign, isinf, isfinite, exp, isneginf, isposinf
 from numpy import logspace, sqrt, minimum, maximum, pi, mean, log10
-from numpy import append, nan_to_num, select
+from numpy import append, nan_to_num, select, where
 from numpy.random import uniform
 from numpy import argmax, argmin
 import numpy
@@ -125,6 +125,10 @@ def _scalar_segfun_op(seg, op, r, x):
     return op(r, seg.f(x))
 def _segfun_segfun_op(seg1, seg2, op, x):
     return op(seg1.f(x), seg2.f(x))
+def _kl_fun(seg1, seg2, x):
+    f, g = seg1.f(x), seg2.f(x)
+    with numpy.errstate(all="ignore"):
+        return where((f > 0) & (g > 0), f * (numpy.log(f) - numpy.log(g)), 0.0)
 
 
 class Segment(object):
@@ -2018,8 +2022,34 @@ class PiecewiseDistribution(PiecewiseFunction):
         return fun.integrate()**0.5
 
     def KL_distance(self, other):
-        fun = self * (self._log() - other._log())
-        return fun.integrate()
+        """Kullback-Leibler divergence, infinite if there is a set of
+        positive probability whose probability under other is zero."""
+        I = 0.0
+        for dirac in self.getDiracs():
+            other_dirac = other.getDirac(dirac.a)
+            if dirac.f == 0:
+                continue
+            if other_dirac is None or other_dirac.f == 0:
+                return numpy.inf
+            I += dirac.f * numpy.log(dirac.f / other_dirac.f)
+        breaks = unique(concatenate((self.getBreaks(), other.getBreaks())))
+        f = self.splitByPoints(breaks)
+        g = other.splitByPoints(breaks)
+        for segf, segg in _makeCommonSegmentList(f, g):
+            if segf is None:
+                continue
+            def integral(fun):
+                # the logarithm may be singular at both ends
+                return _segint(fun, segf.a, segf.b, force_poleL = True, force_poleU = True)[0]
+            if segg is None:
+                lost = integral(segf.f)
+            else:
+                lost = integral(lambda x: where(segg.f(x) > 0, 0.0, segf.f(x)))
+            if lost > 1e-10:
+                return numpy.inf
+            if segg is not None:
+                I += integral(partial(_kl_fun, segf, segg))
+        return I
 
     def tailexp(self):
         segMInf = self.segments[0]
-- 
2.43.0


From e8791cbe6e5105d23f6268e1027a9ea648e32c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 22/97] fix: density of a user defined distribution is zero
 outside its break points

---
 pacal/standard_distr.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index c8b023b..12b575d 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -34,8 +34,6 @@ class FunDistr(Distr):
             kwargs.pop("sym")
         self.kwargs = kwargs
         self.interpolated = interpolated
-    def pdf(self, x):
-        return self.fun(x)
     def getName(self):
         return "FUN({0},{1})".format(self.breakPoints[0], self.breakPoints[-1])
     def init_piecewise_pdf(self):
-- 
2.43.0


From ed6c29262ff34acc800f25872d492f658d35f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:31 +0000
Subject: [PATCH 23/97] fix: pointwise operations keep the pole of the second
 operand

---
 pacal/segments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 2b73988..a06fd38 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1722,8 +1722,10 @@ class PiecewiseFunction(object):
                 seg = segg
             elif segg is None:
                 seg = segf
-            else:
+            elif segf.hasLeftPole() or segf.hasRightPole():
                 seg = segf
+            else:
+                seg = segg
             if seg is None: # only diracs
                 continue
             if seg.isMInf():
-- 
2.43.0


From 6dc30d6d79a228e3d17d95cef9d6c8ed81a7330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 24/97] fix: symbolic abs, sign, sqrt and printing of random
 variables

---
 pacal/rv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index cddccf1..c6c00ac 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -331,7 +331,7 @@ class OpRV(RV):
         if len(self.parents)==2:
             if isinstance(self.getSym(), sympy.Add):
                 op = "+"
-            if isinstance(self.getSym(), sympy.Mul):
+            elif isinstance(self.getSym(), sympy.Mul):
                 op = "*"
             else:
                 op = str(self.getSym().__class__)
@@ -428,19 +428,19 @@ class InvRV(OpRV):
 class PowRV(FuncRV):
     """Inverse of random variable."""
     def __init__(self, d, alpha = 1):
-        super(PowRV, self).__init__([d], fname="pow", sym = d.getSymname()**alpha)
+        super(PowRV, self).__init__(d, fname="pow", sym = d.getSymname()**alpha)
         self.a, self.b = _image_range(lambda x: x**alpha, d.range())
         self.d = d
         self.alpha = alpha
     def __str__(self):
-        return "#{0}**{1}".format(self.d1.id(), self.alpha)
+        return "#{0}**{1}".format(self.d.id(), self.alpha)
     def getName(self):
         return "{0}**{1}".format(_wrapped_name(self.d), self.alpha)
 
 class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymame())) # TODO abs unpleasant in sympy
+        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
         self.a, self.b = _abs_range(d.range())
         self.d = d
     def __str__(self):
@@ -451,7 +451,7 @@ class AbsRV(OpRV):
 class SignRV(RV):
     def __init__(self, d):
         self.d = d
-        super(SignRV, self).__init__(d, sym = sympy.sign(d.getSymname()))
+        super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
         self.a, self.b = _image_range(numpy.sign, d.range())
     def __str__(self):
         return "sign({0})".format(self.d.id())
@@ -544,7 +544,7 @@ class MinRV(OpRV):
         self.a, self.b = min(a1, a2), min(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         #return "min(#{0}, #{1})".format(self.d1.id(), self.d2.id())
         return "min({0},{1})".format(self.d1, self.d2)
     def getName(self):
@@ -560,7 +560,7 @@ class MaxRV(OpRV):
         self.a, self.b = max(a1, a2), max(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         return "max(#{0}, #{1})".format(self.d1.id(), self.d2.id())
     def getName(self):
         return "max({0}, {1})".format(self.d1.getName(), self.d2.getName())
-- 
2.43.0


From 1ce797decfea066a3738524fece5a5a4881254fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 25/97] fix: getParentsAll returns all ancestors

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c6c00ac..e63a083 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -184,7 +184,7 @@ class RV(object):
     def getParentsAll(self):
         l = set([self])
         for p in self.parents:
-            l.update(p.getParentsDep())
+            l.update(p.getParentsAll())
         return l
     def getParentsFree(self):
         l = set()
-- 
2.43.0


From 313d62ca188fc56c82f4cdce650b76d59a812655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 26/97] fix: equations of distinct variables with equal right
 hand sides are all listed

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index e63a083..3ce0cdc 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -114,7 +114,7 @@ class RV(object):
         if node is None:
             node = self
         p = node.parents
-        if not node.getSym().is_Atom and not node.getSym() in set(l):
+        if not node.getSym().is_Atom and not node.getSymname() in set(r):
             l.append(node.getSym())
             r.append(node.getSymname())
         if p is None or len(p)==0:
-- 
2.43.0


From 845e90135815c7f684789524682b71fa18c3455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 27/97] fix: names of differences and sigmoids

---
 pacal/distr.py | 4 ++--
 pacal/rv.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index cd1f18f..df83025 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -744,7 +744,7 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid")
 
     def f(self, x):
         if isscalar(x):
@@ -1007,7 +1007,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         self.f_invs = [lambda x: x**0.5,lambda x: -x**0.5]
         self.f_inv_derivs = [lambda x: 0.5*x**(-0.5),lambda x: -0.5*x**(-0.5)]
         self.pole_at_zero = True
-        super(Sq2Distr, self).__init__(d, fname = "sin")
+        super(Sq2Distr, self).__init__(d, fname = "sqr")
     def is_nonneg(self):
         return True
 
diff --git a/pacal/rv.py b/pacal/rv.py
index 3ce0cdc..b63588c 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -501,7 +501,7 @@ class SubRV(OpRV):
     def __str__(self):
         return "#{0}-#{1}".format(self.d1.id(), self.d2.id())
     def getName(self):
-        n2 = _wrapped_name(self.d2, incl_classes = [SumRV])
+        n2 = _wrapped_name(self.d2, incl_classes = [SumRV, SubRV, ShiftedScaledRV])
         return "{0}-{1}".format(self.d1.getName(), n2)
     def getOperation(self):
         return "-"
-- 
2.43.0


From 29468535eaf76d582555bcf3a175884250f5840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:36 +0000
Subject: [PATCH 28/97] fix: functions of a distribution have a symbolic form

---
 pacal/distr.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index df83025..772eb07 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -9,6 +9,7 @@ from functools import partial
 
 import numpy
 import numpy as np
+import sympy
 from numpy import array, zeros_like, ones_like, unique, concatenate, isscalar, isfinite
 from numpy import sqrt, pi, arctan, tan, asarray, zeros
 #from numpy import sin, cos, tan,
@@ -30,6 +31,7 @@ from pacal.indeparith import conv, convprod, convdiv, convmin, convmax
 from pacal.segments import PiecewiseFunction, PiecewiseDistribution, DiracSegment, ConstSegment
 from pacal.rv import *
 from pacal.rv import _image_range, _abs_range
+from pacal.sympy_utils import sympy_abs
 
 
 def _mgf_fun(distr, t):
@@ -616,7 +618,7 @@ class ExpDistr(FuncDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpDistr, self).__init__(d, pole_at_zero = True,
-                                       fname = "exp")
+                                       fname = "exp", sym = sympy.exp(d.getSymname()))
     def f(self, x):
         return numpy.exp(x)
     def f_inv(self, x):
@@ -638,7 +640,7 @@ class LogDistr(FuncDistr):
     def __init__(self, d):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
-        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log")
+        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log", sym = sympy.log(d.getSymname()))
     def f(self, x):
         return numpy.log(x)
     def f_inv(self, x):
@@ -667,7 +669,8 @@ def sign(d):
 class AtanDistr(FuncDistr):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
-        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan")
+        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan",
+                                        sym = sympy.atan(d.getSymname()))
 
     def f(self, x):
         return numpy.arctan(x)
@@ -705,7 +708,8 @@ def atan(d):
 class TanhDistr(FuncDistr):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
-        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh",
+                                        sym = sympy.tanh(d.getSymname()))
 
     def f(self, x):
         return numpy.tanh(x)
@@ -744,7 +748,8 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid",
+                                           sym = 1 / (1 + sympy.exp(-d.getSymname())))
 
     def f(self, x):
         if isscalar(x):
@@ -900,7 +905,7 @@ class PowDistr(PowRV, OpDistr):
 class AbsDistr(OpDistr):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsDistr, self).__init__([d])
+        super(AbsDistr, self).__init__([d], sym = sympy_abs(d.getSymname()))
         self.a, self.b = _abs_range(d.range())
         self.d = d
     def init_piecewise_pdf(self):
@@ -926,7 +931,7 @@ class AbsDistr(OpDistr):
 class SquareDistr(OpDistr):
     """Injective function of random variable"""
     def __init__(self, d):
-        super(SquareDistr, self).__init__([d])
+        super(SquareDistr, self).__init__([d], sym = d.getSymname()**2)
         self.a, self.b = _image_range(lambda x: x**2, _abs_range(d.range()))
         self.d = d
     def init_piecewise_pdf(self):
@@ -957,7 +962,7 @@ def sqrt(d):
 
 class FuncNoninjectiveDistr(OpDistr):
     """Non-injective function of random variable only piecewise smooth functions are permitted"""
-    def __init__(self, d, fname="f"):
+    def __init__(self, d, fname="f", sym = None):
 # ====================================
 #        self.intervals = []
 #        self.fs = []
@@ -967,7 +972,7 @@ class FuncNoninjectiveDistr(OpDistr):
 # ====================================
         self.fname = fname
         self.d = d
-        super(FuncNoninjectiveDistr, self).__init__([d])
+        super(FuncNoninjectiveDistr, self).__init__([d], sym = sym)
         a, b = d.range()
         parts = [_image_range(f, (max(a, i[0]), min(b, i[1])))
                  for i, f in zip(self.intervals, self.fs) if a <= i[1] and i[0] <= b]
@@ -1007,7 +1012,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         self.f_invs = [lambda x: x**0.5,lambda x: -x**0.5]
         self.f_inv_derivs = [lambda x: 0.5*x**(-0.5),lambda x: -0.5*x**(-0.5)]
         self.pole_at_zero = True
-        super(Sq2Distr, self).__init__(d, fname = "sqr")
+        super(Sq2Distr, self).__init__(d, fname = "sqr", sym = d.getSymname()**2)
     def is_nonneg(self):
         return True
 
@@ -1025,7 +1030,7 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arcsin, _pi_m_arcsin]
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
-        super(SinDistr, self).__init__(d, fname = "sin")
+        super(SinDistr, self).__init__(d, fname = "sin", sym = sympy.sin(d.getSymname()))
     def is_nonneg(self):
         return True
 def sin(d):
@@ -1048,7 +1053,7 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arccos, _twopi_m_arccos]
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
-        super(CosDistr, self).__init__(d, fname = "cos")
+        super(CosDistr, self).__init__(d, fname = "cos", sym = sympy.cos(d.getSymname()))
     def is_nonneg(self):
         return True
 def cos(d):
@@ -1060,7 +1065,8 @@ def cos(d):
 class TanDistr(FuncDistr):
     """Tangent of a random variable"""
     def __init__(self, d):
-        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
+        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan",
+                                       sym = sympy.tan(d.getSymname()))
     def f(self, x):
         return numpy.tan(x)
     def f_inv(self, x):
@@ -1081,8 +1087,8 @@ def tan(d):
 
 class DiscreteDistr(Distr):
     """Discrete distribution"""
-    def __init__(self, xi=[0.0, 1.0], pi=[0.5, 0.5]):
-        super(DiscreteDistr, self).__init__([])
+    def __init__(self, xi=[0.0, 1.0], pi=[0.5, 0.5], sym = None):
+        super(DiscreteDistr, self).__init__([], sym = sym)
         assert(len(xi) == len(pi))
         px = list(zip(xi, pi))
         px.sort()
@@ -1126,7 +1132,7 @@ class SignDistr(DiscreteDistr):
         px = [(x, p) for x, p in [(-1, prMinus), (0, prZero), (1, prPlus)] if p > 0]
         xi = [x for x, p in px]
         pi = [p for x, p in px]
-        super(SignDistr, self).__init__(xi, pi)
+        super(SignDistr, self).__init__(xi, pi, sym = sympy.sign(d.getSymname()))
         self.parents = [d]
     def __str__(self):
         return "sign({0})".format(id(self.d))
-- 
2.43.0


From 637f23207760fe2b3429b47553c63cb744857a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 29/97] fix: sampling through the inverse of the distribution
 function with atoms, holes and rounded ends

---
 pacal/segments.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index a06fd38..0e228dd 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1903,10 +1903,10 @@ class PiecewiseFunction(object):
 #            breakvals[0] = 0
 #        if vals[-1]>0 and vals[-1]<=1:
 #            breakvals[-1] = 1
-        def _tmp_inv(x):
-            y = self.inverse(x)
-            return y
         breakvals = epsunique(array(breakvals),0.0001)
+        if rangeY is None and len(breakvals) == 2:
+            # each of the two end segments may have a pole
+            breakvals = array([breakvals[0], 0.5*(breakvals[0]+breakvals[1]), breakvals[1]])
         if include_zero_break:
             if 0 not in breakvals:
                 breakvals = numpy.insert(breakvals, numpy.searchsorted(breakvals, 0), 0)
@@ -1916,8 +1916,15 @@ class PiecewiseFunction(object):
         if use_end_poles:
             rpoles[-1]=True
             lpoles[0]=True
-        fun2 = PiecewiseFunction(fun = _tmp_inv, breakPoints=breakvals,
+        fun2 = PiecewiseFunction(fun = self.inverse, breakPoints=breakvals,
                                  lpoles=lpoles, rpoles=rpoles)
+        if rangeY is None:
+            # the inverse of a distribution function jumps at inner breaks
+            eps = 1e-9
+            for seg in fun2.segments:
+                L = seg.a if seg.a == breakvals[0] else seg.a + eps*(seg.b-seg.a)
+                U = seg.b if seg.b == breakvals[-1] else seg.b - eps*(seg.b-seg.a)
+                seg.f = partial(_inverse_inside, self, L, U)
         if use_interpolated:
             fun2 = fun2.toInterpolated()
         return fun2
@@ -2067,6 +2074,10 @@ class PiecewiseDistribution(PiecewiseFunction):
         return (mexp, pexp)
 
 
+def _inverse_inside(f, L, U, y):
+    """Inverse of f at y moved to the interval [L, U]"""
+    return f.inverse(minimum(maximum(y, L), U))
+
 class CumulativePiecewiseFunction(PiecewiseFunction):
     """
     it represent cumulative intntegral \\int_{-\\infty}^x f(t) dt
-- 
2.43.0


From ed45e4c7faa4f798edc4a5471f68a214e529065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 30/97] fix: random numbers of discrete laws and single random
 numbers of derived ones

---
 pacal/distr.py          | 26 ++++++++++++++++----------
 pacal/standard_distr.py | 10 ++++++----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 772eb07..ed05fa0 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -551,7 +551,7 @@ class OpDistr(Distr):
     """Base class for operations on distributions.
 
     Currently only does caching for random number generation."""
-    def rand(self, n = 1, cache = None):
+    def rand(self, n = None, cache = None):
         if self.indep:
             return self.rand_op(n, None)
         if cache is None:
@@ -996,10 +996,13 @@ class FuncNoninjectiveDistr(OpDistr):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
         X = self.d.rand(n, cache)
-        Y = zeros_like(X, dtype=float)
+        x = numpy.atleast_1d(X)
+        Y = zeros_like(x, dtype=float)
         for i in range(len(self.intervals)):
-            mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
-            Y[mask] = self.fs[i](X[mask])
+            mask = (self.intervals[i][0] <= x) * (x <= self.intervals[i][1])
+            Y[mask] = self.fs[i](x[mask])
+        if isscalar(X):
+            return Y[0]
         return Y
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyCompositionNoninjective(self.intervals, self.fs, self.f_invs, self.f_inv_derivs, pole_at_zero=self.pole_at_zero)
@@ -1108,10 +1111,9 @@ class DiscreteDistr(Distr):
         self.piecewise_pdf = PiecewiseDistribution([])
         for i in range(len(self.xi)):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         u = uniform(0, 1, n)
-        i = searchsorted(self.cumP, u)
-        i[i > len(self.xi)] = len(self.xi)
+        i = minimum(searchsorted(self.cumP, u), len(self.xi) - 1)
         return array(self.xi)[i]
     def __str__(self):
         pstr = ", ".join("{0}:{1}".format(x, p) for x, p in self.px)
@@ -1247,6 +1249,8 @@ class ConstDistr(DiscreteDistr):
         super(ConstDistr, self).__init__([c], [p], **kwargs)
         self.c = c
     def rand_raw(self, n = None):
+        if n is None:
+            return self.c
         r = zeros(n)
         r.fill(self.c)
         return r
@@ -1275,7 +1279,9 @@ class CondGtDistr(Distr):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
         return "{0} | X>{1}".format(self.d.getName(), self.L)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         tab=array([])
         k=0
         while k<n:
@@ -1300,7 +1306,7 @@ class CondLtDistr(Distr):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
         return "{0} | X<{1}".format(self.d.getName(), self.U)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def range(self):
         a, b = self.d.range()
@@ -1325,7 +1331,7 @@ class CondBetweenDistr(Distr):
         return "{0} | {1}<X<{2}".format(self.d, self.L, self.U)
     def getName(self):
         return "{0} | {1}<X<{2}".format(self.d.getName(), self.L, self.U)
-    def rand_raw(self, n):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def range(self):
         a, b = self.d.range()
diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 12b575d..620d381 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -40,7 +40,7 @@ class FunDistr(Distr):
         self.piecewise_pdf = PiecewiseDistribution(fun = self.fun, breakPoints = self.breakPoints, **self.kwargs)
         if self.interpolated:
             self.piecewise_pdf = self.piecewise_pdf.toInterpolated()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def range(self):
         return self.breakPoints[0], self.breakPoints[-1]
@@ -62,7 +62,7 @@ class PDistr(Distr):
     def getName(self):
         #return "PDISTR({0})".format(self.get_piecewise_pdf())
         return "PDISTR({0},{1})".format(self.get_piecewise_pdf().segments[0].a, self.get_piecewise_pdf().segments[-1].b)
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
 
 class MixDistr(Distr):
@@ -93,7 +93,9 @@ class MixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         r = zeros(n)
         idx = randint(0, self.nmix, n)
         nk = bincount(idx, minlength = self.nmix)
@@ -890,7 +892,7 @@ class MollifierDistr(Distr):
         self.piecewise_pdf.addSegment(Segment(-self.epsilon, infl1, wrapped_pdf))
         self.piecewise_pdf.addSegment(Segment(infl1, infl2, wrapped_pdf))
         self.piecewise_pdf.addSegment(Segment(infl2, self.epsilon, wrapped_pdf))
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
         return self.rand_invcdf(n)
     def __str__(self):
         return "MollifierDistr(epsilon={0})#{1}".format(self.epsilon, self.id())
-- 
2.43.0


From a0221c53a2dd16499ee817b924770b06b143352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 31/97] fix: random numbers of a mixture use its probabilities

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 620d381..c8ce7fb 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -97,7 +97,7 @@ class MixDistr(Distr):
         if n is None:
             return self.rand_raw(1)[0]
         r = zeros(n)
-        idx = randint(0, self.nmix, n)
+        idx = np.minimum(searchsorted(cumsum(self.probs), uniform(0, 1, n)), self.nmix - 1)
         nk = bincount(idx, minlength = self.nmix)
         for k in range(self.nmix):
             r[idx == k] = self.distrs[k].rand(nk[k])
-- 
2.43.0


From d7ae9221fe383aa65db72e2f9b4c01ff7d0699d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:47 +0000
Subject: [PATCH 32/97] fix: random numbers of sign(X) follow those of X

---
 pacal/distr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index ed05fa0..2b4dc42 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1121,7 +1121,7 @@ class DiscreteDistr(Distr):
     def getName(self):
         return "Di({0})".format(len(self.xi))
 
-class SignDistr(DiscreteDistr):
+class SignDistr(OpDistr, DiscreteDistr):
     def __init__(self, d):
         self.d = d
         prPlus = float(self.d.ccdf_value(0))
@@ -1136,6 +1136,8 @@ class SignDistr(DiscreteDistr):
         pi = [p for x, p in px]
         super(SignDistr, self).__init__(xi, pi, sym = sympy.sign(d.getSymname()))
         self.parents = [d]
+    def rand_op(self, n, cache):
+        return numpy.sign(self.d.rand(n, cache))
     def __str__(self):
         return "sign({0})".format(id(self.d))
     def getName(self):
-- 
2.43.0


From 5397187861975f8fb8e8a1f95da6def0cb6e9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:44 +0000
Subject: [PATCH 33/97] fix: sine and cosine of a variable are not always
 nonnegative

---
 pacal/distr.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 2b4dc42..e720b94 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1034,8 +1034,6 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
         super(SinDistr, self).__init__(d, fname = "sin", sym = sympy.sin(d.getSymname()))
-    def is_nonneg(self):
-        return True
 def sin(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1057,8 +1055,6 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
         super(CosDistr, self).__init__(d, fname = "cos", sym = sympy.cos(d.getSymname()))
-    def is_nonneg(self):
-        return True
 def cos(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
-- 
2.43.0


From 2019a112155dd02e2f4fcc5f5f3973b81996b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:17 +0000
Subject: [PATCH 34/97] fix: quantile function keeps pieces of small
 probability apart

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 0e228dd..95fec60 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1903,7 +1903,7 @@ class PiecewiseFunction(object):
 #            breakvals[0] = 0
 #        if vals[-1]>0 and vals[-1]<=1:
 #            breakvals[-1] = 1
-        breakvals = epsunique(array(breakvals),0.0001)
+        breakvals = epsunique(array(breakvals),1e-10)
         if rangeY is None and len(breakvals) == 2:
             # each of the two end segments may have a pole
             breakvals = array([breakvals[0], 0.5*(breakvals[0]+breakvals[1]), breakvals[1]])
-- 
2.43.0


From 99d1e5e71703ab28a8c6f262742da03e53de693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:30 +0000
Subject: [PATCH 35/97] fix: piecewise function minus a number and divided by a
 number

---
 pacal/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 95fec60..e2e76dc 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1615,7 +1615,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.sub)
         elif isinstance(other, numbers.Real):
-            return self.__rsub__(other)
+            return self._roperation__(other, operation = operator.sub)
         return NotImplemented
     def __mul__(self, other):
         if isinstance(other, PiecewiseFunction):
@@ -1628,7 +1628,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.truediv)
         elif isinstance(other, numbers.Real):
-            return self._operation__(other, operation = operator.truediv)
+            return self._roperation__(other, operation = operator.truediv)
         return NotImplemented
     def __div__(self, other):
         #TODO handle zeros in denominator, !!!currently unhandled!!!
-- 
2.43.0


From f25e545a9dc11bbbe485145c0a70cb9fc4f932b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:30 +0000
Subject: [PATCH 36/97] fix: adding a number to a piecewise function leaves its
 Diracs alone

---
 pacal/segments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index e2e76dc..1f76e17 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1682,7 +1682,11 @@ class PiecewiseFunction(object):
                 si=Segment(seg.a, seg.b, seg_fun)
                 fun.addSegment(si)
             elif seg.isDirac():
-                si = DiracSegment(seg.a, operation(seg.f, r))
+                if operation in (operator.add, operator.sub, _op_rsub):
+                    # a number has no Diracs
+                    si = DiracSegment(seg.a, operation(seg.f, 0.0))
+                else:
+                    si = DiracSegment(seg.a, operation(seg.f, r))
                 fun.addSegment(si)
             else:
                 assert False
-- 
2.43.0


From 308ceee513498333072003296c346d3c2ffd6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:30 +0000
Subject: [PATCH 37/97] fix: ccumint integrates from x to infinity

---
 pacal/segments.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 1f76e17..12a0b72 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1246,25 +1246,8 @@ class PiecewiseFunction(object):
         return diffPFun
 
     def ccumint(self):
-        """TODO complementary cumint i.e int_x^Inf f(x) dx"""
-        integralPFun = CumulativePiecewiseFunction([])
-        f0 = 0
-        for seg in self.segments:
-            if seg.isPInf():
-                f0 = f0 + seg.integrate(seg.a)
-            segi = seg.cumint(f0)
-            if seg.isDirac():
-                f0 = f0 + seg.f
-            else:
-                integralPFun.addSegment(segi)
-            if not seg.isPInf():
-                f0 = segi.f(segi.b)
-        rightval = max(f0, segi.f(segi.b))
-        if not segi.isPInf():
-            integralPFun.addSegment(PInfSegment(segi.b, ConstFun(rightval)))
-        if not integralPFun.segments[0].isMInf():
-            integralPFun.addSegment(MInfSegment(integralPFun.segments[0].a, ConstFun(0)))
-        return integralPFun
+        """complementary cumint i.e int_x^Inf f(x) dx"""
+        return self.integrate() - self.cumint()
     def max_abs(self):
         x1, m1 = self.maximum()
         x2, m2 = self.minimum()
-- 
2.43.0


From 7bcdf6a251545b2f0ef33b0bc1fc2a3032a88f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:30 +0000
Subject: [PATCH 38/97] fix: construct a piecewise function from a list of
 segments

---
 pacal/segments.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 12a0b72..e5a56fd 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1068,14 +1068,9 @@ class PiecewiseFunction(object):
                 else:
                     assert(False) # no segment of such type
         else:
-            # TODO to remove
-            self.segments = segments
-            if len(segments)>0 :
-                i=0
-                for seg in self.segments:
-                    self.breaks[i]=seg.a
-                    i=i+1;
-                self.breaks[i]=seg.b
+            self.segments = []
+            for seg in segments:
+                self.addSegment(seg)
 
     def __call__(self, x):
         if isscalar(x):
-- 
2.43.0


From 50b5430acb98345527cd86cd797e5fba563bf2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 39/97] fix: evaluate a piecewise function without segments

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index e5a56fd..b615f6a 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1113,6 +1113,8 @@ class PiecewiseFunction(object):
         self.breaks = unique(append(self.breaks, [segment.a, segment.b]))
     def findSegment(self, x):
         """It return segment containing point x"""
+        if len(self.segments) == 0:
+            return None
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
         if  0 < ind < len(self.segments):
-- 
2.43.0


From 6c2f59fce2498f9b3daacddfa55f4d8bb565b7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:52 +0000
Subject: [PATCH 40/97] fix: a Dirac added inside a segment stays where it was
 put

---
 pacal/segments.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index b615f6a..4f042ad 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1107,7 +1107,16 @@ class PiecewiseFunction(object):
             seg = self.segments[bisect.bisect_left(self.segments, segment)]
             if not (seg>segment or segment>seg):
                 if segment.isDirac():
-                    segment = DiracSegment(seg.a, segment.f)
+                    eps = params.segments.unique_eps * max(1.0, abs(segment.a))
+                    if abs(segment.a - seg.a) <= eps or abs(seg.b - segment.a) <= eps:
+                        # up to rounding errors at the end of a segment
+                        end = seg.a if abs(segment.a - seg.a) <= eps else seg.b
+                        self.addSegment(DiracSegment(end, segment.f))
+                        return
+                    # inside a segment
+                    i = bisect.bisect_left(self.segments, segment)
+                    self.segments[i:i+1] = PiecewiseFunction([seg]).splitByPoints([segment.a]).segments
+                    seg = self.segments[i]
                 assert seg>segment or segment>seg, "{}=={}=={}=={}=={}".format(self.segments, seg, segment, seg.a, segment.a)
         bisect.insort(self.segments, segment)
         self.breaks = unique(append(self.breaks, [segment.a, segment.b]))
-- 
2.43.0


From 2c0ab4aa43dfb5e6648de22fa3e85cba4ec02190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:52 +0000
Subject: [PATCH 41/97] fix: roots of constant and linear interpolants

---
 pacal/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacal/utils.py b/pacal/utils.py
index ffa5d57..3ee06bc 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -225,6 +225,11 @@ def cheb1companion(c):
     CT[-1, -2] = CT[-1, -2] + .5
     return CT
 def chebroots(c):
+    c = np.trim_zeros(np.asarray(c), "b")
+    if len(c) < 2: # constant
+        return np.array([])
+    if len(c) == 2:
+        return np.array([-c[0] / c[1]])
     return np.sort(eigvals(cheb1companion(c)))
 def epsunique(tab, eps = params.segments.unique_eps):
     ub = np.unique(tab[isnan(tab)==False])
-- 
2.43.0


From e92b3b96cc13c1aec814fe47d5a2a3d602de3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:54 +0000
Subject: [PATCH 42/97] fix: leading Chebyshev coefficient in derivatives and
 roots of interpolants

---
 pacal/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 3ee06bc..bb38045 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -178,14 +178,16 @@ def chebt2(f):
     #print n, len(fftcoef)
     #print fftcoef[n-1:]
     #print fftcoef[n-1:0:-1]
-    fftcoef[n-1:0:-1] += fftcoef[n-1:] # z+conj(z)
+    fftcoef[n-2:0:-1] += fftcoef[n:] # z+conj(z)
     return fftcoef[n-1::-1]
     #return c
 def ichebt2(c):
     """inverse chebyshev transformation, values of function in Chebyshev
     nodes of the second kind, see chebfun for details"""
     n = len(c)
-    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, c[0:-1]/2));
+    if n == 1: # constant
+        return np.array([c[0], c[0]])
+    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, [c[0]], c[1:-1]/2));
     v = np.real(ifft(oncircle));
     f = (n-1)*np.concatenate(([2*v[0]], v[1:n-1]+v[-1:n-1:-1], [2*v[n-1]] ))
     return f
-- 
2.43.0


From 8b95030a3607b63a3e675a7e005c6091408c06bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:13 +0000
Subject: [PATCH 43/97] fix: extremes of a piecewise function with holes

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 4f042ad..17454d0 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1233,7 +1233,7 @@ class PiecewiseFunction(object):
         xi = df.roots()
         mi = self(xi);
         segVals = self.getSegVals()
-        xi = concatenate((xi, self.getBreaks()[0:-1], self.getBreaks()[1:]))
+        xi = concatenate((xi, [seg.a for seg in self.segments], [seg.b for seg in self.segments]))
         mi = concatenate((mi, [v[0]  for v in segVals], [v[1]  for v in segVals] ))
         return mi, xi
     def max_(self):
-- 
2.43.0


From fda14aff725de9f3c8aac66477c4e21df05ddfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:13 +0000
Subject: [PATCH 44/97] fix: interpolated piecewise function does not share
 Diracs with the original

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 17454d0..7007f51 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -726,7 +726,7 @@ class DiracSegment(Segment):
         semilogx([self.a, self.a],[0, self.f],'-', **args)
         semilogx([self.a],[self.f],'k^')
     def toInterpolatedSegment(self):
-        return self
+        return DiracSegment(self.a, self.f)
     def shiftAndScale(self, shift, scale):
         """Produce f((x - shift)/scale) for given f(x)."""
         return DiracSegment(self.a * scale + shift, self.f)
-- 
2.43.0


From f8517c8f7150071e760969c2d211b96e7a58840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:13 +0000
Subject: [PATCH 45/97] fix: split a piecewise function by points given in any
 order

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 7007f51..cda182a 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1786,7 +1786,7 @@ class PiecewiseFunction(object):
         return fun
     def splitByPoints(self, points):
         """Pointwise subtraction of two piecewise functions """
-        points = array(points)
+        points = unique(points)
         fun = self.__class__([])
         for seg in self.segments:
             inds = points[(seg.a<points) & (points<seg.b)]
-- 
2.43.0


From a4cf45e31b1f1082858d88f5b4e77c1b7fc1124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:37 +0000
Subject: [PATCH 46/97] fix: a pole shifted to zero is not evaluated at the
 pole

---
 pacal/segments.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index cda182a..692a77d 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -61,6 +61,12 @@ def _shifted_and_scaled(f, one_over_scale, shift):
         f, s, t = f.args
         return partial(_shift_and_scale, f, s * one_over_scale, shift + t / one_over_scale)
     return partial(_shift_and_scale, f, one_over_scale, shift)
+def _off_pole(f, pole, closest, x):
+    """Call f, arguments which rounding errors moved onto the pole or
+    beyond it are moved to the closest number inside."""
+    if closest > pole:
+        return f(numpy.maximum(x, closest))
+    return f(numpy.minimum(x, closest))
 
 def _op_rsub(x, y):
     return y - x
@@ -846,10 +852,14 @@ class SegmentWithPole(Segment):
         """It produce f((x - shift)/scale) for given f(x)
         """
         _1_scale = 1.0 / scale
+        f = self.f
+        pole, inside = (self.a, self.b) if self.left_pole else (self.b, self.a)
+        if pole != 0 and not (isinstance(f, partial) and f.func is _shift_and_scale):
+            f = partial(_off_pole, f, pole, numpy.nextafter(pole, inside))
         if scale > 0:
-            return SegmentWithPole(self.a * scale + shift, self.b * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift), left_pole = self.left_pole)
+            return SegmentWithPole(self.a * scale + shift, self.b * scale + shift, _shifted_and_scaled(f, _1_scale, shift), left_pole = self.left_pole)
         else:
-            return SegmentWithPole(self.b * scale + shift, self.a * scale + shift, _shifted_and_scaled(self.f, _1_scale, shift), left_pole = not self.left_pole)
+            return SegmentWithPole(self.b * scale + shift, self.a * scale + shift, _shifted_and_scaled(f, _1_scale, shift), left_pole = not self.left_pole)
     def cumint(self, y0 = 0.0):
         """indefinite integral over interval (a, x)"""
         return SegmentWithPole(self.a , self.b, partial(call_segint, self, y0), left_pole = self.left_pole)
-- 
2.43.0


From 2ead73979c886f3797ad07e3575ce462e3fec793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:37 +0000
Subject: [PATCH 47/97] fix: spurious roots of interpolants of low degree

---
 pacal/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index bb38045..a1eaab7 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -227,7 +227,9 @@ def cheb1companion(c):
     CT[-1, -2] = CT[-1, -2] + .5
     return CT
 def chebroots(c):
-    c = np.trim_zeros(np.asarray(c), "b")
+    c = np.asarray(c)
+    # leading coefficients which are rounding errors make the problem singular
+    c = np.trim_zeros(np.where(abs(c) > 1e-15 * abs(c).max(), c, 0.0), "b")
     if len(c) < 2: # constant
         return np.array([])
     if len(c) == 2:
-- 
2.43.0


From 95f84f64c43a2b00337742c536d4f2632da3bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:37 +0000
Subject: [PATCH 48/97] fix: piecewise function on one right-infinite interval

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 692a77d..01b9229 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1044,6 +1044,8 @@ class PiecewiseFunction(object):
             self.segments = []
             if (isinf(self.breaks[0])):
                 self.addSegment(MInfSegment(self.breaks[1],fun))
+            elif len(breakPoints) == 2 and isinf(self.breaks[1]):
+                self.addSegment(PInfSegment(self.breaks[0], fun))
             else:
                 if self.lpoles[0] == False and self.rpoles[1] == False:
                     self.addSegment(Segment(self.breaks[0], self.breaks[1], fun))
-- 
2.43.0


From eabcabcc1b0626c216827196f899504824d1dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:59 +0000
Subject: [PATCH 49/97] fix: pointwise operation on functions with poles at
 both ends of a piece

---
 pacal/segments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 01b9229..791d661 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1737,6 +1737,12 @@ class PiecewiseFunction(object):
                 fun.addSegment(MInfSegment(seg.b, make_segfun(segf, segg)))
             elif seg.isPInf():
                 fun.addSegment(PInfSegment(seg.a, make_segfun(segf, segg)))
+            elif segf is not None and segg is not None and \
+                 (segf.hasLeftPole() and segg.hasRightPole() or segf.hasRightPole() and segg.hasLeftPole()):
+                # poles at both ends
+                mid = 0.5 * (seg.a + seg.b)
+                fun.addSegment(SegmentWithPole(seg.a, mid, make_segfun(segf, segg), left_pole = True))
+                fun.addSegment(SegmentWithPole(mid, seg.b, make_segfun(segf, segg), left_pole = False))
             elif seg.isSegment() and seg.hasLeftPole():
                 fun.addSegment(SegmentWithPole(seg.a, seg.b, make_segfun(segf, segg), left_pole = True))
             elif seg.isSegment() and seg.hasRightPole():
-- 
2.43.0


From 9271975e1732b78ed50e7e48d6dde09bfe4a547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 50/97] fix: failing i.i.d. operation leaves the dependence
 warning as it was

---
 pacal/stats/iid_ops.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d3d1423..f909c82 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -34,11 +34,13 @@ def _int_exp_all(x, n, op = operator.mul):
 def iid_op(X, n, op, all = False):
     old_warn = params.general.warn_on_dependent
     params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all(X, n, op)
-    else:
-        y = _int_exp(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    try:
+        if all:
+            y = _int_exp_all(X, n, op)
+        else:
+            y = _int_exp(X, n, op)
+    finally:
+        params.general.warn_on_dependent = old_warn
     return y
 def iid_sum(X, n, all = False):
     return iid_op(X, n, op = operator.add, all = all)
@@ -101,11 +103,13 @@ def _int_exp_all2(x, n, op = operator.mul):
 def iid_op2(X, n, op, all = False):
     old_warn = params.general.warn_on_dependent
     params.general.warn_on_dependent = False
-    if all:
-        y = _int_exp_all2(X, n, op)
-    else:
-        y = _int_exp2(X, n, op)
-    params.general.warn_on_dependent = old_warn
+    try:
+        if all:
+            y = _int_exp_all2(X, n, op)
+        else:
+            y = _int_exp2(X, n, op)
+    finally:
+        params.general.warn_on_dependent = old_warn
     return y
 #def _lambda_average(n1, x1, n2, x2):
 #    n = float(n1 + n2)
-- 
2.43.0


From caf7fcd6f97e747b1188461240e6944b13cc79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 51/97] fix: geometric averages of 1..n copies use the root of
 their own degree

---
 pacal/stats/iid_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index f909c82..bbe125d 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -131,7 +131,7 @@ def iid_average(X, n, all = False):
 def iid_average_geom(X, n, all = False):
     #return iid_op2(X, n, op = _lambda_average_geom, all = all)
     if all:
-        return [x**(1.0/n) for x in iid_prod(X, n, all=True)]
+        return [x**(1.0/(i+1)) for i, x in enumerate(iid_prod(X, n, all=True))]
     return iid_prod(X, n)**(1.0/n)
 
 
-- 
2.43.0


From 6d07c0cb46754519666cffe1fab513935536d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:05 +0000
Subject: [PATCH 52/97] fix: order statistics of laws with atoms; order
 statistic densities are kept at the ends of their pieces

---
 pacal/stats/iid_ops.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index bbe125d..99b2402 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -6,8 +6,8 @@ import operator
 
 import pacal.distr
 from pacal.utils import binomial_coeff
-from pacal.standard_distr import PDistr, FunDistr, ZeroDistr
-from pacal.segments import PiecewiseFunction
+from pacal.standard_distr import PDistr
+from pacal.segments import PiecewiseFunction, PiecewiseDistribution, DiracSegment
 
 from pacal import params
 
@@ -57,15 +57,21 @@ def iid_order_stat(X, n, k, **kwargs):
     cdf = X.get_piecewise_cdf()
     ccdf = 1 - X.get_piecewise_cdf()
     fun = (k * binomial_coeff(n, k)) * pdf * (pow(cdf, k-1) * pow(ccdf, n-k))
-    #return PDistr(fun.toInterpolated())
-    return FunDistr(fun = fun.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
+    res = PiecewiseDistribution(fun.toInterpolated().getSegments())
+    for d in pdf.getDiracs():
+        F = float(cdf(d.a))
+        res.addSegment(DiracSegment(d.a, _at_least(F, n, k) - _at_least(F - d.f, n, k)))
+    return PDistr(res, **kwargs)
+def _at_least(p, n, k):
+    """Probability of at least k successes in n trials."""
+    return sum(binomial_coeff(n, j) * p**j * (1-p)**(n-j) for j in range(k, n+1))
 def iid_unknown(X, n, k, **kwargs):
     """It gives distribution of sample _unknown on level k based on sample size of n."""
     fun = PiecewiseFunction([])
     for i in range(k, n+1):
         fun += iid_order_stat(X, n, i).get_piecewise_pdf()
     fun2 = (1.0 / (1+n-k)) * fun
-    return FunDistr(fun = fun2.toInterpolated(), breakPoints = X.get_piecewise_pdf().getBreaks(), **kwargs)
+    return PDistr(PiecewiseDistribution(fun2.toInterpolated().segments), **kwargs)
 
 
 def iid_median(X, n):
-- 
2.43.0


From 53140910e75afd49ac97ed84f52863a2c1422f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 53/97] fix: whether a mean or variance exists does not depend
 on the scale of the variable

---
 pacal/segments.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 791d661..34e89ce 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1945,7 +1945,7 @@ class PiecewiseDistribution(PiecewiseFunction):
     Base representation of probability distribution function using
     piecewise function."""
     def mean(self):
-        I = 0.0
+        I, absI = 0.0, 0.0
         E = 0.0
         for seg in self.segments:
             if seg.isDirac():
@@ -1954,8 +1954,14 @@ class PiecewiseDistribution(PiecewiseFunction):
                 i, e = _segint(lambda x: x * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
             E += e
             I = I + i
-        if E>1.0e-1:
-            return np.nan
+            absI += abs(i)
+        if E > 1.0e-3 * absI:
+            # the integral over a segment containing zero may cancel out
+            for seg in self.getSegments():
+                i, e = _segint(lambda x: abs(x) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
+                absI += i
+            if E > 1.0e-3 * absI:
+                return np.nan
         return I
     def meanf(self, f=None):
         """it gives mean value of f(X) (i.e. E(f(X)))
@@ -1973,13 +1979,13 @@ class PiecewiseDistribution(PiecewiseFunction):
             E += abs(e)
             I = I + i
             absI += abs(i)
-        if  absI > 0 and abs(E/absI)>1.0e-3 and abs(absI)>1e-10:
+        if E > 1.0e-3*absI:
             # integrals over single segments may cancel out, the error
             # has to be compared with the integral of the absolute value
             for seg in self.getSegments():
                 i, e = _segint(lambda x: abs(nan_to_num(f(x))) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
                 absI += i
-            if not abs(E/absI)<=1.0e-3:
+            if E > 1.0e-3*absI:
                 #print I, absI, E
                 return np.nan
         return I
@@ -1998,7 +2004,7 @@ class PiecewiseDistribution(PiecewiseFunction):
         for seg in self.getDiracs():
             i = seg.f*(seg.a - m) ** 2
             I += i
-        if E>1.0e-0:
+        if E > 1.0e-3 * I:
             return np.inf
         else:
             return I
-- 
2.43.0


From 530e28a463b695e8b07a982e57397bf40d0c1b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 54/97] fix: integrals and interpolants on half-lines find
 functions that live close to the end point

---
 pacal/integration.py   |  7 +++++--
 pacal/interpolation.py |  5 +++--
 pacal/vartransforms.py | 37 +++++++++++++++++++++++++++----------
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index fc6d34d..6641d90 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -36,6 +36,7 @@ from .vartransforms import VarTransformAlgebraic_MInf
 from .vartransforms import VarTransformReciprocal_PMInf
 from .vartransforms import VarTransformReciprocal_PInf
 from .vartransforms import VarTransformReciprocal_MInf
+from .vartransforms import tail_offset
 
 from pacal.interpolation import ChebyshevInterpolator1
 from . import params
@@ -237,7 +238,8 @@ def integrate_fejer2_pinf(f, a, b = None, exponent = None, *args, **kwargs):
         return 0,0
     if exponent is None:
         exponent = params.integration_infinite.exponent
-    vt = VarTransformReciprocal_PInf(a, U = b, exponent = exponent)
+    offset = tail_offset(f, a) if b is None else None
+    vt = VarTransformReciprocal_PInf(a, U = b, exponent = exponent, offset = offset)
     return _integrate_with_vartransform(f, vt, integrate_fejer2, *args, **kwargs)
 def integrate_fejer2_minf(f, b, a = None, exponent = None, *args, **kwargs):
     """Fejer2 integration from -oo to b."""
@@ -245,7 +247,8 @@ def integrate_fejer2_minf(f, b, a = None, exponent = None, *args, **kwargs):
         return 0,0
     if exponent is None:
         exponent = params.integration_infinite.exponent
-    vt = VarTransformReciprocal_MInf(b, L = a, exponent = exponent)
+    offset = tail_offset(f, b, -1) if a is None else None
+    vt = VarTransformReciprocal_MInf(b, L = a, exponent = exponent, offset = offset)
     return _integrate_with_vartransform(f, vt, integrate_fejer2, *args, **kwargs)
 
 
diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 1fcfa3f..6fc1801 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -809,7 +809,8 @@ class PInfInterpolator(object):
             self.f = f
         #Ut = _find_zero(f, L,ymax=1e-14, ymin=1e-15)
         #self.vt = VarTransformReciprocal_PInf(L, U = Ut, exponent = exponent)
-        self.vt = VarTransformReciprocal_PInf(L, exponent=exponent)
+        offset = tail_offset(self.f, L)
+        self.vt = VarTransformReciprocal_PInf(L, exponent=exponent, offset=offset)
         self.vb = VarTransformInterpolator(self.f, self.vt, par=params.interpolation_infinite)
         # a barycentric interpolator can fail in two ways:
         # A) x is very close x_j and x-x_j ~= x_j; also x_j <= 1
@@ -831,7 +832,7 @@ class PInfInterpolator(object):
             self.x_vb_max = self.vt.inv_var_change(max(min_x_barycentric, x_vb_min))
             #self.x_vb_max = Ut
             # recalculate the interpolator
-            self.vt = VarTransformReciprocal_PInf(L, U=self.x_vb_max, exponent=exponent)
+            self.vt = VarTransformReciprocal_PInf(L, U=self.x_vb_max, exponent=exponent, offset=offset)
             self.vb = VarTransformInterpolator(self.f, self.vt, par=params.interpolation_infinite)
             self.vl = LogTransformInterpolator(self.f, self.x_vb_max, par=params.interpolation_asymp)
             self.U = self.vl.orig_b
diff --git a/pacal/vartransforms.py b/pacal/vartransforms.py
index 8c3c49b..7133261 100644
--- a/pacal/vartransforms.py
+++ b/pacal/vartransforms.py
@@ -4,6 +4,7 @@ from __future__ import print_function
 
 from numpy import hypot, sqrt, sign
 from numpy import array, asarray, empty_like, isscalar, all, equal
+from numpy import arange, argmax, nan_to_num
 
 
 class VarTransform(object):
@@ -56,6 +57,24 @@ class VarTransformIdentity(VarTransform):
                  # not distinguish +oo and -oo
 
 ### Variable transforms
+def default_offset(x0):
+    """Length scale of the transform of [x0, oo)."""
+    if x0 == 0:
+        return 1.0
+    return abs(x0) / 2.0
+def tail_offset(f, x0, sign = 1):
+    """Length scale for f on [x0, oo) or, for negative sign, on (-oo, x0].
+
+    The default scale depends only on x0; a function living much closer
+    to x0 would be missed by all the nodes."""
+    offset = default_offset(x0)
+    scales = offset * 4.0 ** -arange(26)
+    y = scales * abs(nan_to_num(asarray(f(x0 + sign * scales), dtype=float)))
+    i = argmax(y)
+    if i > 3:
+        offset = float(scales[i])
+    return offset
+
 class VarTransformReciprocal_PMInf(VarTransform):
     """Reciprocal variable transform."""
     def __init__(self, exponent = 1):
@@ -85,14 +104,13 @@ class VarTransformReciprocal_PInf(VarTransform):
 
     Optionally an exponent different from 1 can be specified.  If U is
     given, than the tranform is into finite interval [L, U]."""
-    def __init__(self, L = 0, exponent = 1, U = None):
+    def __init__(self, L = 0, exponent = 1, U = None, offset = None):
         self.exponent = exponent
         self.L = L
         self.U = U
-        if self.L == 0:
-            self.offset = 1.0
-        else:
-            self.offset = abs(self.L) / 2
+        if offset is None:
+            offset = default_offset(L)
+        self.offset = offset
         if U is not None:
             self.var_min = self.var_change(U)
             self.var_inf = []
@@ -126,14 +144,13 @@ class VarTransformReciprocal_MInf(VarTransform):
 
     Optionally an exponent different from 1 can be specified.  If L is
     given, than the tranform is into finite interval [L, U]."""
-    def __init__(self, U = 0, exponent = 1, L = None):
+    def __init__(self, U = 0, exponent = 1, L = None, offset = None):
         self.exponent = exponent
         self.L = L
         self.U = U
-        if self.U == 0:
-            self.offset = 1.0
-        else:
-            self.offset = abs(self.U) / 2
+        if offset is None:
+            offset = default_offset(U)
+        self.offset = offset
         if L is not None:
             self.var_min = self.var_change(L)
             self.var_inf = []
-- 
2.43.0


From e8e36576dc835bbef69e4b5c6566341d300721ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 55/97] fix: log-logistic laws can be evaluated outside their
 support and at zero, and sampled

---
 pacal/standard_distr.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index c8ce7fb..ab6d5f4 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -805,14 +805,20 @@ class FrechetDistr(Distr):
 class LogLogisticDistr(Distr):
     def __init__(self, k, s=1.0, **kwargs):
         if k <= 0:
-            raise RuntimeError("Shape parameter k must be > 0, got {}".format(alpha))
+            raise RuntimeError("Shape parameter k must be > 0, got {}".format(k))
         if s <= 0:
-            raise RuntimeError("Scale parameter s must be > 0, got {}".format(beta))
+            raise RuntimeError("Scale parameter s must be > 0, got {}".format(s))
         super().__init__(**kwargs)
         self.k = k
         self.s = s
         self.log_k = np.log(k)
         self.log_s_pow_k = k * np.log(s)
+        if self.k < 1:
+            self.pdf_at_0 = np.inf
+        elif self.k == 1:
+            self.pdf_at_0 = 1.0 / self.s
+        else:
+            self.pdf_at_0 = 0
     def log_pdf(self, x):
         # pdf form from www.randomservices.org
         lx = np.log(x)
@@ -820,12 +826,19 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
+        if isscalar(x):
+            if x < 0:
+                return 0
+            elif x == 0:
+                return self.pdf_at_0
+            return np.exp(self.log_pdf(x))
         y = zeros_like(x, dtype=float)
-        mask = (x >= 0)
+        mask = (x > 0)
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
         #  / ((self.s_pow_k + x[mask]**self.k)**2)
-        y[mask] = np.exp(self.log_pdf(x))
+        y[mask] = np.exp(self.log_pdf(x[mask]))
+        y[x == 0] = self.pdf_at_0
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
@@ -852,7 +865,7 @@ class LogLogisticDistr(Distr):
                                                    breakPoints = breakPoints,
                                                    lpoles=lpoles)
     def rand_raw(self, n = None):
-        u = uniform(self.a, self.b, n)
+        u = uniform(0, 1, n)
         ll = self.s * (u / (1-u))**(1.0 / self.k)
         return ll
     def __str__(self):
-- 
2.43.0


From 4c023b7befd22d9ffb179b7ae3d15dde964ef9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 56/97] fix: the semicircle density can be evaluated outside
 its support

---
 pacal/standard_distr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index ab6d5f4..94aca89 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -585,12 +585,13 @@ class SemicircleDistr(Distr):
         self.norm = 2.0 / (pi * R * R)
     def pdf(self, x):
         if isscalar(x):
+            y = 0
             if -self.R <= x <= self.R:
                 y = self.norm * sqrt(self.R*self.R - x*x)
         else:
             mask = (-self.R <= x) & (x <= self.R)
             y = zeros_like(x, dtype=float)
-            y[mask] = self.norm * sqrt(self.R*self.R - x*x)
+            y[mask] = self.norm * sqrt(self.R*self.R - x[mask]*x[mask])
         return y
     def init_piecewise_pdf(self):
         # split at inflection points
-- 
2.43.0


From 3d55c727f526a2d6b4dce5b42a9121b60439f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 57/97] fix: the density of a Weibull law of shape 1 at zero
 depends on its scale

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 94aca89..a6254c7 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -671,7 +671,7 @@ class WeibullDistr(Distr):
         if self.k < 1:
             self.pdf_at_0 = np.inf
         elif self.k == 1:
-            self.pdf_at_0 = 1
+            self.pdf_at_0 = 1.0 / self.lmbda
         else:
             self.pdf_at_0 = 0
     def pdf(self, x):
-- 
2.43.0


From 9c5007563599e16b59e82a07b10341a8a8f57dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 58/97] fix: the density of a beta law of shape 1 is defined at
 the end of its support

---
 pacal/standard_distr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index a6254c7..0665a7e 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -416,16 +416,20 @@ class BetaDistr(Distr):
         self.alpha = alpha
         self.beta = beta
         self.lg_norm = lgamma(self.alpha + self.beta) - lgamma(self.alpha) - lgamma(self.beta)
+    @staticmethod
+    def _xlog(x, a):
+        # a * log(x), which is zero at x = 0 for a = 0
+        return a * log(x) if a != 0 else 0.0 * x
     def pdf(self, x):
         if isscalar(x):
             if x < 0 or x > 1:
                 y = 0
             else:
-                y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
+                y = exp(self.lg_norm + self._xlog(x, self.alpha - 1) + self._xlog(1-x, self.beta - 1))
         else:
             y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
-            y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
+            y[mask] = exp(self.lg_norm + self._xlog(x[mask], self.alpha - 1) + self._xlog(1-x[mask], self.beta - 1))
         return y
     def init_piecewise_pdf(self):
         if self.alpha > 1 and self.beta > 1:
-- 
2.43.0


From d5d6b3f93171043882bd15219cffa536fed72910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 59/97] fix: chi-square laws with less than one degree of
 freedom have a density; its value at zero for df < 2

---
 pacal/standard_distr.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 0665a7e..5f84030 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -254,7 +254,7 @@ class ChiSquareDistr(Distr):
         self.df = df
         self.df2 = df / 2.0
         self.lg_norm = lgamma(self.df2) + self.df2 * log(2)
-        if self.df == 1:
+        if self.df < 2:
             self.pdf_at_0 = np.inf
             self.lpdf_at_0 = np.inf
         elif self.df == 2:
@@ -283,19 +283,20 @@ class ChiSquareDistr(Distr):
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
-        if 1 <= self.df <= 20:
+        if self.df < 1:
+            self.piecewise_pdf = PiecewiseDistribution([])
+            self.piecewise_pdf.addSegment(SegmentWithPole(0, 1, wrapped_pdf, left_pole = True))
+            self.piecewise_pdf.addSegment(PInfSegment(1, wrapped_pdf))
+        elif self.df <= 20:
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                    breakPoints = [0.0, self.df/2.0, self.df*2.0, np.inf],
                                                    lpoles=[True, False, False, False])
-        elif 20 < self.df:
+        else:
             mean = self.df
             std = sqrt(2 * self.df)
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                         breakPoints =[0.0, self.df*0.75, self.df*4.0/3.0,  np.inf],
                                                         lpoles=[True, False, False, False])
-
-        else:
-            print("unexeepted df=", self.df)
         #if self.df == 1 or self.df == 3:
         #    self.piecewise_pdf.addSegment(SegmentWithPole(0, 1, self.pdf, left_pole = True))
         #else:
-- 
2.43.0


From e697cd2b9a5625111cc6e6200c93f96c4bb94c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 60/97] fix: a binomial law with success probability one can be
 created

---
 pacal/standard_distr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 5f84030..00e4c45 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -990,7 +990,10 @@ class BinomialDistr(DiscreteDistr):
         P = self.q ** n
         xi = [0]
         pi = [P]
-        pq = self.p / self.q
+        if self.q == 0:
+            xi, pi, n = [self.n], [1.0], 0
+        else:
+            pq = self.p / self.q
         for i in range(n):
             P *= n - i
             P /= i + 1
-- 
2.43.0


From 29383ad04e7b567a3cd9a32997996e45ba7432a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 61/97] fix: truncated discrete laws can be printed

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 00e4c45..bba11fd 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -951,7 +951,7 @@ class TruncDiscreteFunDistr(DiscreteDistr):
         pi = [p/S for p in pi]
         super(TruncDiscreteFunDistr, self).__init__(xi, pi, **kwargs)
     def __str__(self):
-        return "TruncDiscreteFunDistr({0})#{1}".format(self.trunk_epsself.id())
+        return "TruncDiscreteFunDistr({0})#{1}".format(self.trunk_eps, self.id())
     def getName(self):
         return "TruncDiscreteFunDistr({0})".format(self.trunk_eps)
 
-- 
2.43.0


From 4251348c299f3666d64f2bf0cf200a8a2f1c6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 62/97] fix: the ranges of Gumbel and Frechet laws

---
 pacal/standard_distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index bba11fd..41514bc 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -754,7 +754,7 @@ class GumbelDistr(Distr):
     def getName(self):
         return "Gumbel({0},{1})".format(self.mu, self.sigma)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return -np.inf, np.inf
 
 class FrechetDistr(Distr):
     def __init__(self, alpha = 2, s = 1, m = 0, **kwargs):
@@ -797,7 +797,7 @@ class FrechetDistr(Distr):
     def getName(self):
         return "Frechet({0},{1},{2})".format(self.alpha, self.s, self.m)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return self.m, np.inf
 
 
 #f(x;\alpha ,\beta )= (k/s) * (x/s)**(k-1) / ((1 + (x/s)**k)**2)  # Wikipedia form
-- 
2.43.0


From e59986c4e84ce5586aff6f7451829f6e63cbd32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 63/97] fix: densities with poles can be given to FunDistr

---
 pacal/standard_distr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 41514bc..ebe182d 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -27,11 +27,9 @@ class FunDistr(Distr):
     """General distribution defined as function with
     singularities at given breakPoints."""
     def __init__(self, fun, breakPoints = None, interpolated = False, **kwargs):
-        super(FunDistr, self).__init__(**kwargs)
+        super(FunDistr, self).__init__(sym = kwargs.pop("sym", None))
         self.fun = fun
         self.breakPoints = breakPoints
-        if "sym" in kwargs:
-            kwargs.pop("sym")
         self.kwargs = kwargs
         self.interpolated = interpolated
     def getName(self):
-- 
2.43.0


From ccf8e353f5b678dab1c7b728a021133c131c18bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 64/97] fix: the density of 1/X can be evaluated at zero

---
 pacal/distr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index e720b94..c63db6c 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -814,11 +814,15 @@ class InvDistr(InvRV, OpDistr):
         self.pole_at_zero = False
     def pdf(self, x):
         if isscalar(x):
-            y = self.d.pdf(1.0/x)/x**2
+            if x != 0:
+                y = self.d.pdf(1.0/x)/x**2
+            else:
+                y = self.get_piecewise_pdf()(x)
         else:
             y = zeros_like(x, dtype=float)
             mask = x != 0
-            y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
+            y[mask] = self.d.pdf(1.0/x[mask])/x[mask]**2
+            y[~mask] = self.get_piecewise_pdf()(x[~mask])
         return y
     def rand_op(self, n, cache):
         return 1.0/self.d.rand(n, cache)
-- 
2.43.0


From 7b107f14911a26790c6c839d57600ac15d9e28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 65/97] fix: consecutive pieces of a function may each have a
 pole at their right end

---
 pacal/segments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 34e89ce..55bc162 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1051,7 +1051,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[0], self.breaks[1], fun))
                 elif self.lpoles[0] == True and self.rpoles[1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = True))
-                elif self.rpoles[0] == False and self.rpoles[1] == True:
+                elif self.lpoles[0] == False and self.rpoles[1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = False))
                 else:
                     assert(False) #  no segment of such type
@@ -1063,7 +1063,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[i], self.breaks[i+1], fun))
                 elif self.lpoles[i] == True and self.rpoles[i+1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = True))
-                elif self.rpoles[i] == False and self.rpoles[i+1] == True:
+                elif self.lpoles[i] == False and self.rpoles[i+1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = False))
                 else:
                     assert(False) # no segment of such type
@@ -1075,7 +1075,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[-2], self.breaks[-1], fun))
                 elif self.lpoles[-2] == True and self.rpoles[-1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = True))
-                elif self.rpoles[-2] == False and self.rpoles[-1] == True:
+                elif self.lpoles[-2] == False and self.rpoles[-1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = False))
                 else:
                     assert(False) # no segment of such type
-- 
2.43.0


From a79c0d0f6813e12874ddc9597fd0a4b637d25d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 66/97] fix: whether a mean exists does not depend on the
 position of the variable

---
 pacal/segments.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 55bc162..7c3ca32 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1955,12 +1955,15 @@ class PiecewiseDistribution(PiecewiseFunction):
             E += e
             I = I + i
             absI += abs(i)
-        if E > 1.0e-3 * absI:
-            # the integral over a segment containing zero may cancel out
+        if E > 1.0e-10 * absI:
+            # compare with the spread of the distribution, wherever it lies
+            breaks = [b for b in self.getBreaks() if not isinf(b)]
+            c = breaks[len(breaks) // 2] if len(breaks) > 0 else 0.0
+            dev = sum([seg.f * abs(seg.a - c) for seg in self.getDiracs()])
             for seg in self.getSegments():
-                i, e = _segint(lambda x: abs(x) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
-                absI += i
-            if E > 1.0e-3 * absI:
+                i, e = _segint(lambda x: abs(x - c) * seg(x), seg.a, seg.b, force_poleL = seg.hasLeftPole(), force_poleU = seg.hasRightPole())
+                dev += abs(i)
+            if E > 1.0e-3 * dev:
                 return np.nan
         return I
     def meanf(self, f=None):
-- 
2.43.0


From 5077022bf7fc2cfdac9dab48261e4d4e83c435cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 67/97] fix: density of a square can be evaluated on arrays

---
 pacal/distr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index c63db6c..d87976f 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -941,10 +941,16 @@ class SquareDistr(OpDistr):
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
     def pdf(self,x):
-        if x <= 0:  # won't work for x == 0
-            f = 0
+        if isscalar(x):
+            if x <= 0:  # won't work for x == 0
+                f = 0
+            else:
+                f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
         else:
-            f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
+            f = zeros_like(x, dtype=float)
+            mask = (x > 0)
+            r = sqrt(x[mask])
+            f[mask] = (self.d.pdf(-r) + self.d.pdf(r)) / (2*r)
         return f
     def rand_op(self, n, cache):
         r = self.d.rand(n, cache)
-- 
2.43.0


From 98b10e27859e48c4148d1b522cbd76bc6553ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 68/97] fix: sine and cosine of multiples of pi/2 are exact
 zeros

---
 pacal/distr.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index d87976f..e2d855d 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1035,11 +1035,20 @@ def _arcsin_der1(x):
     return (1-x**2)**(-0.5)
 def _arcsin_der2(x):
     return -(1-x**2)**(-0.5)
+def _exact_zeros(f, x):
+    """The trigonometric function f, with values which only result from
+    rounding of the argument (e.g. cos(pi/2)) being replaced by zero"""
+    y = f(x)
+    return y * (abs(y) > numpy.finfo(float).eps * abs(x))
+def _sin(x):
+    return _exact_zeros(numpy.sin, x)
+def _cos(x):
+    return _exact_zeros(numpy.cos, x)
 class SinDistr(FuncNoninjectiveDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         self.intervals = [[-pi/2, pi/2], [pi/2, 3*pi/2]]
-        self.fs = [numpy.sin, numpy.sin]
+        self.fs = [_sin, _sin]
         self.f_invs = [numpy.arcsin, _pi_m_arcsin]
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
@@ -1060,7 +1069,7 @@ class CosDistr(FuncNoninjectiveDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         self.intervals = [[0.0, pi], [pi, 2.0*pi]]
-        self.fs = [numpy.cos, numpy.cos]
+        self.fs = [_cos, _cos]
         self.f_invs = [numpy.arccos, _twopi_m_arccos]
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
-- 
2.43.0


From 454ced67677b44a4ad2d6b0cbb145f518b31095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 69/97] fix: integrals over a half line find mass far from an
 end close to zero

---
 pacal/vartransforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pacal/vartransforms.py b/pacal/vartransforms.py
index 7133261..76bab70 100644
--- a/pacal/vartransforms.py
+++ b/pacal/vartransforms.py
@@ -4,7 +4,7 @@ from __future__ import print_function
 
 from numpy import hypot, sqrt, sign
 from numpy import array, asarray, empty_like, isscalar, all, equal
-from numpy import arange, argmax, nan_to_num
+from numpy import arange, argmax, nan_to_num, where
 
 
 class VarTransform(object):
@@ -66,12 +66,14 @@ def tail_offset(f, x0, sign = 1):
     """Length scale for f on [x0, oo) or, for negative sign, on (-oo, x0].
 
     The default scale depends only on x0; a function living much closer
-    to x0 would be missed by all the nodes."""
+    to x0 would be missed by all the nodes, much farther from x0 (when
+    x0 is a rounding error away from zero) by most of them."""
     offset = default_offset(x0)
-    scales = offset * 4.0 ** -arange(26)
-    y = scales * abs(nan_to_num(asarray(f(x0 + sign * scales), dtype=float)))
+    scales = offset * 4.0 ** -arange(-40, 26)
+    y = abs(nan_to_num(asarray(f(x0 + sign * scales), dtype=float)))
+    y = where(y > 0, scales * y, 0.0)
     i = argmax(y)
-    if i > 3:
+    if i > 43 or y[i] > 1e6 * max(y[30:]):
         offset = float(scales[i])
     return offset
 
-- 
2.43.0


From 78be50d79be7c7e9f11b7e2addcf5cb11b8d3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 70/97] fix: intervals of rounding width next to a pole have no
 mass

---
 pacal/segments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 7c3ca32..ab272e2 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -830,7 +830,7 @@ class SegmentWithPole(Segment):
             a = self.a
         if b == None or b > self.b:
             b = self.b
-        if a >= b: # nothing in common
+        if b - a <= 16 * finfo(float).eps * max(abs(a), abs(b)): # nothing in common but rounding errors
             return 0.0
         if self.hasLeftPole() and a == self.a:
             i,e = integrate_fejer2_Xn_transformP(self, a, b)
@@ -2194,6 +2194,8 @@ def _segint(fun, L, U, force_minf = False, force_pinf = False, force_poleL = Fal
         return 0, 0
     if L == U:
         return 0, 0
+    if (force_poleL or force_poleU) and U - L <= 16 * finfo(float).eps * max(abs(L), abs(U)):
+        return 0, 0 # nothing but rounding errors
     if force_minf:
         #i, e = integrate_fejer2_minf(fun, U, a = L, debug_info = debug_info, debug_plot = True)
         i, e = integrate_wide_interval(fun, L, U, debug_info = debug_info, debug_plot = debug_plot)
-- 
2.43.0


From 498e9e1b8215f230e5d11611afff06c3b15b3fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 71/97] fix: square of an unbounded variable keeps the pole at
 zero

---
 pacal/segments.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index ab272e2..180da6e 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -41,6 +41,19 @@ def prob_comp_fun(f, ginv, ginvderiv, x):
         y = f(ginv(x)) * abs(ginvderiv(x))
         y[~isfinite(y)] = 0
     return y
+def _limit_at_zero(fun, x0, x):
+    """fun with the value at x0, close to zero, standing for the limit at zero"""
+    if isscalar(x):
+        return fun(x0 if x == 0 else x)
+    return fun(where(x == 0, x0, x))
+def _inner_point(a, b):
+    """A point inside of the interval (a, b)"""
+    if isinf(a):
+        return b - 1.0 - abs(b)
+    if isinf(b):
+        return a + 1.0 + abs(a)
+    return 0.5 * (a + b)
+
 def call_segint(seg, y0, x):
     if isscalar(x):
         return y0 + seg.segIntegral(x)
@@ -1456,8 +1469,8 @@ class PiecewiseFunction(object):
         """Composition with x^2"""
         fun = self.splitByPoints([0.0])
         # a pole appears at zero, segments with the other end infinite need splitting
-        fun = fun.splitByPoints([0.5 * (seg.a + seg.b) for seg in fun.segments if not seg.isMorPInf()
-                                 and (seg.a == 0 and seg.hasRightPole() or seg.b == 0 and seg.hasLeftPole())])
+        fun = fun.splitByPoints([_inner_point(seg.a, seg.b) for seg in fun.segments if seg.isMorPInf() and 0 in (seg.a, seg.b)
+                                 or seg.a == 0 and seg.hasRightPole() or seg.b == 0 and seg.hasLeftPole()])
         copyFunction = self.__class__([])
         leftFunction = self.__class__([])
         rightFunction = self.__class__([])
-- 
2.43.0


From 38406dd28094c8178e295421684e6429b7a7e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 72/97] fix: reciprocal keeps a pole at the end other than zero

---
 pacal/segments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 180da6e..d141157 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1460,6 +1460,9 @@ class PiecewiseFunction(object):
     def copyProbInverse(self, pole_at_zero = False):
         """Composition with 1/x"""
         self_with_zero = self.splitByPoints([0])
+        # one end goes to infinity, the pole at the other one needs a segment
+        self_with_zero = self_with_zero.splitByPoints([_inner_point(seg.a, seg.b) for seg in self_with_zero.segments
+                                                       if seg.a == 0 and seg.hasRightPole() or seg.b == 0 and seg.hasLeftPole()])
         copyFunction = self.__class__([])
         for seg in self_with_zero.segments:
             segcomp = seg.probInverse(pole_at_zero = pole_at_zero)
-- 
2.43.0


From 6723948e9959e2dc83635e5446f6229493a128f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 73/97] fix: density of a reciprocal at zero is the limit

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index d141157..a62f5d6 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -428,6 +428,8 @@ class Segment(object):
                 pole_a = pole_at_zero or self._heavyTail()
             if self.isPInf():
                 pole_b = pole_at_zero or self._heavyTail()
+            if self.isMorPInf() and not (pole_a or pole_b):
+                fun = partial(_limit_at_zero, fun, 1e-10 * g(_inner_point(self.a, self.b)))
             return _segment_with_ends(g(self.b), g(self.a), fun, pole_b, pole_a)
     def _heavyTail(self):
         """Does the density decrease slower than x**-2 at infinity?"""
-- 
2.43.0


From 4847c89dc90696325d15d73a27578d438d176d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 74/97] fix: tangent of a variable on (-pi/2, pi/2) covers the
 real line

---
 pacal/distr.py    |  4 +++-
 pacal/segments.py | 18 +++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index e2d855d..c6d5dc4 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1086,7 +1086,9 @@ class TanDistr(FuncDistr):
         super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan",
                                        sym = sympy.tan(d.getSymname()))
     def f(self, x):
-        return numpy.tan(x)
+        # the ends of (-pi/2, pi/2) are mapped to infinity
+        pole = abs(abs(x) - pi/2) <= 4 * numpy.finfo(float).eps
+        return numpy.where(pole, sign(x) * Inf, numpy.tan(x))[()]
     def f_inv(self, x):
         return numpy.arctan(x)
     def f_inv_deriv(self, x):
diff --git a/pacal/segments.py b/pacal/segments.py
index a62f5d6..1cdfa4b 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -369,18 +369,14 @@ class Segment(object):
             return DiracSegment(g(self.a), self.f)
         fun = partial(prob_comp_fun, self.f, ginv, ginvderiv)
         #print fun.func, fun.args
-        if (isinf(g(array([self.a])))):
-        #if (self.a==0):
-            if  g(self.b)<0:
-                return MInfSegment(g(self.b), fun)
+        ga, gb = g(array([self.a, self.b], dtype=float))
+        if isinf(ga) or isinf(gb):
+            # the sign of the infinite end follows from a point inside (1/0)
+            y = gb if isinf(ga) else ga
+            if g(_inner_point(self.a, self.b)) < y:
+                return MInfSegment(y, fun)
             else:
-                return PInfSegment(g(self.b), fun)
-        if (isinf(g(array([self.b])))):
-        #elif (self.b==0):
-            if g(self.a)>0:
-                return PInfSegment(g(self.a), fun)
-            else:
-                return MInfSegment(g(self.a), fun)
+                return PInfSegment(y, fun)
         else:
             # poles of the density are carried over, new ones appear
             # where the derivative of the inverse is infinite
-- 
2.43.0


From 5510d0806390ea4b5f9af3c3f843596948008f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 75/97] fix: rounding in PoleInterpolator does not leave the
 interval

---
 pacal/interpolation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 6fc1801..fe63d3c 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -28,7 +28,7 @@ from numpy import where, dot, zeros
 from numpy import maximum
 from numpy import newaxis, subtract, isscalar, hstack
 from numpy import finfo, size, double
-from numpy import isnan, isinf
+from numpy import isnan, isinf, clip
 from numpy import arange, cos, sin, log, exp, pi, log1p, expm1
 
 from numpy import cumsum, flipud, real, imag, linspace
@@ -590,7 +590,8 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
 #class PoleInterpolatorP(ChebyshevInterpolator1):
 class PoleInterpolatorP(ChebyshevInterpolatorNoL):
     def xt(self, x):
-        return (exp(x) + self.orig_a) + self.offset
+        # rounding must not move the ends outside the interval
+        return clip((exp(x) + self.orig_a) + self.offset, self.orig_a, self.orig_b)
     def xtinv(self, x):
         return log((x - self.orig_a) + self.offset)
     def __init__(self, f, a, b, offset=1e-50, *args, **kwargs):
@@ -640,7 +641,8 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
 
 class PoleInterpolatorN(ChebyshevInterpolatorNoR):
     def xt(self, x):
-        return (-exp(x) + self.orig_b) - self.offset
+        # rounding must not move the ends outside the interval
+        return clip((-exp(x) + self.orig_b) - self.offset, self.orig_a, self.orig_b)
     def xtinv(self, x):
         return log(-(x - self.orig_b) + self.offset)
     def __init__(self, f, a, b, offset=1e-50, *args, **kwargs):
-- 
2.43.0


From f378008aefc54e30ab8ca15213ac0cd680cb7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 76/97] fix: integrals of products and quotients take poles
 away from zero into account

---
 pacal/indeparith.py | 47 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 68b0548..07e9718 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -38,6 +38,42 @@ def _testConvPole(seg, L, U, pole_eps = None):
         poleR = True
     return poleL, poleR
 
+def _segint_poles(fun, L, U, poles, **args):
+    """Integrate fun over (L, U), poles gives the points (other than
+    zero) close to which fun may be singular."""
+    eps = params.pole_detection.min_distance_from_pole
+    poleL = isfinite(L) and any(p != 0 and abs(p - L) <= eps * min(1, abs(p)) and p <= L + 1e-10 * abs(p) for p in poles)
+    poleU = isfinite(U) and any(p != 0 and abs(p - U) <= eps * min(1, abs(p)) and p >= U - 1e-10 * abs(p) for p in poles)
+    I, err = 0.0, 0.0
+    if (poleL or poleU) and U - L <= 16 * finfo(float).eps * max(abs(L), abs(U)):
+        return I, err # nothing but rounding errors
+    def finite_fun(t):
+        y = array(fun(t), dtype=float)
+        y[~isfinite(y)] = 0 # rounding may hit the pole itself
+        return y
+    if poleL or poleU:
+        M = L + min(abs(L), (U - L) / 2) if poleL else U - min(abs(U), (U - L) / 2)
+        if poleL:
+            i, e = _segint(finite_fun, L, M, force_poleL = True)
+            L = M
+        else:
+            i, e = _segint(finite_fun, M, U, force_poleU = True)
+            U = M
+        I += i
+        err += e
+        if poleL and poleU:
+            M = U - min(abs(U), (U - L) / 2)
+            i, e = _segint(finite_fun, M, U, force_poleU = True)
+            U = M
+            I += i
+            err += e
+    i, e = _segint(fun, L, U, **args)
+    return I + i, err + e
+
+def _pole_points(seg):
+    """Ends of the segment at which it is singular"""
+    return [p for p, pole in ((seg.a, seg.hasLeftPole()), (seg.b, seg.hasRightPole())) if pole]
+
 def _unique_breakpoints(breaks, eps = 4 * finfo(float).eps):
     """Make breakpoints list unique"""
     ubreaks = []
@@ -479,8 +515,6 @@ class Convxrunner(object):
             if segi.isSegment() and segj.isSegment():
                 cwiartka = (segi.a + segi.b) * (segj.a + segj.b)
                 i1=0
-                forcepoleL = False
-                forcepoleU = False
                 if cwiartka >0 :
                     if x>0:
                         L = max(segi.a, sign(segi.a+segi.b)*x/abs(segj.b))
@@ -497,7 +531,8 @@ class Convxrunner(object):
                         L = segi.a
                         U = segi.b
                         i1, e1 = _segint(funj, segj.a, segj.b)
-                i, e = _segint(funi, L, U, force_poleL = forcepoleL, force_poleU = forcepoleU )
+                poles = _pole_points(segi) + [x / p for p in _pole_points(segj) if p != 0]
+                i, e = _segint_poles(funi, L, U, poles)
                 i=i+i1
             elif segi.isDirac() and segj.isSegment():
                 i = segi.f*segj.f(x/segi.a)*1.0/abs(segi.a)   # TODO
@@ -561,7 +596,8 @@ class Convxrunner(object):
                     force_minf = True
                 if not isinf(U) and U > 0 and (isinf(segi.b) or isinf(segj.b)):
                     force_pinf = True
-                i, e = _segint(fun, L, U, force_minf, force_pinf)
+                poles = _pole_points(segj) + [p / x for p in _pole_points(segi) if x != 0]
+                i, e = _segint_poles(fun, L, U, poles, force_minf = force_minf, force_pinf = force_pinf)
 
             elif segi.isDirac() and segj.isSegment():
                 i = segi.f * segj.f(segi.a/x) * abs(segi.a)/x/x
@@ -609,7 +645,8 @@ class Convxrunner(object):
                     force_minf = True
                 if not isinf(U) and U > 0 and (isinf(segi.b) or isinf(segj.b)):
                     force_pinf = True
-                i, e = _segint(fun, L, U, force_minf, force_pinf)
+                poles = _pole_points(segi) + [p * x for p in _pole_points(segj)]
+                i, e = _segint_poles(fun, L, U, poles, force_minf = force_minf, force_pinf = force_pinf)
             elif segi.isDirac() and segj.isSegment():
                 assert (segi.a != 0.0)
                 i = segi.f * segj.f(segi.a/x) * abs(segi.a) / x / x
-- 
2.43.0


From 9e54bf5b41e23ba18386fecbae07c5eae58d7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 77/97] fix: minimum and maximum of singular densities

---
 pacal/indeparith.py | 64 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 07e9718..fd03a0e 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -296,7 +296,7 @@ class Convxrunner(object):
     def convminx(self, xx):
         """Probabilistic minimum of f and g, integral at points xx.
         """
-        if size(xx)==1:
+        if isscalar(xx):
             xx=asarray([xx])
         p_map = get_parmap()
         res = p_map(self.convminx_at_point, xx)
@@ -422,7 +422,8 @@ class Convxrunner(object):
                     funi = partial(funi_minx, segi, segj, x)
                     L = max(segi.a,x)
                     U = segi.b
-                    i, e = _segint(funi, L, U)
+                    poleL, poleU = _testConvPole(segi, L, U)
+                    i, e = _segint(funi, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)   # TODO
                     e=0
@@ -438,7 +439,8 @@ class Convxrunner(object):
                     funj = partial(funj_minx, segi, segj, x)
                     L = max(segj.a, x)
                     U = segj.b
-                    i, e = _segint(funj, L, U)
+                    poleL, poleU = _testConvPole(segj, L, U)
+                    i, e = _segint(funj, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -465,7 +467,8 @@ class Convxrunner(object):
                     L = segi.a
                     U = min(segi.b,x)
                     funi = partial(funi_maxx, segi, segj, x)
-                    i, e = _segint(funi, L, U)
+                    poleL, poleU = _testConvPole(segi, L, U)
+                    i, e = _segint(funi, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -481,7 +484,8 @@ class Convxrunner(object):
                     L = segj.a
                     U = min(segj.b,x)
                     funj = partial(funj_maxx, segi, segj, x)
-                    i, e = _segint(funj, L, U)
+                    poleL, poleU = _testConvPole(segj, L, U)
+                    i, e = _segint(funj, L, U, force_poleL = poleL, force_poleU = poleU)
                 elif segi.isDirac() and segj.isSegment():
                     i = segi.f*segj.f(x)
                     e=0
@@ -738,6 +742,48 @@ def epseq(a,b):
 #        wyn[j]=I
 #    return wyn
 
+def _addSegmentsWithPoles(fg, fun, a, b, left_pole, NoL, right_pole, NoR):
+    """Add to fg the function fun on (a, b) with poles at the given ends."""
+    if left_pole and right_pole:
+        m = (a + b) / 2.0
+        fg.addSegment(Segment(a, m, fun).toInterpolatedSegment(left_pole, NoL, False, False))
+        fg.addSegment(Segment(m, b, fun).toInterpolatedSegment(False, False, right_pole, NoR))
+    else:
+        fg.addSegment(Segment(a, b, fun).toInterpolatedSegment(left_pole, NoL, right_pole, NoR))
+
+def _addExtremumSegments(fg, segList, fun, a, b):
+    """Add to fg the density fun of a maximum or minimum on (a, b), it may be
+    singular where one of the densities in segList is."""
+    segs = [seg for pair in segList for seg in pair if seg.isSegment()]
+    NoL = any(seg.hasLeftPole() and seg.a == a for seg in segs)
+    NoR = any(seg.hasRightPole() and seg.b == b for seg in segs)
+    left_pole = NoL and testPole(fun, a, deriv = False)
+    right_pole = NoR and testPole(fun, b, pos = False, deriv = False)
+    _addSegmentsWithPoles(fg, fun, a, b, left_pole, NoL, right_pole, NoR)
+
+def _addProdDivSegments(fg, segList, op, fun, a, b, pole_at_zero = False):
+    """Add to fg the density fun of a product or quotient on (a, b).  It may be
+    singular at zero and where an atom scales a singular density."""
+    points = []
+    for segi, segj in segList:
+        if segi.isDirac() and segj.isSegment():
+            points += [op(segi.a, p) for p in _pole_points(segj) if p != 0]
+        elif segi.isSegment() and segj.isDirac():
+            points += [op(p, segj.a) for p in _pole_points(segi)]
+    def near(x):
+        return any(abs(p - x) <= 1e-14 * abs(x) for p in points)
+    NoL = a == 0 or near(a)
+    NoR = b == 0 or near(b)
+    if a == 0:
+        left_pole = pole_at_zero or testPole(fun, a, pos = True)
+    else:
+        left_pole = NoL and testPole(fun, a, pos = True, deriv = False)
+    if b == 0:
+        right_pole = pole_at_zero or testPole(fun, b, pos = False)
+    else:
+        right_pole = NoR and testPole(fun, b, pos = False, deriv = False)
+    _addSegmentsWithPoles(fg, fun, a, b, left_pole, NoL, right_pole, NoR)
+
 def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpoint !!!
     """Probabilistic minimum of f and g.
     """
@@ -771,9 +817,7 @@ def convmin(f, g): #TODO : NOW  segments of f and g should have the same breakpo
             continue
         #fun = partial(convminx, segList)
         fun = Convxrunner(segList, params.integration_finite).convminx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        _addExtremumSegments(fg, segList, fun, ub[i], ub[i+1])
     fg_discr = convdiracs(f, g, fun = op)
 
     # Discrete parts of distribution
@@ -864,9 +908,7 @@ def convmax(f, g):
             continue
         #fun = partial(convmaxx, segList)
         fun = Convxrunner(segList, params.integration_finite).convmaxx
-        seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        _addExtremumSegments(fg, segList, fun, ub[i], ub[i+1])
     # Discrete parts of distribution
     fg_discr  =_probDiracsInMax(f, g)
     fg.add_diracs(fg_discr)
-- 
2.43.0


From 49b0874d3e44ed1a4db0a68859f3741cc578ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 78/97] fix: products and quotients with atoms keep poles away
 from zero

---
 pacal/indeparith.py | 63 ++-------------------------------------------
 1 file changed, 2 insertions(+), 61 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index fd03a0e..abcc524 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1041,37 +1041,7 @@ def convprod(f, g):
             continue
         #fun = partial(convprodx, segList)
         fun = Convxrunner(segList, params.integration_finite).convprodx
-        _NoL = False
-        _NoR = False
-        if (ub[i] == 0):
-            if pole_at_zero or testPole(fun, ub[i], pos = True):
-                #segint = InterpolatedSegmentWithPole(ub[i],ub[i+1], fun, left_pole = True)
-                if params.segments.debug_info:
-                    print("probably pole at 0 left prod", fun(0.0))
-                seg = SegmentWithPole(ub[i],ub[i+1], fun, left_pole = True)
-            else:
-                if params.segments.debug_info:
-                    print("probably no pole at 0 left prod", fun(0.0))
-                seg = Segment(ub[i],ub[i+1], fun)
-                _NoL = True
-        elif (ub[i+1] == 0): # TODO add proper condition
-            #segint = InterpolatedSegmentWithPole(ub[i],ub[i+1], fun, left_pole = False)
-            if pole_at_zero or testPole(fun, ub[i+1], pos = False):
-                if params.segments.debug_info:
-                    print("probably pole at 0 right prod", fun(0.0))
-                seg = SegmentWithPole(ub[i],ub[i+1], fun, left_pole = False)
-            else:
-                if params.segments.debug_info:
-                    print("probably no pole at 0 right prod", fun(0.0))
-                seg = Segment(ub[i],ub[i+1], fun)
-                _NoR = True
-        else:
-            if params.segments.debug_info:
-                print("probably no pole prod")
-            seg = Segment(ub[i],ub[i+1], fun)
-        segint = seg.toInterpolatedSegment(NoL = _NoL, NoR = _NoR)
-        #segint = seg.toInterpolatedSegment()
-        fg.addSegment(segint)
+        _addProdDivSegments(fg, segList, op, fun, ub[i], ub[i+1], pole_at_zero)
 
     # Discrete parts of distributions
     fg_discr = convdiracs(f, g, fun = operator.mul)
@@ -1244,36 +1214,7 @@ def convdiv(f, g):
             continue
         #fun = partial(fun_div, segList)
         fun = Convxrunner(segList, params.integration_infinite).fun_div
-        _NoL = False
-        _NoR = False
-        if (ub[i] == 0):
-            if testPole(fun, ub[i], pos = True):
-                #segint = InterpolatedSegmentWithPole(ub[i],ub[i+1], fun, left_pole = True)
-                if params.segments.debug_info:
-                    print("probably pole at 0 left div", fun(0.0))
-                seg = SegmentWithPole(ub[i], ub[i+1], fun, left_pole = True)
-            else:
-                if params.segments.debug_info:
-                    print("probably no pole at 0 left div", fun(0.0))
-                seg = Segment(ub[i], ub[i+1], fun)
-                _NoL = True
-        elif (ub[i+1] == 0): # TODO add proper condition
-            #segint = InterpolatedSegmentWithPole(ub[i],ub[i+1], fun, left_pole = False)
-            if testPole(fun, ub[i+1], pos = False):
-                if params.segments.debug_info:
-                    print("probably pole at 0 right div", fun(0.0))
-                seg = SegmentWithPole(ub[i], ub[i+1], fun, left_pole = False)
-            else:
-                if params.segments.debug_info:
-                    print("probably no pole at 0 right div", fun(0.0))
-                seg = Segment(ub[i], ub[i+1], fun)
-                _NoR = True
-        else:
-            if params.segments.debug_info:
-                print("probably no pole div",  fun(0.0))
-            seg = Segment(ub[i], ub[i+1], fun)
-        segint = seg.toInterpolatedSegment(NoL = _NoL, NoR = _NoR)
-        fg.addSegment(segint)
+        _addProdDivSegments(fg, segList, operator.truediv, fun, ub[i], ub[i+1])
     # Discrete parts of distributions
     try:
         fg_discr = convdiracs(f, g, fun = operator.truediv)
-- 
2.43.0


From 288429ceebf4c27eb0703a7a3b9a00b2b095a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 79/97] fix: density at the image of infinity is the limit

---
 pacal/segments.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 1cdfa4b..2ffdf77 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -41,11 +41,19 @@ def prob_comp_fun(f, ginv, ginvderiv, x):
         y = f(ginv(x)) * abs(ginvderiv(x))
         y[~isfinite(y)] = 0
     return y
-def _limit_at_zero(fun, x0, x):
-    """fun with the value at x0, close to zero, standing for the limit at zero"""
+def _call_with_value(fun, x0, y0, x):
+    """fun with the value y0 at x0"""
     if isscalar(x):
-        return fun(x0 if x == 0 else x)
-    return fun(where(x == 0, x0, x))
+        return y0 if x == x0 else fun(x)
+    return where(x == x0, y0, fun(x))
+def _with_limit(fun, x0, x1):
+    """fun with the limit at x0 (where it cannot be evaluated) as the value
+    there; x1 is another end of the interval."""
+    h = 1e-10 if x0 == 0 else 1e-7
+    y1, y2 = fun(x0 + h * (x1 - x0)), fun(x0 + 100 * h * (x1 - x0))
+    if not y1 > 0.5 * y2:
+        y1 = 0.0 # the function vanishes
+    return partial(_call_with_value, fun, x0, y1)
 def _inner_point(a, b):
     """A point inside of the interval (a, b)"""
     if isinf(a):
@@ -386,6 +394,9 @@ class Segment(object):
                 pole_a = testPole(fun, g(self.a), pos = increasing, deriv = False)
             if isinf(self.b):
                 pole_b = testPole(fun, g(self.b), pos = not increasing, deriv = False)
+            for y, pole in ((self.a, pole_a), (self.b, pole_b)):
+                if isinf(y) and not pole:
+                    fun = _with_limit(fun, g(y), g(_inner_point(self.a, self.b)))
             if g(self.a) < g(self.b):
                 pole_a = pole_a or (g(self.a)==0.0 and pole_at_zero)
                 return _segment_with_ends(g(self.a), g(self.b), fun, pole_a, pole_b)
@@ -425,7 +436,7 @@ class Segment(object):
             if self.isPInf():
                 pole_b = pole_at_zero or self._heavyTail()
             if self.isMorPInf() and not (pole_a or pole_b):
-                fun = partial(_limit_at_zero, fun, 1e-10 * g(_inner_point(self.a, self.b)))
+                fun = _with_limit(fun, 0.0, g(_inner_point(self.a, self.b)))
             return _segment_with_ends(g(self.b), g(self.a), fun, pole_b, pole_a)
     def _heavyTail(self):
         """Does the density decrease slower than x**-2 at infinity?"""
-- 
2.43.0


From 29543a4dd80b397cb6c9841cb81c4cc2a95858d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 80/97] fix: pdf of a function of a variable at a pole of the
 inverse

---
 pacal/distr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index c6d5dc4..ed6d788 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -584,6 +584,8 @@ class FuncDistr(FuncRV, OpDistr):
         """Range of f over the range r of the argument."""
         return _image_range(self.f, r)
     def pdf(self, x):
+        if isscalar(x):
+            x = numpy.float64(x) # no exceptions at poles of the inverse
         y = self.d.pdf(self.f_inv(x)) * abs(self.f_inv_deriv(x))
         if isscalar(x):
             if not isfinite(y):
-- 
2.43.0


From b7969cc13d91f139e4e06b4dfd89545b5d56c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 81/97] fix: log interpolation of a tail evaluated its first
 node outside of the tail

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index fe63d3c..ca7308e 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -528,7 +528,7 @@ class LogTransformInterpolator(ChebyshevInterpolatorNoR):
                                                        par=params.interpolation_asymp,
                                                        *args, **kwargs)
     def spec_f(self, x):
-        return log(abs(self.wrapped_f(self.xt(x))))
+        return log(abs(self.wrapped_f(maximum(self.xt(x), self.orig_a))))
     def interp_at(self, x):
         if isscalar(x):
             if x > self.orig_b:
-- 
2.43.0


From ed658e040afd0a59f828676016e14a5eaea98173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:47 +0000
Subject: [PATCH 82/97] fix: functions given as bound methods in parallel mode

---
 pacal/segments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 2ffdf77..682daf1 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -136,12 +136,12 @@ def _prob_composition2(f, ginv, ginvderiv, x):
 def _prob_composition_safe(f, ginv, ginvderiv, x):
     return _safe_call(f(ginv(x)) * abs(ginvderiv(x)))
 
-def _call_f(obj, x):
-    return obj.f(x)
+def _call_f(obj, name, x):
+    return getattr(obj, name)(x)
 def wrap_f(f):
     if params.general.parallel:
         if is_instance_method(f):
-            return partial(_call_f, f.__self__)
+            return partial(_call_f, f.__self__, f.__name__)
         return f
     return f
 def _safe_fun_on_f_call(seg, fun, x):
-- 
2.43.0


From c74f8ff1f866e6983e6f2be1a035b56201612f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:52 +0000
Subject: [PATCH 83/97] fix: integration routines shadowed the function that
 plots a failed integral

---
 pacal/integration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/integration.py b/pacal/integration.py
index 6641d90..4cb6fdd 100644
--- a/pacal/integration.py
+++ b/pacal/integration.py
@@ -28,7 +28,7 @@ from .utils import cheb_nodes, incremental_cheb_nodes
 from .utils import combine_interpolation_nodes_fast
 from .utils import combine_interpolation_nodes_fast_vector
 from .utils import convergence_monitor
-from .utils import debug_plot
+from .utils import debug_plot as show_debug_plot
 
 from .vartransforms import VarTransformAlgebraic_PMInf
 from .vartransforms import VarTransformAlgebraic_PInf
@@ -117,7 +117,7 @@ def integrate_clenshaw(f, a, b, maxn = 2**16, tol = 10e-16,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        show_debug_plot(a, b, nodes, fs, coeffs)
     return I, err
 
 def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
@@ -157,7 +157,7 @@ def integrate_fejer2(f, a, b, par = None, maxn = 2**10, tol = finfo(double).eps,
     if debug_info:
         print("====")
     if debug_plot and n >= maxn: # problems with integration
-        debug_plot(a, b, nodes, fs, coeffs)
+        show_debug_plot(a, b, nodes, fs, coeffs)
     # return currently best result
     I, err, _extra = cm.get_best_result()
     return I, err
-- 
2.43.0


From bad475117d6737119e8f4958c61bf1680f043783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 84/97] fix: trim of a Chebyshev interpolant dropped negative
 coefficients

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index ca7308e..546f51e 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -258,7 +258,7 @@ class ChebyshevInterpolator(BarycentricInterpolator, AdaptiveInterpolator):
         c = chebt2(self.Ys)
         if abstol is None:
             abstol = params.interpolation.convergence.abstol
-        while c[0] < abstol:
+        while len(c) > 1 and abs(c[0]) < abstol:
             c = c[1:]
         Ydiffvals = ichebt2(c)
         Ydiffvals = flipud(Ydiffvals)
-- 
2.43.0


From a08a189785f84d0072fc4cc9ac61a146e3279a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 85/97] fix: roots of an interpolant were only looked for
 between its outermost nodes

---
 pacal/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 546f51e..c2149cc 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -178,14 +178,15 @@ class BarycentricInterpolator(Interpolator):
             roots = roots[unit]
             return (roots*(self.Xs[-1]-self.Xs[0])+(self.Xs[0]+self.Xs[-1]))*0.5
         else:
-            Ys = self.interp_at(chebspace(self.Xs[0], self.Xs[-1], self.n))
+            # the nodes do not reach both ends of the interval
+            Ys = self.interp_at(chebspace(self.a, self.b, self.n))
             cs = flipud(chebt2(Ys))
             roots = chebroots(cs)
             reals = abs(imag(roots)) < params.interpolation.convergence.abstol
             roots = real(roots[reals])
             unit = (roots>-1.0) & (roots < 1.0)
             roots = roots[unit]
-            return (roots*(self.Xs[-1]-self.Xs[0])+(self.Xs[0]+self.Xs[-1]))*0.5
+            return (roots*(self.b-self.a)+(self.a+self.b))*0.5
     def trim(self, abstol=None):
         return self
 class AdaptiveInterpolator(object):
-- 
2.43.0


From ef5e98c2aede5cdfa3fd3b2773c8bf37fc8aeb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 86/97] fix: nodes of an interpolant with a negative pole lost
 the sign of their values

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index c2149cc..93b851e 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -667,7 +667,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x))) / self.fscale
         return y
     def getNodes(self):
-        return self.xt(self.Xs), expm1(self.Ys) / self.fscale
+        return self.xt(self.Xs), self.sign * expm1(self.Ys) / self.fscale
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
-- 
2.43.0


From d5540a19b0165fe6c31c847c5e237bddf150a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 87/97] fix: plain interpolation through one node returned a
 number for an array

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 93b851e..5f72387 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -69,7 +69,7 @@ class Interpolator(object):
         Slow."""
         ret = 0
         for i, xi in enumerate(self.Xs):
-            weight = 1.0
+            weight = 0.0 * x + 1.0
             for j, xj in enumerate(self.Xs):
                 if j != i:
                     weight *= (x - xj) / (xi - xj)
-- 
2.43.0


From cf28def47c7ddc8d2982e34b1905771a4a351c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 88/97] fix: small leading coefficients spoiled all roots of an
 interpolant

---
 pacal/utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index a1eaab7..49bcdbd 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -30,7 +30,7 @@ from numpy import finfo, double, isscalar, asarray
 from pylab import plot, loglog, show, semilogx, sqrt, figure
 from pylab import real, ones_like
 from numpy import zeros, sort
-from numpy.linalg import eigvals
+from scipy.linalg import eigvals
 from numpy.fft import fft, ifft
 from numpy import real, concatenate, linspace, argmin
 
@@ -215,17 +215,23 @@ def ichebt1(c):
     return f
 
 def cheb1companion(c):
-    """s_n[f] = sum_{i=0}^n c_i T_i(x)"""
+    """s_n[f] = sum_{i=0}^n c_i T_i(x)
+
+    Returned as a matrix pencil: small leading coefficients do not
+    spoil the other roots."""
     n = len(c)
+    c = c / abs(c).max()
     CT = np.zeros((n-1, n-1))
     CT[0,1] = 1
     i=np.arange(1,n-2)
     CT[i, i-1] = 0.5
     CT[i, i+1] = 0.5
     i=np.arange(0,n-1)
-    CT[-1, i] = -.5*c[0:-1]/c[-1]
-    CT[-1, -2] = CT[-1, -2] + .5
-    return CT
+    CT[-1, i] = -.5*c[0:-1]
+    CT[-1, -2] = CT[-1, -2] + .5*c[-1]
+    B = np.eye(n-1)
+    B[-1, -1] = c[-1]
+    return CT, B
 def chebroots(c):
     c = np.asarray(c)
     # leading coefficients which are rounding errors make the problem singular
@@ -234,7 +240,8 @@ def chebroots(c):
         return np.array([])
     if len(c) == 2:
         return np.array([-c[0] / c[1]])
-    return np.sort(eigvals(cheb1companion(c)))
+    roots = eigvals(*cheb1companion(c))
+    return np.sort(roots[np.isfinite(roots)])
 def epsunique(tab, eps = params.segments.unique_eps):
     ub = np.unique(tab[isnan(tab)==False])
     return ub[~np.isfinite(ub) | np.hstack((True, (np.diff(ub)/np.maximum(1,np.abs(ub[1:])))>eps))]
-- 
2.43.0


From 5f53ed68368c5a92775d0457275bea9cf15077f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 89/97] fix: independence copula: product kept the type of the
 first argument; margins are copulas

---
 pacal/depvars/copulas.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 0dcd81e..28de75a 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -296,10 +296,15 @@ class PiCopula(Copula):
     def cpdf(self, *X):
         return ones_like(X[0])
     def ccdf(self, *X):
-        pi = ones_like(X[0])
-        for xi in X:
-            pi *= xi
+        pi = np.asarray(X[0], dtype=float)
+        for xi in X[1:]:
+            pi = pi * xi
         return pi
+    def eliminate(self, var):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        return PiCopula([self.marginals[i] for i in c_var])
 class MCopula(Copula):
     def __init__(self, marginals=None):
         super(MCopula, self).__init__(marginals)
-- 
2.43.0


From 61b791ef469a3dcdf51a319d6815623dc12b0c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 90/97] fix: upper bound copula was the last argument for
 numbers, had no margins and no Kendall's tau

---
 pacal/depvars/copulas.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 28de75a..be90c08 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -312,15 +312,21 @@ class MCopula(Copula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        mi = zeros_like(X[0])+1
-        for xi in X[0:]:
-            xia = array(xi)
-            ind = xia < mi
-            if isscalar(mi) | size(mi)==1:
-                mi = xia
-            else:
-                mi[ind] = xia[ind]
+        mi = np.asarray(X[0], dtype=float)
+        for xi in X[1:]:
+            mi = np.minimum(mi, xi)
         return mi
+    def eliminate(self, var):
+        var, c_var = self.prepare_var(var)
+        if len(var) == 0:
+            return self
+        return type(self)([self.marginals[i] for i in c_var])
+    def ctau(self, i=None, j=None):
+        """The bounds have no density, all their mass lies on a curve"""
+        if i is not None and j is not None:
+            return 1
+        return super(MCopula, self).ctau()
+    tau = ctau
     def _segmin(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         xopt = fmin2(lambda x: fun(float(x)), L, U, xtol = 1e-16)
-- 
2.43.0


From 91feab4245905b3b31e1ce5acfc47495dd03afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 91/97] fix: lower bound copula exceeded one in three
 dimensions, had no Kendall's tau

---
 pacal/depvars/copulas.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index be90c08..ca406ad 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -393,17 +393,15 @@ class WCopula(MCopula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        si = zeros_like(X[0])
-        for xi in X[0:]:
-            si += array(xi)
-        si = si - 1
-        ind = (si < 0)
-        if isscalar(si) | size(si)==1:
-            if ind:
-                si = 0.0
-        else:
-            si[ind] = 0
-        return si
+        si = np.asarray(X[0], dtype=float)
+        for xi in X[1:]:
+            si = si + xi
+        return np.maximum(si - (len(X) - 1), 0.0)
+    def ctau(self, i=None, j=None):
+        if i is not None and j is not None:
+            return 1 if i == j else -1
+        return super(WCopula, self).ctau()
+    tau = ctau
     def _segmax(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         #xopt = fminbound(fun, L, U, xtol = 1e-16)
-- 
2.43.0


From a5493f05ecabf6b8d94e8c80a233fa1de35cd755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 92/97] fix: Archimedean copulas raised for numbers at zero

---
 pacal/depvars/copulas.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index ca406ad..b57ce5b 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -459,14 +459,11 @@ class ArchimedeanCopula(Copula):
         return si * pi
     def ccdf(self, *X):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
-        si = zeros_like(X[0])
+        si = 0.0
         for xi in X:
-            si += self.fi(xi)
-        ind = (si < 0) # or isnan(si)
-        #if len(ind)>0:
-        si[ind] = 0.0
-        si = self.fi_inv(si)
-        return si
+            si = si + self.fi(np.asarray(xi, dtype=float))
+        si = np.maximum(si, 0.0)
+        return self.fi_inv(si)
 class ArchimedeanSymbolicCopula(ArchimedeanCopula):
     # TODO
     def __init__(self,
-- 
2.43.0


From efaf54565a6931d7d86641229d9a30c334be1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 93/97] fix: conditional law under a copula vanished outside of
 the unit square of values and was not normalised, refused arrays and mixed up
 variables

---
 pacal/depvars/copulas.py | 49 +++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index b57ce5b..f6c28fa 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -517,8 +517,10 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
                 DC = sympy.diff(DC, self.symVars[i])
             else:
                 pass
-        dC = sympy.lambdify(self.symVars, DC, "numpy")
-        return NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))       
+        dC = NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))
+        # function on the unit cube, not on the ranges of marginals
+        dC.a, dC.b = zeros(self.d), ones_like(zeros(self.d))
+        return dC
 
     def condition(self, var, *X):
         """It returns conditional pdf for given copula
@@ -527,19 +529,14 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         var, c_var = self.prepare_var(var)
         num = self.pdf
         den = self.eliminate(c_var)
+        dX = den.pdf(*[x for v, x in sorted(zip(var, X))])
         def fun_(*Y_):
-            j, k = 0, 0
-            Y, Yvar = [], []
-            #dF = ones_like(X[0])
-            for i in range(len(self.Vars)):
-                if i in set(var):
-                    Y.append(X[j])
-                    Yvar.append(X[j])
-                    j += 1
-                else:
-                    Y.append(Y_[k])
-                    k += 1
-            return num(*Y) / den.pdf(*X)
+            Y = [None] * self.d
+            for v, x in zip(var, X):
+                Y[v] = zeros_like(Y_[0], dtype=float) + x
+            for v, y in zip(c_var, Y_):
+                Y[v] = y
+            return num(*Y) / dX
         return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def conditionCDF(self, var, *X):
         """It returns conditional cdf for given copula
@@ -547,21 +544,17 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         """
         funcond = self.ccond(var)
         var, c_var = self.prepare_var(var)
-        new_cond = var
+        U = [np.float64(self.marginals[v].get_piecewise_cdf()(x)) for v, x in zip(var, X)]
+        # density of the conditioning variables
+        den = self.eliminate(c_var).cpdf(*U) if len(var) > 1 else 1.0
         def fun_(*Y_):
-            j, k = 0, 0
-            Y = []
-            dF = ones_like(X[0])
-            for i in range(len(self.Vars)):
-                if i in set(var):
-                    Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
-                    j += 1
-                else:
-                    Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
-                    dF *= self.marginals[i].get_piecewise_pdf()(Y_[k])
-                    k += 1
-            return funcond(*Y)
-        return NDFun(len(new_cond), [self.Vars[i] for i in c_var], fun_)
+            Y = [None] * self.d
+            for v, u in zip(var, U):
+                Y[v] = zeros_like(Y_[0], dtype=float) + u
+            for v, y in zip(c_var, Y_):
+                Y[v] = self.marginals[v].get_piecewise_cdf()(y) + zeros_like(Y[var[0]])
+            return funcond(*Y) / den
+        return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def condfun(self, var):
         """It returns conditional cdf function f([var, c_vars]) = Pr(Y<c_var | var)
         """
-- 
2.43.0


From 3f839a6eb981a3a056c1a4c44464a2b6d2123032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 94/97] fix: covariance under a copula used the second variable
 whatever was asked for and printed

---
 pacal/depvars/copulas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index f6c28fa..fea5bbc 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -196,12 +196,11 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = self.marginals[min(var)], self.marginals[max(var)]
             fmean = f.mean()
             gmean = g.mean()
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
-            print(fmean, gmean, var, c_var, f0, f1, g0, g1)
             if i == j:
                 c, e = c, e = integrate_fejer2(lambda x: (x - fmean) ** 2 * f.pdf(x), f0, f1)                  
             else:
@@ -217,7 +216,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = self.marginals[min(var)], self.marginals[max(var)]
             return self.cov(i, j)/f.std()/g.std()
         else:
             c = zeros((self.d, self.d))
@@ -231,7 +230,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = self.marginals[min(var)], self.marginals[max(var)]
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
             if i == j:
-- 
2.43.0


From 575803374a7f1c57daa80a400e08b2dd1cd2c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 95/97] fix: two-variable models failed when an equation has no
 solution at a limit

---
 pacal/depvars/models.py | 62 ++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 41 deletions(-)

diff --git a/pacal/depvars/models.py b/pacal/depvars/models.py
index 07120e7..56b37c7 100644
--- a/pacal/depvars/models.py
+++ b/pacal/depvars/models.py
@@ -482,48 +482,28 @@ class TwoVarsModel(Model):
         self.lJx = my_lambdify([x, z], self.Jx, "numpy")
         self.lJy = my_lambdify([y, z], self.Jy, "numpy")
         self.z = z
-    def solveCutsX(self, fun, ay, by):
-        axc = eq_solve(fun, ay, self.symvars[0])[0]
-        bxc = eq_solve(fun, by, self.symvars[0])[0]
-        return (axc, bxc)
-    def solveCutsY(self, fun, ax, bx):
-        #ayc = eq_solve(fun - ay, self.z)[0]
-        #byc = eq_solve(fun - by, self.z)[0]
-        ayc = fun.subs(self.symvars[0], ax)
-        byc = fun.subs(self.symvars[0], bx)
-        return (ayc, byc)
     def getUL(self, ax, bx, ay, by, z):
-        axcz, bxcz = self.solveCutsX(self.fun_alongx, ay, by)
-        axc = axcz.subs(self.z, z)
-        bxc = bxcz.subs(self.z, z)
-        if not axc.is_extended_real:  # allow inf
-            axc = None
-        if not bxc.is_extended_real:
-            bxc = None
-        aycz, bycz = self.solveCutsY(self.fun_alongx, ax, bx)
-        ayc = aycz.subs(self.z, z)
-        byc = bycz.subs(self.z, z)
-        if not ayc.is_extended_real:
-            ayc = None
-        if not byc.is_extended_real:
-            byc = None
-        #print("========")
-        #print(ay, ayc, by)
-        #print(ay, byc, by)
-        #print(ax,bx,axc, bxc)
-        if (ay < ayc and ayc < by):
-            L = ax
-        else:
-            L = min(max(axc, ax), min(bxc, bx))
-        if (ay < byc and byc < by):
-            U = bx
-        else:
-            U = max(max(axc, ax), min(bxc, bx))
-        if L < U:
-            pass
-        else:
-            L, U = U, L
-        return max(ax, L), min(bx, U)
+        """Range of the first variable on which the curve keeps the
+        second one between ay and by"""
+        x = self.symvars[0]
+        cuts = []
+        for yc in (ay, by):
+            for s in eq_solve(self.fun_alongx, yc, x):
+                s = s.subs(self.z, z)
+                if s.is_extended_real and ax < s < bx:
+                    cuts.append(float(s))
+        cuts = [ax] + sorted(cuts) + [bx]
+        inside = []
+        for L, U in zip(cuts[:-1], cuts[1:]):
+            if isinf(L):
+                mid = 0.0 if isinf(U) else U - 1
+            else:
+                mid = L + 1 if isinf(U) else (L + U) / 2
+            if ay < self.lfun_alongx(mid, z) < by:
+                inside.append((L, U))
+        if len(inside) == 0:
+            return ax, ax
+        return inside[0][0], inside[-1][1]
 
     def plotFrame(self, ax, bx, ay, by):
         figure()
-- 
2.43.0


From 8b1e9d1120733645c88325e960d0b56644721738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 96/97] fix: function of several numbers was evaluated when
 only one of them was in its range

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 0543ae8..2d34532 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -80,7 +80,7 @@ class NDFun(object):
         elif isscalar(X[0]):
             mask = (X[0] >= self.a[0]) and (X[0] <= self.b[0])
             for i in range(1, len(X)):
-                mask = mask or ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
+                mask = mask and ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
             if mask:
                 y = self.fun(*X)
             else:
-- 
2.43.0


From b6aab894f2a84280a1467554ea6181c3fba641c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:45 +0000
Subject: [PATCH 97/97] fix: sum of a generator in sparse grid messages raised

---
 pacal/depvars/sparse_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/sparse_grids.py b/pacal/depvars/sparse_grids.py
index ce8ba33..d5dda3e 100644
--- a/pacal/depvars/sparse_grids.py
+++ b/pacal/depvars/sparse_grids.py
@@ -189,7 +189,7 @@ class AdaptiveSparseGridInterpolator(object):
             c = (-1)**(q-si) * binomial_coeff(self.d - 1, q-si)
             subgrid_map[p] = (c, array(subgrid_indices))
         if params.interpolation_nd.debug_info:
-            print(len(subgrid_map), "rect. subgrids,", sum(len(subgrid_map[k]) for k in subgrid_map), "ops per X,", len(nodes), "nodes,", end=' ')
+            print(len(subgrid_map), "rect. subgrids,", sum([len(subgrid_map[k]) for k in subgrid_map]), "ops per X,", len(nodes), "nodes,", end=' ')
             print("full grid size", self.exps[q-self.d+1]**self.d, "dim", self.d)
         return nodes, subgrid_map
 
-- 
2.43.0

