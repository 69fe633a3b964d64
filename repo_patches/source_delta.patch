From c041e4f8f1f578f26b4195fc773c929cc374db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 01/55] fix: Points rejects bad points before announcing an
 update

---
 curvepy/points.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..5c1390d 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,10 +76,11 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self.begin_update(domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -91,17 +92,18 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
+        nearest_i = int(math.ceil(self.x_index(point[0])))
+        nearest_p = self._points[nearest_i]
+        is_between_points = point[0] != nearest_p[0]
+        if is_between_points and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
         update_domain = Interval.point(point[0])
         self.begin_update(update_domain)
 
-        nearest_i = int(math.ceil(self.x_index(point[0])))
-        nearest_p = self._points[nearest_i]
-        if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+        if is_between_points:
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
@@ -166,10 +168,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From 3ca2417c998856afdcefda5bd719ef4aa40a82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 02/55] fix: Points treats irregularly spaced interior points
 as irregular

---
 curvepy/points.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 5c1390d..3d69af7 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,7 +76,7 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        is_equally_spaced = self._points_equally_spaced(self._points, points)
+        is_equally_spaced = self.is_uniform and self._points_equally_spaced(self._points, points)
         if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
         self.begin_update(domain)
@@ -225,7 +225,17 @@ class Points(Curve):
             interval = new_points[1][0] - new_points[0][0]
 
         expected_last_x = start + interval * steps
-        return new_points[-1][0] == expected_last_x
+        if new_points[-1][0] != expected_last_x:
+            return False
+
+        # Points in between must be equally spaced as well
+        tolerance = abs(interval) * 1e-6
+        first_step = steps - new_points_len + 1
+        for i in range(new_points_len - 1):
+            expected_x = start + interval * (first_step + i)
+            if abs(new_points[i][0] - expected_x) > tolerance:
+                return False
+        return True
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From d96df40b1917debaff0fe13565e56b22ccdd1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 03/55] fix: Points.set can change the spacing of the points

---
 curvepy/points.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 3d69af7..f219c86 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -76,7 +76,7 @@ class Points(Curve):
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
-        is_equally_spaced = self.is_uniform and self._points_equally_spaced(self._points, points)
+        is_equally_spaced = self.is_uniform and self._points_equally_spaced(self._points, points, self.interval)
         if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
         self.begin_update(domain)
@@ -162,13 +162,17 @@ class Points(Curve):
         """
         `points` are assumed to be strictly ordered in ascending order w.r.t. to `x`.
         """
-        if update_domain is None:
+        is_partial_update = update_domain is not None
+        if not is_partial_update:
             points_len = len(points)
             if points_len == 0:
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        is_equally_spaced = self._points_equally_spaced([], points)
+        # All points are replaced unless only a part is being updated,
+        # so the current interval must not constrain the new points.
+        interval = self.interval if is_partial_update else None
+        is_equally_spaced = self._points_equally_spaced([], points, interval)
         if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
         self.begin_update(update_domain)
@@ -204,7 +208,7 @@ class Points(Curve):
         if len_points > 1:
             self.interval = (self._points[-1][0] - self._points[0][0]) / (len_points - 1)
 
-    def _points_equally_spaced(self, old_points, new_points):
+    def _points_equally_spaced(self, old_points, new_points, interval):
         old_points_len = len(old_points)
         new_points_len = len(new_points)
         if new_points_len == 0 or old_points_len + new_points_len < 2:
@@ -217,12 +221,11 @@ class Points(Curve):
             start = new_points[0][0]
             steps = new_points_len - 1
 
-        if self.interval is not None:
-            interval = self.interval
-        elif old_points_len == 1:
-            interval = new_points[0][0] - old_points[-1][0]
-        else:
-            interval = new_points[1][0] - new_points[0][0]
+        if interval is None:
+            if old_points_len == 1:
+                interval = new_points[0][0] - old_points[-1][0]
+            else:
+                interval = new_points[1][0] - new_points[0][0]
 
         expected_last_x = start + interval * steps
         if new_points[-1][0] != expected_last_x:
-- 
2.43.0


From 7730037803abf4d62b03e6dc8bc3e482dc48ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 04/55] fix: SMA interpolates between steps in the right
 direction

---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..c7bbaf1 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -107,7 +107,7 @@ class SMA(Integral):
             if sma01 is None:
                 return None
             u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
+            sma = (1 - u) * sma01 + u * sma1
             return sma
         return sma
 
-- 
2.43.0


From 8236c0bf910dd4b92ee9816d4fe83e0ea863b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 05/55] fix: Sin derivative accounts for the frequency

---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..0045b71 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -40,5 +40,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From 5906265445c5a3e78cec20bb521912fbcc79df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:03 +0000
Subject: [PATCH 06/55] fix: Quotes.trailing_low is the trailing minimum

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..411d5e7 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From b1aeadaa7f1fc6eb5628c307a9ee9bc2d31df9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 07/55] fix: Quotes.get_range reads quotes as lists

---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 411d5e7..bc51bf3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From d79e8c1ca8339d89ac69f9a08aed429185045424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 08/55] fix: Quotes.append encodes a quote once

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index bc51bf3..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From fa4524e1835d4fb52c89f22de12f5c9ce99cc52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 09/55] fix: Scan discards values scanned while its source was
 updating

---
 curvepy/scan.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..85d1cec 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -97,9 +97,7 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
-        if self.current is not None:
-            if domain.start < self.current or (domain.start == self.current and not domain.start_open):
-                self.reset_scan()
+        self._reset_scan_if_stale(domain)
 
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
@@ -108,7 +106,14 @@ class Scan(Curve):
 
     def end_scan_update(self, domain):
         domain = self._update_interval(domain)
+        # A begin callback may have scanned values which were about to change
+        self._reset_scan_if_stale(domain)
         self.end_update(domain)
 
+    def _reset_scan_if_stale(self, domain):
+        if self.current is not None:
+            if domain.start < self.current or (domain.start == self.current and not domain.start_open):
+                self.reset_scan()
+
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 65c45806fed42c61845db7deafbd3a3486d59e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 10/55] fix: Extremas does not keep or repeat extremas of
 replaced points

---
 curvepy/extremas.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..b263776 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,7 +17,8 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(
+            begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
         self.ref_func.remove_observer(self._ref_observer_token)
@@ -62,26 +63,11 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
-        # remove stale points
-        for i in reversed(range(len(self.extremas))):
-            x = self.extrema_xs[i]
-            if domain.contains(x):
-                self._remove_extrema_index(i)
-            elif domain.start > x:
-                break
-
-        # scan from last extrema
-        extrema_count = len(self.extremas)
-        if extrema_count == 0:
-            self.current = None
-        else:
-            last_extrema = self.extremas[-1]
-            x = last_extrema[0]
-            self.current = x
-            self.possible_extrema = last_extrema
-            self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
+    def reset_scan(self):
+        super().reset_scan()
+        self.extremas = []
+        self.extrema_xs = []
+        self._did_update_extremas()
 
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
@@ -113,11 +99,6 @@ class Extremas(Scan):
             self.possible_extrema = (x, y)
             self.possible_extrema_phase = phase
     
-    def _remove_extrema_index(self, i):
-        del self.extremas[i]
-        del self.extrema_xs[i]
-        self._did_update_extremas()
-
     def _confirm_extrema(self):
         extrema = self.possible_extrema
 
-- 
2.43.0


From 25a2519461cb1508b15a72041651f6889fa8e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 11/55] fix: sample_points respects open ends of the sampled
 domain

---
 curvepy/curve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..9932935 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -183,13 +183,13 @@ class Curve:
             points = [(x_start, self.y(x_start))]
         if step is not None:
             x = x_start + step
-            while x <= x_end:
+            while domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
             x = self.x_next(x_start, min_step=min_step, limit=x_end)
-            while x is not None and x <= x_end:
+            while x is not None and domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
                 x_bin = round(x / min_step) if min_step is not None else x
@@ -202,7 +202,7 @@ class Curve:
                         raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
-- 
2.43.0


From 81f2e5e503f652bef0985d2ccb7f038157f1e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 12/55] fix: sample_points does not reject steps which round to
 the same bin

---
 curvepy/curve.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 9932935..96ade70 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -196,10 +196,8 @@ class Curve:
                 if x_bin == x_end_bin:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
-                if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
-                        raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
+                if x1 is not None and x1 <= x:
+                    raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
             if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
-- 
2.43.0


From 176f64c1d5ad29a10a0ba23c5616811d5d90fdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 13/55] fix: Offset applies the step limit in its own
 coordinates

---
 curvepy/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..838a8f7 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -66,7 +66,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=self._unoffset_x(limit, floor=False))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -78,7 +78,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_next(x, min_step=min_step, limit=self._unoffset_x(limit, floor=True))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 7235084f0faaadf83fc5cb73fcc1a36cce3a0818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 14/55] fix: Trend passes the minimum point distance to its
 lines

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..88ed045 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -222,6 +222,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance,
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From 4447bb28dcd40757d2e3bcc7990e9baced7b38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 15/55] fix: Piecewise steps to the next and previous points of
 its pieces

---
 curvepy/piecewise.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..f66129f 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -38,27 +39,25 @@ class Piecewise(Curve):
         min_step = self.resolve_min_step(min_step)
         if not self.domain.contains(x - min_step, enforce_end=False):
             return None
-        x_map = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_previous_f(z):
-            x, d = z
-            return d.contains(x)
-        z = max(filter(x_previous_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[0].contains(x):
-            return self.domains[0].start
+        xs = []
+        for f, d in zip(self.funcs, self.domains):
+            x1 = f.x_previous(x, min_step=min_step, limit=limit)
+            if d.contains(x1):
+                xs.append(x1)
+            # Step onto the edges of the pieces
+            xs += [x1 for x1 in d if x1 <= x - min_step and not math.isinf(x1)]
+        return max(xs, default=None)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
+        if not self.domain.contains(x + min_step, enforce_start=False):
             return None
-        x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_next_f(z):
-            x, d = z
-            return d.contains(x)
-        z = min(filter(x_next_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[-1].contains(x):
-            return self.domains[-1].end
+        xs = []
+        for f, d in zip(self.funcs, self.domains):
+            x1 = f.x_next(x, min_step=min_step, limit=limit)
+            if d.contains(x1):
+                xs.append(x1)
+            # Step onto the edges of the pieces
+            xs += [x1 for x1 in d if x1 >= x + min_step and not math.isinf(x1)]
+        return min(xs, default=None)
-- 
2.43.0


From 677e4ae74dfa745513284050d73261a3216235a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 16/55] fix: Extension passes the step limit on

---
 curvepy/extension/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..689c147 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -91,7 +91,7 @@ class Extension(Curve):
         return None
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        x1 = self.curve.x_previous(x, min_step=min_step)
+        x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
         if x1 is None and self.start:
             # Keep returning extension with same step
             x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
@@ -102,7 +102,7 @@ class Extension(Curve):
         return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        x1 = self.curve.x_next(x, min_step=min_step)
+        x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
         if x1 is None and self.end:
             # Keep returning extension with same step
             x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
-- 
2.43.0


From d4def6c66aa20a9c5583813afd3b9f1ed494d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 17/55] fix: Accumulator steps do not depend on what was
 accumulated so far

---
 curvepy/accumulator.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..39cff07 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -25,14 +25,6 @@ class Accumulator(Scan):
         super().reset_scan()
         self.accumulated_points.reset()
 
-    def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
-
-    def x_next(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
-
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
-- 
2.43.0


From 8bc793c1c8cf77855bc28a73da697c9d0d2c15b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 18/55] fix: Points.replace announces all of the values it
 changes

---
 curvepy/points.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f219c86..f0628f4 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -98,7 +98,16 @@ class Points(Curve):
         if is_between_points and self._force_equally_spaced:
             raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
 
-        update_domain = Interval.point(point[0])
+        # Interpolated values change up to the neighbouring points
+        next_i = nearest_i if is_between_points else nearest_i + 1
+        has_previous = nearest_i > 0
+        has_next = next_i < len(self._points)
+        update_domain = Interval(
+            self._points[nearest_i - 1][0] if has_previous else point[0],
+            self._points[next_i][0] if has_next else point[0],
+            start_open=has_previous,
+            end_open=has_next
+        )
         self.begin_update(update_domain)
 
         if is_between_points:
-- 
2.43.0


From ce569043d4c2a1ee87624600ff13d4d9c6c4308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 19/55] fix: ConstantExtension of an empty curve is empty

---
 curvepy/extension/constant.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..25a9055 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -11,9 +11,10 @@ class ConstantExtension(Extension):
     name = "constant"
 
     def update_extension(self):
-        if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
+        is_empty = self.curve.domain.is_empty
+        self.start_valid = not is_empty
+        self.end_valid = not is_empty
+        if is_empty:
             return
 
         if self.start:
-- 
2.43.0


From 62f77c71560983bafcb68a7ffe3cbfc1ade27206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 20/55] fix: Extension is refreshed whenever its curve changes

---
 curvepy/extension/extension.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 689c147..167f000 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -1,3 +1,4 @@
+import math
 from ..curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -36,10 +37,8 @@ class Extension(Curve):
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
@@ -118,18 +117,21 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._extended_update_interval(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self.end_update(self._extended_update_interval(domain))
+
+    def _extended_update_interval(self, domain):
+        # The extensions change together with the curve
+        return Interval(
+            -math.inf if self.start else domain.start,
+            math.inf if self.end else domain.end,
+            start_open=domain.start_open,
+            end_open=domain.end_open
+        )
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
-- 
2.43.0


From 7265173121cb8cace1f360a49a801d7cea8b9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 21/55] fix: TangentExtension regression degree may exceed the
 number of points

---
 curvepy/extension/tangent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..03f41fb 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -32,7 +32,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x2 = self.curve.x_next(x1, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x1 = x2
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -61,7 +64,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x2 = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x2 is None:
+                        break
+                    x0 = x2
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From 273eec937b449d143a3f04591571554f505a16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 22/55] fix: TangentExtension over a period accepts an empty
 curve

---
 curvepy/extension/tangent.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 03f41fb..081650a 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -23,6 +23,11 @@ class TangentExtension(Extension):
         super().__init__(func, **kwargs)
 
     def update_extension(self):
+        if self.curve.domain.is_empty:
+            self.start_valid = False
+            self.end_valid = False
+            return
+
         if self.start:
             x = self.curve.domain.start
             if x is not None and self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
-- 
2.43.0


From b4f89858234ad73f8691a547b4ee56f8dd3628e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 23/55] fix: Aggregate steps do not depend on the limit when it
 has steps to follow

---
 curvepy/aggregate.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..1a17bbd 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 from collections.abc import Sequence
@@ -56,10 +57,18 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step), self.funcs), x)
+        if limit is not None and (x1 is None or math.isinf(x1)):
+            # Only stop at the limit when there are no steps to follow
+            x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        return x1
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step), self.funcs), x)
+        if limit is not None and (x1 is None or math.isinf(x1)):
+            # Only stop at the limit when there are no steps to follow
+            x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        return x1
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From 77840376ff0ed0aa03930e14025e747b0765188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 24/55] fix: sample_points_from_x includes the first point

---
 curvepy/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 96ade70..57205e7 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -223,6 +223,7 @@ class Curve:
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From 24d4d411d920967d338680d0a33628e06501d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 25/55] fix: sample_points_from_x uses the default minimum step

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 57205e7..107bda7 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -207,7 +207,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
-- 
2.43.0


From ff7c92ee16eb0ffe97da6ff53c7071ff6f8326e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 26/55] fix: SMA window starts inside of its curve's domain

---
 curvepy/sma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index c7bbaf1..15e82b6 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -118,7 +118,7 @@ class SMA(Integral):
             x0 = x
             for _ in range(0, self.degree - 1):
                 x1 = self.curve.x_previous(x0, min_step=self.min_step)
-                if x1 is None:
+                if x1 is None or not self.curve.domain.contains(x1):
                     return x0
                 x0 = x1
         else:
-- 
2.43.0


From 3b9d8e8188e83c6e6fc4805d19e7d4683b66597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 27/55] fix: Offset can be offset again

---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 838a8f7..5b28745 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self.x_offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self.x_offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
@@ -30,7 +30,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self.x_offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -93,17 +93,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self.x_offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self.x_offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self.x_offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self.x_offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From 648250fbfa4d2ec1c79fc671063d5b23d7aa0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 28/55] fix: Extension of an empty curve has no steps

---
 curvepy/extension/extension.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 167f000..94c58c2 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -93,6 +93,8 @@ class Extension(Curve):
         x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
         if x1 is None and self.start:
             # Keep returning extension with same step
+            if self.curve.domain.is_empty:
+                return None
             x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
             if x0 is None:
                 return None
@@ -104,6 +106,8 @@ class Extension(Curve):
         x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
         if x1 is None and self.end:
             # Keep returning extension with same step
+            if self.curve.domain.is_empty:
+                return None
             x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
             if x0 is None:
                 return None
-- 
2.43.0


From 0c172ab2cd88395653e40d97ff918335e3dfa44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 29/55] fix: Scan announces changes from its last step before
 them

---
 curvepy/accumulator.py |  4 ----
 curvepy/scan.py        | 17 ++++++++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 39cff07..db9ce72 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -25,10 +25,6 @@ class Accumulator(Scan):
         super().reset_scan()
         self.accumulated_points.reset()
 
-    def begin_update(self, domain):
-        self.accumulated_points.reset(domain)
-        super().begin_update(domain)
-
     def _accumulate(self, x, y):
         if self.accumulated_points.domain.is_empty:
             last_y = None
diff --git a/curvepy/scan.py b/curvepy/scan.py
index 85d1cec..33d6fad 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -96,19 +96,17 @@ class Scan(Curve):
         self.end_update(Interval.infinite())
 
     def begin_scan_update(self, domain):
-        domain = self._update_interval(domain)
         self._reset_scan_if_stale(domain)
 
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
+        self.begin_update(self._update_interval(domain))
 
     def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
         # A begin callback may have scanned values which were about to change
         self._reset_scan_if_stale(domain)
-        self.end_update(domain)
+        self.end_update(self._update_interval(domain))
 
     def _reset_scan_if_stale(self, domain):
         if self.current is not None:
@@ -116,4 +114,13 @@ class Scan(Curve):
                 self.reset_scan()
 
     def _update_interval(self, domain):
-        return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
+        if domain.is_empty:
+            return domain
+        start = domain.start
+        start_open = domain.start_open
+        if self.min_step is not None and MIN_STEP < self.min_step < math.inf:
+            # Values change from the last step before the update,
+            # which is less than min_step before it
+            start -= self.min_step
+            start_open = True
+        return Interval(start, math.inf, start_open=start_open, end_open=True)
-- 
2.43.0


From a19289a7647e1eecf1813a19f04c92d100153f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 30/55] fix: Sin rejects a bad description before announcing an
 update

---
 curvepy/sin.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 0045b71..af1248a 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,20 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
-        if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            x_coef = frequency * math.pi * 2.0
+        if phase_x is not None and x_coef is not None:
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
+
+        self.begin_update(self.domain)
+        self.amplitude = amplitude
+        self.phase = phase
+        self.x_coef = x_coef
         self.end_update(self.domain)
 
     def y(self, x):
-- 
2.43.0


From 425f7c1fd73b7e3682b7c8808a8cd1ae2c48a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 31/55] fix: an empty curve has no step up to a limit

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 107bda7..f00dad0 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -118,6 +118,8 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.end
+            if x1 is None:
+                return None
         else:
             x1 = x + min_step
         if limit is not None and x1 > limit:
@@ -130,6 +132,8 @@ class Curve:
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.start
+            if x1 is None:
+                return None
         else:
             x1 = x - min_step
         if limit is not None and x1 < limit:
-- 
2.43.0


From e2d8d9dd36ea8037a690e05bc6980895d2d01a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 32/55] fix: a sine extension from a zero is not flat

---
 curvepy/extension/sin.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..5f16728 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -29,9 +29,6 @@ class SinExtension(TangentExtension):
         phase = math.atan2(num, den)
 
         # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
-        else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+        amplitude = math.hypot(y, dy / x_coef)
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From 1218883962a8814c57e33344ea6221a8daf06287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 33/55] fix: observers may be removed while observers are
 called

---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index f00dad0..e57a3da 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -437,7 +437,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by an earlier callback
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -460,6 +463,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by an earlier callback
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From c035c8fcf5b8173cd5d2493022a8979200b9e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 34/55] fix: literals in @args are converted to log space once

---
 curvepy/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e57a3da..ca74578 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -962,6 +962,9 @@ class Curve:
                         if len(d) != 1:
                             raise ValueError(f'A decorator (@...) can only have siblings in a fragment')
                         return v
+                    if current_func is None:
+                        fragment_vals[k] = v
+                        continue
 
                 elif k.startswith('$'):
                     # This is function descriptor
-- 
2.43.0


From 4ea812323c9e47a9b9a15403bb205539b84e124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 35/55] fix: the base of a $log may be given by position

---
 curvepy/curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ca74578..d01309a 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -983,7 +983,9 @@ class Curve:
                         base_str = fname[3:]
                         base = int(base_str) if bool(base_str) else math.e
                         def _dot_log(*args, **kwargs):
-                            return current_func.log(**util.extend({ "base": base }, kwargs))
+                            if not args:
+                                kwargs = util.extend({ "base": base }, kwargs)
+                            return current_func.log(*args, **kwargs)
                         fconstructor = _dot_log
                         fconstructor_from_instance = True
                     else:
-- 
2.43.0


From 4280ea8ff7e35dfaeaa4cb85db493b6f1be5e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 36/55] fix: trend lines without intersections can be extended
 to any intersection index

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 88ed045..20028a8 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -309,7 +309,7 @@ class TrendLine(Sequence):
             x1 = x0 + (x1 - x0) * width_mult
         if width_max is not None and x1 - x0 > width_max:
             x1 = x0 + width_max
-        if intersection_index is not None and intersection_index + 1 < intersection_count:
+        if intersection_index is not None and intersection_count != 0 and intersection_index + 1 < intersection_count:
             next_intersection = self.intersections[intersection_index + 1]
             if next_intersection[0] < x1:
                 x1 = next_intersection[0]            
-- 
2.43.0


From c2965069a06e4d610619db31ca36943b20333314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 37/55] fix: trend lines drop the boundary point which is not
 an extreme, not one beside it

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 20028a8..ea07076 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -413,7 +413,7 @@ class TrendLine(Sequence):
                     if is_coincident and (len(coincident_points) == 0 or coincident_points[-1][0] != p[0]):
                         coincident_points.append(p)
                     if not is_coincident:
-                        del self._boundary_points[i + 1]
+                        self._boundary_points.remove(p)
                     del extremas[i + 1]
                     did_remove = True
 
-- 
2.43.0


From a04ea831aa9f5085700f98f34e4a815f91f32753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 38/55] fix: trend points are in order and include their line's
 ends once

---
 curvepy/trend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index ea07076..2c4fd32 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -448,12 +448,10 @@ class TrendLine(Sequence):
                 return line
             elif line_len > 2:
                 raise Exception("Expected line")
-            resulting_points = []
+            resulting_points = list(line)
             for p in coincident_points:
                 if _is_point_on_line(line, p, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs):
-                    resulting_points.append(p)
-            resulting_points.insert(0, line[0])
-            resulting_points.append(line[1])
+                    _insort_point_left(resulting_points, p, no_repeat=True)
             return resulting_points
 
         final_points = add_coincident_points(final_line, coincident_points)
-- 
2.43.0


From ce06b1557ff389a1148b2553434304783ee4f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 39/55] fix: trends start over when their curve changes where
 it was scanned

---
 curvepy/trend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 2c4fd32..b500503 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -90,6 +90,12 @@ class Trend(Scan):
 
         return is_empty
 
+    def reset_scan(self):
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
+
     def begin_update(self, domain):
         super().begin_update(domain)
 
-- 
2.43.0


From 3bd42843c5c3e9dbd616c25a639df9fcde9efb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 40/55] fix: relative tolerances of trends work for values not
 above zero

---
 curvepy/trend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index b500503..0c67d89 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -847,7 +847,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_min = y - self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_min_rel = y * (1 - self.y_tol_rel)
+            y_min_rel = y - abs(y) * self.y_tol_rel
             if y_min is None:
                 y_min = y_min_rel
             else:
@@ -861,7 +861,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_max = y + self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_max_rel = y * (1 + self.y_tol_rel)
+            y_max_rel = y + abs(y) * self.y_tol_rel
             if y_max is None:
                 y_max = y_max_rel
             else:
@@ -995,11 +995,11 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
     y = points[1][1]
     y0 = _line_y((points[0], points[2]), x)
     
-    if y0 is None:
+    if y0 is None or y0 <= y:
         return False
     if y_tol_abs is not None and y0 - y < y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and y0 / y - 1 < y_tol_rel:
+    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and y0 - y < abs(y) * y_tol_rel:
         return False
     return True
 
-- 
2.43.0


From 9dcde4f65897a2b680ffe60e658f8cd1d1e83c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:58 +0000
Subject: [PATCH 41/55] fix: trend lines through the same points are not found
 again at deeper levels

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 0c67d89..4db32d4 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -246,7 +246,7 @@ class Trend(Scan):
         for other_line in lines:
             if other_line == line or not other_line.is_ready or not line.search_interval.intersects(other_line.search_interval):
                 continue
-            if other_line.is_line_coincident(line):
+            if (line.is_valid and other_line.trend_points == line.trend_points) or other_line.is_line_coincident(line):
                 return True
         return False
 
-- 
2.43.0


From dc38b848de91bc24e4c75187f7370f22a135cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 42/55] fix: trend lines at a place do not depend on the places
 asked before

---
 curvepy/trend.py | 27 ++-------------------------
 1 file changed, 2 insertions(+), 25 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 4db32d4..2388449 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -64,31 +64,8 @@ class Trend(Scan):
         return self._scanned_lower(x) + self._scanned_upper(x)
 
     def continue_scan(self, x):
-        if super().continue_scan(x):
-            return True
-        if not self.domain.contains(self.current):
-            return False
-
-        is_empty = True
-
-        # for line in self.lines:
-        #     is_empty = False
-        #     if line.search_interval.contains(x, enforce_end=False):
-        #         return True
-
-        for lines in self.nested_upper_lines:
-            for line in lines:
-                is_empty = False
-                if line.search_interval.contains(x, enforce_end=False):
-                    return True
-
-        for lines in self.nested_lower_lines:
-            for line in lines:
-                is_empty = False
-                if line.search_interval.contains(x, enforce_end=False):
-                    return True
-
-        return is_empty
+        # Points ahead may change the lines at x
+        return super().continue_scan(x) or self.domain.contains(self.current)
 
     def reset_scan(self):
         super().reset_scan()
-- 
2.43.0


From 6b39b9e182d674d13957779158db23dc20003d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 43/55] fix: copies of trend lines have all of the line

---
 curvepy/trend.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 2388449..222d844 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -336,22 +336,10 @@ class TrendLine(Sequence):
         yield self._line[1]
 
     def __copy__(self):
-        line = TrendLine(self.min_width,
-            is_upper_trend=self.is_upper_trend,
-            min_points=self.min_points,
-            min_point_distance=self.min_point_distance,
-            search_length_rel=self.search_length_rel,
-            search_length_int_rel=self.search_length_int_rel,
-            x_tol_rel=self.x_tol_rel, 
-            x_tol_abs=self.x_tol_abs, 
-            y_tol_rel=self.y_tol_rel, 
-            y_tol_abs=self.y_tol_abs)
-        line.trend_points = list(self.trend_points)
-        line._boundary_points = list(self._boundary_points)
-        line._line = tuple(self._line)
+        line = TrendLine(self.min_width, is_upper_trend=self.is_upper_trend)
+        for name, value in vars(self).items():
+            setattr(line, name, list(value) if isinstance(value, list) else value)
         line.search_interval = self.search_interval.copy()
-        line.intersections = list(self.intersections)
-        line.tangent_points = list(self.tangent_points)
         return line
 
     def copy(self):
-- 
2.43.0


From 37a13b115065126ea689db1bdf0ac38054ae45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 44/55] fix: Extension(raise_on_empty=True) refuses an
 extension of nothing, and only that, at every use

---
 curvepy/extension/extension.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 94c58c2..696f04f 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -84,7 +84,7 @@ class Extension(Curve):
     def y(self, x):
         if self.curve.domain.contains(x):
             return self.curve.y(x)
-        self._update_extension_if_needed()
+        self._update_extension_interval()
         if self.extension_interval.contains(x):
             return self.y_extension(x)
         return None
@@ -138,11 +138,10 @@ class Extension(Curve):
         )
 
     def _update_extension_interval(self):
+        self._update_extension_if_needed()
         if not self._extension_interval_stale:
             return
         self._extension_interval_stale = False
-        if self._extension_stale:
-            self._update_extension_if_needed()
 
         if self.start and self.start_valid and self.end and self.end_valid:
             self.extension_interval = Interval.union([self.start_func.domain, self.end_func.domain])
@@ -155,6 +154,7 @@ class Extension(Curve):
         self.update_extension_interval()
         if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
             if self.raise_on_empty:
+                self._extension_interval_stale = True
                 raise Exception('Unable to extend func')
             
     def _update_extension_if_needed(self):
@@ -164,7 +164,3 @@ class Extension(Curve):
         self._extension_interval_stale = True
 
         self.update_extension()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
-        self._update_extension_interval()
-- 
2.43.0


From a213231a5d68cb99194cfb389cde6cd37ba871d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 45/55] fix: the area below a Line keeps its precision at large
 x (timestamps)

---
 curvepy/line.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/curvepy/line.py b/curvepy/line.py
index e576585..a0dc7b8 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -73,12 +73,8 @@ class Line(Curve):
         return self.ref_point[0] + (y - self.ref_point[1]) / self.slope
 
     def partial_integration(self, a, b):
-        # f(x) = slope / 2 * x ^ 2 + const * x + K
-        # integral = f(b) - f(a)
+        # The area of the trapezoid below the line. The difference of
+        # antiderivatives loses all precision when x is large (timestamps).
         if a is not None and a == b:
             return 0
-        const = self.const
-        slope = self.slope
-        ia = slope * 0.5 * a ** 2 + const * a
-        ib = slope * 0.5 * b ** 2 + const * b
-        return ib - ia
+        return (b - a) * (self.y(a) + self.y(b)) / 2
-- 
2.43.0


From 7548fd13d4eeeccf17711f8a8a8588e8ef6a2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 46/55] fix: Curve.regression keeps its precision at large x
 (timestamps)

---
 curvepy/curve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index d01309a..dfd10b2 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -373,7 +373,10 @@ class Curve:
         if count == 2:
             return Line(p1=points[0], p2=points[1])
         xy = np.vstack(points)
-        x = xy[:,0]
+        # Fit relative to the first point: with large x (timestamps)
+        # the fit is ill-conditioned otherwise
+        x0 = xy[0,0]
+        x = xy[:,0] - x0
         y = xy[:,1]
         A = np.array([x, np.ones(count)])
 
@@ -382,7 +385,7 @@ class Curve:
         m = w[0]
         c = w[1]
 
-        return Line(const=c, slope=m)
+        return Line(p1=(x0, c), slope=m)
 
     def add_observer(self, *obj, domain=None, begin=None, end=None, autoremove=False, prioritize=False):
         if begin is None and end is None:
-- 
2.43.0


From 876c2111b2f7d69be57586802279ddd195408885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 47/55] fix: a TrendLine prediction counts the events of the
 last processed place once

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 222d844..f580bc5 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -713,7 +713,7 @@ class TrendLine(Sequence):
             return
 
         for p in points:
-            if self._prediction_x_processed is not None and p[0] < self._prediction_x_processed:
+            if self._prediction_x_processed is not None and p[0] <= self._prediction_x_processed:
                 continue
             point_type = p[2]
             clean_point = (p[0], p[1])
-- 
2.43.0


From b15d8013179a033f28ff70bdd8e4142adfc80d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 48/55] fix: the line fit of trend points keeps its precision
 at large x (timestamps)

---
 curvepy/trend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index f580bc5..e0d3a73 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -902,11 +902,14 @@ class TrendLine(Sequence):
 
 def _line_fit_f(points):
     points_t = np.transpose(points)
-    x = points_t[0]
+    # Fit relative to the first point: with large x (timestamps)
+    # the fit is ill-conditioned otherwise
+    x0 = points_t[0][0]
+    x = points_t[0] - x0
     y = points_t[1]
     fit = np.polyfit(x, y, 1)
     fit_f = np.poly1d(fit)
-    return fit_f
+    return lambda x: fit_f(x - x0)
 
 def _line_fit(points):
     if len(points) < 2:
-- 
2.43.0


From 0ef1317ba8964f1a2b56b472308abec7d9d0b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 49/55] fix: a point of an evenly spaced curve is found at its
 own place, whatever the rounding of the spacing

---
 curvepy/points.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f0628f4..92f31d6 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -310,7 +310,12 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            i = (x - self._points[0][0]) / self.interval
+            # Rounding errors must not move a point away from its index
+            nearest_i = min(max(0, round(i)), len(self._points) - 1) if math.isfinite(i) else 0
+            if self._points[nearest_i][0] == x:
+                return float(nearest_i)
+            return i
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From 22dc6e8873bf1328d7de061cafa8d1950fae65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 50/55] fix: points spaced evenly up to rounding are accepted
 as evenly spaced

---
 curvepy/points.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 92f31d6..251b1a2 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -231,19 +231,12 @@ class Points(Curve):
             steps = new_points_len - 1
 
         if interval is None:
-            if old_points_len == 1:
-                interval = new_points[0][0] - old_points[-1][0]
-            else:
-                interval = new_points[1][0] - new_points[0][0]
-
-        expected_last_x = start + interval * steps
-        if new_points[-1][0] != expected_last_x:
-            return False
+            interval = (new_points[-1][0] - start) / steps
 
-        # Points in between must be equally spaced as well
-        tolerance = abs(interval) * 1e-6
+        # Allow for rounding errors
+        tolerance = abs(interval) * 1e-6 + abs(new_points[-1][0]) * 1e-15
         first_step = steps - new_points_len + 1
-        for i in range(new_points_len - 1):
+        for i in range(new_points_len):
             expected_x = start + interval * (first_step + i)
             if abs(new_points[i][0] - expected_x) > tolerance:
                 return False
-- 
2.43.0


From 7dd2537c516208b12f2a19f9b01a61ccc2919d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 51/55] fix: an extension's own step does not depend on the
 limit of the step asked for

---
 curvepy/extension/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 696f04f..8b8e12f 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -95,7 +95,7 @@ class Extension(Curve):
             # Keep returning extension with same step
             if self.curve.domain.is_empty:
                 return None
-            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
+            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step)
             if x0 is None:
                 return None
             step = x0 - self.curve.domain.start
@@ -108,7 +108,7 @@ class Extension(Curve):
             # Keep returning extension with same step
             if self.curve.domain.is_empty:
                 return None
-            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
+            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step)
             if x0 is None:
                 return None
             step = self.curve.domain.end - x0
-- 
2.43.0


From 157a3f17f8e74c90cbb688589b6bb359e0fc4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 52/55] fix: sampling a range of a single place returns that
 place once

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index dfd10b2..640a9c5 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -192,7 +192,7 @@ class Curve:
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
-            x = self.x_next(x_start, min_step=min_step, limit=x_end)
+            x = self.x_next(x_start, min_step=min_step, limit=x_end) if x_end > x_start else None
             while x is not None and domain.contains(x):
                 y = self.y(x)
                 points.append((x, y))
-- 
2.43.0


From b1f2dfc5b71b1b3176c7bad7a317de1206ae3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:53 +0000
Subject: [PATCH 53/55] fix: extremas about a reference of zero

---
 curvepy/extremas.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index b263776..a11b902 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -79,11 +79,10 @@ class Extremas(Scan):
         y0 = self.ref_func(x)
         if y0 is None:
             return
-        div = y / y0 - 1
-        if abs(div) <= self.min_deviation:
+        phase = y - y0
+        if abs(phase) <= self.min_deviation * abs(y0):
             # function is too close to reference function
             return
-        phase = y - y0
         if self.possible_extrema is None:
             self.possible_extrema = (x, y)
             self.possible_extrema_phase = phase
-- 
2.43.0


From 6f03f81ff9af12067905a9e8a1918e6bb8932ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 54/55] fix: extremas step alike before and after they were
 scanned

---
 curvepy/extremas.py | 2 ++
 curvepy/scan.py     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index a11b902..f0575b7 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -45,6 +45,7 @@ class Extremas(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self.scan(x - min_step)
         if self.extrema_interval.contains(x - min_step):
             i = bisect.bisect_left(self.extrema_xs, x - min_step)
             x1 = self.extremas[i][0]
@@ -55,6 +56,7 @@ class Extremas(Scan):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
+        self.scan(x + min_step)
         if self.extrema_interval.contains(x + min_step):
             i = bisect.bisect_left(self.extrema_xs, x + min_step)
             x1 = self.extremas[i][0]
diff --git a/curvepy/scan.py b/curvepy/scan.py
index 33d6fad..531c006 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,7 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                current = Scan.x_next(self, self.current, min_step=self.min_step, limit=x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
-- 
2.43.0


From 61f3689942a0845ed2ef381219fa27471750efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 55/55] fix: extremas announce that steps before a change may
 become extremes

---
 curvepy/extremas.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index f0575b7..8be12c6 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -71,6 +71,12 @@ class Extremas(Scan):
         self.extrema_xs = []
         self._did_update_extremas()
 
+    def _update_interval(self, domain):
+        if domain.is_empty:
+            return domain
+        # Which earlier step is an extreme is decided by the ones after it
+        return Interval.infinite()
+
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
         return list(filter(lambda p: p[1] is not None, points))
-- 
2.43.0

