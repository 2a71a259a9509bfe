From cbe92acf563ece9d03637f6a297c3bf191ea3f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 01/17] fix: antithetic sources use the default dtype of the
 source they wrap (integer Poisson counts)

---
 sdepy/infrastructure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d722e2e..ed594d7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2060,8 +2060,10 @@ def _antithetics(source_class, transform):
                 raise ValueError(
                     'the number of paths for sources with antithetics '
                     'should be even, not {}'.format(paths))
+            if dtype is not None:  # else use the default of source_class
+                args['dtype'] = dtype
             self._dz = source_class(paths=paths//2, vshape=vshape,
-                                    dtype=dtype, rng=rng, **args)
+                                    rng=rng, **args)
 
         __init__.__doc__ = ("See {} class documentation"
                             .format(source_class.__name__))
-- 
2.43.0


From 8ea286e718c03c12f3ce0ebe3a77970ae67f011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:20 +0000
Subject: [PATCH 02/17] fix: indexed true sources apply the index to the values
 axes when times are arrays

---
 sdepy/infrastructure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index ed594d7..1e7f1be 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2170,7 +2170,10 @@ class _indexed_true_source:
 
     def __call__(self, t, dt=None):
         """See true_source class documentation."""
-        return self._source(t, dt)[self._index]
+        x = self._source(t, dt)
+        # the index addresses the values axes, past the axes of t
+        tdim = x.ndim - len(self._source.vshape) - 1
+        return x[(slice(None),)*tdim + self._index]
 
     @property
     def size(self):
-- 
2.43.0


From 4cd8a1e4de7020e43096ea4262196042357028ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 03/17] fix: true compound Poisson sources handle null and
 cancelling jump sizes

---
 sdepy/infrastructure.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 1e7f1be..d2c6c88 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2645,7 +2645,6 @@ class true_cpoisson_source(true_source):
 
     def _encode_y(self, dn_value, yy):
         nmax = dn_value.max()
-        assert nmax == (yy != 0).sum(axis=-1).max()
 
         y_value = []
         for i in range(1, nmax + 1):
@@ -2670,11 +2669,13 @@ class true_cpoisson_source(true_source):
         j1, y1_value = z1
         j2, _ = z2  # y2_value not needed
 
-        if (j1 == j2).all():
-            return None
-
         dn = self._dj.dn
-        n1, ns, n2 = dn(t1), dn(s), dn(t2)  # use memory of dn
+        n1, n2 = dn(t1), dn(t2)  # use memory of dn
+        if (n1 == n2).all():
+            # no jumps (note that j1 == j2 is not enough to tell:
+            # jump sizes may be null, or add up to zero)
+            return None
+        ns = dn(s)
 
         dn_t2_t1 = n2 - n1
         dn_s_t1 = ns - n1
-- 
2.43.0


From 063529e26c00e4f7a7a8a675c706745b6cc307dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 04/17] fix: sources with memory honour rtol on both sides of a
 stored time

---
 sdepy/infrastructure.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index d2c6c88..76db6f7 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2278,9 +2278,12 @@ class true_source(source):
 
         def f(s):
             k = bisect.bisect_right(t, s)
-            if np.isclose(s, t[k-1], rtol=rtol, atol=0.):
-                return getvalue(z[k-1])
-            elif k == len(t):
+            # compare s with both neighbouring times
+            for i in (k-1, k):
+                if 0 <= i < len(t) \
+                   and np.isclose(s, t[i], rtol=rtol, atol=0.):
+                    return getvalue(z[i])
+            if k == len(t):
                 z.append(self.new_outside(z[-1], t[-1], s))
                 t.append(s)
                 return getvalue(z[-1])
-- 
2.43.0


From 48e4c036bbdd300e0e55705b77161f76e5b9d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 05/17] fix: exponential mean of double exponential jumps
 handles array parameters

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 76db6f7..59f568b 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1788,7 +1788,7 @@ class _double_exp_rv:
 
     def exp_mean(self):
         a, b, pa, pb = self._a, self._b, self._pa, self._pb
-        return (pa/(1 - a) if a < 1 else np.inf) + pb/(1 + b) + 0
+        return np.where(a < 1, pa/(1 - a), np.inf) + pb/(1 + b) + 0
 
 
 # Convenience methods for handling distributions
-- 
2.43.0


From 9afe9f92b773ec47492c657773a7424357d1aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:07 +0000
Subject: [PATCH 06/17] fix: systems integrated with log=True are exponentiated
 once

---
 sdepy/integration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sdepy/integration.py b/sdepy/integration.py
index e3a9f2a..c26958f 100644
--- a/sdepy/integration.py
+++ b/sdepy/integration.py
@@ -1829,8 +1829,6 @@ class SDEs(SDE):
 
     def result(self, tt, XX):
         """See documentation of SDE.result"""
-        if self.log:
-            exp(XX, out=XX)
         xxs = self.unpack(XX)
         return tuple(process(t=tt, x=xx) for xx in xxs)
 
-- 
2.43.0


From 686808269f68eb2ba438f5ebc66594f6a45db9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 07/17] fix: montecarlo instances with bins=None can be indexed

---
 sdepy/infrastructure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 59f568b..54c2ad4 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3043,8 +3043,9 @@ class montecarlo:
         if self.paths != 0:
             a._mean = self._mean[i]
             a._moments = tuple(moment[i] for moment in self._moments)
-            a._counts = self._counts[i]
-            a._paths_outside = self._paths_outside[i]
+            if self._bins is not None:
+                a._counts = self._counts[i]
+                a._paths_outside = self._paths_outside[i]
         return a
 
     # user access to statistics
-- 
2.43.0


From 04e5952f63cdb01fe9223a9d118535a6d83e952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 08/17] fix: selected components of montecarlo instances follow
 later updates

---
 sdepy/infrastructure.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 54c2ad4..06b5c24 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3041,11 +3041,16 @@ class montecarlo:
         else:
             a._bins = self._bins[i]
         if self.paths != 0:
-            a._mean = self._mean[i]
-            a._moments = tuple(moment[i] for moment in self._moments)
+            # a trailing ellipsis gets views of the stored data (and not
+            # scalar copies) also if a single component is selected
+            j = i if isinstance(i, tuple) else (i,)
+            if not any(k is Ellipsis for k in j):
+                j += (Ellipsis,)
+            a._mean = self._mean[j]
+            a._moments = tuple(moment[j] for moment in self._moments)
             if self._bins is not None:
                 a._counts = self._counts[i]
-                a._paths_outside = self._paths_outside[i]
+                a._paths_outside = self._paths_outside[j]
         return a
 
     # user access to statistics
-- 
2.43.0


From 71bdcb6996ddaf9bdf501b51e97a5e1bf6ef6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 09/17] fix: operations on three or more processes check every
 pair of timelines

---
 sdepy/infrastructure.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 06b5c24..becd7d0 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -502,6 +502,15 @@ class process(np.ndarray):
                         'processes could not be broadcast '
                         'together due to incompatible shapes {}, {} and/or '
                         'timelines'.format(a.shape, self.shape))
+        for a in inputs:
+            # if self is constant, the others might still be incompatible
+            for b in inputs:
+                if isinstance(a, process) and isinstance(b, process) and \
+                   not a._is_compatible(b):
+                    raise ValueError(
+                        'processes could not be broadcast '
+                        'together due to incompatible shapes {}, {} and/or '
+                        'timelines'.format(a.shape, b.shape))
         return out_array
 
     def __array_wrap__(self, out_array, context=None):
-- 
2.43.0


From 8d6852feb3ae0ade5a9ee52762c1a1278a589631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 10/17] fix: time and path indices of processes may be numpy
 integers

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index becd7d0..b900b3b 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -699,7 +699,7 @@ class process(np.ndarray):
             return cls(self.t, x=x[colon + key + colon])
         # 't' and 'p' modes - timeline an paths indexing
         assert len(key) <= 1  # only one index is expected
-        if len(key) == 1 and isinstance(key[0], int):
+        if len(key) == 1 and isinstance(key[0], (int, np.integer)):
             # an integer index is treated as a slice of 1
             i = key[0]
             key = (slice(i, None, None),) if i == -1 else \
-- 
2.43.0


From 928b4a7ef1dab3e32bf3e5ee593684891d7b904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 11/17] fix: weighted increments and integrals of integer
 processes are not integer

---
 sdepy/infrastructure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b900b3b..b408cbc 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1084,6 +1084,9 @@ class process(np.ndarray):
         """
         t = self.t[:-1] if fwd else self.t[1:]
         x = np.diff(self, axis=0)
+        if dt_exp and x.dtype.kind in 'iu':
+            # the weighted increments of integer values are not integer
+            x = x.astype(np.result_type(x, self.dtx, float))
         if dt_exp:
             np.divide(x, self.dtx**dt_exp, out=x)
         return process(t=t, x=x)
@@ -1122,7 +1125,9 @@ class process(np.ndarray):
         ``p.tin().tder()`` equals, within rounding errors,
         ``p['t', :-1]``
         """
-        x = np.empty(self.shape, dtype=self.dtype)
+        # the integral of integer values is not integer
+        dtype = float if self.dtype.kind in 'iu' else self.dtype
+        x = np.empty(self.shape, dtype=dtype)
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
         return process(t=self.t,
-- 
2.43.0


From b397f975652f4bfff7b15e151185e10e57af5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 12/17] fix: bridging of realized Wiener paths accepts
 correlations with a trailing paths axis

---
 sdepy/infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b408cbc..b2eb1d2 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -2508,6 +2508,8 @@ dw, source of standard Wiener process (brownian motion) increments with memory.
         if callable(corr):
             a, b = (s - t1), (t2 - s)
             A, B = corr((t1+s)/2)*a, corr((s+t2)/2)*b
+            if A.ndim == 3:  # remove paths axis if present
+                A, B = A[..., 0], B[..., 0]
             Z = B @ np.linalg.inv(A + B)
             Id = np.eye(A.shape[0])
             dw.corr = (Z @ A)*np.sign(a)
-- 
2.43.0


From 36eafee31e43de9248bf87ebabe9affaa0f894cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 13/17] fix: summaries of integer and boolean processes are not
 truncated to their data type

---
 sdepy/infrastructure.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index b2eb1d2..e9088c9 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -862,7 +862,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the sum of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.sum(axis=-1, dtype=dtype, out=out,
                                   keepdims=True))
@@ -872,7 +871,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the mean of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.mean(axis=-1, dtype=dtype, out=out,
                                    keepdims=True))
@@ -882,7 +880,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the variance of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.var(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -892,7 +889,6 @@ class process(np.ndarray):
         One path process exposing for each time point
         the standard deviation of process values across paths.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.std(axis=-1, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -991,7 +987,6 @@ class process(np.ndarray):
         Constant process exposing for each path the sum of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.sum(axis=0, dtype=dtype, out=out,
                                   keepdims=True))
@@ -1001,7 +996,6 @@ class process(np.ndarray):
         Process exposing for each path and time point
         the cumulative sum of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t,
                        x=self.cumsum(axis=0, dtype=dtype, out=out))
 
@@ -1010,7 +1004,6 @@ class process(np.ndarray):
         Constant process exposing for each path the mean of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.mean(axis=0, dtype=dtype, out=out,
                                    keepdims=True))
@@ -1020,7 +1013,6 @@ class process(np.ndarray):
         Constant process exposing for each path the variance of
         process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.var(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
@@ -1030,7 +1022,6 @@ class process(np.ndarray):
         Constant process exposing for each path the standard
         deviation of process values along time.
         """
-        dtype = self.dtype if dtype is None else dtype
         return process(t=self.t[:1],
                        x=self.std(axis=0, dtype=dtype, out=out,
                                   ddof=ddof, keepdims=True))
-- 
2.43.0


From d2215c07479922ecbcf77f683c8e7a95206da8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 14/17] fix: interpolated values of integer processes are not
 truncated

---
 sdepy/infrastructure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index e9088c9..5b45418 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -617,8 +617,15 @@ class process(np.ndarray):
                 fill_value=(x[0], x[-1])
                 )
 
+            # linear, or higher order, interpolation between integer values
+            # is not integer
+            dtype = np.result_type(x, float) if (
+                x.dtype.kind in 'biu' and kind not in
+                ('nearest', 'nearest-up', 'zero', 'previous', 'next')
+                ) else x.dtype
+
             def f(s):
-                return g(s).astype(x.dtype, copy=False)
+                return g(s).astype(dtype, copy=False)
             return f
 
     def __call__(self, s, ds=None, *, kind=None):
-- 
2.43.0


From 74c6540eaf746d7ee3a4f9971f6ec577adde6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 15/17] fix: interpolated densities of histograms with integer
 bins use their midpoints

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 5b45418..5a7e60e 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -3211,7 +3211,7 @@ class montecarlo:
                 pp[0], pp[1:] = (0, (deltas*ncounts).cumsum())
                 fill_value = (0., 1.)
             else:
-                xx = np.empty((bins.size+1,), dtype=bins.dtype)
+                xx = np.empty((bins.size+1,), dtype=ncounts.dtype)
                 xx[0], xx[1:-1], xx[-1] = (bins[0], (bins[:-1] + bins[1:])/2,
                                            bins[-1])
                 pp = np.empty((bins.size+1,), dtype=ncounts.dtype)
-- 
2.43.0


From 0a6b16ee2449152a23d369157fdc1e12d76c4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 16/17] fix: integrals of boolean processes are not boolean

---
 sdepy/infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdepy/infrastructure.py b/sdepy/infrastructure.py
index 5a7e60e..bb5eb37 100644
--- a/sdepy/infrastructure.py
+++ b/sdepy/infrastructure.py
@@ -1124,7 +1124,7 @@ class process(np.ndarray):
         ``p['t', :-1]``
         """
         # the integral of integer values is not integer
-        dtype = float if self.dtype.kind in 'iu' else self.dtype
+        dtype = float if self.dtype.kind in 'biu' else self.dtype
         x = np.empty(self.shape, dtype=dtype)
         x[0] = 0
         x[1:] = self[:-1]*self.dtx
-- 
2.43.0


From b225d53e2297e6b6c3fcbcf7c74842c127413ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 17/17] fix: Black-Scholes values and deltas accept lists, as
 any other array-like inputs

---
 sdepy/analytical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdepy/analytical.py b/sdepy/analytical.py
index 118949a..45d781e 100644
--- a/sdepy/analytical.py
+++ b/sdepy/analytical.py
@@ -980,6 +980,7 @@ def bscall(k, t, *, x0=1., r=0., q=0., sigma=1.):
 
         d2 = d1 - sigma*sqrt(t)
     """
+    k, t, x0 = np.asarray(k), np.asarray(t), np.asarray(x0)
     r, q = np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return x0 * exp(-q*t) * scipy.stats.norm.cdf(d1) - \
@@ -997,6 +998,7 @@ def bscall_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
+    k, t, x0 = np.asarray(k), np.asarray(t), np.asarray(x0)
     r, q = np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return exp(-q*t) * scipy.stats.norm.cdf(d1)
@@ -1013,6 +1015,7 @@ def bsput(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
+    k, t, x0 = np.asarray(k), np.asarray(t), np.asarray(x0)
     r, q = np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return k * exp(-r*t) * scipy.stats.norm.cdf(-d2) - \
@@ -1030,6 +1033,7 @@ def bsput_delta(k, t, *, x0=1., r=0., q=0., sigma=1.):
     --------
     bscall
     """
+    k, t, x0 = np.asarray(k), np.asarray(t), np.asarray(x0)
     r, q = np.asarray(r), np.asarray(q)
     d1, d2 = bsd1d2(k, t, x0=x0, r=r, q=q, sigma=sigma)
     return -exp(-q*t) * scipy.stats.norm.cdf(-d1)
-- 
2.43.0

