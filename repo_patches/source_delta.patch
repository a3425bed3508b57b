From 53cb11377b602b43f0c8f81be2b5adf14e856cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 01/28] fix: 'Reject' constraint of samplers rejected every
 proposal

---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From 27067eab1ce09bc97fc0d1ebdc8593eed697fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 02/28] fix: user-supplied jac of hmc recursed into itself

---
 stochopy/sample/hmc/_hmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..b0dacf3 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -112,9 +112,9 @@ def sample(
         raise TypeError()
 
     if jac is None:
-        jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
+        grad = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        grad = lambda x: jac(x, *args)
 
     # Seed
     if seed is not None:
@@ -147,12 +147,12 @@ def sample(
         q0 = q.copy()
         p0 = p.copy()
 
-        p -= 0.5 * stepsize * jac(q)  # First half momentum step
+        p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
         for _ in range(nleap):
-            p -= stepsize * jac(q)  # Momentum
+            p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
-        p -= 0.5 * stepsize * jac(q)  # Last half momentum step
+        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-- 
2.43.0


From 0e498914cc472ce797b85e978f573c53274042d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 03/28] fix: samplers rescaled the caller's stepsize array in
 place and refused integers

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index b0dacf3..f14cf2f 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = np.asarray(stepsize) * (0.5 * (upper - lower))
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..ba64313 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = np.asarray(stepsize) * (0.5 * (upper - lower))
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From 3a3c0cfa0cd62f1547ecd971e8b9653ff4d9dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 04/28] fix: samplers ignored the initial sample when tracking
 the best one

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index f14cf2f..0a83ea8 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -140,7 +140,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index ba64313..0ee7a2d 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim, j + ndim_per_iter - 1)
-- 
2.43.0


From 96e866744279e6e152028e9cfba6cdbe8485974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 05/28] fix: sample history seen by callbacks lacked the
 current sample

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 0a83ea8..7749feb 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -182,7 +182,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 0ee7a2d..9b17720 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From a3b22a2450bcf0a967e9335290a6bf9e590ca83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 06/28] fix: state passed to hmc callbacks lacked nfev

---
 stochopy/sample/hmc/_hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 7749feb..e6411b5 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -132,7 +132,9 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(
+            x=xall[0], fun=funall[0], nfev=fun.nfev, nit=1, accept_ratio=1.0
+        )
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
@@ -178,6 +180,7 @@ def sample(
             res = SampleResult(
                 x=xall[imin],
                 fun=funall[imin],
+                nfev=fun.nfev,
                 nit=i + 1,
                 accept_ratio=n_accepted / (i + 1),
             )
-- 
2.43.0


From 6170da8b940e88e21060bd8ac52a3aa88d890fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 07/28] fix: first generation of NA's xall was in normalized
 units

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..7b69a50 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From 682b6836aeb09133b95d1759aac8959c342bc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 08/28] fix: na called directly without a callback always
 raised

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 7b69a50..df1b975 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From 3065e8ac46a477db77e064ca287c147f5822d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 09/28] fix: DE's funall held values of rejected trials instead
 of those of xall

---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..14a9880 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -270,12 +270,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From 52096af07a9ae7ea86af8d12f18dc47ee389ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 10/28] fix: PSO and DE overwrote the caller's x0 and kept its
 integer dtype

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..089800e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 14a9880..28b6730 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
-- 
2.43.0


From 254c3503cc5fd3bd154f50f6390e8737307bb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 11/28] fix: integer-valued objectives truncated later values
 and overflowed restarts

---
 stochopy/optimize/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..b159a4e 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -40,7 +40,7 @@ def optimizer(optfun):
 
                         def wrapper(x):
                             f = parallel(fun(xx, *args) for xx in x)
-                            return np.array(f)
+                            return np.array(f, dtype=float)
 
                     elif backend == "mpi":
                         try:
@@ -77,13 +77,13 @@ def optimizer(optfun):
                 else:
 
                     def wrapper(x):
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
 
             else:
 
                 def wrapper(x):
                     if x.ndim == 2:
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
                         return fun(x, *args)
 
-- 
2.43.0


From 25ee7b7452b52c1bf2f32d3fa2ab2853737a9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 12/28] fix: immediate updating forgot ftol had been reached
 unless by the last member

---
 stochopy/optimize/cpso/_cpso.py | 4 ++++
 stochopy/optimize/de/_de.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 089800e..fd9e2a3 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -395,6 +395,10 @@ def pso_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
 
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
+
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
         status = -1
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 28b6730..c1b2b75 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -387,6 +387,10 @@ def de_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
 
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
+
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
         status = -1
-- 
2.43.0


From 3ffad7482e2b7cac4e56e214387e1ddf47763fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 13/28] fix: maxiter=1 ran two iterations with PSO, CPSO, DE
 and NA

---
 stochopy/optimize/cpso/_cpso.py | 5 ++++-
 stochopy/optimize/de/_de.py     | 5 ++++-
 stochopy/optimize/na/_na.py     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index fd9e2a3..dbd7750 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,10 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = None
+    if it >= maxiter:
+        status = 1 if gfit <= ftol else -1
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index c1b2b75..6188fcc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,10 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = None
+    if it >= maxiter:
+        status = 1 if gfit <= ftol else -1
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index df1b975..e15fe78 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,10 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = None
+    if it >= maxiter:
+        status = 1 if gfit <= ftol else -1
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From 8707c77fcbc321bf36c8c8477c87252571618950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 14/28] fix: unknown parallel backend was silently run in
 serial

---
 stochopy/optimize/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index b159a4e..b8771ea 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -97,7 +97,7 @@ def optimizer(optfun):
                 res = optfun(fun, args, sync, workers, backend, *optargs)
 
         else:
-            parallel = backend == "mpi"
+            parallel = backend == "mpi" or workers not in {0, 1}
             fun = wrapper(fun, args, sync, backend, parallel)
             res = optfun(fun, args, sync, workers, backend, *optargs)
 
-- 
2.43.0


From 72cb86e0097ffe4e5654bf58acff0b2ecfdaac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 15/28] fix: CMA-ES and VD-CMA ended up with no parent and NaNs
 for small muperc

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..fde98d4 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -181,7 +181,7 @@ def cmaes(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..03b66d9 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -182,7 +182,7 @@ def vdcma(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
-- 
2.43.0


From e7c34db0f6ac782066a99513edbf49a92ba9cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 16/28] fix: NA left the Voronoi cells when a variable is fixed
 by its bounds

---
 stochopy/optimize/na/_na.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index e15fe78..1b5ba1c 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -157,7 +157,7 @@ def na(
     span = upper - lower
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
-    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
+    normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
     unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
 
     fun = lambda x: funnorm(unnormalize(x))
@@ -286,20 +286,20 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
         d2 = ((U[:, 1:] - X[i, 1:]) ** 2).sum(axis=1)
 
         for j in range(ndim):
-            if not span_mask[j]:
-                # Value does not matter as it will be fixed by unnormalize
-                X[i, j] = 0.0
-                continue
+            if span_mask[j]:
+                lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
 
-            lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
+                idx = lim <= X[i, j]
+                low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
 
-            idx = lim <= X[i, j]
-            low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
+                idx = lim >= X[i, j]
+                high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
 
-            idx = lim >= X[i, j]
-            high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
+                X[i, j] = np.random.uniform(low, high)
 
-            X[i, j] = np.random.uniform(low, high)
+            else:
+                # Value does not matter as it will be fixed by unnormalize
+                X[i, j] = 0.0
 
             if j < ndim - 1:
                 d1 += (Xall[k, j] - X[i, j]) ** 2 - (Xall[k, j + 1] - X[i, j + 1]) ** 2
-- 
2.43.0


From 68a4d5fd4065a673fba123f8f0e8dc70ea802d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 17/28] fix: MPI processes other than root returned wrong
 solutions without a seed

---
 stochopy/optimize/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index b8771ea..edfd88d 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -55,6 +55,9 @@ def optimizer(optfun):
                         mpi_size = mpi_comm.Get_size()
                         mpi_double = MPI.DOUBLE
 
+                        # Without a common seed, processes would draw different candidates
+                        np.random.set_state(mpi_comm.bcast(np.random.get_state(), root=0))
+
                         def wrapper(x):
                             popsize = len(x)
                             f = np.zeros(popsize)
-- 
2.43.0


From ce3a743314a4e28f4e7bf5752557f08d6a0ea5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 18/28] fix: boundary weights were never increased for means
 below the lower bounds

---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..3178d5d 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -51,7 +51,7 @@ def Penalize(
     # Corrected mean
     ti = np.logical_or(xmean < -ones, xmean > ones)
     tx = np.where(xmean < -ones, -ones, xmean)
-    tx = np.where(xmean > ones, ones, xmean)
+    tx = np.where(xmean > ones, ones, tx)
 
     # Set initial weights
     if iniphase and ti.any():
-- 
2.43.0


From c60ce49036d467c1584200c4805cd8c0300438df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 19/28] fix: flat-fitness termination compared with generations
 not yet run

---
 stochopy/optimize/cmaes/_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index fde98d4..e4e6dee 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -408,8 +408,8 @@ def converge(
     # EqualFunValues: stop if the range of fitness values is zero
     elif (
         it >= ilim
-        and arbestfitness[it - ilim : it + 1].max()
-        - arbestfitness[it - ilim : it + 1].min()
+        and arbestfitness[it - ilim : it].max()
+        - arbestfitness[it - ilim : it].min()
         < 1.0e-10
     ):
         status = -5
@@ -421,8 +421,8 @@ def converge(
     # TolFun: stop if fun-changes smaller than 1e-12
     elif (
         it > 2
-        and np.append(arfitness, arbestfitness).max()
-        - np.append(arfitness, arbestfitness).min()
+        and np.append(arfitness, arbestfitness[:it]).max()
+        - np.append(arfitness, arbestfitness[:it]).min()
         < 1.0e-12
     ):
         status = -7
-- 
2.43.0


From ad407e698493477699aa3869734ae93d23a3f8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 20/28] fix: round-off at the bounds made 'Shrink' emit
 infeasible or NaN particles

---
 stochopy/optimize/cpso/_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_constraints.py b/stochopy/optimize/cpso/_constraints.py
index 7f43cbc..3515f31 100644
--- a/stochopy/optimize/cpso/_constraints.py
+++ b/stochopy/optimize/cpso/_constraints.py
@@ -50,7 +50,7 @@ def Shrink(lower, upper, sync):
             )
             V *= beta[:, None]
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     else:
 
@@ -61,7 +61,7 @@ def Shrink(lower, upper, sync):
             beta = shrink(X, V, maskl, masku)
             V *= beta
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     return cons
 
-- 
2.43.0


From f4e0d781db95fbad2c395d10e881cb7059441107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 21/28] fix: CPSO reported its restart sentinel when all values
 exceeded 1e30

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index dbd7750..e428bea 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -428,7 +428,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 8f0b2e92367a52ff923f326dc123fe45cfb094b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 22/28] fix: mcmc crashed when perc leaves a shorter last block
 of dimensions

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 9b17720..fdb9465 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -122,7 +122,7 @@ def sample(
     imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim, j + ndim_per_iter) - 1
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From 88a960f7e2eab8550775d4debd57e7d31cbcba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 23/28] fix: benchmark functions overflowed for integer points

---
 stochopy/factory/benchmark.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/stochopy/factory/benchmark.py b/stochopy/factory/benchmark.py
index b39cd52..767656d 100644
--- a/stochopy/factory/benchmark.py
+++ b/stochopy/factory/benchmark.py
@@ -26,7 +26,7 @@ def ackley(x):
         The value of the Ackley function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     e = 2.7182818284590451
     sum1 = np.sqrt(1.0 / ndim * np.square(x).sum())
@@ -49,7 +49,7 @@ def griewank(x):
         The value of the Griewank function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = np.square(x).sum() / 4000.0
     prod1 = np.prod(np.cos(x / np.sqrt(np.arange(1, ndim + 1))))
@@ -71,7 +71,7 @@ def quartic(x):
         The value of the Quartic function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     return (np.arange(1, ndim + 1) * np.power(x, 4)).sum()
 
@@ -91,7 +91,7 @@ def rastrigin(x):
         The value of the Rastrigin function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = (np.square(x) - 10.0 * np.cos(2.0 * np.pi * x)).sum()
     return 10.0 * ndim + sum1
@@ -112,7 +112,7 @@ def rosenbrock(x):
         The value of the Rosenbrock function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = ((x[1:] - x[:-1] ** 2) ** 2).sum()
     sum2 = np.square(1.0 - x[:-1]).sum()
     return 100.0 * sum1 + sum2
@@ -133,7 +133,7 @@ def sphere(x):
         The value of the Sphere function.
 
     """
-    return np.square(x).sum()
+    return np.square(np.asarray(x, dtype=float)).sum()
 
 
 def styblinski_tang(x):
@@ -151,6 +151,6 @@ def styblinski_tang(x):
         The value of the Styblinski-Tang function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = (np.power(x, 4) - 16.0 * np.square(x) + 5.0 * x).sum()
     return 0.5 * sum1 + 39.16599 * x.size
-- 
2.43.0


From 3062aa3c5b29442bdb2c207035454523672bcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 24/28] fix: last bits of the boundary penalty depended on the
 memory layout

---
 stochopy/optimize/cmaes/_constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 3178d5d..54e9cb5 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -74,7 +74,9 @@ def Penalize(
         )
 
     # Calculate scaling biased to unity, product is one
-    bnd_scale = np.exp(0.9 * (np.log(diagC) - np.log(diagC).mean()))
+    # (NumPy's log of a strided view may differ in the last bit from call to call)
+    logdiagC = np.log(np.ascontiguousarray(diagC))
+    bnd_scale = np.exp(0.9 * (logdiagC - logdiagC.mean()))
 
     # Assigned penalized fitness
     arfitness += np.dot((arxvalid - arx) ** 2, bnd_weights / bnd_scale)
-- 
2.43.0


From 34ace5262c410398f69b97332ec485ec4a0a3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 25/28] fix: hmc differentiated values of narrow integer types
 with wrap-around

---
 stochopy/sample/hmc/_hmc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index e6411b5..c005681 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -158,9 +158,9 @@ def sample(
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-            U0 = fun(q0, *args)
+            U0 = float(fun(q0, *args))
             K0 = 0.5 * np.square(p0).sum()
-            U = fun(q, *args)
+            U = float(fun(q, *args))
             K = 0.5 * np.square(p).sum()
 
             log_alpha = min(0.0, U0 - U + K0 - K)
@@ -228,7 +228,8 @@ def numerical_gradient(x, fun, args, finite_diff_abs_step):
         x1[i] -= finite_diff_abs_step
         x2[i] += finite_diff_abs_step
 
-        grad[i] = fun(x2, *args) - fun(x1, *args)
+        # (Values of unsigned or narrow integer types would wrap around)
+        grad[i] = float(fun(x2, *args)) - float(fun(x1, *args))
 
         x1[i] += finite_diff_abs_step
         x2[i] -= finite_diff_abs_step
-- 
2.43.0


From 251c2e48a35ceba4eb9912721e1ded27f9828a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 26/28] fix: immediate updating kept the objective's own number
 type instead of a float

---
 stochopy/optimize/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index edfd88d..72c49d2 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -88,7 +88,7 @@ def optimizer(optfun):
                     if x.ndim == 2:
                         return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
-                        return fun(x, *args)
+                        return float(fun(x, *args))
 
             return wrapper
 
-- 
2.43.0


From 31d759c2af48da8810e51bbd0deca9e751ddbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 27/28] fix: cmaes and vdcma evaluated NaN for fixed variables
 with x0

---
 stochopy/optimize/cmaes/_cmaes.py | 4 +++-
 stochopy/optimize/vdcma/_vdcma.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index e4e6dee..7bbf559 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -167,7 +167,9 @@ def cmaes(
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
     xstd = 0.5 * (upper - lower)
-    standardize = lambda x: (x - xm) / xstd
+    span_mask = xstd > 0.0
+    span = np.where(span_mask, xstd, 1.0)  # Avoid zero division in standardize
+    standardize = lambda x: np.where(span_mask, (x - xm) / span, 0.0)
     unstandardize = lambda x: x * xstd + xm
 
     fun = lambda x: funstd(unstandardize(x))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 03b66d9..e6eddeb 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -168,7 +168,9 @@ def vdcma(
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
     xstd = 0.5 * (upper - lower)
-    standardize = lambda x: (x - xm) / xstd
+    span_mask = xstd > 0.0
+    span = np.where(span_mask, xstd, 1.0)  # Avoid zero division in standardize
+    standardize = lambda x: np.where(span_mask, (x - xm) / span, 0.0)
     unstandardize = lambda x: x * xstd + xm
 
     fun = lambda x: funstd(unstandardize(x))
-- 
2.43.0


From a30ef00f19a04eb98a4df1b2346335fd78f51604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:33 +0000
Subject: [PATCH 28/28] fix: do not report restarted particles that were never
 evaluated while all values are infinite

---
 stochopy/optimize/_common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 72c49d2..0c3a078 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -134,6 +134,10 @@ def selection_sync(it, cand, xbest, x, xfun, maxiter, xtol, ftol, fun):
     # Best solution index
     idx = np.argmin(xfun)
 
+    # Without any finite value, keep a solution that has been evaluated (unlike restarted ones)
+    if xfun[idx] == np.inf:
+        x = np.broadcast_to(xbest, x.shape)
+
     # Stop if best solution changes less than xtol
     cond1 = np.linalg.norm(xbest - x[idx]) <= xtol
     cond2 = xfun[idx] <= ftol
-- 
2.43.0

