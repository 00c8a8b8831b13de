From 20221643411897a9e9bf0b4b3caf7ca116e56dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 01/24] fix: keep objective values as floats when the first
 ones are integers

---
 stochopy/optimize/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..b159a4e 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -40,7 +40,7 @@ def optimizer(optfun):
 
                         def wrapper(x):
                             f = parallel(fun(xx, *args) for xx in x)
-                            return np.array(f)
+                            return np.array(f, dtype=float)
 
                     elif backend == "mpi":
                         try:
@@ -77,13 +77,13 @@ def optimizer(optfun):
                 else:
 
                     def wrapper(x):
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
 
             else:
 
                 def wrapper(x):
                     if x.ndim == 2:
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
                         return fun(x, *args)
 
-- 
2.43.0


From 8e09dcc548e98d3c7e2fcdd8a53c49692063091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 02/24] fix: forget restarted particles with an infinite value,
 not 1e30

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..7a75f1a 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -421,7 +421,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 68a5debbe03305ee1d55e173dbae2b19bae91028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 03/24] fix: immediate updating stops as soon as the best value
 reaches ftol

---
 stochopy/optimize/cpso/_cpso.py | 10 ++++++++--
 stochopy/optimize/de/_de.py     | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 7a75f1a..18d5346 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -383,6 +383,7 @@ def pso_async(
 ):
     """Asynchronous PSO."""
     popsize = len(X)
+    status = None
 
     for i in range(popsize):
         # Mutation
@@ -391,12 +392,17 @@ def pso_async(
         )
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], stat = selection_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = status if stat is None else stat
+
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
 
     # Stop if maximum iteration is reached
-    if status is None and it >= maxiter:
+    elif status is None and it >= maxiter:
         status = -1
 
     return X, V, pbest, gbest, pbestfit, gfit, pfit, status
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..cefc320 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -371,6 +371,7 @@ def de_async(
 ):
     """Asynchronous DE."""
     popsize, ndim = X.shape
+    status = None
 
     for i in range(popsize):
         # Mutation
@@ -383,12 +384,17 @@ def de_async(
         U[i] = cons(np.where(np.logical_or(mask, r1[i] <= CR), V, X[i]))
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], stat = selection_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = status if stat is None else stat
+
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
 
     # Stop if maximum iteration is reached
-    if status is None and it >= maxiter:
+    elif status is None and it >= maxiter:
         status = -1
 
     return X, gbest, pbestfit, gfit, pfit, status
-- 
2.43.0


From c480d63b65316d2c14c58741505f9543bd66c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 04/24] fix: DE, CPSO and NA perform a single iteration when
 maxiter is 1

---
 stochopy/optimize/cpso/_cpso.py | 3 ++-
 stochopy/optimize/de/_de.py     | 3 ++-
 stochopy/optimize/na/_na.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 18d5346..b1f0b61 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,8 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if maxiter <= 1 else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index cefc320..cff2d01 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,8 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if maxiter <= 1 else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..ebf171a 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,8 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if maxiter <= 1 else None
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From 6fde61c2e498bc83891c3f15dc9180480302d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 05/24] fix: flatness criteria of CMA-ES and VD-CMA ignore
 generations not run yet

---
 stochopy/optimize/cmaes/_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..3302395 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -408,8 +408,8 @@ def converge(
     # EqualFunValues: stop if the range of fitness values is zero
     elif (
         it >= ilim
-        and arbestfitness[it - ilim : it + 1].max()
-        - arbestfitness[it - ilim : it + 1].min()
+        and arbestfitness[it - ilim : it].max()
+        - arbestfitness[it - ilim : it].min()
         < 1.0e-10
     ):
         status = -5
@@ -421,8 +421,8 @@ def converge(
     # TolFun: stop if fun-changes smaller than 1e-12
     elif (
         it > 2
-        and np.append(arfitness, arbestfitness).max()
-        - np.append(arfitness, arbestfitness).min()
+        and np.append(arfitness, arbestfitness[:it]).max()
+        - np.append(arfitness, arbestfitness[:it]).min()
         < 1.0e-12
     ):
         status = -7
-- 
2.43.0


From 4ba57e88f0aaf4258a62f7c624d8c8eea0b127dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 06/24] fix: DE records the values of the recorded individuals
 in funall

---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index cff2d01..4625e54 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -271,12 +271,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From 611ab52222ef132b3af4dd06a5a3ff70c9781752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 07/24] fix: NA records its initial population in user units

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index ebf171a..2f9cdbd 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From 5d41484b7f39610e78f041ccb2e040aedcfaf73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 08/24] fix: start the mean history of CMA-ES and VD-CMA at the
 initial mean

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 3302395..f1ef558 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -178,7 +178,7 @@ def cmaes(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = int(muperc * popsize)
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..3fffd07 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -179,7 +179,7 @@ def vdcma(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = int(muperc * popsize)
-- 
2.43.0


From 82cbe748a07ed2ab146246ed4e22733b6169d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 09/24] fix: DE, PSO and CPSO copy the initial population

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index b1f0b61..6133f2d 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 4625e54..e233bd3 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
-- 
2.43.0


From a37783960a498f67e87a8d292759895f6e724c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 10/24] fix: samplers do not scale the caller's step size in
 place

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..d26c1e7 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = 0.5 * (upper - lower) * stepsize
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..ac20895 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = 0.5 * (upper - lower) * stepsize
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From 55eb643a85fd9448b6032dbc7f49a0b89851cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 11/24] fix: MCMC ends the last block of variables at the last
 variable

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index ac20895..289a478 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -122,7 +122,7 @@ def sample(
     imin, fmin = 0, np.Inf
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim - 1, j + ndim_per_iter - 1)
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From 917a15c853d42533948a41836722431c1acdb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 12/24] fix: samplers with Reject accept feasible samples

---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From 0a39727762b12545c343b05e61cd975771a5c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 13/24] fix: HMC calls the user's gradient

---
 stochopy/sample/hmc/_hmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index d26c1e7..abf03f5 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -114,7 +114,8 @@ def sample(
     if jac is None:
         jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        user_jac = jac
+        jac = lambda x: user_jac(x, *args)
 
     # Seed
     if seed is not None:
-- 
2.43.0


From 777aeb7cbe1e0c4e688c32125db487fd42b28e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 14/24] fix: the first sample counts for the best sample

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index abf03f5..881d5ba 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -141,7 +141,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 289a478..d819fd0 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim - 1, j + ndim_per_iter - 1)
-- 
2.43.0


From dcb2770d9b19710b8f763cfa5342c85496412aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:49 +0000
Subject: [PATCH 15/24] fix: sampler callbacks receive the history up to the
 current sample

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 881d5ba..6341c25 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -183,7 +183,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index d819fd0..949403a 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From 60cab9ef5e9fd64074491f5d1152e21124f34ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 16/24] fix: NA leaves fixed variables out of the cell
 distances

---
 stochopy/optimize/na/_na.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 2f9cdbd..ffc6ab6 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -157,7 +157,7 @@ def na(
     span = upper - lower
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
-    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
+    normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
     unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
 
     fun = lambda x: funnorm(unnormalize(x))
@@ -285,8 +285,9 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
 
         for j in range(ndim):
             if not span_mask[j]:
-                # Value does not matter as it will be fixed by unnormalize
-                X[i, j] = 0.0
+                # Zero in all the points, value will be fixed by unnormalize
+                if j < ndim - 1:
+                    d2 -= (U[:, j + 1] - X[i, j + 1]) ** 2
                 continue
 
             lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
-- 
2.43.0


From da2f27b706793bfa01d6a0108f56758512df972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 17/24] fix: CMA-ES and VD-CMA keep at least one parent

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index f1ef558..c2cc3a2 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -181,7 +181,7 @@ def cmaes(
     xold = xmean.copy()
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 3fffd07..05058fb 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -182,7 +182,7 @@ def vdcma(
     xold = xmean.copy()
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
-- 
2.43.0


From 8c0d7b887666931306f132b718429e29071feaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 18/24] fix: refuse unknown backends in serial runs

---
 stochopy/optimize/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index b159a4e..76d9f03 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -91,6 +91,9 @@ def optimizer(optfun):
 
         backend = backend if backend else "threading"
 
+        if backend not in prefer and backend != "mpi":
+            raise ValueError(f"unknown backend '{backend}'")
+
         if backend in prefer and workers not in {0, 1}:
             with Parallel(n_jobs=workers, prefer=prefer[backend]) as parallel:
                 fun = wrapper(fun, args, sync, backend, parallel)
-- 
2.43.0


From 4c22a72df191e4fec7a3eacb15499ac5312030d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 19/24] fix: refuse unknown constraints in samplers

---
 stochopy/sample/hmc/_hmc.py   | 4 ++++
 stochopy/sample/mcmc/_mcmc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 6341c25..3351386 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -117,6 +117,10 @@ def sample(
         user_jac = jac
         jac = lambda x: user_jac(x, *args)
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 949403a..6790d5c 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -94,6 +94,10 @@ def sample(
 
     ndim_per_iter = max(1, int(perc * ndim))
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
-- 
2.43.0


From 1980a4ceee1c1c4dfaa6a116e99048f3f82646c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 20/24] fix: refuse DE populations too small for the strategy

---
 stochopy/optimize/de/_de.py       | 5 ++++-
 stochopy/optimize/de/_strategy.py | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index e233bd3..4a8b9ab 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -3,7 +3,7 @@ import numpy as np
 from .._common import lhs, messages, optimizer, selection_async, selection_sync
 from .._helpers import OptimizeResult, register
 from ._constraints import _constraints_map
-from ._strategy import _strategy_map
+from ._strategy import _popsize_min, _strategy_map
 
 __all__ = [
     "minimize",
@@ -139,6 +139,9 @@ def minimize(
     CR = recombination
     mut = _strategy_map[strategy]
 
+    if popsize < _popsize_min[strategy]:
+        raise ValueError()
+
     # Synchronize
     sync = updating == "deferred"
     sync = sync or workers not in {0, 1}
diff --git a/stochopy/optimize/de/_strategy.py b/stochopy/optimize/de/_strategy.py
index ff95f5a..493e5bb 100644
--- a/stochopy/optimize/de/_strategy.py
+++ b/stochopy/optimize/de/_strategy.py
@@ -44,3 +44,11 @@ _strategy_map = {
     "best1bin": best1bin,
     "best2bin": best2bin,
 }
+
+# Number of distinct vectors required (including the one being mutated)
+_popsize_min = {
+    "rand1bin": 4,
+    "rand2bin": 6,
+    "best1bin": 3,
+    "best2bin": 5,
+}
-- 
2.43.0


From c8d83f2d7e04a91d6017182a6671dcc8f438bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 21/24] fix: standardize initial guess when a variable has
 equal bounds

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index c2cc3a2..704e893 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -167,7 +167,7 @@ def cmaes(
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
     xstd = 0.5 * (upper - lower)
-    standardize = lambda x: (x - xm) / xstd
+    standardize = lambda x: (x - xm) / np.where(xstd > 0.0, xstd, 1.0)
     unstandardize = lambda x: x * xstd + xm
 
     fun = lambda x: funstd(unstandardize(x))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 05058fb..45c36a2 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -168,7 +168,7 @@ def vdcma(
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
     xstd = 0.5 * (upper - lower)
-    standardize = lambda x: (x - xm) / xstd
+    standardize = lambda x: (x - xm) / np.where(xstd > 0.0, xstd, 1.0)
     unstandardize = lambda x: x * xstd + xm
 
     fun = lambda x: funstd(unstandardize(x))
-- 
2.43.0


From 490c96e909b6da1d59ce19f3b4702d4e46d65f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:21 +0000
Subject: [PATCH 22/24] fix: NA runs without callback when called directly

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index ffc6ab6..50dfdfd 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From 6bdd908d696750bcd2ea92700004e467111e9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 23/24] fix: Penalize compares the mean with the lower bound as
 with the upper one

---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..3178d5d 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -51,7 +51,7 @@ def Penalize(
     # Corrected mean
     ti = np.logical_or(xmean < -ones, xmean > ones)
     tx = np.where(xmean < -ones, -ones, xmean)
-    tx = np.where(xmean > ones, ones, xmean)
+    tx = np.where(xmean > ones, ones, tx)
 
     # Set initial weights
     if iniphase and ti.any():
-- 
2.43.0


From 116522484d6034857e3b6bf7b4c80f7b2438c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 24/24] fix: Penalize ignores an infinite spread of the
 objective values

---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 3178d5d..84d0d03 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -36,7 +36,7 @@ def Penalize(
     delta = (perc[1] - perc[0]) / ndim / diagC.mean() / sigma**2
 
     # Catch non-sensible values
-    if delta == 0:
+    if delta == 0 or not np.isfinite(delta):
         delta = dfithist[dfithist > 0.0].min()
     elif not validfitval:
         dfithist = np.empty(0)
-- 
2.43.0

