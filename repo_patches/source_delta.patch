From 76580b5bca8289b6283622ac94dcf13c44825488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 01/42] fix: ensemble forecasts report a dead worker instead of
 waiting for ever

---
 src/sympkf/model/model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..d83dd9c 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -3,7 +3,7 @@
 
 import numpy as np
 
-import multiprocessing
+from concurrent.futures import ProcessPoolExecutor
 
 class Parallel(object):
     """
@@ -14,8 +14,19 @@ class Parallel(object):
         self.nb_pool = nb_pool
 
     def run(self,args):
-        with multiprocessing.Pool(self.nb_pool) as pool:
-            out = pool.map(self.f, args)
+        # An executor reports the death of a worker, where multiprocessing.Pool.map never returns
+        pool = ProcessPoolExecutor(self.nb_pool)
+        workers = pool._processes
+        try:
+            out = list(pool.map(self.f, args))
+        except BaseException:
+            # Leave no worker behind, even when only some of them could be started
+            for worker in list(workers.values()):
+                worker.terminate()
+                worker.join()
+            raise
+        finally:
+            pool.shutdown()
         return out
 
 class Model(object):
-- 
2.43.0


From 7cfac1f84f918770c61a49c0562a7f5870467718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 02/42] fix: make_M returns the propagator, not its transpose

---
 src/sympkf/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index d83dd9c..29a5fcf 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -325,7 +325,8 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            # Column i is the forecast of the i-th dirac
+            M = np.asarray(M).T
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From ba7606ed11ad4bb267b75bc017d1f074d832f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 03/42] fix: forecast_tl scales each time once when saved times
 are repeated

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index 29a5fcf..809064b 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -273,7 +273,7 @@ class Model(object):
         perturbed_states = ( (state + perturbation * h) for perturbation in perturbations)
         tl_forecasts = self.ensemble_forecast(window, perturbed_states, saved_times)
         # Computation of the perturbation a time
-        for q in saved_times:
+        for q in tl_forecasts: # once for each time, even if a saved time is repeated
             tl_forecasts[q] = [ (state - forecast[q] )/h for state in tl_forecasts[q] ]
         return forecast, tl_forecasts
     
-- 
2.43.0


From 1cfa5a7739820d4fd77db86add1a9f2bb3be23ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 04/42] fix: compare terms and coordinates by value, not by
 identity

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..477c14d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -870,12 +870,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -885,7 +885,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -923,7 +923,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From fc474f5862a3995a5f13591a2890d292f3faf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 05/42] fix: the expectation system expresses every univariate
 moment, as the other systems do

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 477c14d..5f81ec6 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -166,7 +166,7 @@ class SymbolicPKF(object):
                 # 2) Substitute error in Variance/Corrélation
                 equation = equation.subs(subs_error).doit().expand()
                 # 3) Apply internal closure
-                equation = equation.subs(self.internal_closure).doit()
+                equation = self._apply_internal_closure(equation).doit()
 
                 expectation_system.append(equation)
 
-- 
2.43.0


From 422b3fbc322fd74c943021b83bbc1f9f7f6c3ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 06/42] fix: the diffusion form includes the cross-covariance
 equations

---
 src/sympkf/symbolic/pkfcas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 5f81ec6..64b63bd 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,11 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+            for system in [self.expectation_system, self.variance_system, self.cross_covariance_system]:
+
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
+
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From d925967ca8bf502e788319314d147f1855979198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 07/42] fix: publish the internal closure of a PKF object only
 once complete

---
 src/sympkf/symbolic/pkfcas.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 64b63bd..1b28cfb 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -693,11 +693,11 @@ class SymbolicPKF(object):
     def internal_closure(self):
         if self._internal_closure is None:
 
-            self._internal_closure = {}
+            internal_closure = {}
 
             # 1. Set univariate closure
             for meta_field in self.fields.values():
-                self._internal_closure.update(meta_field.internal_closure)
+                internal_closure.update(meta_field.internal_closure)
             
             # 2. Set multivariate closure (only in multivariate situations)           
             for couple in self.multivariate_couples:
@@ -717,8 +717,11 @@ class SymbolicPKF(object):
                 V12 = self.get_covariance(f1,f2)
 
                 # 3.c) Update internal closure
-                self._internal_closure[Expectation(e1*e2)] = V12
-                self._internal_closure[Expectation(eps1*eps2)] = V12/(std1*std2)
+                internal_closure[Expectation(e1*e2)] = V12
+                internal_closure[Expectation(eps1*eps2)] = V12/(std1*std2)
+
+            # 3. Publish the closure once complete
+            self._internal_closure = internal_closure
 
         return self._internal_closure
     
-- 
2.43.0


From 05b99a85b82e2c3d02e7028913ba9209d2e4d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 08/42] fix: publish the cross-covariance system only once
 complete

---
 src/sympkf/symbolic/pkfcas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 1b28cfb..fe607f4 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -364,7 +364,7 @@ class SymbolicPKF(object):
         
 
             # Set the cross-covariance meta-data and compute the cros-covariance dynamics 
-            self._cross_covariance_system = []
+            cross_covariance_system = []
             
             for couple in self.multivariate_couples:
                 # 1) Extract fields and meta-data
@@ -385,8 +385,10 @@ class SymbolicPKF(object):
                 rhs = self._apply_internal_closure(rhs)                
 
                 # 4) update of the cross-covariance system
-                self._cross_covariance_system.append( Eq(lhs,rhs.expand()) )
-                
+                cross_covariance_system.append( Eq(lhs,rhs.expand()) )
+
+            self._cross_covariance_system = cross_covariance_system
+
             return self._cross_covariance_system
 
     @property
-- 
2.43.0


From a8e98200a45be6616897567a36a81bf2141c5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 09/42] fix: publish a level of the substitution tree only once
 complete

---
 src/sympkf/symbolic/pkfcas.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index fe607f4..0f83cd3 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1217,7 +1217,6 @@ class UnivariateTree(object):
         self._self_substitute = self_substitute
         self._degree = 0
         self._levels = {}
-        self._tree = {}
 
     def __call__(self, degree=None):
         """ Return a tree of degree 'degree'  """
@@ -1225,25 +1224,26 @@ class UnivariateTree(object):
         if degree is None:
             degree = self._degree
 
-        if degree > self._degree:
-            # Compute the tree until degree
-            for add_degree in range(self._degree, degree):
-                self._add_tree_level()
+        # Compute the missing levels until degree
+        for level in range(1, degree + 1):
+            if level not in self._levels:
+                self._add_tree_level(level)
 
         tree = {}
-        for level, level_dico in self._levels.items():
-            if level>degree:
-                continue
-            tree.update(level_dico)
+        for level in range(1, degree + 1):
+            tree.update(self._levels[level])
         return tree
 
-    def _add_tree_level(self):
-
-        self._degree += 1
-        degree = self._degree
+    def _add_tree_level(self, degree):
+        """ Compute the level 'degree' from the lower levels, and publish it once complete """
 
         level = {}
 
+        # Rules already known: those of the lower levels then those of this level
+        tree = {}
+        for lower_degree in range(1, degree):
+            tree.update(self._levels[lower_degree])
+
         # Compute all termes E[D^alpha eps D^beta eps] such as |alpha|+|beta| = degree, with 1<=|alpha|<= degree//2
         for alpha_degree in range(1, degree // 2 + 1):
             beta_degree = degree - alpha_degree
@@ -1268,11 +1268,12 @@ class UnivariateTree(object):
                     # Add into tree
                     subs_term = equation.args[1]
                     if self._self_substitute:
-                        subs_term = subs_term.subs(self._tree)
-                    self._tree[term] = subs_term
+                        subs_term = subs_term.subs(tree)
+                    tree[term] = subs_term
                     level[term] = subs_term
 
         self._levels[degree] = level
+        self._degree = max(self._degree, degree)
 
     @property
     def degree(self):
-- 
2.43.0


From d61d49ff038bc5f9633eea800cfb365d73924ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 10/42] fix: a PKF object keeps its own copy of the closure
 given to it

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 0f83cd3..58867eb 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From 968f3ba9f534c372ef43d35fa322389e68ce862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 11/42] fix: an interrupted set_closure leaves no stale system

---
 src/sympkf/symbolic/pkfcas.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 58867eb..d80879d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -669,14 +669,17 @@ class SymbolicPKF(object):
         return self._closure
 
     def set_closure(self, closure):
-        # 1. Update the closure
-        self._closure.update(closure)
+        # 1. Extend the closure
+        new_closure = {**self._closure, **closure}
 
         # 2. Reset systems in metric/diffusion/aspect
         self._system_in_metric = None
         self._system_in_diffusion = None
         self._system_in_aspect = None
 
+        # 3. Update the closure: last, so that an interrupted update leaves no system of another closure
+        self._closure = new_closure
+
     def _clean_system_from_expectation(self, system):
         """ Eliminate expectation of random fields from equation to simplify the representation and to prepare
         the translation in computational codes """
-- 
2.43.0


From 516673bb80d79f005749773735d5140eee5a4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 12/42] fix: write the derivatives of the normalised error in
 the order of sympy, whatever the coordinates

---
 src/sympkf/symbolic/pkfcas.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d80879d..40e072d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -916,14 +916,14 @@ class UnivariateTerm(object):
 
 
 def gamma_def(epsilon, k, i, j):    
-    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j))
+    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j).doit())
 
 def gamma_subs(metric, k, i, j):
     return Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
                               - Derivative(metric(i, j), k))
 
 def skewness_def(epsilon, k, i, j):
-    return Expectation(epsilon * Derivative(epsilon, k, i, j))
+    return Expectation(epsilon * Derivative(epsilon, k, i, j).doit())
 
 def skewness_subs(metric, k, i, j):
     return -Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
@@ -1018,7 +1018,7 @@ class Field(object):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
 
     def metric_definition(self,i,j):
-        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]))
+        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]).doit())
 
     def nu_func(self,i,j):
         return Function('{\\nu_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(
@@ -1258,10 +1258,12 @@ class UnivariateTree(object):
                 for beta in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, beta_degree):
 
                     # term = Expectation(Derivative(self.epsilon, *alpha) * Derivative(self.epsilon, *beta))
-                    term = Derivative(self.epsilon, *alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
+                    # .. 'doit' sorts the variables of the derivatives, whatever the order of the coordinates
+                    beta_term = Derivative(self.epsilon, *beta.as_couples).doit()
+                    term = Derivative(self.epsilon, *alpha.as_couples).doit() * beta_term
                     term = Expectation(term)
 
-                    lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples), alpha.as_sequence[0])
+                    lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples).doit() * beta_term, alpha.as_sequence[0])
                     rhs = lhs.doit()
 
                     equation = Eq(Expectation(lhs), Expectation(rhs))
-- 
2.43.0


From e26891c1d1d11ddfba371dea7fe4db29b34bd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 13/42] fix: the expectation commutes with every variable of a
 derivative or integral

---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 243d28f81bf9c3a49fdbf64197ea747bda538450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 14/42] fix: recognise the displacement of a coordinate whose
 name starts with d

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..38e1d03 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -394,7 +394,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -436,7 +436,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From 4b934c246bff2bfb5c882af8920ff2fb931b90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 15/42] fix: the mesh X of a generated model follows its array
 indices

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..89cc0ae 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing='ij')
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From a9a702294a8729b9c2233619e5efcde3373339c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 16/42] fix: manifold models use the time scheme they are given

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From 65a73d6311bb49cfb5a5ba31d10027bdfc57412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 17/42] fix: the Burgers model can be built

---
 src/sympkf/dynamics/burgers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..c4e5f57 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -29,6 +29,7 @@ class Burgers(object):
 
     def __init__(self, n=241):
         def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
+            namespace = {}
+            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+            return namespace['ClosedPKFBurgers']
         self.model = factory()(shape=(n,))
-- 
2.43.0


From d74f8a7f1a5fd4b98502eaa710ae7283a6b32351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 18/42] fix: the advected field of the 1D advection is not
 named as its velocity

---
 src/sympkf/symbolic/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/dynamics.py b/src/sympkf/symbolic/dynamics.py
index 6f00fa2..3e0a453 100644
--- a/src/sympkf/symbolic/dynamics.py
+++ b/src/sympkf/symbolic/dynamics.py
@@ -25,7 +25,7 @@ diffusion = PDESystem(
         )
 
 
-c = Function('u')(t,x)
+c = Function('c')(t,x)
 u = Function('u')(x)
 
 advection = PDESystem(
-- 
2.43.0


From ba58ad9a56552ebd54aa5ba0f439f8a8613470a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 19/42] fix: symbols named as a Python keyword, such as
 \lambda, are rendered as valid identifiers

---
 src/sympkf/symbolic/tool.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 758cfbc..f25ef32 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,4 @@
+import keyword
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
@@ -17,4 +18,8 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
+    # -5- A name of Python cannot be used e.g. \lambda
+    if keyword.iskeyword(label):
+        label += '_'
+
     return label
-- 
2.43.0


From ba878929ca75faa770af979808876bee3d3b7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 20/42] fix: the trend of a field u does not clash with a field
 named du

---
 src/sympkf/symbolic/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..e561507 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -27,7 +27,7 @@ class MetaPrognosticFunction(MetaFunction):
         self.trend = self._set_trend()
 
     def _set_trend(self):
-        return 'd'+self.as_keyvar
+        return 'trend_'+self.as_keyvar # 'd'+... might be the name of another function
 
 
 class MetaDerivative(object):
-- 
2.43.0


From 23722812eba4b856513888561ace925c505a1d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 21/42] fix: the generated code does not depend on the hash
 seed

---
 src/sympkf/symbolic/model_builder.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index e561507..ea24f09 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -1,4 +1,4 @@
-from sympy import Eq
+from sympy import Eq, default_sort_key
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
 from jinja2 import Template
@@ -148,7 +148,7 @@ class ModelBuilder(object):
     def functions(self):
         if self._functions is None:
             self._functions = [MetaFunction(function, index)
-                               for index, function in enumerate(self.pde_system.functions)]
+                               for index, function in enumerate(self._ordered(self.pde_system.functions))]
         return self._functions
 
     @property
@@ -168,6 +168,11 @@ class ModelBuilder(object):
             self._trend_code = self._make_trend_code()
         return self._trend_code
 
+    @staticmethod
+    def _ordered(symbols):
+        """ Order that does not depend on the hash seed, so that the code is the same in all processes """
+        return sorted(symbols, key=default_sort_key)
+
     def _create_meta_function(self, function, index):
         return MetaFunction(function, index)
     def _create_meta_prognostic_function(self, function, index):
@@ -193,27 +198,27 @@ class ModelBuilder(object):
     def constant_functions(self):
         if self._constant_functions is None:
             self._constant_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.constant_functions)]
+                                        for index, function in enumerate(self._ordered(self.pde_system.constant_functions))]
         return self._constant_functions
 
     @property
     def exogenous_functions(self):
         if self._exogenous_functions is None:
             self._exogenous_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.exogenous_functions)]
+                                        for index, function in enumerate(self._ordered(self.pde_system.exogenous_functions))]
         return self._exogenous_functions
 
     @property
     def constants(self):
         if self._constants is None:
-            self._constants = [self._create_meta_constant(constant) for constant in self.pde_system.constants]
+            self._constants = [self._create_meta_constant(constant) for constant in self._ordered(self.pde_system.constants)]
         return self._constants
 
     @property
     def spatial_derivatives(self):
         if self._spatial_derivatives is None:
             self._spatial_derivatives = [self._create_meta_derivative(derivative)
-                                         for derivative in self.pde_system.spatial_derivatives]
+                                         for derivative in self._ordered(self.pde_system.spatial_derivatives)]
         return self._spatial_derivatives
 
     @property
-- 
2.43.0


From 8e8aeac993e12725f4b4d79c397cfb5ee6e16349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:55 +0000
Subject: [PATCH 22/42] fix: coordinates with a LaTeX name can be used in
 generated code

---
 src/sympkf/symbolic/finite_difference.py | 8 ++++----
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..6b7db4e 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -350,7 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :return:
     """
     from sympy import Function
-
+    from .tool import clean_latex_name
 
     code = str(finite)
 
@@ -368,7 +368,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     # -2- Replace dx's
     for x_dx in loc_x_dx:
         xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
+        code = code.replace(str(dxi), dx_coding_rule(clean_latex_name(xi)))
 
     return code
 
@@ -450,7 +450,7 @@ class Code(object):
             for k, step in enumerate(displacement):
                 assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-                code += self.slice_coding_rule(f"'{x[k]}'", step) + ','
+                code += self.slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
             # Suffix for closing array
             code = code[:-1]
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index ea24f09..3828e41 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
-- 
2.43.0


From 49a9712ab6d1024f541bd2e9330783b3898f9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 23/42] fix: a coordinate or function whose name holds another
 one can be used in generated code

---
 src/sympkf/symbolic/finite_difference.py | 26 +++++++++---------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 6b7db4e..c8b06c0 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -349,28 +349,22 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function
+    from sympy import Symbol
+    from sympy.core.function import AppliedUndef
     from .tool import clean_latex_name
 
-    code = str(finite)
+    # Terms are replaced in the expression, since the name of a term can be a part of another name (dx in dxi)
+    subs_code = {}
+    for function in finite.atoms(AppliedUndef):
+        # -1- Replace functions
+        subs_code[function] = Symbol(code_regular_function(function, slice_coding_rule))
 
-
-    loc_x_dx = []
-
-    # -1- Replace functions
-    for function in finite.atoms(Function):
+        # -2- Replace dx's
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
-            if (xi,dxi) not in loc_x_dx:
-                loc_x_dx.append((xi,dxi))
-        code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
+            subs_code[dxi] = Symbol(dx_coding_rule(clean_latex_name(xi)))
 
-    # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(clean_latex_name(xi)))
-
-    return code
+    return str(finite.xreplace(subs_code))
 
 
 class Code(object):
-- 
2.43.0


From bba1bab1784157acccaa270b55a1ad5ce5fb6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 24/42] fix: elementary functions are not fields, and are those
 of numpy in generated code

---
 src/sympkf/symbolic/finite_difference.py | 4 ++--
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 src/sympkf/symbolic/tool.py              | 6 ++++++
 src/sympkf/symbolic/util.py              | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index c8b06c0..6f7ea37 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -351,7 +351,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     """
     from sympy import Symbol
     from sympy.core.function import AppliedUndef
-    from .tool import clean_latex_name
+    from .tool import clean_latex_name, numpy_code
 
     # Terms are replaced in the expression, since the name of a term can be a part of another name (dx in dxi)
     subs_code = {}
@@ -364,7 +364,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
         for xi,dxi in zip(x,dx):
             subs_code[dxi] = Symbol(dx_coding_rule(clean_latex_name(xi)))
 
-    return str(finite.xreplace(subs_code))
+    return numpy_code(finite.xreplace(subs_code))
 
 
 class Code(object):
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 3828e41..1b53f6d 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -3,7 +3,7 @@ from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionS
 
 from jinja2 import Template
 
-from .tool import clean_latex_name
+from .tool import clean_latex_name, numpy_code
 
 class MetaFunction(object):
 
@@ -278,7 +278,7 @@ class ModelBuilder(object):
             function = lhs.args[0]
             lhs = subs_trend[function]
             # 3. implement the code line: set the lhs **np.array** from the rhs
-            code_line = str(lhs)+'[:] = '+str(rhs)
+            code_line = str(lhs)+'[:] = '+numpy_code(rhs)
             # 4. Add to code.
             trend_code.append(code_line)
 
diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index f25ef32..2e37aca 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,4 +1,10 @@
 import keyword
+from sympy.printing.numpy import NumPyPrinter
+
+def numpy_code(expr):
+    """ Convert an expression into code, where elementary functions are those of numpy (imported as np) """
+    return NumPyPrinter().doprint(expr).replace('numpy.', 'np.')
+
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 38e1d03..58e315d 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -241,7 +241,9 @@ class PDESystem(object):
         functions = set()
 
         for equation in self.equations:
-            functions.update(equation.atoms(Function))
+            # elementary functions (sin, exp, ..) are not fields
+            functions.update(function for function in equation.atoms(Function)
+                             if not str(type(function).__module__).startswith('sympy.functions'))
 
         return functions
 
-- 
2.43.0


From f6a58d3c46bf30be75156ae3c3a18560cf116985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 25/42] fix: generate the code of derivatives of expressions,
 such as fluxes

---
 src/sympkf/symbolic/model_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 1b53f6d..dd0a73d 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -122,6 +122,9 @@ class ModelBuilder(object):
         if not isinstance(pde_system, PDESystem):
             pde_system = PDESystem(pde_system)
 
+        # Only derivatives of functions are coded, those of expressions are evaluated e.g. Derivative(u**2,x)
+        pde_system = PDESystem([equation.doit() for equation in pde_system.equations], name=pde_system.name)
+
         self.pde_system = pde_system
 
         if class_name is None:
-- 
2.43.0


From 05bc1d38ca2a64890edc7b2d2449d98f7d46e2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 26/42] fix: the Burgers model can be pickled, hence used in
 parallel ensemble forecasts

---
 src/sympkf/dynamics/burgers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index c4e5f57..94e0703 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -28,8 +28,7 @@ class Burgers(object):
     closed_pkf.set_closure({unclosed_term:p18_closure['aspect']})
 
     def __init__(self, n=241):
-        def factory():
-            namespace = {}
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
-            return namespace['ClosedPKFBurgers']
-        self.model = factory()(shape=(n,))
+        self.model = ClosedPKFBurgers(shape=(n,))
+
+# The class is defined in the module, so that its instances can be pickled (for parallel ensemble forecasts)
+exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-- 
2.43.0


From 1d175ed892e171fba0dc808e55b6c81c91996baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 27/42] fix: correlation closures do not depend on earlier
 requests, and hold in several dimensions

---
 src/sympkf/symbolic/pkfcas.py | 125 ++++++++++++++++++----------------
 1 file changed, 65 insertions(+), 60 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 40e072d..79833cc 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1313,8 +1313,7 @@ class Closure(object):
         self.metric = mfield.metric
         self.diffusion = mfield.diffusion
         self.aspect = mfield.aspect
-        self._order = 0
-        self._taylor = None
+        self._taylor = {}
         self._in_metric = None
         self._in_diffusion = None
         self._in_aspect = None
@@ -1366,19 +1365,36 @@ class Closure(object):
         return normalization * h_correlation
 
     def taylor(self, order):
-        """ Compute the Taylor expansion until degree 'order' """
-        if self._order < order:
+        """ Compute the Taylor expansion until degree 'order' (not included) """
+        if order not in self._taylor:
             px = self._x
             py = tuple([xi + dxi for xi, dxi in zip(self._x, self._dx)])
-            taylor = self.correlation(px, py)
-            for dxi in self._dx:
-                taylor = taylor.series(dxi, 0, order).removeO()
-                taylor = remove_eval_derivative(taylor)
-
-            self._taylor = taylor
-            self._order = order
-
-        return self._taylor
+            origin = {dxi: 0 for dxi in self._dx}
+
+            taylor = Integer(0)
+            derivatives = {len(self._x) * (0,): self.correlation(px, py)}
+            for degree in range(order):
+                if degree > 0:
+                    derivatives = self._derivatives_of_degree(degree, derivatives)
+                for alpha, derivative in derivatives.items():
+                    monomial = Integer(1)
+                    for dxi, alpha_i in zip(self._dx, alpha):
+                        monomial *= dxi ** alpha_i / sympy.factorial(alpha_i)
+                    taylor += remove_eval_derivative(derivative.subs(origin)).expand() * monomial
+
+            self._taylor[order] = taylor.expand()
+
+        return self._taylor[order]
+
+    def _derivatives_of_degree(self, degree, lower_derivatives):
+        """ Derivatives of degree 'degree' along the separations, from those of degree 'degree'-1 """
+        derivatives = {}
+        for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, degree):
+            alpha = alpha.as_tuple
+            i = max(range(len(alpha)), key=lambda k: alpha[k])
+            lower = tuple([alpha_j - (j == i) for j, alpha_j in enumerate(alpha)])
+            derivatives[alpha] = lower_derivatives[lower].diff(self._dx[i])
+        return derivatives
 
     def closure_by_order(self, order):
         """
@@ -1386,34 +1402,34 @@ class Closure(object):
         :param order:
         :return: a
         """
-        order = order + 1
-        if self._order < order:
-            # 1. Compute terms until order
-            factorial = 1
-            for partial_order in range(order):
+        if order not in self._closure_by_order:
+            closure_by_order = {}
+            taylor = self.taylor(order + 1)
 
-                partial_order = int(partial_order)
+            for partial_order in range(order + 1):
                 closure = {}
 
-                if partial_order != 0:
-                    factorial *= partial_order
-
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
-                    coeff_alpha = self.taylor(order).expand()
-                    for xi, dxi in zip(self._x,self._dx):
-                        alpha_i = alpha.as_sequence.count(xi)
+                    coeff_alpha = taylor
+                    factorial = Integer(1)
+                    for dxi, alpha_i in zip(self._dx, alpha.as_tuple):
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
+                        factorial *= sympy.factorial(alpha_i)
 
-                    # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
-                    closure[term] = Integer(factorial) * coeff_alpha
-                self._closure_by_order[partial_order] = closure
+                    # -2- Derivative along alpha at zero separation
+                    closure[self._term(alpha)] = factorial * coeff_alpha
+                closure_by_order[partial_order] = closure
 
-            # 2. Update the order
-            self._order = order
+            self._closure_by_order[order] = closure_by_order
 
-        return self._closure_by_order
+        # The result is a copy: it can be modified without any impact on the next calls
+        return {partial_order: dict(closure)
+                for partial_order, closure in self._closure_by_order[order].items()}
+
+    def _term(self, alpha):
+        """ Term E[eps * D^alpha eps] """
+        return Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
 
     def closure(self, order):
         closure = {}
@@ -1423,38 +1439,27 @@ class Closure(object):
         return closure
 
     def in_metric_by_order(self, order):
-        subs_closure_by_order = self.closure_by_order(order)
-        g_dico = {} # denotes the metric tensor
-        s_dico = {} # denotes the aspect tensor (here the parameter of the formulation)
-        # -1- Supress partial derivative in metric terms
-        second_order = 2
-        system_s_to_g = []
-        for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
-            # -1- get term
-            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
-            # -2- Eliminate derivatives
-            subs_term = subs_closure_by_order[second_order][term]
-            subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
-            subs_closure_by_order[second_order][term] = subs_term
-            # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+        """
+        Closure for terms E[eps * D^alpha eps] where the aspect tensor is replaced by the inverse of the
+        metric tensor (that is, the derivatives of the parameter are neglected in the terms of second order)
+        """
+        closure_by_order = self.closure_by_order(order)
 
-            g_dico[term] = -self.mfield.metric_func(i, j)
-            s_dico[term] = self.mfield.aspect_func(i, j)
-            system_s_to_g.append(Eq(g_dico[term], subs_term))
+        aspect_in_metric = self.metric.inv()
+        s_to_g = {self.aspect[k]: aspect_in_metric[k] for k in range(len(self.aspect))}
 
-        # -2- expression en fonction de la notation de la métrique
-        s_to_g = sympy.solve(system_s_to_g, *s_dico.values())
+        in_metric = {}
+        for partial_order, closure in closure_by_order.items():
+            in_metric[partial_order] = {term: value.subs(s_to_g).doit() for term, value in closure.items()}
 
-        # -3- Replace in all subs_closure
-        for order in subs_closure_by_order:
-            for term in subs_closure_by_order[order]:
-                subs_closure_by_order[order][term] = subs_closure_by_order[order][term].subs(s_to_g).doit()
+        # At second order, the terms are the opposite of the metric
+        second_order = 2
+        if second_order in in_metric:
+            for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
+                i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
+                in_metric[second_order][self._term(alpha)] = -self.mfield.metric_func(i, j)
 
-        return subs_closure_by_order
+        return in_metric
 
     def in_diffusion(self, order):
         raise NotImplementedError
-- 
2.43.0


From bc6c7aa16a38bea6f99cea5c0f94e2c068cb07bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 28/42] fix: the local Gaussian correlation written in metric
 has this metric

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 79833cc..d57781b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1484,7 +1484,7 @@ class LocGaussianClosure(Closure):
 
         if metric:
             gux = self.metric.subs(cpx)
-            dot_prod = dxy.T @ gux @ dxy
+            dot_prod = dxy.T @ (Rational(1 , 2)*gux) @ dxy
         else:
             sx = self.aspect.subs(cpx)
             dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
-- 
2.43.0


From eea863f0f54ca1208ca2e2d7129cc093bd64059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 29/42] fix: export a generated module completely or not at all

---
 src/sympkf/symbolic/model_builder.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index dd0a73d..01fdf1e 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -1,3 +1,7 @@
+import contextlib
+import os
+import uuid
+
 from sympy import Eq, default_sort_key
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
@@ -330,12 +334,19 @@ class ModelBuilder(object):
         # -1- Render the code
         code = self.template_licence + self.code
 
-        # -2- Save code in a module
+        # -2- Save code in a module: written aside, then moved to its name once complete
         python_module = self.class_name.lower()
         python_file = python_module + '.py'
-        with open(python_file, 'w') as file:
-            for line in code:
-                file.write(line)
+        temporary_file = f"{python_file}.{uuid.uuid4().hex}.tmp"
+        try:
+            with open(temporary_file, 'w', encoding='utf-8') as file:
+                for line in code:
+                    file.write(line)
+            os.replace(temporary_file, python_file)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.remove(temporary_file)
+            raise
 
         self.module_name = python_module
         self.module_file = python_file
-- 
2.43.0


From fdc32a8f5402a8ac0603df243b78129f174637f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 30/42] fix: substituting, evaluating or expanding an equation
 that becomes trivial returns its truth value

---
 src/sympkf/symbolic/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 58e315d..cd42b52 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -130,17 +130,21 @@ class Eq(sympy.Eq):
     def __sub__(self, eq):
         return self.__class__(*[self.args[k] - eq.args[k] for k in range(2)])
 
+    def _as_equation(self, eq):
+        # an equation whose truth is decided is no more an equation e.g. true
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
+
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        return self._as_equation(eq)
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        return self._as_equation(eq)
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        return self._as_equation(eq)
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From f0ddc6a1167c2604ea2975984f639f5138d12b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 31/42] fix: gradient and divergence accept elementary
 functions and expectations of compatible fields

---
 src/sympkf/symbolic/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index cd42b52..0060d70 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -3,6 +3,7 @@
 """
 
 from sympy import Derivative, Function, Symbol, symbols, Add
+from sympy.core.function import AppliedUndef
 from .tool import clean_latex_name
 import sympy
 
@@ -591,7 +592,8 @@ class CoordinateSystem(object):
             return False
 
     def _check_compatible(self, expr):
-        for function in expr.atoms(Function):
+        # fields are the undefined functions, not the elementary ones (sin, exp, ..) nor expectations
+        for function in expr.atoms(AppliedUndef):
             if not self.is_compatible(function):
                 raise ValueError(f'field args {function.args} not compatible with coordinates {self._coords}')
 
-- 
2.43.0


From ff1a5fc18e157fbbb003358789a3f2bb4371c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 32/42] fix: names holding characters such as * or spaces are
 rendered as valid identifiers

---
 src/sympkf/symbolic/tool.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 2e37aca..56eaa66 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,4 +1,6 @@
 import keyword
+import re
+import unicodedata
 from sympy.printing.numpy import NumPyPrinter
 
 def numpy_code(expr):
@@ -24,7 +26,13 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
-    # -5- A name of Python cannot be used e.g. \lambda
+    # -5- Other characters cannot be used in a name e.g. u^*
+    label = unicodedata.normalize('NFKC', label) # as Python does
+    label = re.sub(r'\W', '_', label)
+    if not label.isidentifier():
+        label = '_' + label
+
+    # -6- A name of Python cannot be used e.g. \lambda
     if keyword.iskeyword(label):
         label += '_'
 
-- 
2.43.0


From 79fc078982c05ca0f16a4b2b79278539d477c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 33/42] fix: a coordinate whose name holds a comma or a space,
 such as x_{1,2}, has one displacement

---
 src/sympkf/symbolic/finite_difference.py | 8 ++++----
 src/sympkf/symbolic/pkfcas.py            | 6 ++----
 src/sympkf/symbolic/util.py              | 4 ++--
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 6f7ea37..2e430af 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -36,13 +36,13 @@ def get_subs_derivative(derivative):
         subs_derivative = Derivative(finite_diff, y,1)
 
     """
-    from sympy import Derivative, Integer, symbols
+    from sympy import Derivative, Integer, Symbol
     from numpy import arange
 
     # Get arguments from the derivative
     func_part = derivative.args[0]
     xi, oi = derivative.args[1]
-    dxi = symbols('d' + str(xi))    
+    dxi = Symbol('d' + str(xi))    
     
     # 1. Compute the finite difference of the derivation with respect to the first argument
     
@@ -165,7 +165,7 @@ def _sympy_finite_difference(expr):
         f(x+dx)/2*dx - f(x-dx)/2*dx
 
     """
-    from sympy import Derivative, symbols
+    from sympy import Derivative, Symbol
 
     expr = expr.doit()
 
@@ -179,7 +179,7 @@ def _sympy_finite_difference(expr):
         for derivative in derivatives:
             # a) get first 'wrt' variable
             xi = derivative.args[1][0]
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
             # b) substitute
             expr = expr.subs(derivative, derivative.as_finite_difference(dxi, wrt=xi)).expand()
 
diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d57781b..a01082c 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -5,7 +5,7 @@ from .constants import t as time_symbol
 import collections
 
 
-from sympy import Derivative, symbols, Function, sqrt, Integer, Rational, Mul, Matrix
+from sympy import Derivative, Symbol, symbols, Function, sqrt, Integer, Rational, Mul, Matrix
 import sympy
 
 omega = symbols('omega')
@@ -1305,9 +1305,7 @@ class Closure(object):
         self.spatial_coordinates = mfield.spatial_coordinates
 
         self._x = self.spatial_coordinates
-        self._dx = symbols(' '.join([f"d{xi}" for xi in self.spatial_coordinates]))
-        if not isinstance(self._dx, tuple):
-            self._dx = (self._dx,)
+        self._dx = tuple(Symbol(f"d{xi}") for xi in self.spatial_coordinates)
 
         self.epsilon = mfield.epsilon
         self.metric = mfield.metric
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 0060d70..d12e288 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -405,7 +405,7 @@ def get_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
@@ -447,7 +447,7 @@ def get_function_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
-- 
2.43.0


From 0f88b84601a87c29d5b746d8d29117a4159bff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 34/42] fix: a constant named \varepsilon is not taken for the
 magnitude of the error

---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index a01082c..674850b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -5,7 +5,7 @@ from .constants import t as time_symbol
 import collections
 
 
-from sympy import Derivative, Symbol, symbols, Function, sqrt, Integer, Rational, Mul, Matrix
+from sympy import Derivative, Dummy, Symbol, symbols, Function, sqrt, Integer, Rational, Mul, Matrix
 import sympy
 
 omega = symbols('omega')
@@ -86,7 +86,7 @@ class SymbolicPKF(object):
         first_order_reynolds = []
         second_order_reynolds = []
 
-        epsilon = symbols('\\varepsilon')
+        epsilon = Dummy('\\varepsilon') # not a constant of the dynamics
         subs_reynolds = {            
             field: Expectation(self.fields[field].random) + epsilon * self.fields[field].error            
             for field in self.fields
-- 
2.43.0


From 0ad70f171cbfcceb7bde53dd028a301e722af100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 35/42] fix: the statistics of fields such as u^1 and u_1 do
 not have the same names

---
 src/sympkf/symbolic/pkfcas.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 674850b..364f2e8 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -45,9 +45,13 @@ class SymbolicPKF(object):
 
         self.pde_system = pde_system
 
-        self.fields = collections.OrderedDict([(field, Field(field))
-                                               for field in self.pde_system.prognostic_functions]
-                                              )
+        self.fields = collections.OrderedDict()
+        for field in self.pde_system.prognostic_functions:
+            # the statistics of two fields cannot have the same names e.g. fields u^1 and u_1
+            code = clean_latex_name(field.func)
+            while any(code == meta_field.code for other, meta_field in self.fields.items() if other != field):
+                code += '_'
+            self.fields[field] = Field(field, code)
         self.time_coordinate = self.pde_system.time_coordinate
         self.tl_system = None
         self._first_order_reynolds_system = None
@@ -746,7 +750,12 @@ class SymbolicPKF(object):
             assert cf1==cf2, ValueError("f1 and f2 have different coordinate system")
             coordinates = cf1
 
-            return Function(self._label_covariance+f1.name+f2.name)(*coordinates)
+            # 3. Selection of the label, which has to differ from the one of another couple e.g. (a,bc) and (ab,c)
+            label = f1.name+f2.name
+            if any(label == g1.name+g2.name for g1, g2 in self.multivariate_couples if {g1, g2} != {f1, f2}):
+                label = f1.name+','+f2.name
+
+            return Function(self._label_covariance+label)(*coordinates)
         else:
             raise ValueError("f1 or f2 are not prognostic fields")
 
@@ -930,9 +939,9 @@ def skewness_subs(metric, k, i, j):
                                + Derivative(metric(i, j), k))
 
 class Field(object):
-    def __init__(self, field):
+    def __init__(self, field, code=None):
         self.value = field
-        self.code = clean_latex_name(field.func)
+        self.code = clean_latex_name(field.func) if code is None else code
 
         self.coordinates = field.args
         self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
-- 
2.43.0


From 1f52035b67c012281127003d53e0a146c0977f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 36/42] fix: two symbols of a system do not have the same name
 in the generated code

---
 src/sympkf/symbolic/model_builder.py | 51 +++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 01fdf1e..7be8d16 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -1,8 +1,10 @@
 import contextlib
 import os
+import re
 import uuid
 
-from sympy import Eq, default_sort_key
+from sympy import Eq, Function, Symbol, default_sort_key
+from ..model import Model
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
 from jinja2 import Template
@@ -129,6 +131,9 @@ class ModelBuilder(object):
         # Only derivatives of functions are coded, those of expressions are evaluated e.g. Derivative(u**2,x)
         pde_system = PDESystem([equation.doit() for equation in pde_system.equations], name=pde_system.name)
 
+        # Two symbols cannot have the same name in the code e.g. u^1 and u_1
+        pde_system = self._with_distinct_names(pde_system)
+
         self.pde_system = pde_system
 
         if class_name is None:
@@ -180,6 +185,50 @@ class ModelBuilder(object):
         """ Order that does not depend on the hash seed, so that the code is the same in all processes """
         return sorted(symbols, key=default_sort_key)
 
+    # Names of the generated code that a field, a constant function or a constant cannot have ..
+    _local_names = {'self', 'np', 't', 'state', 'dstate', 'exogenous'}
+    # .. and that an attribute cannot have i.e. constant functions and constants
+    _attribute_names = set(dir(Model)) | {'time_scheme', 'time_schemes', 'shape', 'lengths', 'dx', 'x', 'X', 'index', '_index',
+                                          'base_space', 'compute_exogenous', 'prognostic_functions', 'exogenous_functions',
+                                          'coordinates', 'constant_functions', 'constants'}
+
+    @classmethod
+    def _with_distinct_names(cls, pde_system):
+        """ Rename symbols when, once converted into valid variable names, they have the name of another """
+
+        def distinct(symbols, reserved=lambda symbol, name: False):
+            label = lambda symbol: str(getattr(symbol, 'name', symbol))
+            clean = {symbol: clean_latex_name(label(symbol)) for symbol in symbols}
+            names = {}
+            # names that are valid as they are have the priority
+            for symbol in sorted(symbols, key=lambda symbol: (clean[symbol] != label(symbol), default_sort_key(symbol))):
+                name = clean[symbol]
+                while name in names.values() or reserved(symbol, name):
+                    name = '_' + name if name.startswith('trend_') else name + '_'
+                names[symbol] = name
+            return {symbol: name for symbol, name in names.items() if name != clean[symbol]}
+
+        def reserved(symbol, name):
+            if name in cls._local_names or name.startswith('trend_') or re.search(r'_o\d+$', name):
+                return True
+            is_attribute = symbol in pde_system.constants or symbol in pde_system.constant_functions
+            return is_attribute and name in cls._attribute_names
+
+        renamed = {}
+        for symbol, name in distinct(pde_system.functions | pde_system.constants, reserved).items():
+            if symbol in pde_system.constants:
+                renamed[symbol] = type(symbol)(name, **symbol.assumptions0)
+            else:
+                renamed[symbol] = Function(name)(*symbol.args)
+        if renamed:
+            pde_system = PDESystem([equation.xreplace(renamed) for equation in pde_system.equations], name=pde_system.name)
+
+        renamed = {symbol: Symbol(name) for symbol, name in distinct(set(pde_system.spatial_coordinates)).items()}
+        if renamed:
+            pde_system = PDESystem([equation.xreplace(renamed) for equation in pde_system.equations], name=pde_system.name)
+
+        return pde_system
+
     def _create_meta_function(self, function, index):
         return MetaFunction(function, index)
     def _create_meta_prognostic_function(self, function, index):
-- 
2.43.0


From 75913b88076b9603fded94d16b80ac8731f85a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 37/42] fix: the components of the metric do not have the same
 name along coordinates such as x^1 and x_1

---
 src/sympkf/symbolic/pkfcas.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 364f2e8..ca901aa 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -948,6 +948,10 @@ class Field(object):
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
+        if len({code_i + code_j for i, code_i in enumerate(self.spatial_coords_code) for code_j in self.spatial_coords_code[i:]}) \
+                < len(self.spatial_coords_code) * (len(self.spatial_coords_code) + 1) // 2:
+            # the components of a tensor cannot have the same name e.g. for coordinates x^1 and x_1
+            self.spatial_coords_code = tuple(code + str(i) for i, code in enumerate(self.spatial_coords_code))
 
         # Associated random fields
         self.random = Function(str(field.func))(*field.args, omega)
-- 
2.43.0


From 02d8a57376f15b21f256da49be091d19502dd1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:09 +0000
Subject: [PATCH 38/42] fix: the derivatives of u along a_x and of u_a along x
 do not have the same name in the code

---
 src/sympkf/symbolic/model_builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 7be8d16..33ac404 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -275,6 +275,12 @@ class ModelBuilder(object):
         if self._spatial_derivatives is None:
             self._spatial_derivatives = [self._create_meta_derivative(derivative)
                                          for derivative in self._ordered(self.pde_system.spatial_derivatives)]
+            # Two derivatives cannot have the same name e.g. the one of u along a_x, and the one of u_a along x
+            keyvars = set()
+            for derivative in self._spatial_derivatives:
+                while derivative.as_keyvar in keyvars:
+                    derivative.as_keyvar = 'D' + derivative.as_keyvar
+                keyvars.add(derivative.as_keyvar)
         return self._spatial_derivatives
 
     @property
-- 
2.43.0


From 0948016686609251de0217fccf24db472d06f05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:45 +0000
Subject: [PATCH 39/42] fix: random exogenous terms stop the derivation (the
 dictionary of univariate terms changes while it is read)

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index ca901aa..7291fd4 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -820,7 +820,7 @@ class SymbolicPKF(object):
         univariates = self.check_univariate(rhs)
 
         # -2- Retain epsilon's that are in self.fields !!
-        for epsilon in univariates:
+        for epsilon in list(univariates):
             if epsilon not in epsilon_to_mfields:
                 univariates.pop(epsilon)
 
-- 
2.43.0


From feffc5c8ee731796c65b8aad3ba902fc9b5dafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 40/42] fix: the code of Max and Min of fields and numbers
 fails, since their arguments do not have the same shape

---
 src/sympkf/symbolic/tool.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 56eaa66..92f2003 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -3,9 +3,24 @@ import re
 import unicodedata
 from sympy.printing.numpy import NumPyPrinter
 
+class _NumPyPrinter(NumPyPrinter):
+
+    def _print_elementwise(self, function, args):
+        """ Maximum or minimum of numbers and arrays, that cannot be gathered in one array """
+        code = self._print(args[0])
+        for arg in args[1:]:
+            code = f'numpy.{function}({code}, {self._print(arg)})'
+        return code
+
+    def _print_Max(self, expr):
+        return self._print_elementwise('maximum', expr.args)
+
+    def _print_Min(self, expr):
+        return self._print_elementwise('minimum', expr.args)
+
 def numpy_code(expr):
     """ Convert an expression into code, where elementary functions are those of numpy (imported as np) """
-    return NumPyPrinter().doprint(expr).replace('numpy.', 'np.')
+    return _NumPyPrinter().doprint(expr).replace('numpy.', 'np.')
 
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
-- 
2.43.0


From 94355965573319c39dc7a5bceae6d28198854456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:18 +0000
Subject: [PATCH 41/42] fix: the functions of sympy outside of sympy.functions,
 as Mod, are taken for exogenous functions

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d12e288..4ae609a 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -248,7 +248,7 @@ class PDESystem(object):
         for equation in self.equations:
             # elementary functions (sin, exp, ..) are not fields
             functions.update(function for function in equation.atoms(Function)
-                             if not str(type(function).__module__).startswith('sympy.functions'))
+                             if not str(type(function).__module__).startswith('sympy.'))
 
         return functions
 
-- 
2.43.0


From 82c440840c767793557c65163587df089ed4fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:34 +0000
Subject: [PATCH 42/42] fix: coordinates that appear explicitly in an equation
 have no value in the finite-difference code

---
 src/sympkf/symbolic/model_builder.py    |  8 ++++++++
 src/sympkf/symbolic/model_builder_FD.py | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 33ac404..245db40 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -83,10 +83,14 @@ class MetaCoordinate(object):
         self.as_str = self._set_str()
         self.as_keyvar = self._set_as_keyvar()
         self.index = index
+        self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
         return clean_latex_name(self.as_symbolic)
 
+    def _set_as_code(self):
+        return self.as_keyvar
+
     def _set_str(self):
         return str(self.as_symbolic)
 
@@ -324,6 +328,10 @@ class ModelBuilder(object):
             for constant in self.constants:
                 rhs = rhs.subs(constant.as_symbolic, ScalarSymbol(constant.as_keyvar))
 
+            # -5- Replace all coordinates that explicitly appear e.g. sin(x)*u
+            for coordinate in self.spatial_coordinates:
+                rhs = rhs.subs(coordinate.as_symbolic, FunctionSymbol(coordinate.as_code))
+
             pseudo_algebraic_system.append(Eq(lhs,rhs))
 
         return pseudo_algebraic_system
diff --git a/src/sympkf/symbolic/model_builder_FD.py b/src/sympkf/symbolic/model_builder_FD.py
index cd0230e..a414a36 100644
--- a/src/sympkf/symbolic/model_builder_FD.py
+++ b/src/sympkf/symbolic/model_builder_FD.py
@@ -1,4 +1,4 @@
-from .model_builder import ModelBuilder
+from .model_builder import ModelBuilder, MetaCoordinate as AbstractMetaCoordinate
 from .model_builder_manifold import MetaDerivative as AbstractMetaDerivative
 
 class MetaDerivative(AbstractMetaDerivative):
@@ -25,6 +25,12 @@ class MetaDerivative(AbstractMetaDerivative):
         return code
 
 
+class MetaCoordinate(AbstractMetaCoordinate):
+
+    def _set_as_code(self):
+        return f'self.X[{self.index}]'
+
+
 class FDModelBuilder(ModelBuilder):
     """ Finite Difference Model Builder from symbolic system of partial differential equations
 
@@ -38,3 +44,5 @@ class FDModelBuilder(ModelBuilder):
     def _create_meta_derivative(self, derivative):
         return MetaDerivative(derivative)
 
+    def _create_meta_coordinate(self, coordinate, index):
+        return MetaCoordinate(coordinate, index)
-- 
2.43.0

