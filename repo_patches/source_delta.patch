From 6dde3586b8fbbdbbeaca51dfbe5ab0e66e8338a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 01/31] fix: use builtin int instead of the removed np.int
 alias

---
 skopt/space/transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index 6889295..f2dfb16 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -259,7 +259,7 @@ class Normalize(Transformer):
         if (self.high - self.low) == 0.:
             return X * 0.
         if self.is_int:
-            return (np.round(X).astype(np.int) - self.low) /\
+            return (np.round(X).astype(int) - self.low) /\
                    (self.high - self.low)
         else:
             return (X - self.low) / (self.high - self.low)
@@ -272,7 +272,7 @@ class Normalize(Transformer):
             raise ValueError("All values should be greater than 0.0")
         X_orig = X * (self.high - self.low) + self.low
         if self.is_int:
-            return np.round(X_orig).astype(np.int)
+            return np.round(X_orig).astype(int)
         return X_orig
 
 
-- 
2.43.0


From b033fa12788be3b8f7ff5558421b0aef70ff5749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 02/31] fix: Grid returns the requested number of points in one
 dimension

---
 skopt/sampler/grid.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 2e90d7a..381e282 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -114,27 +114,34 @@ class Grid(InitialPointGenerator):
         transformer = space.get_transformer()
         space.set_transformer("normalize")
 
+        if n_dim == 1:
+            # a one dimensional grid of order k has k points
+            root = half = n_samples
+        else:
+            root = np.sqrt(n_samples)
+            half = n_samples / 2.
+
         if self.border == "include":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = int(np.floor(root))
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = int(np.ceil(root))
             if order < 2:
                 order = 2
             h = _create_uniform_grid_include_border(n_dim, order)
         elif self.border == "exclude":
             if self.use_full_layout:
-                order = int(np.floor(np.sqrt(n_samples)))
+                order = int(np.floor(root))
             else:
-                order = int(np.ceil(np.sqrt(n_samples)))
+                order = int(np.ceil(root))
             if order < 1:
                 order = 1
             h = _create_uniform_grid_exclude_border(n_dim, order)
         elif self.border == "only":
             if self.use_full_layout:
-                order = int(np.floor(n_samples / 2.))
+                order = int(np.floor(half))
             else:
-                order = int(np.ceil(n_samples / 2.))
+                order = int(np.ceil(half))
             if order < 2:
                 order = 2
             h = _create_uniform_grid_exclude_border(n_dim, order)
-- 
2.43.0


From 998d54981dac0fd4f43e5b919c2248322c1c4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 03/31] fix: Grid(border='only') builds its layout from border
 points

---
 skopt/sampler/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/grid.py b/skopt/sampler/grid.py
index 381e282..e89618b 100644
--- a/skopt/sampler/grid.py
+++ b/skopt/sampler/grid.py
@@ -144,7 +144,7 @@ class Grid(InitialPointGenerator):
                 order = int(np.ceil(half))
             if order < 2:
                 order = 2
-            h = _create_uniform_grid_exclude_border(n_dim, order)
+            h = _create_uniform_grid_only_border(n_dim, order)
         else:
             raise ValueError("Wrong value for border")
         if np.size(h, 0) > n_samples:
-- 
2.43.0


From 04392fdeb17e1f0646bc2188bbcd2171996cd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 04/31] fix: Halton accepts a single negative skip bound

---
 skopt/sampler/halton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/sampler/halton.py b/skopt/sampler/halton.py
index 7a3eeb8..1afa0a4 100644
--- a/skopt/sampler/halton.py
+++ b/skopt/sampler/halton.py
@@ -90,7 +90,7 @@ class Halton(InitialPointGenerator):
         elif self.min_skip < 0 and self.max_skip < 0:
             skip = max(primes)
         elif self.min_skip < 0 or self.max_skip < 0:
-            skip = np.max(self.min_skip, self.max_skip)
+            skip = max(self.min_skip, self.max_skip)
         else:
             skip = rng.randint(self.min_skip, self.max_skip)
 
-- 
2.43.0


From f28450cdb061dc203c9c051fad938665132a106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 05/31] fix: forest defaults work with the squared_error naming
 of scikit-learn

---
 skopt/learning/forest.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/skopt/learning/forest.py b/skopt/learning/forest.py
index 096770c..c7cc6c6 100644
--- a/skopt/learning/forest.py
+++ b/skopt/learning/forest.py
@@ -61,13 +61,13 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
         are "mse" for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=1.0)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
@@ -194,9 +194,10 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion='squared_error',
+                 max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=True, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -239,9 +240,9 @@ class RandomForestRegressor(_sk_RandomForestRegressor):
         mean = super(RandomForestRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("squared_error", "mse"):
                 raise ValueError(
-                    "Expected impurity to be 'mse', got %s instead"
+                    "Expected impurity to be 'squared_error', got %s instead"
                     % self.criterion)
             std = _return_std(X, self.estimators_, mean, self.min_variance)
             return mean, std
@@ -257,13 +258,13 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     n_estimators : integer, optional (default=10)
         The number of trees in the forest.
 
-    criterion : string, optional (default="mse")
+    criterion : string, optional (default="squared_error")
         The function to measure the quality of a split. Supported criteria
         are "mse" for the mean squared error, which is equal to variance
         reduction as feature selection criterion, and "mae" for the mean
         absolute error.
 
-    max_features : int, float, string or None, optional (default="auto")
+    max_features : int, float, string or None, optional (default=1.0)
         The number of features to consider when looking for the best split:
 
         - If int, then consider `max_features` features at each split.
@@ -390,9 +391,10 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
     .. [1] L. Breiman, "Random Forests", Machine Learning, 45(1), 5-32, 2001.
 
     """
-    def __init__(self, n_estimators=10, criterion='mse', max_depth=None,
+    def __init__(self, n_estimators=10, criterion='squared_error',
+                 max_depth=None,
                  min_samples_split=2, min_samples_leaf=1,
-                 min_weight_fraction_leaf=0.0, max_features='auto',
+                 min_weight_fraction_leaf=0.0, max_features=1.0,
                  max_leaf_nodes=None, min_impurity_decrease=0.,
                  bootstrap=False, oob_score=False,
                  n_jobs=1, random_state=None, verbose=0, warm_start=False,
@@ -435,9 +437,9 @@ class ExtraTreesRegressor(_sk_ExtraTreesRegressor):
         mean = super(ExtraTreesRegressor, self).predict(X)
 
         if return_std:
-            if self.criterion != "mse":
+            if self.criterion not in ("squared_error", "mse"):
                 raise ValueError(
-                    "Expected impurity to be 'mse', got %s instead"
+                    "Expected impurity to be 'squared_error', got %s instead"
                     % self.criterion)
             std = _return_std(X, self.estimators_, mean, self.min_variance)
             return mean, std
-- 
2.43.0


From 219fb59b7f7ca25c47d81e76e6662fb7593c97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 06/31] fix: transformed_bounds match what transform produces

For log-uniform dimensions the logarithm base was ignored (Real) or no
logarithm was taken (Integer), and label encoded categories were declared
to lie in [0, 1].
---
 skopt/space/space.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index 329b0c1..f14c2cc 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -371,7 +371,8 @@ class Real(Dimension):
             if self.prior == "uniform":
                 return self.low, self.high
             else:
-                return np.log10(self.low), np.log10(self.high)
+                return (np.log10(self.low) / self.log_base,
+                        np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
@@ -554,8 +555,11 @@ class Integer(Dimension):
     def transformed_bounds(self):
         if self.transform_ == "normalize":
             return 0., 1.
-        else:
+        elif self.prior == "uniform":
             return (self.low, self.high)
+        else:
+            return (np.log10(self.low) / self.log_base,
+                    np.log10(self.high) / self.log_base)
 
     def distance(self, a, b):
         """Compute distance between point `a` and `b`.
@@ -721,7 +725,9 @@ class Categorical(Dimension):
 
     @property
     def transformed_bounds(self):
-        if self.transformed_size == 1:
+        if self.transform_ == "label":
+            return 0.0, len(self.categories) - 1.0
+        elif self.transformed_size == 1:
             return 0.0, 1.0
         else:
             return [(0.0, 1.0) for i in range(self.transformed_size)]
-- 
2.43.0


From 1044187a48c942445e4d72993c0bbea42c8a17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 07/31] fix: spaces with different numbers of dimensions are
 not equal

---
 skopt/space/space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index f14c2cc..e680a68 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -777,7 +777,9 @@ class Space(object):
         self.dimensions = [check_dimension(dim) for dim in dimensions]
 
     def __eq__(self, other):
-        return all([a == b for a, b in zip(self.dimensions, other.dimensions)])
+        return (len(self.dimensions) == len(other.dimensions) and
+                all([a == b for a, b in zip(self.dimensions,
+                                            other.dimensions)]))
 
     def __repr__(self):
         if len(self.dimensions) > 31:
-- 
2.43.0


From b0865b5e10066a451fcf19980d588bc02ed8090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 08/31] fix: integer dimensions differing in a bound or prior
 are not equal

---
 skopt/space/space.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index e680a68..f538a39 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -513,8 +513,9 @@ class Integer(Dimension):
 
     def __eq__(self, other):
         return (type(self) is type(other) and
-                np.allclose([self.low], [other.low]) and
-                np.allclose([self.high], [other.high]))
+                self.low == other.low and
+                self.high == other.high and
+                self.prior == other.prior)
 
     def __repr__(self):
         return "Integer(low={}, high={}, prior='{}', transform='{}')".format(
-- 
2.43.0


From 0def2b5cb2afc6255f94a3dcedef907a713b6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 09/31] fix: string encoding decodes booleans to the category
 they came from

---
 skopt/space/transformers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skopt/space/transformers.py b/skopt/space/transformers.py
index f2dfb16..e925187 100644
--- a/skopt/space/transformers.py
+++ b/skopt/space/transformers.py
@@ -49,6 +49,7 @@ class StringEncoder(Transformer):
         """
         if len(X) > 0:
             self.dtype = type(X[0])
+            self.inverse_mapping_ = {str(x): x for x in X}
 
     def transform(self, X):
         """Transform an array of categories to a string encoded representation.
@@ -79,7 +80,8 @@ class StringEncoder(Transformer):
         X : array-like, shape=(n_samples,)
             The original categories.
         """
-        return [self.dtype(x) for x in Xt]
+        mapping = getattr(self, "inverse_mapping_", {})
+        return [mapping[x] if x in mapping else self.dtype(x) for x in Xt]
 
 
 class LogN(Transformer):
-- 
2.43.0


From 06bac0c00df7d71552cea126b03faa3925d926b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 10/31] fix: tell refuses a number of values different from the
 number of points

---
 skopt/optimizer/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 240ffbf..061800f 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -621,18 +621,22 @@ class Optimizer(object):
             if is_2Dlistlike(x):
                 if not (np.ndim(y) == 2 and np.shape(y)[1] == 2):
                     raise TypeError("expected y to be a list of (func_val, t)")
+                if len(x) != len(y):
+                    raise ValueError("expected as many values as points")
             elif is_listlike(x):
                 if not (np.ndim(y) == 1 and len(y) == 2):
                     raise TypeError("expected y to be (func_val, t)")
 
         # if y isn't a scalar it means we have been handed a batch of points
         elif is_listlike(y) and is_2Dlistlike(x):
+            if len(x) != len(y):
+                raise ValueError("expected as many values as points")
             for y_value in y:
                 if not isinstance(y_value, Number):
                     raise ValueError("expected y to be a list of scalars")
 
         elif is_listlike(x):
-            if not isinstance(y, Number):
+            if is_2Dlistlike(x) or not isinstance(y, Number):
                 raise ValueError("`func` should return a scalar")
 
         else:
-- 
2.43.0


From 4aa48c0048a2c4214fe5b69d38e03a11081ba0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 11/31] fix: random search goes on after the generated initial
 points are used up

---
 skopt/optimizer/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 061800f..2fafbad 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -430,7 +430,7 @@ class Optimizer(object):
         if self._n_initial_points > 0 or self.base_estimator_ is None:
             # this will not make a copy of `self.rng` and hence keep advancing
             # our random state.
-            if self._initial_samples is None:
+            if self._initial_samples is None or self._n_initial_points <= 0:
                 return self.space.rvs(random_state=self.rng)[0]
             else:
                 # The samples are evaluated starting form initial_samples[0]
-- 
2.43.0


From 3b6334a3367600903c51b99f1f961ef345b7226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 12/31] fix: copying an optimizer does not generate its initial
 points again

---
 skopt/optimizer/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 2fafbad..00d5b09 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -317,13 +317,13 @@ class Optimizer(object):
             dimensions=self.space.dimensions,
             base_estimator=self.base_estimator_,
             n_initial_points=self.n_initial_points_,
-            initial_point_generator=self._initial_point_generator,
             acq_func=self.acq_func,
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
             random_state=random_state
         )
+        optimizer._initial_point_generator = self._initial_point_generator
         optimizer._initial_samples = self._initial_samples
         if hasattr(self, "gains_"):
             optimizer.gains_ = np.copy(self.gains_)
-- 
2.43.0


From 3ad33a4b094f3f4e5a2730dedea10147912da064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 13/31] fix: the copy of an optimizer keeps the limit on
 retained models

---
 skopt/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 00d5b09..07df7ac 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -321,6 +321,7 @@ class Optimizer(object):
             acq_optimizer=self.acq_optimizer,
             acq_func_kwargs=self.acq_func_kwargs,
             acq_optimizer_kwargs=self.acq_optimizer_kwargs,
+            model_queue_size=self.max_model_queue_size,
             random_state=random_state
         )
         optimizer._initial_point_generator = self._initial_point_generator
-- 
2.43.0


From c0cc73433d0e0368d5e327f5f2660551f4b7faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 14/31] fix: lies about the objective do not mix in computation
 times

---
 skopt/optimizer/optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 07df7ac..464864f 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -398,15 +398,16 @@ class Optimizer(object):
 
             ti_available = "ps" in self.acq_func and len(opt.yi) > 0
             ti = [t for (_, t) in opt.yi] if ti_available else None
+            yi = [y for (y, _) in opt.yi] if ti_available else opt.yi
 
             if strategy == "cl_min":
-                y_lie = np.min(opt.yi) if opt.yi else 0.0  # CL-min lie
+                y_lie = np.min(yi) if yi else 0.0  # CL-min lie
                 t_lie = np.min(ti) if ti is not None else log(sys.float_info.max)
             elif strategy == "cl_mean":
-                y_lie = np.mean(opt.yi) if opt.yi else 0.0  # CL-mean lie
+                y_lie = np.mean(yi) if yi else 0.0  # CL-mean lie
                 t_lie = np.mean(ti) if ti is not None else log(sys.float_info.max)
             else:
-                y_lie = np.max(opt.yi) if opt.yi else 0.0  # CL-max lie
+                y_lie = np.max(yi) if yi else 0.0  # CL-max lie
                 t_lie = np.max(ti) if ti is not None else log(sys.float_info.max)
 
             # Lie to the optimizer.
-- 
2.43.0


From b6861f81a2f63b7421b0f3b15b9bb832507ac983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 15/31] fix: the incumbent of per second acquisition functions
 is an objective value

---
 skopt/optimizer/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/optimizer/optimizer.py b/skopt/optimizer/optimizer.py
index 464864f..3a9fdfb 100644
--- a/skopt/optimizer/optimizer.py
+++ b/skopt/optimizer/optimizer.py
@@ -531,6 +531,8 @@ class Optimizer(object):
         if (fit and self._n_initial_points <= 0 and
                 self.base_estimator_ is not None):
             transformed_bounds = np.array(self.space.transformed_bounds)
+            y_opt = (np.min([y for (y, _) in self.yi])
+                     if "ps" in self.acq_func else np.min(self.yi))
             est = clone(self.base_estimator_)
 
             with warnings.catch_warnings():
@@ -557,7 +559,7 @@ class Optimizer(object):
             self.next_xs_ = []
             for cand_acq_func in self.cand_acq_funcs_:
                 values = _gaussian_acquisition(
-                    X=X, model=est, y_opt=np.min(self.yi),
+                    X=X, model=est, y_opt=y_opt,
                     acq_func=cand_acq_func,
                     acq_func_kwargs=self.acq_func_kwargs)
                 # Find the minimum of the acquisition function by randomly
@@ -576,7 +578,7 @@ class Optimizer(object):
                         results = Parallel(n_jobs=self.n_jobs)(
                             delayed(fmin_l_bfgs_b)(
                                 gaussian_acquisition_1D, x,
-                                args=(est, np.min(self.yi), cand_acq_func,
+                                args=(est, y_opt, cand_acq_func,
                                       self.acq_func_kwargs),
                                 bounds=self.space.transformed_bounds,
                                 approx_grad=False,
-- 
2.43.0


From 934b22480ebb8dec2ead12e35d897f905578d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 16/31] fix: dummy_minimize counts a flat x0 as one initial
 point

---
 skopt/optimizer/dummy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/dummy.py b/skopt/optimizer/dummy.py
index c372c24..98dbf24 100644
--- a/skopt/optimizer/dummy.py
+++ b/skopt/optimizer/dummy.py
@@ -105,7 +105,8 @@ def dummy_minimize(func, dimensions, n_calls=100,
     # all our calls want random suggestions, except if we need to evaluate
     # some initial points
     if x0 is not None and y0 is None:
-        n_initial_points = n_calls - len(x0)
+        single_point = len(x0) > 0 and not isinstance(x0[0], (list, tuple))
+        n_initial_points = n_calls - (1 if single_point else len(x0))
     else:
         n_initial_points = n_calls
 
-- 
2.43.0


From beca6e188bfe8c3767b39fb5a861075fb70af9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 17/31] fix: total_iterations of a single search space is its
 number of iterations

---
 skopt/searchcv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 391b14c..99e1182 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -423,7 +423,11 @@ class BayesSearchCV(BaseSearchCV):
         """
         total_iter = 0
 
-        for elem in self.search_spaces:
+        search_spaces = self.search_spaces
+        if isinstance(search_spaces, dict):
+            search_spaces = [search_spaces]
+
+        for elem in search_spaces:
 
             if isinstance(elem, tuple):
                 space, n_iter = elem
-- 
2.43.0


From 1cda00580e497f78d0fbce45ec16afd72b86faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 18/31] fix: a subspace without iterations does not report the
 result of another

---
 skopt/searchcv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skopt/searchcv.py b/skopt/searchcv.py
index 99e1182..f904af0 100644
--- a/skopt/searchcv.py
+++ b/skopt/searchcv.py
@@ -508,6 +508,7 @@ class BayesSearchCV(BaseSearchCV):
             else:
                 n_iter = self.n_iter
 
+            optim_result = None
             # do the optimization for particular search space
             while n_iter > 0:
                 # when n_iter < n_points points left for evaluation
-- 
2.43.0


From 769b057dee15a6da83bc2d3e8bf22bb40c48f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 19/31] fix: refitting a Gaussian process does not pile up
 noise kernels

---
 skopt/learning/gaussian_process/gpr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 34902d7..0292213 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -186,6 +186,7 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
         if self.kernel is None:
             self.kernel = ConstantKernel(1.0, constant_value_bounds="fixed") \
                           * RBF(1.0, length_scale_bounds="fixed")
+        kernel = self.kernel
         if self.noise == "gaussian":
             self.kernel = self.kernel + WhiteKernel()
         elif self.noise:
@@ -193,6 +194,8 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                 noise_level=self.noise, noise_level_bounds="fixed"
             )
         super(GaussianProcessRegressor, self).fit(X, y)
+        # the noise term belongs to this fit only, not to the parameters
+        self.kernel = kernel
 
         self.noise_ = None
 
-- 
2.43.0


From 915a978c6ff29f9e616a25241eb082faa4bb6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 20/31] fix: gradient of the predictive deviation for
 non-stationary kernels

---
 skopt/learning/gaussian_process/gpr.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index 0292213..c770e94 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -353,8 +353,13 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
                 if return_std_grad:
                     grad_std = np.zeros(X.shape[1])
                     if not np.allclose(y_std, grad_std):
-                        grad_std = -np.dot(K_trans,
-                                           np.dot(K_inv, grad))[0] / y_std
+                        # the prior variance k(x, x) changes with x as well,
+                        # unless the kernel is stationary
+                        grad_prior = 0.
+                        if not self.kernel_.is_stationary():
+                            grad_prior = self.kernel_.gradient_x(X[0], X)[0]
+                        grad_std = (grad_prior - np.dot(
+                            K_trans, np.dot(K_inv, grad))[0]) / y_std
                         # undo normalisation
                         grad_std = grad_std * self.y_train_std_**2
                     return y_mean, y_std, grad_mean, grad_std
-- 
2.43.0


From 353d330bc1f9320e2b0fcdcf8c5c959f17903a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 21/31] fix: per second acquisition of tree ensembles does not
 ask for gradients

---
 skopt/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skopt/utils.py b/skopt/utils.py
index a27e62c..8c9b851 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -6,6 +6,7 @@ from scipy.optimize import OptimizeResult
 from scipy.optimize import minimize as sp_minimize
 from sklearn.base import is_regressor
 from sklearn.ensemble import GradientBoostingRegressor
+from sklearn.multioutput import MultiOutputRegressor
 from joblib import dump as dump_
 from joblib import load as load_
 from collections import OrderedDict
@@ -319,6 +320,10 @@ def has_gradients(estimator):
     if isinstance(estimator, tree_estimators):
         return False
 
+    # one model per output: what counts is the model of each output
+    if isinstance(estimator, MultiOutputRegressor):
+        return has_gradients(estimator.estimator)
+
     categorical_gp = False
     if hasattr(estimator, "kernel"):
         params = estimator.get_params()
-- 
2.43.0


From f748b30a7a761f91d3817717044aa47d093b3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 22/31] fix: refuse a budget smaller than the number of
 starting points

---
 skopt/optimizer/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index 0ded90b..ea60d49 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -241,7 +241,8 @@ def base_minimize(func, dimensions, base_estimator,
         y0 = list(y0)
     elif isinstance(y0, numbers.Number):
         y0 = [y0]
-    required_calls = n_initial_points + (len(x0) if not y0 else 0)
+    required_calls = (max(n_initial_points, 0) +
+                      (len(x0) if not y0 else 0))
     if n_calls < required_calls:
         raise ValueError(
             "Expected `n_calls` >= %d, got %d" % (required_calls, n_calls))
-- 
2.43.0


From b666767a1bf1627c02cdcb172f54b9ecc1d7e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 23/31] fix: leave the caller's list of callbacks alone when
 verbose

---
 skopt/optimizer/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skopt/optimizer/base.py b/skopt/optimizer/base.py
index ea60d49..8aef576 100644
--- a/skopt/optimizer/base.py
+++ b/skopt/optimizer/base.py
@@ -267,7 +267,7 @@ def base_minimize(func, dimensions, base_estimator,
         raise RuntimeError("Optimization space (%s) and initial points in x0 "
                            "use inconsistent dimensions." % optimizer.space)
     # check callback
-    callbacks = check_callback(callback)
+    callbacks = list(check_callback(callback))
     if verbose:
         callbacks.append(VerboseCallback(
             n_init=len(x0) if not y0 else 0,
-- 
2.43.0


From 21adf0365885c92d47ab1b03e168246f33dbd1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 24/31] fix: gradient of a product kernel hands each factor the
 point it was given

---
 skopt/learning/gaussian_process/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skopt/learning/gaussian_process/kernels.py b/skopt/learning/gaussian_process/kernels.py
index c0d55a2..43a2b03 100644
--- a/skopt/learning/gaussian_process/kernels.py
+++ b/skopt/learning/gaussian_process/kernels.py
@@ -295,14 +295,14 @@ class Product(Kernel, sk_Product):
 
     def gradient_x(self, x, X_train):
         x = np.asarray(x)
-        x = np.expand_dims(x, axis=0)
+        x_2d = np.expand_dims(x, axis=0)
         X_train = np.asarray(X_train)
         f_ggrad = (
-            np.expand_dims(self.k1(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k1(x_2d, X_train)[0], axis=1) *
             self.k2.gradient_x(x, X_train)
         )
         fgrad_g = (
-            np.expand_dims(self.k2(x, X_train)[0], axis=1) *
+            np.expand_dims(self.k2(x_2d, X_train)[0], axis=1) *
             self.k1.gradient_x(x, X_train)
         )
         return f_ggrad + fgrad_g
-- 
2.43.0


From 1fb916085fcc31d40d11509973eb69171ba8ad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:11 +0000
Subject: [PATCH 25/31] fix: predictive deviation leaves out the added noise
 when the kernel has a white term of its own

---
 skopt/learning/gaussian_process/gpr.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/skopt/learning/gaussian_process/gpr.py b/skopt/learning/gaussian_process/gpr.py
index c770e94..d30cea3 100644
--- a/skopt/learning/gaussian_process/gpr.py
+++ b/skopt/learning/gaussian_process/gpr.py
@@ -208,19 +208,10 @@ class GaussianProcessRegressor(sk_GaussianProcessRegressor):
             # This has been described in Eq 2.24 of
             # http://www.gaussianprocess.org/gpml/chapters/RW2.pdf
             # Hence this hack
-            if isinstance(self.kernel_, WhiteKernel):
-                self.kernel_.set_params(noise_level=0.0)
-
-            else:
-                white_present, white_param = _param_for_white_kernel_in_Sum(
-                    self.kernel_)
-
-                # This should always be true. Just in case.
-                if white_present:
-                    noise_kernel = self.kernel_.get_params()[white_param]
-                    self.noise_ = noise_kernel.noise_level
-                    self.kernel_.set_params(
-                        **{white_param: WhiteKernel(noise_level=0.0)})
+            # The kernel added above is the second term of the sum: a
+            # WhiteKernel within the given kernel is part of the model.
+            self.noise_ = self.kernel_.k2.noise_level
+            self.kernel_.set_params(k2=WhiteKernel(noise_level=0.0))
 
         # Precompute arrays needed at prediction
         L_inv = solve_triangular(self.L_.T, np.eye(self.L_.shape[0]))
-- 
2.43.0


From 2666eb6eb069b1b6642d517806a690bba378fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 26/31] fix: a (low, high, prior) tuple with a fractional bound
 describes a real dimension

---
 skopt/space/space.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index f538a39..b2d6006 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -40,6 +40,13 @@ def _transpose_list_array(x):
     return rows
 
 
+def _all_numbers(values, kind):
+    """Are all values numbers of the given kind (booleans are not)?
+    """
+    return all([isinstance(v, kind) and not isinstance(v, bool)
+                for v in values])
+
+
 def check_dimension(dimension, transform=None):
     """Turn a provided dimension description into a dimension object.
 
@@ -111,22 +118,23 @@ def check_dimension(dimension, transform=None):
                              " supported types.".format(dimension))
 
     if len(dimension) == 3:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
+        if (_all_numbers(dimension[:2], numbers.Integral) and
                 dimension[2] in ["uniform", "log-uniform"]):
             return Integer(*dimension, transform=transform)
-        elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
+        elif (_all_numbers(dimension[:2], numbers.Real) and
               dimension[2] in ["uniform", "log-uniform"]):
             return Real(*dimension, transform=transform)
         else:
             return Categorical(dimension, transform=transform)
 
     if len(dimension) == 4:
-        if (any([isinstance(dim, int) for dim in dimension[:2]]) and
-                dimension[2] == "log-uniform" and isinstance(dimension[3],
-                                                             int)):
+        if (_all_numbers(dimension[:2], numbers.Integral) and
+                dimension[2] == "log-uniform" and
+                _all_numbers(dimension[3:], numbers.Integral)):
             return Integer(*dimension, transform=transform)
-        elif (any([isinstance(dim, (float, int)) for dim in dimension[:2]]) and
-              dimension[2] == "log-uniform" and isinstance(dimension[3], int)):
+        elif (_all_numbers(dimension[:2], numbers.Real) and
+              dimension[2] == "log-uniform" and
+              _all_numbers(dimension[3:], numbers.Integral)):
             return Real(*dimension, transform=transform)
 
     if len(dimension) > 3:
-- 
2.43.0


From 59657e42635fefdcff9f6288862d4ef93c367701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 27/31] fix: a log-uniform dimension needs a positive lower
 bound

---
 skopt/space/space.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index b2d6006..e3ef935 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -265,6 +265,9 @@ class Real(Dimension):
         if prior not in ["uniform", "log-uniform"]:
             raise ValueError("prior should be 'uniform' or 'log-uniform'"
                              " got {}".format(prior))
+        if prior == "log-uniform" and low <= 0:
+            raise ValueError("the lower bound of a log-uniform dimension has"
+                             " to be positive, got {}".format(low))
         self.low = low
         self.high = high
         self.prior = prior
@@ -451,6 +454,9 @@ class Integer(Dimension):
         if prior not in ["uniform", "log-uniform"]:
             raise ValueError("prior should be 'uniform' or 'log-uniform'"
                              " got {}".format(prior))
+        if prior == "log-uniform" and low <= 0:
+            raise ValueError("the lower bound of a log-uniform dimension has"
+                             " to be positive, got {}".format(low))
         self.low = low
         self.high = high
         self.prior = prior
-- 
2.43.0


From 04df54cc0e3aa811e50065f0e5c73115af94d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 28/31] fix: distances do not wrap around in narrow number
 types

---
 skopt/space/space.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skopt/space/space.py b/skopt/space/space.py
index e3ef935..4ad31f0 100644
--- a/skopt/space/space.py
+++ b/skopt/space/space.py
@@ -399,7 +399,8 @@ class Real(Dimension):
         if not (a in self and b in self):
             raise RuntimeError("Can only compute distance for values within "
                                "the space, not %s and %s." % (a, b))
-        return abs(a - b)
+        # in a narrow type the difference can overflow
+        return abs(float(a) - float(b))
 
 
 class Integer(Dimension):
@@ -590,7 +591,8 @@ class Integer(Dimension):
         if not (a in self and b in self):
             raise RuntimeError("Can only compute distance for values within "
                                "the space, not %s and %s." % (a, b))
-        return abs(a - b)
+        # in a narrow or unsigned type the difference can wrap around
+        return abs(int(a) - int(b))
 
 
 class Categorical(Dimension):
-- 
2.43.0


From b8a0844ae2f8117715b93799d9d8c3046be3f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 29/31] fix: dump without the objective does not copy the
 objective

---
 skopt/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index 8c9b851..fad844d 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -1,4 +1,4 @@
-from copy import deepcopy
+from copy import copy
 from functools import wraps
 from sklearn.utils import check_random_state
 import numpy as np
@@ -123,11 +123,9 @@ def dump(res, filename, store_objective=True, **kwargs):
         unserializable (i.e. if an exception is raised when trying to serialize
         the optimization result).
 
-        Notice that if `store_objective` is set to `False`, a deep copy of the
-        optimization result is created, potentially leading to performance
-        problems if `res` is very large. If the objective function is not
-        critical, one can delete it before calling `skopt.dump()` and thus
-        avoid deep copying of `res`.
+        Notice that if `store_objective` is set to `False`, the objective is
+        left out of a shallow copy of the optimization result; `res` itself
+        keeps it.
 
     **kwargs : other keyword arguments
         All other keyword arguments will be passed to `joblib.dump`.
@@ -137,9 +135,11 @@ def dump(res, filename, store_objective=True, **kwargs):
 
     elif 'func' in res.specs['args']:
         # If the user does not want to store the objective and it is indeed
-        # present in the provided object, then create a deep copy of it and
-        # remove the objective function before dumping it with joblib.dump.
-        res_without_func = deepcopy(res)
+        # present in the provided object, then dump a copy that lacks it. The
+        # objective itself is not copied: it may well be impossible to copy.
+        res_without_func = copy(res)
+        res_without_func.specs = dict(res.specs)
+        res_without_func.specs['args'] = dict(res.specs['args'])
         del res_without_func.specs['args']['func']
         dump_(res_without_func, filename, **kwargs)
 
-- 
2.43.0


From 758f1e3af653318a1fb4d8791fd11587ad306c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 30/31] fix: expected_minimum returns whole numbers for integer
 dimensions

---
 skopt/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skopt/utils.py b/skopt/utils.py
index fad844d..265760b 100644
--- a/skopt/utils.py
+++ b/skopt/utils.py
@@ -243,15 +243,20 @@ def expected_minimum(res, n_random_starts=20, random_state=None):
     if n_random_starts > 0:
         xs.extend(res.space.rvs(n_random_starts, random_state=random_state))
 
-    best_x = None
-    best_fun = np.inf
+    best_x = res.x
+    best_fun = func(np.array(res.x))
 
     for x0 in xs:
         r = sp_minimize(func, x0=x0, bounds=res.space.bounds)
 
-        if r.fun < best_fun:
-            best_x = r.x
-            best_fun = r.fun
+        # only whole numbers are values of an integer dimension
+        x = [int(np.round(v)) if isinstance(dim, Integer) else v
+             for dim, v in zip(res.space.dimensions, r.x)]
+        fun = func(np.array(x))
+
+        if fun < best_fun:
+            best_x = x
+            best_fun = fun
 
     return [v for v in best_x], best_fun
 
-- 
2.43.0


From f996497c013e5df229bcabf39b74e13d3f2c0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 31/31] fix: partial dependence on integer samples does not
 truncate the plotted values

---
 skopt/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skopt/plots.py b/skopt/plots.py
index 5a14b01..ae8739c 100644
--- a/skopt/plots.py
+++ b/skopt/plots.py
@@ -956,7 +956,8 @@ def partial_dependence_1D(space, model, i, samples,
         the index'th dimension of the search-space to the value x,
         and then averaging over all samples.
         """
-        rvs_ = np.array(samples)  # copy
+        # copy, of a type that holds the values put in
+        rvs_ = np.array(samples, dtype=np.result_type(np.asarray(samples), x))
         # We replace the values in the dimension that we want to keep
         # fixed
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = x
@@ -1039,7 +1040,9 @@ def partial_dependence_2D(space, model, i, j, samples,
         and setting the index2'th dimension to the value y,
         and then averaging over all samples.
         """
-        rvs_ = np.array(samples)  # copy
+        # copy, of a type that holds the values put in
+        rvs_ = np.array(samples,
+                        dtype=np.result_type(np.asarray(samples), x, y))
         rvs_[:, dim_locs[j]:dim_locs[j + 1]] = x
         rvs_[:, dim_locs[i]:dim_locs[i + 1]] = y
         return np.mean(model.predict(rvs_))
-- 
2.43.0

