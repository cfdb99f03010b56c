From 25adf9afc6208f5b1f67488adad35439bd85886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 01/51] fix: do not re-seed the global RNG from OS entropy (or
 the space's seed) on every search-space slice

---
 bayes_optim/search_space/search_space.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index a01926f..7039040 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -128,10 +128,10 @@ class SearchSpace:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
+        if seed is not None:
             seed = int(seed)
+            np.random.seed(seed)
         self._random_seed = seed
-        np.random.seed(self._random_seed)
 
     @staticmethod
     def _ready_args(bounds, var_name, **kwargs):
@@ -260,7 +260,9 @@ class SearchSpace:
         if isinstance(data, Variable):
             out = data
         elif isinstance(data, list):
-            out = SearchSpace(data, self.random_seed)
+            # NOTE: slicing should not re-seed the global random number generator
+            out = SearchSpace(data)
+            out._random_seed = self.random_seed
             # backwards compatibility
             if hasattr(self, "structure"):
                 getattr(out, "_set_structure")(self.structure)
-- 
2.43.0


From b17dd84f1ae26cb128d1c6a38945322669c7d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 02/51] fix: honour random_seed=0 and keep random_seed readable
 when unset

---
 bayes_optim/_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 94a2098..8f7293a 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -149,10 +149,9 @@ class BaseOptimizer:
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def search_space(self):
-- 
2.43.0


From 7842623db08fcb6ef6f42826b5a0c10a6198e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 03/51] fix: compare against ftarget in the right direction
 when maximizing

---
 bayes_optim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 8f7293a..91036a7 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -175,4 +175,4 @@ class BaseOptimizer:
 
     def _compare(self, f1: float, f2: float) -> bool:
         """Test if objecctive value f1 is better than f2"""
-        return f1 < f2 if self.minimize else f2 > f1
+        return f1 < f2 if self.minimize else f1 > f2
-- 
2.43.0


From 7015f3d1e9c92bf78ade09fc37519c36b90123cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:49 +0000
Subject: [PATCH 04/51] fix: align told dictionaries by key instead of by
 insertion order

---
 bayes_optim/base.py     |  4 +++-
 bayes_optim/solution.py | 10 ++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index ce22003..15eb0df 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -187,7 +187,9 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(x, index=index, n_obj=self.n_obj)
+            self._to_geno = lambda x, index=None: Solution.from_dict(
+                x, index=index, n_obj=self.n_obj, var_name=self.var_names
+            )
 
     def _set_internal_optimization(self, kwargs):
         if kwargs is None:
diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index 774d2f6..bd6c701 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -273,11 +273,13 @@ class Solution(np.ndarray):
         **kwargs,
     ) -> Solution:
         if isinstance(x, dict):
-            var_name = list(x.keys())
-            res = cls.__new__(cls, x=list(x.values()), var_name=var_name, index=index, **kwargs)
+            var_name = list(x.keys()) if var_name is None else list(var_name)
+            _x = [x[k] for k in var_name]
+            res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         elif isinstance(x, list):
-            var_name = list(x[0].keys())
-            _x = [list(_.values()) for _ in x]
+            # NOTE: the order of keys might differ among the dictionaries
+            var_name = list(x[0].keys()) if var_name is None else list(var_name)
+            _x = [[_[k] for k in var_name] for _ in x]
             res = cls.__new__(cls, x=_x, var_name=var_name, index=index, **kwargs)
         return res
 
-- 
2.43.0


From 7ae0c998f8bedf86eecb2c12321499b6e0c6a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:02 +0000
Subject: [PATCH 05/51] fix: count one evaluation (not two) per told point with
 eval_type='list'

---
 bayes_optim/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 15eb0df..cb62608 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -177,7 +177,7 @@ class BaseBO(BaseOptimizer):
     def _set_aux_vars(self):
         if self._eval_type == "list":
             self._to_pheno = lambda x: copy(x.tolist())
-            self._to_geno = lambda x, index=None, n_eval=1, fitness=None: Solution(
+            self._to_geno = lambda x, index=None, n_eval=0, fitness=None: Solution(
                 x,
                 var_name=self.var_names,
                 n_obj=self.n_obj,
-- 
2.43.0


From 919900a8a6b0770f237c5a7ab59e13b61e47cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:02 +0000
Subject: [PATCH 06/51] fix: drop failed (nan/inf) evaluations in the
 multi-objective case instead of crashing

---
 bayes_optim/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index cb62608..d4b66af 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -414,6 +414,8 @@ class BaseBO(BaseOptimizer):
 
     def post_eval_check(self, X: Solution) -> Solution:
         _ = np.isnan(X.fitness) | np.isinf(X.fitness)
+        if _.ndim == 2:  # multi-objective: one failed objective invalidates the solution
+            _ = np.any(_, axis=1)
         if np.any(_):
             self.logger.warning(
                 f"{sum(_)} candidate solutions are removed "
-- 
2.43.0


From aa62d6743bcad11adb1b8e08a1721469208de4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 07/51] fix: record a report entirely (history, counter, data
 file) before training; survive an all-failed batch

---
 bayes_optim/_base.py |  3 ++-
 bayes_optim/base.py  | 19 +++++++++++++------
 bayes_optim/mobo.py  | 17 +++++++++++++----
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 91036a7..5a05451 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -133,7 +133,8 @@ class BaseOptimizer:
     def run(self) -> Tuple[List[Solution], dict]:
         while not self.check_stop():
             self.step()
-        return self._to_pheno(self.xopt), self.xopt.fitness, self.stop_dict
+        xopt = self.recommend()
+        return self._to_pheno(xopt), xopt.fitness, self.stop_dict
 
     @property
     def xopt(self) -> Solution:
diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d4b66af..d469868 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -333,18 +333,25 @@ class BaseBO(BaseOptimizer):
         for i, _ in enumerate(X):
             X[i].fitness = func_vals[i]
             X[i].n_eval += 1
-            if not warm_start:
-                self.eval_count += 1
-
             self.logger.info(f"#{i + 1} - fitness: {func_vals[i]}, solution: {self._to_pheno(X[i])}")
 
+        n_eval = len(X)
         X = self.post_eval_check(X)
-        self.data = self.data + X if hasattr(self, "data") else X
-        self.update_model()
+        # NOTE: record the evaluations before anything that might fail, e.g., training the model
+        if len(X) > 0:
+            self.data = self.data + X if hasattr(self, "data") else X
+        if not warm_start:
+            self.eval_count += n_eval
 
-        if self.data_file is not None:
+        if self.data_file is not None and len(X) > 0:
             X.to_csv(self.data_file, header=False, append=True)
 
+        if not hasattr(self, "data"):  # all the evaluations have failed so far
+            if not warm_start:
+                self.iter_count += 1
+            return
+        self.update_model()
+
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
         # show the current penalty value if cheap constraints are present
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index 2588af4..cd6e846 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -120,15 +120,24 @@ class BaseMOBO(BO):
             X[i].n_eval += 1
             for k in range(self.n_obj):
                 X[i].fitness[k] = func_vals[i][k]
-                if not warm_start:
-                    self.eval_count += 1
             _fitness = ", ".join([f"f{_ + 1}: {func_vals[i][_]}" for _ in range(self.n_obj)])
             self.logger.info(f"#{i + 1} - {_fitness}, solution: {self._to_pheno(X[i])}")
 
+        n_eval = len(X) * self.n_obj
         X = self.post_eval_check(X)
-        if self.data_file is not None:
+        # NOTE: record the evaluations before anything that might fail, e.g., training the model
+        if len(X) > 0:
+            self.data = self.data + X if hasattr(self, "data") else X
+        if not warm_start:
+            self.eval_count += n_eval
+
+        if self.data_file is not None and len(X) > 0:
             X.to_csv(self.data_file, header=False, append=True)
-        self.data = self.data + X if hasattr(self, "data") else X
+
+        if not hasattr(self, "data"):  # all the evaluations have failed so far
+            if not warm_start:
+                self.iter_count += 1
+            return
 
         # update the surrogate models
         self.update_model()
-- 
2.43.0


From 66e0f6976740ace937d68911f436b3871e158dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:03 +0000
Subject: [PATCH 08/51] fix: accept warm data as Solution, dictionaries, and
 with non-string categorical levels

---
 bayes_optim/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index d469868..2bf5422 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -162,15 +162,15 @@ class BaseBO(BaseOptimizer):
             assert len(X) == len(y)
 
             if isinstance(X, Solution):
-                assert X.var_name == self.var_names
+                assert list(X.var_name) == list(self.var_names)
             else:
                 X = self._to_geno(X)
 
             X.fitness = y
             X.n_eval = 1
             assert all([isinstance(_, float) for _ in X[:, self.r_index].ravel()])
-            assert all([isinstance(_, int) for _ in X[:, self.i_index].ravel()])
-            assert all([isinstance(_, str) for _ in X[:, self.d_index].ravel()])
+            assert all([isinstance(_, (int, np.integer)) for _ in X[:, self.i_index].ravel()])
+            assert all([_ in self.search_space[int(i)] for i in self.d_index for _ in X[:, i].ravel()])
             self._warm_data = X
             self.tell(X, y, warm_start=True)
 
@@ -187,8 +187,10 @@ class BaseBO(BaseOptimizer):
             )
         elif self._eval_type == "dict":
             self._to_pheno = lambda x: x.to_dict().copy()
-            self._to_geno = lambda x, index=None: Solution.from_dict(
-                x, index=index, n_obj=self.n_obj, var_name=self.var_names
+            self._to_geno = lambda x, index=None: (
+                Solution(x, var_name=self.var_names, n_obj=self.n_obj, index=index)
+                if isinstance(x, Solution)
+                else Solution.from_dict(x, index=index, n_obj=self.n_obj, var_name=self.var_names)
             )
 
     def _set_internal_optimization(self, kwargs):
-- 
2.43.0


From 283f1fc386d16a01df53e97f3913880db5642bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 09/51] fix: save checkpoints atomically and leave the
 optimizer intact when saving fails

---
 bayes_optim/base.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 2bf5422..93c3812 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -515,21 +515,30 @@ class BaseBO(BaseOptimizer):
         if dirname != "":
             os.makedirs(dirname, exist_ok=True)
 
-        with open(filename, "wb") as f:
+        # NOTE: write to a temporary file first and rename it afterwards, such that a failed
+        # or interrupted saving never destroys a previously saved file
+        tmp_file = f"{filename}.{os.getpid()}.tmp"
+        _state = {k: self.__dict__[k] for k in ("data", "logger") if k in self.__dict__}
+        try:
             # NOTE: we need to dump `self.data` first. Otherwise, some
             # attributes of it will be lost
             if hasattr(self, "data"):
                 self.data = dill.dumps(self.data)
-
-            logger = self.logger
             self.logger = dump_logger(self.logger)
-
-            dill.dump(self, f)
-
-            self.logger = logger
-            if hasattr(self, "data"):
-                self.data = dill.loads(self.data)
-            self.logger.info(f"save to file {filename}...")
+            with open(tmp_file, "wb") as f:
+                dill.dump(self, f)
+                f.flush()
+                os.fsync(f.fileno())
+            os.replace(tmp_file, filename)
+        except BaseException:
+            try:
+                os.remove(tmp_file)
+            except OSError:
+                pass
+            raise
+        finally:
+            self.__dict__.update(_state)
+        self.logger.info(f"save to file {filename}...")
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From 48f7fe8569db439678bff1beb54729f64672b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:58 +0000
Subject: [PATCH 10/51] fix: do not share (and mutate) the default acquisition
 parameters among ParallelBO instances

---
 bayes_optim/bayes_opt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index b760b5d..eadaeae 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -67,9 +67,13 @@ class ParallelBO(BO):
         self,
         n_point: int = 3,
         acquisition_fun: str = "MGFI",
-        acquisition_par: Dict = {"t": 2},
+        acquisition_par: Dict = None,
         **kwargs,
     ):
+        # NOTE: always make a copy since the parameters are adapted per instance
+        if acquisition_par is None:
+            acquisition_par = {"t": 2} if acquisition_fun == "MGFI" else {}
+        acquisition_par = dict(acquisition_par)
         super().__init__(
             n_point=n_point,
             acquisition_fun=acquisition_fun,
-- 
2.43.0


From 518c46472dd43834b185a4001786050e26619af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 11/51] fix: allow epsilon=0, which makes the `PI` acquisition
 function usable

---
 bayes_optim/acquisition/acquisition_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 9a2ae06..564863b 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -202,7 +202,7 @@ class EpsilonPI(ImprovementBased):
 
     @epsilon.setter
     def epsilon(self, eps):
-        assert eps > 0
+        assert eps >= 0  # NOTE: zero is used by `PI`
         self._epsilon = eps
 
     def __call__(self, X, return_dx=False):
-- 
2.43.0


From bb20d701ba5df2b1660b996d738fb7769dd99c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 12/51] fix: return a list of candidates from
 NoisyBO.pre_eval_check, as the callers concatenate lists

---
 bayes_optim/bayes_opt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index eadaeae..0fdc8d2 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -182,9 +182,8 @@ class NoisyBO(ParallelBO):
     """Bayesian Optimization for Noisy Scenarios"""
 
     def pre_eval_check(self, X: List):
-        if not isinstance(X, Solution):
-            X = Solution(X, var_name=self.var_names)
-        return X
+        # NOTE: duplicated solutions are allowed under noisy scenarios
+        return X.tolist() if isinstance(X, Solution) else X
 
     def _create_acquisition(self, fun: Callable = None, par: Dict = None, **kwargv):
         par = {} if par is None else par
-- 
2.43.0


From 0642db5a6d0c447b6dfdaee36d07efafe3f387f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 13/51] fix: mark the random forest as fitted only after the
 fitting succeeded

---
 bayes_optim/surrogate/random_forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/surrogate/random_forest.py b/bayes_optim/surrogate/random_forest.py
index 22a643c..5f27484 100644
--- a/bayes_optim/surrogate/random_forest.py
+++ b/bayes_optim/surrogate/random_forest.py
@@ -113,8 +113,9 @@ class RandomForest(RandomForestRegressor):
             y = y.ravel()
         self.X = self._check_X(X)
         self.y = y
+        super().fit(self.X, self.y)
         self.is_fitted = True
-        return super().fit(self.X, self.y)
+        return self
 
     def predict(self, X: Union[Solution, List, np.ndarray], eval_MSE=False) -> np.ndarray:
         """Predict regression target for `X`.
-- 
2.43.0


From 8960d82298a467c565c3e113ac8299c3e9932298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 14/51] fix: honour the numerical precision of real variables
 with L-BFGS-B and under constraints

---
 bayes_optim/acquisition/optim/__init__.py | 3 ++-
 bayes_optim/search_space/search_space.py  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index d55d253..c5c5cb8 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -84,7 +84,8 @@ def argmax_restart(
                 bounds=bounds,
                 maxfun=eval_budget,
             )
-            xopt_ = xopt_.flatten().tolist()
+            # rounding if a coarser numerical precision is provided
+            xopt_ = search_space.round(xopt_).flatten().tolist()
             if not isinstance(fopt_, float):
                 fopt_ = float(fopt_)
             fopt_ = -fopt_
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 7039040..e05dad5 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -535,6 +535,8 @@ class SearchSpace:
         n = max(N, 10) if h or g else N
         constraints = lambda x: np.r_[np.abs(h(x)) if h else [], np.array(g(x)) if g else []]
         S = SCMC(self, constraints, tol=tol).sample(n) if h or g else self._sample(N, method)
+        if h or g:  # NOTE: the feasibility has to be tested on the rounded points
+            S = self.round(S)
         try:
             # NOTE: equality constraints are converted to an epsilon-tude around the
             # corresponding manifold
-- 
2.43.0


From dba6e8db51158b4640e8b04373815222b4f8eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 15/51] fix: honour the step of integer variables in MIES and
 in the constrained sampler

---
 bayes_optim/acquisition/optim/mies.py | 8 ++++++--
 bayes_optim/search_space/samplers.py  | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index a8a5524..52f3c87 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -80,6 +80,7 @@ class MIES:
         # unpack interval bounds
         self.bounds_r = np.asarray([self._space.bounds[_] for _ in self.id_r])
         self.bounds_i = np.asarray([self._space.bounds[_] for _ in self.id_i])
+        self.step_i = np.asarray([self._space.data[_].step for _ in self.id_i])
         # NOTE: bounds might be ragged
         self.bounds_d = [self._space.bounds[_] for _ in self.id_d]
         self._check_bounds(self.bounds_r)
@@ -254,10 +255,13 @@ class MIES:
         eta[eta > 1] = 1
 
         p = 1 - (eta / self.N_i) / (1 + np.sqrt(1 + (eta / self.N_i) ** 2.0))
-        x_ = x + geometric(p) - geometric(p)
+        x_ = x + (geometric(p) - geometric(p)) * self.step_i
 
         # Interval Bounds Treatment
-        x_ = np.asarray(handle_box_constraint(x_, self.bounds_i[:, 0], self.bounds_i[:, 1]), dtype="int")
+        lb = self.bounds_i[:, 0]
+        x_ = handle_box_constraint(x_, lb, self.bounds_i[:, 1])
+        # only the multiples of `step` (counted from the lower bound) are allowed
+        x_ = np.asarray(lb + np.floor((x_ - lb) / self.step_i) * self.step_i, dtype="int")
         individual[self.id_i] = x_
         individual[self._id_eta] = eta
 
diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index b62235e..062909f 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -94,6 +94,8 @@ class SCMC:
             self.bounds_r = np.asarray([self.sample_space.bounds[_] for _ in self.id_r])
             self.bounds_i = np.asarray([self.sample_space.bounds[_] for _ in self.id_i])
         self.bounds_d = [self.sample_space.bounds[_] for _ in self.id_d]
+        self.lower_i = np.asarray([self.sample_space.bounds[_][0] for _ in self.id_i])
+        self.step_i = np.asarray([self.sample_space.data[_].step for _ in self.id_i])
 
     def _log_posterior(self, x: np.ndarray, nu: float) -> float:
         r"""Log-posterior \log P(x) + \sum_{i=1}^K \log \Phi(-C_i(x) / \nu)
@@ -137,11 +139,14 @@ class SCMC:
     def _rproposal_integer(self, X: np.ndarray, t: int):
         X_ = X[:, self.id_i].astype(int)
         p = norm.cdf(np.std(X_, axis=0) / (t + 1))
-        X[:, self.id_i] = np.clip(
-            X_ + np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape),
+        X_ = np.clip(
+            X_ + (np.random.geometric(p, X_.shape) - np.random.geometric(p, X_.shape)) * self.step_i,
             self.bounds_i[:, 0],
             self.bounds_i[:, 1],
         )
+        # only the multiples of `step` (counted from the lower bound) are allowed
+        n_step = np.floor((X_ - self.lower_i) / self.step_i)
+        X[:, self.id_i] = (self.lower_i + n_step * self.step_i).astype(int)
 
     def _rproposal_discrete(self, X: np.ndarray, t: int):
         N = len(X)
-- 
2.43.0


From 069275224a30a2e2698e10e8ed7ad2c654bc4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 16/51] fix: keep the type of categorical levels in the
 constrained sampler

---
 bayes_optim/search_space/samplers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/search_space/samplers.py b/bayes_optim/search_space/samplers.py
index 062909f..f3ce8f1 100644
--- a/bayes_optim/search_space/samplers.py
+++ b/bayes_optim/search_space/samplers.py
@@ -152,9 +152,11 @@ class SCMC:
         N = len(X)
         prob = max(0.5 * np.exp(-1 * t), 1 / self.N_d)
         for i in self.id_d:
-            levels = np.array(self.sample_space.bounds[i])
-            idx = np.random.rand(N) < prob
-            X[idx, i] = levels[np.random.randint(0, len(levels), sum(idx))]
+            levels = self.sample_space.bounds[i]
+            (idx,) = np.nonzero(np.random.rand(N) < prob)
+            # NOTE: the levels should not be converted by numpy, e.g., to strings
+            for k, j in zip(idx, np.random.randint(0, len(levels), len(idx))):
+                X[k, i] = levels[j]
 
     def _ess(self, nu: float, nu_ref: float, X: np.ndarray) -> float:
         """effective sample size"""
-- 
2.43.0


From b62355ee2357ea88e983929923a54d1177f8ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:20 +0000
Subject: [PATCH 17/51] fix: never propose the same point twice in one batch,
 keeping one of the duplicates

---
 bayes_optim/base.py      | 9 +++++----
 bayes_optim/bayes_opt.py | 6 +++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 93c3812..593897d 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -290,7 +290,7 @@ class BaseBO(BaseOptimizer):
                 )
                 N = n_point - len(X)
                 # take random samples if the acquisition optimization failed
-                X += self.create_DoE(N, fixed=fixed)
+                X = self.pre_eval_check(X + self.create_DoE(N, fixed=fixed))
         else:  # take the initial DoE
             n_point = self._DoE_size if n_point is None else n_point
             msg = f"asking {n_point} points (using DoE):"
@@ -401,9 +401,10 @@ class BaseBO(BaseOptimizer):
 
             if len(X) != 0:
                 X = self.search_space.round(X)
-                X = self.pre_eval_check(X)
-                DoE += X
-                n_point -= len(X)
+                n_before = len(DoE)
+                # NOTE: validate against the points taken in the previous rounds as well
+                DoE = self.pre_eval_check(DoE + (X.tolist() if isinstance(X, np.ndarray) else X))
+                n_point -= len(DoE) - n_before
 
             count += 1
             if count > 3:  # maximally 3 iterations
diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 0fdc8d2..4dc05cb 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -39,7 +39,11 @@ class BO(BaseBO):
         _ = []
         for i in range(N):
             x = X[i]
-            idx = np.arange(len(X)) != i
+            # NOTE: keep the first one among the duplicated candidates
+            idx = np.r_[_, np.arange(N, len(X))].astype(int)
+            if len(idx) == 0:
+                _ += [i]
+                continue
             CON = np.all(
                 np.isclose(
                     np.asarray(X[idx][:, self.r_index], dtype="float"),
-- 
2.43.0


From 13016a87d2f149c0e53310b2a6ef2600bf4d525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:08 +0000
Subject: [PATCH 18/51] fix: adapt SelfAdaptiveBO using the acquisition values
 of all candidates

---
 bayes_optim/bayes_opt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 4dc05cb..256b3b3 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -177,7 +177,9 @@ class SelfAdaptiveBO(ParallelBO):
             __ = [list(self._argmax_restart(_, logger=self.logger)) for _ in criteria]
 
         # NOTE: this adaptation is different from what I did in the LeGO paper..
-        idx = np.argsort(__[1])[::-1][:N]
+        # NOTE: `argmax_restart` returns an empty value if no feasible point is found
+        values = [v if np.size(v) == 1 else -np.inf for _, v in __]
+        idx = np.argsort(np.array(values, dtype=float).ravel())[::-1][:N]
         self._acquisition_par["t"] = np.mean([_t_list[i] for i in idx])
         return tuple(zip(*__))
 
-- 
2.43.0


From 5e0ee0abd1eeab1a55fc6780180430b96d9ced91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:08 +0000
Subject: [PATCH 19/51] fix: tell each evaluation to the right subspace in
 ConditionalBO regardless of the order and falsy values

---
 bayes_optim/extension.py                 | 37 +++++++++++++++---------
 bayes_optim/search_space/node.py         |  2 +-
 bayes_optim/search_space/search_space.py |  2 +-
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index eb5189b..7814971 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -214,8 +214,7 @@ class ConditionalBO(ParallelBO):
         self._create_optimizer(**kwargs)
         self._ucb = np.zeros(self.n_subspace)
         self._to_pheno = lambda x: x.to_dict()
-        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, **kwargs)
-        self._bo_idx: List[int] = list()
+        self._to_geno = lambda x, **kwargs: Solution.from_dict(x, var_name=self.var_names, **kwargs)
 
     def _create_optimizer(self, **kwargs):
         _kwargs = kwargs.copy()
@@ -245,6 +244,14 @@ class ConditionalBO(ParallelBO):
             return []
         return np.random.choice(self.n_subspace, n_point).tolist()
 
+    def _get_subspace(self, x: dict) -> int:
+        """find the index of the subspace to which the point `x` belongs"""
+        active = set(k for k, v in x.items() if v is not None)
+        for i, (fixed, cs) in enumerate(self.subspaces):
+            if active == set(fixed) | set(cs.var_name) and all(x[k] == v for k, v in fixed.items()):
+                return i
+        raise ValueError(f"{x} does not belong to any subspace")
+
     @timeit
     def ask(self, n_point: int = None, fixed: Dict[str, Union[float, int, str]] = None) -> List[dict]:
         n_point = self.n_point if n_point is None else n_point
@@ -258,13 +265,12 @@ class ConditionalBO(ParallelBO):
 
         # select subspaces/BOs
         idx += self.select_subspace(n_point=n_point - len(idx))
-        self._bo_idx = idx
         # calling `ask` methods from BO's from each subspace
         X = [self._bo[i].ask()[0] for i in idx]
         # fill in the value for conditioning and irrelative variables (None)
         for i, k in enumerate(idx):
             X[i].update(self._fixed_vars[k])
-            X[i].update({k: None for k in set(self.var_names) - set(X[i].keys())})
+            X[i].update({k: None for k in self.var_names if k not in X[i]})
             self.logger.info(f"#{i + 1} - {X[i]}")
         return X
 
@@ -285,18 +291,23 @@ class ConditionalBO(ParallelBO):
         func_vals : List/np.ndarray of reals
             The corresponding function values
         """
-        assert len(self._bo_idx) == len(X)
+        assert len(X) == len(func_vals)
+        # NOTE: the points can be told in any order, e.g., in case of asynchronous evaluations
+        idx = [self._get_subspace(x) for x in X]
+        X_ = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
+        if len(X_) > 0:
+            self.data = self.data + X_ if hasattr(self, "data") else X_
+        self.eval_count += len(X)
+
         # call `tell` method of BOs in each subspace
-        for i, k in enumerate(self._bo_idx):
-            x = {k: v for k, v in X[i].items() if v}
-            for key, _ in self._fixed_vars[k].items():
-                x.pop(key)
+        for i, k in enumerate(idx):
+            x = {key: X[i][key] for key in self.subspaces[k][1].var_name}
             self._bo[k].tell([x], [func_vals[i]], **kwargs)
 
-        X = self.post_eval_check(self._to_geno(X, fitness=func_vals))
-        self.data = self.data + X if hasattr(self, "data") else X
-        self.eval_count += len(X)
-
+        if not hasattr(self, "data"):  # all the evaluations have failed so far
+            if not warm_start:
+                self.iter_count += 1
+            return
         xopt = self.xopt
         self.logger.info(f"fopt: {xopt.fitness}")
         self.logger.info(f"xopt: {self._to_pheno(xopt)}\n")
diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index 7e5d8aa..a8c828f 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -172,7 +172,7 @@ class Node:
             return {(): None}
 
         path = dict()
-        for br in set(self.branches):
+        for br in dict.fromkeys(self.branches):
             _path = [
                 ((br,) + p, v) if p else ((br,), [self.children[i].name])
                 for i in [i for i, b in enumerate(self.branches) if b == br]
diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index e05dad5..5d8a442 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -705,7 +705,7 @@ class SearchSpace:
             # all variables in the conditional structure
             _var = _reduce([t.get_all_name() for t in self.structure])
             # remaining variables not affected by conditions
-            isolated_var = [self[v] for v in set(self.var_name) - set(_var)]
+            isolated_var = [self[v] for v in self.var_name if v not in _var]
             out, d = list(), dict()
             # all paths in the conditional tree
             paths = [list(root.get_all_path().items()) for root in self.structure]
-- 
2.43.0


From f340c54b665cb394d694dcb30b9514e69f18d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:06 +0000
Subject: [PATCH 20/51] fix: do not reset the global RNG to a fixed seed in
 every restart of the (1+1)-CMA-ES

---
 bayes_optim/acquisition/optim/__init__.py            | 2 --
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 9 ++++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/bayes_optim/acquisition/optim/__init__.py b/bayes_optim/acquisition/optim/__init__.py
index c5c5cb8..68caf6a 100644
--- a/bayes_optim/acquisition/optim/__init__.py
+++ b/bayes_optim/acquisition/optim/__init__.py
@@ -1,5 +1,4 @@
 import logging
-import time
 from typing import Callable, List, Tuple
 
 import numpy as np
@@ -105,7 +104,6 @@ def argmax_restart(
                 n_restart=0,
                 minimize=False,
                 verbose=False,
-                seed=time.time(),
             )
             xopt_, fopt_, stop_dict = opt.run()
             stop_dict["funcalls"] = stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count
diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index c8295f8..a8af1b7 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -35,7 +35,7 @@ class OnePlusOne_CMA(object):
         ftol: float = 1e-4,
         verbose: bool = False,
         log_file: str = None,
-        random_seed: int = 42,
+        random_seed: int = None,
         **kwargs,
     ):
         """Hereafter, we use the following customized
@@ -178,10 +178,9 @@ class OnePlusOne_CMA(object):
 
     @random_seed.setter
     def random_seed(self, seed):
-        if seed:
-            self._random_seed = int(seed)
-            if self._random_seed:
-                np.random.seed(self._random_seed)
+        self._random_seed = None if seed is None else int(seed)
+        if self._random_seed is not None:
+            np.random.seed(self._random_seed)
 
     @property
     def C(self):
-- 
2.43.0


From ae8178ed28f957fd0829cf6f2892b2f3e824557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:06 +0000
Subject: [PATCH 21/51] fix: make Daemon.stop work (missing import) and
 tolerate a broken pidfile

---
 bayes_optim/utils/_daemon.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/utils/_daemon.py b/bayes_optim/utils/_daemon.py
index 7267446..eec45ad 100644
--- a/bayes_optim/utils/_daemon.py
+++ b/bayes_optim/utils/_daemon.py
@@ -3,6 +3,7 @@ import errno
 import os
 import signal
 import sys
+import time
 
 
 class Daemon(object):
@@ -113,14 +114,18 @@ class Daemon(object):
         atexit.register(self.delpid)  # Make sure pid file is removed if we quit
         pid = str(os.getpid())
         sys.stdout.write(str(pid) + "\n")
-        open(self.pidfile, "w+").write("%s\n" % pid)
+        with open(self.pidfile, "w+") as pf:
+            pf.write("%s\n" % pid)
 
     def delpid(self):
         try:
             # the process may fork itself again
-            pid = int(open(self.pidfile, "r").read().strip())
+            with open(self.pidfile, "r") as pf:
+                pid = int(pf.read().strip())
             if pid == os.getpid():
                 os.remove(self.pidfile)
+        except ValueError:  # the pidfile is empty or broken
+            pass
         except OSError as e:
             if e.errno == errno.ENOENT:
                 pass
@@ -136,10 +141,9 @@ class Daemon(object):
 
         # Check for a pidfile to see if the daemon already runs
         try:
-            pf = open(self.pidfile, "r")
-            pid = int(pf.read().strip())
-            pf.close()
-        except IOError:
+            with open(self.pidfile, "r") as pf:
+                pid = int(pf.read().strip())
+        except (IOError, ValueError):
             pid = None
         except SystemExit:
             pid = None
@@ -203,10 +207,9 @@ class Daemon(object):
 
     def get_pid(self):
         try:
-            pf = open(self.pidfile, "r")
-            pid = int(pf.read().strip())
-            pf.close()
-        except IOError:
+            with open(self.pidfile, "r") as pf:
+                pid = int(pf.read().strip())
+        except (IOError, ValueError):
             pid = None
         except SystemExit:
             pid = None
-- 
2.43.0


From a0f16c3cbc3cde640e1d021501a6ab7f3dc98e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:32 +0000
Subject: [PATCH 22/51] fix: never share a logger among optimizers and do not
 take a log file for a console

---
 bayes_optim/_base.py        | 3 ++-
 bayes_optim/utils/logger.py | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/_base.py b/bayes_optim/_base.py
index 5a05451..3b70efa 100644
--- a/bayes_optim/_base.py
+++ b/bayes_optim/_base.py
@@ -1,6 +1,7 @@
 import logging
 from abc import abstractmethod
 from typing import Callable, Dict, List, Optional, Tuple, Union
+from uuid import uuid4
 
 import numpy as np
 from joblib import Parallel, delayed
@@ -32,7 +33,7 @@ class BaseOptimizer:
         self.search_space: SearchSpace = search_space
         self.n_obj: int = n_obj
         self.random_seed: int = random_seed
-        self.instance_id: str = instance_id if instance_id else str(id(self))
+        self.instance_id: str = instance_id if instance_id else uuid4().hex
 
         self.obj_fun: callable = obj_fun
         self.parallel_obj_fun: callable = parallel_obj_fun
diff --git a/bayes_optim/utils/logger.py b/bayes_optim/utils/logger.py
index 88df37d..71f21a0 100644
--- a/bayes_optim/utils/logger.py
+++ b/bayes_optim/utils/logger.py
@@ -39,6 +39,11 @@ class LoggerFormatter(logging.Formatter):
         return fmt
 
 
+def _is_console(handler: logging.Handler) -> bool:
+    # NOTE: `FileHandler` is also a `StreamHandler`
+    return isinstance(handler, logging.StreamHandler) and not isinstance(handler, logging.FileHandler)
+
+
 def get_logger(
     logger_id: str, file: Union[str, List[str]] = None, console: bool = False
 ) -> logging.Logger:
@@ -49,7 +54,7 @@ def get_logger(
 
     fmt = LoggerFormatter()
     # create console handler and set level to the vebosity
-    SH = list(filter(lambda h: isinstance(h, logging.StreamHandler), logger.handlers))
+    SH = list(filter(_is_console, logger.handlers))
     if len(SH) == 0 and console:  # if console handler is not registered yet
         sh = logging.StreamHandler(sys.stdout)
         sh.setLevel(logging.INFO)
@@ -76,7 +81,7 @@ def get_logger(
 def dump_logger(logger: logging.Logger) -> str:
     FHs = list(filter(lambda h: isinstance(h, logging.FileHandler), logger.handlers))
     log_file = None if len(FHs) == 0 else [fh.baseFilename for fh in FHs]
-    SH = list(filter(lambda h: isinstance(h, logging.StreamHandler), logger.handlers))
+    SH = list(filter(_is_console, logger.handlers))
     return dill.dumps({"logger_id": logger.name, "console": len(SH) != 0, "file": log_file})
 
 
-- 
2.43.0


From 0ff7b76dad80ed83ee22c8a41821f805f631a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:32 +0000
Subject: [PATCH 23/51] fix: write one parsable line per solution to the CSV
 file, also after an interrupted writing

---
 bayes_optim/solution.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/solution.py b/bayes_optim/solution.py
index bd6c701..9ad476f 100644
--- a/bayes_optim/solution.py
+++ b/bayes_optim/solution.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import csv
+from io import StringIO
 from typing import Dict, List, Optional, Sequence, Union
 
 import numpy as np
@@ -372,9 +374,19 @@ class Solution(np.ndarray):
         if attribute:
             data = np.c_[data, self.n_eval, self.fitness]
 
-        out = [delimiter.join(map(str, row)) + "\n" for row in data.tolist()]
+        # NOTE: fields containing the delimiter, e.g., tuples, have to be quoted
+        out = StringIO()
+        csv.writer(out, delimiter=delimiter, lineterminator="\n").writerows(
+            [list(map(str, row)) for row in data.tolist()]
+        )
         mode = "a" if append else "w"
         with open(fname, mode) as f:
+            # NOTE: an interrupted writing might have left an incomplete line in the file
+            if append and f.tell() > 0:
+                with open(fname, "rb") as _f:
+                    _f.seek(-1, 2)
+                    if _f.read(1) != b"\n":
+                        f.write("\n")
             if header:
                 f.writelines(_header)
-            f.writelines(out)
+            f.write(out.getvalue())
-- 
2.43.0


From 1f1ce25929dd8d8c8c9966c70a31831d4fcf619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:32 +0000
Subject: [PATCH 24/51] fix: return the initial points as the first entry of
 the trial points in fmin

---
 bayes_optim/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 0115a59..89d5b53 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -188,11 +188,13 @@ def fmin(
     )
     opt.run()
 
-    N, n = opt.DoE_size, opt.n_point
+    # the first entry contains the initial points, which are either from the DoE or warm data
+    N, n = len(warm_data[0]) if warm_data else opt.DoE_size, opt.n_point
+    n_iter = opt.iter_count if warm_data else opt.iter_count - 1
     _data, data = opt.data[:N, :], opt.data[N:, :]
 
-    data_per_iteration = [np.asarray(data[:N, :])]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(opt.iter_count - 1)]
+    data_per_iteration = [np.asarray(_data)]
+    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(n_iter)]
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From bc5042a80c98477098482e432234e89a67205fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:21 +0000
Subject: [PATCH 25/51] fix: determine the Pareto set from the exact objective
 values

---
 bayes_optim/mobo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index cd6e846..eadc8d9 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -2,6 +2,7 @@ import functools
 from typing import Dict, List, Tuple, Union
 
 import numpy as np
+import torch
 from joblib import Parallel, delayed
 from sklearn.metrics import mean_squared_error, r2_score
 from sklearn.preprocessing import MinMaxScaler
@@ -53,7 +54,10 @@ class BaseMOBO(BO):
         """get the non-dominated subset of solutions"""
         if self.y is None:
             return None
-        idx = is_non_dominated(Tensor(self.y)).detach().cpu().numpy()
+        # NOTE: compare the exact objective values since the normalized ones in single precision
+        # are not distinguishable anymore if they differ only slightly
+        y = torch.tensor(self.data.fitness * (-1.0) ** self.minimize, dtype=torch.double)
+        idx = is_non_dominated(y).detach().cpu().numpy()
         return self.data[idx, :]
 
     @property
-- 
2.43.0


From 0aa6a4314f6efc26a1332c29a3e5a16e8377c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:50 +0000
Subject: [PATCH 26/51] fix: do not anneal below the final temperature with the
 linear schedule

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 256b3b3..1590c4c 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -138,7 +138,8 @@ class AnnealingBO(ParallelBO):
             self._anealer = lambda t: t * self.alpha
         elif self.schedule == "linear":
             self.eta = (t0 - self.tf) / max_iter  # linear
-            self._anealer = lambda t: t - self.eta
+            # NOTE: there can be more requests than planned, e.g., if some results are never told
+            self._anealer = lambda t: max(t - self.eta, self.tf)
         elif self.schedule == "log":
             self.c = self.tf * np.log(max_iter + 1)  # logarithmic
             self._anealer = lambda t: t * self.c / np.log(self.iter_count + 2)
-- 
2.43.0


From 0df69d40c8a74186ae256b120c25ff83ccb79c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:36 +0000
Subject: [PATCH 27/51] fix: never return NaN from the PI acquisition function
 where the model has no uncertainty

---
 bayes_optim/acquisition/acquisition_fun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 564863b..813e296 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -209,6 +209,9 @@ class EpsilonPI(ImprovementBased):
         X = self.check_X(X)
         y_hat, sd = self._predict(X)
 
+        if np.isclose(sd, 0):  # no uncertainty at all, e.g., a random forest trained on one point
+            return (np.array([0.0]), np.zeros((len(X[0]), 1))) if return_dx else 0.0
+
         coef = 1 - self._epsilon if y_hat > 0 else (1 + self._epsilon)
         try:
             xcr_ = self._plugin - coef * y_hat
-- 
2.43.0


From 364d0b64a6063f3156f9e4d7a26c8c4fb15fdaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:38 +0000
Subject: [PATCH 28/51] fix: prevent the self-adapted parameter of
 SelfAdaptiveBO from exploding

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 1590c4c..779ad20 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -164,7 +164,8 @@ class SelfAdaptiveBO(ParallelBO):
         N = int(n_point / 2)
 
         for _ in range(n_point):
-            _t = np.exp(self._acquisition_par["t"] * np.random.randn())
+            # NOTE: `MGFI` clips `t` at this value. Otherwise, it might explode in the adaptation
+            _t = min(np.exp(self._acquisition_par["t"] * np.random.randn()), 22.36)
             _t_list.append(_t)
             _acquisition_par = copy(self._acquisition_par)
             _acquisition_par.update({"t": _t})
-- 
2.43.0


From 50f2e98820a2b3e2559c0081c00eb620c2e1fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:38 +0000
Subject: [PATCH 29/51] fix: always return a scalar from the PI acquisition
 function for one point

---
 bayes_optim/acquisition/acquisition_fun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index 813e296..f82d013 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -210,13 +210,15 @@ class EpsilonPI(ImprovementBased):
         y_hat, sd = self._predict(X)
 
         if np.isclose(sd, 0):  # no uncertainty at all, e.g., a random forest trained on one point
-            return (np.array([0.0]), np.zeros((len(X[0]), 1))) if return_dx else 0.0
+            return (0.0, np.zeros((len(X[0]), 1))) if return_dx else 0.0
 
         coef = 1 - self._epsilon if y_hat > 0 else (1 + self._epsilon)
         try:
             xcr_ = self._plugin - coef * y_hat
             xcr = xcr_ / sd
             f_value = norm.cdf(xcr)
+            if len(X) == 1:  # always keep the output in the same type
+                f_value = sum(f_value)
         except Exception:
             f_value = 0.0
 
-- 
2.43.0


From 0aa9b0e251318371b3299f4c6b91518014fa3a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:00 +0000
Subject: [PATCH 30/51] fix: round the initial point of the (1+1)-CMA-ES to the
 precision of the search space

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index a8af1b7..7417810 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -213,6 +213,8 @@ class OnePlusOne_CMA(object):
             # sample `x` u.a.r. in `[lb, ub]`
             assert all(~np.isinf(self.lb)) & all(~np.isinf(self.ub))
             x = (self.ub - self.lb) * np.random.rand(self.dim) + self.lb
+            # rounding if a coarser numerical precision is provided
+            x = self.search_space.round(x).ravel()
 
         self._x = x
         y = self.evaluate(x)
-- 
2.43.0


From 31e0c669753114098dbbce18da70fd26b1cd11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:43 +0000
Subject: [PATCH 31/51] fix: avoid a division by zero in the
 (1+1)-Cholesky-CMA-ES when the mutation is rounded away

---
 bayes_optim/acquisition/optim/one_plus_one_cma_es.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
index 7417810..dc57b0b 100644
--- a/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
+++ b/bayes_optim/acquisition/optim/one_plus_one_cma_es.py
@@ -462,8 +462,9 @@ class OnePlusOne_Cholesky_CMA(OnePlusOne_CMA):
         w_ = w.dot(self._A_inv)
         L = np.sum(w**2)
 
-        self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+        # NOTE: the evolution path vanishes if the mutation is rounded back to its parent
+        if L > 0:
+            self._A += (np.sqrt(1 + L * cb / ca) - 1) / L * np.outer(self.pc, w)
+            self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A *= np.sqrt(ca)
-
-        self._A_inv -= (1 - 1 / np.sqrt(1 + L * cb / ca)) / L * np.outer(w, w_)
         self._A_inv *= 1 / np.sqrt(ca)
-- 
2.43.0


From a1692f24081ef5b96c9e0788e73b9815cb5aba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:21 +0000
Subject: [PATCH 32/51] fix: accept both scalars and arrays from the objective
 function in MIES

---
 bayes_optim/acquisition/optim/mies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/optim/mies.py b/bayes_optim/acquisition/optim/mies.py
index 52f3c87..8a28bd2 100644
--- a/bayes_optim/acquisition/optim/mies.py
+++ b/bayes_optim/acquisition/optim/mies.py
@@ -202,7 +202,8 @@ class MIES:
         if len(pop.shape) == 1:  # one solution
             X = [X]
 
-        pop.fitness = np.array(list(map(self.obj_func, X))).ravel()
+        # NOTE: the objective function might return either a scalar or an array of length one
+        pop.fitness = np.concatenate([np.ravel(self.obj_func(x)) for x in X])
         self.eval_count += pop.N
         _penalized_fitness = (
             self._penalty_func(X, self.iter_count + 1, self.eq_func, self.ineq_func, minimize=self.minimize)
-- 
2.43.0


From f42818303edfe39498823138a76f8d31ac120733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:33 +0000
Subject: [PATCH 33/51] fix: avoid a NaN gradient of UCB on the training points

---
 bayes_optim/acquisition/acquisition_fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/acquisition/acquisition_fun.py b/bayes_optim/acquisition/acquisition_fun.py
index f82d013..9c58871 100644
--- a/bayes_optim/acquisition/acquisition_fun.py
+++ b/bayes_optim/acquisition/acquisition_fun.py
@@ -138,7 +138,8 @@ class UCB(AcquisitionFunction):
 
         if return_dx:
             y_dx, sd2_dx = self._gradient(X)
-            sd_dx = sd2_dx / (2.0 * sd)
+            # NOTE: the uncertainty vanishes, e.g., on the training points
+            sd_dx = np.zeros(sd2_dx.shape) if np.isclose(sd, 0) else sd2_dx / (2.0 * sd)
             try:
                 f_dx = y_dx + self.alpha * sd_dx
             except Exception:
-- 
2.43.0


From ed59d287340cc3339078b1fbdd28da14a771b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:56 +0000
Subject: [PATCH 34/51] fix: return the points tried in each iteration from
 fmin, also if some evaluations fail

---
 bayes_optim/__init__.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bayes_optim/__init__.py b/bayes_optim/__init__.py
index 89d5b53..084d436 100755
--- a/bayes_optim/__init__.py
+++ b/bayes_optim/__init__.py
@@ -186,15 +186,13 @@ def fmin(
         random_seed=seed,
         **kwargs,
     )
-    opt.run()
-
     # the first entry contains the initial points, which are either from the DoE or warm data
-    N, n = len(warm_data[0]) if warm_data else opt.DoE_size, opt.n_point
-    n_iter = opt.iter_count if warm_data else opt.iter_count - 1
-    _data, data = opt.data[:N, :], opt.data[N:, :]
-
-    data_per_iteration = [np.asarray(_data)]
-    data_per_iteration += [np.asarray(data[(i * n) : ((i + 1) * n), :]) for i in range(n_iter)]
+    data_per_iteration = [np.asarray(warm_data[0], dtype=object)] if warm_data else []
+    while not opt.check_stop():
+        X = opt.ask()
+        data_per_iteration.append(np.asarray(X, dtype=object))
+        opt.tell(X, opt.evaluate(X))
+    opt.recommend()
 
     print(
         "Optimization terminated successfully.\n"
-- 
2.43.0


From 6abb22f1b080a34640ce3bc0fe3e5dae72168a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:26 +0000
Subject: [PATCH 35/51] fix: activate all the variables of a branch together in
 conditional search spaces

---
 bayes_optim/search_space/node.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bayes_optim/search_space/node.py b/bayes_optim/search_space/node.py
index a8c828f..11fb833 100644
--- a/bayes_optim/search_space/node.py
+++ b/bayes_optim/search_space/node.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import itertools
 from copy import copy, deepcopy
 from typing import Any, Dict, List, Tuple
 
@@ -173,16 +174,13 @@ class Node:
 
         path = dict()
         for br in dict.fromkeys(self.branches):
-            _path = [
-                ((br,) + p, v) if p else ((br,), [self.children[i].name])
-                for i in [i for i, b in enumerate(self.branches) if b == br]
-                for p, v in Node.get_all_path(self.children[i]).items()
-            ]
-            _merged = dict()
-            for k, v in _path:
-                for vv in v:
-                    _merged.setdefault(k, []).append(vv)
-            path.update(_merged)
+            children = [c for c, b in zip(self.children, self.branches) if b == br]
+            # NOTE: all the children of this branch are active at the same time
+            leaves = [c.name for c in children if not c.children]
+            sub_paths = [Node.get_all_path(c).items() for c in children if c.children]
+            for item in itertools.product(*sub_paths):
+                key = sum((k for k, _ in item), (br,))
+                path[key] = sum((v for _, v in item), leaves)
         return path
 
     def __str__(self) -> str:
-- 
2.43.0


From 06c72a4ee7ea312040dc1f85d6d27be5f886e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:26 +0000
Subject: [PATCH 36/51] fix: support negative values in the conditions of a
 search space

---
 bayes_optim/search_space/search_space.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/bayes_optim/search_space/search_space.py b/bayes_optim/search_space/search_space.py
index 5d8a442..bac1d53 100644
--- a/bayes_optim/search_space/search_space.py
+++ b/bayes_optim/search_space/search_space.py
@@ -29,11 +29,7 @@ _get_var = lambda c: Parser().parse(c).variables()[0]
 
 
 def _get_val(condition):
-    c = ast.parse(condition).body[0].value.comparators[0]
-    if hasattr(c, "n"):
-        return c.n
-    if hasattr(c, "s"):
-        return c.s
+    return ast.literal_eval(ast.parse(condition).body[0].value.comparators[0])
 
 
 class SearchSpace:
-- 
2.43.0


From ee1e3827bf0bf3e0ecbff6b3ef41ceebe36c0ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:10 +0000
Subject: [PATCH 37/51] fix: create AnnealingBO also if the budget does not
 exceed DoE_size

---
 bayes_optim/bayes_opt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/bayes_opt.py b/bayes_optim/bayes_opt.py
index 779ad20..d9788e6 100644
--- a/bayes_optim/bayes_opt.py
+++ b/bayes_optim/bayes_opt.py
@@ -132,7 +132,8 @@ class AnnealingBO(ParallelBO):
         self._acquisition_par["t"] = t0
 
         # TODO: add supports for UCB and epsilon-PI
-        max_iter = (self.max_FEs - self._DoE_size) / self.n_point
+        # NOTE: the budget may not exceed `DoE_size`, e.g., when warm-starting
+        max_iter = max(1, (self.max_FEs - self._DoE_size) / self.n_point)
         if self.schedule == "exp":  # exponential
             self.alpha = (self.tf / t0) ** (1.0 / max_iter)
             self._anealer = lambda t: t * self.alpha
-- 
2.43.0


From 4760e029a417b57a488550b353bff343e15f1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:53 +0000
Subject: [PATCH 38/51] fix: restore the loggers of the branches when loading
 ConditionalBO

---
 bayes_optim/extension.py    | 10 +++++++++-
 bayes_optim/utils/logger.py |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 7814971..25b5f38 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -15,7 +15,7 @@ from .bayes_opt import BO, ParallelBO
 from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .surrogate import GaussianProcess, RandomForest, trend
-from .utils import timeit
+from .utils import dump_logger, load_logger, timeit
 
 
 class LinearTransform(PCA):
@@ -239,6 +239,14 @@ class ConditionalBO(ParallelBO):
         self._init_gen = iter(range(self.n_subspace))
         self._fixed_vars = [d for d, _ in self.subspaces]
 
+    @classmethod
+    def load(cls, filename: str) -> ConditionalBO:
+        obj = super().load(filename)
+        # NOTE: a logger is serialized by its name only, hence its handlers must be restored
+        for bo in obj._bo:
+            bo.logger = load_logger(dump_logger(obj.logger), logger_id=bo.logger.name)
+        return obj
+
     def select_subspace(self, n_point: int) -> List[int]:
         if n_point == 0:
             return []
diff --git a/bayes_optim/utils/logger.py b/bayes_optim/utils/logger.py
index 71f21a0..9fdaa8e 100644
--- a/bayes_optim/utils/logger.py
+++ b/bayes_optim/utils/logger.py
@@ -85,5 +85,5 @@ def dump_logger(logger: logging.Logger) -> str:
     return dill.dumps({"logger_id": logger.name, "console": len(SH) != 0, "file": log_file})
 
 
-def load_logger(logger_str: str) -> logging.Logger:
-    return get_logger(**dill.loads(logger_str))
+def load_logger(logger_str: str, **kwargs) -> logging.Logger:
+    return get_logger(**{**dill.loads(logger_str), **kwargs})
-- 
2.43.0


From 558d40e7ba2db7cf289ef67282f637eb199b402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:24 +0000
Subject: [PATCH 39/51] fix: leave the user's solutions unchanged when they are
 given as warm_data

---
 bayes_optim/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 593897d..3696a96 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -163,6 +163,7 @@ class BaseBO(BaseOptimizer):
 
             if isinstance(X, Solution):
                 assert list(X.var_name) == list(self.var_names)
+                X = self._to_geno(X.copy(), index=X.index.tolist())  # leave the user's solutions as they are
             else:
                 X = self._to_geno(X)
 
-- 
2.43.0


From 2513f15acff50fda3d0fef99fcffffb367f3053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:41 +0000
Subject: [PATCH 40/51] fix: pass the results on to all branches in
 ConditionalBO if training one of them fails

---
 bayes_optim/extension.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 25b5f38..4dc3d2e 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -308,9 +308,15 @@ class ConditionalBO(ParallelBO):
         self.eval_count += len(X)
 
         # call `tell` method of BOs in each subspace
+        error = None
         for i, k in enumerate(idx):
             x = {key: X[i][key] for key in self.subspaces[k][1].var_name}
-            self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            try:
+                self._bo[k].tell([x], [func_vals[i]], **kwargs)
+            except Exception as e:  # the other subspaces should get their data nonetheless
+                error = e if error is None else error
+        if error is not None:
+            raise error
 
         if not hasattr(self, "data"):  # all the evaluations have failed so far
             if not warm_start:
-- 
2.43.0


From 0b3a249e37300d724f7d93f4d1dcc47bf4775df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:00 +0000
Subject: [PATCH 41/51] fix: do not use a surrogate model whose last training
 failed midway

---
 bayes_optim/surrogate/gaussian_process/gpr.py | 2 ++
 bayes_optim/surrogate/random_forest.py        | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bayes_optim/surrogate/gaussian_process/gpr.py b/bayes_optim/surrogate/gaussian_process/gpr.py
index 024c9b6..e890108 100755
--- a/bayes_optim/surrogate/gaussian_process/gpr.py
+++ b/bayes_optim/surrogate/gaussian_process/gpr.py
@@ -371,6 +371,8 @@ class GaussianProcess(BaseEstimator, RegressorMixin):
             A fitted Gaussian Process model object awaiting data to perform
             predictions.
         """
+        # the model is not usable if the training fails midway
+        self.is_fitted = False
         # Run input checks
         self.random_state = check_random_state(self.random_state)
         self._check_data(X, y)
diff --git a/bayes_optim/surrogate/random_forest.py b/bayes_optim/surrogate/random_forest.py
index 5f27484..f9cc17b 100644
--- a/bayes_optim/surrogate/random_forest.py
+++ b/bayes_optim/surrogate/random_forest.py
@@ -109,6 +109,7 @@ class RandomForest(RandomForestRegressor):
         return X
 
     def fit(self, X: Union[Solution, List, np.ndarray], y: np.ndarray):
+        self.is_fitted = False  # the model is not usable if the training fails midway
         if y.ndim == 2 and y.shape[1] == 1:
             y = y.ravel()
         self.X = self._check_X(X)
-- 
2.43.0


From 8e2ce7561fb4980cf95701f43de76f99b7d37822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:00 +0000
Subject: [PATCH 42/51] fix: reject malformed points, which make the model
 untrainable, before recording them

---
 bayes_optim/base.py | 10 ++++++++++
 bayes_optim/mobo.py |  1 +
 2 files changed, 11 insertions(+)

diff --git a/bayes_optim/base.py b/bayes_optim/base.py
index 3696a96..d7ceee9 100644
--- a/bayes_optim/base.py
+++ b/bayes_optim/base.py
@@ -332,6 +332,7 @@ class BaseBO(BaseOptimizer):
         """
         # TODO: implement method to handle known, expensive constraints `h_vals` and `g_vals`
         X = self._to_geno(X, index)
+        self._check_points(X)
         self.logger.info(f"observing {len(X)} points:")
         for i, _ in enumerate(X):
             X[i].fitness = func_vals[i]
@@ -423,6 +424,15 @@ class BaseBO(BaseOptimizer):
 
         """
 
+    def _check_points(self, X: Solution):
+        """Reject malformed points, with which the model can never be trained again"""
+        space = self._search_space
+        if not np.all(np.isfinite(X[:, np.r_[space.real_id, space.integer_id].astype(int)].astype(float))):
+            raise ValueError("the real and integer variables should be finite numbers")
+        for i in np.r_[space.discrete_id, space.ordinal_id, space.bool_id].astype(int):
+            if not all(v in space.data[i] for v in X[:, i]):
+                raise ValueError(f"unknown value of variable {space.var_name[i]}")
+
     def post_eval_check(self, X: Solution) -> Solution:
         _ = np.isnan(X.fitness) | np.isinf(X.fitness)
         if _.ndim == 2:  # multi-objective: one failed objective invalidates the solution
diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index eadc8d9..a34ad26 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -116,6 +116,7 @@ class BaseMOBO(BO):
             The corresponding function values
         """
         X = self._to_geno(X, index)
+        self._check_points(X)
         self.logger.info(f"observing {len(X)} points:")
 
         # TODO: implement method to handle known, expensive constraints `h_vals` and `g_vals`
-- 
2.43.0


From 51243b6a7df7f77ee5b0fc65e347a2448e44a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:43 +0000
Subject: [PATCH 43/51] fix: try the branches of a failed request later in
 ConditionalBO

---
 bayes_optim/extension.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 4dc3d2e..03c2228 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -271,10 +271,15 @@ class ConditionalBO(ParallelBO):
             except StopIteration:
                 break
 
+        init = list(idx)
         # select subspaces/BOs
         idx += self.select_subspace(n_point=n_point - len(idx))
         # calling `ask` methods from BO's from each subspace
-        X = [self._bo[i].ask()[0] for i in idx]
+        try:
+            X = [self._bo[i].ask()[0] for i in idx]
+        except BaseException:  # the subspaces of a failed request remain to be tried
+            self._init_gen = iter(init + list(self._init_gen))
+            raise
         # fill in the value for conditioning and irrelative variables (None)
         for i, k in enumerate(idx):
             X[i].update(self._fixed_vars[k])
-- 
2.43.0


From 46663f4e11737f15d3d9e7851e84cee7d88946e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:26 +0000
Subject: [PATCH 44/51] fix: ignore process numbers in the pid file which do
 not denote a single process

---
 bayes_optim/utils/_daemon.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bayes_optim/utils/_daemon.py b/bayes_optim/utils/_daemon.py
index eec45ad..9e03c3b 100644
--- a/bayes_optim/utils/_daemon.py
+++ b/bayes_optim/utils/_daemon.py
@@ -140,13 +140,7 @@ class Daemon(object):
         self.log("Starting...")
 
         # Check for a pidfile to see if the daemon already runs
-        try:
-            with open(self.pidfile, "r") as pf:
-                pid = int(pf.read().strip())
-        except (IOError, ValueError):
-            pid = None
-        except SystemExit:
-            pid = None
+        pid = self.get_pid()
 
         if pid:
             message = "pidfile %s already exists. Is it already running?\n"
@@ -213,6 +207,9 @@ class Daemon(object):
             pid = None
         except SystemExit:
             pid = None
+        # NOTE: zero and negative numbers stand for process groups when sending signals
+        if pid is not None and not 0 < pid < 2**31:
+            pid = None
         return pid
 
     def is_running(self):
-- 
2.43.0


From 2faa0fa4ee09b8e56cd6f57b56db08f5f4afd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 45/51] fix: multi-objective optimizers could not be
 constructed with warm-start data

---
 bayes_optim/mobo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/mobo.py b/bayes_optim/mobo.py
index a34ad26..7080055 100644
--- a/bayes_optim/mobo.py
+++ b/bayes_optim/mobo.py
@@ -21,11 +21,15 @@ __authors__ = ["Hao Wang"]
 class BaseMOBO(BO):
     """Base class for multi-objective BO"""
 
-    def __init__(self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, **kwargv):
+    def __init__(
+        self, n_obj: int = 2, minimize: Union[bool, List[bool]] = True, warm_data: Tuple = None, **kwargv
+    ):
         # NOTE: setting `minimize=True` to make parent's constructor work
         super().__init__(minimize=True, **kwargv)
         self._check_obj_fun(n_obj)
         self._check_minimize(minimize)
+        # NOTE: the warm data can only be taken when the number of objectives is known
+        self.warm_data = warm_data
 
     def _check_minimize(self, minimize: bool):
         self.minimize = minimize
-- 
2.43.0


From 318ffa3627e6d41ef85a2040e49ec3383d9cd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 46/51] fix: ConditionalBO wrote lines without the selecting
 and inactive variables to the data file

---
 bayes_optim/extension.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 03c2228..6a96bcb 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -223,6 +223,7 @@ class ConditionalBO(ParallelBO):
         _kwargs.pop("search_space", None)
         _kwargs.pop("eval_type", None)
         _kwargs.pop("model", None)
+        _kwargs.pop("data_file", None)  # the subspaces have different variables
         self.subspaces = self.search_space.get_unconditional_subspace()
         self._bo = [
             BO(
@@ -312,6 +313,9 @@ class ConditionalBO(ParallelBO):
             self.data = self.data + X_ if hasattr(self, "data") else X_
         self.eval_count += len(X)
 
+        if self.data_file is not None and len(X_) > 0:
+            X_.to_csv(self.data_file, header=False, append=True)
+
         # call `tell` method of BOs in each subspace
         error = None
         for i, k in enumerate(idx):
-- 
2.43.0


From 22b5b7f1d4a35884433cc1235ee269c24c10d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 47/51] fix: reporting results with labels to ConditionalBO
 failed

---
 bayes_optim/extension.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 6a96bcb..3631956 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -308,7 +308,8 @@ class ConditionalBO(ParallelBO):
         assert len(X) == len(func_vals)
         # NOTE: the points can be told in any order, e.g., in case of asynchronous evaluations
         idx = [self._get_subspace(x) for x in X]
-        X_ = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1))
+        index = kwargs.pop("index", None)
+        X_ = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1, index=index))
         if len(X_) > 0:
             self.data = self.data + X_ if hasattr(self, "data") else X_
         self.eval_count += len(X)
@@ -321,7 +322,8 @@ class ConditionalBO(ParallelBO):
         for i, k in enumerate(idx):
             x = {key: X[i][key] for key in self.subspaces[k][1].var_name}
             try:
-                self._bo[k].tell([x], [func_vals[i]], **kwargs)
+                label = None if index is None else [index[i]]
+                self._bo[k].tell([x], [func_vals[i]], index=label, **kwargs)
             except Exception as e:  # the other subspaces should get their data nonetheless
                 error = e if error is None else error
         if error is not None:
-- 
2.43.0


From 10ff5134c7f249f9b2537e5c2f5da38d59c610e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 48/51] fix: ConditionalBO.ask ignored the variables fixed by
 the user

---
 bayes_optim/extension.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 3631956..ab9541a 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -16,6 +16,7 @@ from .search_space import RealSpace, SearchSpace
 from .solution import Solution
 from .surrogate import GaussianProcess, RandomForest, trend
 from .utils import dump_logger, load_logger, timeit
+from .utils.exception import AskEmptyError
 
 
 class LinearTransform(PCA):
@@ -248,10 +249,10 @@ class ConditionalBO(ParallelBO):
             bo.logger = load_logger(dump_logger(obj.logger), logger_id=bo.logger.name)
         return obj
 
-    def select_subspace(self, n_point: int) -> List[int]:
+    def select_subspace(self, n_point: int, subspaces: List[int] = None) -> List[int]:
         if n_point == 0:
             return []
-        return np.random.choice(self.n_subspace, n_point).tolist()
+        return np.random.choice(self.n_subspace if subspaces is None else subspaces, n_point).tolist()
 
     def _get_subspace(self, x: dict) -> int:
         """find the index of the subspace to which the point `x` belongs"""
@@ -264,23 +265,30 @@ class ConditionalBO(ParallelBO):
     @timeit
     def ask(self, n_point: int = None, fixed: Dict[str, Union[float, int, str]] = None) -> List[dict]:
         n_point = self.n_point if n_point is None else n_point
-        idx = []
-        # initial DoE
-        for _ in range(n_point):
-            try:
-                idx.append(next(self._init_gen))
-            except StopIteration:
-                break
-
-        init = list(idx)
-        # select subspaces/BOs
-        idx += self.select_subspace(n_point=n_point - len(idx))
-        # calling `ask` methods from BO's from each subspace
+        fixed = {} if fixed is None else fixed
+        # the subspaces in which the fixed variables can take their values
+        subspaces = [
+            i
+            for i, (d, cs) in enumerate(self.subspaces)
+            if all(d[k] == v if k in d else k in cs.var_name for k, v in fixed.items())
+        ]
+        if len(subspaces) == 0:
+            raise AskEmptyError()
+        pending = list(self._init_gen)
         try:
-            X = [self._bo[i].ask()[0] for i in idx]
+            # initial DoE
+            idx = [i for i in pending if i in subspaces][:n_point]
+            # select subspaces/BOs
+            idx += self.select_subspace(n_point - len(idx), subspaces)
+            # calling `ask` methods from BO's from each subspace
+            X = []
+            for i in idx:
+                _fixed = {k: v for k, v in fixed.items() if k not in self._fixed_vars[i]}
+                X.append(self._bo[i].ask(fixed=_fixed or None)[0])
         except BaseException:  # the subspaces of a failed request remain to be tried
-            self._init_gen = iter(init + list(self._init_gen))
+            self._init_gen = iter(pending)
             raise
+        self._init_gen = iter([i for i in pending if i not in idx])
         # fill in the value for conditioning and irrelative variables (None)
         for i, k in enumerate(idx):
             X[i].update(self._fixed_vars[k])
-- 
2.43.0


From 110db1f33e997b6138b2dedb537fd12ef6b0f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 49/51] fix: ConditionalBO could not be constructed with
 warm-start data

---
 bayes_optim/extension.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index ab9541a..e8aafc0 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -211,11 +211,29 @@ class PCABO(BO):
 
 class ConditionalBO(ParallelBO):
     def __init__(self, **kwargs):
+        warm_data = kwargs.pop("warm_data", None)
         super().__init__(model=RandomForest(levels={}), **kwargs)
         self._create_optimizer(**kwargs)
         self._ucb = np.zeros(self.n_subspace)
         self._to_pheno = lambda x: x.to_dict()
         self._to_geno = lambda x, **kwargs: Solution.from_dict(x, var_name=self.var_names, **kwargs)
+        # NOTE: the warm data can only be taken when the subspaces are known
+        self.warm_data = warm_data
+
+    @ParallelBO.warm_data.setter
+    def warm_data(self, data):
+        assert self.iter_count == 0  # warm data should only be provided in the begining
+        if data is None or len(data) == 0:
+            self._warm_data = None
+        else:
+            X, y = data
+            index = None
+            if isinstance(X, Solution):
+                X, index = X.to_dict(), X.index.tolist()
+            self.tell(X, y, warm_start=True, index=index)
+            self._warm_data = self.data
+            # the initial DoE is only needed in the subspaces without data
+            self._init_gen = iter([i for i, bo in enumerate(self._bo) if not bo.model.is_fitted])
 
     def _create_optimizer(self, **kwargs):
         _kwargs = kwargs.copy()
@@ -320,7 +338,8 @@ class ConditionalBO(ParallelBO):
         X_ = self.post_eval_check(self._to_geno(X, fitness=func_vals, n_eval=1, index=index))
         if len(X_) > 0:
             self.data = self.data + X_ if hasattr(self, "data") else X_
-        self.eval_count += len(X)
+        if not warm_start:
+            self.eval_count += len(X)
 
         if self.data_file is not None and len(X_) > 0:
             X_.to_csv(self.data_file, header=False, append=True)
@@ -331,7 +350,7 @@ class ConditionalBO(ParallelBO):
             x = {key: X[i][key] for key in self.subspaces[k][1].var_name}
             try:
                 label = None if index is None else [index[i]]
-                self._bo[k].tell([x], [func_vals[i]], index=label, **kwargs)
+                self._bo[k].tell([x], [func_vals[i]], index=label, warm_start=warm_start, **kwargs)
             except Exception as e:  # the other subspaces should get their data nonetheless
                 error = e if error is None else error
         if error is not None:
-- 
2.43.0


From 1d8865772258c67ded35b801cd56fd00b9e74707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 50/51] fix: constraint functions did not get the selecting
 variables in ConditionalBO

---
 bayes_optim/extension.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index e8aafc0..0d0180b 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -243,6 +243,8 @@ class ConditionalBO(ParallelBO):
         _kwargs.pop("eval_type", None)
         _kwargs.pop("model", None)
         _kwargs.pop("data_file", None)  # the subspaces have different variables
+        _kwargs.pop("eq_fun", None)
+        _kwargs.pop("ineq_fun", None)
         self.subspaces = self.search_space.get_unconditional_subspace()
         self._bo = [
             BO(
@@ -251,14 +253,23 @@ class ConditionalBO(ParallelBO):
                 n_point=1,
                 eval_type="dict",
                 model=RandomForest(levels=cs.levels),
+                eq_fun=self._with_all_vars(self.h, fixed),
+                ineq_fun=self._with_all_vars(self.g, fixed),
                 **_kwargs,
             )
-            for _, cs in self.subspaces
+            for fixed, cs in self.subspaces
         ]
         self.n_subspace = len(self.subspaces)
         self._init_gen = iter(range(self.n_subspace))
         self._fixed_vars = [d for d, _ in self.subspaces]
 
+    def _with_all_vars(self, func: Callable, fixed: Dict) -> Callable:
+        """let a constraint function take all the variables, as the objective function does"""
+        if func is None:
+            return None
+        var_names = list(self.var_names)
+        return lambda x: func({**dict.fromkeys(var_names), **fixed, **x})
+
     @classmethod
     def load(cls, filename: str) -> ConditionalBO:
         obj = super().load(filename)
-- 
2.43.0


From b91bab770e3adcf6df5f4c97c1370aa651e00e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:48 +0000
Subject: [PATCH 51/51] fix: ConditionalBO could propose the same point several
 times in one request

---
 bayes_optim/extension.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bayes_optim/extension.py b/bayes_optim/extension.py
index 0d0180b..b1eedb7 100644
--- a/bayes_optim/extension.py
+++ b/bayes_optim/extension.py
@@ -310,10 +310,20 @@ class ConditionalBO(ParallelBO):
             # select subspaces/BOs
             idx += self.select_subspace(n_point - len(idx), subspaces)
             # calling `ask` methods from BO's from each subspace
-            X = []
+            points, taken = [], {i: [] for i in idx}
             for i in idx:
-                _fixed = {k: v for k, v in fixed.items() if k not in self._fixed_vars[i]}
-                X.append(self._bo[i].ask(fixed=_fixed or None)[0])
+                bo, n = self._bo[i], len(taken[i])
+                _fixed = {k: v for k, v in fixed.items() if k not in self._fixed_vars[i]} or None
+                x = bo.ask(fixed=_fixed)[0]
+                # NOTE: a subspace can be selected more than once, where it should give different points
+                taken[i] = bo.pre_eval_check(taken[i] + [[x[k] for k in bo.var_names]])
+                for _ in range(3):
+                    if len(taken[i]) > n:
+                        break
+                    taken[i] = bo.pre_eval_check(taken[i] + bo.create_DoE(1, fixed=_fixed))
+                if len(taken[i]) > n:
+                    points.append((i, dict(zip(bo.var_names, taken[i][-1]))))
+            idx, X = [i for i, _ in points], [x for _, x in points]
         except BaseException:  # the subspaces of a failed request remain to be tried
             self._init_gen = iter(pending)
             raise
-- 
2.43.0

