From b9040be7baf8f31fb78194320c5e3159c35949cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 01/48] fix: nearest neighbour expectations no longer modify
 the ensemble

expected_av_nn_property and expected_av_nn_degree temporarily overwrote
self.selfloops and dropped cached degrees. An exception in between (failed
job, interrupt, wrong ndir) or a concurrent query left or saw the wrong
option, and the cached result ignored the selfloops argument.
---
 src/graph_ensembles/models.py                 |  79 +++++------
 src/graph_ensembles/spark/models.py           | 133 ++++++++----------
 .../sparse/models/ensembles.py                |  66 ++++-----
 src/graph_ensembles/sparse/models/random.py   |  13 +-
 4 files changed, 127 insertions(+), 164 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index df3b200..8480588 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -7,6 +7,7 @@ import numpy as np
 import numpy.random as rng
 import scipy.sparse as sp
 import warnings
+from copy import copy
 from numba import jit
 from math import exp
 from math import expm1
@@ -164,6 +165,17 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return self._exp_in_degree
 
+    def _with_selfloops(self, selfloops):
+        """Return a shallow copy of the ensemble with the given selfloops
+        option and without the cached degrees that depend on it.
+        """
+        model = copy(self)
+        model.selfloops = selfloops
+        for name in ("_exp_degree", "_exp_out_degree", "_exp_in_degree"):
+            model.__dict__.pop(name, None)
+
+        return model
+
     def expected_av_nn_property(
         self, prop, ndir="out", selfloops=False, deg_recompute=False
     ):
@@ -182,13 +194,14 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -220,16 +233,6 @@ class DiGraphEnsemble(GraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
-
         return av_nn
 
     def expected_av_nn_degree(
@@ -246,44 +249,37 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        if selfloops is None:
+            selfloops = self.selfloops
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
+        if selfloops:
+            name += "_selfloops"
 
         if not hasattr(self, name) or recompute or deg_recompute:
-            # Set selfloops option
-            tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
-                deg_recompute = True
-                self.selfloops = selfloops
+            # If the selfloops option is not the one of the ensemble use a copy,
+            # such that the ensemble is never modified
+            model = self
+            if selfloops != self.selfloops:
+                model = self._with_selfloops(selfloops)
 
             # Compute correct expected degree
             if ddir == "out":
-                deg = self.expected_out_degree(recompute=deg_recompute)
+                deg = model.expected_out_degree(recompute=deg_recompute)
             elif ddir == "in":
-                deg = self.expected_in_degree(recompute=deg_recompute)
+                deg = model.expected_in_degree(recompute=deg_recompute)
             elif ddir == "out-in":
-                deg = self.expected_degree(recompute=deg_recompute)
+                deg = model.expected_degree(recompute=deg_recompute)
             else:
                 raise ValueError("Degree type not recognised.")
 
             # Compute property and set attribute
-            res = self.expected_av_nn_property(
+            res = model.expected_av_nn_property(
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
 
-            # Restore model self-loops properties if they have been modified
-            if tmp_self != self.selfloops:
-                self.selfloops = tmp_self
-                if hasattr(self, "_exp_out_degree"):
-                    del self._exp_out_degree
-                if hasattr(self, "_exp_in_degree"):
-                    del self._exp_in_degree
-                if hasattr(self, "_exp_degree"):
-                    del self._exp_degree
-
         return getattr(self, name)
 
     def log_likelihood(self, g, selfloops=None):
@@ -772,13 +768,14 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -811,10 +808,6 @@ class RandomDiGraph(DiGraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-
         return av_nn
 
     def log_likelihood(self, g, selfloops=None):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index ece4f12..25a4358 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -7,6 +7,7 @@ import numpy as np
 import numpy.random as rng
 import scipy.sparse as sp
 import warnings
+from copy import copy
 from numba import jit
 from math import floor
 from math import exp
@@ -193,6 +194,17 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return self._exp_in_degree
 
+    def _with_selfloops(self, selfloops):
+        """Return a shallow copy of the ensemble with the given selfloops
+        option and without the cached degrees that depend on it.
+        """
+        model = copy(self)
+        model.selfloops = selfloops
+        for name in ("_exp_degree", "_exp_out_degree", "_exp_in_degree"):
+            model.__dict__.pop(name, None)
+
+        return model
+
     def expected_av_nn_property(
         self, prop, ndir="out", selfloops=False, deg_recompute=False
     ):
@@ -211,13 +223,14 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -249,16 +262,6 @@ class DiGraphEnsemble(GraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
-
         return av_nn
 
     def expected_av_nn_degree(
@@ -275,44 +278,37 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        if selfloops is None:
+            selfloops = self.selfloops
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
+        if selfloops:
+            name += "_selfloops"
 
         if not hasattr(self, name) or recompute or deg_recompute:
-            # Set selfloops option
-            tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
-                deg_recompute = True
-                self.selfloops = selfloops
+            # If the selfloops option is not the one of the ensemble use a copy,
+            # such that the ensemble is never modified
+            model = self
+            if selfloops != self.selfloops:
+                model = self._with_selfloops(selfloops)
 
             # Compute correct expected degree
             if ddir == "out":
-                deg = self.expected_out_degree(recompute=deg_recompute)
+                deg = model.expected_out_degree(recompute=deg_recompute)
             elif ddir == "in":
-                deg = self.expected_in_degree(recompute=deg_recompute)
+                deg = model.expected_in_degree(recompute=deg_recompute)
             elif ddir == "out-in":
-                deg = self.expected_degree(recompute=deg_recompute)
+                deg = model.expected_degree(recompute=deg_recompute)
             else:
                 raise ValueError("Degree type not recognised.")
 
             # Compute property and set attribute
-            res = self.expected_av_nn_property(
+            res = model.expected_av_nn_property(
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
 
-            # Restore model self-loops properties if they have been modified
-            if tmp_self != self.selfloops:
-                self.selfloops = tmp_self
-                if hasattr(self, "_exp_out_degree"):
-                    del self._exp_out_degree
-                if hasattr(self, "_exp_in_degree"):
-                    del self._exp_in_degree
-                if hasattr(self, "_exp_degree"):
-                    del self._exp_degree
-
         return getattr(self, name)
 
     def log_likelihood(self, g, selfloops=None):
@@ -1135,13 +1131,14 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -1174,10 +1171,6 @@ class RandomDiGraph(DiGraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-
         return av_nn
 
     def log_likelihood(self, g, selfloops=None):
@@ -2143,13 +2136,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -2195,16 +2189,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
-
         return av_nn
 
     def expected_av_nn_degree(
@@ -2221,44 +2205,37 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Ensemble has to be fitted before.")
 
+        if selfloops is None:
+            selfloops = self.selfloops
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
+        if selfloops:
+            name += "_selfloops"
 
         if not hasattr(self, name) or recompute or deg_recompute:
-            # Set selfloops option
-            tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
-                deg_recompute = True
-                self.selfloops = selfloops
+            # If the selfloops option is not the one of the ensemble use a copy,
+            # such that the ensemble is never modified
+            model = self
+            if selfloops != self.selfloops:
+                model = self._with_selfloops(selfloops)
 
             # Compute correct expected degree
             if ddir == "out":
-                deg = self.expected_out_degree(recompute=deg_recompute)
+                deg = model.expected_out_degree(recompute=deg_recompute)
             elif ddir == "in":
-                deg = self.expected_in_degree(recompute=deg_recompute)
+                deg = model.expected_in_degree(recompute=deg_recompute)
             elif ddir == "out-in":
-                deg = self.expected_degree(recompute=deg_recompute)
+                deg = model.expected_degree(recompute=deg_recompute)
             else:
                 raise ValueError("Degree type not recognised.")
 
             # Compute property and set attribute
-            res = self.expected_av_nn_property(
+            res = model.expected_av_nn_property(
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
 
-            # Restore model self-loops properties if they have been modified
-            if tmp_self != self.selfloops:
-                self.selfloops = tmp_self
-                if hasattr(self, "_exp_out_degree"):
-                    del self._exp_out_degree
-                if hasattr(self, "_exp_in_degree"):
-                    del self._exp_in_degree
-                if hasattr(self, "_exp_degree"):
-                    del self._exp_degree
-
         return getattr(self, name)
 
     def log_likelihood(self, g, selfloops=None):
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 424ee6e..6c982a4 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -5,6 +5,7 @@ from .. import graphs
 import numpy as np
 import numpy.random as rng
 import scipy.sparse as sp
+from copy import copy
 from numba import jit
 from math import isinf
 from numba import float64
@@ -158,6 +159,17 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return self._exp_in_degree
 
+    def _with_selfloops(self, selfloops):
+        """Return a shallow copy of the ensemble with the given selfloops
+        option and without the cached degrees that depend on it.
+        """
+        model = copy(self)
+        model.selfloops = selfloops
+        for name in ("_exp_degree", "_exp_out_degree", "_exp_in_degree"):
+            model.__dict__.pop(name, None)
+
+        return model
+
     def expected_av_nn_property(
         self, prop, ndir="out", selfloops=False, deg_recompute=False
     ):
@@ -176,13 +188,14 @@ class DiGraphEnsemble(GraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -214,16 +227,6 @@ class DiGraphEnsemble(GraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-            if hasattr(self, "_exp_out_degree"):
-                del self._exp_out_degree
-            if hasattr(self, "_exp_in_degree"):
-                del self._exp_in_degree
-            if hasattr(self, "_exp_degree"):
-                del self._exp_degree
-
         return av_nn
 
     def expected_av_nn_degree(
@@ -240,44 +243,37 @@ class DiGraphEnsemble(GraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
+        if selfloops is None:
+            selfloops = self.selfloops
+
         # Compute property name
         name = "exp_av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
+        if selfloops:
+            name += "_selfloops"
 
         if not hasattr(self, name) or recompute or deg_recompute:
-            # Set selfloops option
-            tmp_self = self.selfloops
-            if selfloops is None:
-                selfloops = self.selfloops
-            elif selfloops != self.selfloops:
-                deg_recompute = True
-                self.selfloops = selfloops
+            # If the selfloops option is not the one of the ensemble use a copy,
+            # such that the ensemble is never modified
+            model = self
+            if selfloops != self.selfloops:
+                model = self._with_selfloops(selfloops)
 
             # Compute correct expected degree
             if ddir == "out":
-                deg = self.expected_out_degree(recompute=deg_recompute)
+                deg = model.expected_out_degree(recompute=deg_recompute)
             elif ddir == "in":
-                deg = self.expected_in_degree(recompute=deg_recompute)
+                deg = model.expected_in_degree(recompute=deg_recompute)
             elif ddir == "out-in":
-                deg = self.expected_degree(recompute=deg_recompute)
+                deg = model.expected_degree(recompute=deg_recompute)
             else:
                 raise ValueError("Degree type not recognised.")
 
             # Compute property and set attribute
-            res = self.expected_av_nn_property(
+            res = model.expected_av_nn_property(
                 deg, ndir=ndir, selfloops=selfloops, deg_recompute=False
             )
             setattr(self, name, res)
 
-            # Restore model self-loops properties if they have been modified
-            if tmp_self != self.selfloops:
-                self.selfloops = tmp_self
-                if hasattr(self, "_exp_out_degree"):
-                    del self._exp_out_degree
-                if hasattr(self, "_exp_in_degree"):
-                    del self._exp_in_degree
-                if hasattr(self, "_exp_degree"):
-                    del self._exp_degree
-
         return getattr(self, name)
 
     def log_likelihood(self, g, selfloops=None):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 8dcebfe..937e32b 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -232,13 +232,14 @@ class RandomDiGraph(DiGraphEnsemble):
             )
             raise ValueError(msg)
 
-        # Set selfloops option
-        tmp_self = self.selfloops
+        # If the selfloops option is not the one of the ensemble use a copy, such
+        # that the ensemble is never modified, even if this function fails
         if selfloops is None:
             selfloops = self.selfloops
         elif selfloops != self.selfloops:
-            deg_recompute = True
-            self.selfloops = selfloops
+            return self._with_selfloops(selfloops).expected_av_nn_property(
+                prop, ndir=ndir, selfloops=selfloops, deg_recompute=True
+            )
 
         # Compute correct expected degree
         if ndir == "out":
@@ -271,10 +272,6 @@ class RandomDiGraph(DiGraphEnsemble):
         # Average results
         av_nn[ind] = av_nn[ind] / deg[ind]
 
-        # Restore model self-loops properties if they have been modified
-        if tmp_self != self.selfloops:
-            self.selfloops = tmp_self
-
         return av_nn
 
     def log_likelihood(self, g, selfloops=None):
-- 
2.43.0


From 779c943a616f5959c8946df0dfac84f362ae1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 02/48] fix: per label fit publishes parameters only when all
 layers are fitted

A failed or interrupted per label fit left the initial conditions (or a mix of
old and new values) as the fitted parameters, so that the ensemble could be
queried and sampled with them. An integer x0 also truncated the solution.
---
 src/graph_ensembles/models.py                | 14 ++++++++-----
 src/graph_ensembles/spark/models.py          | 21 ++++++++++----------
 src/graph_ensembles/sparse/models/fitness.py | 14 ++++++++-----
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 8480588..413b8a3 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -2149,8 +2149,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         "solver with per_label option."
                     )
 
-                self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                solver_output = [None] * self.num_labels
+                param = np.array(x0, dtype=np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 for i in range(self.num_labels):
@@ -2171,10 +2171,14 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         verbose=verbose,
                     )
 
-                    # Update results and check convergence
-                    self.param[i] = sol.x[0]
-                    self.solver_output[i] = sol
+                    param[i] = sol.x[0]
+                    solver_output[i] = sol
 
+                # Update results only once all layers have been fitted
+                self.param, self.solver_output = param, solver_output
+
+                # Check convergence
+                for i, sol in enumerate(self.solver_output):
                     if not sol.converged:
                         msg = "Fit of layer {} ".format(i) + "did not converge."
                         warnings.warn(msg, UserWarning)
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 25a4358..e320590 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3463,9 +3463,6 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         "solver with per_label option."
                     )
 
-                self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
-
                 # Initialize each layer with solver function
                 d_fit = self.density_fit_layer
                 f_jac = self.exp_edges_f_jac_layer
@@ -3496,13 +3493,17 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Collect solution to array
-                self.param = x0.copy()
-                self.solver_output = [None] * self.num_labels
-                tmp = sol_rdd.collect()
-                for i, sol in tmp:
-                    # Update results and check convergence
-                    self.param[i] = sol.x[0]
-                    self.solver_output[i] = sol
+                param = np.array(x0, dtype=np.float64)
+                solver_output = [None] * self.num_labels
+                for i, sol in sol_rdd.collect():
+                    param[i] = sol.x[0]
+                    solver_output[i] = sol
+
+                # Update results only once all layers have been fitted
+                self.param, self.solver_output = param, solver_output
+
+                # Check convergence
+                for i, sol in enumerate(self.solver_output):
                     if not sol.converged:
                         msg = "Fit of layer {}, did not converge.".format(i)
                         warnings.warn(msg, UserWarning)
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 6a02a46..8900ea2 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -630,8 +630,8 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         "solver with per_label option."
                     )
 
-                self.solver_output = [None] * self.num_labels
-                self.param = x0.copy()
+                solver_output = [None] * self.num_labels
+                param = np.array(x0, dtype=np.float64)
 
                 # Transform properties to csc format to select labels quickly
                 prop_out = sp.csr_array(
@@ -667,10 +667,14 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                         verbose=verbose,
                     )
 
-                    # Update results and check convergence
-                    self.param[i] = sol.x[0]
-                    self.solver_output[i] = sol
+                    param[i] = sol.x[0]
+                    solver_output[i] = sol
 
+                # Update results only once all layers have been fitted
+                self.param, self.solver_output = param, solver_output
+
+                # Check convergence
+                for i, sol in enumerate(self.solver_output):
                     if not sol.converged:
                         msg = "Fit of layer {} ".format(i) + "did not converge."
                         warnings.warn(msg, UserWarning)
-- 
2.43.0


From b7f4dab093525a897976fc6ce01916995784554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 03/48] fix: spark expected_num_edges checks its own cache

The multigraph version tested for the cached number of edges by label, hence it
raised AttributeError if expected_num_edges_label had been called before.
---
 src/graph_ensembles/spark/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index e320590..0f307b5 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1932,7 +1932,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         if not hasattr(self, "param"):
             raise Exception("Model must be fitted beforehand.")
 
-        if not hasattr(self, "_exp_num_edges_label") or recompute:
+        if not hasattr(self, "_exp_num_edges") or recompute:
             # It is necessary to select the elements or pickling will fail
             delta = self.param
             slflp = self.selfloops
-- 
2.43.0


From ceeb1bfadc65b7f356292d646ffae90b2c647ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 04/48] fix: spark expected_num_edges_label caches only
 complete results

The cache was set to zeros before the job ran, so that after a failed job the
method would return zeros.
---
 src/graph_ensembles/spark/models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 0f307b5..17647b0 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1988,11 +1988,11 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             )
 
             # Collect and assign results for each layer
-            self._exp_num_edges_label = np.zeros(self.num_labels, dtype=np.float64)
-            tmp = tmp_rdd.collect()
-            for i, v in tmp:
-                # Update results and check convergence
-                self._exp_num_edges_label[i] = v
+            exp_num_edges_label = np.zeros(self.num_labels, dtype=np.float64)
+            for i, v in tmp_rdd.collect():
+                exp_num_edges_label[i] = v
+
+            self._exp_num_edges_label = exp_num_edges_label
 
         return self._exp_num_edges_label
 
-- 
2.43.0


From e8ccd4920eec60cfd02a270f06088bdf81e805db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 05/48] fix: count each pair once in the expected degrees by
 label

In the sparse and spark multigraph ensembles pairs of vertices that can be
linked in both directions were counted twice, so that the expected degrees by
label did not sum to the expected number of edges by label.
---
 src/graph_ensembles/spark/models.py            | 4 ++++
 src/graph_ensembles/sparse/models/ensembles.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 17647b0..03f8797 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2725,6 +2725,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     pij = p_ijk(param, f_out_i, f_in_j, pdyad(ind_i, ind_j))
 
                     if (ind_i in ind_in) and (ind_j in ind_out):
+                        # The loop finds this pair twice: count it only once
+                        if ind_i > ind_j:
+                            continue
+
                         f_in_i = prop_in[np.where(ind_in == ind_i)][0]
                         f_out_j = prop_out[np.where(ind_out == ind_j)][0]
                         pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_i, ind_j))
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 6c982a4..f2f0bc4 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1004,6 +1004,11 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         p_out_j = 0.0
 
                     if i != j:
+                        # If both directions are possible the loop finds the pair
+                        # twice, but it must be counted only once
+                        if (i > j) and np.any(loc_i) and np.any(loc_j):
+                            continue
+
                         pij = p_ijk(param[lbl], p_out_i, p_in_j, prop_dyad(i, j))
                         pji = p_ijk(param[lbl], p_out_j, p_in_i, prop_dyad(j, i))
                         p = pij + pji - pij * pji
-- 
2.43.0


From c49e0ead2992e142c9df66fc7f9c7b1816373037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 06/48] fix: spark expected out/in degree by label honour
 recompute

---
 src/graph_ensembles/spark/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 03f8797..6b8564f 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2107,14 +2107,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
     def expected_out_degree_by_label(self, recompute=False):
         """Compute the expected out degree."""
         if not hasattr(self, "_exp_out_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_out_degree_label
 
     def expected_in_degree_by_label(self, recompute=False):
         """Compute the expected in degree."""
         if not hasattr(self, "_exp_in_degree_label") or recompute:
-            _ = self.expected_degree_by_label()
+            _ = self.expected_degree_by_label(recompute=recompute)
 
         return self._exp_in_degree_label
 
-- 
2.43.0


From 247062a68c25155cba0cf6c5bd3eb0c45bc9169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:41 +0000
Subject: [PATCH 07/48] fix: sparse expected_degree_by_label caches only
 complete results

An interrupted call left a partially filled matrix as the cached result.
---
 .../sparse/models/ensembles.py                | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index f2f0bc4..76fcdfa 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -662,19 +662,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.num_labels,
                 self.selfloops,
             )
-            self._exp_degree_label = sp.dok_array((self.num_vertices, self.num_labels))
-            self._exp_degree_label._update(res[0])
-            self._exp_degree_label = self._exp_degree_label.tocsr()
-            self._exp_out_degree_label = sp.dok_array(
-                (self.num_vertices, self.num_labels)
-            )
-            self._exp_out_degree_label._update(res[1])
-            self._exp_out_degree_label = self._exp_out_degree_label.tocsr()
-            self._exp_in_degree_label = sp.dok_array(
-                (self.num_vertices, self.num_labels)
-            )
-            self._exp_in_degree_label._update(res[2])
-            self._exp_in_degree_label = self._exp_in_degree_label.tocsr()
+            # Set attributes only once they are complete
+            shape = (self.num_vertices, self.num_labels)
+            exp_deg = [sp.dok_array(shape), sp.dok_array(shape), sp.dok_array(shape)]
+            for dok, values in zip(exp_deg, res):
+                dok._update(values)
+            self._exp_degree_label = exp_deg[0].tocsr()
+            self._exp_out_degree_label = exp_deg[1].tocsr()
+            self._exp_in_degree_label = exp_deg[2].tocsr()
 
         return self._exp_degree_label
 
-- 
2.43.0


From c74e58c20bf8bf1cdd87e15498f9445d21e8e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:13 +0000
Subject: [PATCH 08/48] fix: discard cached expectations when the parameters
 are refitted

After a new fit the expected_* methods kept returning the values computed with
the previous parameters.
---
 src/graph_ensembles/models.py                    | 13 +++++++++++--
 src/graph_ensembles/spark/models.py              | 13 +++++++++++--
 src/graph_ensembles/sparse/models/conditional.py |  4 ++--
 src/graph_ensembles/sparse/models/ensembles.py   |  6 ++++++
 src/graph_ensembles/sparse/models/fitness.py     |  6 ++++--
 src/graph_ensembles/sparse/models/random.py      |  1 +
 6 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 413b8a3..a61adde 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -165,6 +165,12 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return self._exp_in_degree
 
+    def _clear_expectations(self):
+        """Remove all cached expected values as they depend on the parameters."""
+        for name in list(self.__dict__):
+            if name.startswith(("_exp_", "exp_av_")):
+                self.__dict__.pop(name, None)
+
     def _with_selfloops(self, selfloops):
         """Return a shallow copy of the ensemble with the given selfloops
         option and without the cached degrees that depend on it.
@@ -695,6 +701,7 @@ class RandomDiGraph(DiGraphEnsemble):
         else:
             q = 0
 
+        self._clear_expectations()
         self.param = np.array([p, q])
 
     def expected_num_edges(self, recompute=False):
@@ -1243,8 +1250,8 @@ class FitnessModel(DiGraphEnsemble):
             raise ValueError("The selected method is not valid.")
 
         # Update results and check convergence
-        self.param = sol.x
-        self.solver_output = sol
+        self._clear_expectations()
+        self.param, self.solver_output = sol.x, sol
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
@@ -2175,6 +2182,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     solver_output[i] = sol
 
                 # Update results only once all layers have been fitted
+                self._clear_expectations()
                 self.param, self.solver_output = param, solver_output
 
                 # Check convergence
@@ -2201,6 +2209,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Update results and check convergence
+                self._clear_expectations()
                 self.param = np.array([sol.x[0]] * self.num_labels)
                 self.solver_output = sol
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 6b8564f..2540bc1 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -194,6 +194,12 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return self._exp_in_degree
 
+    def _clear_expectations(self):
+        """Remove all cached expected values as they depend on the parameters."""
+        for name in list(self.__dict__):
+            if name.startswith(("_exp_", "exp_av_")):
+                self.__dict__.pop(name, None)
+
     def _with_selfloops(self, selfloops):
         """Return a shallow copy of the ensemble with the given selfloops
         option and without the cached degrees that depend on it.
@@ -1055,6 +1061,7 @@ class RandomDiGraph(DiGraphEnsemble):
         else:
             q = 0
 
+        self._clear_expectations()
         self.param = np.array([p, q])
 
     def expected_num_edges(self, recompute=False):
@@ -1680,8 +1687,8 @@ class FitnessModel(DiGraphEnsemble):
             raise ValueError("The selected method is not valid.")
 
         # Update results and check convergence
-        self.param = sol.x
-        self.solver_output = sol
+        self._clear_expectations()
+        self.param, self.solver_output = sol.x, sol
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
@@ -3504,6 +3511,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     solver_output[i] = sol
 
                 # Update results only once all layers have been fitted
+                self._clear_expectations()
                 self.param, self.solver_output = param, solver_output
 
                 # Check convergence
@@ -3531,6 +3539,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Update results and check convergence
+                self._clear_expectations()
                 self.param = np.array([sol.x[0]] * self.num_labels)
                 self.solver_output = sol
 
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 5fd068c..0f561da 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -496,8 +496,8 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             raise ValueError("The selected method is not valid.")
 
         # Update results and check convergence
-        self.param = sol.x
-        self.solver_output = sol
+        self._clear_expectations()
+        self.param, self.solver_output = sol.x, sol
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 76fcdfa..b05c130 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -159,6 +159,12 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return self._exp_in_degree
 
+    def _clear_expectations(self):
+        """Remove all cached expected values as they depend on the parameters."""
+        for name in list(self.__dict__):
+            if name.startswith(("_exp_", "exp_av_")):
+                self.__dict__.pop(name, None)
+
     def _with_selfloops(self, selfloops):
         """Return a shallow copy of the ensemble with the given selfloops
         option and without the cached degrees that depend on it.
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 8900ea2..74269f7 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -229,8 +229,8 @@ class FitnessModel(DiGraphEnsemble):
             raise ValueError("The selected method is not valid.")
 
         # Update results and check convergence
-        self.param = sol.x
-        self.solver_output = sol
+        self._clear_expectations()
+        self.param, self.solver_output = sol.x, sol
 
         if not self.solver_output.converged:
             warnings.warn("Fit did not converge", UserWarning)
@@ -671,6 +671,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                     solver_output[i] = sol
 
                 # Update results only once all layers have been fitted
+                self._clear_expectations()
                 self.param, self.solver_output = param, solver_output
 
                 # Check convergence
@@ -697,6 +698,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
                 )
 
                 # Update results and check convergence
+                self._clear_expectations()
                 self.param = np.array([sol.x[0]] * self.num_labels)
                 self.solver_output = sol
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 937e32b..d97f7ff 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -159,6 +159,7 @@ class RandomDiGraph(DiGraphEnsemble):
         else:
             q = 0
 
+        self._clear_expectations()
         self.param = np.array([p, q])
 
     def expected_num_edges(self, recompute=False):
-- 
2.43.0


From 721d1e7b5a61d0bd5d50e5d2b1733ab9206e1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 09/48] fix: graph constructors leave the dataframes passed
 unchanged

---
 src/graph_ensembles/graphs.py        | 59 +++++++++++++++++-----------
 src/graph_ensembles/sparse/graphs.py | 59 +++++++++++++++++-----------
 2 files changed, 72 insertions(+), 46 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 227a1e1..752a7a9 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -112,6 +112,9 @@ class Graph:
         num_bytes = self.get_num_bytes(self.num_vertices)
         self.id_dtype = np.dtype("u" + str(num_bytes))
 
+        # Do not add columns to the dataframe passed by the caller
+        v = v.copy(deep=False)
+
         # Get dictionary of id to internal id (_id)
         # also checks that no id in v is repeated
         try:
@@ -149,27 +152,8 @@ class Graph:
                 .values.astype(self.group_dtype)
             )
 
-        # Check that no vertex id in e is not present in v
-        # and generate optimized edge list
-        if isinstance(src, list) and isinstance(dst, list):
-            e["_src"] = list(zip(*[e[x] for x in src]))
-            e["_dst"] = list(zip(*[e[x] for x in dst]))
-        elif isinstance(src, str) and isinstance(dst, str):
-            e["_src"] = e[src]
-            e["_dst"] = e[dst]
-        else:
-            raise ValueError("src and dst can be either both lists or str.")
-
-        msg = "Some vertices in e are not in v."
-        e["_src"] = e["_src"].map(lambda x: self.id_dict.get(x))
-        e["_dst"] = e["_dst"].map(lambda x: self.id_dict.get(x))
-
-        # Check for nans
-        assert not (np.any(np.isnan(e["_src"])) or np.any(np.isnan(e["_dst"]))), msg
-
-        # Extract values
-        src_array = e["_src"].values.astype(self.id_dtype)
-        dst_array = e["_dst"].values.astype(self.id_dtype)
+        # Generate optimized edge list
+        src_array, dst_array = self.edge_indices(e, src, dst)
 
         # Construct adjacency matrix
         if weight is not None:
@@ -344,6 +328,35 @@ class Graph:
 
         return G
 
+    def edge_indices(self, e, src, dst):
+        """Return the arrays with the internal ids of the source and of the
+        destination of each edge.
+        """
+        # If column names are passed as lists with one elements extract str
+        if isinstance(src, list) and len(src) == 1:
+            src = src[0]
+        if isinstance(dst, list) and len(dst) == 1:
+            dst = dst[0]
+
+        if isinstance(src, list) and isinstance(dst, list):
+            e_src = pd.Series(list(zip(*[e[x] for x in src])), dtype=object)
+            e_dst = pd.Series(list(zip(*[e[x] for x in dst])), dtype=object)
+        elif isinstance(src, str) and isinstance(dst, str):
+            e_src = e[src]
+            e_dst = e[dst]
+        else:
+            raise ValueError("src and dst can be either both lists or str.")
+
+        # Check that no vertex id in e is not present in v
+        msg = "Some vertices in e are not in v."
+        e_src = e_src.map(lambda x: self.id_dict.get(x))
+        e_dst = e_dst.map(lambda x: self.id_dict.get(x))
+
+        # Check for nans
+        assert not (np.any(np.isnan(e_src)) or np.any(np.isnan(e_dst))), msg
+
+        return e_src.values.astype(self.id_dtype), e_dst.values.astype(self.id_dtype)
+
     @staticmethod
     def get_num_bytes(num_items):
         """Determine the number of bytes needed for storing ids for num_items."""
@@ -824,6 +837,7 @@ class MultiGraph(Graph):
             edge_label = edge_label[0]
 
         # Get dictionary of label to numeric internal label
+        e = e.copy(deep=False)
         if isinstance(edge_label, list):
             e["_label"] = list(zip(*[e[x] for x in edge_label]))
         else:
@@ -837,8 +851,7 @@ class MultiGraph(Graph):
         # Convert labels to construct adjacency matrix by layer
         e["_label"] = e["_label"].map(lambda x: self.label_dict.get(x))
         lbl_array = e["_label"].values.astype(self.label_dtype)
-        src_array = e["_src"].values.astype(self.id_dtype)
-        dst_array = e["_dst"].values.astype(self.id_dtype)
+        src_array, dst_array = self.edge_indices(e, src, dst)
 
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index e4a826b..993f028 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -112,6 +112,9 @@ class Graph:
         num_bytes = self.get_num_bytes(self.num_vertices)
         self.id_dtype = np.dtype("u" + str(num_bytes))
 
+        # Do not add columns to the dataframe passed by the caller
+        v = v.copy(deep=False)
+
         # Get dictionary of id to internal id (_id)
         # also checks that no id in v is repeated
         try:
@@ -149,27 +152,8 @@ class Graph:
                 .values.astype(self.group_dtype)
             )
 
-        # Check that no vertex id in e is not present in v
-        # and generate optimized edge list
-        if isinstance(src, list) and isinstance(dst, list):
-            e["_src"] = list(zip(*[e[x] for x in src]))
-            e["_dst"] = list(zip(*[e[x] for x in dst]))
-        elif isinstance(src, str) and isinstance(dst, str):
-            e["_src"] = e[src]
-            e["_dst"] = e[dst]
-        else:
-            raise ValueError("src and dst can be either both lists or str.")
-
-        msg = "Some vertices in e are not in v."
-        e["_src"] = e["_src"].map(lambda x: self.id_dict.get(x))
-        e["_dst"] = e["_dst"].map(lambda x: self.id_dict.get(x))
-
-        # Check for nans
-        assert not (np.any(np.isnan(e["_src"])) or np.any(np.isnan(e["_dst"]))), msg
-
-        # Extract values
-        src_array = e["_src"].values.astype(self.id_dtype)
-        dst_array = e["_dst"].values.astype(self.id_dtype)
+        # Generate optimized edge list
+        src_array, dst_array = self.edge_indices(e, src, dst)
 
         # Construct adjacency matrix
         if weight is not None:
@@ -362,6 +346,35 @@ class Graph:
 
         return G
 
+    def edge_indices(self, e, src, dst):
+        """Return the arrays with the internal ids of the source and of the
+        destination of each edge.
+        """
+        # If column names are passed as lists with one elements extract str
+        if isinstance(src, list) and len(src) == 1:
+            src = src[0]
+        if isinstance(dst, list) and len(dst) == 1:
+            dst = dst[0]
+
+        if isinstance(src, list) and isinstance(dst, list):
+            e_src = pd.Series(list(zip(*[e[x] for x in src])), dtype=object)
+            e_dst = pd.Series(list(zip(*[e[x] for x in dst])), dtype=object)
+        elif isinstance(src, str) and isinstance(dst, str):
+            e_src = e[src]
+            e_dst = e[dst]
+        else:
+            raise ValueError("src and dst can be either both lists or str.")
+
+        # Check that no vertex id in e is not present in v
+        msg = "Some vertices in e are not in v."
+        e_src = e_src.map(lambda x: self.id_dict.get(x))
+        e_dst = e_dst.map(lambda x: self.id_dict.get(x))
+
+        # Check for nans
+        assert not (np.any(np.isnan(e_src)) or np.any(np.isnan(e_dst))), msg
+
+        return e_src.values.astype(self.id_dtype), e_dst.values.astype(self.id_dtype)
+
     @staticmethod
     def get_num_bytes(num_items):
         """Determine the number of bytes needed for storing ids for num_items."""
@@ -895,6 +908,7 @@ class MultiGraph(Graph):
             edge_label = edge_label[0]
 
         # Get dictionary of label to numeric internal label
+        e = e.copy(deep=False)
         if isinstance(edge_label, list):
             e["_label"] = list(zip(*[e[x] for x in edge_label]))
         else:
@@ -908,8 +922,7 @@ class MultiGraph(Graph):
         # Convert labels to construct adjacency matrix by layer
         e["_label"] = e["_label"].map(lambda x: self.label_dict.get(x))
         lbl_array = e["_label"].values.astype(self.label_dtype)
-        src_array = e["_src"].values.astype(self.id_dtype)
-        dst_array = e["_dst"].values.astype(self.id_dtype)
+        src_array, dst_array = self.edge_indices(e, src, dst)
 
         # Construct adjacency tensor with dimensions (label, src, dst)
         if weight is not None:
-- 
2.43.0


From b5b9f5e0fce3f0ae49800ca55a87a342dfbd03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:13 +0000
Subject: [PATCH 10/48] fix: graph average_nn_degree caches one result per
 selfloops option

---
 src/graph_ensembles/graphs.py        | 4 ++++
 src/graph_ensembles/sparse/graphs.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 752a7a9..718ec53 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -294,6 +294,8 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
+        if selfloops:
+            name += "_selfloops"
         if not hasattr(self, name) or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
@@ -670,6 +672,8 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
+        if selfloops:
+            name += "_selfloops"
         if not hasattr(self, name) or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 993f028..ae39726 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -312,6 +312,8 @@ class Graph:
         """Computes the average nearest neighbour degree of each node."""
         # Compute property name
         name = "av_nn_degree"
+        if selfloops:
+            name += "_selfloops"
         if not hasattr(self, name) or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
@@ -743,6 +745,8 @@ class DiGraph(Graph):
         """
         # Compute property name
         name = "av_" + ndir.replace("-", "_") + "_nn_d_" + ddir.replace("-", "_")
+        if selfloops:
+            name += "_selfloops"
         if not hasattr(self, name) or recompute or deg_recompute:
             if selfloops is None:
                 selfloops = self.selfloops
-- 
2.43.0


From 09742cd76650d6d9520d9f1658b5a9d3624ce49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:55 +0000
Subject: [PATCH 11/48] fix: weighted samples of the random digraph return the
 weights

---
 src/graph_ensembles/models.py               | 6 ++++--
 src/graph_ensembles/spark/models.py         | 6 ++++--
 src/graph_ensembles/sparse/models/random.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index a61adde..7c2f415 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -974,7 +974,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -992,7 +992,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1013,6 +1013,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 2540bc1..3ae034b 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1335,7 +1335,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1353,7 +1353,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -1374,6 +1374,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index d97f7ff..70e0f69 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -430,7 +430,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(1 / param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -448,7 +448,7 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.geometric(1 - param[1]))
 
-        return rows, cols
+        return rows, cols, vals
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
@@ -472,6 +472,8 @@ class RandomDiGraph(DiGraphEnsemble):
                         cols.append(j)
                         vals.append(rng.exponential(s_out[i] * s_in[j] / (s_tot * p)))
 
+        return rows, cols, vals
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def p_ij(param, x_i, y_j, z_ij):
-- 
2.43.0


From ba37e18ccdfea49465fed5a0db1b5d49933320b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:55 +0000
Subject: [PATCH 12/48] fix: expected_total_weight of the random digraph uses
 the fitted parameter

---
 src/graph_ensembles/models.py               | 4 ++--
 src/graph_ensembles/spark/models.py         | 4 ++--
 src/graph_ensembles/sparse/models/random.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 7c2f415..deba6d2 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -723,9 +723,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3ae034b..3b60381 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1083,9 +1083,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 70e0f69..799c0d5 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -181,9 +181,9 @@ class RandomDiGraph(DiGraphEnsemble):
             raise Exception("Ensemble has to be fitted before.")
 
         if self.discrete_weights:
-            self.exp_tot_weight = self.num_edges / (1 - self.q)
+            self.exp_tot_weight = self.expected_num_edges() / (1 - self.param[1])
         else:
-            self.exp_tot_weight = self.num_edges / self.q
+            self.exp_tot_weight = self.expected_num_edges() / self.param[1]
 
         return self.exp_tot_weight
 
-- 
2.43.0


From b3cf4f2e3eb251964da3441d3c1ba6d6af1a75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:11 +0000
Subject: [PATCH 13/48] fix: self loops count once in the random digraph
 neighbour average

---
 src/graph_ensembles/models.py               | 3 +++
 src/graph_ensembles/spark/models.py         | 3 +++
 src/graph_ensembles/sparse/models/random.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index deba6d2..f3351f1 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -804,6 +804,9 @@ class RandomDiGraph(DiGraphEnsemble):
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            else:
+                # A self loop is a single link
+                av_nn -= (self.param[0] - self.param[0] ** 2) * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3b60381..4916071 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1167,6 +1167,9 @@ class RandomDiGraph(DiGraphEnsemble):
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop, axis=0)
             if not self.selfloops:
                 av_nn -= (2 * self.param[0] - self.param[0] ** 2) * prop
+            else:
+                # A self loop is a single link
+                av_nn -= (self.param[0] - self.param[0] ** 2) * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 799c0d5..4826011 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -262,6 +262,9 @@ class RandomDiGraph(DiGraphEnsemble):
             av_nn[:] = np.sum((2 * self.param[0] - self.param[0] ** 2) * prop)
             if not self.selfloops:
                 av_nn += -(2 * self.param[0] - self.param[0] ** 2) * prop
+            else:
+                # A self loop is a single link
+                av_nn -= (self.param[0] - self.param[0] ** 2) * prop
         else:
             raise ValueError("Direction of neighbourhood not right.")
 
-- 
2.43.0


From 1f4a95476769b8577925988299b430149970390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:19 +0000
Subject: [PATCH 14/48] fix: sample and log_likelihood honour their selfloops
 argument

---
 src/graph_ensembles/models.py                  | 18 +++++++++---------
 src/graph_ensembles/spark/models.py            |  8 ++++----
 src/graph_ensembles/sparse/models/ensembles.py | 10 +++++-----
 src/graph_ensembles/sparse/models/random.py    |  8 ++++----
 4 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index f3351f1..1d49a50 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -327,7 +327,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_in,
             self.prop_dyad,
             adj,
-            self.selfloops,
+            selfloops,
         )
 
         return like
@@ -381,7 +381,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -398,7 +398,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             g.adj[rows, cols] = vals
@@ -915,7 +915,7 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             g.adj = np.zeros((g.num_vertices, g.num_vertices), dtype=bool)
             g.adj[rows, cols] = True
@@ -923,11 +923,11 @@ class RandomDiGraph(DiGraphEnsemble):
             g.adj = np.zeros((g.num_vertices, g.num_vertices))
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             g.adj[rows, cols] = vals
         elif weights == "cremb":
@@ -937,7 +937,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
             g.adj[rows, cols] = vals
         else:
@@ -1710,7 +1710,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -1722,7 +1722,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.prop_dyad,
                 s_out_l,
                 s_in_l,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4916071..7f6421e 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1276,17 +1276,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -1294,7 +1294,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index b05c130..eca838b 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -322,7 +322,7 @@ class DiGraphEnsemble(GraphEnsemble):
             self.prop_dyad,
             adj.indptr,
             adj.indices,
-            self.selfloops,
+            selfloops,
         )
 
         return like
@@ -376,7 +376,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_out,
                 self.prop_in,
                 self.prop_dyad,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -392,7 +392,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.prop_dyad,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
@@ -921,7 +921,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     prop_out[i],
                     prop_in[i],
                     self.prop_dyad,
-                    self.selfloops,
+                    selfloops,
                 )
                 vals = np.ones(len(rows), dtype=bool)
             elif weights == "cremb":
@@ -933,7 +933,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.prop_dyad,
                     s_out_l[i],
                     s_in_l[i],
-                    self.selfloops,
+                    selfloops,
                 )
             else:
                 raise ValueError("Weights method not recognised or implemented.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 4826011..7aa17e4 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -371,17 +371,17 @@ class RandomDiGraph(DiGraphEnsemble):
         # Sample edges
         if weights is None:
             rows, cols = self._binary_sample(
-                self.param, self.num_vertices, self.selfloops
+                self.param, self.num_vertices, selfloops
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "random":
             if self.discrete_weights:
                 rows, cols, vals = self._discrete_weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
             else:
                 rows, cols, vals = self._weighted_sample(
-                    self.param, self.num_vertices, self.selfloops
+                    self.param, self.num_vertices, selfloops
                 )
         elif weights == "cremb":
             if out_strength is None:
@@ -389,7 +389,7 @@ class RandomDiGraph(DiGraphEnsemble):
             if in_strength is None:
                 in_strength = self.prop_in
             rows, cols, vals = self._cremb_sample(
-                self.param, self.num_vertices, out_strength, in_strength, self.selfloops
+                self.param, self.num_vertices, out_strength, in_strength, selfloops
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From 8d9d0858086537bd9d20e3ef8a43b13cf20a5db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:16 +0000
Subject: [PATCH 15/48] fix: spark multi and conditional samples honour their
 selfloops argument

---
 src/graph_ensembles/spark/models.py              | 2 --
 src/graph_ensembles/sparse/models/conditional.py | 6 +++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7f6421e..f61eab1 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2550,7 +2550,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         if weights is None:
             e_fun = self._binary_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
@@ -2578,7 +2577,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
         elif weights == "cremb":
             e_fun = self._cremb_sample_layer
-            selfloops = self.selfloops
             p_ijk = self.p_ijk
             pdyad = self.prop_dyad
             delta = self.param
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 0f561da..4948a84 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -381,7 +381,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.groups,
                 self.adj.indptr,
                 self.adj.indices,
-                self.selfloops,
+                selfloops,
             )
             vals = np.ones(len(rows), dtype=bool)
         elif weights == "cremb":
@@ -399,7 +399,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.indices,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         elif weights == "wagg":
             if out_strength is None:
@@ -417,7 +417,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.data,
                 out_strength,
                 in_strength,
-                self.selfloops,
+                selfloops,
             )
         else:
             raise ValueError("Weights method not recognised or implemented.")
-- 
2.43.0


From 5dfb69df66048e4f53317bd29018039425060a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:36 +0000
Subject: [PATCH 16/48] fix: conditional samples always contain a link for each
 macro link

---
 .../sparse/models/conditional.py              | 61 ++++++++++++++++++-
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 4948a84..3df69bb 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -699,6 +699,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
+                p_last = 0.0
                 pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
                 if not selfloops and (a == b):
                     pnorm = p_ij(
@@ -714,10 +715,19 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                         if (i != j) | selfloops:
                             p = p_ij(param, p_out_i, prop_in[j], 1)
 
+                            if p > 0:
+                                i_last = i
+                                j_last = j
+                                p_last = p
+
                             if atleastone:
                                 p_sample = p
-                            else:
+                            elif p < pnorm:
                                 p_sample = p / pnorm
+                            elif p > 0:
+                                p_sample = 1.0
+                            else:
+                                p_sample = 0.0
 
                             if rng.random() < p_sample:
                                 rows.append(i)
@@ -726,6 +736,12 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                             else:
                                 pnorm = 1 - ((1 - pnorm) / (1 - p))
 
+                # The macro link exists so there must be at least one link, due
+                # to rounding errors it could have been missed
+                if (not atleastone) and (p_last > 0):
+                    rows.append(i_last)
+                    cols.append(j_last)
+
         return rows, cols
 
     @staticmethod
@@ -780,6 +796,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
+                p_last = 0.0
                 p_ab = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
                 if not selfloops and (a == b):
                     p_ab = p_ij(
@@ -796,10 +813,19 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                         if (i != j) | selfloops:
                             p = p_ij(param, p_out_i, prop_in[j], 1)
 
+                            if p > 0:
+                                i_last = i
+                                j_last = j
+                                p_last = p
+
                             if atleastone:
                                 p_sample = p
-                            else:
+                            elif p < pnorm:
                                 p_sample = p / pnorm
+                            elif p > 0:
+                                p_sample = 1.0
+                            else:
+                                p_sample = 0.0
 
                             if rng.random() < p_sample:
                                 rows.append(i)
@@ -814,6 +840,17 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                             else:
                                 pnorm = 1 - ((1 - pnorm) / (1 - p))
 
+                # The macro link exists so there must be at least one link, due
+                # to rounding errors it could have been missed
+                if (not atleastone) and (p_last > 0):
+                    rows.append(i_last)
+                    cols.append(j_last)
+                    vals.append(
+                        rng.exponential(
+                            s_out[i_last] * s_in[j_last] / (s_tot * (p_last / p_ab))
+                        )
+                    )
+
         return rows, cols, vals
 
     @staticmethod
@@ -867,6 +904,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
+                p_last = 0.0
                 pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
                 if not selfloops and (a == b):
                     pnorm = p_ij(
@@ -885,10 +923,19 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                         if (i != j) | selfloops:
                             p = p_ij(param, p_out_i, prop_in[j], 1)
 
+                            if p > 0:
+                                i_last = i
+                                j_last = j
+                                p_last = p
+
                             if atleastone:
                                 p_sample = p
-                            else:
+                            elif p < pnorm:
                                 p_sample = p / pnorm
+                            elif p > 0:
+                                p_sample = 1.0
+                            else:
+                                p_sample = 0.0
 
                             if rng.random() < p_sample:
                                 rows.append(i)
@@ -899,6 +946,14 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                             else:
                                 pnorm = 1 - ((1 - pnorm) / (1 - p))
 
+                # The macro link exists so there must be at least one link, due
+                # to rounding errors it could have been missed
+                if (not atleastone) and (p_last > 0):
+                    rows.append(i_last)
+                    cols.append(j_last)
+                    snorm += s_out[i_last] * s_in[j_last]
+                    vals.append(s_out[i_last] * s_in[j_last])
+
                 # Iterate over the samples of macro link ab
                 for n in range(s_start, len(rows)):
                     frac = vals[n] / snorm
-- 
2.43.0


From 58d0d618499c8b7c604e1f509646391f5000e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:36 +0000
Subject: [PATCH 17/48] fix: conditional expected degrees use the macro link of
 each direction

---
 src/graph_ensembles/sparse/models/conditional.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 3df69bb..049178a 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -599,7 +599,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             gr_list = adj_j[n:m]
             for j in range(i + 1):
                 b = groups[j]
-                if b in gr_list:
+                link_ab = b in gr_list
+                link_ba = a in adj_j[adj_i[b] : adj_i[b + 1]]
+                if link_ab or link_ba:
                     p_out_j = prop_out[j]
                     p_in_j = prop_in[j]
                     if i != j:
@@ -641,6 +643,12 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 agg_p_in[a],
                                 1.0,
                             )
+                        # Each direction is conditional to its own macro link
+                        if not link_ab:
+                            pij = 0.0
+                        if not link_ba:
+                            pji = 0.0
+
                         p = pij + pji - pij * pji
                         exp_d[i] += p
                         exp_d[j] += p
-- 
2.43.0


From 68b636685a4381ccfb5670e6117f2e5acca7320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:08 +0000
Subject: [PATCH 18/48] fix: sparse random digraph cremb sample compiles

---
 src/graph_ensembles/sparse/models/random.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 7aa17e4..1566117 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -463,9 +463,6 @@ class RandomDiGraph(DiGraphEnsemble):
         rows = []
         cols = []
         vals = []
-        rows = []
-        cols = []
-        vals = []
         p = param[0]
         for i in range(num_v):
             for j in range(num_v):
-- 
2.43.0


From 82eb4e84d99a50288c72a86eaa52a09554468833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:28 +0000
Subject: [PATCH 19/48] fix: dense expected_num_edges_label has one element per
 label

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 1d49a50..779b66e 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1739,7 +1739,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         """Compute the expected number of edges with one parameter controlling
         for the density for each label.
         """
-        num_labels = len(prop_out)
+        num_labels = prop_out.shape[1]
         exp_edges = np.zeros(num_labels, dtype=np.float64)
 
         for k in range(num_labels):
-- 
2.43.0


From af1c3ccdc3b6df256dfc40d1641571e05dd66bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:28 +0000
Subject: [PATCH 20/48] fix: dense multi ensemble cremb samples

---
 src/graph_ensembles/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 779b66e..9db111d 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1836,20 +1836,20 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
-    def _cremb_sample_layer(
+    def _cremb_sample_tensor(
         p_ijk, param, prop_out, prop_in, prop_dyad, s_out, s_in, selfloops
     ):
         """Sample from the ensemble with weights from the CremB model."""
-        s_tot = np.sum(s_out[1])
         msg = "Sum of in/out strengths not the same."
-        assert np.abs(1 - np.sum(s_in[1]) / s_tot) < 1e-6, msg
-
         lbls = List()
         rows = List()
         cols = List()
         vals = List()
 
         for k in range(prop_out.shape[1]):
+            s_tot = np.sum(s_out[:, k])
+            assert np.abs(np.sum(s_in[:, k]) - s_tot) <= 1e-6 * s_tot, msg
+
             for i, p_out_i in enumerate(prop_out[:, k]):
                 for j, p_in_j in enumerate(prop_in[:, k]):
                     if (i != j) | selfloops:
-- 
2.43.0


From c1a0ee13fc30e2636a9dc8b3e623f8c8ae179abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:36 +0000
Subject: [PATCH 21/48] fix: cremb samples by layer need both strengths of a
 link

---
 src/graph_ensembles/spark/models.py            | 2 +-
 src/graph_ensembles/sparse/models/ensembles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index f61eab1..34907e9 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3076,7 +3076,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out_ind == i
                         ind_in = s_in_ind == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out_val[ind_out][0]
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index eca838b..04f7686 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -1141,7 +1141,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         cols.append(j)
                         ind_out = s_out[0] == i
                         ind_in = s_in[0] == j
-                        if np.any(ind_out) or np.any(ind_in):
+                        if np.any(ind_out) and np.any(ind_in):
                             vals.append(
                                 rng.exponential(
                                     s_out[1][ind_out][0]
-- 
2.43.0


From cd3015e5b8ed855dd645893efc353f55a46306f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:56 +0000
Subject: [PATCH 22/48] fix: publish the expected degree last as it guards the
 cached results

---
 src/graph_ensembles/models.py                    |  4 ++--
 src/graph_ensembles/spark/models.py              | 12 ++++++------
 src/graph_ensembles/sparse/models/conditional.py |  2 +-
 src/graph_ensembles/sparse/models/ensembles.py   |  4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9db111d..ddb403c 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -145,9 +145,9 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.num_vertices,
                 self.selfloops,
             )
-            self._exp_degree = res[0]
             self._exp_out_degree = res[1]
             self._exp_in_degree = res[2]
+            self._exp_degree = res[0]
 
         return self._exp_degree
 
@@ -1513,9 +1513,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 self.num_labels,
                 self.selfloops,
             )
-            self._exp_degree_label = res[0]
             self._exp_out_degree_label = res[1]
             self._exp_in_degree_label = res[2]
+            self._exp_degree_label = res[0]
 
         return self._exp_degree_label
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 34907e9..4843acb 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -174,9 +174,9 @@ class DiGraphEnsemble(GraphEnsemble):
                 (exp_d, exp_d_out, exp_d_in),
                 lambda x, y: (x[0] + y[0], x[1] + y[1], x[2] + y[2]),
             )
-            self._exp_degree = res[0]
             self._exp_out_degree = res[1]
             self._exp_in_degree = res[2]
+            self._exp_degree = res[0]
 
         return self._exp_degree
 
@@ -2047,9 +2047,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 (exp_d, exp_d_out, exp_d_in),
                 lambda x, y: (x[0] + y[0], x[1] + y[1], x[2] + y[2]),
             )
-            self._exp_degree = res[0]
             self._exp_out_degree = res[1]
             self._exp_in_degree = res[2]
+            self._exp_degree = res[0]
 
         return self._exp_degree
 
@@ -2101,10 +2101,6 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             d = np.array(res[0])
             d_out = np.array(res[1])
             d_in = np.array(res[2])
-            self._exp_degree_label = sp.coo_array(
-                (d[:, 2], (d[:, 0], d[:, 1])),
-                shape=(self.num_vertices, self.num_labels),
-            ).tocsr()
             self._exp_out_degree_label = sp.coo_array(
                 (d_out[:, 2], (d_out[:, 0], d_out[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
@@ -2113,6 +2109,10 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 (d_in[:, 2], (d_in[:, 0], d_in[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
             ).tocsr()
+            self._exp_degree_label = sp.coo_array(
+                (d[:, 2], (d[:, 0], d[:, 1])),
+                shape=(self.num_vertices, self.num_labels),
+            ).tocsr()
 
         return self._exp_degree_label
 
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 049178a..b4f8fbb 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -247,9 +247,9 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 self.adj.indices,
                 self.selfloops,
             )
-            self._exp_degree = res[0]
             self._exp_out_degree = res[1]
             self._exp_in_degree = res[2]
+            self._exp_degree = res[0]
 
         return self._exp_degree
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 04f7686..d50b0a1 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -139,9 +139,9 @@ class DiGraphEnsemble(GraphEnsemble):
                 self.num_vertices,
                 self.selfloops,
             )
-            self._exp_degree = res[0]
             self._exp_out_degree = res[1]
             self._exp_in_degree = res[2]
+            self._exp_degree = res[0]
 
         return self._exp_degree
 
@@ -673,9 +673,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             exp_deg = [sp.dok_array(shape), sp.dok_array(shape), sp.dok_array(shape)]
             for dok, values in zip(exp_deg, res):
                 dok._update(values)
-            self._exp_degree_label = exp_deg[0].tocsr()
             self._exp_out_degree_label = exp_deg[1].tocsr()
             self._exp_in_degree_label = exp_deg[2].tocsr()
+            self._exp_degree_label = exp_deg[0].tocsr()
 
         return self._exp_degree_label
 
-- 
2.43.0


From a1d129aaadabceb81002fbedce834efc2f418f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:48 +0000
Subject: [PATCH 23/48] fix: spark expected degrees by label of layers without
 any possible link

---
 src/graph_ensembles/spark/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 4843acb..9b5fb68 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2098,9 +2098,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
             # Initialize results
             res = tmp.fold(([], [], []), lambda x, y: app_fun(x, y))
-            d = np.array(res[0])
-            d_out = np.array(res[1])
-            d_in = np.array(res[2])
+            d = np.array(res[0]).reshape(-1, 3)
+            d_out = np.array(res[1]).reshape(-1, 3)
+            d_in = np.array(res[2]).reshape(-1, 3)
             self._exp_out_degree_label = sp.coo_array(
                 (d_out[:, 2], (d_out[:, 0], d_out[:, 1])),
                 shape=(self.num_vertices, self.num_labels),
-- 
2.43.0


From fc7051eddb4c2cc0c24b83720a6c22eaf005e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 24/48] fix: random digraph likelihood when the links are
 certain

---
 src/graph_ensembles/models.py               | 29 ++++++++++-----------
 src/graph_ensembles/spark/models.py         | 25 +++++++++---------
 src/graph_ensembles/sparse/models/random.py | 25 +++++++++---------
 3 files changed, 40 insertions(+), 39 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index ddb403c..527f842 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -851,24 +851,23 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (np.count_nonzero(adj) > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (np.count_nonzero(adj) != 0):
-            return -np.infty
-
-        like = np.count_nonzero(adj) * log(self.param[0])
-        if selfloops:
-            like += (self.num_vertices**2 - np.count_nonzero(adj)) * log1p(
-                -self.param[0]
-            )
-        else:
-            like += (
-                self.num_vertices * (self.num_vertices - 1) - np.count_nonzero(adj)
-            ) * log1p(-self.param[0])
+        num_links = np.count_nonzero(adj)
+        num_pairs = self.num_vertices**2
+        if not selfloops:
+            num_pairs -= self.num_vertices
             # Ensure that the matrix has no elements on the diagonal
-            if np.count_nonzero(adj.ravel()[:: adj.shape[1] + 1]) > 0:
+            if np.count_nonzero(adj.diagonal()) > 0:
                 return -np.infty
 
+        # If the links are certain only one graph is possible
+        if self.param[0] == 0:
+            return 0.0 if num_links == 0 else -np.infty
+        if self.param[0] == 1:
+            return 0.0 if num_links == num_pairs else -np.infty
+
+        like = num_links * log(self.param[0])
+        like += (num_pairs - num_links) * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 9b5fb68..7759dfb 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1214,22 +1214,23 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
-        if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
-        else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+        num_links = adj.nnz
+        num_pairs = self.num_vertices**2
+        if not selfloops:
+            num_pairs -= self.num_vertices
             # Ensure that the matrix has no elements on the diagonal
             if adj.diagonal().sum() > 0:
                 return -np.infty
 
+        # If the links are certain only one graph is possible
+        if self.param[0] == 0:
+            return 0.0 if num_links == 0 else -np.infty
+        if self.param[0] == 1:
+            return 0.0 if num_links == num_pairs else -np.infty
+
+        like = num_links * log(self.param[0])
+        like += (num_pairs - num_links) * log1p(-self.param[0])
+
         return like
 
     def sample(
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 1566117..43aeae5 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -309,22 +309,23 @@ class RandomDiGraph(DiGraphEnsemble):
             raise ValueError(msg)
 
         # Compute log likelihood of graph
-        if (self.param[0] == 0) and (adj.nnz > 0):
-            return -np.infty
-        if (self.param[0] == 1) and (adj.nnz != 0):
-            return -np.infty
-
-        like = adj.nnz * log(self.param[0])
-        if selfloops:
-            like += (self.num_vertices**2 - adj.nnz) * log1p(-self.param[0])
-        else:
-            like += (self.num_vertices * (self.num_vertices - 1) - adj.nnz) * log1p(
-                -self.param[0]
-            )
+        num_links = adj.nnz
+        num_pairs = self.num_vertices**2
+        if not selfloops:
+            num_pairs -= self.num_vertices
             # Ensure that the matrix has no elements on the diagonal
             if adj.diagonal().sum() > 0:
                 return -np.infty
 
+        # If the links are certain only one graph is possible
+        if self.param[0] == 0:
+            return 0.0 if num_links == 0 else -np.infty
+        if self.param[0] == 1:
+            return 0.0 if num_links == num_pairs else -np.infty
+
+        like = num_links * log(self.param[0])
+        like += (num_pairs - num_links) * log1p(-self.param[0])
+
         return like
 
     def sample(
-- 
2.43.0


From dab0a80313e14084bfbf39f8df80368804332571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:40 +0000
Subject: [PATCH 25/48] fix: spark multi ensemble samples accept sparse arrays
 of strengths

---
 src/graph_ensembles/spark/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 7759dfb..14848f7 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -2523,7 +2523,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_out_l = out_strength_label.tocsc()
+                s_out_l = sp.csc_matrix(out_strength_label)
             else:
                 raise ValueError("Out strength by label must be an array.")
 
@@ -2542,7 +2542,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     self.num_vertices,
                     self.num_labels,
                 ), msg
-                s_in_l = in_strength_label.tocsc()
+                s_in_l = sp.csc_matrix(in_strength_label)
             else:
                 raise ValueError("In strength by label must be an array.")
 
-- 
2.43.0


From f0bd991dff10bd445a97c4190e7a125d0bdb8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:31 +0000
Subject: [PATCH 26/48] fix: conditional expected degree of pairs inside one
 group

---
 .../sparse/models/conditional.py                | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index b4f8fbb..f21eec4 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -649,7 +649,22 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                         if not link_ba:
                             pji = 0.0
 
-                        p = pij + pji - pij * pji
+                        if a == b:
+                            # Both directions are conditional to the same
+                            # macro link and hence are not independent
+                            p = p_ij(
+                                param,
+                                p_out_i * p_in_j + p_out_j * p_in_i,
+                                1.0,
+                                1.0,
+                                agg_p_out[a],
+                                agg_p_in[a],
+                                1.0
+                                if selfloops
+                                else 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[a]),
+                            )
+                        else:
+                            p = pij + pji - pij * pji
                         exp_d[i] += p
                         exp_d[j] += p
                         exp_d_out[i] += pij
-- 
2.43.0


From 2861da626a2a52274cbc7657e7e352a17608dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:20 +0000
Subject: [PATCH 27/48] fix: conditional model accepts any sparse format for
 the macro graph

---
 src/graph_ensembles/sparse/models/conditional.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index f21eec4..f8f4161 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -197,9 +197,8 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 " and the partitioning groups of the graph must be set."
             )
 
-        # If adj is sparse set to dense
-        if not sp.issparse(self.adj):
-            self.adj = sp.csr_array(self.adj)
+        # Ensure adj is in csr format as its rows are used by the methods
+        self.adj = sp.csr_array(self.adj)
 
         # Check that the two are consistent
         self.num_groups = self.adj.shape[0]
-- 
2.43.0


From 5727af3e9563c0cb04ce089d1d1f494c1d20bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:01 +0000
Subject: [PATCH 28/48] fix: dense multi ensemble likelihood of a list of
 sparse layers

---
 src/graph_ensembles/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 527f842..bffc06b 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1563,7 +1563,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list) and sp.issparse(g[0]):
-            adj = [x.todense() for x in g]
+            adj = np.stack([x.toarray() for x in g])
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
-- 
2.43.0


From 0dc3e90ae41d8bd6afdcb33a1f87db63b71820f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 29/48] fix: solver accepts an exact starting point with zero
 absolute tolerance

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 052aff5..858b30a 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -134,7 +134,7 @@ def monotonic_newton_solver(
         diff_seq = diff
 
     # Initialize bounds on x
-    if norm < atol:
+    if norm <= atol:
         if full_return:
             return Solution(
                 x,
-- 
2.43.0


From 17919092b7a4fc47c7e548f2021eac6ff65623ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:23 +0000
Subject: [PATCH 30/48] fix: sparse matrices are converted to arrays instead of
 numpy matrices

---
 src/graph_ensembles/models.py        | 14 +++++++-------
 src/graph_ensembles/sparse/graphs.py |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index bffc06b..258fa03 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -302,7 +302,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.todense() != 0
+            adj = g.toarray() != 0
         elif isinstance(g, np.ndarray):
             adj = g != 0
         else:
@@ -834,7 +834,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.todense()
+            adj = g.toarray()
         elif isinstance(g, np.ndarray):
             adj = g != 0
         else:
@@ -1551,7 +1551,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.todense()
+            adj = g.toarray()
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -1667,7 +1667,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         else:
             # Check dimensions
             if sp.issparse(out_strength_label):
-                out_strength_label = out_strength_label.todense()
+                out_strength_label = out_strength_label.toarray()
 
             if isinstance(out_strength_label, np.ndarray):
                 msg = (
@@ -1686,7 +1686,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             s_in_l = self.prop_in
         else:
             if sp.issparse(in_strength_label):
-                in_strength_label = in_strength_label.todense()
+                in_strength_label = in_strength_label.toarray()
 
             if isinstance(in_strength_label, np.ndarray):
                 msg = (
@@ -2004,9 +2004,9 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
 
         # Convert to dense arrays
         if sp.issparse(self.prop_out):
-            self.prop_out = self.prop_out.todense()
+            self.prop_out = self.prop_out.toarray()
         if sp.issparse(self.prop_in):
-            self.prop_in = self.prop_in.todense()
+            self.prop_in = self.prop_in.toarray()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out < 0):
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index ae39726..5c5b321 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -292,7 +292,7 @@ class Graph:
         deg = self.degree(recompute=deg_recompute)
 
         if sp.issparse(prop):
-            prop = prop.todense()
+            prop = prop.toarray()
 
         # It is necessary to select the elements or pickling will fail
         adj = self.adjacency_matrix(directed=False, weighted=False)
@@ -715,7 +715,7 @@ class DiGraph(Graph):
             raise ValueError("Neighbourhood direction not recognised.")
 
         if sp.issparse(prop):
-            prop = prop.todense()
+            prop = prop.toarray()
 
         # It is necessary to select the elements or pickling will fail
         av_nn = self.av_nn_prop(adj.indptr, adj.indices, prop, selfloops)
-- 
2.43.0


From ea006ebada7902aee32cbb393a65a41123f0a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:39 +0000
Subject: [PATCH 31/48] fix: an interrupted fit leaves no half of the cached
 degrees

---
 src/graph_ensembles/models.py                  | 8 ++++++--
 src/graph_ensembles/spark/models.py            | 8 ++++++--
 src/graph_ensembles/sparse/models/ensembles.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 258fa03..9a0a73c 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -166,8 +166,12 @@ class DiGraphEnsemble(GraphEnsemble):
         return self._exp_in_degree
 
     def _clear_expectations(self):
-        """Remove all cached expected values as they depend on the parameters."""
-        for name in list(self.__dict__):
+        """Remove all cached expected values as they depend on the parameters.
+
+        The last published are removed first, such that the values that others
+        are guarded by never outlive them if this is interrupted.
+        """
+        for name in reversed(list(self.__dict__)):
             if name.startswith(("_exp_", "exp_av_")):
                 self.__dict__.pop(name, None)
 
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 14848f7..522faea 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -195,8 +195,12 @@ class DiGraphEnsemble(GraphEnsemble):
         return self._exp_in_degree
 
     def _clear_expectations(self):
-        """Remove all cached expected values as they depend on the parameters."""
-        for name in list(self.__dict__):
+        """Remove all cached expected values as they depend on the parameters.
+
+        The last published are removed first, such that the values that others
+        are guarded by never outlive them if this is interrupted.
+        """
+        for name in reversed(list(self.__dict__)):
             if name.startswith(("_exp_", "exp_av_")):
                 self.__dict__.pop(name, None)
 
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index d50b0a1..d610939 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -160,8 +160,12 @@ class DiGraphEnsemble(GraphEnsemble):
         return self._exp_in_degree
 
     def _clear_expectations(self):
-        """Remove all cached expected values as they depend on the parameters."""
-        for name in list(self.__dict__):
+        """Remove all cached expected values as they depend on the parameters.
+
+        The last published are removed first, such that the values that others
+        are guarded by never outlive them if this is interrupted.
+        """
+        for name in reversed(list(self.__dict__)):
             if name.startswith(("_exp_", "exp_av_")):
                 self.__dict__.pop(name, None)
 
-- 
2.43.0


From a0af8b89fcc7bc2672db96b61733236325849805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:39 +0000
Subject: [PATCH 32/48] fix: dense graphs sum the weights of repeated edges

---
 src/graph_ensembles/graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 718ec53..a6f8d09 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -166,7 +166,7 @@ class Graph:
             self.adj = np.zeros(
                 (self.num_vertices, self.num_vertices), dtype=val_array.dtype
             )
-            self.adj[src_array, dst_array] = val_array
+            np.add.at(self.adj, (src_array, dst_array), val_array)
 
         else:
             self.weighted = False
@@ -864,7 +864,7 @@ class MultiGraph(Graph):
                 (self.num_labels, self.num_vertices, self.num_vertices),
                 dtype=val_array.dtype,
             )
-            self.adj[lbl_array, src_array, dst_array] = val_array
+            np.add.at(self.adj, (lbl_array, src_array, dst_array), val_array)
         else:
             self.adj = np.zeros(
                 (self.num_labels, self.num_vertices, self.num_vertices), dtype=bool
-- 
2.43.0


From 0e72529070ba72199be59947467ad33b60e60ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:39 +0000
Subject: [PATCH 33/48] fix: dense multigraphs count the weight of self loops
 once

---
 src/graph_ensembles/graphs.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index a6f8d09..ba28b6a 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -878,11 +878,8 @@ class MultiGraph(Graph):
 
         # Ensure matrix is symmetric as this is undirected
         if weighted:
-            # Symmetrize
-            adj = adj + adj.T
-
-            # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            # Symmetrize without double counting the diagonal
+            adj = adj + adj.T - np.diag(np.diag(adj))
 
         else:
             adj = adj != 0
@@ -1145,11 +1142,8 @@ class MultiDiGraph(MultiGraph, DiGraph):
             adj = adj != 0
 
         elif not directed and weighted:
-            # Symmetrize
-            adj = adj + adj.T
-
-            # Remove double count diagonal
-            adj.ravel()[:: adj.shape[1] + 1] = np.diag(adj)
+            # Symmetrize without double counting the diagonal
+            adj = adj + adj.T - np.diag(np.diag(adj))
 
         elif not directed and not weighted:
             adj = adj != 0
-- 
2.43.0


From ca95d2659f7aace7bea1d4bc2a06ebd2db6a15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 34/48] fix: dense strengths by group keep fractional weights

---
 src/graph_ensembles/graphs.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index ba28b6a..d73f12d 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -236,7 +236,7 @@ class Graph:
         """Compute the undirected degree sequence to and from each group."""
         if not hasattr(self, "_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=False, weighted=False)
-            self._degree_by_group = self.sum_by_group(adj, self.groups)
+            self._degree_by_group = self.sum_by_group(adj, self.groups).astype(np.int64)
 
         return self._degree_by_group
 
@@ -388,7 +388,7 @@ class Graph:
         """
         # Initialize empty result
         M = g_arr.max() + 1
-        res = np.zeros((mat.shape[0], M), dtype=np.int64)
+        res = np.zeros((mat.shape[0], M), dtype=np.float64)
 
         # Count group occurrences
         for i in range(M):
@@ -566,8 +566,12 @@ class DiGraph(Graph):
         """Compute the out degree sequence to each group."""
         if not hasattr(self, "_out_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(
+                adj, self.groups
+            ).astype(np.int64)
+            self._in_degree_by_group = self.sum_by_group(
+                adj.T, self.groups
+            ).astype(np.int64)
 
         return self._out_degree_by_group
 
@@ -575,8 +579,12 @@ class DiGraph(Graph):
         """Compute the in degree sequence from each group."""
         if not hasattr(self, "_in_degree_by_group") or recompute:
             adj = self.adjacency_matrix(directed=True, weighted=False)
-            self._out_degree_by_group = self.sum_by_group(adj, self.groups)
-            self._in_degree_by_group = self.sum_by_group(adj.T, self.groups)
+            self._out_degree_by_group = self.sum_by_group(
+                adj, self.groups
+            ).astype(np.int64)
+            self._in_degree_by_group = self.sum_by_group(
+                adj.T, self.groups
+            ).astype(np.int64)
 
         return self._in_degree_by_group
 
-- 
2.43.0


From 4ddf49849afe391891c32d919c92ad17a5ed0250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 35/48] fix: sparse unweighted graphs keep self loops in the
 strengths

---
 src/graph_ensembles/sparse/graphs.py | 33 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 5c5b321..0ed577d 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -199,11 +199,7 @@ class Graph:
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrize(self.adj)
         else:
             adj = self.adj != 0
             adj = adj + adj.T
@@ -377,6 +373,17 @@ class Graph:
 
         return e_src.values.astype(self.id_dtype), e_dst.values.astype(self.id_dtype)
 
+    @staticmethod
+    def symmetrize(adj):
+        """Return the sum of the matrix and its transpose with the diagonal
+        counted once.
+        """
+        # Boolean matrices are not weighted and their sum is a logical or
+        if adj.dtype == bool:
+            return adj + adj.T
+
+        return adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+
     @staticmethod
     def get_num_bytes(num_items):
         """Determine the number of bytes needed for storing ids for num_items."""
@@ -554,11 +561,7 @@ class DiGraph(Graph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = (
-                self.adj
-                + self.adj.T
-                - sp.spdiags(self.adj.diagonal(), 0, m=self.adj.shape)
-            )
+            adj = self.symmetrize(self.adj)
 
         else:
             adj = self.adj != 0
@@ -968,7 +971,7 @@ class MultiGraph(Graph):
         # Ensure matrix is symmetric as this is undirected
         if weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrize(adj)
 
         else:
             adj = adj != 0
@@ -983,8 +986,7 @@ class MultiGraph(Graph):
             # Symmetrize
             sym = []
             for lbl in range(self.num_labels):
-                adj = self.adj[lbl]
-                sym.append(adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape))
+                sym.append(self.symmetrize(self.adj[lbl]))
 
         else:
             sym = []
@@ -1242,7 +1244,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
 
         elif not directed and weighted:
             # Symmetrize
-            adj = adj + adj.T - sp.spdiags(adj.diagonal(), 0, m=adj.shape)
+            adj = self.symmetrize(adj)
 
         elif not directed and not weighted:
             adj = adj != 0
@@ -1264,8 +1266,7 @@ class MultiDiGraph(MultiGraph, DiGraph):
             # Symmetrize
             adj = []
             for lbl in range(self.num_labels):
-                tmp = self.adj[lbl]
-                adj.append(tmp + tmp.T - sp.spdiags(tmp.diagonal(), 0, m=tmp.shape))
+                adj.append(self.symmetrize(self.adj[lbl]))
 
         else:
             adj = []
-- 
2.43.0


From 25d6aa070d5ab0d7b21600701560e817f782e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:21 +0000
Subject: [PATCH 36/48] fix: networkx multigraphs sum the weights of both
 directions of a link

---
 src/graph_ensembles/graphs.py        | 5 +++--
 src/graph_ensembles/sparse/graphs.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index d73f12d..34aeace 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -975,7 +975,8 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
-        lbl, row, col = np.nonzero(self.adj)
+        adj = np.triu(self.adjacency_tensor(directed=False, weighted=True))
+        lbl, row, col = np.nonzero(adj)
         G.add_edges_from(
             zip(
                 row,
@@ -983,7 +984,7 @@ class MultiGraph(Graph):
                 lbl,
                 [
                     dict(weight=i, label=lbl_list[j])
-                    for i, j in zip(self.adj[self.adj != 0].ravel(), lbl)
+                    for i, j in zip(adj[adj != 0].ravel(), lbl)
                 ],
             )
         )
diff --git a/src/graph_ensembles/sparse/graphs.py b/src/graph_ensembles/sparse/graphs.py
index 0ed577d..10b20b0 100644
--- a/src/graph_ensembles/sparse/graphs.py
+++ b/src/graph_ensembles/sparse/graphs.py
@@ -1068,8 +1068,9 @@ class MultiGraph(Graph):
             lbl_list[i] = lbl_id
 
         # Add edges per layer
+        tensor = self.adjacency_tensor(directed=False, weighted=True)
         for k in range(self.num_labels):
-            adj = self.adj[k].tocoo()
+            adj = sp.triu(tensor[k]).tocoo()
             lbl = np.empty(adj.nnz)
             lbl[:] = k
             G.add_edges_from(
-- 
2.43.0


From 3a07eae550809c898d499bdec5c6cc87b3151d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:08 +0000
Subject: [PATCH 37/48] fix: dense in neighbour averages exclude self loops as
 the others do

---
 src/graph_ensembles/graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_ensembles/graphs.py b/src/graph_ensembles/graphs.py
index 34aeace..5595368 100644
--- a/src/graph_ensembles/graphs.py
+++ b/src/graph_ensembles/graphs.py
@@ -401,7 +401,8 @@ class Graph:
         """Computes the sum of the nearest neighbours' properties."""
         # If no self loops remove diagonal
         if not selfloops:
-            adj.ravel()[:: adj.shape[1] + 1] = 0
+            adj = adj.copy()
+            np.fill_diagonal(adj, 0)
 
         # Compute sum
         res = adj.dot(prop)
-- 
2.43.0


From 35a7c4f1b746ad2af79f12c34eee8dc85e1fb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:34 +0000
Subject: [PATCH 38/48] fix: entries of a sparse adjacency matrix stored as
 zero are not links

---
 src/graph_ensembles/spark/models.py              | 12 ++++++------
 src/graph_ensembles/sparse/models/conditional.py |  2 +-
 src/graph_ensembles/sparse/models/ensembles.py   |  6 +++---
 src/graph_ensembles/sparse/models/random.py      |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 522faea..fe42a1c 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -335,7 +335,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -404,7 +404,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -1201,7 +1201,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
@@ -2274,7 +2274,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -2286,7 +2286,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_matrix(x) for x in g]
+            adj = [sp.csr_matrix(x) != 0 for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
@@ -2411,7 +2411,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_matrix(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index f8f4161..cbc167e 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -277,7 +277,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index d610939..7503f04 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -300,7 +300,7 @@ class DiGraphEnsemble(GraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
@@ -716,7 +716,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             adj = g.adjacency_matrix(directed=True, weighted=False)
             tensor = False
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
             tensor = False
         elif isinstance(g, np.ndarray):
             if g.ndim == 3:
@@ -728,7 +728,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
             else:
                 raise ValueError("Adjacency array is neither 2 nor 3 dimensional.")
         elif isinstance(g, list):
-            adj = [sp.csr_array(x) for x in g]
+            adj = [sp.csr_array(x) != 0 for x in g]
             tensor = True
         else:
             raise ValueError("g input not a graph or adjacency matrix.")
diff --git a/src/graph_ensembles/sparse/models/random.py b/src/graph_ensembles/sparse/models/random.py
index 43aeae5..c0cc39f 100644
--- a/src/graph_ensembles/sparse/models/random.py
+++ b/src/graph_ensembles/sparse/models/random.py
@@ -292,7 +292,7 @@ class RandomDiGraph(DiGraphEnsemble):
             # Extract binary adjacency matrix from graph
             adj = g.adjacency_matrix(directed=True, weighted=False)
         elif sp.issparse(g):
-            adj = g.asformat("csr")
+            adj = (g != 0).asformat("csr")
         elif isinstance(g, np.ndarray):
             adj = sp.csr_array(g)
         else:
-- 
2.43.0


From 477e1a6bd6d48962641c9c66ab578ce70a789f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:54 +0000
Subject: [PATCH 39/48] fix: labelled properties passed as sparse arrays with
 unsorted labels

---
 src/graph_ensembles/spark/models.py          | 8 ++++++--
 src/graph_ensembles/sparse/models/fitness.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index fe42a1c..3f60863 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -3255,8 +3255,12 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
         # Convert to csr matrices
-        self.prop_out = sp.csr_matrix(self.prop_out)
-        self.prop_in = sp.csr_matrix(self.prop_in)
+        self.prop_out = sp.csr_matrix(self.prop_out, copy=True)
+        self.prop_in = sp.csr_matrix(self.prop_in, copy=True)
+
+        # The labels of each vertex must be sorted and unique
+        self.prop_out.sum_duplicates()
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index 74269f7..e7f0893 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -467,8 +467,12 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         assert self.prop_in.shape == (self.num_vertices, self.num_labels), msg
 
         # Convert to csr matrices
-        self.prop_out = sp.csr_array(self.prop_out)
-        self.prop_in = sp.csr_array(self.prop_in)
+        self.prop_out = sp.csr_array(self.prop_out, copy=True)
+        self.prop_in = sp.csr_array(self.prop_in, copy=True)
+
+        # The labels of each vertex must be sorted and unique
+        self.prop_out.sum_duplicates()
+        self.prop_in.sum_duplicates()
 
         # Ensure that all fitness are positive
         if np.any(self.prop_out.data < 0):
-- 
2.43.0


From 92b472ad513ec9d4197f7eddc1ac1b43e4e66657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:27 +0000
Subject: [PATCH 40/48] fix: pagerank of unweighted graphs and of integer
 weights

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index cb10f89..6a72d32 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -7,7 +7,7 @@ from numba import jit
 
 @jit(nopython=True)  # pragma: no cover
 def normalise_rows(rows, clms, weights):
-    new_w = np.zeros(len(weights), dtype=weights.dtype)
+    new_w = np.zeros(len(weights), dtype=np.float64)
     for i in range(len(rows) - 1):
         n = rows[i]
         m = rows[i + 1]
-- 
2.43.0


From 5135fadb2cab83b0154fdff23e6ad564afc20d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:31 +0000
Subject: [PATCH 41/48] fix: trophic depth of graphs stored as sparse arrays

---
 src/graph_ensembles/lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/lib.py b/src/graph_ensembles/lib.py
index 6a72d32..0a40dd5 100644
--- a/src/graph_ensembles/lib.py
+++ b/src/graph_ensembles/lib.py
@@ -101,7 +101,7 @@ def trophic_depth(g, final, max_iter=100, tol=1e-3):
     w = adj.data
 
     # Initialise result
-    strength = adj.sum(axis=1).A1 + final
+    strength = np.asarray(adj.sum(axis=1)).ravel() + final
     idx = strength != 0
     depth = final
 
-- 
2.43.0


From 7bc0aed61aefee465fe734f5f6b7c2cbbd289a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:56 +0000
Subject: [PATCH 42/48] fix: log(1-p) of the fitness models is infinite when p
 rounds to one

---
 src/graph_ensembles/models.py                | 4 ++--
 src/graph_ensembles/spark/models.py          | 4 ++--
 src/graph_ensembles/sparse/models/fitness.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 9a0a73c..75d4f00 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -1349,7 +1349,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -2439,7 +2439,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index 3f60863..f1e5db6 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -1794,7 +1794,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class ScaleInvariantModel(FitnessModel):
@@ -3850,7 +3850,7 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiInvariantModel(MultiFitnessModel):
diff --git a/src/graph_ensembles/sparse/models/fitness.py b/src/graph_ensembles/sparse/models/fitness.py
index e7f0893..55ba9ab 100644
--- a/src/graph_ensembles/sparse/models/fitness.py
+++ b/src/graph_ensembles/sparse/models/fitness.py
@@ -325,7 +325,7 @@ class FitnessModel(DiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
 
 
 class MultiFitnessModel(MultiDiGraphEnsemble):
@@ -1013,4 +1013,4 @@ class MultiFitnessModel(MultiDiGraphEnsemble):
         if isinf(tmp):
             return -np.infty
         else:
-            return log1p(-tmp / (1 + tmp))
+            return -log1p(tmp)
-- 
2.43.0


From 00e630927adc7b00aa54d9e3c8ab40f4dc376747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:03 +0000
Subject: [PATCH 43/48] fix: conditional samples are exact also for very small
 parameters

---
 src/graph_ensembles/sparse/models/conditional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index cbc167e..98b9a8c 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -756,7 +756,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 cols.append(j)
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                pnorm = (pnorm - p) / (1 - p)
 
                 # The macro link exists so there must be at least one link, due
                 # to rounding errors it could have been missed
@@ -860,7 +860,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                pnorm = (pnorm - p) / (1 - p)
 
                 # The macro link exists so there must be at least one link, due
                 # to rounding errors it could have been missed
@@ -966,7 +966,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 vals.append(s_out[i] * s_in[j])
                                 atleastone = True
                             else:
-                                pnorm = 1 - ((1 - pnorm) / (1 - p))
+                                pnorm = (pnorm - p) / (1 - p)
 
                 # The macro link exists so there must be at least one link, due
                 # to rounding errors it could have been missed
-- 
2.43.0


From b5dfca54d86ee4bc6e8c7643d1bdd1dda0ce96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:13 +0000
Subject: [PATCH 44/48] fix: conditional samples and likelihood with a null
 parameter

---
 .../sparse/models/conditional.py              | 47 +++++++++++++------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index 98b9a8c..a16c640 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -12,6 +12,17 @@ from math import exp
 import warnings
 
 
+@jit(nopython=True)  # pragma: no cover
+def positive_param(param, prop_out, prop_in):
+    """Return the parameter or, if it is null, a value so small that the
+    probabilities given the macro graph are those of the limit.
+    """
+    if param[0] > 0:
+        return param.astype(np.float64)
+
+    return np.array([1e-20 / (np.max(prop_out) * np.max(prop_in))])
+
+
 class ConditionalInvariantModel(ScaleInvariantModel):
     """The Conditional Invariant model is a ScaleInvariantModel that is
     conditioned on the observation of a coarse grained graph. This changes the
@@ -301,11 +312,16 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         if (agg_adj != (self.adj > 0)).nnz != 0:
             return -np.infty
 
+        # With a null parameter there is only one link for each macro link
+        if self.param[0] == 0 and (adj != 0).sum() > agg_adj.sum():
+            return -np.infty
+
         # Compute log likelihood of graph
+        param = positive_param(self.param, self.prop_out, self.prop_in)
         like = self._likelihood(
             self.logp,
             self.log1mp,
-            self.param,
+            param,
             self.prop_out,
             self.prop_in,
             self.prop_dyad,
@@ -318,7 +334,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
         agg_like = self._agg_likelihood(
             self.logp,
             self.log1mp,
-            self.param,
+            param,
             self.prop_out,
             self.prop_in,
             self.groups,
@@ -706,6 +722,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 agg_diag[gr] += prop_out[i] * prop_in[i]
 
         # Iterate over aggregated adj
+        d = positive_param(param, prop_out, prop_in)
         for a in range(M):
             # Get all node indices in a
             i_in_a = np.where(groups == a)[0]
@@ -722,10 +739,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
                 p_last = 0.0
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                pnorm = p_ij(d, agg_p_out[a], agg_p_in[b], 1)
                 if not selfloops and (a == b):
                     pnorm = p_ij(
-                        param,
+                        d,
                         agg_p_out[a],
                         agg_p_in[b],
                         1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
@@ -735,7 +752,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            p = p_ij(d, p_out_i, prop_in[j], 1)
 
                             if p > 0:
                                 i_last = i
@@ -743,7 +760,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 p_last = p
 
                             if atleastone:
-                                p_sample = p
+                                p_sample = p if param[0] > 0 else 0.0
                             elif p < pnorm:
                                 p_sample = p / pnorm
                             elif p > 0:
@@ -803,6 +820,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 agg_diag[gr] += prop_out[i] * prop_in[i]
 
         # Iterate over aggregated adj
+        d = positive_param(param, prop_out, prop_in)
         for a in range(M):
             # Get all node indices in a
             i_in_a = np.where(groups == a)[0]
@@ -819,10 +837,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
                 p_last = 0.0
-                p_ab = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                p_ab = p_ij(d, agg_p_out[a], agg_p_in[b], 1)
                 if not selfloops and (a == b):
                     p_ab = p_ij(
-                        param,
+                        d,
                         agg_p_out[a],
                         agg_p_in[b],
                         1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
@@ -833,7 +851,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            p = p_ij(d, p_out_i, prop_in[j], 1)
 
                             if p > 0:
                                 i_last = i
@@ -841,7 +859,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 p_last = p
 
                             if atleastone:
-                                p_sample = p
+                                p_sample = p if param[0] > 0 else 0.0
                             elif p < pnorm:
                                 p_sample = p / pnorm
                             elif p > 0:
@@ -908,6 +926,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 agg_diag[gr] += prop_out[i] * prop_in[i]
 
         # Iterate over aggregated adj
+        d = positive_param(param, prop_out, prop_in)
         for a in range(M):
             # Get all node indices in a
             i_in_a = np.where(groups == a)[0]
@@ -927,10 +946,10 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 # Iterate in order over pij that compose A_ab
                 atleastone = False
                 p_last = 0.0
-                pnorm = p_ij(param, agg_p_out[a], agg_p_in[b], 1)
+                pnorm = p_ij(d, agg_p_out[a], agg_p_in[b], 1)
                 if not selfloops and (a == b):
                     pnorm = p_ij(
-                        param,
+                        d,
                         agg_p_out[a],
                         agg_p_in[b],
                         1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[b]),
@@ -943,7 +962,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                     p_out_i = prop_out[i]
                     for j in j_in_b:
                         if (i != j) | selfloops:
-                            p = p_ij(param, p_out_i, prop_in[j], 1)
+                            p = p_ij(d, p_out_i, prop_in[j], 1)
 
                             if p > 0:
                                 i_last = i
@@ -951,7 +970,7 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                                 p_last = p
 
                             if atleastone:
-                                p_sample = p
+                                p_sample = p if param[0] > 0 else 0.0
                             elif p < pnorm:
                                 p_sample = p / pnorm
                             elif p > 0:
-- 
2.43.0


From 5fff076f41a20feb72b31572da3dc953c410e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:27 +0000
Subject: [PATCH 45/48] fix: dyadic properties are those of the pair also on
 Spark and for self loops

---
 src/graph_ensembles/models.py                 |  2 +-
 src/graph_ensembles/spark/models.py           | 73 +++++++++++++------
 .../sparse/models/ensembles.py                |  2 +-
 3 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/graph_ensembles/models.py b/src/graph_ensembles/models.py
index 75d4f00..8bf6d87 100644
--- a/src/graph_ensembles/models.py
+++ b/src/graph_ensembles/models.py
@@ -483,7 +483,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
diff --git a/src/graph_ensembles/spark/models.py b/src/graph_ensembles/spark/models.py
index f1e5db6..a68faec 100644
--- a/src/graph_ensembles/spark/models.py
+++ b/src/graph_ensembles/spark/models.py
@@ -589,7 +589,9 @@ class DiGraphEnsemble(GraphEnsemble):
             for j in range(ind_in[1] - ind_in[0]):
                 p_in_j = prop_in[j]
                 if (ind_out[0] + i != ind_in[0] + j) | selfloops:
-                    exp_e += p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    exp_e += p_ij(
+                        param, p_out_i, p_in_j, prop_dyad(ind_out[0] + i, ind_in[0] + j)
+                    )
 
         return exp_e
 
@@ -617,8 +619,8 @@ class DiGraphEnsemble(GraphEnsemble):
                 p_out_j = prop_out[1][j]
                 p_in_j = prop_in[0][j]
                 if ind_i != ind_j:
-                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
-                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(j, i))
+                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
+                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(ind_j, ind_i))
                     p = pij + pji - pij * pji
                     exp_d[ind_i] += p
                     exp_d[ind_j] += p
@@ -627,7 +629,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     exp_d_in[ind_j] += pij
                     exp_d_in[ind_i] += pji
                 elif selfloops:
-                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     exp_d[ind_i] += pii
                     exp_d_out[ind_i] += pii
                     exp_d_in[ind_j] += pii
@@ -665,8 +667,8 @@ class DiGraphEnsemble(GraphEnsemble):
                 p_out_j = prop_out[1][j]
                 p_in_j = prop_in[0][j]
                 if ind_i != ind_j:
-                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
-                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(j, i))
+                    pij = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
+                    pji = p_ij(param, p_out_j, p_in_i, prop_dyad(ind_j, ind_i))
                     if ndir == "out":
                         av_nn[ind_i] += pij * prop[ind_j]
                         av_nn[ind_j] += pji * prop[ind_i]
@@ -680,7 +682,7 @@ class DiGraphEnsemble(GraphEnsemble):
                     else:
                         raise ValueError("Direction of neighbourhood not right.")
                 elif selfloops:
-                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    pii = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if ndir == "out":
                         av_nn[ind_i] += pii * prop[ind_i]
                     elif ndir == "in":
@@ -721,9 +723,9 @@ class DiGraphEnsemble(GraphEnsemble):
                 if (ind_i != ind_j) | selfloops:
                     # Check if link exists
                     if ind_j in j_list:
-                        tmp = logp(param, p_out_i, p_in_j, prop_dyad(i, j))
+                        tmp = logp(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     else:
-                        tmp = log1mp(param, p_out_i, p_in_j, prop_dyad(i, j))
+                        tmp = log1mp(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
 
                     if isinf(tmp):
                         return tmp
@@ -763,7 +765,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 ind_j = ind_in[0] + j
                 if (ind_i != ind_j) | selfloops:
                     p_in_j = prop_in[j]
-                    p = pij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    p = pij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if ind_j in j_list:
                         for k, th in enumerate(thresholds):
                             if p >= th:
@@ -794,7 +796,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 ind_j = ind_in[0] + j
                 p_in_j = prop_in[j]
                 if (ind_i != ind_j) | selfloops:
-                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if rng.random() < p:
                         rows.append(ind_i)
                         cols.append(ind_j)
@@ -829,7 +831,7 @@ class DiGraphEnsemble(GraphEnsemble):
                 ind_j = ind_in[0] + j
                 p_in_j = prop_in[j]
                 if (ind_i != ind_j) | selfloops:
-                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(i, j))
+                    p = p_ij(param, p_out_i, p_in_j, prop_dyad(ind_i, ind_j))
                     if rng.random() < p:
                         rows.append(ind_i)
                         cols.append(ind_j)
@@ -2644,7 +2646,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 if (f_out_i != f_in_j) | slflp:
                     f_in_l = lbl_in[indptr_in[j] : indptr_in[j + 1]]
                     f_in_v = prop_in[indptr_in[j] : indptr_in[j + 1]]
-                    f += p_ij(param, f_out_l, f_out_v, f_in_l, f_in_v, pdyad)
+                    f += p_ij(
+                        param, f_out_l, f_out_v, f_in_l, f_in_v, pdyad(f_out_i, f_in_j)
+                    )
 
         return f
 
@@ -2660,7 +2664,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
         for i, out_i in enumerate(ind_out):
             for j, in_j in enumerate(ind_in):
                 if (out_i != in_j) | selfloops:
-                    f += p_ijk(param, prop_out[i], prop_in[j], pdyad(i, j))
+                    f += p_ijk(param, prop_out[i], prop_in[j], pdyad(out_i, in_j))
 
         return f
 
@@ -2705,8 +2709,12 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 f_in_j = val_in[0][ptr_in[0][j] : ptr_in[0][j + 1]]
 
                 if ind_i != ind_j:
-                    pij = p_ij(param, l_out_i, f_out_i, l_in_j, f_in_j, pdyad(i, j))
-                    pji = p_ij(param, l_out_j, f_out_j, l_in_i, f_in_i, pdyad(i, j))
+                    pij = p_ij(
+                        param, l_out_i, f_out_i, l_in_j, f_in_j, pdyad(ind_i, ind_j)
+                    )
+                    pji = p_ij(
+                        param, l_out_j, f_out_j, l_in_i, f_in_i, pdyad(ind_j, ind_i)
+                    )
                     p = pij + pji - pij * pji
                     exp_d[ind_i] += p
                     exp_d[ind_j] += p
@@ -2715,7 +2723,9 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     exp_d_in[ind_j] += pij
                     exp_d_in[ind_i] += pji
                 elif selfloops:
-                    pii = p_ij(param, l_out_i, f_out_i, l_in_j, f_in_j, pdyad(i, j))
+                    pii = p_ij(
+                        param, l_out_i, f_out_i, l_in_j, f_in_j, pdyad(ind_i, ind_j)
+                    )
                     exp_d[ind_i] += pii
                     exp_d_out[ind_i] += pii
                     exp_d_in[ind_j] += pii
@@ -2746,7 +2756,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
 
                         f_in_i = prop_in[np.where(ind_in == ind_i)][0]
                         f_out_j = prop_out[np.where(ind_out == ind_j)][0]
-                        pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_i, ind_j))
+                        pji = p_ijk(param, f_out_j, f_in_i, pdyad(ind_j, ind_i))
                         p = pij + pji - pij * pji
                     else:
                         pji = 0.0
@@ -2839,7 +2849,7 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                         param, l_out_i, f_out_i, l_in_j, f_in_j, pdyad(ind_i, ind_j)
                     )
                     pji = p_ij(
-                        param, l_out_j, f_out_j, l_in_i, f_in_i, pdyad(ind_i, ind_j)
+                        param, l_out_j, f_out_j, l_in_i, f_in_i, pdyad(ind_j, ind_i)
                     )
                     if ndir == "out":
                         av_nn[ind_i] += pij * prop[ind_j]
@@ -2903,10 +2913,22 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                     f_in_v = prop_in[indptr_in[j] : indptr_in[j + 1]]
                     # Check if link exists
                     if f_in_j in j_list:
-                        tmp = logp(param, f_out_l, f_out_v, f_in_l, f_in_v, pdyad(i, j))
+                        tmp = logp(
+                            param,
+                            f_out_l,
+                            f_out_v,
+                            f_in_l,
+                            f_in_v,
+                            pdyad(f_out_i, f_in_j),
+                        )
                     else:
                         tmp = log1mp(
-                            param, f_out_l, f_out_v, f_in_l, f_in_v, pdyad(i, j)
+                            param,
+                            f_out_l,
+                            f_out_v,
+                            f_in_l,
+                            f_in_v,
+                            pdyad(f_out_i, f_in_j),
                         )
 
                     if isinf(tmp):
@@ -3007,7 +3029,14 @@ class MultiDiGraphEnsemble(DiGraphEnsemble):
                 if (f_out_i != f_in_j) | selfloops:
                     f_in_l = lbl_in[indptr_in[j] : indptr_in[j + 1]]
                     f_in_v = prop_in[indptr_in[j] : indptr_in[j + 1]]
-                    p = pij(param, f_out_l, f_out_v, f_in_l, f_in_v, prop_dyad(i, j))
+                    p = pij(
+                        param,
+                        f_out_l,
+                        f_out_v,
+                        f_in_l,
+                        f_in_v,
+                        prop_dyad(f_out_i, f_in_j),
+                    )
                     if f_in_j in j_list:
                         for k, th in enumerate(thresholds):
                             if p >= th:
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index 7503f04..a902b03 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -480,7 +480,7 @@ class DiGraphEnsemble(GraphEnsemble):
 
         if selfloops:
             for i in range(len(prop_out)):
-                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, j))
+                pii = p_ij(param, prop_out[i], prop_in[i], prop_dyad(i, i))
                 if ndir == "out":
                     av_nn[i] += pii * prop[i]
                 elif ndir == "in":
-- 
2.43.0


From 1ad8686fcaa63a5daa33df9739e62dd03c640e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:31 +0000
Subject: [PATCH 46/48] fix: observed group graphs with repeated or null stored
 entries

---
 src/graph_ensembles/sparse/models/conditional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index a16c640..c79f8a7 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -208,8 +208,11 @@ class ConditionalInvariantModel(ScaleInvariantModel):
                 " and the partitioning groups of the graph must be set."
             )
 
-        # Ensure adj is in csr format as its rows are used by the methods
-        self.adj = sp.csr_array(self.adj)
+        # Ensure adj is in csr format as its rows are used by the methods, with
+        # a single entry for each link
+        self.adj = sp.csr_array(self.adj, copy=True)
+        self.adj.sum_duplicates()
+        self.adj.eliminate_zeros()
 
         # Check that the two are consistent
         self.num_groups = self.adj.shape[0]
-- 
2.43.0


From deb9f1d320579e0d5782369da8ae68d26316c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:31 +0000
Subject: [PATCH 47/48] fix: neighbour averages of the conditional ensemble use
 its own probabilities

---
 .../sparse/models/conditional.py              | 92 +++++++++++++++++++
 .../sparse/models/ensembles.py                | 24 +++--
 2 files changed, 106 insertions(+), 10 deletions(-)

diff --git a/src/graph_ensembles/sparse/models/conditional.py b/src/graph_ensembles/sparse/models/conditional.py
index c79f8a7..6750456 100644
--- a/src/graph_ensembles/sparse/models/conditional.py
+++ b/src/graph_ensembles/sparse/models/conditional.py
@@ -280,6 +280,21 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         return self._exp_in_degree
 
+    def _sum_nn_property(self, prop, ndir):
+        """Compute the expected sum of the property over the neighbours."""
+        return self.exp_av_nn_prop(
+            self.cond_p_ij,
+            self.param,
+            self.prop_out,
+            self.prop_in,
+            self.groups,
+            self.adj.indptr,
+            self.adj.indices,
+            prop,
+            ndir,
+            self.selfloops,
+        )
+
     def log_likelihood(self, g):
         """Compute the likelihood a graph given the fitted model.
         Accepts as input either a graph or an adjacency matrix.
@@ -705,6 +720,83 @@ class ConditionalInvariantModel(ScaleInvariantModel):
 
         return exp_d, exp_d_out, exp_d_in
 
+    @staticmethod
+    @jit(nopython=True)  # pragma: no cover
+    def exp_av_nn_prop(
+        p_ij,
+        param,
+        prop_out,
+        prop_in,
+        groups,
+        adj_i,
+        adj_j,
+        prop,
+        ndir,
+        selfloops,
+    ):
+        """Compute the expected average nearest neighbour property."""
+        # Compute aggregate properties
+        M = np.max(groups) + 1
+        agg_p_out = np.zeros(M, np.float64)
+        agg_p_in = np.zeros(M, np.float64)
+        agg_diag = np.zeros(M, np.float64)
+        for i, gr in enumerate(groups):
+            agg_p_out[gr] += prop_out[i]
+            agg_p_in[gr] += prop_in[i]
+            if not selfloops:
+                agg_diag[gr] += prop_out[i] * prop_in[i]
+
+        av_nn = np.zeros(prop.shape, dtype=np.float64)
+        for i in range(len(groups)):
+            a = groups[i]
+            for j in range(i + 1):
+                if (i == j) and not selfloops:
+                    continue
+
+                # Probability of each direction given its macro link
+                b = groups[j]
+                z = 1.0
+                if a == b and agg_diag[a] > 0:
+                    z = 1 - agg_diag[a] / (agg_p_out[a] * agg_p_in[a])
+                pij = 0.0
+                if b in adj_j[adj_i[a] : adj_i[a + 1]]:
+                    pij = p_ij(
+                        param, prop_out[i], prop_in[j], 1.0, agg_p_out[a], agg_p_in[b], z
+                    )
+                pji = 0.0
+                if a in adj_j[adj_i[b] : adj_i[b + 1]]:
+                    pji = p_ij(
+                        param, prop_out[j], prop_in[i], 1.0, agg_p_out[b], agg_p_in[a], z
+                    )
+
+                if i == j:
+                    av_nn[i] += pij * prop[i]
+                elif ndir == "out":
+                    av_nn[i] += pij * prop[j]
+                    av_nn[j] += pji * prop[i]
+                elif ndir == "in":
+                    av_nn[i] += pji * prop[j]
+                    av_nn[j] += pij * prop[i]
+                elif ndir == "out-in":
+                    p = pij + pji - pij * pji
+                    if a == b and a in adj_j[adj_i[a] : adj_i[a + 1]]:
+                        # The two directions share the same macro link
+                        p = p_ij(
+                            param,
+                            prop_out[i] * prop_in[j] + prop_out[j] * prop_in[i],
+                            1.0,
+                            1.0,
+                            agg_p_out[a],
+                            agg_p_in[a],
+                            z,
+                        )
+                    av_nn[i] += p * prop[j]
+                    av_nn[j] += p * prop[i]
+                else:
+                    raise ValueError("Direction of neighbourhood not right.")
+
+        return av_nn
+
     @staticmethod
     @jit(nopython=True)  # pragma: no cover
     def _binary_sample(p_ij, param, prop_out, prop_in, groups, adj_i, adj_j, selfloops):
diff --git a/src/graph_ensembles/sparse/models/ensembles.py b/src/graph_ensembles/sparse/models/ensembles.py
index a902b03..08e57ba 100644
--- a/src/graph_ensembles/sparse/models/ensembles.py
+++ b/src/graph_ensembles/sparse/models/ensembles.py
@@ -218,16 +218,7 @@ class DiGraphEnsemble(GraphEnsemble):
             raise ValueError("Neighbourhood direction not recognised.")
 
         # Compute expected property
-        av_nn = self.exp_av_nn_prop(
-            self.p_ij,
-            self.param,
-            self.prop_out,
-            self.prop_in,
-            self.prop_dyad,
-            prop,
-            ndir,
-            self.selfloops,
-        )
+        av_nn = self._sum_nn_property(prop, ndir)
 
         # Test that mask is the same
         ind = deg != 0
@@ -239,6 +230,19 @@ class DiGraphEnsemble(GraphEnsemble):
 
         return av_nn
 
+    def _sum_nn_property(self, prop, ndir):
+        """Compute the expected sum of the property over the neighbours."""
+        return self.exp_av_nn_prop(
+            self.p_ij,
+            self.param,
+            self.prop_out,
+            self.prop_in,
+            self.prop_dyad,
+            prop,
+            ndir,
+            self.selfloops,
+        )
+
     def expected_av_nn_degree(
         self,
         ddir="out",
-- 
2.43.0


From 5ad39c9db4c848c444469059ceaca7d8f4b859ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:08 +0000
Subject: [PATCH 48/48] fix: solver with a null absolute tolerance when the
 slope is null

---
 src/graph_ensembles/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_ensembles/solver.py b/src/graph_ensembles/solver.py
index 858b30a..e59eb8f 100644
--- a/src/graph_ensembles/solver.py
+++ b/src/graph_ensembles/solver.py
@@ -182,7 +182,7 @@ def monotonic_newton_solver(
         if f_p != 0:
             dx = -f / f_p
         else:
-            dx = -f / atol
+            dx = -f / max(atol, 1e-24)
 
         # Check that new x exists within the bound (x_u, x_l)
         # otherwise use secant method
-- 
2.43.0

