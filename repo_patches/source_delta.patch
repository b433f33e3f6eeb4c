From 1ea42133200a7186df77ef708aa6b2d465d64190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 01/46] fix: WSNMF.update accepts hold_h, so semi-NMF models
 can be trained without the compiled module

---
 esat/model/ws_nmf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..2553a5b 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+           If True, the H matrix is not updated.
 
         Returns
         -------
@@ -64,6 +67,8 @@ class WSNMF:
             _w = np.matmul(_w_n, _w_di)
             _W.append(_w)
         W = np.array(_W)
+        if hold_h:
+            return W, H
 
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
-- 
2.43.0


From 47d27e21cdadaacd8b0f4aa7babb134366f128ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 02/46] fix: SA.save writes csv files when no header is given

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..fe42aa7 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -504,13 +504,13 @@ class SA:
            The path to the output directory, if pickle=False or the path to the pickle file. If save fails returns None
 
         """
-        factor_header = None
+        factor_header = ""
         if header is not None:
             factor_header = [f"Factor {i + 1}" for i in range(self.factors)]
             factor_header = ",".join(factor_header)
             header = ",".join(header)
         else:
-            header = []
+            header = ""
         output_directory = Path(output_directory)
         if not output_directory.is_absolute():
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
-- 
2.43.0


From 14f812bed06f37c07850e0455ded02754571133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 03/46] fix: SA.initialize no longer overwrites non-positive
 entries in the caller's H

---
 esat/model/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index fe42aa7..6b3eaee 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -298,7 +298,7 @@ class SA:
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
             H = H / H.sum(axis=0)
-        H[H <= 0.0] = 1e-12
+        H = np.where(H <= 0.0, 1e-12, H)
         self.H = H
         self.W = W
         self.init_method = init_method
-- 
2.43.0


From 50dd02281b6ec6ee2871e69ffbaf59d9b85939f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 04/46] fix: SA.train forgets the convergence state of an
 earlier training run

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 6b3eaee..5ed8a5c 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -393,6 +393,8 @@ class SA:
             self.update_step = types.MethodType(lcls['update'], self)
 
         converged = False
+        self.converged = False
+        self.converge_steps = 0
         q_list = []
 
         if self.optimized:
-- 
2.43.0


From c1a31890277c1debd7ea3d55748759c465f5688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 05/46] fix: bootstrap block size reduced to half the samples
 is an integer

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..78630bf 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -148,8 +148,8 @@ class Bootstrap:
         """
         N = self.data.shape[0]
         if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {max(1, N // 2)}")
+            self.block_size = max(1, N // 2)
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
         M = math.ceil(N / self.block_size)
-- 
2.43.0


From 36ffc5bdda710af0a09ba22520c3a0a9180e44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 06/46] fix: overlapping bootstrap blocks can start at every
 valid row

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 78630bf..8541d7e 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -168,7 +168,7 @@ class Bootstrap:
                 rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
                 index_i = index_blocks[rng_i]
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
+                i_start = int(rng.integers(low=0, high=N - self.block_size + 1, size=1)[0])
                 index_i = list(range(i_start, i_start + self.block_size))
             while row_count + len(index_i) > N:
                 index_i.pop()
-- 
2.43.0


From ef1eca179880afbec1ddfae20cfae7dc60967c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 07/46] fix: bootstrap statistics and tables no longer zero
 small profile entries of the models

---
 esat/error/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 8541d7e..e5a439f 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -560,7 +560,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = np.array(j_v["model"].H[i])
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
@@ -625,7 +625,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = np.array(self.base_H[factor])
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From 0885c2a8d334401aff3506cbfa787eea0780bc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 08/46] fix: min_timestep returns the time step it finds

---
 esat/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..6bcc1a7 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -42,17 +42,18 @@ def min_timestep(data: pd.DataFrame):
     int
         Minimum timestep.
     """
-    time_delta = data.index[1: -1] - data.index[0:-2]
+    time_delta = data.index[1:] - data.index[:-1]
     if time_delta.min().days >= 1:
         resample = f"{int(time_delta.min().days)}D"
     elif time_delta.min().seconds < 60:
         resample = f"{time_delta.min().seconds}s"
     elif time_delta.min().seconds < 60 * 60:
         resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
+    elif time_delta.min().seconds >= 60 * 60 and time_delta.min().days <= 0:
         resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
     else:
-        return "D"
+        resample = "D"
+    return resample
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From f7d660e05e73ec487afe126c3acd77730b4dc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 09/46] fix: DISP swap tables are labelled with the dQ level of
 their rows

---
 esat/error/displacement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..807fdc0 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -127,7 +127,7 @@ class Displacement:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
 
@@ -677,7 +677,7 @@ class Displacement:
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
                     table_data = np.round(100 * (self.swap_table / self.count_table), 2)
-                    dq_list = list(reversed(self.dQmax))
+                    dq_list = list(self.dQmax)
                     dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
                     table_data = np.hstack((dq_list, table_data))
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
-- 
2.43.0


From 512e9c441e6581d3336b7f0e2481882d1ae25213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 10/46] fix: DISP metadata can be written as json

---
 esat/error/displacement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 807fdc0..b3d0518 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -92,7 +92,7 @@ class Displacement:
         self.metadata = {
             "selected_model": self.selected_model,
             "features": self.features,
-            "excluded_features": self.excluded_features,
+            "excluded_features": sorted(self.excluded_features),
             "max_search": self.max_search,
             "threshold_dQ": self.threshold_dQ
         }
-- 
2.43.0


From 8760cb9d7455f0f95e4826ec30cb00dde78b19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 11/46] fix: DISP swap counts go to the factor they were found
 for, also for results arriving out of order

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b3d0518..998b92e 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -605,8 +605,10 @@ class Displacement:
                     compiled_data["feature"].append(self.feature_labels[feature_j])
         self.compiled_results = pd.DataFrame(data=compiled_data)
 
-        factor_i = 0
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
         for factor, factor_results in self.increase_results.items():
+            factor_i = int(factor.split("-")[1]) - 1
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -614,9 +616,8 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
-        factor_i = 0
         for factor, factor_results in self.decrease_results.items():
+            factor_i = int(factor.split("-")[1]) - 1
             for feature, feature_results in factor_results.items():
                 dQ_i = 0
                 for dQ, dQ_results in feature_results.items():
@@ -624,7 +625,6 @@ class Displacement:
                     if dQ_results["swap"]:
                         self.swap_table[dQ_i, factor_i] += 1
                     dQ_i += 1
-            factor_i += 1
 
     def save(self, disp_name: str,
              output_directory: str,
-- 
2.43.0


From 6ff5bd184358f84dc43674c198266910feb1d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 12/46] fix: BS-DISP uses every bootstrap run once and the
 lower bounds for the lower bound

---
 esat/error/bs_disp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..60af755 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -227,11 +227,12 @@ class BSDISP:
         dQ_drop = disp_result["dQ_drop"]
         disp_profiles = [profiles]
         disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        self.n_drops = 1 if any(dQ_drop < 0.0) else 0
+        for result_i in list(self.disp_results.keys())[1:]:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
@@ -254,6 +255,9 @@ class BSDISP:
         self.compiled_results["conc_min"] = conc_min
         self.compiled_results["dQ_drop"] = dQ_drop
 
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.disp_swap = 0
         for result_i in self.disp_results.keys():
             self.swap_table = self.swap_table + self.disp_results[result_i].swap_table
             self.count_table = self.count_table + self.disp_results[result_i].count_table
-- 
2.43.0


From 09497786ebc63b748ca064a76361197bb60fab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 13/46] fix: the BS-DISP worker unpacks its arguments, so
 parallel runs work

---
 esat/error/bs_disp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 60af755..b29aa9a 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -201,7 +201,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From e7fda9beb437243d970565a225b42c6f01d74f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 14/46] fix: BS-DISP swap table is labelled with the dQ level
 of its rows

---
 esat/error/bs_disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index b29aa9a..6aef48a 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -286,7 +286,7 @@ class BSDISP:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
+        dq_list = list(self.dQmax)
         dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
         table_data = np.hstack((dq_list, table_data))
         logger.info(f"Largest dQ decrease: {round(largest_dQ_change, 2)}, # of Q drops: {self.n_drops}, "
-- 
2.43.0


From 50919b78799d467863ad0f14adc39492255dd016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 15/46] fix: add_constraint rejects unknown targets, unknown
 types and sample indices outside the contributions

---
 esat/rotational/constrained.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..90d874a 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -224,11 +224,18 @@ class ConstrainedModel:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
             constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+        else:
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets: feature, sample")
+            return False
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types: {Constraint.type_list}")
+            return False
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From fb19d4a8e23dc0cea4a25fce24ca357b53b84dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 16/46] fix: 'define limits' pulls values above the maximum
 back and leaves values inside the limits alone

---
 esat/rotational/constrained.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 90d874a..9b75fb9 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -355,9 +355,7 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
-                else:
-                    new_value = current_value
+                    new_value = constraint.target_values[1] - current_value
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From 070f4570182b14703ea28563a21ce98734c3fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 17/46] fix: pull down search scales the current value, not the
 last value tried

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 9b75fb9..78c29ec 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -597,13 +597,14 @@ class ConstrainedModel:
         p_mod = 0.0
         new_value = 0.0
         max_seach_i = 30
+        base_value = _H[index] if target == "feature" else _W[index]
 
         while not value_found:
             if target == "feature":
-                new_value = _H[index] * modifier
+                new_value = base_value * modifier
                 _H[index] = new_value
             else:
-                new_value = _W[index] * modifier
+                new_value = base_value * modifier
                 _W[index] = new_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
-- 
2.43.0


From 87c14f5555ac2a4c5c2302a501518c20568ed871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 18/46] fix: pull up search no longer returns a value above the
 dQ limit reached by the last doubling

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 78c29ec..1c0c0c2 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -652,7 +652,7 @@ class ConstrainedModel:
             else:
                 high_found = True
             high_search_i += 1
-            if high_search_i >= max_search_i:
+            if high_search_i >= max_search_i and not high_found:
                 return new_value
         new_value = 0.0
         modifier = (high_modifier + low_modifier) / 2.0
-- 
2.43.0


From 7bec9bbf19b985a608a7a447d7b194cd6469e41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 19/46] fix: pull to value search moves back towards the
 current value when the target is above it

---
 esat/rotational/constrained.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 1c0c0c2..50aad26 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -696,12 +696,9 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        # The high value is the side of the current value, where the search goes back to when dQ is above the limit.
+        high_value = current_value
+        low_value = target_value
 
         mid_value = (high_value + low_value) / 2
 
-- 
2.43.0


From 3b587d759b7e0d92ffff247b4322b0654d7377a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 20/46] fix: the constrained model holds the profiles its
 losses and reconstruction were calculated from

---
 esat/rotational/constrained.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 50aad26..4c36f3c 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -532,6 +532,7 @@ class ConstrainedModel:
         self.constrained_model = SA(V=V, U=U, factors=self.base_model.factors, method=self.base_model.method,
                                     seed=self.base_model.seed)
         self.constrained_model.initialize(H=H_i, W=W_i)
+        self.constrained_model.H = H_i          # initialize replaces zeros in H, the losses are of the unchanged factors
         self.constrained_model.WH = np.matmul(W_i, H_i)
         self.constrained_model.metadata["max_iterations"] = max_iterations
         self.constrained_model.metadata["converge_delta"] = converge_delta
-- 
2.43.0


From 77b541aa849ffb38022ed36ef7e774ae28977417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 21/46] fix: rows with a missing value in either the data or
 the uncertainty are not handed to a model

---
 esat/data/datahandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..2841e7d 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -322,8 +322,9 @@ class DataHandler:
         # Ensure no zero values in data or uncertainty
         _input_nans = _input_data.isna().any(axis=1)
         _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        _complete = ~_input_nans & ~_uncertainty_nans
+        _input_data = _input_data[_complete]
+        _uncertainty_data = _uncertainty_data[_complete]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
-- 
2.43.0


From 019e4a2617566a2146207eae94ed74029866c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 22/46] fix: zeros are replaced by a number that is not zero in
 single precision

---
 esat/data/datahandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 2841e7d..6a3ddb9 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -17,7 +17,8 @@ from esat.utils import min_timestep
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
 logger = logging.getLogger(__name__)
 
-EPSILON = sys.float_info.min
+# smallest positive normal number of the float32 matrices handed to a model
+EPSILON = float(np.finfo("float32").tiny)
 
 
 class DataHandler:
-- 
2.43.0


From cf75ce46891cc6bc941821eac2a64b948cdf605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 23/46] fix: set_category refuses features that are not in the
 data instead of adding them to the metrics

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 6a3ddb9..ff531b8 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -146,6 +146,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"Unknown feature: {feature}, unable to set its category")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From a27cc50755f4993e5557e2569adb21bad8ff3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 24/46] fix: the source labels of merged datasets are not
 handed to a model as a feature

---
 esat/data/datahandler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index ff531b8..6688e9d 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -287,13 +287,17 @@ class DataHandler:
         """
         Sets the processed input and uncertainty datasets.
         """
+        # The source labels of merged datasets are not a feature
+        _input_data = self.input_data.drop(labels="source_label", axis=1, errors="ignore")
+        _uncertainty_data = self.uncertainty_data.drop(labels="source_label", axis=1, errors="ignore")
+
         # Drop columns if specified
         if self.drop_col is not None:
-            _input_data = copy.copy(self.input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
+            _input_data = copy.copy(_input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
+            _uncertainty_data = copy.copy(_uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
         else:
-            _input_data = copy.copy(self.input_data).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data).astype("float32")
+            _input_data = copy.copy(_input_data).astype("float32")
+            _uncertainty_data = copy.copy(_uncertainty_data).astype("float32")
 
         # Drop location columns if specified
         if self.loc_cols is not None:
-- 
2.43.0


From 31ccf1c289d8003b9fdc165d8b9b371c9c6e2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 25/46] fix: comparing factors skips the models a batch has no
 result for

---
 eval/factor_comparison.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..dc7d16b 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -260,7 +260,7 @@ class FactorCompare:
         contribution_results = {}
         wh_results = {}
 
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             correlation_results[m] = {}
             contribution_results[m] = {}
             wh_results[m] = {}
@@ -271,7 +271,7 @@ class FactorCompare:
             base_i = self.base_profile_df[i].astype(float)
             base_contribution_i = self.base_contribution_df[i].astype(float)
             base_wh = self.base_WH[i].flatten()
-            for m in range(len(self.sa_model_dfs)):
+            for m in self.sa_model_dfs:
                 model_m = self.sa_model_dfs[m]["H"]
                 model_contribution_m = self.sa_model_dfs[m]["W"]
                 model_wh = self.sa_model_dfs[m]["WH-element"]
@@ -313,7 +313,7 @@ class FactorCompare:
 
         pbar = tqdm(total=permutations_n*len(self.sa_model_dfs),
                     desc="Calculating average correlation for all permutations for Model: 1")
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             # Each Model
             permutation_results = {}
             model_contribution_results = {}
-- 
2.43.0


From 7fd14420bdccddb94988fe16723a7520c879da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 26/46] fix: the reconstruction table of a compared model holds
 its cells in place

---
 eval/factor_comparison.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index dc7d16b..5b1807c 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -230,11 +230,10 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
 
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
-- 
2.43.0


From d0b8c57d89efd7698d69f3a8a266d24111a48fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 27/46] fix: Q(true) of the base solution is calculated with
 the uncertainties

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 5b1807c..b4883a6 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -393,7 +393,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From 0dcc9f125a5d7ed62e657062f4104843333b77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 28/46] fix: the factor map of perturbed models is one-to-one,
 optimal and indexed by base factor

---
 eval/factor_comparison.py | 16 ++++------------
 eval/perturbation.py      |  2 +-
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index b4883a6..dc2f16e 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -4,8 +4,7 @@ import numpy as np
 import pandas as pd
 from itertools import permutations
 import multiprocessing as mp
-from scipy.sparse import csr_matrix
-from scipy.sparse.csgraph import min_weight_full_bipartite_matching
+from scipy.optimize import linear_sum_assignment
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
 from esat.metrics import q_loss
@@ -578,29 +577,22 @@ class FactorCompareV2:
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
-            # Step 1, all optimal value indices are unique and no other values need to be checked.
-            if (np.unique(optimal_indices, return_counts=True)[1].max() == 1):
-                model_mapping = optimal_indices
-            else:
-                m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
+            # row j of the matrix holds the metric of base factor j with every model factor
+            _, model_mapping = linear_sum_assignment(mapping_matrix, maximize=maximize)
             optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
             for j, oi in enumerate(optimal_index_tuples):
                 ele_values = mapping_matrix[oi]
                 mapping_values[j] = np.round(ele_values, 4)
 
-            batch_mapping[i] = optimal_indices
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..779d4e9 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -375,7 +375,7 @@ class Perturbation:
         factor_corr_fig = make_subplots()
         factor_corr = np.zeros(shape=(self.models, len(factor_labels)))
         for i, v in self.perturb_mapping.items():
-            factor_corr[i] = np.array(self.perturb_correlations[i])[v]
+            factor_corr[i] = np.array(self.perturb_correlations[i])
         for i in range(len(factor_labels)):
             i_corr_means = factor_corr[:, i]
             factor_corr_fig.add_trace(go.Box(y=i_corr_means, name=factor_labels[i]))
-- 
2.43.0


From 3a3a65ca90ffd56b0b8d1bd74387483acff18bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 29/46] fix: perturbation leaves the cells outside the
 requested share as they are

---
 eval/perturbation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index 779d4e9..1b96fbf 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -178,11 +178,10 @@ class Perturbation:
             i_mask = rng.random(size=self.U[:, i].shape) > _p
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
+            # only the requested share of the cells is perturbed, the others keep their uncertainty
+            i_logn[i_mask] = 1.0
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
-            ij_u = i_u[:, i]
-            ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
+            ij_u = i_u[:, i] * i_logn
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From c9fe79b8add85af60bf9779eb123f0f8d9194cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 30/46] fix: the factor catalog counts every model it was given

---
 eval/factor_catalog.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..2d2a91b 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -285,8 +285,7 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count < model_index:
-            self.model_count = model_index+1
+        self.model_count = max(self.model_count, model_index + 1)
         add_new = False
         if self.idx == 0:
             add_new = True
-- 
2.43.0


From ea0753177b60c5f91be96aa35635c468c08e8326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 31/46] fix: a catalog factor keeps the threshold it is given

---
 eval/factor_catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 2d2a91b..ade511b 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -39,6 +39,8 @@ class Factor:
                 self.threshold = 0.1
             else:
                 self.threshold = 0.9
+        else:
+            self.threshold = threshold
 
     def __repr__(self):
         return f"Factor: {self.name}, Count: {len(self.model)}, Mean Corr: {np.round(np.mean(self.correlation),4)}, Method: {self.method}"
-- 
2.43.0


From 0e9cb3ce75b67faa46adbf6a24fe82aed03fff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 32/46] fix: catalog factors are matched by the lowest error
 for raae and the highest correlation for profiles

---
 eval/factor_catalog.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index ade511b..2a72651 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -230,10 +230,12 @@ class FactorCatalog:
             The correlation of the best factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        # the raae is an error, the lower the better; profiles are always compared by their correlation
+        is_error = self.method == "raae" and not profile_only
+        best_corr = np.inf if is_error else 0.0
         for f_label, f in self.factors.items():
             corr = f.check(H_i, W_i, profile_only)
-            if self.method == "raae":
+            if is_error:
                 if corr < best_corr:
                     best_corr = corr
                     best_factor = f_label
@@ -289,10 +291,10 @@ class FactorCatalog:
         """
         self.model_count = max(self.model_count, model_index + 1)
         add_new = False
-        if self.idx == 0:
-            add_new = True
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
-        if self.method == "raae":
+        if best_factor is None:
+            add_new = True
+        elif self.method == "raae" and not profile_only:
             if best_corr > self.threshold:
                 add_new = True
         else:
@@ -389,15 +391,17 @@ class FactorCatalog:
             The correlation of the most correlated factor in the catalog
         """
         best_factor = None
-        best_corr = 0.0
+        profile_only = any(len(fi[1]) != f.samples for f in self.factors.values() for fi in factor.factor)
+        is_error = self.method == "raae" and not profile_only
+        best_corr = np.inf if is_error else 0.0
         for f_label in tqdm(self.factors.keys(), desc="Comparing Cataloged Factors", leave=True):
             f = self.factors[f_label]
             corr_list = []
             for fi in tqdm(factor.factor, desc="Comparing Factor Members", leave=False):
-                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
+                corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=profile_only)
                 corr_list.append(corr)
             mean_corr = np.mean(corr_list)
-            if mean_corr > best_corr:
+            if mean_corr < best_corr if is_error else mean_corr > best_corr:
                 best_corr = mean_corr
                 best_factor = f_label
         return best_factor, best_corr
-- 
2.43.0


From 1e725937527060c5b182feedb2183384dda77d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 33/46] fix: the factor catalog skips the models a batch has no
 result for

---
 eval/factor_catalog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 2a72651..4a78960 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -334,12 +334,15 @@ class FactorCatalog:
         if self.exclude_outliers:
             loss_list = []
             for model in batch_results.results:
-                loss_list.append(model.Qtrue)
+                if model is not None:
+                    loss_list.append(model.Qtrue)
             loss_min = np.min(loss_list)
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
         for i in tnrange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
+            if model is None:
+                continue
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
                     continue
-- 
2.43.0


From 02df8ce3443aff3e9805138f2fca2515ebc2c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 34/46] fix: Q(robust) of the synthetic solution is the loss
 value, not the loss and its weights

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..31ef737 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -290,7 +290,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust, _ = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From 3aebc65130d3d98e62e6f00c15c858de3f52ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 35/46] fix: synthetic data with a single factor can be
 generated

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 31ef737..6eab91c 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -147,7 +147,7 @@ class Simulator:
             factor_list = list(range(self.factors_n))
             for i in range(self.features_n):
                 # the number of factors which contribute to current feature
-                factor_features_n = self.rng.integers(1, self.factors_n, 1)
+                factor_features_n = self.rng.integers(1, max(self.factors_n, 2), 1)
                 # the specific factors which contribute to current feature
                 factor_feature_selected = self.rng.choice(factor_list, size=factor_features_n, replace=False)
                 for j in factor_feature_selected:
-- 
2.43.0


From 1171d48e88588eea623b80f64a533d10ee9e8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 36/46] fix: supplied synthetic profiles are copied, not
 changed in place

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 6eab91c..8f5b739 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -154,7 +154,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = np.array(profiles, dtype=float)
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From e970eeb73cf421906d8599c7a77bf468369d7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 37/46] fix: periodic and logistic synthetic contributions
 cover all samples

---
 eval/simulator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 8f5b739..bf5e4c0 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -204,7 +204,7 @@ class Simulator:
             n_periods = int(1.0/frequency) + 1
             for i in range(0, n_periods+1):
                 if i == n_periods:
-                    steps = self.samples_n - (2 * int(self.samples_n/n_periods))
+                    steps = max(0, self.samples_n - (2 * int(self.samples_n/n_periods)))
                 else:
                     steps = int(self.samples_n/n_periods)
                 if i % 2 == 0:
@@ -216,8 +216,10 @@ class Simulator:
             curve_y = minimum + (maximum - minimum)/(1.0 + np.exp(-curve_x))
         elif curve_type == "periodic":
             n_periods = int(1.0/frequency) + 1
-            curve_a = np.linspace(-np.pi, np.pi, int(self.samples_n / n_periods))
-            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_periods + 1)
+            curve_a = np.linspace(-np.pi, np.pi, max(2, int(self.samples_n / n_periods)))
+            # whole periods, repeated as often as it takes to cover all samples
+            n_repeats = -(-self.samples_n // (len(curve_a) - 1))
+            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_repeats)
             curve_x = curve_x[0:self.samples_n]
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
-- 
2.43.0


From f8a03fea6c5144d019098de7218d15195e15c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 38/46] fix: uniform synthetic contributions keep to the
 minimum

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index bf5e4c0..bf809b1 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -224,7 +224,7 @@ class Simulator:
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-            curve_y = self.rng.random(size=(self.samples_n, 1)) * float(maximum)
+            curve_y = minimum + self.rng.random(size=(self.samples_n, 1)) * float(maximum - minimum)
         curve_y = curve_y[:self.samples_n]
         y_data = self.rng.normal(loc=curve_y, scale=scale, size=curve_y.shape).flatten()
         y_data[y_data <= 0.0] = 1e-12
-- 
2.43.0


From 33c1b231ee57f070331f487193fe34480478e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 39/46] fix: the test error of a factor estimation sample is
 that of the masked cells

---
 esat/estimator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..8ae8509 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -71,9 +71,7 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
         _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
-- 
2.43.0


From 08919abd30a9c468624c1d3154ac95df60d9a7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 40/46] fix: factor estimation samples do not train on the
 cells they are tested on

---
 esat/estimator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 8ae8509..4e5e587 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -6,6 +6,7 @@ import pandas as pd
 import multiprocessing as mp
 import plotly.graph_objects as go
 from plotly.subplots import make_subplots
+from esat.metrics import q_loss, qr_loss
 from esat.model.sa import SA
 from tqdm import tqdm
 
@@ -73,7 +74,14 @@ class FactorEstimator:
         m_train = np.count_nonzero(mask)
         i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
-        _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
+        # the masked values are held out of the training, handled as missing values are: each is replaced by the mean of the
+        # values of its feature that are not masked (of all values, when there are none), with an uncertainty of four times
+        # that mean
+        f_train = np.sum(mask, axis=0)
+        f_mean = np.where(f_train > 0, np.sum(V * mask, axis=0) / np.maximum(f_train, 1), np.sum(V * mask) / max(m_train, 1))
+        V_train = np.where(mask == 1, V, f_mean)
+        U_train = np.where(mask == 1, U, np.maximum(4.0 * np.abs(f_mean), np.max(U * mask, axis=0)))
+        _sa = SA(V=V_train, U=U_train, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
         _sa.train(max_iter=max_iter, converge_delta=converge_delta, converge_n=converge_n)
         residuals = V - _sa.WH
@@ -83,7 +91,9 @@ class FactorEstimator:
         test_residuals = np.multiply(i_mask, s_residuals)
         train_mse = np.round(train_residuals.sum()/m_train, 5)
         test_mse = np.round(test_residuals.sum()/m_test, 5)
-        return train_mse, test_mse, factor_n, _sa.Qtrue, _sa.Qrobust
+        q_true = q_loss(V=V, U=U, W=_sa.W, H=_sa.H)
+        q_robust, _ = qr_loss(V=V, U=U, W=_sa.W, H=_sa.H)
+        return train_mse, test_mse, factor_n, q_true, q_robust
 
     def run(self, samples: int = 200, min_factors: int = 2, max_factors: int = 15, max_iterations: int = 2000,
             converge_delta: float = 1.0, converge_n: int = 10):
-- 
2.43.0


From 29d0726ba8e0bdf954a2392bc18355ca1de510f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 41/46] fix: a factor count without a sample does not make the
 factor estimate fail

---
 esat/estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 4e5e587..b77e7b2 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -167,7 +167,7 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.max(delta_mse_r)
+        c = 1.01 * np.nanmax(delta_mse_r)
         ratio_delta = [np.nan]
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
@@ -175,7 +175,7 @@ class FactorEstimator:
             ratio_delta.append(rd)
         ratio_delta.append(np.nan)
 
-        mse_min = np.min(self.test_mse)
+        mse_min = np.nanmin(self.test_mse)
         k_est = []
         for factor_n in range(0, self.max_factors-self.min_factors):
             rd = mse_min/(self.test_mse[factor_n]*np.power(factor_n+self.min_factors, self.k_coef))
-- 
2.43.0


From 65fe63d27275bb183d8d9f3e5f98f4d316d9a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 42/46] fix: a sequential batch hands each model its own start
 of a stack of factors

---
 esat/model/batch_sa.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..33950a7 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -292,7 +292,17 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H = self.H
+                        if self.H is not None:
+                            self.H = np.array(self.H)
+                            if len(self.H.shape) == 3:
+                                i_H = self.H[model_i - 1]
+                        i_W = self.W
+                        if self.W is not None:
+                            self.W = np.array(self.W)
+                            if len(self.W.shape) == 3:
+                                i_W = self.W[model_i - 1]
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
-- 
2.43.0


From fe4b72934db1c92603fbf7d9278f00b0e2ee2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 43/46] fix: a sequential batch delays holding the profiles as
 a parallel one does

---
 esat/model/batch_sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 33950a7..1567485 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -309,7 +309,7 @@ class BatchSA:
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
-                                        progress_callback=self.progress_callback)
+                                        delay_h=self.delay_h, progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-- 
2.43.0


From 111fb6ee1c5c0bbf4bd9d5b81b64d13aa3954c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 44/46] fix: the RMSE of a feature is the root of its mean
 squared residual

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..cac02a7 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(float(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2))), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From 479dee7329acfde4a506d4b4ee71fe0af2c93a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 45/46] fix: residual statistics are scaled by the
 uncertainties of the model, not of the loaded table

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index cac02a7..e6b5a01 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -142,7 +142,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.model.U
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From 1699f4b52e62e4f635dccb9ea1996afa5ebc3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 46/46] fix: saving a bootstrap to a pickle file returns its
 path

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index e5a439f..a3014c8 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -792,7 +792,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0

