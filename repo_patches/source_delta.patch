From df231524e66d85c40dcef436deec8bb81d1b7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 01/49] fix: multiclass oversampling of classes tied with the
 majority class

---
 .../multiclassoversampling/_multiclassoversampling.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index cc41a20..e2a0377 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -30,7 +30,7 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     to_gen = stats[maj_label] - stats[labels[class_idx]]
     to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
 
-    return to_gen / to_gen_to_all
+    return to_gen / to_gen_to_all if to_gen > 0 else 0.0
 
 
 def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
@@ -52,7 +52,7 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-    return num_to_generate / num_to_gen_to_all
+    return num_to_generate / num_to_gen_to_all if num_to_generate > 0 else 0.0
 
 
 def has_proportion_parameter(oversampler):
-- 
2.43.0


From 7acb8e9eda7d410d53ac8f8ae697960eecc0ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 02/49] fix: equalize_1_vs_many overshot the cardinality of the
 majority class

---
 .../multiclassoversampling/_multiclassoversampling.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index e2a0377..04a939e 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -28,7 +28,7 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
         float: the proportion
     """
     to_gen = stats[maj_label] - stats[labels[class_idx]]
-    to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
+    to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
     return to_gen / to_gen_to_all if to_gen > 0 else 0.0
 
-- 
2.43.0


From a2972aaf1e15d2f18f0a60ba3684836874400e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 03/49] fix: multiclass proportions lost a sample to rounding

---
 .../multiclassoversampling/_multiclassoversampling.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index 04a939e..0566179 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -30,7 +30,8 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     to_gen = stats[maj_label] - stats[labels[class_idx]]
     to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
-    return to_gen / to_gen_to_all if to_gen > 0 else 0.0
+    # nextafter: the oversampler truncates the product, rounding must not lose one
+    return np.nextafter(to_gen / to_gen_to_all, np.inf) if to_gen > 0 else 0.0
 
 
 def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
@@ -52,7 +53,11 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-    return num_to_generate / num_to_gen_to_all if num_to_generate > 0 else 0.0
+    if num_to_generate <= 0:
+        return 0.0
+
+    # nextafter: the oversampler truncates the product, rounding must not lose one
+    return np.nextafter(num_to_generate / num_to_gen_to_all, np.inf)
 
 
 def has_proportion_parameter(oversampler):
-- 
2.43.0


From ec0ffd7a6c66387b454c4d506b7db24315b3f69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 04/49] fix: sampling job left the test fold unscaled while
 training data was scaled

---
 smote_variants/evaluation/_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index fbe1539..065b7a9 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -160,7 +160,7 @@ class SamplingJob(TimeoutJobBase):
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
-                X_test = oversampler_obj.preprocessing_transform(folding["X_test"])
+                X_test = oversampler_obj.preprocessing_transform(X_test)
                 oversampling = {
                     **oversampling,
                     "X_train": X_samp,
-- 
2.43.0


From d80a68f7ac0884d986e068316d3583b111a59be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 05/49] fix: MLPClassifierWrapper.get_params omitted max_iter

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 6344b20..9762b58 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -104,6 +104,7 @@ class MLPClassifierWrapper:
         """
         _ = deep
         return {
+            "max_iter": self.max_iter,
             "activation": self.activation,
             "hidden_layer_fraction": self.hidden_layer_fraction,
             "alpha": self.alpha,
-- 
2.43.0


From 8bdf8cab843277a9c7362f33f78b6deb1f85b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 06/49] fix: folding statistics used class labels as positions

---
 smote_variants/evaluation/_folding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 644ff9c..78b3e13 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -53,9 +53,9 @@ class Folding:
         min_label = int(np.max(labels[counts == np.min(counts)]))
         maj_label = int(labels[labels != min_label][0])
 
-        n_min = int(counts[min_label])
-        n_maj = int(counts[maj_label])
-        imb_ratio = float(counts[maj_label] / counts[min_label])
+        n_min = int(counts[labels == min_label][0])
+        n_maj = int(counts[labels == maj_label][0])
+        imb_ratio = float(n_maj / n_min)
 
         self.properties = {
             "db_n": len(dataset["data"]),
-- 
2.43.0


From 97b99ad17c4da8961d7f716f5c856055a7b9f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 07/49] fix: foldings shared one mutable fold descriptor

---
 smote_variants/evaluation/_folding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 78b3e13..a17ea94 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -126,7 +126,7 @@ class Folding:
                 "y_train": target[train],
                 "X_test": data[test],
                 "y_test": target[test],
-                "fold_descriptor": properties,
+                "fold_descriptor": properties.copy(),
             }
 
             yield folding
-- 
2.43.0


From 67731b31f1ffca0acc5698bf14cc0148fb2696cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 08/49] fix: truncated pickle caches were not recognized as
 damaged

---
 smote_variants/base/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5f93a8a..7326fa0 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -285,6 +285,8 @@ def check_if_damaged(filename, serialization="json"):
         damaged = True
     except JSONDecodeError:
         damaged = True
+    except (EOFError, UnicodeDecodeError, pickle.UnpicklingError):
+        damaged = True
 
     return damaged
 
-- 
2.43.0


From 4934b2388a574d3c3fe6c26a5057f7e0373a0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 09/49] fix: process manager deadlocked on results larger than
 the pipe buffer

---
 smote_variants/evaluation/_parallelization.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 8fef4d7..41b53d9 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -2,6 +2,7 @@
 This module implements the process based parallelization with timeout.
 """
 
+import time
 import threading
 import multiprocessing
 from queue import Empty
@@ -134,10 +135,21 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
 
     process_start_lock.release()
 
+    deadline = None
     if timeout is not None and timeout > 0:
-        process.join(timeout)
-    else:
+        deadline = time.monotonic() + timeout
+
+    # a process does not terminate until the result it has put into the queue
+    # is consumed, thus, joining it before the queue is drained can deadlock
+    while process.is_alive() and queue.empty():
+        if deadline is not None and time.monotonic() >= deadline:
+            break
+        process.join(0.05)
+
+    if process.is_alive() and not queue.empty():
+        results[idx] = queue.get()
         process.join()
+        return
 
     # if the process finished normally, the result is written into
     # the results output argument
-- 
2.43.0


From a855e580f6676e5d04e567d92cb7e94d23bc553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 10/49] fix: equal_dicts raised for dictionaries with different
 keys

---
 smote_variants/base/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 7326fa0..ba5e6fa 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -113,12 +113,12 @@ def equal_dicts(dict_0, dict_1):
     Returns:
         bool: whether the dicts are equal
     """
-    if len(dict_0) != len(dict_1):
+    if set(dict_0) != set(dict_1):
         return False
 
     for key, val in dict_0.items():
         if isinstance(val, dict):
-            if not equal_dicts(val, dict_1[key]):
+            if not isinstance(dict_1[key], dict) or not equal_dicts(val, dict_1[key]):
                 return False
         else:
             if val != dict_1[key]:
-- 
2.43.0


From 5b01c039a561ed3cd57d54933a152cbb28cbd755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 11/49] fix: p_top20 ignored the predicted probabilities

---
 smote_variants/base/_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 7c95d70..23bab5c 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -217,7 +217,8 @@ def calculate_prob_scores(test_labels, probabilities, min_label=1):
     results = {}
 
     thres = max(int(0.2 * len(test_labels)), 1)
-    results["p_top20"] = float(np.sum(test_labels[:thres] == min_label) / thres)
+    ranked_labels = test_labels[np.argsort(-probabilities, kind="stable")]
+    results["p_top20"] = float(np.sum(ranked_labels[:thres] == min_label) / thres)
     results["brier"] = float(np.mean((probabilities - test_labels) ** 2))
     results["log_loss"] = float(log_loss(test_labels, probabilities))
     results["auc"] = float(roc_auc_score(test_labels, probabilities))
-- 
2.43.0


From dce1273a40027bb0ed51f2a3b842843d53026f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 12/49] fix: ADASYN ignored proportion=0

---
 smote_variants/oversampling/_adasyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index 3314425..f6b3dc4 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -91,7 +91,7 @@ class ADASYN(OverSamplingSimplex):
 
         self.n_neighbors = n_neighbors
         self.d_th = d_th
-        self.beta = proportion or beta
+        self.beta = beta if proportion is None else proportion
         self.proportion = self.beta
         self.nn_params = nn_params
         self.n_jobs = n_jobs
-- 
2.43.0


From 4dd1e5df59426424b13e377cca69a3bfe9347bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 13/49] fix: E_SMOTE drew from the global random state

---
 smote_variants/oversampling/_e_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 68e8f0f..b5e5f0a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -209,7 +209,7 @@ class E_SMOTE(OverSampling):
 
         # creating initial mask
         mask = np.repeat([False], X.shape[1])
-        mask[np.random.choice(np.arange(mask.shape[0]), 1)] = True
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
 
         # generating initial population
         population = [[0, mask.copy()] for _ in range(n_population)]
-- 
2.43.0


From 2d38c89c553069e473052a8de20f87144fb74b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 14/49] fix: SVM_balance disturbed the global random state

---
 smote_variants/oversampling/_svm_balance.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_svm_balance.py b/smote_variants/oversampling/_svm_balance.py
index 5cb0bda..65c9838 100755
--- a/smote_variants/oversampling/_svm_balance.py
+++ b/smote_variants/oversampling/_svm_balance.py
@@ -149,13 +149,23 @@ class SVM_balance(OverSampling):
         for C in C_params:  # pylint: disable=invalid-name
             _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
 
-            svc = SVC(C=C, kernel="rbf", gamma="auto")
+            svc = SVC(
+                C=C,
+                kernel="rbf",
+                gamma="auto",
+                random_state=self._random_state_init,
+            )
             score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
             if score > best_score:
                 best_score = score
                 best_C = C  # pylint: disable=invalid-name
 
-        svc = SVC(C=best_C, kernel="rbf", gamma="auto")
+        svc = SVC(
+            C=best_C,
+            kernel="rbf",
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
 
         svc.fit(X_norm, y)
 
-- 
2.43.0


From 42c3bcd136a8a58ccfb7fa9f867af6d5dc08cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 15/49] fix: SMOTE_AMSR returned the input arrays instead of
 copies

---
 smote_variants/oversampling/_smote_amsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 342b56c..3b1ac69 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -427,7 +427,7 @@ class SMOTE_AMSR(OverSampling):
         )
         if n_to_sample == 0:
             _logger.warning("%s: Sampling is not needed", self.__class__.__name__)
-            return X, y
+            return X.copy(), y.copy()
 
         mda_scores, clf_anomaly = self._in_danger_iforest(X, y, self.min_label)
 
-- 
2.43.0


From e2ae661e2ee5a60cc4ab52098f64ec16ae51af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 16/49] fix: NEATER assumed the class labels to be 0 and 1

---
 smote_variants/oversampling/_neater.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 29ff7c5..2c9d73a 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -395,7 +395,9 @@ class NEATER(OverSampling):
             )
 
         # determining final labels
-        y_all[len(X) :] = np.argmax(prob[len(X) :], axis=1)
+        y_all[len(X) :] = np.where(
+            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
+        )
 
         return X_all, y_all
 
-- 
2.43.0


From f1e696d518b65e502b80ac0bc06f7898be9c9f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:19 +0000
Subject: [PATCH 17/49] fix: SL_graph_SMOTE assumed the class labels to be 0
 and 1

---
 smote_variants/oversampling/_sl_graph_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sl_graph_smote.py b/smote_variants/oversampling/_sl_graph_smote.py
index ab6cda3..725f092 100755
--- a/smote_variants/oversampling/_sl_graph_smote.py
+++ b/smote_variants/oversampling/_sl_graph_smote.py
@@ -139,7 +139,7 @@ class SL_graph_SMOTE(OverSampling):
         indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
 
         # Computing safe level values
-        safe_level_values = np.sum(y[indices], axis=1)
+        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
 
         # Computing skewness
         with warnings.catch_warnings():
-- 
2.43.0


From f6ff792a882e29161b059106b568a9fe581128d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 18/49] fix: ADG assumed the class labels to be 0 and 1

---
 smote_variants/oversampling/_adg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 808d9df..9636c12 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -688,7 +688,13 @@ class ADG(OverSampling):
         # M_plus is not updated as it is not used
         # the partial_results dict acts like a dataclass to reduce the clutter
         # of passing around dozens of arrays
-        partial_results, X, y = evaluate_matrices(X, y, kernel=kernel_function)
+        partial_results, X, y = evaluate_matrices(
+            X,
+            y,
+            kernel=kernel_function,
+            maj_label=self.maj_label,
+            min_label=self.min_label,
+        )
 
         # The computing of N matrix is factored into two steps, computing
         # N_plus and N_minus this is used to improve efficiency
-- 
2.43.0


From 31b1cffc49868ae26c4e32ab7baf6eff37a9f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 19/49] fix: ISOMAP_Hybrid assumed the class labels to be 0 and
 1

---
 smote_variants/oversampling/_isomap_hybrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 0e23cec..3ff2018 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -163,7 +163,10 @@ class ISOMAP_Hybrid(OverSampling):
         ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
         X_final, y_final = ncr.remove_noise(X_sm, y_sm)
 
-        if np.sum(y_final) <= 2 or np.sum(y_final == 0) <= 2:
+        if (
+            np.sum(y_final == self.min_label) <= 2
+            or np.sum(y_final == self.maj_label) <= 2
+        ):
             return self.return_copies(
                 X_sm, y_sm, "too many samples removed returning isomapped dataset"
             )
-- 
2.43.0


From 174677a85a1f7ba828cac385537c3e30fdb09564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 20/49] fix: SMMO assumed the class labels to be 0 and 1

---
 smote_variants/oversampling/_smmo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smmo.py b/smote_variants/oversampling/_smmo.py
index 1815db8..3669ae6 100755
--- a/smote_variants/oversampling/_smmo.py
+++ b/smote_variants/oversampling/_smmo.py
@@ -187,10 +187,14 @@ class SMMO(OverSamplingSimplex):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
             for ens in self.ensemble_objs:
-                predictions.append(ens.fit(X, y).predict(X))
+                predictions.append(ens.fit(X, y).predict(X) == self.min_label)
 
         # constructing ensemble prediction
-        pred = np.where(np.mean(np.vstack(predictions), axis=0) > 0.5, 1, 0)
+        pred = np.where(
+            np.mean(np.vstack(predictions), axis=0) > 0.5,
+            self.min_label,
+            self.maj_label,
+        )
 
         # create mask of minority samples to sample
         mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
-- 
2.43.0


From 1d8a1ed9d076f4f7b33217970b305644e485ba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 21/49] fix: SMOTE_IPF assumed the class labels to be 0 and 1

---
 smote_variants/oversampling/_smote_ipf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index ff092ec..abd9574 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -175,18 +175,20 @@ class SMOTE_IPF(OverSampling):
             predictions = []
             for train_index, _ in validator.split(X_samp, y_samp):
                 self.classifier_obj.fit(X_samp[train_index], y_samp[train_index])
-                predictions.append(self.classifier_obj.predict(X_samp))
+                predictions.append(
+                    self.classifier_obj.predict(X_samp) == self.min_label
+                )
 
             # do decision based on one of the voting schemes
             if self.params["voting"] == "majority":
                 pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
-                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
+                to_remove = np.where(np.not_equal(pred_votes, y_samp == self.min_label))[0]
             elif self.params["voting"] == "consensus":
                 pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
                 sum_votes = np.sum(predictions, axis=0)
                 to_remove = np.where(
                     np.logical_and(
-                        np.not_equal(pred_votes, y_samp),
+                        np.not_equal(pred_votes, y_samp == self.min_label),
                         np.equal(sum_votes, self.params["n_folds"]),
                     )
                 )[0]
-- 
2.43.0


From 82c503b5e817ae7c08e6032a6597cb5a861e124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 22/49] fix: DSRBF assumed the class labels to be 0 and 1

---
 smote_variants/oversampling/_dsrbf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_dsrbf.py b/smote_variants/oversampling/_dsrbf.py
index 2e8e707..00281ab 100755
--- a/smote_variants/oversampling/_dsrbf.py
+++ b/smote_variants/oversampling/_dsrbf.py
@@ -623,7 +623,12 @@ class DSRBF(OverSampling):
         population = [[pop, X, y, np.inf] for pop in population]
         population = sorted(
             [
-                [pop[0], pop[1], pop[2], pop[0].evaluate(pop[1], pop[2])]
+                [
+                    pop[0],
+                    pop[1],
+                    pop[2],
+                    pop[0].evaluate(pop[1], (pop[2] == self.min_label).astype(int)),
+                ]
                 for pop in population
             ],
             key=lambda x: x[3],
@@ -648,7 +653,9 @@ class DSRBF(OverSampling):
             # evaluating non-evaluated elements
             for pop in population:
                 if pop[3] == np.inf:
-                    pop[3] = pop[0].evaluate(pop[1], pop[2])
+                    pop[3] = pop[0].evaluate(
+                        pop[1], (pop[2] == self.min_label).astype(int)
+                    )
 
             # sorting the population by the loss values
             population = sorted((pop for pop in population), key=lambda x: x[3])
@@ -680,7 +687,9 @@ class DSRBF(OverSampling):
         # evaluate unevaluated elements of the population
         for pop in population:
             if pop[3] == np.inf:
-                pop[3] = pop[0].evaluate(pop[1], pop[2])
+                pop[3] = pop[0].evaluate(
+                    pop[1], (pop[2] == self.min_label).astype(int)
+                )
 
         # sorting the population
         population = sorted((pop for pop in population), key=lambda x: x[3])[:n_pop]
-- 
2.43.0


From 3203e248f1f68b6d3b03229443bf6a2f86d031ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 23/49] fix: SSO assumed the class labels to be 0 and 1

---
 smote_variants/oversampling/_sso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index f084eda..a2790a4 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -291,7 +291,7 @@ class SSO(OverSampling):
 
         # applying linear regression to find the best weights
         linreg = LinearRegression(n_jobs=self.n_jobs)
-        linreg.fit(phi, y)
+        linreg.fit(phi, (y == self.min_label).astype(int))
         f = linreg.predict(
             phi[np.where(y == self.min_label)[0]]
         )  # pylint: disable=invalid-name
-- 
2.43.0


From 2d05e55fe299452769dcfe7d2ac62d77b8ba0862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:20 +0000
Subject: [PATCH 24/49] fix: the cov_min metric tensor assumed the minority
 label to be 1

---
 smote_variants/base/_metrictensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 9fe6b85..728a91f 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -611,7 +611,9 @@ class MetricTensor:
         elif self.metric_learning_method == "cov":
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
         elif self.metric_learning_method == "cov_min":
-            cov = np.cov(X[y == 1].T)
+            labels, counts = np.unique(y, return_counts=True)
+            min_label = labels[len(counts) - 1 - np.argmin(counts[::-1])]
+            cov = np.cov(X[y == min_label].T)
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
         elif self.metric_learning_method == "MI_weighted":
             mutuali = estimate_mutual_information(X, y)
-- 
2.43.0


From 6b9cddb1665b03d8b2ab30130c8361c7b01d3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:21 +0000
Subject: [PATCH 25/49] fix: KernelADASYN replaced the original samples by
 their PCA reconstructions

---
 smote_variants/oversampling/_kerneladasyn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 986b411..2cb9d44 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -226,7 +226,9 @@ class KernelADASYN(OverSampling):
 
             X_samp, y_samp = kernela.sample(X_trans, y)
 
-            return pca.inverse_transform(X_samp), y_samp
+            X_new = pca.inverse_transform(X_samp[len(X) :])
+
+            return np.vstack([X, X_new]), y_samp
 
         samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
 
-- 
2.43.0


From 9b5ac6d5d67cdf7306788604685158a024c984fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:32 +0000
Subject: [PATCH 26/49] fix: get_params omitted constructor parameters of six
 oversamplers

---
 smote_variants/oversampling/_deago.py   | 1 +
 smote_variants/oversampling/_pdfos.py   | 1 +
 smote_variants/oversampling/_smotewb.py | 1 +
 smote_variants/oversampling/_somo.py    | 1 +
 smote_variants/oversampling/_spy.py     | 1 +
 smote_variants/oversampling/_symprod.py | 1 +
 6 files changed, 6 insertions(+)

diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index a88272a..e669449 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -311,6 +311,7 @@ class DEAGO(OverSampling):
             "e": self.encoder_params["e"],
             "h": self.encoder_params["h"],
             "sigma": self.encoder_params["sigma"],
+            "nn_params": self.nn_params,
             "ss_params": self.ss_params,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 44c1577..a79e5db 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -386,6 +386,7 @@ class PDFOS(OverSampling):
         """
         return {
             "proportion": self.proportion,
+            "metric_learning": self.metric_learning,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index b4a6760..d6e258e 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -378,5 +378,6 @@ class SMOTEWB(OverSampling):
             "max_depth": self.max_depth,
             "nn_params": self.nn_params,
             "n_iters": self.n_iters,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self, deep),
         }
diff --git a/smote_variants/oversampling/_somo.py b/smote_variants/oversampling/_somo.py
index 900cb25..4d027ff 100755
--- a/smote_variants/oversampling/_somo.py
+++ b/smote_variants/oversampling/_somo.py
@@ -433,6 +433,7 @@ class SOMO(OverSamplingSimplex):
             "sigma": self.params["sigma"],
             "learning_rate": self.params["learning_rate"],
             "n_iter": self.params["n_iter"],
+            "nn_params": self.nn_params,
             "n_jobs": self.n_jobs,
             **OverSamplingSimplex.get_params(self),
         }
diff --git a/smote_variants/oversampling/_spy.py b/smote_variants/oversampling/_spy.py
index f4fd83e..3b8d6c0 100755
--- a/smote_variants/oversampling/_spy.py
+++ b/smote_variants/oversampling/_spy.py
@@ -167,5 +167,6 @@ class SPY(OverSampling):
             "n_neighbors": self.n_neighbors,
             "nn_params": self.nn_params,
             "threshold": self.threshold,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index ae3616e..633894b 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -487,5 +487,6 @@ class SYMPROD(OverSampling):
             "m_neighbors": self.params["m_neighbors"],
             "cutoff_threshold": self.params["cutoff_threshold"],
             "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
-- 
2.43.0


From 64b97e31485effa6e70adaa1b0803704e855f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:32 +0000
Subject: [PATCH 27/49] fix: ADASYN and MSYN accepted negative proportions,
 SYMPROD invalid n_jobs

---
 smote_variants/oversampling/_adasyn.py  | 3 ++-
 smote_variants/oversampling/_msyn.py    | 3 ++-
 smote_variants/oversampling/_symprod.py | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index f6b3dc4..2c830e6 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -86,12 +86,13 @@ class ADASYN(OverSamplingSimplex):
 
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_greater_or_equal(d_th, "d_th", 0)
+        beta = coalesce(proportion, beta)
         self.check_greater_or_equal(beta, "beta", 0)
         self.check_n_jobs(n_jobs, "n_jobs")
 
         self.n_neighbors = n_neighbors
         self.d_th = d_th
-        self.beta = beta if proportion is None else proportion
+        self.beta = beta
         self.proportion = self.beta
         self.nn_params = nn_params
         self.n_jobs = n_jobs
diff --git a/smote_variants/oversampling/_msyn.py b/smote_variants/oversampling/_msyn.py
index 4594806..bc9b421 100755
--- a/smote_variants/oversampling/_msyn.py
+++ b/smote_variants/oversampling/_msyn.py
@@ -101,11 +101,12 @@ class MSYN(OverSampling):
         }
 
         super().__init__(random_state=random_state)
+        pressure = coalesce(proportion, pressure)
         self.check_greater_or_equal(pressure, "pressure", 0)
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_n_jobs(n_jobs, "n_jobs")
 
-        self.pressure = coalesce(proportion, pressure)
+        self.pressure = pressure
         self.proportion = self.pressure
         self.n_neighbors = n_neighbors
         self.nn_params = coalesce(nn_params, {})
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 633894b..b240928 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -87,6 +87,7 @@ class SYMPROD(OverSampling):
         self.check_greater_or_equal(k_neighbors, "k_neighbors", 1)
         self.check_greater_or_equal(m_neighbors, "m_neighbors", 1)
         self.check_greater_or_equal(cutoff_threshold, "cutoff_threshold", 0.01)
+        self.check_n_jobs(n_jobs, "n_jobs")
 
         self.proportion = proportion
         self.params = {
-- 
2.43.0


From eaec72603359eaf66bf0ff0471bcef176ec99cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:39 +0000
Subject: [PATCH 28/49] fix: one-sided selection raised when the Tomek links
 emptied a class

---
 smote_variants/noise_removal/_onesidedselection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smote_variants/noise_removal/_onesidedselection.py b/smote_variants/noise_removal/_onesidedselection.py
index 1c0ba60..c9bfdd6 100644
--- a/smote_variants/noise_removal/_onesidedselection.py
+++ b/smote_variants/noise_removal/_onesidedselection.py
@@ -2,6 +2,8 @@
 This module implements the one sided selection technique.
 """
 
+import numpy as np
+
 from ._noisefilter import NoiseFilter
 from ._condensednn import CondensedNearestNeighbors
 from ._tomeklinkremoval import TomekLinkRemoval
@@ -72,6 +74,11 @@ class OneSidedSelection(NoiseFilter):
 
         tomek = TomekLinkRemoval(n_jobs=self.n_jobs)
         X_tomek, y_tomek = tomek.remove_noise(X, y)  # pylint: disable=invalid-name
+
+        if len(np.unique(y_tomek)) < 2:
+            # all samples of a class were part of Tomek links
+            return X_tomek, y_tomek
+
         cnn = CondensedNearestNeighbors(n_jobs=self.n_jobs)
 
         return cnn.remove_noise(X_tomek, y_tomek)
-- 
2.43.0


From d45e67f9019ad9dc51662c9e0717fdfe0d5a7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 29/49] fix: infinite recursion of the distance matrix when one
 row exceeds the memory chunk

---
 smote_variants/base/_metrictensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 728a91f..1ad2dad 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -60,7 +60,7 @@ def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
 
     max_mem = distance_matrix_max_memory_chunk()
 
-    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
         row_block_size = int(
             np.floor(
                 X.shape[0]
-- 
2.43.0


From aec444cd965d4effb156306710045bc472f87fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 30/49] fix: radius_neighbors with a metric tensor ignored the
 default radius

---
 smote_variants/base/_metrictensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 1ad2dad..e36a8e6 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -821,6 +821,8 @@ class NearestNeighborsWithMetricTensor:
                 X, radius, return_distance, sort_results
             )
 
+        radius = coalesce(radius, self.radius)
+
         distm = pairwise_distances_mahalanobis(
             X, Y=self.X_fitted, tensor=self.metric_tensor
         )
-- 
2.43.0


From 31d1dc63506f6bc2ff9745899b6f114fbc76aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 31/49] fix: create_summary dropped the results of techniques
 without ss_params

---
 smote_variants/evaluation/_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index f38a219..99aa61e 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -160,7 +160,8 @@ def create_summary(data, scores=None, columns_to_serialize=None):
                 "classifier_module",
                 "classifier",
                 "deterministic",
-            ]
+            ],
+            dropna=False,
         )
         .apply(lambda x: _serialize_data(x, columns_to_serialize))
         .reset_index(drop=False)
-- 
2.43.0


From 8f46f7486dc8bbeb000227f8c3fce5d6e1552fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 32/49] fix: undersampling worked only with the labels 0
 (majority) and 1 (minority)

---
 .../_oversampling_driven_undersampling.py         | 15 +++++++++++----
 .../undersampling/_random_undersampling.py        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 9e63aa2..43145c4 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -56,12 +56,14 @@ class OversamplingDrivenUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
 
         X_samp, _ = self.oversampler.sample(X, y)
         X_new = X_samp[X.shape[0]:]
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
 
         dists = X_new - X_maj[:, None]
 
@@ -80,6 +82,11 @@ class OversamplingDrivenUndersampling(UnderSampling):
             X_maj = X_maj[sorting][:n_min]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
diff --git a/smote_variants/undersampling/_random_undersampling.py b/smote_variants/undersampling/_random_undersampling.py
index 07ed2d4..6ef5351 100644
--- a/smote_variants/undersampling/_random_undersampling.py
+++ b/smote_variants/undersampling/_random_undersampling.py
@@ -41,13 +41,20 @@ class RandomUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
         #mask = self.random_state.choice(np.arange(n_maj), n_min, p=np.repeat(1.0/n_maj, n_maj), replace=False)
         mask = self.random_state.choice(np.arange(n_maj), n_min, replace=False)
-        X_maj = X[y == 0][mask]
-        X_min = X[y == 1]
+        X_maj = X[y == self.maj_label][mask]
+        X_min = X[y == self.min_label]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
\ No newline at end of file
-- 
2.43.0


From 23b224cfc46e3c54ba902433d51e0eb8e8f6bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 33/49] fix: oversampling driven undersampling failed when
 distances coincide

---
 .../_oversampling_driven_undersampling.py     | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 43145c4..7f76c7e 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -65,17 +65,22 @@ class OversamplingDrivenUndersampling(UnderSampling):
         X_min = X[y == self.min_label]
         X_maj = X[y == self.maj_label]
 
-        dists = X_new - X_maj[:, None]
-
-        dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+        if len(X_new) > 0:
+            dists = X_new - X_maj[:, None]
+            dists = np.min(np.sqrt(np.sum((dists) ** 2, axis=2)), axis=1)
+        else:
+            dists = np.zeros(len(X_maj))
 
         if self.mode == "random":
-            dists = (dists - np.min(dists)) / (np.max(dists) - np.min(dists))
-            inv_dists = 1.0 - dists
-
-            p = inv_dists / np.sum(inv_dists)
-
-            mask = self.random_state.choice(np.arange(n_maj), n_min, p=p, replace=False)
+            inv_dists = np.max(dists) - dists
+            if np.sum(inv_dists > 0) >= n_min:
+                p = inv_dists / np.sum(inv_dists)
+                mask = self.random_state.choice(
+                    np.arange(n_maj), n_min, p=p, replace=False
+                )
+            else:
+                # all the candidates with positive probability are needed
+                mask = np.argsort(dists, kind="stable")[:n_min]
             X_maj = X_maj[mask]
         elif self.mode == "farthest":
             sorting = np.argsort(dists)
-- 
2.43.0


From 3ef78ae3d19fafdf1878e23a2c9e5fdf393a68ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 34/49] fix: OversamplingClassifier predicted without the
 transformation of the oversampler

---
 smote_variants/classifiers/_oversamplingclassifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 94b2d4c..717a6a2 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -57,6 +57,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
+        X = self.oversampler_obj.preprocessing_transform(X)
         return self.classifier_obj.predict(X)
 
     def predict_proba(self, X):
@@ -67,6 +68,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
+        X = self.oversampler_obj.preprocessing_transform(X)
         return self.classifier_obj.predict_proba(X)
 
     def get_params(self, deep=True):
-- 
2.43.0


From ba26834055d2cc48b64d7f6e7a7b76e445239df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 35/49] fix: MLPClassifierWrapper could not be used in
 OversamplingClassifier

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 9762b58..f3246b0 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -69,6 +69,7 @@ class MLPClassifierWrapper:
             learning_rate=self.learning_rate,
             random_state=self.random_state,
         ).fit(X, y)
+        self.classes_ = self.model.classes_
         return self
 
     def predict(self, X):
-- 
2.43.0


From d3640e8e480ed070ce57bca48ac87b1a746e07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 36/49] fix: ErrorWarningClassifier.predict returned nothing

---
 smote_variants/classifiers/_errorwarning_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_errorwarning_classifier.py b/smote_variants/classifiers/_errorwarning_classifier.py
index a7b6747..3dfd3dd 100644
--- a/smote_variants/classifiers/_errorwarning_classifier.py
+++ b/smote_variants/classifiers/_errorwarning_classifier.py
@@ -64,6 +64,7 @@ class ErrorWarningClassifier:
         Returns:
             np.array: the predicted labels
         """
+        return self.classifier.predict(X)
 
     def predict_proba(self, X):
         """
-- 
2.43.0


From d432b7968a7ea71de58581a4031ca234616ba570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 37/49] fix: preprocessing_transform failed after samplings
 that were not carried out

---
 smote_variants/oversampling/_e_smote.py       | 3 +++
 smote_variants/oversampling/_isomap_hybrid.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index b5e5f0a..f318c1c 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -267,6 +267,9 @@ class E_SMOTE(OverSampling):
         Returns:
             np.array: transformed data
         """
+        if self.mask is None:
+            # the sampling was not carried out
+            return X
         return X[:, self.mask]
 
     def get_params(self, deep=False):
diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 3ff2018..353ed97 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -183,6 +183,9 @@ class ISOMAP_Hybrid(OverSampling):
         Returns:
             np.array: the transformed data
         """
+        if not hasattr(self.isomap, "embedding_"):
+            # the sampling was not carried out
+            return X
         return self.isomap.transform(X)
 
     def get_params(self, deep=False):
-- 
2.43.0


From 0f0226d0e64fd5d531cd1a702ad9c5b0a39f94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:49 +0000
Subject: [PATCH 38/49] fix: SMOTEWB lost the samples of a minority sample
 without neighbors

---
 smote_variants/oversampling/_smotewb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index d6e258e..325fddd 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -286,6 +286,10 @@ class SMOTEWB(OverSampling):
         # all neighbours are positive
         k_max = min(indices.shape[1], k_max)
         k_arr[k_arr > k_max] = k_max
+        # the non-noise samples are among their own neighbors
+        k_arr[~noise_mask_min] = np.minimum(
+            k_arr[~noise_mask_min], indices.shape[1] - 1
+        )
 
         # setting the labels of the samples of X_pos
         fl_arr = np.empty(n_min, int)
-- 
2.43.0


From 54c6849dc53eed4ceca24eaf6f53b1c2c45d121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:49 +0000
Subject: [PATCH 39/49] fix: SMOTEWB did not pass the random state to the SMOTE
 it falls back to

---
 smote_variants/oversampling/_smotewb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index 325fddd..205e0f0 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -263,7 +263,11 @@ class SMOTEWB(OverSampling):
 
         # all data points are noise
         if len(X_not_noise) == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_neighbors = min([len(X_not_noise), k_max + 1])
@@ -309,7 +313,11 @@ class SMOTEWB(OverSampling):
         # prevent errors (missing from the original) no good or lonely
         # samples => give chance to the others
         if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-- 
2.43.0


From a7cc1e03a97e54ec0e980ccd2440d61e657d525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:49 +0000
Subject: [PATCH 40/49] fix: LN_SMOTE returned no samples without a warning

---
 smote_variants/oversampling/_ln_smote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_ln_smote.py b/smote_variants/oversampling/_ln_smote.py
index f064fbd..8d5d030 100755
--- a/smote_variants/oversampling/_ln_smote.py
+++ b/smote_variants/oversampling/_ln_smote.py
@@ -264,6 +264,9 @@ class LN_SMOTE(OverSampling):  # pylint: disable=invalid-name
             key: item for key, item in slpsln.items() if item[0] > 0 and item[1] > 0
         }
 
+        if len(slpsln) == 0:
+            return self.return_copies(X, y, "No pairs of positive safe levels")
+
         samples = self.generate_samples(
             slpsln=slpsln, n_to_sample=n_to_sample, X=X, y=y, n_neighbors=n_neighbors
         )
-- 
2.43.0


From c952cf0662dd4d0dcca22def595036d22d852d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:49 +0000
Subject: [PATCH 41/49] fix: LLE_SMOTE failed with fewer minority samples than
 components

---
 smote_variants/oversampling/_lle_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_lle_smote.py b/smote_variants/oversampling/_lle_smote.py
index 0583eeb..ccf6b92 100755
--- a/smote_variants/oversampling/_lle_smote.py
+++ b/smote_variants/oversampling/_lle_smote.py
@@ -212,7 +212,7 @@ class LLE_SMOTE(OverSamplingSimplex):
         # extracting minority samples
         X_min = X[y == self.min_label]
 
-        n_components = np.min([self.n_components, X.shape[1]])
+        n_components = np.min([self.n_components, X.shape[1], len(X_min) - 1])
         n_neighbors = np.min([self.n_neighbors, X_min.shape[0] - 1])
 
         # do the locally linear embedding
-- 
2.43.0


From 459a718edfd0a2563e6a16806b75c3b9f5f863ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:15 +0000
Subject: [PATCH 42/49] fix: G_SMOTE failed as the Gaussian kernel lacked its
 negative sign

---
 smote_variants/oversampling/_g_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 49b51e9..4ecb2c7 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -180,7 +180,7 @@ class G_SMOTE(OverSamplingSimplex):
 
             kernel_matrix = pairwise_distances(X_min) ** 2
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
-            kernel_matrix = np.exp(kernel_matrix)
+            kernel_matrix = np.exp(-kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
             H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
 
-- 
2.43.0


From b121db2d69a016c2161c233916bbacaf82430764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 43/49] fix: CBSO failed with fewer samples than neighbors

---
 smote_variants/oversampling/_cbso.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_cbso.py b/smote_variants/oversampling/_cbso.py
index 91b96ee..6976170 100755
--- a/smote_variants/oversampling/_cbso.py
+++ b/smote_variants/oversampling/_cbso.py
@@ -266,7 +266,9 @@ class CBSO(OverSamplingSimplex):
 
         # fitting nearest neighbors model to find neighbors of minority points
         nnmt = NearestNeighborsWithMetricTensor(
-            n_neighbors=self.n_neighbors + 1, n_jobs=self.n_jobs, **(nn_params)
+            n_neighbors=min([self.n_neighbors + 1, len(X)]),
+            n_jobs=self.n_jobs,
+            **(nn_params),
         )
         nnmt.fit(X)
         ind = nnmt.kneighbors(X_min, return_distance=False)
-- 
2.43.0


From 19889f85025dc80eaa12e465055efde5755d4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 44/49] fix: MDO failed when no minority sample has minority
 neighbors

---
 smote_variants/oversampling/_mdo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_mdo.py b/smote_variants/oversampling/_mdo.py
index 482aa9b..cca48e9 100755
--- a/smote_variants/oversampling/_mdo.py
+++ b/smote_variants/oversampling/_mdo.py
@@ -234,7 +234,7 @@ class MDO(OverSampling):
 
         # falling back to returning input data if all the input is considered
         # noise
-        if X_sel.shape[0] == 0:
+        if X_sel.shape[0] == 0 or np.sum(n_min) == 0:
             return self.return_copies(X, y, "No samples selected")
 
         # computing distribution
-- 
2.43.0


From 67fb19ac4084fb5b86eaa6f4a48873cfa14e327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 45/49] fix: ASMOBD failed with negative densities

---
 smote_variants/oversampling/_asmobd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_asmobd.py b/smote_variants/oversampling/_asmobd.py
index 2802f4e..60bc835 100755
--- a/smote_variants/oversampling/_asmobd.py
+++ b/smote_variants/oversampling/_asmobd.py
@@ -185,7 +185,7 @@ class ASMOBD(OverSamplingSimplex):
         if params["smoothing"] == "sigmoid":
             balance_ratio = np.abs(2.0 / (1.0 + np.exp(-param_a * ratio)) - 1)
             density = eta * core_distances + (1.0 - eta) * n_maj
-            density = density - balance_ratio
+            density = np.clip(density - balance_ratio, 0.0, None)
         else:
             density = eta * core_distances + (1.0 - eta) * n_maj
             density = eta * density + (1.0 - eta) * n_min / n_to_sample
-- 
2.43.0


From 2882ae59a110c149ff13c6631bf5056cee15f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:25 +0000
Subject: [PATCH 46/49] fix: PDFOS failed when the minority samples coincide

---
 smote_variants/oversampling/_pdfos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index a79e5db..167a5d5 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -226,6 +226,8 @@ class PDFOSKDE(RandomStateMixin):
             obj: the fitted object
         """
         self.transformer.fit(X)
+        if self.transformer.n_dim == 0:
+            raise LinAlgError("the covariance matrix is of rank zero")
         X_trans = self.transformer.transform(X)  # pylint: disable=invalid-name
 
         X_ml = self.transformer.transform(X_ml)
-- 
2.43.0


From a4a4ad4d1728f8e7e270ad923fdacd07e36d9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 47/49] fix: ClosestNeighborsInClasses returned labels that do
 not match the points

---
 smote_variants/base/_metrictensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index e36a8e6..637e1c1 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -375,7 +375,10 @@ class ClosestNeighborsInClasses:
 
         X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
         y_final = np.hstack(
-            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
+            [
+                np.repeat(0, int(np.sum(~label_maj))),
+                np.repeat(1, int(np.sum(~label_min))),
+            ]
         )
 
         return X_final, y_final
-- 
2.43.0


From 9b81be15e9bd544f5c7c73763fe2225573e68910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 48/49] fix: ISOMAP_Hybrid failed on data sets smaller than its
 neighborhoods

---
 smote_variants/oversampling/_isomap_hybrid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 353ed97..e7ff10e 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -104,6 +104,7 @@ class ISOMAP_Hybrid(OverSampling):
 
         self.proportion = proportion
         self.isomap_params = {}
+        self.n_neighbors = n_neighbors
         self.nn_params = coalesce(nn_params, {})
         self.ss_params = coalesce_dict(ss_params, ss_params_default)
         self.smote_n_neighbors = smote_n_neighbors
@@ -144,6 +145,7 @@ class ISOMAP_Hybrid(OverSampling):
         with warnings.catch_warnings():
             if suppress_external_warnings():
                 warnings.simplefilter("ignore")
+            self.isomap.set_params(n_neighbors=min([len(X) - 1, self.n_neighbors]))
             X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
 
         nn_params = {**self.nn_params}
@@ -195,7 +197,7 @@ class ISOMAP_Hybrid(OverSampling):
         """
         return {
             "proportion": self.proportion,
-            "n_neighbors": self.isomap.n_neighbors,
+            "n_neighbors": self.n_neighbors,
             "nn_params": self.nn_params,
             "ss_params": self.ss_params,
             "n_components": self.isomap.n_components,
-- 
2.43.0


From 70b02f737a3d7ae5651bb05acdc206f89f037310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:09 +0000
Subject: [PATCH 49/49] fix: cached results were reused for other folds and
 scalers

---
 smote_variants/evaluation/_evaluation.py |  8 +++++++-
 smote_variants/evaluation/_folding.py    | 21 +++++++++++++++++++++
 smote_variants/evaluation/_sampling.py   | 11 ++++++++++-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b6058c9..710f513 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -81,7 +81,13 @@ class EvaluationJob:
         target_filename = None
 
         label0 = str(classifier).encode("utf-8")
-        label1 = str((oversampling["oversampler"])).encode("utf-8")
+        label1 = str(
+            (
+                oversampling["oversampler"],
+                oversampling.get("scaler"),
+                oversampling["fold_descriptor"].get("fold_digest"),
+            )
+        ).encode("utf-8")
 
         hashcode = str(hashlib.md5(label0 + label1).hexdigest())
 
diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index a17ea94..5524547 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -4,6 +4,7 @@ This module implements the folding abstraction.
 
 import os
 import glob
+import hashlib
 import shutil
 
 import numpy as np
@@ -120,6 +121,16 @@ class Folding:
             properties["split_idx"] = idx
             properties["repeat_idx"] = idx // n_splits
             properties["fold_idx"] = idx - (idx // n_splits) * n_splits
+            properties["fold_digest"] = hashlib.md5(
+                str(
+                    (
+                        n_splits,
+                        properties["n_repeats"],
+                        idx,
+                        [int(jdx) for jdx in test],
+                    )
+                ).encode("utf-8")
+            ).hexdigest()
 
             folding = {
                 "X_train": data[train],
@@ -135,6 +146,8 @@ class Folding:
         """
         Cache the foldings
         """
+        written = []
+
         for folding in self.fold():
             repeat_idx = folding["fold_descriptor"]["repeat_idx"]
             fold_idx = folding["fold_descriptor"]["fold_idx"]
@@ -147,6 +160,14 @@ class Folding:
                 self.serialization,
                 ["X_train", "X_test", "y_train", "y_test"],
             )
+            written.append(full_name)
+
+        # the folds of other validators are not to be mixed with these ones
+        for path in glob.glob(
+            os.path.join(self.folding_dir_path, f"fold_*.{self.serialization}")
+        ):
+            if path not in written:
+                os.remove(path)
 
     def get_params(self, deep=False):
         """
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 065b7a9..23eedb1 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -89,7 +89,14 @@ class SamplingJob(TimeoutJobBase):
         """
         target_filename = None
 
-        label = str((self.oversampler, self.oversampler_params)).encode("utf-8")
+        label = str(
+            (
+                self.oversampler,
+                self.oversampler_params,
+                self.scaler,
+                folding["fold_descriptor"].get("fold_digest"),
+            )
+        ).encode("utf-8")
         hashcode = str(hashlib.md5(label).hexdigest())
 
         damaged = False
@@ -151,6 +158,7 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
+            "scaler": str(self.scaler),
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
             ),
@@ -245,6 +253,7 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
+            "scaler": str(self.scaler),
             "oversampler": oversampler_obj.get_params(),
         }
 
-- 
2.43.0

