From 569582a9fff8ca39c54e0e7b73b045094dfb6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:08 +0000
Subject: [PATCH 01/23] fix: cSIL incremental dissimilarities of the updated
 cluster to the other centroids

The cross term was counted once instead of twice for a new cluster and the new
sample was counted twice in it for an existing one, so the incremental value
differed from the batch value.
---
 src/cvi/modules/cSIL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 93c0911..21d1dd3 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -85,7 +85,7 @@ class cSIL(_base.CVI):
                     C = (
                         CP_new
                         + np.inner(self._v[cl, :], self._v[cl, :])
-                        - np.inner(G_new, self._v[cl, :])
+                        - 2 * np.inner(G_new, self._v[cl, :])
                     )
                     S_col_new[cl] = C
                     C = (
@@ -140,7 +140,7 @@ class cSIL(_base.CVI):
                     self._CP[i_label]
                     + np.inner(diff_x_v, diff_x_v)
                     + self._n[i_label] * np.inner(self._v[cl, :], self._v[cl, :])
-                    - 2 * np.inner(G_new, self._v[cl, :])
+                    - 2 * np.inner(self._G[i_label, :], self._v[cl, :])
                 )
                 S_col_new[cl] = C / n_new
                 # Row "bmu_temp" - E
-- 
2.43.0


From ad57711eab9ac3ec43f8cb221c73d9820e72f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:12 +0000
Subject: [PATCH 02/23] fix: batch mode with labels other than 0..k-1

Cluster members were selected by comparing the labels with the position of the
cluster instead of with its label, so any other integer labels gave empty
clusters and NaN.
---
 src/cvi/modules/CH.py   | 2 +-
 src/cvi/modules/DB.py   | 2 +-
 src/cvi/modules/GD43.py | 2 +-
 src/cvi/modules/GD53.py | 2 +-
 src/cvi/modules/PS.py   | 2 +-
 src/cvi/modules/WB.py   | 2 +-
 src/cvi/modules/XB.py   | 2 +-
 src/cvi/modules/cSIL.py | 4 ++--
 src/cvi/modules/rCIP.py | 2 +-
 9 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/cvi/modules/CH.py b/src/cvi/modules/CH.py
index 8a26113..47ee935 100644
--- a/src/cvi/modules/CH.py
+++ b/src/cvi/modules/CH.py
@@ -148,7 +148,7 @@ class CH(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/DB.py b/src/cvi/modules/DB.py
index 56275cd..a350aba 100644
--- a/src/cvi/modules/DB.py
+++ b/src/cvi/modules/DB.py
@@ -175,7 +175,7 @@ class DB(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD43.py b/src/cvi/modules/GD43.py
index 388780a..0ef6fba 100644
--- a/src/cvi/modules/GD43.py
+++ b/src/cvi/modules/GD43.py
@@ -169,7 +169,7 @@ class GD43(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/GD53.py b/src/cvi/modules/GD53.py
index 4134a40..640cece 100644
--- a/src/cvi/modules/GD53.py
+++ b/src/cvi/modules/GD53.py
@@ -170,7 +170,7 @@ class GD53(_base.CVI):
         for ix in range(self._n_clusters):
             # subset_indices = lambda x: labels[x] == ix
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/PS.py b/src/cvi/modules/PS.py
index 83b9101..4bd53b3 100644
--- a/src/cvi/modules/PS.py
+++ b/src/cvi/modules/PS.py
@@ -139,7 +139,7 @@ class PS(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/WB.py b/src/cvi/modules/WB.py
index d1694eb..32998cc 100644
--- a/src/cvi/modules/WB.py
+++ b/src/cvi/modules/WB.py
@@ -150,7 +150,7 @@ class WB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/XB.py b/src/cvi/modules/XB.py
index 53dea02..d5b1e1c 100644
--- a/src/cvi/modules/XB.py
+++ b/src/cvi/modules/XB.py
@@ -166,7 +166,7 @@ class XB(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 21d1dd3..7bb9512 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -195,7 +195,7 @@ class cSIL(_base.CVI):
         D = np.zeros((self._n_samples, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
@@ -211,7 +211,7 @@ class cSIL(_base.CVI):
 
         for ix in range(self._n_clusters):
             for jx in range(self._n_clusters):
-                subset_ind = [x for x in range(len(labels)) if labels[x] == jx]
+                subset_ind = [x for x in range(len(labels)) if labels[x] == u[jx]]
                 self._S[jx, ix] = sum(D[ix, subset_ind]) / self._n[jx]
 
     @_base._add_docs(_base._evaluate_doc)
diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index e9bf5a4..5b3b419 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -175,7 +175,7 @@ class rCIP(_base.CVI):
 
         for ix in range(self._n_clusters):
             subset_indices = (
-                [x for x in range(len(labels)) if labels[x] == ix]
+                [x for x in range(len(labels)) if labels[x] == u[ix]]
             )
             subset = data[subset_indices, :]
             self._n[ix] = subset.shape[0]
-- 
2.43.0


From 3fa66d0e710fd5ea4ddb40ac9533e2620b7b0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:03 +0000
Subject: [PATCH 03/23] fix: compute on a private double-precision copy of the
 data

The running mean of several indices aliased the first sample, so a caller
reusing its sample buffer corrupted it, and products of small integer types
overflowed (cSIL incremental, rCIP batch).
---
 src/cvi/modules/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index e931411..0a04d06 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -136,7 +136,8 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
-            self._param_inc(data, label)
+            # Keep a private double-precision copy, as the sample may be retained
+            self._param_inc(np.array(data, dtype=float), label)
 
         # Otherwise, we got 2D data and do the correct update
         elif (data.ndim == 2):
@@ -151,7 +152,7 @@ class CVI():
                     )
 
                 # Do a batch update
-                self._param_batch(data, label)
+                self._param_batch(np.asarray(data, dtype=float), label)
 
             # Otherwise, we are already setup
             else:
-- 
2.43.0


From d374fe200d361bf8884472c0c922fb05c678e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:07 +0000
Subject: [PATCH 04/23] fix: reject incremental samples after a batch update

Switching from batch to incremental is documented as unsupported, but such a
sample was silently put into the first cluster, or failed with IndexError.
---
 src/cvi/modules/_base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 0a04d06..2d18873 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -68,6 +68,7 @@ class CVI():
         self._n_clusters = 0
         self.criterion_value = 0.0
         self._is_setup = False
+        self._is_batch = False
 
     def _setup(self, sample: np.ndarray):
         """
@@ -102,6 +103,7 @@ class CVI():
         # Infer the data dimension and number of samples
         self._n_samples, self._dim = data.shape
         self._is_setup = True
+        self._is_batch = True
 
     @abstractmethod
     def _param_inc(self, sample: np.ndarray, label: int):
@@ -136,6 +138,13 @@ class CVI():
 
         # If we got 1D data, do a quick update
         if (data.ndim == 1):
+
+            # Error until batch to incremental is supported
+            if self._is_batch:
+                raise ValueError(
+                    "Switching from batch to incremental not supported"
+                )
+
             # Keep a private double-precision copy, as the sample may be retained
             self._param_inc(np.array(data, dtype=float), label)
 
-- 
2.43.0


From acf94474686c520c2fbcdb17a40c9ebd24023b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 05/23] fix: reject samples with a different number of features
 up front

The label was already registered when such a sample failed, so that later
samples were counted in the wrong cluster, and a sample with one feature was
broadcast over all features.
---
 src/cvi/modules/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 2d18873..3eb14e1 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -145,6 +145,12 @@ class CVI():
                     "Switching from batch to incremental not supported"
                 )
 
+            # Check that the sample has as many features as those before it
+            if self._is_setup and len(data) != self._dim:
+                raise ValueError(
+                    f"Expected {self._dim} features, recieved {len(data)}"
+                )
+
             # Keep a private double-precision copy, as the sample may be retained
             self._param_inc(np.array(data, dtype=float), label)
 
-- 
2.43.0


From c1df67c55b41ad92e4588fc9dc907a9d92729d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:17 +0000
Subject: [PATCH 06/23] fix: reject batches without exactly one label per
 sample

Surplus samples were counted but put into no cluster, and surplus labels failed
with IndexError after the object had been marked as used.
---
 src/cvi/modules/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cvi/modules/_base.py b/src/cvi/modules/_base.py
index 3eb14e1..2ebc983 100644
--- a/src/cvi/modules/_base.py
+++ b/src/cvi/modules/_base.py
@@ -166,6 +166,12 @@ class CVI():
                         "Batch CVI mode requires at least two unique labels"
                     )
 
+                # Check that there is exactly one label per sample
+                if len(label) != len(data):
+                    raise ValueError(
+                        "Batch CVI mode requires one label per sample"
+                    )
+
                 # Do a batch update
                 self._param_batch(np.asarray(data, dtype=float), label)
 
-- 
2.43.0


From 6b19fc071de1c7e56366232a6eac9821e7cd00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:21 +0000
Subject: [PATCH 07/23] fix: rCIP batch covariance from centred samples

The difference of raw second moments cancelled catastrophically for compact
clusters away from the origin, giving wrong values or NaN.
---
 src/cvi/modules/rCIP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvi/modules/rCIP.py b/src/cvi/modules/rCIP.py
index 5b3b419..c31eb0f 100644
--- a/src/cvi/modules/rCIP.py
+++ b/src/cvi/modules/rCIP.py
@@ -181,10 +181,10 @@ class rCIP(_base.CVI):
             self._n[ix] = subset.shape[0]
             self._v[ix, :] = np.mean(subset, axis=0)
             if self._n[ix] > 1:
+                diff_x_v = subset - self._v[ix, :]
                 self._sigma[:, :, ix] = (
                     (1 / (self._n[ix] - 1)) * (
-                        np.transpose(subset) @ subset
-                        - self._n[ix] * np.outer(self._v[ix, :], self._v[ix, :])
+                        np.transpose(diff_x_v) @ diff_x_v
                     ) + self._delta_term
                 )
             else:
-- 
2.43.0


From a0a9cb930b0aedeebbcf8ffa5b4be5882cb5816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 08/23] fix: compat iDB keeps the compactness of new clusters

It was never appended, so every return to a cluster failed with IndexError.
---
 src/cvi/compat/v0.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b8f5d1a..b85ff2d 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -946,6 +946,7 @@ class iDB:
         if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
+            self.CP.append(0)
             self.R.append(0)
             self.S.append(0)
             self.M = np.pad(
-- 
2.43.0


From b6d41a72fa84f828dc47cd75563b28354bb3ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 09/23] fix: compat iGD divides by the cluster size

The sizes are plain integers, so every return to a cluster failed with
AttributeError.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index b85ff2d..17c92ae 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -577,7 +577,7 @@ class iGD:
                         self.d[j, c_i] = self.d[c_i, j]
             self.D[c_i] = (
                 2 * self.CP[c_i]
-                / self.cluster_sizes[c_i].len
+                / self.cluster_sizes[c_i]
             )
             self.output = np.min(self.d) / np.max(self.D)
 
-- 
2.43.0


From 30004b06deee56217908c9269ade89e4ba85adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 10/23] fix: compat iCH recognises new clusters

It compared with a list that is never filled, so a second cluster failed with
IndexError and every sample of the first one opened another cluster.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 17c92ae..9ec6bf7 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -448,7 +448,7 @@ class iCH:
         self.data_center = (
             ((self.N - 1) * self.data_center + x) / self.N
         )
-        if c_i == len(self.clusters):
+        if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.WGSS_i.append(0)
-- 
2.43.0


From 5f73d2198da49933646952e48eec212522ac492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 11/23] fix: compat iPS sums a generator with the builtin

NumPy refuses np.sum(generator), so any second cluster failed with TypeError.
---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 9ec6bf7..04bba20 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -387,7 +387,7 @@ class iPS:
                 np.sum(self.cluster_centers) / len(self.cluster_centers)
             )
             Bt = (
-                np.sum(
+                sum(
                     norm22(cc - self.mean_cluster_center)
                     for cc in self.cluster_centers
                 ) / len(self.cluster_centers)
-- 
2.43.0


From b8702534ed6390440c6b4acc54bc5cb4a0659529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 12/23] fix: compat iPS rejects out-of-order clusters like the
 other indices

A skipping cluster number was recorded and then failed with IndexError.
---
 src/cvi/compat/v0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 04bba20..532737b 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -360,10 +360,12 @@ class iPS:
             TODO
         """
 
-        if c_i >= len(self.cluster_centers):
+        if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
             self.PS_i.append(0)
+        elif c_i > len(self.cluster_sizes):
+            raise ValueError('Invalid Cluster Ordering')
         else:
             (
                 self.cluster_centers[c_i],
-- 
2.43.0


From 78422ef5567a54b8eab442a29844c77b852ffdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:44 +0000
Subject: [PATCH 13/23] fix: compat iSIL counts the first sample of a cluster
 once

The first sample was counted twice and added in place to the caller's array, the
dissimilarities were reset from an unrelated matrix, and a stream failed with
ValueError while it had a single cluster.
---
 src/cvi/compat/v0.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 532737b..468f3da 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -848,8 +848,9 @@ class iSIL:
         """
 
         if c_i == len(self.cluster_sizes):
+            # The first sample itself is counted by the updates below
             self.cluster_centers.append(x)
-            self.cluster_sizes.append(1)
+            self.cluster_sizes.append(0)
             self.sc.append(0)
             self.b = np.pad(
                 self.b,
@@ -858,13 +859,13 @@ class iSIL:
                 constant_values=np.inf
             )
             self.sij = np.pad(
-                self.b,
+                self.sij,
                 [(0, 1), (0, 1)],
                 mode='constant',
                 constant_values=0
             )
-            self.CP.append(np.linalg.norm(x) ** 2)
-            self.g.append(x)
+            self.CP.append(0.0)
+            self.g.append(np.zeros(len(x)))
         elif c_i > len(self.cluster_sizes):
             raise ValueError('Invalid Cluster Ordering')
         self.N += 1
@@ -894,13 +895,14 @@ class iSIL:
                     )
                 )
         self.cp_update(x, c_i)
-        self.output = (
-            (1 / len(self.cluster_centers))
-            * sum([
-                self.sci(i, c_i)
-                for i in range(len(self.cluster_centers))
-            ])
-        )
+        if len(self.cluster_centers) > 1:
+            self.output = (
+                (1 / len(self.cluster_centers))
+                * sum([
+                    self.sci(i, c_i)
+                    for i in range(len(self.cluster_centers))
+                ])
+            )
         return self.output
 
 
-- 
2.43.0


From 89ffc0a583f3310a1ea9cc302e4a6abc7d20a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:27 +0000
Subject: [PATCH 14/23] fix: cSIL batch distances from the centroids only

The batch update allocated a samples x samples matrix of which only one row
per cluster is used, so that batches of some 60000 rows ran out of memory.
---
 src/cvi/modules/cSIL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 7bb9512..4d56a87 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -192,7 +192,7 @@ class cSIL(_base.CVI):
         self._v = np.zeros((self._n_clusters, self._dim))
         self._CP = np.zeros(self._n_clusters)
         self._S = np.zeros((self._n_clusters, self._n_clusters))
-        D = np.zeros((self._n_samples, self._n_samples))
+        D = np.zeros((self._n_clusters, self._n_samples))
         for ix in range(self._n_clusters):
             subset_indices = (
                 [x for x in range(len(labels)) if labels[x] == u[ix]]
-- 
2.43.0


From 4019df9ba06573a326ac568ee0c45653fe3569a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:34 +0000
Subject: [PATCH 15/23] fix: compat indices count a sample only once it is
 accepted

iXB, iCH and iDB counted a sample (and iCH moved its data centre) before
refusing an out-of-order cluster, which changed every later value.
---
 src/cvi/compat/v0.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 468f3da..0245a3f 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -285,7 +285,6 @@ class iXB:
             TODO
         """
 
-        self.N += 1
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -308,6 +307,7 @@ class iXB:
                     self.WGSS_i[c_i]
             )
 
+        self.N += 1
         # self.WGSS_i[c_i] = CP(self.clusters[c_i].center,self.clusters[c_i],2,2)
         self.WGSS += self.WGSS_i[c_i]
         self.min_v_i[c_i] = np.inf
@@ -446,10 +446,6 @@ class iCH:
             TODO
         """
 
-        self.N += 1
-        self.data_center = (
-            ((self.N - 1) * self.data_center + x) / self.N
-        )
         if c_i == len(self.cluster_sizes):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -473,6 +469,10 @@ class iCH:
             )
             self.WGSS += self.WGSS_i[c_i]
 
+        self.N += 1
+        self.data_center = (
+            ((self.N - 1) * self.data_center + x) / self.N
+        )
         self.BGSS -= self.BGSS_i[c_i]
         self.BGSS_i[c_i] = (
             self.cluster_sizes[c_i]
@@ -946,7 +946,6 @@ class iDB:
             TODO
         """
 
-        self.N += 1
         if c_i == len(self.cluster_centers):
             self.cluster_centers.append(x)
             self.cluster_sizes.append(1)
@@ -1002,6 +1001,7 @@ class iDB:
                 np.sum(self.R)
                 / sum([clen > 0 for clen in self.cluster_sizes])
             )
+        self.N += 1
         return self.output
 
 
-- 
2.43.0


From 50dac4a8d381e3e7c4ebae5ac38ca35926ca7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:39 +0000
Subject: [PATCH 16/23] fix: incremental cSIL loses its precision on data far
 from the origin

---
 src/cvi/modules/cSIL.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cvi/modules/cSIL.py b/src/cvi/modules/cSIL.py
index 4d56a87..9f806bc 100644
--- a/src/cvi/modules/cSIL.py
+++ b/src/cvi/modules/cSIL.py
@@ -38,6 +38,7 @@ class cSIL(_base.CVI):
         # cSIL-specific initialization
         self._S = np.empty([0, 0])   # n_clusters x dim
         self._sil_coefs = []         # dim
+        self._origin = np.zeros([0])  # dim
 
     @_base._add_docs(_base._setup_doc)
     def _setup(self, sample: np.ndarray):
@@ -48,6 +49,9 @@ class cSIL(_base.CVI):
         # Run the generic setup routine
         super()._setup(sample)
 
+        # cSIL-specific setup
+        self._origin = sample
+
     @_base._add_docs(_base._param_inc_doc)
     def _param_inc(self, sample: np.ndarray, label: int):
         """
@@ -64,6 +68,10 @@ class cSIL(_base.CVI):
         if self._n_samples == 0:
             self._setup(sample)
 
+        # Work relative to the first sample, as the squared norms below cancel
+        # catastrophically when the data lie far from the origin
+        sample = sample - self._origin
+
         # IF NEW CLUSTER LABEL
         # Correct for python 0-indexing
         if i_label > self._n_clusters - 1:
-- 
2.43.0


From 84a9c383ce82ee6d237db555015bd1ec5697baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 17/23] fix: legacy Cluster with a bounding box fails on its
 second point

---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 0245a3f..285d076 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -59,7 +59,7 @@ class Cluster:
             assert np.max(x) <= 1
             assert np.min(x) >= 0
             cc_x = np.append(x, 1-x)
-            if self.bounding_box:
+            if len(self.bounding_box) > 0:
                 self.bounding_box = np.minimum(self.bounding_box, cc_x)
             else:
                 self.bounding_box = cc_x
-- 
2.43.0


From 2bdc5ff8e1919561f8bf33ac3e54d270791131be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 18/23] fix: legacy Cluster moves its center before refusing a
 point outside the unit box

---
 src/cvi/compat/v0.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 285d076..34d52e1 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -52,12 +52,13 @@ class Cluster:
         if not self.points:
             self.dim = len(x)
         assert self.dim == len(x)
+        if self.box:
+            assert np.max(x) <= 1
+            assert np.min(x) >= 0
         if self.radial:
             new_center = (self.center * self.len + x) / (self.len + 1)
             self.center = new_center
         if self.box:
-            assert np.max(x) <= 1
-            assert np.min(x) >= 0
             cc_x = np.append(x, 1-x)
             if len(self.bounding_box) > 0:
                 self.bounding_box = np.minimum(self.bounding_box, cc_x)
-- 
2.43.0


From ae0f9d885fe7b04d88a5cd3781676cc0c4833c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 19/23] fix: legacy Clusters.from_list appends the class and
 adds labels instead of rows

---
 src/cvi/compat/v0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 34d52e1..27dd6e4 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -142,10 +142,10 @@ class Clusters(list):
     Base clusters class.
     """
     def from_list(self, X, C):
-        for x, c in zip(X, C):
+        for i, (x, c) in enumerate(zip(X, C)):
             if c >= self.__len__():
-                self.append(Cluster)
-            self[c].add_point(c, c)
+                self.append(Cluster())
+            self[c].add_point(x, i)
 
 
 def norm22(x: np.ndarray):
-- 
2.43.0


From 0b09b674e821e86e28ae1f2ed979e98addda4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:29 +0000
Subject: [PATCH 20/23] fix: legacy CP_update turns nan when rounding makes its
 vanishing correction term negative

---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 27dd6e4..368ad73 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -214,7 +214,7 @@ def CP_update(
         cp_old
         + np.linalg.norm(z, q) ** p
         + n_old * np.linalg.norm(delta_v, q) ** p
-        + np.sqrt(2 * np.dot(delta_v, g_old)) ** p
+        + np.sqrt(np.maximum(2 * np.dot(delta_v, g_old), 0)) ** p
     )
 
     return cp_new, g_new, v_new, n_new
-- 
2.43.0


From 43bd1fa49ebfff16c74ca0f8141f8e9bf959646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:12 +0000
Subject: [PATCH 21/23] fix: legacy iPS reports 0 for every partition of two or
 more clusters

---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 368ad73..91bb696 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -402,7 +402,7 @@ class iPS:
         else:
             self.PS_i[c_i] = 0
 
-            self.output = np.sum(self.PS_i)
+        self.output = np.sum(self.PS_i)
         return self.output
 
 
-- 
2.43.0


From d80356eab17515816f83c483396f51d014cc555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:12 +0000
Subject: [PATCH 22/23] fix: legacy iPS adds up the features in the mean of the
 cluster centers

---
 src/cvi/compat/v0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 91bb696..2caa1cd 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -387,7 +387,8 @@ class iPS:
         if b_:
             b = np.min(b_)
             self.mean_cluster_center = (
-                np.sum(self.cluster_centers) / len(self.cluster_centers)
+                np.sum(self.cluster_centers, axis=0)
+                / len(self.cluster_centers)
             )
             Bt = (
                 sum(
-- 
2.43.0


From 1af3657ec0fe9249dd6be2887f07b80e03b713cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:12 +0000
Subject: [PATCH 23/23] fix: legacy iDB separates clusters by their last
 feature only

---
 src/cvi/compat/v0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvi/compat/v0.py b/src/cvi/compat/v0.py
index 2caa1cd..7f0df60 100644
--- a/src/cvi/compat/v0.py
+++ b/src/cvi/compat/v0.py
@@ -986,7 +986,7 @@ class iDB:
                     self.M[c_i, j] = 0
                     for t in range(len(x)):
                         if self.cluster_sizes[j] > 0:
-                            self.M[c_i, j] = (
+                            self.M[c_i, j] += (
                                 abs(
                                     self.cluster_centers[c_i][t] - self.cluster_centers[j][t]
                                 ) ** self.p
-- 
2.43.0

