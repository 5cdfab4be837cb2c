From 7d87c4c3d9ab0e9d76dc3b01a956a05008dc1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 001/100] fix: ChunkedKNN accepts data chunks smaller than topk

---
 ebsdtorch/utils/knn.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..a0f99f4 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -193,13 +193,16 @@ class ChunkedKNN:
         # send query to match device and dtype
         query = query.to(self.match_dtype).to(self.match_device)
 
+        # a chunk may hold fewer entries than the requested number of neighbors
+        k = min(self.topk, self.curr_end - self.curr_start)
+
         if self.quantized and self.match_device.type == "cpu":
             knn_dists_chunk, knn_inds_chunk = topk_quantized_data(
-                query, self.prepared_data, self.topk
+                query, self.prepared_data, k
             )
         else:
             knn_dists_chunk, knn_inds_chunk = knn_batch(
-                self.prepared_data, query, self.topk, self.distance_metric
+                self.prepared_data, query, k, self.distance_metric
             )
 
         # chunk indices -> global indices
@@ -233,13 +236,16 @@ class ChunkedKNN:
         query_end = query_start + query_chunk.shape[0]
         query_chunk = query_chunk.to(self.match_dtype).to(self.match_device)
 
+        # a chunk may hold fewer entries than the requested number of neighbors
+        k = min(self.topk, self.curr_end - self.curr_start)
+
         if self.quantized and self.match_device.type == "cpu":
             knn_distances_chunk, knn_indices_chunk = topk_quantized_data(
-                query_chunk, self.prepared_data, self.topk
+                query_chunk, self.prepared_data, k
             )
         else:
             knn_distances_chunk, knn_indices_chunk = knn_batch(
-                self.prepared_data, query_chunk, self.topk, self.distance_metric
+                self.prepared_data, query_chunk, k, self.distance_metric
             )
 
         knn_indices_chunk += self.curr_start
-- 
2.43.0


From 73624261269f08b598000634a8b5f2910f0be6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 002/100] fix: ChunkedKNN does not quantize euclidean and
 manhattan searches

---
 ebsdtorch/utils/knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a0f99f4..281e17e 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -132,6 +132,9 @@ class ChunkedKNN:
         self.match_device = match_device
         self.distance_metric = distance_metric
 
+        # the quantized product only yields dot products (angular similarity)
+        quantized_via_ao = quantized_via_ao and distance_metric == "angular"
+
         if (
             quantized_via_ao
             and match_dtype != torch.float32
-- 
2.43.0


From e7c1334f650950e233e6a5fb98a2627e32792105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 003/100] fix: failed ChunkedKNN calls leave a consistent,
 retryable state

---
 ebsdtorch/utils/knn.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index 281e17e..fbf3cae 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -172,15 +172,17 @@ class ChunkedKNN:
         """
         data_chunk = data_chunk.to(self.match_dtype).to(self.match_device)
 
-        # it is easier to track the current end index than the start index
-        self.curr_end += data_chunk.shape[0]
-        self.curr_start = self.curr_end - data_chunk.shape[0]
-
         # Quantize the data if needed
         if self.quantized and self.match_device.type == "cpu":
-            self.prepared_data = quant_model_data(data_chunk)
+            prepared_data = quant_model_data(data_chunk)
         else:
-            self.prepared_data = data_chunk
+            prepared_data = data_chunk
+
+        # only advance once the chunk is ready so that a failed call can be retried
+        # it is easier to track the current end index than the start index
+        self.curr_end += data_chunk.shape[0]
+        self.curr_start = self.curr_end - data_chunk.shape[0]
+        self.prepared_data = prepared_data
 
     def query_all(self, query: Tensor):
         """
@@ -219,8 +221,11 @@ class ChunkedKNN:
         topk_indices = torch.topk(
             merged_knn_dists, self.topk, dim=1, largest=self.big_better, sorted=False
         )[1]
-        self.knn_indices = torch.gather(merged_knn_inds, 1, topk_indices)
-        self.knn_distances = torch.gather(merged_knn_dists, 1, topk_indices)
+        knn_indices = torch.gather(merged_knn_inds, 1, topk_indices)
+        knn_distances = torch.gather(merged_knn_dists, 1, topk_indices)
+        # indices and distances are only replaced together
+        self.knn_indices = knn_indices
+        self.knn_distances = knn_distances
 
     def query_chunk(self, query_chunk: Tensor, query_start: int):
         """
@@ -267,12 +272,11 @@ class ChunkedKNN:
             largest=self.big_better,
             sorted=False,
         )[1]
-        self.knn_indices[query_start:query_end] = torch.gather(
-            merged_knn_indices, 1, topk_indices
-        )
-        self.knn_distances[query_start:query_end] = torch.gather(
-            merged_knn_distances, 1, topk_indices
-        )
+        new_knn_indices = torch.gather(merged_knn_indices, 1, topk_indices)
+        new_knn_distances = torch.gather(merged_knn_distances, 1, topk_indices)
+        # indices and distances are only replaced together
+        self.knn_indices[query_start:query_end] = new_knn_indices
+        self.knn_distances[query_start:query_end] = new_knn_distances
 
     def retrieve_topk(
         self,
-- 
2.43.0


From 172d960a9826c87de983ce3c7e7645253bb59614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 004/100] fix: ChunkedKNN index dtype holds indices of very
 large data sets

---
 ebsdtorch/utils/knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index fbf3cae..8ca96e1 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -149,7 +149,7 @@ class ChunkedKNN:
         self.quantized = quantized_via_ao
 
         self.big_better = self.distance_metric == "angular"
-        ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
+        ind_dtype = torch.int64
         self.knn_indices = torch.empty(
             (self.query_size, self.topk), device=self.match_device, dtype=ind_dtype
         )
-- 
2.43.0


From 34c6c4e4c08f278f34877c12a74cdfd894f84b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 005/100] fix: empty batches no longer turn the streaming
 covariance into NaN

---
 ebsdtorch/utils/pca_covmat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index a79f621..4c18355 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -72,6 +72,9 @@ def update_covmat(
     """
     # compute the batch mean
     N = data_new.shape[0]
+    if N == 0:
+        # the mean of an empty batch is undefined and would poison the running mean
+        return
     batch_mean = torch.mean(data_new, dim=0, keepdim=True)
 
     # update the global mean
-- 
2.43.0


From 8bdc7cd7f38d0c92e763054e404063a8027afd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 006/100] fix: Oja++ with a single component no longer divides
 by zero

---
 ebsdtorch/utils/pca_online.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 06bf3ed..1d71d51 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -114,7 +114,7 @@ class OjaPCA(nn.Module):
 
         # For Oja++, gradually initialize columns
         if self.use_oja_plus and self.next_col_to_init < self.n_components:
-            if self.step % (self.n_components // 2) == 0:
+            if self.step % max(1, self.n_components // 2) == 0:
                 self.Q[:, self.next_col_to_init] = torch.randn(
                     self.n_features, dtype=self.Q.dtype
                 )
-- 
2.43.0


From 8d64847f779db7c7b0598446c12bd14fcb53d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 007/100] fix: failed online PCA updates leave the estimator
 unchanged

---
 ebsdtorch/utils/pca_online.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/ebsdtorch/utils/pca_online.py b/ebsdtorch/utils/pca_online.py
index 1d71d51..513237e 100644
--- a/ebsdtorch/utils/pca_online.py
+++ b/ebsdtorch/utils/pca_online.py
@@ -64,8 +64,11 @@ class KrasulinaPCA(nn.Module):
         latent = self.C_cross @ x.T
         residual = x.T - self.C @ latent
         alpha = self.eta / (1.0 + self.eta * torch.norm(latent, dim=0))
-        self.C.add_((alpha[None, :] * residual) @ latent.T)
-        self.C_cross.copy_(torch.linalg.inv_ex(self.C.T @ self.C)[0] @ self.C.T)
+        C = self.C + (alpha[None, :] * residual) @ latent.T
+        C_cross = torch.linalg.inv_ex(C.T @ C)[0] @ C.T
+        # C and C_cross are only replaced together
+        self.C.copy_(C)
+        self.C_cross.copy_(C_cross)
 
     def get_components(self) -> Tensor:
         U, S, V = torch.svd(self.C_cross.T)
@@ -107,19 +110,25 @@ class OjaPCA(nn.Module):
     def forward(self, x: Tensor) -> None:
         """Update PCA with new batch of data using Oja's algorithm"""
         # Update then Orthonormalize Q_t using QR decomposition
-        self.Q.copy_(torch.linalg.qr(self.Q + self.eta * (x.T @ (x @ self.Q)))[0])
-
-        # Update step
-        self.step.add_(1)
+        Q = torch.linalg.qr(self.Q + self.eta * (x.T @ (x @ self.Q)))[0]
 
         # For Oja++, gradually initialize columns
-        if self.use_oja_plus and self.next_col_to_init < self.n_components:
-            if self.step % max(1, self.n_components // 2) == 0:
-                self.Q[:, self.next_col_to_init] = torch.randn(
-                    self.n_features, dtype=self.Q.dtype
-                )
-                self.initialized_cols[self.next_col_to_init] = True
-                self.next_col_to_init.add_(1)
+        init_col = (
+            self.use_oja_plus
+            and self.next_col_to_init < self.n_components
+            and (self.step + 1) % max(1, self.n_components // 2) == 0
+        )
+        if init_col:
+            Q[:, self.next_col_to_init] = torch.randn(
+                self.n_features, dtype=self.Q.dtype
+            )
+
+        # Update the state only once nothing can fail anymore
+        self.Q.copy_(Q)
+        self.step.add_(1)
+        if init_col:
+            self.initialized_cols[self.next_col_to_init] = True
+            self.next_col_to_init.add_(1)
 
     def get_components(self) -> Tensor:
         """Get orthogonalized components sorted by variance"""
-- 
2.43.0


From e84c0442b452d3c446f14b09fe22284b5f6c6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 008/100] fix: streaming covariance keeps its accuracy for data
 with a large mean

The first batch was compared to the initial zero mean, so its contribution had
an error of the order of mean^2 * eps and the result depended on the batching.
---
 ebsdtorch/utils/pca_covmat.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index 4c18355..f5cd29c 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -80,14 +80,17 @@ def update_covmat(
     # update the global mean
     new_mean = (current_mean * current_obs + batch_mean * N) / (current_obs + N)
 
-    # compute the deltas
-    delta = data_new.to(delta_dtype) - (current_mean).to(delta_dtype)
-    delta_prime = data_new.to(delta_dtype) - (new_mean).to(delta_dtype)
+    # deviations from the batch mean and of the batch mean from the running mean.
+    # The raw data is never compared to the running mean (zero at first), which
+    # would lose all digits for data with a mean much larger than its spread.
+    delta = data_new.to(delta_dtype) - batch_mean.to(delta_dtype)
+    delta_mean = batch_mean.to(current_covmat.dtype) - current_mean
+    weight = (current_obs * N).to(current_covmat.dtype) / (current_obs + N)
 
     # update the running covariance matrix
-    current_covmat += torch.einsum("ij,ik->jk", delta, delta_prime).to(
+    current_covmat += torch.einsum("ij,ik->jk", delta, delta).to(
         current_covmat.dtype
-    )
+    ) + torch.einsum("ij,ik->jk", weight * delta_mean, delta_mean)
 
     # update the number of observations and mean
     current_obs += N
-- 
2.43.0


From 2b33f5f3b0d7e858d939d3e3364888d53327facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 009/100] fix: virtual binning never uses a binned master
 pattern of another factor or of older data

---
 ebsdtorch/ebsd/master_pattern.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..c5f6799 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -108,7 +108,10 @@ class MasterPattern(Module):
         # )
         # self.master_pattern_binned = blurrer(self.master_pattern[None, None, ...])[0, 0]
 
-        self.master_pattern_binned = torch.nn.functional.avg_pool2d(
+        self.master_pattern_binned = self._get_binned(binning_factor)
+
+    def _get_binned(self, binning_factor: int) -> Tensor:
+        return torch.nn.functional.avg_pool2d(
             self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
         )[0, 0]
 
@@ -168,9 +171,9 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
-                self.bin(virtual_binning)
-            master_pattern_prep = self.master_pattern_binned
+            # always from the current data and factor: a binned copy that was kept
+            # from an earlier call may belong to another factor or to older data
+            master_pattern_prep = self._get_binned(virtual_binning)
         else:
             master_pattern_prep = self.master_pattern
 
-- 
2.43.0


From 712139f1372e0e5522687903e2d725e5965718ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 010/100] fix: master pattern shape cache lookup is safe under
 concurrent cache resets

---
 ebsdtorch/ebsd/master_pattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index c5f6799..893c3ba 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -187,8 +187,10 @@ class MasterPattern(Module):
         # (..., 3) -> (1, H*, W*, 2) -> (...,) where H* x W* = n_coords
         #  3rd fastest integer factorization algorithm is good for small numbers
         n_elem = prod(projected_coords_2D.shape[:-1])
-        if n_elem in self.factor_dict:
-            H_pseudo, W_pseudo = self.factor_dict[n_elem]
+        # a single lookup: the cache may be reset by another thread in between
+        factors = self.factor_dict.get(n_elem)
+        if factors is not None:
+            H_pseudo, W_pseudo = factors
         else:
             H_pseudo, W_pseudo = nearly_square_factors(n_elem)
             if len(self.factor_dict) > 100:
-- 
2.43.0


From 9e8c9cc2249a0b86c38521beee35f0aa98a47b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 011/100] fix: factoring zero terminates and empty coordinates
 can be interpolated

---
 ebsdtorch/ebsd/master_pattern.py | 2 ++
 ebsdtorch/utils/factorize.py     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 893c3ba..179d338 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -187,6 +187,8 @@ class MasterPattern(Module):
         # (..., 3) -> (1, H*, W*, 2) -> (...,) where H* x W* = n_coords
         #  3rd fastest integer factorization algorithm is good for small numbers
         n_elem = prod(projected_coords_2D.shape[:-1])
+        if n_elem == 0:
+            return master_pattern_prep.new_empty(coords_3D.shape[:-1])
         # a single lookup: the cache may be reset by another thread in between
         factors = self.factor_dict.get(n_elem)
         if factors is not None:
diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index ca27503..a40c921 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -120,6 +120,10 @@ def FactorECM(N0):
                     return next_factor_ecm(N)
         return next_factor_ecm(N)
 
+    if N0 < 1:
+        # zero would be divided by two forever
+        raise ValueError(f"Only positive integers can be factored. Got {N0}")
+
     return factor_ecm(N0)
 
 
-- 
2.43.0


From ea77a49171a05d3bc7893fcced7aa0b3cee8ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 012/100] fix: factorization does not report Carmichael numbers
 as primes

---
 ebsdtorch/utils/factorize.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/utils/factorize.py b/ebsdtorch/utils/factorize.py
index a40c921..60b4bb8 100644
--- a/ebsdtorch/utils/factorize.py
+++ b/ebsdtorch/utils/factorize.py
@@ -34,9 +34,23 @@ def FactorECM(N0):
             factors.append(x)
         return sorted(factors)
 
-    def is_probably_prime_fermat(n, trials=32):
-        for _ in range(trials):
-            if pow(random.randint(2, n - 2), n - 1, n) != 1:
+    def is_prime_miller_rabin(n):
+        # exact for n < 3.3e24 (Carmichael numbers pass the Fermat test)
+        d, r = n - 1, 0
+        while (d & 1) == 0:
+            d >>= 1
+            r += 1
+        for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
+            if n % a == 0:
+                return n == a
+            x = pow(a, d, n)
+            if x == 1 or x == n - 1:
+                continue
+            for _ in range(r - 1):
+                x = x * x % n
+                if x == n - 1:
+                    break
+            else:
                 return False
         return True
 
@@ -99,7 +113,7 @@ def FactorECM(N0):
         if N < (1 << 16):
             return factor_trial_division(N)
 
-        if is_probably_prime_fermat(N):
+        if is_prime_miller_rabin(N):
             return [N]
 
         while True:
-- 
2.43.0


From 57732e141b6f60c69ecaf33004870efe3681a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 013/100] fix: Laue groups of space groups 149-155 and 194

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 7058a540a72b25340e3e49de3f3197841ebee3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 014/100] fix: a failed master pattern normalization leaves the
 pattern unchanged

---
 ebsdtorch/ebsd/master_pattern.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 179d338..8b16d19 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -127,15 +127,18 @@ class MasterPattern(Module):
 
         """
         if norm_type == "minmax":
+            # nothing is modified before all quantities are known
             pat_mins = torch.min(self.master_pattern)
-            pat_maxs = torch.max(self.master_pattern)
+            pat_range = 1e-4 + torch.max(self.master_pattern) - pat_mins
             self.master_pattern -= pat_mins
-            self.master_pattern /= 1e-4 + pat_maxs - pat_mins
+            self.master_pattern /= pat_range
         elif norm_type == "zeromean":
             self.master_pattern -= torch.mean(self.master_pattern)
         elif norm_type == "standard":
-            self.master_pattern -= torch.mean(self.master_pattern)
-            self.master_pattern /= torch.std(self.master_pattern)
+            pat_mean = torch.mean(self.master_pattern)
+            pat_std = torch.std(self.master_pattern)
+            self.master_pattern -= pat_mean
+            self.master_pattern /= pat_std
         else:
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
-- 
2.43.0


From 13b668ebced06e1befdd5ab415415be5a343d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 015/100] fix: a restored geometry stays trainable

---
 ebsdtorch/ebsd/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..8d6ebc5 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -227,8 +227,11 @@ class EBSDGeometry(Module):
         rotation_mask = torch.tensor(opt_rots).bool()
         translation_mask = torch.tensor(opt_shifts).bool()
         self.register_buffer("mask", torch.cat([rotation_mask, translation_mask]))
-        # if the mask has no True values, set opt_se3 to False
-        self.opt_se3 = torch.any(self.mask).item()
+
+    @property
+    def opt_se3(self) -> bool:
+        # follows the mask, which may also be changed by load_state_dict
+        return torch.any(self.mask).item()
 
     def set_optimizable_se3_params(
         self,
@@ -251,9 +254,6 @@ class EBSDGeometry(Module):
         if opt_shifts is not None:
             self.mask[3:] = torch.tensor(opt_shifts).bool()
 
-        # update the opt_se3 flag
-        self.opt_se3 = torch.any(self.mask).item()
-
     def get_detector2sample(self) -> Tuple[Tensor, Tensor]:
         """
         Get the SE3 transformation matrix from detector to sample.
-- 
2.43.0


From 399019d399cbade9c0e2176b4104377324fb6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 016/100] fix: rejected geometry options change nothing

---
 ebsdtorch/ebsd/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 8d6ebc5..76432c7 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -248,11 +248,13 @@ class EBSDGeometry(Module):
                 Which shifts to optimize. Tuple of booleans (x shift, y shift, z shift).
 
         """
-        # set the masks
+        # set the masks (both or, if one of them is invalid, none)
+        mask = self.mask.clone()
         if opt_rots is not None:
-            self.mask[:3] = torch.tensor(opt_rots).bool()
+            mask[:3] = torch.tensor(opt_rots).bool()
         if opt_shifts is not None:
-            self.mask[3:] = torch.tensor(opt_shifts).bool()
+            mask[3:] = torch.tensor(opt_shifts).bool()
+        self.mask.copy_(mask)
 
     def get_detector2sample(self) -> Tuple[Tensor, Tensor]:
         """
-- 
2.43.0


From 3d474eb1ab4106dc4d8321593071f1105efa3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 017/100] fix: detector pixel coordinates end at the last pixel

linspace ended one pixel past the detector, contrary to the documented
coordinates: 0, 1, 2, 3 for 4 pixels and 0.5, 2.5 when they are binned by 2.
---
 ebsdtorch/ebsd/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 76432c7..5bf83aa 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -485,14 +485,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
-- 
2.43.0


From bc2889fa72fa4911b31a45b18137969de3bbe67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 018/100] fix: reading a pattern center no longer clamps the
 given matrix in place

---
 ebsdtorch/ebsd/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 5bf83aa..6657265 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -115,8 +115,8 @@ def bruker_geometry_from_SE3(
 
     cos_sx = rotation_matrix[..., 1, 1]
     cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
+    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From 43aed952443fe1a12a92f2633268dbf13b1db694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 019/100] fix: the progress bar writes to the requested stream
 only

---
 ebsdtorch/utils/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/progressbar.py b/ebsdtorch/utils/progressbar.py
index 4d7b34c..f3a8254 100644
--- a/ebsdtorch/utils/progressbar.py
+++ b/ebsdtorch/utils/progressbar.py
@@ -53,4 +53,4 @@ def progressbar(it, prefix="", prefix_min_length=15, size=60, out=sys.stdout):
             file=out,
             flush=True,
         )
-    print("\n")
+    print("\n", file=out)
-- 
2.43.0


From 7145c23681d811ec8b9f65e9c66d75ee06305441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 020/100] fix: master patterns can be interpolated at
 non-contiguous directions

---
 ebsdtorch/ebsd/master_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 8b16d19..92ec9a5 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -202,7 +202,7 @@ class MasterPattern(Module):
                 self.factor_dict = {}
             self.factor_dict[n_elem] = H_pseudo, W_pseudo
 
-        projected_coords_2D = projected_coords_2D.view(H_pseudo, W_pseudo, 2)
+        projected_coords_2D = projected_coords_2D.reshape(H_pseudo, W_pseudo, 2)
 
         output = torch.nn.functional.grid_sample(
             # master patterns are viewed as (1, 1, H_master, 2*W_master)
-- 
2.43.0


From 80d9ce5310693af171f07e2e162e84753b53200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 021/100] fix: reading unset spatial coordinates is a clear
 error

---
 ebsdtorch/ebsd/experiment_pats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..619d3b7 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -54,6 +54,7 @@ class ExperimentPatterns(Module):
 
         self.phases = None
         self.orientations = None
+        self.spatial_coords = None
         self.inv_f_matrix = None
 
     def set_spatial_coords(
-- 
2.43.0


From ed7ef63f2037418fa704146b897c8ea69b5d1788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 022/100] fix: writing records by index does not change the
 tensor they were set from

---
 ebsdtorch/ebsd/experiment_pats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 619d3b7..0192557 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -75,7 +75,8 @@ class ExperimentPatterns(Module):
                     f"Spatial coordinates must have the same number of patterns as the ExperimentPatterns object. "
                     + f"Got {spatial_coords.shape[0]} spatial coordinates and {self.n_patterns} patterns."
                 )
-            self.spatial_coords = spatial_coords
+            # a copy: later writes by index must not change the caller's tensor
+            self.spatial_coords = spatial_coords.clone()
         else:
             if spatial_coords.shape[0] != indices.shape[0]:
                 raise ValueError(
@@ -132,7 +133,8 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Orientations must be quaternions (w, x, y, z). Got {orientations.shape[1]}."
                 )
-            self.orientations = orientations
+            # a copy: later writes by index must not change the caller's tensor
+            self.orientations = orientations.clone()
         else:
             # check dim of indices
             if len(indices.shape) != 1:
-- 
2.43.0


From d596bc85fdbea42a850f0043c0d4161210778c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 023/100] fix: indexed writes with an index out of range write
 nothing

---
 ebsdtorch/ebsd/experiment_pats.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0192557..7fdcf09 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -57,6 +57,13 @@ class ExperimentPatterns(Module):
         self.spatial_coords = None
         self.inv_f_matrix = None
 
+    def _check_index_range(self, indices: Tensor) -> None:
+        # an indexed write that meets a bad index half way has already written the others
+        if indices.dtype == torch.bool or indices.numel() == 0:
+            return
+        if indices.max() >= self.n_patterns or indices.min() < -self.n_patterns:
+            raise IndexError(f"Indices are out of range for {self.n_patterns} patterns.")
+
     def set_spatial_coords(
         self,
         spatial_coords: Tensor,
@@ -83,6 +90,7 @@ class ExperimentPatterns(Module):
                     f"Spatial coordinates must have the same number of patterns as the indices. "
                     + f"Got {spatial_coords.shape[0]} spatial coordinates and {indices.shape[0]} indices."
                 )
+            self._check_index_range(indices)
             self.spatial_coords[indices] = spatial_coords
 
     def get_spatial_coords(
@@ -148,6 +156,7 @@ class ExperimentPatterns(Module):
                 raise ValueError(
                     f"Orientations must be quaternions (w, x, y, z). Got {orientations.shape[1]} components."
                 )
+            self._check_index_range(indices)
             self.orientations[indices] = orientations
 
     def get_orientations(
-- 
2.43.0


From 6efbbae03b6256d5d94aa4cdf53c9057da610f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 024/100] fix: a failed pattern normalization leaves the
 patterns as they were

---
 ebsdtorch/ebsd/experiment_pats.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 7fdcf09..64855f5 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -277,22 +277,26 @@ class ExperimentPatterns(Module):
 
         """
 
-        self.patterns = self.patterns.view(self.n_patterns, -1)
+        # (N_PATS, H*W) view of the patterns, modified in place once all
+        # quantities are known so that a failure leaves the patterns unchanged
+        patterns = self.patterns.view(self.n_patterns, -1)
         if norm_type == "minmax":
-            pat_mins = torch.min(self.patterns, dim=-1).values
-            pat_maxs = torch.max(self.patterns, dim=-1).values
-            self.patterns -= pat_mins[..., None]
-            self.patterns /= 1e-4 + pat_maxs[..., None] - pat_mins[..., None]
+            pat_mins = torch.min(patterns, dim=-1).values[..., None]
+            pat_maxs = torch.max(patterns, dim=-1).values[..., None]
+            pat_range = 1e-4 + pat_maxs - pat_mins
+            patterns -= pat_mins
+            patterns /= pat_range
         elif norm_type == "zeromean":
-            self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
+            patterns -= torch.mean(patterns, dim=-1, keepdim=True)
         elif norm_type == "standard":
-            self.patterns -= torch.mean(self.patterns, dim=-1, keepdim=True)
-            self.patterns /= torch.std(self.patterns, dim=-1, keepdim=True)
+            pat_means = torch.mean(patterns, dim=-1, keepdim=True)
+            pat_stds = torch.std(patterns, dim=-1, keepdim=True)
+            patterns -= pat_means
+            patterns /= pat_stds
         else:
             raise ValueError(
                 f"Invalid normalization method. Got {norm_type} but expected 'minmax', 'zeromean', or 'standard'."
             )
-        self.patterns = self.patterns.view(-1, *self.pattern_shape)
 
     def standard_clean(
         self,
-- 
2.43.0


From cc6ac84a80ea9dc0a78c1b6d6898750f913449a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 025/100] fix: the indices of a phase with a single pattern are
 one-dimensional

---
 ebsdtorch/ebsd/experiment_pats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 64855f5..30635ae 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -376,7 +376,7 @@ class ExperimentPatterns(Module):
                 "Phases must be indexed before retrieving indices per phase."
             )
         return [
-            torch.nonzero(self.phases == i, as_tuple=False).squeeze()
+            torch.nonzero(self.phases == i, as_tuple=False).squeeze(-1)
             for i in range(self.phases.max().item() + 1)
         ]
 
-- 
2.43.0


From b118d42931c3e14c5698a3ab1cf0ae141ba19cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 026/100] fix: results of several phases, or of one phase other
 than 0, can be combined

---
 ebsdtorch/ebsd/experiment_pats.py | 57 ++++++++++++++++---------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 30635ae..dc5fe7d 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -415,26 +415,21 @@ class ExperimentPatterns(Module):
         if len(self.raw_indexing_results) > 1:
             # loop over the phases, concatenate the metrics and only store the phase
             # and quaternion with the best metric
-            if higher_is_better:
-                # fill metric with -inf
-                best_metrics = torch.full(
-                    (self.n_patterns,),
-                    float("-inf"),
-                    device=self.patterns.device,
-                )
-            else:
-                # fill metric with +inf
-                best_metrics = torch.full(
-                    (self.n_patterns,),
-                    float("inf"),
-                    device=self.patterns.device,
-                )
+            # raw results hold the top-k matches (N_PATS, K), the best match is first
+            some_quats, some_metrics = next(iter(self.raw_indexing_results.values()))
+            best_metrics = torch.full(
+                (self.n_patterns,),
+                # fill metric with -inf or +inf
+                float("-inf") if higher_is_better else float("inf"),
+                dtype=some_metrics.dtype,
+                device=self.patterns.device,
+            )
 
             # make a phase_id tensor
             phase_ids = torch.full(
-                self.n_patterns,
+                (self.n_patterns,),
                 fill_value=-1,
-                dtype=torch.uint8,
+                dtype=torch.int64,
                 device=self.patterns.device,
             )
 
@@ -442,26 +437,34 @@ class ExperimentPatterns(Module):
             orientations = torch.zeros(
                 self.n_patterns,
                 4,
+                dtype=some_quats.dtype,
                 device=self.patterns.device,
             )
 
             for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
                 if higher_is_better:
-                    mask = metrics > best_metrics
+                    mask = metrics[:, 0] > best_metrics
                 else:
-                    mask = metrics < best_metrics
-                best_metrics[mask] = metrics[mask]
+                    mask = metrics[:, 0] < best_metrics
+                best_metrics[mask] = metrics[mask, 0].to(best_metrics.dtype)
                 phase_ids[mask] = phase_id
-                orientations[mask] = quaternions[mask]
-            self.phases = phase_ids
-            self.orientations = orientations
-            self.best_metrics = best_metrics
+                orientations[mask] = quaternions[mask, 0].to(orientations.dtype)
+            phase_ids = phase_ids.to(torch.uint8)
         else:
-            self.phases = torch.full(
+            phase_id, (quaternions, metrics) = next(
+                iter(self.raw_indexing_results.items())
+            )
+            phase_ids = torch.full(
                 (self.n_patterns,),
-                fill_value=list(self.raw_indexing_results.keys())[0],
+                fill_value=phase_id,
                 dtype=torch.uint8,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            # copies: refinement updates the orientations, not the raw results
+            orientations = quaternions[:, 0].clone()
+            best_metrics = metrics[:, 0].clone()
+
+        # the records are only replaced together
+        self.phases = phase_ids
+        self.orientations = orientations
+        self.best_metrics = best_metrics
-- 
2.43.0


From 8f11ff0edd97066c88405cde78e3f995813f213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 027/100] fix: importing the indexing module does not run its
 demo

---
 ebsdtorch/ebsd/indexing.py | 201 +++++++++++++++++++------------------
 1 file changed, 101 insertions(+), 100 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5d7d02e..5bc79ac 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -476,103 +476,104 @@ def pca_dictionary_index_orientations(
     )
 
 
-import torch
-import kikuchipy as kp
-import numpy as np
-
-device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
-
-geom = EBSDGeometry(
-    detector_shape=(60, 60),
-    proj_center=(0.4221, 0.2179, 0.4954),
-).to(device)
-
-# create the master pattern
-kp_mp = kp.data.nickel_ebsd_master_pattern_small(
-    projection="lambert", hemisphere="both"
-)
-mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
-mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
-master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
-mp = MasterPattern(
-    master_pattern,
-    laue_group=11,
-).to(device)
-mp.normalize(norm_type="minmax")
-# mp.apply_clahe()
-
-# create the experiment patterns object
-exp_pats = (
-    torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
-    .to(device)
-    .to(torch.float32)
-)
-
-exp_pats = ExperimentPatterns(
-    exp_pats,
-)
-
-# subtract background and do clahe
-exp_pats.standard_clean()
-# exp_pats.do_nlpar()
-
-# get radial mask
-from ebsdtorch.preprocessing.radial_mask import get_radial_mask
-
-mask = get_radial_mask(
-    shape=(60, 60),
-).to(device)
-# mask = None
-
-# # index the orientations
-# dictionary_index_orientations(
-#     mp,
-#     geom,
-#     exp_pats,
-#     dictionary_resolution_degrees=0.5,
-#     dictionary_chunk_size=4096,
-#     signal_mask=mask,
-#     virtual_binning=1,
-#     experiment_chunk_size=4096,
-#     match_dtype=torch.float16,
-# )
-
-# index the orientations
-pca_dictionary_index_orientations(
-    mp,
-    geom,
-    exp_pats,
-    dictionary_resolution_learn_deg=0.5,
-    dictionary_resolution_index_deg=0.2,
-    dictionary_chunk_size=4096,
-    signal_mask=mask,
-    virtual_binning=1,
-    experiment_chunk_size=4096,
-    match_dtype=torch.float16,
-    n_pca_components=500,
-)
-
-orientations = exp_pats.get_orientations().cpu().numpy()
-
-# plot the indexed orientations
-import numpy as np
-from orix import plot
-from orix.quaternion import Orientation
-from orix.vector import Vector3d
-from plotly.express import imshow
-
-# get the orientation colors
-pg_m3m = kp_mp.phase.point_group.laue
-ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
-
-# save rgb image
-orientations = Orientation(orientations)
-rgb = ckey_m3m.orientation2color(orientations)
-rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
-
-# plot the indexed orientations
-fig = imshow(rgb_byte)
-# set title
-fig.update_layout(title_text=f"Scan {1}")
-
-fig.show()
+if __name__ == "__main__":
+    import torch
+    import kikuchipy as kp
+    import numpy as np
+
+    device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
+
+    geom = EBSDGeometry(
+        detector_shape=(60, 60),
+        proj_center=(0.4221, 0.2179, 0.4954),
+    ).to(device)
+
+    # create the master pattern
+    kp_mp = kp.data.nickel_ebsd_master_pattern_small(
+        projection="lambert", hemisphere="both"
+    )
+    mp_nh = torch.from_numpy(kp_mp.data[0, :, :].astype(np.float32)).to(torch.float32)
+    mp_sh = torch.from_numpy(kp_mp.data[1, :, :].astype(np.float32)).to(torch.float32)
+    master_pattern = torch.concat((mp_nh, mp_sh), dim=-1)
+    mp = MasterPattern(
+        master_pattern,
+        laue_group=11,
+    ).to(device)
+    mp.normalize(norm_type="minmax")
+    # mp.apply_clahe()
+
+    # create the experiment patterns object
+    exp_pats = (
+        torch.tensor(kp.data.ni_gain(number=5, allow_download=True).data)
+        .to(device)
+        .to(torch.float32)
+    )
+
+    exp_pats = ExperimentPatterns(
+        exp_pats,
+    )
+
+    # subtract background and do clahe
+    exp_pats.standard_clean()
+    # exp_pats.do_nlpar()
+
+    # get radial mask
+    from ebsdtorch.preprocessing.radial_mask import get_radial_mask
+
+    mask = get_radial_mask(
+        shape=(60, 60),
+    ).to(device)
+    # mask = None
+
+    # # index the orientations
+    # dictionary_index_orientations(
+    #     mp,
+    #     geom,
+    #     exp_pats,
+    #     dictionary_resolution_degrees=0.5,
+    #     dictionary_chunk_size=4096,
+    #     signal_mask=mask,
+    #     virtual_binning=1,
+    #     experiment_chunk_size=4096,
+    #     match_dtype=torch.float16,
+    # )
+
+    # index the orientations
+    pca_dictionary_index_orientations(
+        mp,
+        geom,
+        exp_pats,
+        dictionary_resolution_learn_deg=0.5,
+        dictionary_resolution_index_deg=0.2,
+        dictionary_chunk_size=4096,
+        signal_mask=mask,
+        virtual_binning=1,
+        experiment_chunk_size=4096,
+        match_dtype=torch.float16,
+        n_pca_components=500,
+    )
+
+    orientations = exp_pats.get_orientations().cpu().numpy()
+
+    # plot the indexed orientations
+    import numpy as np
+    from orix import plot
+    from orix.quaternion import Orientation
+    from orix.vector import Vector3d
+    from plotly.express import imshow
+
+    # get the orientation colors
+    pg_m3m = kp_mp.phase.point_group.laue
+    ckey_m3m = plot.IPFColorKeyTSL(pg_m3m, direction=Vector3d.zvector())
+
+    # save rgb image
+    orientations = Orientation(orientations)
+    rgb = ckey_m3m.orientation2color(orientations)
+    rgb_byte = (rgb.reshape(149, 200, 3) * 255).astype(np.uint8)
+
+    # plot the indexed orientations
+    fig = imshow(rgb_byte)
+    # set title
+    fig.update_layout(title_text=f"Scan {1}")
+
+    fig.show()
-- 
2.43.0


From b3baa7256ca2259bf778e86d40ce4776b4a463da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 028/100] fix: subtract_exp_pat_mean does not depend on the
 experiment chunk size

---
 ebsdtorch/ebsd/indexing.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 5bc79ac..92b51b2 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -182,9 +182,10 @@ def dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # query the KNN object
                     knn.query_chunk(
@@ -444,9 +445,10 @@ def pca_dictionary_index_orientations(
                         query_chunk = query_chunk[:, signal_mask.flatten()]
 
                     # subtract the mean
-                    query_chunk = query_chunk - torch.mean(
-                        query_chunk, dim=-1, keepdim=True
-                    )
+                    if subtract_exp_pat_mean:
+                        query_chunk = query_chunk - torch.mean(
+                            query_chunk, dim=-1, keepdim=True
+                        )
 
                     # project the query chunk onto the PCA components
                     query_chunk = torch.matmul(query_chunk, pca_matrix)
-- 
2.43.0


From 5231e5ab1f50c1676ac95c1472a86e8b317895ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 029/100] fix: PCA indexing uses the leading components for any
 number of components

---
 ebsdtorch/ebsd/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 92b51b2..0b9c72f 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -353,7 +353,7 @@ def pca_dictionary_index_orientations(
 
         # trim the eigenvectors to the number of components
         # they are returned in ascending order of eigenvalue
-        pca_matrix = eigenvectors[:, -n_pca_components : (-n_pca_components + 300)]
+        pca_matrix = eigenvectors[:, -n_pca_components:]
 
         # calc dictionary (if the learning and indexing resolutions are different)
         if dictionary_resolution_learn_deg != dictionary_resolution_index_deg:
-- 
2.43.0


From 09f9cacf4a2e84143c865b8aeee05d2477c81f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 030/100] fix: PCA indexing bins the experimental patterns for
 every chunk size

---
 ebsdtorch/ebsd/indexing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index 0b9c72f..ea70979 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -285,7 +285,7 @@ def pca_dictionary_index_orientations(
         if signal_mask is not None:
             n_pixels = signal_mask.sum().item()
         else:
-            n_pixels = experiment_patterns.n_pixels
+            n_pixels = experiment_patterns.n_pixels // virtual_binning**2
 
         # make an object to do the PCA
         pcacovmat = OnlineCovMatrix(
@@ -406,9 +406,10 @@ def pca_dictionary_index_orientations(
 
             # # retrieve and project the experiment patterns
             if experiment_chunk_size > experiment_patterns.n_patterns:
-                exp_pats = experiment_patterns.patterns.view(
-                    experiment_patterns.n_patterns, -1
-                )
+                exp_pats = experiment_patterns.get_patterns(
+                    torch.arange(experiment_patterns.n_patterns),
+                    binning=virtual_binning,
+                ).view(experiment_patterns.n_patterns, -1)
                 # query all the experiment patterns
                 # first apply the signal mask if provided
                 if signal_mask is not None:
-- 
2.43.0


From 16f68c5871c984d3d49b70d3ead1420813cc8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 031/100] fix: indexing again does not mix in results of an
 earlier run

---
 ebsdtorch/ebsd/experiment_pats.py |  8 +++++++-
 ebsdtorch/ebsd/indexing.py        | 20 ++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index dc5fe7d..e31643a 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -400,6 +400,12 @@ class ExperimentPatterns(Module):
         else:
             self.raw_indexing_results[phase_id] = (quaternions, metrics)
 
+    def clear_raw_indexing_results(self) -> None:
+        """
+        Forget the raw results of earlier indexing runs.
+        """
+        self.raw_indexing_results = {}
+
     def combine_indexing_results(
         self,
         higher_is_better: bool,
@@ -409,7 +415,7 @@ class ExperimentPatterns(Module):
         top match for each pattern.
         """
 
-        if not hasattr(self, "raw_indexing_results"):
+        if not getattr(self, "raw_indexing_results", None):
             raise ValueError("Raw indexing results must be set before combining.")
 
         if len(self.raw_indexing_results) > 1:
diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index ea70979..beca0e0 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -59,6 +59,7 @@ def dictionary_index_orientations(
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
+    raw_results = []
     for i, mp in enumerate(master_patterns):
         # get an orientation dictionary
         ori_tensor = sample_ori_fz_laue_angle(
@@ -199,9 +200,14 @@ def dictionary_index_orientations(
         # get the matches and distances
         matches, metric_values = knn.retrieve_topk()
 
-        # set the matches and distances in the experiment patterns object
+        raw_results.append((ori_tensor[matches], metric_values))
+
+    # set the matches and distances in the experiment patterns object
+    # results of an earlier run (perhaps with more phases) must not take part
+    experiment_patterns.clear_raw_indexing_results()
+    for i, (quaternions, metric_values) in enumerate(raw_results):
         experiment_patterns.set_raw_indexing_results(
-            ori_tensor[matches],
+            quaternions,
             metric_values,
             phase_id=i,
         )
@@ -262,6 +268,7 @@ def pca_dictionary_index_orientations(
     # we could save some compute by only computing the cosine vectors once
     # per unique Laue group ID and reuse those coordinates for all master patterns
     # with the same Laue group ID. But more than a few phases in a sample is rare.
+    raw_results = []
     for i, mp in enumerate(master_patterns):
         # get an orientation dictionary
         ori_tensor = sample_ori_fz_laue_angle(
@@ -466,9 +473,14 @@ def pca_dictionary_index_orientations(
         # get the matches and distances
         matches, metric_values = knn.retrieve_topk()
 
-        # set the matches and distances in the experiment patterns object
+        raw_results.append((ori_tensor[matches], metric_values))
+
+    # set the matches and distances in the experiment patterns object
+    # results of an earlier run (perhaps with more phases) must not take part
+    experiment_patterns.clear_raw_indexing_results()
+    for i, (quaternions, metric_values) in enumerate(raw_results):
         experiment_patterns.set_raw_indexing_results(
-            ori_tensor[matches],
+            quaternions,
             metric_values,
             phase_id=i,
         )
-- 
2.43.0


From ec7200b38127f9df499e7e5c2069f2acef20a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 032/100] fix: refinement accepts batches with a single pattern

---
 ebsdtorch/ebsd/refining.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 9a4cf73..ec58be8 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -206,7 +206,7 @@ def orientation_grid_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
@@ -341,7 +341,7 @@ def orientation_grad_refinement(
                     align_corners=True,
                     normalize_coords=False,  # already normalized above
                     virtual_binning=virtual_binning,  # coarser grid requires blur of MP
-                ).squeeze()
+                )
 
                 # zero mean the sim_pats
                 sim_pats = sim_pats - torch.mean(sim_pats, dim=-1, keepdim=True)
-- 
2.43.0


From a903698d2c2174942b5693be5e72ed1b759768b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 033/100] fix: refinement shifts the detector by scan positions
 like the geometry does

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index ec58be8..7b1a8bb 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -116,7 +116,7 @@ def orientation_grid_refinement(
 
     if not average_pattern_center:
         # broadcast subtract the sample scan coordinates from the detector coords
-        detector_coords = detector_coords[None, :, :] + torch.cat(
+        detector_coords = detector_coords[None, :, :] - torch.cat(
             [
                 experiment_patterns.spatial_coords[:, None, :],
                 torch.zeros_like(experiment_patterns.spatial_coords[:, None, [-1]]),
-- 
2.43.0


From 4563f4f21c6f7dff76e1fc6a4b7b3b704a5fc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 034/100] fix: gradient refinement keeps the orientations that
 improved, not those that got worse

---
 ebsdtorch/ebsd/refining.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 7b1a8bb..f5e048d 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -325,12 +325,10 @@ def orientation_grad_refinement(
             # pass off to the optimizer
             optimizer = torch.optim.Adam([qu_current], lr=learning_rate)
 
-            initial_dots = None
-
-            for step in range(n_iter):
+            def get_dot_products(qu: Tensor) -> Tensor:
                 # apply the state of the lattice to the detector coordinates
                 detector_coords_rotated = qu_apply(
-                    qu_current[:, None, :], detector_coords[None, :, :]
+                    qu[:, None, :], detector_coords[None, :, :]
                 )
 
                 # interpolate the master pattern
@@ -351,12 +349,15 @@ def orientation_grad_refinement(
 
                 # use einsum to do the dot product
                 # (N_PATS, N_PIX) and (N_PATS, N_PIX) to (N_PATS,)
-                dot_products = torch.einsum(
+                return torch.einsum(
                     "ij,ij->i", exp_pats.to(match_dtype), sim_pats.to(match_dtype)
                 )
 
-                if step == 0:
-                    initial_dots = -dot_products
+            with torch.no_grad():
+                initial_dots = get_dot_products(qu_current)
+
+            for step in range(n_iter):
+                dot_products = get_dot_products(qu_current)
 
                 # backpropagate the dot products
                 loss = -torch.mean(dot_products)
@@ -380,8 +381,10 @@ def orientation_grad_refinement(
 
             # update the experiment patterns
             # experiment_patterns.set_orientations(qu_current.detach(), indices_batch)
-            # only update if the final loss is better than the initial loss
-            updates = dot_products < initial_dots
+            # only update if the final orientation (the last step was taken after
+            # its dot products) is better than the initial one
+            with torch.no_grad():
+                updates = get_dot_products(qu_current) > initial_dots
             experiment_patterns.set_orientations(
                 qu_current[updates].detach(),
                 indices_batch[updates],
-- 
2.43.0


From b790f059486ce870f524ed6cf8c0df9057d92686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 035/100] fix: indexing and refinement work with a trainable
 geometry

---
 ebsdtorch/ebsd/indexing.py | 4 ++--
 ebsdtorch/ebsd/refining.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/ebsd/indexing.py b/ebsdtorch/ebsd/indexing.py
index beca0e0..dfd84f4 100644
--- a/ebsdtorch/ebsd/indexing.py
+++ b/ebsdtorch/ebsd/indexing.py
@@ -96,7 +96,7 @@ def dictionary_index_orientations(
         # get the coordinates of the detector pixels in the sample reference frame
         detector_coords = geometry.get_coords_sample_frame(
             binning=(virtual_binning, virtual_binning)
-        )
+        ).detach()
 
         if not average_pattern_center:
             # broadcast subtract the sample scan coordinates from the detector coords
@@ -319,7 +319,7 @@ def pca_dictionary_index_orientations(
 
         detector_coords = geometry.get_coords_sample_frame(
             binning=(virtual_binning, virtual_binning)
-        )[None, ...]
+        ).detach()[None, ...]
 
         if not signal_mask is None:
             detector_coords = detector_coords[:, signal_mask.flatten()]
diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index f5e048d..17ca540 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -112,7 +112,7 @@ def orientation_grid_refinement(
     # get the coordinates of the detector pixels in the sample reference frame
     detector_coords = geometry.get_coords_sample_frame(
         binning=(virtual_binning, virtual_binning)
-    ).view(-1, 3)
+    ).detach().view(-1, 3)
 
     if not average_pattern_center:
         # broadcast subtract the sample scan coordinates from the detector coords
@@ -285,7 +285,7 @@ def orientation_grad_refinement(
     # get the coordinates of the detector pixels in the sample reference frame
     detector_coords = geometry.get_coords_sample_frame(
         binning=(virtual_binning, virtual_binning)
-    ).view(-1, 3)
+    ).detach().view(-1, 3)
 
     # normalize the detector coordinates to be unit vectors
     detector_coords = detector_coords / detector_coords.norm(dim=-1, keepdim=True)
-- 
2.43.0


From 44ac67b71eceb3040b5974f5b63fb4fc576b2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 036/100] fix: the local orientation grid is centered exactly
 for every kernel radius

---
 ebsdtorch/ebsd/refining.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 17ca540..3c0f353 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -44,11 +44,9 @@ def get_local_orientation_grid(
     semi_edge_cubochoric = semi_edge_in_degrees * torch.pi ** (2 / 3) / 360.0
 
     # make a meshgrid of cubochoric coordinates
-    cu = torch.linspace(
-        -semi_edge_cubochoric,
-        semi_edge_cubochoric,
-        2 * kernel_radius_in_steps + 1,
-    )
+    # (whole steps, so that the center of the grid is exactly zero)
+    steps = torch.arange(-kernel_radius_in_steps, kernel_radius_in_steps + 1)
+    cu = semi_edge_cubochoric * steps.float() / max(kernel_radius_in_steps, 1)
 
     # get cartesian product meshgrid
     cu = torch.stack(torch.meshgrid(cu, cu, cu, indexing="ij"), dim=-1).reshape(-1, 3)
-- 
2.43.0


From 0eb5d33216a312070464133e64c5cbd289d87af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 037/100] fix: reading a pattern center from a fitted geometry
 does not clamp it in place

---
 ebsdtorch/ebsd/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..31fb19b 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -135,8 +135,8 @@ def bruker_geometry_from_SE3(
 
     cos_sx = rotation_matrix[..., 1, 1]
     cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
+    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From fc68f682d4dfaab87de07edef40fce90226631da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 038/100] fix: fitting a geometry leaves the given patterns
 unchanged

---
 ebsdtorch/ebsd/fitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 31fb19b..6b0ea71 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -390,11 +390,12 @@ def spatial_fft_pc_fitter(
             stride=virtual_binning,
         )
 
-    patterns -= patterns.view(B, -1).min(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
-    patterns /= patterns.view(B, -1).max(dim=-1, keepdim=True).values.view(B, 1, 1, 1)
+    # out of place: the patterns still belong to the caller
+    patterns = patterns - patterns.amin(dim=(1, 2, 3), keepdim=True)
+    patterns = patterns / patterns.amax(dim=(1, 2, 3), keepdim=True)
 
     if metric == "dot":
-        patterns -= patterns.view(B, -1).mean(dim=-1, keepdim=True).view(B, 1, 1, 1)
+        patterns = patterns - patterns.mean(dim=(1, 2, 3), keepdim=True)
 
     pixel_coords_det_ref, padding, padded_shape = get_3D_pixel_coords_with_periphery(
         detector_shape=(H, W),
-- 
2.43.0


From cb88588ec8658c01728f8a6a319566b9a380f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 039/100] fix: geometry fitting finds orientations beyond the
 first dictionary batch

---
 ebsdtorch/ebsd/fitting.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 6b0ea71..59de413 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -424,8 +424,10 @@ def spatial_fft_pc_fitter(
 
     pc_z_vals = torch.linspace(pc_z_min, pc_z_max, pc_z_steps, device=patterns.device)
 
-    best_dots = torch.zeros(
-        (pc_z_steps, B, padded_shape[0], padded_shape[1]), device=patterns.device
+    best_dots = torch.full(
+        (pc_z_steps, B, padded_shape[0], padded_shape[1]),
+        -torch.inf,
+        device=patterns.device,
     )
     best_orientations = torch.zeros(
         (pc_z_steps, B, padded_shape[0], padded_shape[1]),
@@ -500,14 +502,17 @@ def spatial_fft_pc_fitter(
             # need to max-reduce over the D batch dimension and track which orientation won
             batch_values, batch_indices = torch.max(dots_full, dim=0)
 
-            best_dots[z_idx] = torch.maximum(best_dots[z_idx], batch_values)
+            # the indices count from the start of this dictionary batch
+            better = batch_values > best_dots[z_idx]
 
             best_orientations[z_idx] = torch.where(
-                best_dots[z_idx] == batch_values,
-                batch_indices,
+                better,
+                batch_indices + j,
                 best_orientations[z_idx],
             )
 
+            best_dots[z_idx] = torch.maximum(best_dots[z_idx], batch_values)
+
             sync()
 
         # print(f"Current best point: {best_dots.mean(dim=1).max().item()}")
-- 
2.43.0


From 5a60e4eccf47370e69a9d5b96227b48b3b4c249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 040/100] fix: geometry fitting simulates pixels at their
 detector spacing

---
 ebsdtorch/ebsd/fitting.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 59de413..454f2a7 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -191,14 +191,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
@@ -258,15 +258,21 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - h_pad_prior * binning_fp,
+                detector_shape[0]
+                - 1
+                - 0.5 * (binning_fp - 1)
+                + h_pad_after * binning_fp,
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - w_pad_prior * binning_fp,
+                detector_shape[1]
+                - 1
+                - 0.5 * (binning_fp - 1)
+                + w_pad_after * binning_fp,
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
-- 
2.43.0


From c17dfe0e8d97dcb6ef3b66cd26ebf98e7dc545b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 041/100] fix: geometry fitting accepts padded detectors of odd
 width

---
 ebsdtorch/ebsd/fitting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 454f2a7..e4c7b0d 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -491,7 +491,9 @@ def spatial_fft_pc_fitter(
 
             if metric == "dot":
                 sim_pats_fft = rfft2(sim_pats, dim=(-2, -1))
-                dots_full = fftshift(irfft2(sim_pats_fft * pattern_fft), dim=(-2, -1))
+                dots_full = fftshift(
+                    irfft2(sim_pats_fft * pattern_fft, s=padded_shape), dim=(-2, -1)
+                )
             elif metric == "mi":
                 dots_full = cmif(
                     images_dst=sim_pats,
-- 
2.43.0


From c8c8fe0c4624a0e44b04f9858787dc5ec8b0fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 042/100] fix: the fitted pattern center is not mirrored and
 lies in the requested range

---
 ebsdtorch/ebsd/fitting.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index e4c7b0d..3b231b4 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -245,10 +245,11 @@ def get_3D_pixel_coords_with_periphery(
     # get binned shape
     binning_fp = float(binning)
 
-    w_pad_prior = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
-    w_pad_after = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
-    h_pad_prior = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
-    h_pad_after = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    # a pattern center above 0.5 moves the detector towards lower pixel indices
+    w_pad_prior = int((pc_x_max - 0.5) * detector_shape[1] / binning_fp)
+    w_pad_after = int((0.5 - pc_x_min) * detector_shape[1] / binning_fp)
+    h_pad_prior = int((pc_y_max - 0.5) * detector_shape[0] / binning_fp)
+    h_pad_after = int((0.5 - pc_y_min) * detector_shape[0] / binning_fp)
 
     binned_shape = (
         (detector_shape[0] // binning) + h_pad_prior + h_pad_after,
@@ -529,14 +530,25 @@ def spatial_fft_pc_fitter(
     # Average over batch of experimental patterns
     avg_best_dots = best_dots.mean(dim=1)
 
-    # Find global maximum
+    # Find global maximum over the requested range of pattern centers. After the
+    # fftshift the zero shift (PC 0.5) is at padded_shape // 2, and all shifts
+    # outside of (-pad_prior, pad_after) wrap around the padded detector.
+    y_start = max(padded_shape[0] // 2 - padding[2], 0)
+    x_start = max(padded_shape[1] // 2 - padding[0], 0)
+    y_stop = padded_shape[0] // 2 + padding[3] + 1
+    x_stop = padded_shape[1] // 2 + padding[1] + 1
+    in_range = avg_best_dots[:, y_start:y_stop, x_start:x_stop]
+
     best_z_idx, best_y_idx, best_x_idx = torch.unravel_index(
-        avg_best_dots.argmax(), avg_best_dots.shape
+        in_range.argmax(), in_range.shape
     )
+    best_y_idx = best_y_idx + y_start
+    best_x_idx = best_x_idx + x_start
 
+    # shifting the pattern to higher pixel indices lowers the pattern center
     best_pc_z = pc_z_vals[best_z_idx]
-    best_pc_y = 0.5 + float(best_y_idx - padding[2] - (H_bin + 1) // 2) / H_bin
-    best_pc_x = 0.5 + float(best_x_idx - padding[0] - (W_bin + 1) // 2) / W_bin
+    best_pc_y = 0.5 - float(best_y_idx - padded_shape[0] // 2) / H_bin
+    best_pc_x = 0.5 - float(best_x_idx - padded_shape[1] // 2) / W_bin
 
     # Get the best orientation for each pattern in the batch
     best_orientations_batch = best_orientations[best_z_idx, :, best_y_idx, best_x_idx]
-- 
2.43.0


From dcd0315af5e24037e59313979d09616222fe4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 043/100] fix: electrons leaving through the same bin in one
 step are all counted

---
 ebsdtorch/simulation/monte_carlo.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/simulation/monte_carlo.py b/ebsdtorch/simulation/monte_carlo.py
index 2f2ca0a..fbb43a0 100644
--- a/ebsdtorch/simulation/monte_carlo.py
+++ b/ebsdtorch/simulation/monte_carlo.py
@@ -226,12 +226,15 @@ def bse_sim_mc(
         exit_direction_indices = exit_direction_indices[valid_mask]
 
         # push MC batch into accumulator
-        accumulator[
-            exit_energy_indices,
-            exit_depth_indices,
-            exit_direction_indices[..., 0],
-            exit_direction_indices[..., 1],
-        ] += 1
+        # (several electrons can leave through the same bin in one step)
+        flat_indices = (
+            (exit_energy_indices * n_exit_depth_bins + exit_depth_indices).long()
+            * n_exit_direction_bins
+            + exit_direction_indices[..., 0]
+        ) * n_exit_direction_bins + exit_direction_indices[..., 1]
+        accumulator.view(-1).index_add_(
+            0, flat_indices, torch.ones_like(flat_indices, dtype=accumulator.dtype)
+        )
 
         # reset if the ticks are greater than the max
         ticks += 1
-- 
2.43.0


From ca1f3c0176621444c836d3d4ec7831082f227023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 044/100] fix: a Monte Carlo device returning no electrons is
 an error, not an endless loop

---
 ebsdtorch/crystallography/ebsd_mc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 9753a3d..2d05765 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -621,7 +621,14 @@ class MonteCarloSimulator:
             if self.omega == 0.0:
                 histogram_new = (histogram_new + histogram_new.flip(3)) / 2
 
-            total_bse += histogram_new.sum().item()
+            # without progress the minimum mass would never be reached
+            new_bse = histogram_new.sum().item()
+            if not new_bse > 0:
+                raise RuntimeError(
+                    "The Monte Carlo simulation returned no backscattered electrons."
+                )
+
+            total_bse += new_bse
             total_sim += (
                 simulation_params["n_electrons"]
                 * simulation_params["n_trials_per_electron"]
-- 
2.43.0


From e722c9e8536f63b9d0114e7346a8d8bcc495241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 045/100] fix: an empty selection of patterns can be binned

---
 ebsdtorch/ebsd/experiment_pats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index e31643a..fc5f02c 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -355,7 +355,8 @@ class ExperimentPatterns(Module):
         # use avg pooling to bin the patterns if integer binning factor
         if binning > 1:
             # if isinstance(binning, int) or (binning % 1 == 0):
-            pats = torch.nn.functional.avg_pool2d(pats, binning)
+            # (as a batch of single channel images, which can be empty)
+            pats = torch.nn.functional.avg_pool2d(pats[:, None], binning)[:, 0]
             # else:
             #     blurrer = BlurAndDownsample(scale_factor=binning).to(pats.device)
             #     pats = blurrer(pats.view(-1, 1, *self.pattern_shape)).squeeze(1)
-- 
2.43.0


From 3af0bf906faeb157a4fefa3c31d2e8dd716f0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 046/100] fix: grid refinement works with its default match
 precision

---
 ebsdtorch/ebsd/refining.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 3c0f353..09c0748 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -222,7 +222,7 @@ def orientation_grid_refinement(
                 best_dots, best_indices = torch.max(dot_products, dim=-1)
 
                 # update the dots
-                dots[indices_batch, j] = best_dots
+                dots[indices_batch, j] = best_dots.to(dots.dtype)
 
                 # update center of the grid
                 qu_current = qu_augmented[
-- 
2.43.0


From 8eed1f373c5b6171fbac7194796fddaf5d7aa7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 047/100] fix: refinement skips phases without patterns

---
 ebsdtorch/ebsd/refining.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ebsdtorch/ebsd/refining.py b/ebsdtorch/ebsd/refining.py
index 09c0748..9e61840 100644
--- a/ebsdtorch/ebsd/refining.py
+++ b/ebsdtorch/ebsd/refining.py
@@ -153,6 +153,10 @@ def orientation_grid_refinement(
         )
 
         for indices_batch in pb:
+            # a phase may be without patterns
+            if len(indices_batch) == 0:
+                continue
+
             # get the local orientation grid
             # (N_EXP_PATS, N_GRID_POINTS, 3)
             cu_grid_current = cu_grid.clone().repeat(len(indices_batch), 1, 1)
@@ -298,6 +302,10 @@ def orientation_grad_refinement(
             prefix=f"REFINE MP {i+1:01d}/{len(master_patterns):01d} ",
         )
         for indices_batch in pb:
+            # a phase may be without patterns
+            if len(indices_batch) == 0:
+                continue
+
             # get the experiment patterns for this batch
             # (N_EXP_PATS, H, W)
             exp_pats = experiment_patterns.get_patterns(
-- 
2.43.0


From a507be8393a1098d68004f3fb8d8cf279006b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 048/100] fix: NLPAR's coefficient search cannot diverge and
 copies among neighbours give no NaN

---
 ebsdtorch/preprocessing/nlpar.py | 52 +++++++++++++-------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..441d551 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -11,6 +11,7 @@ Non-local smoothing for enhanced EBSD pattern indexing." Ultramicroscopy 200
 
 """
 
+import math
 from typing import Tuple
 import torch
 from torch import Tensor
@@ -32,7 +33,7 @@ def nlpar(
         data (Tensor): The EBSD pattern data tensor.
         k_rad (int): The radius of the kernel.
         coeff (float): higher -> original pattern has more weight
-        coeff_fit_tol (float): tolerance (Newton's method) to hit coeff
+        coeff_fit_tol (float): tolerance (bisection) to hit coeff
         center_logit_bias (float): higher -> constant bias towards original pattern
 
     Returns:
@@ -129,9 +130,11 @@ def nlpar(
     # iterate and normalize the squared differences
     for i in range(n_pats_per_kernel):
         sigma_other = sigma_hat_padded[starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]]
-        dists[:, :, i] = (
-            dists[:, :, i] - n_pixels_per_pat * (sigma_hat**2 + sigma_other**2)
-        ) / (2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2))
+        # no noise at all if neighbors are copies of each other
+        variance = (sigma_hat**2 + sigma_other**2).clamp_min(1e-30)
+        dists[:, :, i] = (dists[:, :, i] - n_pixels_per_pat * variance) / (
+            2**0.5 * n_pixels_per_pat**0.5 * variance
+        )
 
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
@@ -139,37 +142,24 @@ def nlpar(
     # need average first bin in softmax normed pdf to equal coeff specified
     # by definition only applicable to the 3x3 NN kernel even when doing a larger kernel
     # f  = exp(w[0]/x^2) / sum(exp(w[i]/x^2)) - coeff
-    # f' = -2 * exp(w[0]/x^2) * (sum(w[0] * exp(w[i]/x^2)) - sum(w[i] * exp(w[i]/x^2))) / x^3 * sum(exp(w[i]/x^2))^2
-    # Newton's method:
-    # x = x - f / f'
-    # The current implementation uses Nelder-Mead optimization to find the coefficient
-    guess_coeff = 1.0
+    # f falls monotonically with x because w[0] is the largest weight, so bisection
+    # on a log scale always converges (Newton's method can diverge to NaN or to a
+    # plain average of all patterns)
     nn_weights = weights[:, :, :9]
-    for _ in range(10):
-        # notice that guess_coeff_sq is only calculated at the beginning
-        guess_coeff_sq = guess_coeff**2
+    log_lo, log_hi = -7.0, 7.0
+    guess_coeff = 1.0
+    for _ in range(50):
+        guess_coeff = math.exp(0.5 * (log_lo + log_hi))
         obj = (
-            torch.mean(torch.softmax(nn_weights / guess_coeff_sq, dim=-1)[:, :, 0])
+            torch.mean(torch.softmax(nn_weights / guess_coeff**2, dim=-1)[:, :, 0])
             - coeff
-        )
-        grad = torch.mean(
-            -2
-            * torch.exp(nn_weights[:, :, 0] / guess_coeff_sq)
-            * (
-                torch.sum(
-                    nn_weights[:, :, [0]] * torch.exp(nn_weights / guess_coeff_sq),
-                    dim=-1,
-                )
-                - torch.sum(nn_weights * torch.exp(nn_weights / guess_coeff_sq), dim=-1)
-            )
-            / (
-                guess_coeff**3
-                * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
-            )
-        )
-        guess_coeff -= obj / grad
-        if torch.abs(obj) < coeff_fit_tol:
+        ).item()
+        if abs(obj) < coeff_fit_tol:
             break
+        if obj > 0:
+            log_lo = math.log(guess_coeff)
+        else:
+            log_hi = math.log(guess_coeff)
 
     # apply the computed coefficient to the weights
     weights /= guess_coeff**2
-- 
2.43.0


From 190b5a1e8c188d3b39c5995d21159cecf026b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 049/100] fix: log-depth resampling has one edge more than
 depth bins

---
 ebsdtorch/crystallography/ebsd_mc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 2d05765..024fee2 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -504,13 +504,11 @@ class MonteCarloSimulator:
         bin_edges = (
             torch.exp(
                 torch.arange(
-                    0,
-                    self.n_depth_bins * self.binsize_exit_depth
-                    + self.binsize_exit_depth,
-                    self.binsize_exit_depth,
+                    self.n_depth_bins + 1,
                     device=histogram.device,
                     dtype=torch.float32,
                 )
+                * self.binsize_exit_depth
             )
             - 1.0
         )
-- 
2.43.0


From d8b8d7ad90f9bdad78a23f077e14cec930136885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 050/100] fix: linear resampling interpolates in the segment
 that contains the point

---
 ebsdtorch/crystallography/ebsd_mc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_mc.py b/ebsdtorch/crystallography/ebsd_mc.py
index 024fee2..8b44d8d 100644
--- a/ebsdtorch/crystallography/ebsd_mc.py
+++ b/ebsdtorch/crystallography/ebsd_mc.py
@@ -409,8 +409,10 @@ class MonteCarloSimulator:
 
         if extrapolate == "error":
             # Check for out-of-range indices
-            if torch.any(indices < 0) or torch.any(indices >= m.shape[-1]):
+            if torch.any(x < xp[..., :1]) or torch.any(x > xp[..., -1:]):
                 raise ValueError("(some) interpolation indices out of range")
+            # the segment that ends at the first sample point not below x
+            indices = torch.clamp(indices - 1, 0, m.shape[-1] - 1)
         elif extrapolate == "const":
             # Pad for constant values outside range
             m = torch.cat(
-- 
2.43.0


From 52e373b87493d8f783e80f27a695f0cfacda68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 051/100] fix: contradictory or empty master pattern files are
 rejected instead of loaded wrongly

---
 ebsdtorch/io/read_master_pattern.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ebsdtorch/io/read_master_pattern.py b/ebsdtorch/io/read_master_pattern.py
index afc9377..7b16aae 100644
--- a/ebsdtorch/io/read_master_pattern.py
+++ b/ebsdtorch/io/read_master_pattern.py
@@ -34,6 +34,23 @@ def read_master_pattern(file_path) -> MasterPattern:
 
     # get (n_energies,) shape pdf by accumulating over the lambert projection
     probabilities = e_accum.sum(axis=(0, 1))
+    # contradictory contents would broadcast to a wrong pattern
+    if north_master_patterns.shape != south_master_patterns.shape:
+        raise ValueError(
+            "The hemispheres in the file differ in shape: "
+            f"{north_master_patterns.shape} and {south_master_patterns.shape}"
+        )
+    n_energies = 1
+    if north_master_patterns.ndim > 2:
+        n_energies = north_master_patterns.shape[-3]
+    if n_energies != probabilities.shape[0]:
+        raise ValueError(
+            f"The file has master patterns for {n_energies} energies "
+            f"but Monte Carlo data for {probabilities.shape[0]}"
+        )
+    if not probabilities.sum() > 0:
+        raise ValueError("The Monte Carlo data in the file hold no electrons")
+
     # normalize the probabilities
     pdf = probabilities / probabilities.sum()
 
-- 
2.43.0


From 0ea9b46eeeec3d1963ad09f8c8ec01b34d172dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:41 +0000
Subject: [PATCH 052/100] fix: the progress bar works on streams that cannot
 encode the block character

---
 ebsdtorch/utils/progressbar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/progressbar.py b/ebsdtorch/utils/progressbar.py
index f3a8254..851ac78 100644
--- a/ebsdtorch/utils/progressbar.py
+++ b/ebsdtorch/utils/progressbar.py
@@ -24,6 +24,13 @@ def progressbar(it, prefix="", prefix_min_length=15, size=60, out=sys.stdout):
     count = len(it)
     start = time.time()
 
+    # not every stream can encode the block character
+    block = "█"
+    try:
+        block.encode(getattr(out, "encoding", None) or "utf-8")
+    except (UnicodeEncodeError, LookupError):
+        block = "#"
+
     for i, item in enumerate(it):
         yield item
         j = i + 1
@@ -48,7 +55,7 @@ def progressbar(it, prefix="", prefix_min_length=15, size=60, out=sys.stdout):
         speed_str = f"{ips:04.1f} itr/s" if ips > 1.0 else f"{1.0/ips:04.1f} s/itr"
 
         print(
-            f"{prefix}[{u'█'*x}{('.'*(size-x))}] {j / count * 100:04.1f}% {j}/{count} {e_time_str}<{r_time_str}, {speed_str}",
+            f"{prefix}[{block*x}{('.'*(size-x))}] {j / count * 100:04.1f}% {j}/{count} {e_time_str}<{r_time_str}, {speed_str}",
             end="\r",
             file=out,
             flush=True,
-- 
2.43.0


From f84200484abe9c1d61d83c8f15abf557f2e80d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 053/100] fix: a constant pattern no longer spoils the geometry
 fit of the others

---
 ebsdtorch/ebsd/fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b231b4..042bef2 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -399,7 +399,10 @@ def spatial_fft_pc_fitter(
 
     # out of place: the patterns still belong to the caller
     patterns = patterns - patterns.amin(dim=(1, 2, 3), keepdim=True)
-    patterns = patterns / patterns.amax(dim=(1, 2, 3), keepdim=True)
+    # (a constant pattern matches everything equally, it must not give NaN scores)
+    patterns = patterns / patterns.amax(dim=(1, 2, 3), keepdim=True).clamp_min(
+        torch.finfo(patterns.dtype).tiny
+    )
 
     if metric == "dot":
         patterns = patterns - patterns.mean(dim=(1, 2, 3), keepdim=True)
-- 
2.43.0


From 908cceb08ca97502bdb9e0f5c967347c0062060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 054/100] fix: inverse harmonic transforms accept coefficients
 of any memory layout

---
 ebsdtorch/harmonics/sht.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht.py b/ebsdtorch/harmonics/sht.py
index 3857458..8001767 100644
--- a/ebsdtorch/harmonics/sht.py
+++ b/ebsdtorch/harmonics/sht.py
@@ -280,7 +280,7 @@ class DLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            torch.reshape(Psi, (b, -1)),
             self.D,
         ).reshape(b, 2 * L - 1, 2 * L)
 
@@ -443,7 +443,7 @@ class RDLT(Module):
         L, b = self.L, Psi.size()[0]
 
         psiHat = torch.mm(
-            Psi.view(b, -1),
+            torch.reshape(Psi, (b, -1)),
             self.D,
         ).reshape(b, L, 2 * L)
 
-- 
2.43.0


From 9f837cb5fbc9d196b6a94af67eb1fbd33e0d86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 055/100] fix: the fast real correlation on the rotation group
 dropped the negative orders

---
 ebsdtorch/harmonics/sht_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht_cc.py b/ebsdtorch/harmonics/sht_cc.py
index 554eae0..5388d27 100644
--- a/ebsdtorch/harmonics/sht_cc.py
+++ b/ebsdtorch/harmonics/sht_cc.py
@@ -202,11 +202,11 @@ def rs2cc_fast_(
     )
 
     f_lmkb = torch.einsum("lmk,bml->blmk", d_lmk[:, (B - 1) :, :], f)
-    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk[:, :, (B - 1) :], g.conj())
+    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk, g_n_aug)
     cc = torch.einsum("blmk,blkn->bmkn", f_lmkb, g_lknb)
 
     # Need to do fftshift so that the low frequencies are at the periphery
-    cc = ifftshift(cc, dim=(-2))
+    cc = ifftshift(cc, dim=(-1, -2))
 
     # dim=(..., -3) means the half dimension is the -3 dimension (m)
     cc = irfftn(cc, s=(2 * B - 1,) * 3, dim=(-1, -2, -3), norm="forward")
-- 
2.43.0


From 152f31fed3c88c13bcbe014b074e0253217096ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 056/100] fix: reciprocal structure matrix was transposed, so
 frame changes were wrong for oblique cells

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..6098ab7 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -306,8 +306,8 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct structure matrix
+        self.rsm = torch.linalg.inv(self.dsm).T.contiguous()
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From c70825ddcb3ebeabbdf5085f0d51ed3dca5bfa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 057/100] fix: average atomic number and weight were too small
 for cells with several sites

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 6098ab7..1a34210 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -361,7 +361,7 @@ class Cell:
 
         # 8) Compute average atomic number, weight and density
         self.average_atomic_number = (
-            torch.mean(
+            torch.sum(
                 self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
             )
             / self.mults.sum()
@@ -369,7 +369,7 @@ class Cell:
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
+            torch.sum(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
         )
 
         # Density in g/cm^3
-- 
2.43.0


From d77d7b9cf8779aaa130cc5de17175d3e6e7136a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 058/100] fix: reflection lists miss no reflection and leave
 out the direct beam

---
 ebsdtorch/crystallography/unit_cell.py | 102 ++++---------------------
 1 file changed, 16 insertions(+), 86 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 1a34210..9b7ea75 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -868,46 +868,10 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
-
-        return max_h, max_k, max_l
+        # h is the projection of the reciprocal lattice vector on the direct
+        # axis a, so |h| <= a / d for every reflection with d-spacing d,
+        # whatever the angles of the cell (and likewise for k and l)
+        return tuple(int(x / dmin) for x in (self.a, self.b, self.c))
 
     def get_reflections(
         self,
@@ -917,7 +881,7 @@ class Cell:
     ) -> Tensor:
         """
         Compute the range of reflections for the lookup table using a meshgrid approach.
-        Maximum test value is automatically determined by checking axial reflections.
+        Maximum test value is automatically determined from the lattice parameters.
 
         Args:
             dmin (float): Minimum d-spacing to consider in nm
@@ -934,54 +898,18 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        # Maximum indices in either direction (inclusive)
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -990,12 +918,14 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
-- 
2.43.0


From baf6046289d1091702035fdc1b78885aa9fa905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 059/100] fix: the second origin choice of a space group can be
 selected

---
 ebsdtorch/crystallography/groups.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..f0bf2bd 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -310,7 +310,8 @@ def read_sg_gen_string(
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
         print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        # the shift follows the flag
+        t = gen_string[3 + 4 * gen_num : (3 + 4 * gen_num) + 3]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +335,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From 8d21acf24f083b1db4ded94317c2ff7f345a5f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:10 +0000
Subject: [PATCH 060/100] fix: space group operators keep their homogeneous
 coordinate

---
 ebsdtorch/crystallography/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index f0bf2bd..8275fec 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -474,7 +474,8 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    # only the translations: the homogeneous coordinate stays 1
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From 2e6c1a16002ee0b833512befda9ec6caa44842c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 061/100] fix: master patterns use the absorption of their own
 voltage

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 02f248a..39af529 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -278,7 +278,7 @@ def ebsd_master_pattern(
             # form exp_A exactly instead of composing it via Zassenhaus
             A = (
                 dynmat_V[v]
-                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000))
+                + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000[v]))
             ) * (1j * torch.pi * mlambdas[v])
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
-- 
2.43.0


From 870737e0036b8563e7ad5ea35dff2df7880a2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 062/100] fix: simulating a master pattern leaves the Monte
 Carlo weights of the caller unchanged

---
 ebsdtorch/crystallography/ebsd_master.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 39af529..813ba10 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -247,8 +247,8 @@ def ebsd_master_pattern(
     # convert integer tensor to float tensor of correct dtype
     hkl_valid_fp = hkl_valid.to(kvectors.dtype)
 
-    # normalize mc weights
-    mc_weights /= mc_weights.sum()
+    # normalize mc weights (not in place, the caller keeps its tensor)
+    mc_weights = mc_weights / mc_weights.sum()
 
     # get depths_95 from the Monte Carlo weights
     energy_marginals_1d = mc_weights / mc_weights.sum(dim=1, keepdim=True)
-- 
2.43.0


From ef5df7b96833542f562c1ccce50ca0ff0ddbf456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 063/100] fix: the depth step of a master pattern simulation is
 used

---
 ebsdtorch/crystallography/ebsd_master.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/ebsd_master.py b/ebsdtorch/crystallography/ebsd_master.py
index 813ba10..ff3562c 100644
--- a/ebsdtorch/crystallography/ebsd_master.py
+++ b/ebsdtorch/crystallography/ebsd_master.py
@@ -279,7 +279,7 @@ def ebsd_master_pattern(
             A = (
                 dynmat_V[v]
                 + torch.diag_embed(torch.complex(2.0 * sg / mlambdas[v], upmod_000[v]))
-            ) * (1j * torch.pi * mlambdas[v])
+            ) * (1j * torch.pi * mlambdas[v] * depth_step)
             exp_A = torch.matrix_exp(A)  # (k_chunk, n_g, n_g)
 
             # Initialize accumulated Lgh matrix
-- 
2.43.0


From bfcf6a6318a3a0cfd75ddf7f3941f9b17e58c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 064/100] fix: master patterns can be simulated without
 absorption

---
 ebsdtorch/crystallography/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index c75ac2d..2f145d2 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -339,7 +339,7 @@ def calc_helper_bloch_formalism(
         # complex Ucg = U_g + i Uprime_g = U_g,r-Uprime_g,i + i(U_g,i+Uprime_g,r)
         ucg = pre * torch.complex(ff.real - gg.imag, ff.imag + gg.real)
     else:
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(ff.real)
         ucg = pre * ff
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
@@ -552,7 +552,7 @@ def calc_helper_scatter_matrix(
         upmod = preg * pref * torch.abs(gg)
     else:
         vpphase = torch.zeros_like(ff)
-        upmod = torch.zeros_like(ff)
+        upmod = torch.zeros_like(ff.real)
 
     # cell%mLambda is the relativistic wavelength in the orignal f90 code...
     # I don't want it to be an attribute of the cell object because it is defined
-- 
2.43.0


From 9dfd7e6eed5485f03654be673208fa53d62d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 065/100] fix: atoms at 0.999... and 0 are one atom, not two

---
 ebsdtorch/crystallography/unit_cell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 9b7ea75..8471021 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -349,9 +349,12 @@ class Cell:
             (all_pos).abs() < 1e-6, torch.zeros_like(all_pos), all_pos
         )
 
-        # remove duplicates
+        # remove duplicates, 0.99999... and 0.0 are the same position
         for i in range(all_pos.shape[0]):
-            self.apos.append(unique_rows(all_pos[i], eps=1e-4))
+            delta = (all_pos[i][:, None, :] - all_pos[i][None, :, :]).abs()
+            same = (torch.minimum(delta, 1.0 - delta) < 1e-4).all(dim=-1)
+            # keep a position if no earlier one is the same
+            self.apos.append(all_pos[i][~same.triu(diagonal=1).any(dim=0)])
         self.mults = torch.tensor(
             [len(a) for a in self.apos], device=device, dtype=torch.int64
         )
-- 
2.43.0


From b640eb8410f0025281d9198a1f5f48bd79063ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 066/100] fix: point group, Laue group and crystal system of a
 unit cell were those of the next group

---
 ebsdtorch/crystallography/unit_cell.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 8471021..4fbc98d 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,14 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        # (the last one whose first space group is not beyond this one)
+        self.pg_num = sum(sg_num >= first for first in sg_pg_beg)
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = sum(sg_num >= first for first in sg_xt_beg)
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From 73caf3482244b534a39be2b768eab95210ee6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 067/100] fix: trigonal space groups get the direction sector
 of their point group

---
 ebsdtorch/crystallography/kvectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..bae00ec 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -158,11 +158,11 @@ def kvectors_grid(
             if 143 <= sg <= 167:  # trigonal
                 if 143 <= sg <= 146:  # 3
                     stnum = 10
-                elif sg == 147 <= 155:  # bar3 and 32
+                elif 147 <= sg <= 155:  # bar3 and 32
                     stnum = 12
                 elif sg in [156, 158, 160, 161]:  # 3m
                     stnum = 14
-                elif sg == 157 | sg == 159:  # 3m
+                elif sg in [157, 159]:  # 3m
                     stnum = 15
                 elif sg in [162, 163]:  # bar3m
                     stnum = 17
-- 
2.43.0


From f3509ad68d1347c9267afa2736e081aa4887164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 068/100] fix: the hexagon is mapped onto the unit hemisphere

---
 ebsdtorch/crystallography/kvectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index bae00ec..46614d8 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -102,8 +102,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # undo original swap and lift the unit disk to the hemisphere (Lambert)
+    rho_sq = x_out**2 + y_out**2
+    lift = torch.sqrt((2.0 - rho_sq).clamp(min=0.0))
+    out = torch.stack((y_out * lift, x_out * lift, 1.0 - rho_sq), dim=-1)
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-- 
2.43.0


From 1e95e8ad19d5b7845ff818b9cbe1f8d5ef48c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 069/100] fix: directions of hexagonal grids are computed from
 hexagonal indices

---
 ebsdtorch/crystallography/kvectors.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 46614d8..f8398cf 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -195,6 +195,10 @@ def kvectors_grid(
     # append hemisphere flag to k_ij
     k_ij = torch.cat((k_ij, torch.full_like(k_ij[:, 0:1], 1, device=device)), dim=1)
     xy = k_ij.float() / float(grid_half_width)
+    # hexagonal grid: the indices count along axes 120 degrees apart
+    xy_hex = torch.stack(
+        [xy[:, 0] - 0.5 * xy[:, 1], xy[:, 1] * (3**0.5) / 2.0], dim=-1
+    )
 
     if stnum == 1:  # triclinic 1
         kstar = square_to_hemisphere(xy)
@@ -263,7 +267,7 @@ def kvectors_grid(
     elif stnum == 10:  # hexagonal 3
         # keep x >= 0 and y >= 0 in hexagon with SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -285,7 +289,7 @@ def kvectors_grid(
             )
         # keep x >= 0 and y >= 0 and x >= y lacks SH
         mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -311,7 +315,7 @@ def kvectors_grid(
             & (k_ij[:, 0] >= (k_ij[:, 1] + 1) // 2)
             & (k_ij[:, 0] <= 2 * k_ij[:, 1])
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -325,7 +329,7 @@ def kvectors_grid(
     elif stnum == 15:  # hexagonal 31m, 6
         # keep kj >= 0 and ki >= kj with SH
         mask = (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -351,7 +355,7 @@ def kvectors_grid(
             & (ang >= (torch.pi / 5.9999))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -365,7 +369,7 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (ang <= (torch.pi / 3)) & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -382,7 +386,7 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
@@ -405,7 +409,7 @@ def kvectors_grid(
             & (ang <= (torch.pi / 6.0001))
             & (xx >= 0)
         )
-        kstar = hexagon_to_hemisphere(xy[mask])
+        kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
         mask_in_hex = kstar[:, 2] >= 0
-- 
2.43.0


From 69695b3328f4114a2891b1484afff0959f2b16f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 070/100] fix: hexagonal direction grids cover their sector
 including its boundary

---
 ebsdtorch/crystallography/kvectors.py | 28 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index f8398cf..fc4cb62 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -270,7 +270,7 @@ def kvectors_grid(
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -287,12 +287,12 @@ def kvectors_grid(
             raise NotImplementedError(
                 "Rhombohedral 32 not implemented: use hexagonal setting."
             )
-        # keep x >= 0 and y >= 0 and x >= y lacks SH
-        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0) & (k_ij[:, 0] >= k_ij[:, 1])
+        # keep x >= 0 and y >= 0 (120 degrees) lacks SH
+        mask = (k_ij[:, 0] >= 0) & (k_ij[:, 1] >= 0)
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     # examining "PGSamplingType" & "getHexvsRho" in EMsoft: case 13 is infeasible
@@ -318,7 +318,7 @@ def kvectors_grid(
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -332,7 +332,7 @@ def kvectors_grid(
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -352,13 +352,15 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang >= (torch.pi / 5.9999))
+            & (ang >= (torch.pi / 6.0001))
             & (xx >= 0)
         )
+        # the angle of the pole is undefined
+        mask = mask | ((k_ij[:, 0] == 0) & (k_ij[:, 1] == 0))
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 17:  # hexagonal -31m, 6/m, -62m
@@ -372,7 +374,7 @@ def kvectors_grid(
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     elif stnum == 18:  # hexagonal 6mm
@@ -383,13 +385,13 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
+            & (ang <= (torch.pi / 5.9999))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
         # add the other hemisphere
@@ -406,13 +408,13 @@ def kvectors_grid(
         mask = (
             (k_ij[:, 0] >= 0)
             & (k_ij[:, 1] >= 0)
-            & (ang <= (torch.pi / 6.0001))
+            & (ang <= (torch.pi / 5.9999))
             & (xx >= 0)
         )
         kstar = hexagon_to_hemisphere(xy_hex[mask])
         k_ij = k_ij[mask]
         # filter again if z < 0 (outside of the hexagon gets mapped down)
-        mask_in_hex = kstar[:, 2] >= 0
+        mask_in_hex = kstar[:, 2] >= -1e-6
         kstar = kstar[mask_in_hex]
         k_ij = k_ij[mask_in_hex]
     else:
-- 
2.43.0


From 7feaddb0c1428c5174a42112ae877680913e759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 071/100] fix: Bruker geometry of a pose keeps the signs of its
 tilts

---
 ebsdtorch/ebsd/fitting.py  | 6 ++----
 ebsdtorch/ebsd/geometry.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 042bef2..5335371 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,8 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 6657265..1a74901 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,8 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp(min=-1, max=1))
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From e5345727c0170c09ce89c0840a290794aad6179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 072/100] fix: second structure matrix of trigonal cells takes
 the angle in radians

---
 ebsdtorch/crystallography/unit_cell.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 4fbc98d..b13aec1 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -304,17 +304,17 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
-            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
+            Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device)
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
+                * torch.sin(0.5 * self.alpha)
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device).T
+            My = torch.tensor([[x, 0, -y], [0, 1, 0], [y, 0, x]], device=device)
             self.dsm2 = torch.matmul(torch.matmul(My, Mx), self.dsm)
         else:
             self.dsm2 = None
-- 
2.43.0


From ab2836934f963addf3d9522d043277b99881d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:57 +0000
Subject: [PATCH 073/100] fix: rhombohedral cells are described in hexagonal
 axes

---
 ebsdtorch/crystallography/unit_cell.py | 46 +++++++++++++++++---------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index b13aec1..61153e5 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -788,31 +788,45 @@ class Cell:
         We use the obverse setting in all cases.
         """
         # Convert lattice parameters to hexagonal
-        calpha = torch.cos(self.alpha * torch.pi / 180.0)
-        ar = self.a
-
-        self.alpha = torch.tensor(90.0, device=self.device)
-        self.beta = torch.tensor(90.0, device=self.device)
-        self.gamma = torch.tensor(120.0, device=self.device)
-        self.a = ar * torch.sqrt(torch.tensor(2.0, device=self.device) - 2.0 * calpha)
-        self.b = self.a
-        self.c = ar * torch.sqrt(torch.tensor(3.0, device=self.device) + 6.0 * calpha)
+        alpha = self.alpha.to(torch.float64)
+        calpha = torch.cos(alpha)
+        ar = self.a.to(torch.float64)
+        ah = (ar * torch.sqrt(2.0 - 2.0 * calpha)).item()
+        ch = (ar * torch.sqrt(3.0 + 6.0 * calpha)).item()
 
         # Transform matrix
         M = torch.tensor(
             [
-                [2.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
-                [-1.0 / 3.0, -2.0 / 3.0, 1.0 / 3.0],
+                [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+                [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
             ],
             device=self.device,
+            dtype=torch.float64,
         )
 
         # Transform atom coordinates
-        for i in range(self.atom_ntype):
-            pos = self.atom_data[i, :3].clone()
-            pos = torch.matmul(M, pos)
-            self.atom_data[i, :3] = pos
+        atom_data = self.atom_data.to(torch.float64)
+        atom_data = torch.cat([atom_data[:, :3] @ M.T, atom_data[:, 3:]], dim=-1)
+
+        # everything else follows from the lattice and the atoms
+        cell = Cell(
+            sg_num=self.sg_num,
+            atom_data=[
+                (z, *row) for z, row in zip(self.atom_types.tolist(), atom_data.tolist())
+            ],
+            abc=(ah, ah, ch),
+            abc_units="nm",
+            angles=(90.0, 90.0, 120.0),
+            angles_units="deg",
+            sg_setting=self.sg_setting,
+            xtalname=self.xtalname,
+            source=self.source,
+            device=self.device,
+        )
+        if self.a.dtype != torch.float64:
+            cell.set_fp_dtype(self.a.dtype)
+        self.__dict__.update(cell.__dict__)
 
     def is_g_allowed(self, g: torch.Tensor) -> bool:
         """Determine whether a reflection is allowed by lattice centering.
-- 
2.43.0


From f57bd9bb7d1e12454eda639ec026a1a2b607954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 074/100] fix: the 3x3 neighbours come first for larger nlpar
 search radii

---
 ebsdtorch/preprocessing/nlpar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 441d551..d01b4ef 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -94,7 +94,7 @@ def nlpar(
     # find indices of 8 nearest neighbors
     # closest point is self so we skip it
     offset_coords = offset_coords[
-        torch.argsort(torch.sum(torch.abs(offset_coords), dim=-1))
+        torch.argsort(torch.sum(offset_coords**2, dim=-1))
     ]
 
     starts_i = k_rad + offset_coords[:, 0]
-- 
2.43.0


From e230378e86695b252ffb5fff85ab13c4823b4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 075/100] fix: identities, half turns and small rotations of
 quaternions, axis-angles and Rodrigues vectors

---
 ebsdtorch/s2_and_so3/orientations.py | 110 ++++++++++++++-------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..e85f59f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -24,6 +24,27 @@ import torch
 from torch import Tensor
 
 
+@torch.jit.script
+def homochoric_radius(angle: Tensor) -> Tensor:
+    """
+    Radius (3/4 * (w - sin(w)))^(1/3) of a rotation by w in homochoric space.
+
+    Args:
+        angle: rotation angles in radians
+
+    Returns:
+        radii of the same shape. For small angles, where w and sin(w) cancel,
+        a Taylor expansion is used.
+    """
+    sq = angle**2
+    # w - sin(w) = w^3/3! - w^5/5! + w^7/7! - w^9/9! + w^11/11! ...
+    series = (angle * sq / 6) * (
+        1 - sq / 20 * (1 - sq / 42 * (1 - sq / 72 * (1 - sq / 110)))
+    )
+    diff = torch.where(angle < 0.25, series, angle - torch.sin(angle))
+    return (0.75 * diff) ** (1.0 / 3.0)
+
+
 @torch.jit.script
 def qu2ho(qu: Tensor) -> Tensor:
     """
@@ -37,15 +58,14 @@ def qu2ho(qu: Tensor) -> Tensor:
     """
     if qu.size(-1) != 4:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
-    ho = torch.empty_like(qu[..., :3])
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
-    # get the unit vector
-    unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
-    ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
+    angle = 2 * torch.atan2(norm, torch.abs(qu[..., 0:1]))
+    # get the unit vector (q and -q are the same rotation)
+    unit = torch.where(qu[..., 0:1] < 0, -qu[..., 1:], qu[..., 1:]) / norm
+    ho = unit * homochoric_radius(angle)
     # fix the case where the angle is zero
-    ho[(angle.squeeze(-1) < 1e-8)] = 0.0
-    return ho
+    return torch.where(norm == 0, torch.zeros_like(ho), ho)
 
 
 @torch.jit.script
@@ -679,9 +699,7 @@ def ax2ho(ax: Tensor) -> Tensor:
         Homochoric vectors as tensor of shape (..., 3).
 
     """
-    return (0.75 * (ax[..., 3:4] - torch.sin(ax[..., 3:4]))) ** (1.0 / 3.0) * ax[
-        ..., :3
-    ]
+    return homochoric_radius(ax[..., 3:4]) * ax[..., :3]
 
 
 @torch.jit.script
@@ -697,6 +715,12 @@ def ax2ro(ax: Tensor) -> Tensor:
     """
     ro = ax.clone()
     ro[..., 3] = torch.tan(ax[..., 3] / 2)
+    # half turns, up to rounding of the angle -> infinite tan
+    eps = 3e-7 if ax.dtype == torch.float32 else 1e-10
+    half_turn = torch.abs(torch.abs(ax[..., 3]) - torch.pi) < eps
+    ro[..., 3] = torch.where(
+        half_turn, torch.full_like(ro[..., 3], float("inf")), ro[..., 3]
+    )
     return ro
 
 
@@ -711,20 +735,16 @@ def ro2ax(ro: Tensor) -> Tensor:
     Returns:
         torch.Tensor: shape (..., 4) axis-angles (x, y, z, angle).
     """
-    ax = torch.empty_like(ro)
-    mask_zero_ro = torch.abs(ro[..., 3]) == 0
-    ax[mask_zero_ro] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
-
-    mask_inf_ro = torch.isinf(ro[..., 3])
-    ax[mask_inf_ro, :3] = ro[mask_inf_ro, :3]
-    ax[mask_inf_ro, 3] = torch.pi
-
-    mask_else = ~(mask_zero_ro | mask_inf_ro)
-    ax[mask_else, :3] = ro[mask_else, :3] / torch.norm(
-        ro[mask_else, :3], dim=-1, keepdim=True
+    # the arctangent of infinity is a quarter turn
+    ax = torch.cat(
+        (
+            ro[..., :3] / torch.norm(ro[..., :3], dim=-1, keepdim=True),
+            2 * torch.atan(ro[..., 3:4]),
+        ),
+        dim=-1,
     )
-    ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
-    return ax
+    identity = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
+    return torch.where(ro[..., 3:4] == 0, identity, ax)
 
 
 @torch.jit.script
@@ -757,27 +777,14 @@ def qu2ax(qu: Tensor) -> Tensor:
     Returns:
         torch.Tensor: shape (..., 4) axis-angle in the format (x, y, z, angle).
     """
-
-    ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
-
-    s = torch.where(
-        qu[..., 0:1] != 0,
-        torch.sign(qu[..., 0:1]) / torch.norm(qu[..., 1:], dim=-1, keepdim=True),
-        1.0,
-    )
-
-    ax[..., :3] = qu[..., 1:] * s
-    ax[..., 3] = angle
+    # q and -q are the same rotation
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    angle = 2 * torch.atan2(norm, torch.abs(qu[..., 0:1]))
+    axis = torch.where(qu[..., 0:1] < 0, -qu[..., 1:], qu[..., 1:]) / norm
 
     # fix identity quaternions to be about z axis
-    mask_identity = angle == 0.0
-    ax[mask_identity, 0] = 0.0
-    ax[mask_identity, 1] = 0.0
-    ax[mask_identity, 2] = 1.0
-    ax[mask_identity, 3] = 0.0
-
-    return ax
+    identity = torch.tensor([0, 0, 1, 0], dtype=qu.dtype, device=qu.device)
+    return torch.where(norm == 0, identity, torch.cat((axis, angle), dim=-1))
 
 
 @torch.jit.script
@@ -791,19 +798,18 @@ def qu2ro(qu: Tensor) -> Tensor:
     Returns:
         Tensor: shape (..., 4) Rodrigues-Frank (x, y, z, tan(angle/2))
     """
-    ro = torch.empty_like(qu)
-
-    # Handle general case
-    ro[..., :3] = qu[..., 1:] * torch.rsqrt(
-        torch.sum(qu[..., 1:] ** 2, dim=-1, keepdim=True)
-    )
-    ro[..., 3] = torch.tan(torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0)))
+    # q and -q are the same rotation
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    axis = torch.where(qu[..., 0:1] < 0, -qu[..., 1:], qu[..., 1:]) / norm
+    w = torch.abs(qu[..., 0:1])
 
     # w < 1e-8 for float32 / w < 1e-10 for float64 -> infinite tan
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
-    mask_zero = torch.abs(qu[..., 0]) < eps
-    ro[mask_zero, 3] = float("inf")
-    return ro
+    tan_half = torch.where(w < eps, torch.full_like(w, float("inf")), norm / w)
+
+    # identity quaternions are about the z axis
+    identity = torch.tensor([0, 0, 1, 0], dtype=qu.dtype, device=qu.device)
+    return torch.where(norm == 0, identity, torch.cat((axis, tan_half), dim=-1))
 
 
 @torch.jit.script
-- 
2.43.0


From c947562fe0120472fed5a74eca1d322e78032137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 076/100] fix: rotation matrices of half turns and of any batch
 shape convert

---
 ebsdtorch/s2_and_so3/orientations.py | 126 +++++++++------------------
 1 file changed, 40 insertions(+), 86 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index e85f59f..7972677 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -91,6 +91,7 @@ def om2qu(matrix: Tensor) -> Tensor:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
     batch_dim = matrix.shape[:-2]
+    matrix = matrix.reshape(-1, 3, 3)
 
     m00 = matrix[..., 0, 0]
     m11 = matrix[..., 1, 1]
@@ -119,35 +120,32 @@ def om2qu(matrix: Tensor) -> Tensor:
     branch_4_t = 1 + m00[branch_4] + m11[branch_4] + m22[branch_4]
     branch_4_t_rsqrt = 0.5 * torch.rsqrt(branch_4_t)
 
-    qu = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
+    qu = torch.empty((matrix.shape[0], 4), dtype=matrix.dtype, device=matrix.device)
 
     qu[branch_1, 1] = branch_1_t * branch_1_t_rsqrt
     qu[branch_1, 2] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
     qu[branch_1, 3] = (m20[branch_1] + m02[branch_1]) * branch_1_t_rsqrt
-    qu[branch_1, 0] = (m12[branch_1] - m21[branch_1]) * branch_1_t_rsqrt
+    qu[branch_1, 0] = (m21[branch_1] - m12[branch_1]) * branch_1_t_rsqrt
 
     qu[branch_2, 1] = (m01[branch_2] + m10[branch_2]) * branch_2_t_rsqrt
     qu[branch_2, 2] = branch_2_t * branch_2_t_rsqrt
     qu[branch_2, 3] = (m12[branch_2] + m21[branch_2]) * branch_2_t_rsqrt
-    qu[branch_2, 0] = (m20[branch_2] - m02[branch_2]) * branch_2_t_rsqrt
+    qu[branch_2, 0] = (m02[branch_2] - m20[branch_2]) * branch_2_t_rsqrt
 
     qu[branch_3, 1] = (m20[branch_3] + m02[branch_3]) * branch_3_t_rsqrt
     qu[branch_3, 2] = (m12[branch_3] + m21[branch_3]) * branch_3_t_rsqrt
     qu[branch_3, 3] = branch_3_t * branch_3_t_rsqrt
-    qu[branch_3, 0] = (m01[branch_3] - m10[branch_3]) * branch_3_t_rsqrt
+    qu[branch_3, 0] = (m10[branch_3] - m01[branch_3]) * branch_3_t_rsqrt
 
-    qu[branch_4, 1] = (m12[branch_4] - m21[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 2] = (m20[branch_4] - m02[branch_4]) * branch_4_t_rsqrt
-    qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
+    qu[branch_4, 1] = (m21[branch_4] - m12[branch_4]) * branch_4_t_rsqrt
+    qu[branch_4, 2] = (m02[branch_4] - m20[branch_4]) * branch_4_t_rsqrt
+    qu[branch_4, 3] = (m10[branch_4] - m01[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
-    qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
+    # guarantee a non-negative real part
+    qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
 
-    return qu
+    return qu.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -165,34 +163,16 @@ def om2ax(matrix: Tensor) -> Tensor:
     if matrix.size(-1) != 3 or matrix.size(-2) != 3:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
-    batch_dim = matrix.shape[:-2]
-
-    # set the output with the same batch dimensions as the input
-    axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
-
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
+    # the angle and the axis follow from the quaternion for every rotation,
+    # the trace and the skew symmetric part leave out half turns
+    qu = om2qu(matrix)
+    norm = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
 
-    # set the angle
-    axis[..., 3] = theta
+    # no rotation: about the z axis
+    z_axis = torch.tensor([0, 0, 1], dtype=matrix.dtype, device=matrix.device)
+    axis = torch.where(norm == 0, z_axis, qu[..., 1:] / norm)
 
-    return axis.view(batch_dim + (4,))
+    return torch.cat((axis, 2 * torch.atan2(norm, qu[..., 0:1])), dim=-1)
 
 
 @torch.jit.script
@@ -210,55 +190,27 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
 
-    # set the output
-    matrices = torch.empty(
-        batch_dim + (3, 3), dtype=axis_angle.dtype, device=axis_angle.device
-    )
+    theta = axis_angle[..., 3:4].unsqueeze(-1)
+    axis = axis_angle[..., :3]
 
-    theta = axis_angle[..., 3:4]
-    omega = axis_angle[..., :3] * theta
-
-    matrices = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
-    matrices[..., 0, 1] = -omega[..., 2]
-    matrices[..., 0, 2] = omega[..., 1]
-    matrices[..., 1, 2] = -omega[..., 0]
-    matrices[..., 1, 0] = omega[..., 2]
-    matrices[..., 2, 0] = -omega[..., 1]
-    matrices[..., 2, 1] = omega[..., 0]
-
-    skew_sq = torch.matmul(matrices, matrices)
-
-    # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
-
-    theta_unstable = theta[~stable].unsqueeze(-1)
-
-    # This prefactor is only used for the calculation of exp(skew)
-    # sin(theta) / theta
-    # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta_unstable**2 / 6
-
-    # This prefactor is shared between calculations of exp(skew) and v
-    # (1 - cos(theta)) / theta^2
-    # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta_unstable**2 / 24
-
-    theta_stable = theta[stable].unsqueeze(-1)
-    matrices[stable] = (
-        torch.eye(3, dtype=matrices.dtype, device=matrices.device)
-        + (torch.sin(theta_stable) / theta_stable) * matrices[stable]
-        + (1 - torch.cos(theta_stable)) / theta_stable**2 * skew_sq[stable]
+    skew = torch.zeros(
+        batch_dim + (3, 3), dtype=axis_angle.dtype, device=axis_angle.device
     )
-    matrices[~stable] = (
-        torch.eye(3, dtype=matrices.dtype, device=matrices.device)
-        + prefactor1 * matrices[~stable]
-        + prefactor2 * skew_sq[~stable]
+    skew[..., 0, 1] = -axis[..., 2]
+    skew[..., 0, 2] = axis[..., 1]
+    skew[..., 1, 2] = -axis[..., 0]
+    skew[..., 1, 0] = axis[..., 2]
+    skew[..., 2, 0] = -axis[..., 1]
+    skew[..., 2, 1] = axis[..., 0]
+
+    # Rodrigues' formula, 1 - cos(theta) = 2 sin(theta / 2)^2
+    return (
+        torch.eye(3, dtype=axis_angle.dtype, device=axis_angle.device)
+        + torch.sin(theta) * skew
+        + 2 * torch.sin(0.5 * theta) ** 2 * torch.matmul(skew, skew)
     )
 
-    return matrices.view(batch_dim + (3, 3))
-
 
 # @torch.jit.script
 # def cu2ho(cu: Tensor) -> Tensor:
@@ -824,7 +776,9 @@ def qu2bu(qu: Tensor) -> Tensor:
         torch.Tensor: shape (..., 3) Bunge angles in radians.
     """
 
-    bu = torch.empty(qu.shape[:-1] + (3,), dtype=qu.dtype, device=qu.device)
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
+    bu = torch.empty((qu.shape[0], 3), dtype=qu.dtype, device=qu.device)
 
     q03 = qu[..., 0] ** 2 + qu[..., 3] ** 2
     q12 = qu[..., 1] ** 2 + qu[..., 2] ** 2
@@ -840,7 +794,7 @@ def qu2bu(qu: Tensor) -> Tensor:
     bu[mA, 2] = 0
 
     bu[mB, 0] = torch.atan2(2 * qu[mB, 1] * qu[mB, 2], qu[mB, 1] ** 2 - qu[mB, 2] ** 2)
-    bu[mB, 1] = torch.pi
+    bu[mB, 1] = torch.atan2(torch.zeros_like(q12[mB]), -q12[mB])
     bu[mB, 2] = 0
 
     bu[mC, 0] = torch.atan2(
@@ -857,7 +811,7 @@ def qu2bu(qu: Tensor) -> Tensor:
     bu[..., 0] = torch.where(bu[..., 0] < 0, bu[..., 0] + 2 * torch.pi, bu[..., 0])
     bu[..., 2] = torch.where(bu[..., 2] < 0, bu[..., 2] + 2 * torch.pi, bu[..., 2])
 
-    return bu
+    return bu.reshape(batch_dim + (3,))
 
 
 @torch.jit.script
-- 
2.43.0


From ec9cd5f738568792cd49b43677995963961749bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:26 +0000
Subject: [PATCH 077/100] fix: cubochoric conversions next to coordinate planes
 and of single vectors

---
 ebsdtorch/s2_and_so3/orientations.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7972677..34efe34 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -281,7 +281,7 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
 
     # Calculate trigonometric argument and avoid indeterminate forms
     trig_arg_xy = s * torch.pi / (12.0 * m)
-    trig_arg_xy[torch.isnan(trig_arg_xy)] = 0
+    trig_arg_xy = torch.where(m == 0, torch.zeros_like(m), trig_arg_xy)
 
     factor_xy = (
         2 ** (1 / 12)
@@ -313,7 +313,7 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
     ho = torch.scatter(ho, -1, indices, ho)
 
     # replace any nans with 0
-    ho[torch.isnan(ho)] = 0
+    ho = torch.where(torch.isnan(ho), torch.zeros_like(ho), ho)
 
     # copy the sign of the original cubochoric vector
     ho.copysign_(cu)
@@ -364,13 +364,13 @@ def ho2cu(ho: Tensor) -> Tensor:
         / (2**0.5)
     )
     # z_s1 is unchanged from z_s2 while x_s1 and y_s1 are found from inverse squircle function
-    x_s1 = (prefactor_xy_s2 * 12.0 * torch.sign(x_s2) / torch.pi) * (
-        torch.arccos(
-            (
-                (x_s2**2 + y_s2 * torch.sqrt(x_s2**2 + 2 * y_s2**2))
-                / ((2**0.5) * (x_s2**2 + y_s2**2))
-            ).clamp_(-1.0, 1.0)
-        )
+    # the angle of the publication is
+    # arccos((x^2 + y * sqrt(x^2 + 2*y^2)) / (sqrt(2) * (x^2 + y^2)))
+    # and its sine is x * (sqrt(x^2 + 2*y^2) - y) / (sqrt(2) * (x^2 + y^2))
+    # so that atan2 keeps the digits that arccos loses next to x = 0
+    root = torch.sqrt(x_s2**2 + 2 * y_s2**2)
+    x_s1 = (prefactor_xy_s2 * 12.0 * torch.sign(x_s2) / torch.pi) * torch.atan2(
+        x_s2 * (root - y_s2), x_s2**2 + y_s2 * root
     )
     y_s1 = prefactor_xy_s2 * torch.sign(y_s2)
 
-- 
2.43.0


From e00860802471bd55f3f40436219249bfc19f0e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:31 +0000
Subject: [PATCH 078/100] fix: small rotations and any batch shape of
 homochoric vectors convert to axis-angles

---
 ebsdtorch/s2_and_so3/orientations.py | 84 ++++++++++++----------------
 1 file changed, 35 insertions(+), 49 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 34efe34..972864e 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -458,21 +458,22 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
 
     ho_norm_sq = torch.sum(ho**2, dim=-1, keepdim=False)
     # makes out of memory error doing all at once
-    s = torch.zeros_like(ho_norm_sq)
-    for i in range(len(fit_parameters)):
-        s += fit_parameters[i] * ho_norm_sq**i
+    # the first coefficient is one: 1 - cos(w / 2) keeps the small angles
+    versine = torch.zeros_like(ho_norm_sq)
+    for i in range(1, len(fit_parameters)):
+        versine -= fit_parameters[i] * ho_norm_sq**i
+    # the largest rotation angle is pi
+    versine = torch.clamp(versine, 0.0, 1.0)
+    w = 2.0 * torch.atan2(torch.sqrt(versine * (2.0 - versine)), 1.0 - versine)
 
     if ho.dtype == torch.float64 and not fast:
-        w = 2 * torch.arccos(torch.clamp(s, -1.0, 1.0))
         # do 1 iteration of Newton's method
-        f_w = ((3 / 4) * (w - torch.sin(w))) ** (1 / 3) - torch.sqrt(ho_norm_sq)
-        f_p_w = (1 - torch.cos(w)) / (6 ** (2 / 3) * (w - torch.sin(w)) ** (2 / 3))
+        radius = homochoric_radius(w)
+        f_w = radius - torch.sqrt(ho_norm_sq)
+        f_p_w = torch.sin(0.5 * w) ** 2 / (2 * radius**2)
         update = f_w / f_p_w
         # remove any nans
-        update[torch.isnan(update)] = 0
-        w -= update
-    else:
-        w = 2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0))
+        w = w - torch.where(torch.isnan(update), torch.zeros_like(update), update)
 
     ax = torch.concat(
         [
@@ -481,11 +482,10 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         ],
         dim=-1,
     )
-    rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
     # set the identity rotation
-    ax[rot_is_identity] = 0
-    ax[rot_is_identity, ..., 2] = 1.0
-    return ax
+    rot_is_identity = (torch.abs(ho_norm_sq) < 1e-30).unsqueeze(-1)
+    identity = torch.tensor([0, 0, 1, 0], dtype=ho.dtype, device=ho.device)
+    return torch.where(rot_is_identity, identity, ax)
 
 
 @torch.jit.script
@@ -573,22 +573,17 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
     for i in range(len(fit_parameters)):
         s += fit_parameters[i] * ho_norm_sq[..., 0] ** i
 
-    ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
-
-    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
-    ax[rot_is_identity, 0:1] = 0.0
-    ax[rot_is_identity, 1:2] = 0.0
-    ax[rot_is_identity, 2:3] = 1.0
-
-    ax[~rot_is_identity, :3] = ho[~rot_is_identity, :] * torch.rsqrt(
-        ho_norm_sq[~rot_is_identity]
-    )
-    ax[..., 3] = torch.where(
-        ~rot_is_identity,
-        2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0)),
-        0,
+    ax = torch.cat(
+        (
+            ho * torch.rsqrt(ho_norm_sq),
+            2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0)).unsqueeze(-1),
+        ),
+        dim=-1,
     )
-    return ax
+
+    rot_is_identity = torch.abs(ho_norm_sq) < 1e-8
+    identity = torch.tensor([0, 0, 1, 0], dtype=ho.dtype, device=ho.device)
+    return torch.where(rot_is_identity, identity, ax)
 
 
 @torch.jit.script
@@ -608,35 +603,26 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
     """
 
     # initial guess for ang given h
-    h = torch.norm(ho, dim=-1)
-
-    # where zero return zero
-    mask_zero = h == 0
-    ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
-    ax[mask_zero, 0] = 0.0
-    ax[mask_zero, 1] = 0.0
-    ax[mask_zero, 2] = 1.0
-    ax[mask_zero, 3] = 0.0
+    h = torch.norm(ho, dim=-1, keepdim=True)
 
     # Newton's method
     # initial guess for w given h is an inverted Pade approximation
-    w_newton = (15 - torch.sqrt(225 - 60 * h[~mask_zero] ** 2)) / h[~mask_zero]
+    w_newton = 60 * h / (15 + torch.sqrt(225 - 60 * h**2))
 
     # Newton's method
     for _ in range(2 if h.dtype == torch.float32 else 3):
-        f_w = ((3 / 4) * (w_newton - torch.sin(w_newton))) ** (1 / 3) - h[~mask_zero]
-        f_p_w = (1 - torch.cos(w_newton)) / (
-            6 ** (2 / 3) * (w_newton - torch.sin(w_newton)) ** (2 / 3)
-        )
+        radius = homochoric_radius(w_newton)
+        f_w = radius - h
+        f_p_w = torch.sin(0.5 * w_newton) ** 2 / (2 * radius**2)
         update = f_w / f_p_w
         # remove any nans
-        update[torch.isnan(update)] = 0
-        w_newton -= update
-
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
-    ax[~mask_zero, 3] = w_newton
+        w_newton = w_newton - torch.where(
+            torch.isnan(update), torch.zeros_like(update), update
+        )
 
-    return ax
+    # where zero return zero
+    identity = torch.tensor([0, 0, 1, 0], dtype=ho.dtype, device=ho.device)
+    return torch.where(h == 0, identity, torch.cat((ho / h, w_newton), dim=-1))
 
 
 @torch.jit.script
-- 
2.43.0


From f077de7fbc3aa0e5999f35850eba972f6e6b80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 079/100] fix: symmetry operators of Laue groups keep double
 precision

---
 ebsdtorch/s2_and_so3/laue_generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 6db1466..6cddb98 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -246,4 +246,7 @@ def laue_elements(laue_id: int) -> Tensor:
         LAUE_O,  #  11 - Cubic high
     ]
 
-    return LAUE_GROUPS[laue_id - 1]
+    # nested lists of floats pass through single precision in TorchScript, and
+    # the components are all square roots of quarters: restore the full precision
+    laue_group = LAUE_GROUPS[laue_id - 1]
+    return torch.copysign(torch.sqrt(torch.round(4.0 * laue_group**2) / 4.0), laue_group)
-- 
2.43.0


From 293fb8d7d9c87a091f99915f2ca7f7c56a3c0990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 080/100] fix: octahedral fundamental zone is the image of the
 cube

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..9fd552d 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -262,10 +262,10 @@ def cube_to_rfz(
         # find indices to do the sorting by absolute values
         sorted, indices = torch.sort(cc_abs, dim=-1, descending=False)
         # we are pointing towards the 111 normal plane
-        # find the scaling factor to hit the z = 2**0.5 - 1 face
+        # find the scaling factor to hit the x + y + z = 1 face
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
-        factors = (
-            torch.sum(cc_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
+        factors = sorted[..., 2:3] / (
+            torch.sum(cc_abs, dim=-1, keepdim=True) * (2**0.5 - 1)
         )
         # replace nans with 1 because we were at the origin
         factors[factors.isnan()] = 1
@@ -304,8 +304,8 @@ def rfz_to_cube(
         sorted, indices = torch.sort(rfz_abs, dim=-1, descending=False)
         scales = sorted[..., 2:3] < (sorted[..., 0:1] + sorted[..., 1:2]) / 2**0.5
         # same factor but we divide by it
-        factors = (
-            torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1) / sorted[..., 2:3]
+        factors = sorted[..., 2:3] / (
+            torch.sum(rfz_abs, dim=-1, keepdim=True) * (2**0.5 - 1)
         )
         factors[factors.isnan()] = 1
         cc = torch.where(scales, sorted / factors, sorted)
-- 
2.43.0


From 590dbef706be53aefa19cf5764ca0c6c59b0e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 081/100] fix: equivalent orientations and disorientations
 apply the operators on the crystal side

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 25 +++++++++++++------------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..a6ce8d7 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -50,11 +50,11 @@ def misori_to_fz_laue(qu: Tensor, laue_id_1: int, laue_id_2: int):
     laue_group_1 = laue_elements(laue_id_1).to(qu.dtype).to(qu.device)
     laue_group_2 = laue_elements(laue_id_2).to(qu.dtype).to(qu.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(qu.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(qu.reshape(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
@@ -199,5 +199,6 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
 
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    cosine_half_angle = torch.clamp(cosine_half_angle, max=1.0)
 
     return 2.0 * torch.acos(cosine_half_angle)
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 9fd552d..80671a6 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -76,7 +76,8 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    # operators act on the crystal frame that the quaternions rotate into
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,8 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    # operators act on the crystal frame that the quaternions rotate into
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
@@ -385,11 +387,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -452,12 +454,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
@@ -465,6 +467,7 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
 
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
+    cosine_half_angle = torch.clamp(cosine_half_angle, max=1.0)
 
     return 2.0 * torch.acos(cosine_half_angle)
 
-- 
2.43.0


From 4f36abdbb89e3415e198b5715b1f6fe8b9e93547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 082/100] fix: direction fundamental zones hold every class
 once, poles and borders included

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 138 ++++++++++++-----------------
 1 file changed, 59 insertions(+), 79 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..2931ba6 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -19,6 +19,51 @@ from ebsdtorch.s2_and_so3.sphere import inv_rosca_lambert
 from ebsdtorch.s2_and_so3.sampling import s2_fibonacci
 
 
+@torch.jit.script
+def s2_fz_margin_laue(points: Tensor, laue_id: int) -> Tensor:
+    """
+    Signed distance of the given 3D points to the border of the fundamental zone of
+    the given Laue group on the 2-sphere. The fundamental zone is the intersection
+    of hemispheres, so that the pole and the borders need no special treatment.
+
+    Args:
+        points: unit vectors of shape (..., 3)
+        laue_id: integer between 1 and 11 inclusive
+
+    Returns:
+        tensor of shape (..., ) that is positive inside of the fundamental zone,
+        zero on its border and negative outside
+
+    """
+    x, y, z = points[..., 0], points[..., 1], points[..., 2]
+    R3 = 3.0**0.5
+
+    # azimuth and declination limits of the fundamental zones
+    if laue_id == 1:  # triclinic
+        return z
+    elif laue_id == 2:  # monoclinic: azimuth in [0, 180]
+        sides = [z, y]
+    elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low: [0, 90]
+        sides = [z, y, x]
+    elif laue_id == 5:  # tetragonal-high: [0, 45]
+        sides = [z, y, (x - y) / 2.0**0.5]
+    elif laue_id == 6:  # trigonal-low: [-120, 0]
+        sides = [z, -y, (R3 * x - y) / 2.0]
+    elif laue_id == 7:  # trigonal-high: [-90, -30]
+        sides = [z, x, (-x - R3 * y) / 2.0]
+    elif laue_id == 8:  # hexagonal-low: [0, 60]
+        sides = [z, y, (R3 * x - y) / 2.0]
+    elif laue_id == 9:  # hexagonal-high: [0, 30]
+        sides = [z, y, (x - R3 * y) / 2.0]
+    elif laue_id == 10:  # cubic-low: [0, 90] and up to the x = z and y = z planes
+        sides = [x, y, (z - x) / 2.0**0.5, (z - y) / 2.0**0.5]
+    elif laue_id == 11:  # cubic-high: [0, 45] and up to the x = z plane
+        sides = [y, (x - y) / 2.0**0.5, (z - x) / 2.0**0.5]
+    else:
+        raise ValueError(f"Laue id {laue_id} not in [1, 11]")
+    return torch.stack(sides, dim=-1).min(dim=-1).values
+
+
 @torch.jit.script
 def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     """
@@ -35,69 +80,10 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
         fundamental zone
 
     """
-    # define some constants
-    PI_2 = torch.pi / 2.0
-    PI_3 = torch.pi / 3.0
-    PI_4 = torch.pi / 4.0
-    PI_6 = torch.pi / 6.0
-    PI_n23 = -2.0 * torch.pi / 3.0
-
     # set epsilon
     EPS = 1e-12 if points.dtype == torch.float64 else 1e-6
 
-    # use rules to find the equivalent points in the fundamental zone
-    x, y, z = points[..., 0], points[..., 1], points[..., 2]
-
-    eta = torch.atan2(y, x)
-    chi = torch.acos(z)
-
-    if laue_id == 1:  # triclinic
-        cond = z >= 0.0
-    elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
-    elif laue_id == 10:  # cubic-low
-        # where eta is over 45 degrees, subtract from 90 degrees
-        cond = (
-            torch.where(
-                eta.ge(PI_4),
-                chi
-                <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
-                + EPS,
-                chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
-            )
-            & eta.ge(0.0)
-            & eta.le(PI_2 + EPS)
-            & chi.ge(0.0)
-        )
-    elif laue_id == 11:  # cubic-high
-        # where eta is over 45 degrees, subtract from 90 degrees
-        cond = (
-            torch.where(
-                eta.gt(PI_4),
-                chi
-                < torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(PI_2 - eta) ** 2)))
-                + EPS,
-                chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
-            )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
-        )
-    else:
-        raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-    return cond
+    return s2_fz_margin_laue(points, laue_id) >= -EPS
 
 
 # # get planar coordinates that are within the fundamental sector
@@ -174,37 +160,31 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    # find the points that are in the s2 fundamental zone
-    cond = s2_in_fz_laue(equivalent_points, laue_id)
-
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
-
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
+    # pick the point that is the furthest inside of the s2 fundamental zone
+    best = torch.argmax(s2_fz_margin_laue(equivalent_points, laue_id), dim=-1)
 
-    return equivalent_points[cond].reshape(data_shape)
+    return equivalent_points[torch.arange(N, device=points.device), best].reshape(
+        data_shape
+    )
 
 
 @torch.jit.script
 def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     """
-    Return the equivalent points in the 2-spherical fundamental zone of
-    the given Laue group.
+    Return the equivalent points on the 2-sphere under the given Laue group.
 
     Args:
-        points: points to move to fundamental zone of shape (..., 3)
-        laue_id: laue group of points to move to fundamental zone
+        points: points to find the equivalents of, of shape (..., 3)
+        laue_id: laue group of the points
 
     Returns:
-        points in fundamental zone of shape (..., |laue_group|, 3)
+        equivalent points of shape (..., 2 * |laue_group|, 3), those
+        of the rotations followed by their inversions
 
     """
 
@@ -214,12 +194,12 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + (2 * len(laue_group), 3))
 
 
 @torch.jit.script
-- 
2.43.0


From 744b8dcc4d8452262dc4a8d64edb6920a4f1336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 083/100] fix: quaternion angles, interpolation and rotations
 between directions of any batch and size

---
 ebsdtorch/s2_and_so3/quaternions.py | 60 ++++++++++++++++-------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..c4eb30d 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,19 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True)
+    # opposite quaternions are the same rotation: take the shorter way
+    b = torch.where(cos_theta < 0.0, -b, b)
+    # angle between the quaternions, also if they are (nearly) equal
+    angle = 2.0 * torch.atan2(
+        torch.norm(a - b, dim=-1, keepdim=True), torch.norm(a + b, dim=-1, keepdim=True)
+    )
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    close = sin_theta < 1e-4
+    safe = torch.where(close, 1.0, sin_theta)
+    w1 = torch.where(close, 1.0 - t, torch.sin((1.0 - t) * angle) / safe)
+    w2 = torch.where(close, t, torch.sin(t * angle) / safe)
+    return qu_norm(a * w1 + b * w2)
 
 
 @torch.jit.script
@@ -244,27 +251,28 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
-    # get the cross product of the two sets of points
-    cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
-    # get the dot product of the two sets of points
-    dot = torch.sum(points_start[valid] * points_finish[valid], dim=-1)
-    # get the angle
-    angle = torch.atan2(torch.norm(cross, dim=-1), dot)
-    # add tau to the angle if the cross product is negative
-    angle[angle < 0] += 2 * torch.pi
-    # set the output
-    out = torch.empty(
-        (points_start.shape[0], 4), dtype=points_start.dtype, device=points_start.device
-    )
-    out[valid, 0] = torch.cos(angle / 2)
-    out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
-        cross / torch.norm(cross, dim=-1, keepdim=True)
+    # rotate by half a turn about the bisector after half a turn about the start
+    bisector = points_start + points_finish
+    # (of points nearly opposite: normal to the difference, which rounding spoils)
+    apart = points_start - points_finish
+    apart_sq = torch.sum(apart**2, dim=-1, keepdim=True)
+    along = torch.sum(bisector * apart, dim=-1, keepdim=True)
+    bisector = bisector - torch.where(apart_sq > 2.0, along / apart_sq, 0.0) * apart
+    length = torch.norm(bisector, dim=-1, keepdim=True)
+    # opposite points have no bisector: any direction normal to both will do
+    least = torch.argmin(torch.abs(points_start), dim=-1)
+    helper = torch.eye(3, dtype=points_start.dtype, device=points_start.device)[least]
+    normal = torch.linalg.cross(points_start, helper, dim=-1)
+    normal = normal / torch.norm(normal, dim=-1, keepdim=True)
+    opposite = length < 1e-6
+    bisector = torch.where(opposite, normal, bisector / torch.where(opposite, 1.0, length))
+    return torch.cat(
+        (
+            torch.sum(points_start * bisector, dim=-1, keepdim=True),
+            torch.linalg.cross(points_start, bisector, dim=-1),
+        ),
+        dim=-1,
     )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
-    return out
 
 
 @torch.jit.script
@@ -278,4 +286,4 @@ def qu_angle(qu: Tensor) -> Tensor:
     Returns:
         tensor of shape (..., ) of rotation angles.
     """
-    return 2 * torch.acos(qu[..., 0])
+    return 2 * torch.atan2(torch.norm(qu[..., 1:], dim=-1), qu[..., 0])
-- 
2.43.0


From d1dc9c464de25a87a20f747f2c60cbbe5d360b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 084/100] fix: sphere and square maps at the centre, of any
 batch shape and per their documentation

---
 ebsdtorch/crystallography/kvectors.py |  8 +++---
 ebsdtorch/s2_and_so3/sampling.py      |  2 +-
 ebsdtorch/s2_and_so3/sphere.py        | 27 ++++++++-----------
 ebsdtorch/utils/rosca_lambert.py      | 38 ++++++++++++++-------------
 4 files changed, 36 insertions(+), 39 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index fc4cb62..1ab9914 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -48,9 +48,9 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-    out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
+    pole = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
 
-    return out
+    return torch.where(mask[..., None], pole, out)
 
 
 @torch.jit.script
@@ -109,9 +109,9 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
 
     # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
     mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-    out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
+    pole = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
 
-    return out
+    return torch.where(mask[..., None], pole, out)
 
 
 def kvectors_grid(
diff --git a/ebsdtorch/s2_and_so3/sampling.py b/ebsdtorch/s2_and_so3/sampling.py
index e001040..527ad1a 100644
--- a/ebsdtorch/s2_and_so3/sampling.py
+++ b/ebsdtorch/s2_and_so3/sampling.py
@@ -58,7 +58,7 @@ def s2_fibonacci(
     indices = torch.arange(n, dtype=torch.float64, device=device)
     theta = 2 * torch.pi * indices / phi
     phi = torch.acos(1 - 2 * (indices + epsilon) / (n - 1 + 2 * epsilon))
-    points = theta_phi_to_xyz(theta, phi)
+    points = theta_phi_to_xyz(phi, theta)
     return points
 
 
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..110adcb 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -28,11 +28,11 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.cos(theta) * torch.sin(phi),
+            torch.sin(theta) * torch.cos(phi),
             torch.sin(theta) * torch.sin(phi),
-            torch.cos(phi),
+            torch.cos(theta),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -51,10 +51,10 @@ def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
@@ -120,17 +120,12 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
+    # the center has no azimuth (avoid 0 / 0)
+    ratio = torch.where(x_new > 0, y_new / x_new, 0.0)
+
     # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    x_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.cos(pi * ratio / 4)
+    y_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.sin(pi * ratio / 4)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..ffda5ef 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -20,32 +20,35 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     # get shape of input
     shape_in = pts.shape[:-1]
     n_pts = int(torch.prod(torch.tensor(shape_in)))
-    pts = pts.view(-1, 2)
+    pts = pts.reshape(n_pts, 2)
     pi = torch.pi
     a = pts[:, 0] * (pi / 2) ** 0.5
     b = pts[:, 1] * (pi / 2) ** 0.5
     m = torch.abs(b) <= torch.abs(a)
+    # the center has no azimuth (avoid 0 / 0)
+    ratio = torch.where(m, b / a, a / b)
+    ratio = torch.where((a == 0) & (b == 0), 0.0, ratio)
     output = torch.empty((n_pts, 3), dtype=pts.dtype, device=pts.device)
     output[m, 0] = (
         (2 * a[m] / pi)
         * torch.sqrt(pi - a[m] ** 2)
-        * torch.cos((pi * b[m]) / (4 * a[m]))
+        * torch.cos(pi * ratio[m] / 4)
     )
     output[m, 1] = (
         (2 * a[m] / pi)
         * torch.sqrt(pi - a[m] ** 2)
-        * torch.sin((pi * b[m]) / (4 * a[m]))
+        * torch.sin(pi * ratio[m] / 4)
     )
     output[m, 2] = 1 - (2 * a[m] ** 2 / pi)
     output[~m, 0] = (
         (2 * b[~m] / pi)
         * torch.sqrt(pi - b[~m] ** 2)
-        * torch.sin((pi * a[~m]) / (4 * b[~m]))
+        * torch.sin(pi * ratio[~m] / 4)
     )
     output[~m, 1] = (
         (2 * b[~m] / pi)
         * torch.sqrt(pi - b[~m] ** 2)
-        * torch.cos((pi * a[~m]) / (4 * b[~m]))
+        * torch.cos(pi * ratio[~m] / 4)
     )
     output[~m, 2] = 1 - (2 * b[~m] ** 2 / pi)
     return output.reshape(shape_in + (3,))
@@ -79,17 +82,12 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
+    # the center has no azimuth (avoid 0 / 0)
+    ratio = torch.where(x_new > 0, y_new / x_new, 0.0)
+
     # only one case now
-    x_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
-    )
-    y_hs = (
-        (2 * x_new / pi)
-        * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
-    )
+    x_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.cos(pi * ratio / 4)
+    y_hs = (2 * x_new / pi) * torch.sqrt(pi - x_new**2) * torch.sin(pi * ratio / 4)
     z_out = 1 - (2 * x_new**2 / pi)
 
     # swap back and copy sign
@@ -201,7 +199,9 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
 
     # I_0 sextant equal-area bijection having swapped x & y
     factor = (3.0**0.25) * ((2.0 / pi) ** 0.5) * x_new
-    trig_arg = (y_new * pi) / (2.0 * (3.0**0.5) * x_new)
+    # the center has no azimuth (avoid 0 / 0)
+    ratio = torch.where(x_new > 0, y_new / x_new, 0.0)
+    trig_arg = (ratio * pi) / (2.0 * (3.0**0.5))
     x_hs = factor * torch.cos(trig_arg)
     y_hs = factor * torch.sin(trig_arg)
 
@@ -213,8 +213,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # undo original swap and lift the unit disk to the hemisphere (Lambert)
+    rho_sq = x_out**2 + y_out**2
+    lift = torch.sqrt((2.0 - rho_sq).clamp(min=0.0))
+    return torch.stack((y_out * lift, x_out * lift, 1.0 - rho_sq), dim=-1)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From 7d9a44f9a466ca56f267ad68c24dfd724ee20321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:12 +0000
Subject: [PATCH 085/100] fix: logarithm of half turns, accurate small twists
 and any batch shape of rigid motions

---
 ebsdtorch/lie_algebra/se3.py | 259 +++++++++++++++++------------------
 1 file changed, 126 insertions(+), 133 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..70b7a32 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -87,22 +87,21 @@ def skew(omega: Tensor) -> Tensor:
     """
 
     data_shape = omega.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(data_shape)))
-    out = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
-    out[..., 0, 1] = -omega[..., 2].view(-1)
-    out[..., 0, 2] = omega[..., 1].view(-1)
-    out[..., 1, 2] = -omega[..., 0].view(-1)
-    out[..., 1, 0] = omega[..., 2].view(-1)
-    out[..., 2, 0] = -omega[..., 1].view(-1)
-    out[..., 2, 1] = omega[..., 0].view(-1)
-    return out.view(data_shape + (3, 3))
+    out = torch.zeros(data_shape + (3, 3), dtype=omega.dtype, device=omega.device)
+    out[..., 0, 1] = -omega[..., 2]
+    out[..., 0, 2] = omega[..., 1]
+    out[..., 1, 2] = -omega[..., 0]
+    out[..., 1, 0] = omega[..., 2]
+    out[..., 2, 0] = -omega[..., 1]
+    out[..., 2, 1] = omega[..., 0]
+    return out
 
 
 @torch.jit.script
 def w_exp(omega: Tensor) -> Tensor:
     """
     Compute the matrix exponential of a skew-symmetric matrix. This is
-    Rodrigues' formula. Angles below 0.01 radians use Taylor expansion.
+    Rodrigues' formula. Angles below 0.001 radians use Taylor expansion.
 
     Args:
         omega: torch tensor of shape (..., 3) containing the omega
@@ -116,37 +115,39 @@ def w_exp(omega: Tensor) -> Tensor:
     skew_sq = torch.matmul(skew_mat, skew_mat)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.001)[..., 0, 0]
+    stable = theta > 0.001
+    safe = torch.where(stable, theta, 1.0)
 
     # This prefactor is only used for the calculation of exp(skew)
     # sin(theta) / theta
     # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta[~stable] ** 2 / 6 + theta[~stable] ** 4 / 120
+    prefactor1 = torch.where(
+        stable,
+        torch.sin(safe) / safe,
+        1 - theta**2 / 6 + theta**4 / 120,
+    )
 
     # This prefactor is shared between calculations of exp(skew) and v
     # (1 - cos(theta)) / theta^2
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta[~stable] ** 2 / 24 + theta[~stable] ** 4 / 720
-
-    skew_exp = torch.empty_like(skew_mat)
-    skew_exp[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (torch.sin(theta[stable]) / theta[stable]) * skew_mat[stable]
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_sq[stable]
+    prefactor2 = torch.where(
+        stable,
+        (1 - torch.cos(safe)) / safe**2,
+        1 / 2 - theta**2 / 24 + theta**4 / 720,
     )
-    skew_exp[~stable] = (
+
+    return (
         torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor1 * skew_mat[~stable]
-        + prefactor2 * skew_sq[~stable]
+        + prefactor1 * skew_mat
+        + prefactor2 * skew_sq
     )
-    return skew_exp
 
 
 @torch.jit.script
 def w_exp_vmat(omega: Tensor) -> Tuple[Tensor, Tensor]:
     """
     Compute both the matrix exponential of a skew-symmetric matrix
-    and the V matrix. Angles below 0.01 radians use Taylor expansion.
+    and the V matrix. Angles below 0.05 radians use Taylor expansion.
 
     Args:
         omega: torch tensor of shape (..., 3) containing the omega
@@ -161,48 +162,40 @@ def w_exp_vmat(omega: Tensor) -> Tuple[Tensor, Tensor]:
     skew_sq = torch.matmul(skew_mat, skew_mat)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.001)[..., 0, 0]
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, 1.0)
 
     # This prefactor is only used for the calculation of exp(skew)
     # sin(theta) / theta
     # expression: 1 - theta^2 / 6 + theta^4 / 120 - theta^6 / 5040 ...
-    prefactor1 = 1 - theta[~stable] ** 2 / 6
+    prefactor1 = torch.where(
+        stable,
+        torch.sin(safe) / safe,
+        1 - theta**2 / 6 + theta**4 / 120,
+    )
 
     # This prefactor is shared between calculations of exp(skew) and v
     # (1 - cos(theta)) / theta^2
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    prefactor2 = 1 / 2 - theta[~stable] ** 2 / 24
+    prefactor2 = torch.where(
+        stable,
+        (1 - torch.cos(safe)) / safe**2,
+        1 / 2 - theta**2 / 24 + theta**4 / 720,
+    )
 
     # This prefactor is only used for the calculation of v
     # (theta - sin(theta)) / theta^3
     # expression: 1/6 - theta^2 / 120 + theta^4 / 5040 - theta^6 / 362880 ...
-    prefactor3 = 1 / 6 - theta[~stable] ** 2 / 120
-
-    skew_exp = torch.empty_like(skew_mat)
-    skew_exp[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (torch.sin(theta[stable]) / theta[stable]) * skew_mat[stable]
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_sq[stable]
-    )
-    skew_exp[~stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor1 * skew_mat[~stable]
-        + prefactor2 * skew_sq[~stable]
+    prefactor3 = torch.where(
+        stable,
+        (safe - torch.sin(safe)) / safe**3,
+        1 / 6 - theta**2 / 120 + theta**4 / 5040,
     )
-    # skew_exp = torch.matrix_exp(skew_mat)
 
-    v = torch.empty_like(skew_mat)
-    v[stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + (1 - torch.cos(theta[stable])) / theta[stable] ** 2 * skew_mat[stable]
-        + ((theta[stable] - torch.sin(theta[stable])) / theta[stable] ** 3)
-        * skew_sq[stable]
-    )
-    v[~stable] = (
-        torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
-        + prefactor2 * skew_mat[~stable]
-        + prefactor3 * skew_sq[~stable]
-    )
+    eye = torch.eye(3, dtype=skew_mat.dtype, device=skew_mat.device)
+    skew_exp = eye + prefactor1 * skew_mat + prefactor2 * skew_sq
+    # skew_exp = torch.matrix_exp(skew_mat)
+    v = eye + prefactor2 * skew_mat + prefactor3 * skew_sq
 
     return skew_exp, v
 
@@ -224,30 +217,30 @@ def w_to_v(omega: Tensor) -> Tensor:
     skew_omega2 = torch.matmul(skew_omega, skew_omega)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05)[..., 0, 0]
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, 1.0)
 
     # (1 - cos(theta)) / theta^2
     # expression: 1/2 - theta^2 / 24 + theta^4 / 720 - theta^6 / 40320 ...
-    factor1 = 1 / 2 - theta[~stable] ** 2 / 24 + theta[~stable] ** 4 / 720
+    factor1 = torch.where(
+        stable,
+        (1 - torch.cos(safe)) / safe**2,
+        1 / 2 - theta**2 / 24 + theta**4 / 720,
+    )
 
     # (theta - sin(theta)) / theta^3
     # expression: 1/6 - theta^2 / 120 + theta^4 / 5040 - theta^6 / 362880 ...
-    factor2 = 1 / 6 - theta[~stable] ** 2 / 120 + theta[~stable] ** 4 / 5040
-
-    v = torch.empty_like(skew_omega)
-
-    v[stable] = (
-        torch.eye(3, dtype=omega.dtype, device=omega.device)
-        + ((1 - torch.cos(theta[stable])) / theta[stable] ** 2) * skew_omega[stable]
-        + ((theta[stable] - torch.sin(theta[stable])) / theta[stable] ** 3)
-        * skew_omega2[stable]
+    factor2 = torch.where(
+        stable,
+        (safe - torch.sin(safe)) / safe**3,
+        1 / 6 - theta**2 / 120 + theta**4 / 5040,
     )
-    v[~stable] = (
+
+    return (
         torch.eye(3, dtype=omega.dtype, device=omega.device)
-        + factor1 * skew_omega[~stable]
-        + factor2 * skew_omega2[~stable]
+        + factor1 * skew_omega
+        + factor2 * skew_omega2
     )
-    return v
 
 
 @torch.jit.script
@@ -266,34 +259,24 @@ def w_to_v_inv(omega: Tensor) -> Tensor:
     skew_omega = skew(omega)
     skew_omega2 = torch.matmul(skew_omega, skew_omega)
 
-    v_inv = torch.empty_like(skew_omega)
-    stable = (theta > 0.05)[..., 0, 0]
-    v_inv[stable] = (
-        torch.eye(3, dtype=omega.dtype, device=omega.device)
-        - 0.5 * skew_omega[stable]
-        + (
-            1
-            - (
-                theta[stable]
-                * torch.cos(theta[stable] / 2.0)
-                / (2 * torch.sin(theta[stable] / 2.0))
-            )
-        )
-        / theta[stable] ** 2
-        * skew_omega2[stable]
-    )
+    # Taylor expansion for small angles
+    stable = theta > 0.05
+    safe = torch.where(stable, theta, 1.0)
+
     # (1 - theta * cos(theta / 2) / (2 * sin(theta / 2))) / theta^2
     # expression: 1/12 + 1/720 * theta^2 + 1/30240 * theta^4
-    factor_approx = 1 / 12 + theta[~stable] ** 2 / 720 + theta[~stable] ** 4 / 30240
+    factor = torch.where(
+        stable,
+        (1 - safe * torch.cos(safe / 2.0) / (2 * torch.sin(safe / 2.0))) / safe**2,
+        1 / 12 + theta**2 / 720 + theta**4 / 30240,
+    )
 
-    v_inv[~stable] = (
+    return (
         torch.eye(3, dtype=omega.dtype, device=omega.device)
-        - 0.5 * skew_omega[~stable]
-        + factor_approx * skew_omega2[~stable]
+        - 0.5 * skew_omega
+        + factor * skew_omega2
     )
 
-    return v_inv
-
 
 @torch.jit.script
 def se3_exp_map_quat(vecs: Tensor) -> Tuple[Tensor, Tensor]:
@@ -331,7 +314,7 @@ def se3_exp_map_quat(vecs: Tensor) -> Tuple[Tensor, Tensor]:
     quat = ax2qu(axis_angle)
 
     v = w_to_v(omegas)
-    tvecs = torch.matmul(v, tvecs[..., None]).view(data_shape + (3,))
+    tvecs = torch.matmul(v, tvecs[..., None]).reshape(data_shape + (3,))
 
     return quat, tvecs
 
@@ -354,7 +337,7 @@ def se3_log_map_quat(quats: Tensor, tvecs: Tensor) -> Tensor:
     omegas = axis_angle[..., :3] * axis_angle[..., 3:4]
 
     v_inv = w_to_v_inv(omegas)
-    tvecs = torch.matmul(v_inv, tvecs[..., None]).view(data_shape + (3,))
+    tvecs = torch.matmul(v_inv, tvecs[..., None]).reshape(data_shape + (3,))
 
     return torch.cat([omegas, tvecs], dim=-1)
 
@@ -377,7 +360,7 @@ def se3_exp_map_om(vecs: Tensor) -> Tensor:
     rexp, v = w_exp_vmat(omegas)
     se3 = torch.zeros(data_shape + (4, 4), dtype=vecs.dtype, device=vecs.device)
     se3[..., :3, :3] = rexp
-    se3[..., :3, 3] = torch.matmul(v, tvecs[..., None]).view(data_shape + (3,))
+    se3[..., :3, 3] = torch.matmul(v, tvecs[..., None]).reshape(data_shape + (3,))
     se3[..., 3, 3] = 1.0
     return se3
 
@@ -399,10 +382,56 @@ def se3_exp_map_split(vecs: Tensor) -> Tuple[Tensor, Tensor]:
     omegas = vecs[..., :3]
     tau = vecs[..., 3:]
     rexp, v = w_exp_vmat(omegas)
-    tvec = torch.matmul(v, tau[..., None]).view(data_shape + (3,))
+    tvec = torch.matmul(v, tau[..., None]).reshape(data_shape + (3,))
     return rexp, tvec
 
 
+@torch.jit.script
+def om_log(om: Tensor) -> Tensor:
+    """
+    Compute the scaled axis of rotation from a rotation matrix.
+
+    Args:
+        om: torch tensor of shape (..., 3, 3) containing the rotation matrices
+
+    Returns:
+        torch tensor of shape (..., 3) containing the scaled axes of rotation
+
+    """
+    # sin(theta) * axis is (R32 - R23, R13 - R31, R21 - R12) / 2
+    sin_axis = 0.5 * torch.stack(
+        [
+            om[..., 2, 1] - om[..., 1, 2],
+            om[..., 0, 2] - om[..., 2, 0],
+            om[..., 1, 0] - om[..., 0, 1],
+        ],
+        dim=-1,
+    )
+    sin_theta = torch.linalg.norm(sin_axis, dim=-1, keepdim=True)
+    cos_theta = 0.5 * (torch.diagonal(om, dim1=-2, dim2=-1).sum(-1)[..., None] - 1.0)
+    theta = torch.atan2(sin_theta, cos_theta)
+
+    # theta / sin(theta) where the angle is small: 1 + sin^2 / 6 + 3 sin^4 / 40 ...
+    small = sin_theta < 0.001
+    factor = torch.where(
+        small,
+        1.0 + sin_theta**2 / 6.0 + 3.0 * sin_theta**4 / 40.0,
+        theta / torch.where(small, 1.0, sin_theta),
+    )
+
+    # sin(theta) vanishes at half turns: the symmetric part of the matrix holds
+    # cos(theta) * I + (1 - cos(theta)) * axis axis^T, take its largest column
+    eye = torch.eye(3, dtype=om.dtype, device=om.device)
+    outer = 0.5 * (om + om.transpose(-1, -2)) - cos_theta[..., None] * eye
+    largest = torch.argmax(torch.diagonal(outer, dim1=-2, dim2=-1), dim=-1)
+    axis = (outer * eye[largest][..., None, :]).sum(-1)
+    obtuse = cos_theta < 0.0
+    axis = axis / torch.where(obtuse, torch.linalg.norm(axis, dim=-1, keepdim=True), 1.0)
+    axis = torch.where((axis * sin_axis).sum(-1, keepdim=True) < 0.0, -axis, axis)
+
+    return torch.where(obtuse, theta * axis, factor * sin_axis)
+
+
 @torch.jit.script
 def se3_log_map_om(se3: Tensor) -> Tensor:
     """
@@ -417,28 +446,10 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     """
     data_shape = se3.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=se3.dtype, device=se3.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(se3[..., :3, :3], dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.01
-    omegas[..., 0] = se3[..., 2, 1] - se3[..., 1, 2]
-    omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
-    omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_log(se3[..., :3, :3])
 
     v_inv = w_to_v_inv(omegas)
-    tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
+    tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).reshape(data_shape + (3,))
 
     return torch.cat([omegas, tvecs], dim=-1)
 
@@ -458,27 +469,9 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     """
     data_shape = R.shape[:-2]
 
-    # omega is (theta / 2 sin(theta)) * (R32 - R23, R13 - R31, R21 - R12)
-    omegas = torch.zeros(data_shape + (3,), dtype=R.dtype, device=R.device)
-
-    # find the trace of the rotation matrix portion
-    rtrace = torch.diagonal(R, dim1=-2, dim2=-1).sum(-1)
-    # rtrace = torch.einsum("...ii", se3[..., :3, :3])
-
-    # find the angles
-    acos_arg = 0.5 * (rtrace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat (theta/sin(theta)) as 1
-    stable = theta > 0.0001
-    omegas[..., 0] = R[..., 2, 1] - R[..., 1, 2]
-    omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
-    omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
-    factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = om_log(R)
 
     v_inv = w_to_v_inv(omegas)
-    tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
+    tau = torch.matmul(v_inv, tvec[..., None]).reshape(data_shape + (3,))
 
     return torch.cat([omegas, tau], dim=-1)
-- 
2.43.0


From 1076d953e7d7e57a4d37b422fa722f178f1a6338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 086/100] fix: mutual information of constant images, values of
 one and joint histograms of all bins

---
 ebsdtorch/utils/mutual_information.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..3a794f7 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -41,14 +41,18 @@ def mutual_information(
     b_minvals = b.min(dim=-1, keepdim=True).values
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
+    # constant images have no range to normalize by
+    a_range = torch.where(a_maxvals > a_minvals, a_maxvals - a_minvals, 1.0)
+    b_range = torch.where(b_maxvals > b_minvals, b_maxvals - b_minvals, 1.0)
+
     if normalize:
-        a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
-        b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
+        a_bin = ((a - a_minvals) / a_range * n_bins * 0.999999).long()
+        b_bin = ((b - b_minvals) / b_range * n_bins * 0.999999).long()
     else:
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
@@ -170,11 +174,12 @@ def binned_nmi(
         exclude_lowest_bin: If True, the lowest bin will be excluded from the calculation.
     """
 
-    x = x.view(-1)
-    y = y.view(-1)
+    x = x.reshape(-1)
+    y = y.reshape(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # values of exactly 1 belong to the last bin
+    x_binned = torch.floor(x * binsx).clamp(0, binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(0, binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
-- 
2.43.0


From e7e881208272c2dff2947662882c033d1fa768e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 087/100] fix: cross mutual information counts every level,
 pixel and overlap, for batches, masks and odd widths

---
 ebsdtorch/utils/mutual_information.py | 326 +++++++++-----------------
 1 file changed, 114 insertions(+), 212 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index 3a794f7..eaba9c0 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -374,110 +374,116 @@ def cmif(
     #     images_src.view(src_data_shape + (-1,)).max(dim=-1).values[..., None, None]
     # )
 
-    images_dst = images_dst.view(-1, 1, h1, w1)
-    images_src = images_src.view(-1, 1, h1, w1)
+    images_dst = images_dst.reshape(-1, 1, h1, w1)
+    images_src = images_src.reshape(-1, 1, h1, w1)
 
-    dst_levels = (bins_dst * images_dst).byte().repeat(1, bins_dst, 1, 1)
+    # values of exactly 1 belong to the last bin
+    dst_discrete = (bins_dst * images_dst).long().clamp(0, bins_dst - 1)
+    src_discrete = (bins_src * images_src).long().clamp(0, bins_src - 1)
+
+    dst_levels = dst_discrete.repeat(1, bins_dst, 1, 1)
     dst_levels = (
         dst_levels
-        == torch.arange(bins_dst, dtype=torch.uint8, device=images_dst.device)[
-            None, :, None, None
-        ]
+        == torch.arange(bins_dst, device=images_dst.device)[None, :, None, None]
     )
 
-    src_levels = (bins_src * images_src).byte().repeat(1, bins_src, 1, 1)
+    src_levels = src_discrete.repeat(1, bins_src, 1, 1)
     src_levels = (
         src_levels
-        == torch.arange(bins_src, dtype=torch.uint8, device=images_src.device)[
-            None, :, None, None
-        ]
+        == torch.arange(bins_src, device=images_src.device)[None, :, None, None]
     )
 
     # we need to zero mean and unit norm the images (only within the mask)
     if dst_ind is None:
         dst_ind = torch.ones_like(images_dst)
     else:
-        dst_ind = dst_ind.view(-1, 1, h1, w1)
+        dst_ind = dst_ind.reshape(-1, 1, h1, w1)
 
     if src_ind is None:
         src_ind = torch.ones_like(images_src)
     else:
-        src_ind = src_ind.view(-1, 1, h1, w1)
+        src_ind = src_ind.reshape(-1, 1, h1, w1)
 
-    # add the indicator images to the beginning of the levels
-    dst_levels = torch.cat((dst_ind, dst_levels), dim=1)
-    src_levels = torch.cat((src_ind, src_levels), dim=1)
+    # add the indicator images to the beginning of the levels, which only count
+    # the pixels within them
+    dst_levels = torch.cat((dst_ind, dst_levels * dst_ind), dim=1)
+    src_levels = torch.cat((src_ind, src_levels * src_ind), dim=1)
 
     # calculate the 2D FFT of the indicator images
     dst_levels_fft = rfft2(dst_levels.float())
     src_levels_fft = rfft2(src_levels.float()).conj()
 
-    # if binning is more than 16, have to do this in chunks
-    if bins_src > 8 or bins_dst > 8:
-        if constant_marginal:
-            # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src).byte()
-            dst_discrete = (bins_dst * images_dst).byte()
-
-            # calculate the marginal histograms
-            marg_hists_dst = torch.histc(
-                dst_discrete[src_ind].float(), bins=bins_dst, min=0, max=bins_dst - 1
-            )
-            marg_hists_src = torch.histc(
-                src_discrete[dst_ind].float(), bins=bins_src, min=0, max=bins_src - 1
-            )
-
-            # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum()
-            marg_hists_dst /= marg_hists_dst.sum()
-
-            # calculate the marginal log probabilities
-            marg_src_p_log_p = torch.where(
-                marg_hists_src > 0.0,
-                marg_hists_src * torch.log(marg_hists_src),
-                torch.zeros_like(marg_hists_src),
-            )
-            marg_dst_p_log_p = torch.where(
-                marg_hists_dst > 0.0,
-                marg_hists_dst * torch.log(marg_hists_dst),
-                torch.zeros_like(marg_hists_dst),
-            )
+    if constant_marginal:
+        # the marginals are calculated from the entire original images
+        marg_hists_dst = dst_levels[:, 1:].sum(dim=(-2, -1))
+        marg_hists_src = src_levels[:, 1:].sum(dim=(-2, -1))
+
+        # normalize the marginal histograms
+        marg_hists_src = marg_hists_src / marg_hists_src.sum(dim=1, keepdim=True)
+        marg_hists_dst = marg_hists_dst / marg_hists_dst.sum(dim=1, keepdim=True)
+
+        # calculate the marginal log probabilities
+        marg_src_p_log_p = torch.where(
+            marg_hists_src > 0.0,
+            marg_hists_src * torch.log(marg_hists_src),
+            torch.zeros_like(marg_hists_src),
+        )
+        marg_dst_p_log_p = torch.where(
+            marg_hists_dst > 0.0,
+            marg_hists_dst * torch.log(marg_hists_dst),
+            torch.zeros_like(marg_hists_dst),
+        )
 
-            # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p)
-            ent_dst = -torch.sum(marg_dst_p_log_p)
+        # find the entropies of the marginals
+        ent_src = -torch.sum(marg_src_p_log_p, dim=1)[None, :, None, None]
+        ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)[:, None, None, None]
+    else:
+        # the marginals of the overlap, each within the indicator of the other
+        marg_hists_dst = fftshift(
+            irfft2(
+                torch.einsum(
+                    "bihw,chw->bcihw", dst_levels_fft[:, 1:], src_levels_fft[:, 0]
+                ),
+                s=(h1, w1),
+            ),
+            dim=(-2, -1),
+        )
+        marg_hists_src = fftshift(
+            irfft2(
+                torch.einsum(
+                    "bhw,cjhw->bcjhw", dst_levels_fft[:, 0], src_levels_fft[:, 1:]
+                ),
+                s=(h1, w1),
+            ),
+            dim=(-2, -1),
+        )
 
-        else:
-            # first compute the marginal histograms
-            marg_hists_dst = fftshift(
-                irfft2(src_levels_fft[:, 0:1, :, :] * dst_levels_fft[:, 1:, :, :]),
-                dim=(-2, -1),
-            )
-            marg_hists_src = fftshift(
-                irfft2(src_levels_fft[:, 1:, :, :] * dst_levels_fft[:, 0:1, :, :]),
-                dim=(-2, -1),
-            )
+        # occupancies are whole numbers up to the rounding of the FFT
+        marg_hists_dst[marg_hists_dst < 0.5] = 0.0
+        marg_hists_src[marg_hists_src < 0.5] = 0.0
 
-            # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
+        # normalize the marginal histograms
+        marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
+        marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
 
-            # calculate the marginal log probabilities
-            marg_src_p_log_p = torch.where(
-                marg_hists_src > 0.0,
-                marg_hists_src * torch.log(marg_hists_src),
-                torch.zeros_like(marg_hists_src),
-            )
-            marg_dst_p_log_p = torch.where(
-                marg_hists_dst > 0.0,
-                marg_hists_dst * torch.log(marg_hists_dst),
-                torch.zeros_like(marg_hists_dst),
-            )
+        # calculate the marginal log probabilities
+        marg_src_p_log_p = torch.where(
+            marg_hists_src > 0.0,
+            marg_hists_src * torch.log(marg_hists_src),
+            torch.zeros_like(marg_hists_src),
+        )
+        marg_dst_p_log_p = torch.where(
+            marg_hists_dst > 0.0,
+            marg_hists_dst * torch.log(marg_hists_dst),
+            torch.zeros_like(marg_hists_dst),
+        )
 
-            # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
+        # find the entropies of the marginals
+        ent_src = -torch.sum(marg_src_p_log_p, dim=2)
+        ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
 
+    # if binning is more than 16, have to do this in chunks
+    if bins_src > 8 or bins_dst > 8:
         # total number of pixel pair values is the olap value so we can normalize the histogram bars in the joint as they come
         ent_joint = torch.zeros(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
@@ -486,28 +492,32 @@ def cmif(
             (images_dst.shape[0], images_src.shape[0], h1, w1), device=images_dst.device
         )
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 # print which chunk begin and end for each
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(
+                    irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)
+                )
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # update the tally
                 tally_joint += cross_corr_real.sum(dim=(2, 3))
 
-        for i in range(1, bins_src, chunk_size):
-            for j in range(1, bins_dst, chunk_size):
+        for i in range(1, bins_src + 1, chunk_size):
+            for j in range(1, bins_dst + 1, chunk_size):
                 src_chunk = src_levels_fft[:, i : i + chunk_size, :, :]
                 dst_chunk = dst_levels_fft[:, j : j + chunk_size, :, :]
                 cross_corr_f = torch.einsum("bihw,cjhw->bcijhw", dst_chunk, src_chunk)
-                cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
+                cross_corr_real = fftshift(
+                    irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1)
+                )
                 # where the bin occupancy was less than 1, set it to zero
-                cross_corr_real[cross_corr_real < 1.0] = 0.0
+                cross_corr_real[cross_corr_real < 0.5] = 0.0
                 # increment the joint entropy
-                joint_p = cross_corr_real / tally_joint
+                joint_p = cross_corr_real / tally_joint[:, :, None, None]
                 joint_p_log_p = torch.where(
                     joint_p > 0.0,
                     joint_p * torch.log(joint_p),
@@ -516,140 +526,32 @@ def cmif(
                 ent_joint += -torch.sum(joint_p_log_p, dim=(2, 3))
 
     else:
-        if constant_marginal:
-            # the marginal is calculated from the entire original image and it is a scalar
-            src_discrete = (bins_src * images_src * 0.99999).long()
-            dst_discrete = (bins_dst * images_dst * 0.99999).long()
-
-            # have to use scatter instead
-            marg_hists_dst = torch.zeros(
-                images_dst.shape[0], bins_dst, device=images_dst.device
-            )
-            marg_hists_src = torch.zeros(
-                images_src.shape[0], bins_src, device=images_src.device
-            )
-
-            # reshape to be (B, n_bins, -1)
-            src_discrete = src_discrete.view(-1, h1 * w1)
-            dst_discrete = dst_discrete.view(-1, h1 * w1)
-
-            # scatter the joint histogram
-            marg_hists_dst = marg_hists_dst.scatter_(
-                -1,
-                dst_discrete,
-                1,
-                reduce="add",
-            )
-            marg_hists_src = marg_hists_src.scatter_(
-                -1,
-                src_discrete,
-                1,
-                reduce="add",
-            )
-
-            # normalize the marginal histograms
-            marg_hists_src /= marg_hists_src.sum(dim=1, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=1, keepdim=True)
-
-            # calculate the marginal log probabilities
-            marg_src_p_log_p = torch.where(
-                marg_hists_src > 0.0,
-                marg_hists_src * torch.log(marg_hists_src),
-                torch.zeros_like(marg_hists_src),
-            )
-            marg_dst_p_log_p = torch.where(
-                marg_hists_dst > 0.0,
-                marg_hists_dst * torch.log(marg_hists_dst),
-                torch.zeros_like(marg_hists_dst),
-            )
-
-            # find the entropies of the marginals
-            ent_src = -torch.sum(marg_src_p_log_p, dim=1)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=1)
-
-            # element-wise multiply every possible pair of slices
-            # the result is a tensor of shape (B, 1 + num_bins_src, 1 + num_bins_dst, H, W)
-            # where the "1 +" are coming from the indicator bins for the image foreground
-            cross_corr_f = torch.einsum(
-                "bihw,cjhw->bcijhw", dst_levels_fft, src_levels_fft
-            )
-
-            # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1))
-
-            # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
-
-            # extract out the joint histograms
-            joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
-
-            # individually normalize the histograms
-            joint_hists /= joint_hists.sum(dim=(2, 3), keepdim=True)
-
-            # calculate the entropy of the joint histograms
-            # must be careful to ignore the zero bins
-            joint_p_log_p = torch.where(
-                joint_hists > 0.0,
-                joint_hists * torch.log(joint_hists),
-                torch.zeros_like(joint_hists),
-            )
-
-            # find the entropies of the marginals and the joint
-            ent_joint = -torch.sum(joint_p_log_p, dim=(2, 3))
-        else:
-            # element-wise multiply every possible pair of slices
-            # the result is a tensor of shape (B, 1 + num_bins_src, 1 + num_bins_dst, H, W)
-            # where the "1 +" are coming from the indicator bins for the image foreground
-            cross_corr_f = torch.einsum(
-                "bihw,cjhw->bcijhw", dst_levels_fft, src_levels_fft
-            )
-
-            # Inverse 2D real valued fourier transform and shift and abs
-            cross_corr_real = fftshift(irfft2(cross_corr_f), dim=(-2, -1)).real
-
-            # where the bin occupancy was less than 1, set it to zero
-            cross_corr_real[cross_corr_real < 1.0] = 0.0
-
-            # extract out the joint histograms
-            joint_hists = cross_corr_real[:, :, 1:, 1:, :, :]
+        # element-wise multiply every possible pair of slices
+        # the result is a tensor of shape (B, C, num_bins_dst, num_bins_src, H, W)
+        cross_corr_f = torch.einsum(
+            "bihw,cjhw->bcijhw", dst_levels_fft[:, 1:], src_levels_fft[:, 1:]
+        )
 
-            # extract out the marginal histograms
-            marg_hists_src = cross_corr_real[:, :, 1:, 0, :, :]
-            marg_hists_dst = cross_corr_real[:, :, 0, 1:, :, :]
+        # Inverse 2D real valued fourier transform and shift
+        joint_hists = fftshift(irfft2(cross_corr_f, s=(h1, w1)), dim=(-2, -1))
 
-            # individually normalize the histograms
-            joint_hists /= joint_hists.sum(dim=(2, 3), keepdim=True)
-            marg_hists_src /= marg_hists_src.sum(dim=2, keepdim=True)
-            marg_hists_dst /= marg_hists_dst.sum(dim=2, keepdim=True)
+        # where the bin occupancy was less than 1, set it to zero
+        joint_hists[joint_hists < 0.5] = 0.0
 
-            # calculate the entropy of the joint histograms
-            # must be careful to ignore the zero bins
-            joint_p_log_p = torch.where(
-                joint_hists > 0.0,
-                joint_hists * torch.log(joint_hists),
-                torch.zeros_like(joint_hists),
-            )
-            marg_src_p_log_p = torch.where(
-                marg_hists_src > 0.0,
-                marg_hists_src * torch.log(marg_hists_src),
-                torch.zeros_like(marg_hists_src),
-            )
-            marg_dst_p_log_p = torch.where(
-                marg_hists_dst > 0.0,
-                marg_hists_dst * torch.log(marg_hists_dst),
-                torch.zeros_like(marg_hists_dst),
-            )
+        # individually normalize the histograms
+        joint_hists /= joint_hists.sum(dim=(2, 3), keepdim=True)
 
-            # find the entropies of the marginals and the joint
-            ent_src = -torch.sum(marg_src_p_log_p, dim=2)
-            ent_dst = -torch.sum(marg_dst_p_log_p, dim=2)
-            ent_joint = -torch.sum(joint_p_log_p, dim=(2, 3))
+        # calculate the entropy of the joint histograms
+        # must be careful to ignore the zero bins
+        joint_p_log_p = torch.where(
+            joint_hists > 0.0,
+            joint_hists * torch.log(joint_hists),
+            torch.zeros_like(joint_hists),
+        )
+        ent_joint = -torch.sum(joint_p_log_p, dim=(2, 3))
 
     # mutual information is the sum of the marginal entropies minus the joint entropy
-    if constant_marginal:
-        mi = ent_dst[:, None, None, None] + ent_src[None, :, None, None] - ent_joint
-    else:
-        mi = ent_dst + ent_src - ent_joint
+    mi = ent_dst + ent_src - ent_joint
 
     # replace any NaNs or Infs or Negatives with zeros
     mi[torch.isnan(mi) | torch.isinf(mi) | (mi < 0.0)] = 0.0
-- 
2.43.0


From 6b370c0bbf5bc1b4d1f4ebb4da47222b4c68eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 088/100] fix: pixel grid of deformed projections ends at the
 last pixel

---
 ebsdtorch/ebsd/project_hrebsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From 4b702268448b176bc2cd84222a1101a61b9e0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:21 +0000
Subject: [PATCH 089/100] fix: one more term of the rotation series below 0.05
 rad

---
 ebsdtorch/lie_algebra/se3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index 70b7a32..da1f2d2 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -171,7 +171,7 @@ def w_exp_vmat(omega: Tensor) -> Tuple[Tensor, Tensor]:
     prefactor1 = torch.where(
         stable,
         torch.sin(safe) / safe,
-        1 - theta**2 / 6 + theta**4 / 120,
+        1 - theta**2 / 6 + theta**4 / 120 - theta**6 / 5040,
     )
 
     # This prefactor is shared between calculations of exp(skew) and v
-- 
2.43.0


From 8ca365aa1a7854a4914c9a7fe035239186e77a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 090/100] fix: Wigner d zeroth powers of vanishing half angle
 functions (beta 0 gave nan)

---
 ebsdtorch/harmonics/wigner_d_logspace.py | 4 ++++
 ebsdtorch/harmonics/wigner_d_xnum.py     | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..1675d4d 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -150,6 +150,10 @@ def log_powers_trig_half_beta(
     # Compute the powers
     cos_powers = powers * math.log(math.cos(beta / 2.0))
     sin_powers = powers * math.log(math.sin(beta / 2.0))
+
+    # the zeroth power is one, also of zero (where 0 * log(0) is nan)
+    cos_powers[:1] = 0.0
+    sin_powers[:1] = 0.0
     return cos_powers, sin_powers
 
 
diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 8973db9..c23b850 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -154,8 +154,9 @@ def trig_powers_xnum(
     sh = torch.sin(beta / 2.0)
 
     # log2 of magnitude of cos(beta/2) and sin(beta/2)
-    lmch = torch.log2(torch.abs(ch))
-    lmsh = torch.log2(torch.abs(sh))
+    # (finite also for a magnitude of 0, so that its zeroth power stays one)
+    lmch = torch.log2(torch.abs(ch)).clamp(min=-1.0e4)
+    lmsh = torch.log2(torch.abs(sh)).clamp(min=-1.0e4)
 
     lmch_sign = torch.sign(lmch)
     lmsh_sign = torch.sign(lmsh)
-- 
2.43.0


From fed2a10f50d647caf05efacc1fb92c88613de6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 091/100] fix: Wigner d seeds of the half turn table belong to
 beta = pi/2, not pi

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index c23b850..0e89e57 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -326,7 +326,7 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
-    if beta.item() == torch.pi:
+    if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
             torch.exp(
                 0.5
-- 
2.43.0


From 189c38f9894f582580ee27cecc93cb2c72088775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 092/100] fix: retrieve_wigner_d looks up negative orders by
 their symmetry

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 33 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 0e89e57..bf67f70 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -551,10 +551,31 @@ def retrieve_wigner_d(
     m_new = torch.where(mask_mn_swap, n, m)
     n_new = torch.where(mask_mn_swap, m, n)
 
-    prefactor = torch.where(
-        mask_mn_swap,
-        (-1.0) ** ((m_new - n_new) % 2),
-        1.0,
+    both_neg_mask = (m_new < 0) & (n_new < 0)
+    only_m_neg_mask = (m_new < 0) & (n_new >= 0)
+    only_n_neg_mask = (n_new < 0) & (m_new >= 0)
+
+    prefactor = (
+        torch.where(
+            both_neg_mask,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_m_neg_mask,
+            (-1.0) ** ((l - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_n_neg_mask,
+            (-1.0) ** ((l + m_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            mask_mn_swap,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
     )
 
     if swap_mn:
@@ -562,7 +583,9 @@ def retrieve_wigner_d(
 
     return (
         wigner_d_values[
-            (((l * (l + 1)) // 2 * (l + 2)) // 3) + ((m_new * (m_new + 1)) // 2) + n_new
+            (((l * (l + 1)) // 2 * (l + 2)) // 3)
+            + ((torch.abs(m_new) * (torch.abs(m_new) + 1)) // 2)
+            + torch.abs(n_new)
         ]
         * prefactor
     )
-- 
2.43.0


From 3c2f48dd54cc821648c16192479e9df304e44d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 093/100] fix: spacing of the large argument table in
 RIH2_torch

---
 .../scattering_factors/scattering_factors_Hybrid.py             | 2 +-
 .../crystallography/scattering_factors/scattering_factors_WK.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index e10c00a..0668448 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -708,7 +708,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index fd4b1f5..9746f27 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -542,7 +542,7 @@ def RIH2_torch(X: Tensor) -> Tensor:
     idx = (200.0 / X).floor().long()
     idx = torch.clamp(idx, 0, len(rih2_table) - 2)
     sig = rih2_table[idx] + 200.0 * (rih2_table[idx + 1] - rih2_table[idx]) * (
-        1.0 / X - 0.5e-3 * idx
+        1.0 / X - 5.0e-3 * idx
     )
     return sig
 
-- 
2.43.0


From 685d5b05523953e8281c97d1a07be3994b29df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 094/100] fix: no phonon scattering (instead of nan) for atoms
 at rest

---
 .../scattering_factors/scattering_factors_Hybrid.py            | 3 +++
 .../scattering_factors/scattering_factors_WK.py                | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 0668448..2baab06 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -1045,6 +1045,9 @@ def scatter_factor_hybrid(
                 multiplier * A_i * A_j * (exp_DW[:, g_nonzero, :] * I1_g - I2_g)
             )
 
+        # atoms at rest (M = 0) scatter no phonons, the limit of both integrals
+        result = torch.where(M > 0, result, torch.zeros_like(result))
+
         # Sum over pairs and prepare for broadcasting
         Fphon = result.sum(dim=-1).view(1, N_Z, N_g)
     else:
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 9746f27..7d5b267 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -911,6 +911,9 @@ def scatter_factor_WK(
                 multiplier * A_i * A_j * (exp_DW[:, g_nonzero, :] * I1_g - I2_g)
             )
 
+        # atoms at rest (M = 0) scatter no phonons, the limit of both integrals
+        result = torch.where(M > 0, result, torch.zeros_like(result))
+
         # Sum over pairs and prepare for broadcasting
         Fphon = result.sum(dim=-1).view(1, N_Z, N_g)
     else:
-- 
2.43.0


From 6d45d61edc414b9187320250b2315ac62acfb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 095/100] fix: Lobato-Van Dyck factors of several voltages

---
 .../scattering_factors/scattering_factors_LVD_TCB.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
index c40e1ca..008cfdc 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py
@@ -366,6 +366,7 @@ def scatter_factor_LVD(
     S = (g / 2.0).view(-1)  # [N_g]
     Z = Z.view(-1)  # [N_Z]
     M_vals = (thermal_sigma.view(-1) ** 2.0) * (8 * torch.pi**2)  # [N_Z]
+    voltage_kV = voltage_kV.view(-1)  # [N_V]
 
     N_V = len(voltage_kV)
     N_Z = len(Z)
@@ -378,6 +379,7 @@ def scatter_factor_LVD(
 
     # Calculate wavelength for each voltage
     k0 = 2.0 * torch.pi / e_wavelength_eV_to_A(1000.0 * voltage_kV)  # [N_V]
+    k0 = k0.view(N_V, 1, 1)
 
     # compute DWF
     dwf = torch.exp(-M_vals.view(-1, 1) * S.view(1, -1) ** 2).view(1, N_Z, N_g)
-- 
2.43.0


From b5e03276772155a2ed5e542fd8794e933e4651fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 096/100] fix: exponential integral between 20 and 40

---
 .../scattering_factors_Hybrid.py              | 36 +++++++++++++++++--
 .../scattering_factors_WK.py                  | 36 +++++++++++++++++--
 2 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
index 2baab06..895fc20 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py
@@ -642,8 +642,40 @@ def expi(x: Tensor) -> Tensor:
         range3_result = range3_result + x_masked3
         result[mask_range3] = range3_result
 
-    # z > 20
-    mask_range4 = x > 20
+    mask_range3b = (x > 20) & (x <= 40)
+    if mask_range3b.any():
+        Y = 1.03937530517578125
+        P = [
+            -0.00356165148914447278177,
+            -0.0229930320357982333406,
+            -0.0449814350482277917716,
+            -0.0453759383048193402336,
+            -0.0272050837209380717069,
+            -0.00994403059883350813295,
+            -0.00207592267812291726961,
+            -0.000192178045857733706044,
+            -0.113161784705911400295e-9,
+        ]
+        Q = [
+            1.0,
+            2.84354408840148561131,
+            3.6599610090072393012,
+            2.75088464344293083595,
+            1.2985244073998398643,
+            0.383213198510794507409,
+            0.0651165455496281337831,
+            0.00488071077519227853585,
+        ]
+
+        x_masked3b = x[mask_range3b]
+        t = x_masked3b / 10 - 3
+        range3b_result = Y + evaluate_polynomial(P, t) / evaluate_polynomial(Q, t)
+        range3b_result = range3b_result * torch.exp(x_masked3b) / x_masked3b
+        range3b_result = range3b_result + x_masked3b
+        result[mask_range3b] = range3b_result
+
+    # z > 40
+    mask_range4 = x > 40
     if mask_range4.any():
         Y = 1.013065338134765625
         P = [
diff --git a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
index 7d5b267..f141243 100644
--- a/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
+++ b/ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py
@@ -476,8 +476,40 @@ def expi(x: Tensor) -> Tensor:
         range3_result = range3_result + x_masked3
         result[mask_range3] = range3_result
 
-    # z > 20
-    mask_range4 = x > 20
+    mask_range3b = (x > 20) & (x <= 40)
+    if mask_range3b.any():
+        Y = 1.03937530517578125
+        P = [
+            -0.00356165148914447278177,
+            -0.0229930320357982333406,
+            -0.0449814350482277917716,
+            -0.0453759383048193402336,
+            -0.0272050837209380717069,
+            -0.00994403059883350813295,
+            -0.00207592267812291726961,
+            -0.000192178045857733706044,
+            -0.113161784705911400295e-9,
+        ]
+        Q = [
+            1.0,
+            2.84354408840148561131,
+            3.6599610090072393012,
+            2.75088464344293083595,
+            1.2985244073998398643,
+            0.383213198510794507409,
+            0.0651165455496281337831,
+            0.00488071077519227853585,
+        ]
+
+        x_masked3b = x[mask_range3b]
+        t = x_masked3b / 10 - 3
+        range3b_result = Y + evaluate_polynomial(P, t) / evaluate_polynomial(Q, t)
+        range3b_result = range3b_result * torch.exp(x_masked3b) / x_masked3b
+        range3b_result = range3b_result + x_masked3b
+        result[mask_range3b] = range3b_result
+
+    # z > 40
+    mask_range4 = x > 40
     if mask_range4.any():
         Y = 1.013065338134765625
         P = [
-- 
2.43.0


From 16eabe0f70b6ad44972c1baccb4adc5a7db4d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:49 +0000
Subject: [PATCH 097/100] fix: angle convention of the hybrid scattering factor
 in Bloch wave helpers

---
 ebsdtorch/crystallography/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/diffraction.py b/ebsdtorch/crystallography/diffraction.py
index 2f145d2..8e8b22a 100644
--- a/ebsdtorch/crystallography/diffraction.py
+++ b/ebsdtorch/crystallography/diffraction.py
@@ -286,7 +286,7 @@ def calc_helper_bloch_formalism(
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=(0.1 * g_unique).float(),  # the hybrid form applies the 2pi itself
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
@@ -498,7 +498,7 @@ def calc_helper_scatter_matrix(
         ).to(torch.complex64)
     elif scatter_factor == "Hybrid":
         scatter_factors = scatter_factor_hybrid(
-            g=g_angstrom_twopi.float(),
+            g=(0.1 * g_unique).float(),  # the hybrid form applies the 2pi itself
             Z=zs,
             thermal_sigma=u_angstrom_twopi.float(),
             voltage_kV=voltages_kV,
-- 
2.43.0


From f98e9ad45ed213a1b7c7903bb69467a7dcd6d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:16 +0000
Subject: [PATCH 098/100] fix: binned_nmi with many bins counted pixels in the
 bin below

---
 ebsdtorch/utils/mutual_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index eaba9c0..8ebd0ba 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -182,7 +182,8 @@ def binned_nmi(
     y_binned = torch.floor(y * binsy).clamp(0, binsy - 1)
 
     # Create a combined variable for 1D histogram
-    xy_combined = x_binned * binsy + y_binned
+    # (the middle of each bin, as rounding moves values at an edge to either side)
+    xy_combined = x_binned * binsy + y_binned + 0.5
 
     # Calculate the 1D histogram using a flattening trick so that it can run on the GPU
     hist = torch.histc(xy_combined, bins=(binsx * binsy), min=0, max=(binsx * binsy))
-- 
2.43.0


From b99f12fd2f202dcb248d8f5218d179dce10ac517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:50 +0000
Subject: [PATCH 099/100] fix: Gaussian blur of images with an odd side lost a
 row or column

---
 ebsdtorch/preprocessing/resampling.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..6f1d0b6 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -38,16 +38,6 @@ class GaussianBlur2d(Module):
 
         # apply convolution
         x = F.conv2d(x, self.kernel, padding=0)
-
-        # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
         return x
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
@@ -72,13 +62,11 @@ class GaussianBlur2d(Module):
 
     def _compute_padding(self, x: torch.Tensor) -> tuple[int, int, int, int]:
         kernel_size = self.kernel.shape[-1]
-        w_even = x.shape[-1] % 2 == 0
-        h_even = x.shape[-2] % 2 == 0
         return (
             kernel_size // 2,
-            kernel_size // 2 + int(w_even),
             kernel_size // 2,
-            kernel_size // 2 + int(h_even),
+            kernel_size // 2,
+            kernel_size // 2,
         )
 
     @staticmethod
-- 
2.43.0


From d69d96709246c19d9470d590bb6383f34235d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:08 +0000
Subject: [PATCH 100/100] fix: progress bar divided by zero when the clock
 stepped back by 10 ns per item

---
 ebsdtorch/utils/progressbar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/progressbar.py b/ebsdtorch/utils/progressbar.py
index 851ac78..1c70759 100644
--- a/ebsdtorch/utils/progressbar.py
+++ b/ebsdtorch/utils/progressbar.py
@@ -51,7 +51,7 @@ def progressbar(it, prefix="", prefix_min_length=15, size=60, out=sys.stdout):
         )
 
         # current iterations per second
-        ips = 1.0 / (seconds_per_iteration + 1e-8)
+        ips = 1.0 / (max(seconds_per_iteration, 0.0) + 1e-8)
         speed_str = f"{ips:04.1f} itr/s" if ips > 1.0 else f"{1.0/ips:04.1f} s/itr"
 
         print(
-- 
2.43.0

