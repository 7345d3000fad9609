From 0388cbec00855e10f9de255e91d77d02420cefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 01/20] fix: mean first passage times of chains with several
 closed classes

For a reducible chain the destination-wise systems were solved first and
singularity was only handled when an absorbing state was left over, so a
chain with two closed classes of two or more states got inf everywhere,
and near-singular systems were filtered by magnitude. Decide reachability
from the transition matrix and solve only for states sure to arrive.
---
 giddy/ergodic.py | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..f2006f7 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -323,37 +323,22 @@ rows to be 1 to make sure the matrix is stochastic.
         k = P.shape[0]
         mfpt_all = np.zeros((k, k))
         for desti in range(k):
-            b = np.ones(k - 1)
             p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
-            p_calc = np.eye(k - 1) - p_sub
+            # states from which desti can be reached at all
+            hit = np.delete(P[:, desti], desti) > 0
+            while (step := hit | (p_sub[:, hit] > 0).any(axis=1)).sum() > hit.sum():
+                hit = step
+            # states from which desti may be missed forever
+            miss = ~hit
+            while (step := miss | (p_sub[:, miss] > 0).any(axis=1)).sum() > miss.sum():
+                miss = step
+            sure = np.where(~miss)[0]
+            p_calc = np.eye(len(sure)) - p_sub[sure, :][:, sure]
             m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
-                m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
-            recc = (
-                np.nan_to_num(
-                    (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
-                ).sum()
-                + 1
-            )
+            m[sure] = np.linalg.solve(p_calc, np.ones(len(sure)))
+            p_desti = np.delete(P, desti, 1)[desti]
+            recc = (p_desti[p_desti > 0] * m[p_desti > 0]).sum() + 1
             mfpt_all[:, desti] = np.insert(m, desti, recc)
-            mfpt_all = np.where(mfpt_all < -1e16, np.inf, mfpt_all)
-            mfpt_all = np.where(mfpt_all > 1e16, np.inf, mfpt_all)
     return mfpt_all
 
 
-- 
2.43.0


From 5fba0aed36e74dad188fa0c6671160ce0907664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 02/20] fix: mean first passage times of an integer-typed
 transition matrix

The limiting matrix inherited the integer dtype, truncating the steady
state to zeros.
---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index f2006f7..d01ee7f 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -204,7 +204,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros((k, k))
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From bb33670c00fc00dcb8b6fd811c91bcec1c530bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 03/20] fix: steady state of a reducible chain with one
 recurrent class

As documented, a chain with a single recurrent class has a single steady
state of shape (k,), also when it has transient states.
---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index d01ee7f..6b295a6 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -145,7 +145,7 @@ rows to be 1 to make sure the matrix is stochastic.
                 "sure the matrix is stochastic." % rows0
             )
     mc = qe.MarkovChain(P)
-    num_classes = mc.num_communication_classes
+    num_classes = mc.num_recurrent_classes
     if num_classes == 1:
         return mc.stationary_distributions[0]
     else:
-- 
2.43.0


From 6a98171c855020c12e18894e9f13408eb8eb3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 04/20] fix: exact transition probabilities for deterministic
 rows

Multiplying the counts by the reciprocal of the row total can miss 1 by an
ulp (49 * (1/49) < 1), so an absorbing state was not recognised and its
sojourn and first passage times came out as huge finite numbers. Divide
the counts by the row total instead.
---
 giddy/markov.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..c35cb18 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
@@ -977,8 +977,7 @@ class Spatial_Markov:
         for i, mat in enumerate(T):
             row_sum = mat.sum(axis=1)
             row_sum = row_sum + (row_sum == 0)
-            p_i = np.array(np.diag(1.0 / row_sum)).dot(np.array(mat))
-            P[i] = p_i
+            P[i] = mat / row_sum[:, np.newaxis]
 
         if fill_empty_classes:
             P = fill_empty_diagonals(P)
-- 
2.43.0


From 0599fca35d5b638d54a4f535c03ccc50e5bcaff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 05/20] fix: classes no observation falls in, in Spatial_Markov

The global chain inferred its classes from the data while the conditional
chains use all k of them: a cut-off interval without observations left the
global matrices smaller than (and, if it was not the last one, misaligned
with) the conditional ones, and chi2 and shtest failed.
---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c35cb18..e7f4ee7 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -830,7 +830,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 8a8f315fd718991161cec20d56096429449d2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 06/20] fix: permutation inference of Spatial_Markov

The permuted statistics summed over k instead of m lag classes (IndexError
for m < k, lag classes left out for m > k), the lag classes of the last
permutation replaced the observed ones, and in discrete mode the lag was
always computed from the observed, unpermuted classes.
---
 giddy/markov.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index e7f4ee7..b899cee 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -823,6 +823,7 @@ class Spatial_Markov:
                 y_int.append(list(map(label_dict.get, yi)))
             self.class_ids = np.array(y_int)
             self.lclass_ids = self.class_ids
+            y = self.class_ids
         else:
             self.class_ids, self.cutoffs, self.k = self._maybe_classify(
                 y, k=k, cutoffs=self.cutoffs
@@ -843,15 +844,17 @@ class Spatial_Markov:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
+            lclass_ids = self.lclass_ids
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
                     counter += 1
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
+            self.lclass_ids = lclass_ids
 
     @property
     def s(self):
@@ -959,7 +962,7 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            self.lclass_ids = weights.lag_categorical(w, y, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From 17833c4083fa2762f21d627ce18ab7ad6d2db30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 07/20] fix: Spatial_Markov.summary() when there are more lag
 classes than classes

One regime name is needed per lag class (m), not per class (k).
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index b899cee..9d9e60c 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1048,7 +1048,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From d53680c7281a44589f3ebdd1ffb6c6dae7a260d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 08/20] fix: conditional steady states of chains with k and
 with 1 recurrent classes

numpy refuses to build an object array from (k, k) next to (k,) arrays, so
Spatial_Markov.S failed instead of giving the documented array of m arrays
of varying dimensions.
---
 giddy/markov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 9d9e60c..5846e0e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -868,8 +868,12 @@ class Spatial_Markov:
             _S = []
             for p in self.P:
                 _S.append(steady_state(p))
-            # if np.array(_S).dtype is np.dtype('O'):
-            self._S = np.asarray(_S, dtype=object)
+            if len({p.shape for p in _S}) == 1:
+                self._S = np.asarray(_S, dtype=object)
+            else:
+                self._S = np.empty(len(_S), dtype=object)
+                for i, p in enumerate(_S):
+                    self._S[i] = p
         return self._S
 
     @property
-- 
2.43.0


From a05713679c8ec0981595f8c08b90d1a39c884082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 09/20] fix: number of Rose sectors

np.arange with a rounded step yields k + 2 cuts, hence k + 1 sectors, for
k = 12, 30, 46 and others, and a last cut short of a full turn for others.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..2894de2 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.theta = observed["theta"]
         self.bins = observed["bins"]
-- 
2.43.0


From b3e0021c2ceff4eae476801bd6fe192adfed48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 10/20] fix: Rose.permute() replacing the observed data

Every permutation stored its shuffled values and their lag in Rose.Y and
Rose.wY, so later plots did not show the observed data. Keep the shuffled
values apart; the sequence of permutations drawn stays the same.
---
 giddy/directional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 2894de2..6e59485 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -219,6 +219,7 @@ class Rose:
         self.counts = observed["counts"]
         self.r = observed["r"]
         self.lag = observed["lag"]
+        self.wY = observed["lag"]
         self._dx = observed["dx"]
         self._dy = observed["dy"]
 
@@ -239,12 +240,14 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        # successive calls go on shuffling from where the last one stopped
+        rY = getattr(self, "_rY", self.Y).copy()
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
             np.random.shuffle(idxs)
-            res = self._calc(rY[idxs, :], self.w, self.k)
+            self._rY = rY[idxs, :]
+            res = self._calc(self._rY, self.w, self.k)
             counts[m] = res["counts"]
         self.counts_perm = counts
         self.larger_perm = np.array(
@@ -303,8 +306,6 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From ec2e72656fa4cb0cef829963e0335b2fad9786c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 11/20] fix: accept the documented spelling 'two-sided' in
 Rose.permute()

Only 'two.sided' was recognised; the documented option left p unset.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 6e59485..edf030c 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -276,7 +276,7 @@ class Rose:
         # since a priori there could # be different alternatives for each bin
         # depending on the problem at hand.
 
-        alt = alternative.upper()
+        alt = alternative.upper().replace("-", ".")
         if alt == "TWO.SIDED":
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
-- 
2.43.0


From 9f4cf2b2e63c675c64e74110c4db39bc08fe36f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 12/20] fix: Tau_Local_Neighbor permutations with integer y and
 float x

The permuted copy of x took the dtype of y, truncating x.
---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..5edd29a 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -611,7 +611,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 519c8eb8754c44d564e67aff3f0ec47ab17c90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 13/20] fix: optimal matching with more than ten states or
 transitions

Sequences were identified by their codes joined without a separator, so
[1, 11] and [11, 1] counted as one sequence and the lookup of the other
failed with KeyError. Separate the codes.
---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..c752538 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(" ".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From db2886d0b1a021ec4a5c2c019c28ec1f14e64425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 14/20] fix: Sequence() on lists of unequal lengths

Sequences of varying lengths are documented, but numpy refuses to make an
array of them unless the caller passes an object array.
---
 giddy/sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index c752538..18e4e82 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -177,7 +177,10 @@ class Sequence:
     """  # noqa E501
 
     def __init__(self, y, subs_mat=None, dist_type=None, indel=None, cluster_type=None):
-        y = np.asarray(y)
+        try:
+            y = np.asarray(y)
+        except ValueError:  # sequences of unequal lengths
+            y = [np.asarray(yi) for yi in y]
         merged = list(itertools.chain.from_iterable(y))
         self.classes = np.unique(merged)
         self.k = len(self.classes)
-- 
2.43.0


From 6b81ea80c0f3919f3b16d37b9292523a7f9c4fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 15/20] fix: homogeneity test of integer counts

The probabilities and the Q and LR tables inherited the integer dtype of
the counts and were truncated, giving wrong statistics (LR = -inf).
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 5846e0e..fd5b0b7 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1788,7 +1788,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 853f0fcde7c86773ad6e00123c3469dd7a46fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 16/20] fix: clusters of the last period in
 LISA_Markov.spillover()

components has one column per period, but the one of the last period was
never filled in.
---
 giddy/markov.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index fd5b0b7..8a815c6 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1553,6 +1553,10 @@ class LISA_Markov(Markov):
                     for i in component:
                         ii = self.w.id2i[i]
                         components[ii, t] = c + 1
+                if t == k - 2:  # the last period has no transition of its own
+                    for c, component in enumerate(components2):
+                        for i in component:
+                            components[self.w.id2i[i], k - 1] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From 93511c043badc23a5dd39b1b48cf7d5ef71749eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 17/20] fix: quadrant labels of the dynamic LISA heatmap

The rows and columns are ordered by Moran_Local's codes (HH, LH, LL, HL)
but were labelled HH, HL, LH, LL.
---
 giddy/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..a0263a5 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -167,8 +167,9 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    # quadrants as coded by Moran_Local: 1 HH, 2 LH, 3 LL, 4 HL
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From 45754c61daca54ba50905d9dca5b1a939cb76973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 18/20] fix: LISA_Markov when no, or every, lag is below the
 mean

The marginal chains inferred their classes from the data, so a panel whose
(relative) values or lags all lie on one side of 1 gave a one-state chain
and LISA_Markov failed combining it.
---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 8a815c6..5c3de6b 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1426,8 +1426,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        below = np.array([False, True])
+        markov_y = Markov(rc, below, summary=False)
+        markov_ylag = Markov(rlagc, below, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
-- 
2.43.0


From ecfcd07d3bbbca4a03d274ac9c4c8539832ded7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 19/20] fix: Kullback test summing the wrong axis

The initial-state totals within each stratum were summed over the initial
instead of the terminal states, which does not match the pooled totals
they are compared with: the statistic could be negative or positive where
all strata have the same transition probabilities.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 5c3de6b..5b95f75 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1642,7 +1642,7 @@ def kullback(F):
     FdJd1 = FdJd + (FdJd == 0)
     T3 = 2 * (FdJd * np.log(FdJd1)).sum()
 
-    FIJd = F[:, :].sum(axis=1)
+    FIJd = F.sum(axis=2)
     FIJd1 = FIJd + (FIJd == 0)
     T4 = 2 * (FIJd * np.log(FIJd1)).sum()
 
-- 
2.43.0


From f4efe572afdfafbf4a3e367dcdb2105835ce842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 20/20] fix: connected components of large graphs exceeding the
 recursion limit

---
 giddy/components.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..85d6f4a 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -151,12 +151,13 @@ class Graph:
         visited.add(v)
         if first is None:
             first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        # a stack of its own: recursion fails on components of about 1000 nodes
+        stack = [v]
+        while stack:
+            node = stack.pop()
+            for n, w in list(self.edges.get(node, {}).items()):
+                if op(w, threshold) and n not in visited:
+                    visited.add(n)
+                    aux.append(n)
+                    stack.append(n)
         return aux, visited
-- 
2.43.0

