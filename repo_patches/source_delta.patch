From 88d5662112b66ff0c6737e5eab1e5b36f706433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 01/20] fix: divide the cost function gradients by the number
 of samples

The costs are averages over the samples, the gradients were not, so they
were not the gradients of the costs when there is more than one sample.
---
 src/learning/toolkit/cost_fn.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/learning/toolkit/cost_fn.rs b/src/learning/toolkit/cost_fn.rs
index b59328f..73c4c65 100644
--- a/src/learning/toolkit/cost_fn.rs
+++ b/src/learning/toolkit/cost_fn.rs
@@ -37,7 +37,7 @@ impl CostFunc<Matrix<f64>> for MeanSqError {
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        outputs - targets
+        (outputs - targets) / (outputs.rows() as f64)
     }
 }
 
@@ -52,7 +52,7 @@ impl CostFunc<Vector<f64>> for MeanSqError {
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        outputs - targets
+        (outputs - targets) / (outputs.size() as f64)
     }
 }
 
@@ -74,7 +74,7 @@ impl CostFunc<Matrix<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)))) / (outputs.rows() as f64)
     }
 }
 
@@ -92,7 +92,7 @@ impl CostFunc<Vector<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)))) / (outputs.size() as f64)
     }
 }
 
-- 
2.43.0


From b2dffa3e2a136780b6e2c414207ff6bc489819cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 02/20] fix: reject features with zero variance when fitting
 the Standardizer

Transforming such a feature divided zero by zero and gave NaN.
---
 src/data/transforms/standardize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/transforms/standardize.rs b/src/data/transforms/standardize.rs
index ee974b7..375dbd2 100644
--- a/src/data/transforms/standardize.rs
+++ b/src/data/transforms/standardize.rs
@@ -93,6 +93,11 @@ impl<T: Float + FromPrimitive> TransformFitter<Matrix<T>, Standardizer<T>> for S
                 return Err(Error::new(ErrorKind::InvalidData, "Some data point is non-finite."));
             }
 
+            if variance.data().iter().any(|x| *x == T::zero()) {
+                return Err(Error::new(ErrorKind::InvalidData,
+                                      "Cannot standardize a feature with zero variance."));
+            }
+
             Ok(Standardizer {
                 means: mean,
                 variances: variance,
-- 
2.43.0


From 42a2635eda8c1af49c8f37c33b496037775866a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 03/20] fix: update the GLM working response with the current
 mean

The working response used the residual of the previous mean with the
current linear predictor, and started from the mean itself rather than
from its link, so training did not converge to the maximum likelihood
estimate.
---
 src/learning/glm.rs | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..550d8ed 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -100,20 +100,20 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
         // Construct initial estimate for mu
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
         let full_inputs = ones.hcat(inputs);
         let x_t = full_inputs.transpose();
 
+        // The working response at the current estimate
+        let y_bar = Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data()));
+        let mut z = self.criterion.apply_link_func(mu.clone()) + y_bar;
+
         // Iterate to convergence
         for _ in 0..8 {
             let w_diag = self.criterion.compute_working_weight(mu.data());
-            let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
-
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
 
             let x_t_w = &x_t * w;
 
@@ -128,10 +128,11 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
+            // Update mu and z
             let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            mu = self.criterion.apply_link_inv(fitted.clone());
+            let y_bar = Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data()));
+            z = y_bar + fitted;
         }
 
         self.parameters = Some(beta);
@@ -316,13 +317,8 @@ impl Criterion for Bernoulli {
         let mut mu_data = Vec::with_capacity(y.len());
 
         for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
+            // Stay away from 0 and 1, where the link function diverges
+            mu_data.push((y_val.max(0f64).min(1f64) + 0.5) / 2f64);
         }
 
         mu_data
@@ -385,13 +381,8 @@ impl Criterion for Binomial {
         let mut mu_data = Vec::with_capacity(y.len());
 
         for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
+            // Stay away from 0 and 1, where the link function diverges
+            mu_data.push((y_val.max(0f64).min(1f64) + 0.5) / 2f64);
         }
 
         mu_data
@@ -459,11 +450,8 @@ impl Criterion for Poisson {
         let mut mu_data = Vec::with_capacity(y.len());
 
         for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else {
-                *y_val
-            });
+            // Stay away from 0, where the link function diverges
+            mu_data.push(y_val.max(0f64) + 0.1);
         }
 
         mu_data
-- 
2.43.0


From 07f6b55f4a7c6189a739aef8d45773806fb6db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 04/20] fix: compare the first cost with no previous cost in
 gradient descent

The previous cost started at zero, so training stopped before or after
its first iteration whenever the first cost happened to be zero.
---
 src/learning/optim/grad_desc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 1e11487..c90345b 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -15,6 +15,8 @@ use rulinalg::utils;
 
 use learning::toolkit::rand_utils;
 
+use std::f64;
+
 const LEARNING_EPS: f64 = 1e-20;
 
 /// Batch Gradient Descent algorithm
@@ -76,7 +78,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for GradientDesc {
         // Create the initial optimal parameters
         let mut optimizing_val = Vector::new(start.to_vec());
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // Compute the cost and gradient for the current parameters
@@ -171,7 +173,7 @@ impl<M> OptimAlgorithm<M> for StochasticGD
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -270,7 +272,7 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -384,7 +386,7 @@ impl<M> OptimAlgorithm<M> for RMSProp
         // Set up indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost from the previous iteration
-        let mut prev_cost = 0f64;
+        let mut prev_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at end of each pass
-- 
2.43.0


From 36844a9105024f988562429d85bf75265d4d021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 05/20] fix: weight the kernel terms by the dual coefficients
 when training the SVM

---
 src/learning/svm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..5d1caef 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -155,8 +155,10 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .enumerate()
+                .fold(0f64, |sum, (j, row)| {
+                    sum + alpha[j] * targets[j] * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * (t as f64 + 1f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From dc3b963137470ee0255dd0163a92031c3b5cd3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 06/20] fix: return the k-th distance when adding to an
 unfilled k-nearest container

---
 src/learning/knn/mod.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index fe6d4c0..5ca6fb7 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -168,16 +168,10 @@ impl KNearest {
     }
 
     /// Add new index and distances to the container, keeping first k elements which
-    /// distances are smaller. Returns the updated farthest distance.
+    /// distances are smaller. Returns the updated k-th distance.
     fn add(&mut self, index: usize, distance: f64) -> f64 {
         // self.pairs can't be empty
         let len = self.pairs.len();
-        // index of the last element after the query
-        let last_index: usize = if len < self.k {
-            len
-        } else {
-            len - 1
-        };
 
         unsafe {
             if self.pairs.get_unchecked(len - 1).1 < distance {
@@ -185,7 +179,6 @@ impl KNearest {
                     // append to the last
                     self.pairs.push((index, distance));
                 }
-                self.pairs.get_unchecked(last_index).1
             } else {
                 // last element is already compared
                 if len >= self.k {
@@ -195,13 +188,13 @@ impl KNearest {
                 for i in 2..(len + 1) {
                     if self.pairs.get_unchecked(len - i).1 < distance {
                         self.pairs.insert(len - i + 1, (index, distance));
-                        return self.pairs.get_unchecked(last_index).1;
+                        return self.dist();
                     }
                 }
                 self.pairs.insert(0, (index, distance));
-                self.pairs.get_unchecked(last_index).1
             }
         }
+        self.dist()
     }
 
     /// Return the k-th distance with searching point
-- 
2.43.0


From 14ca7ae7af6b8a6fca55af113e9ef1b3f4b0f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 07/20] fix: keep rows that cannot be separated in one leaf of
 the k-nearest trees

---
 src/learning/knn/binary_tree.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index c9f3618..0fbee21 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -1,6 +1,7 @@
 //! Binary Tree implementations
 use std::borrow::Borrow;
 use std::collections::VecDeque;
+use std::f64;
 
 use linalg::{Matrix, BaseMatrix, Vector};
 use learning::error::Error;
@@ -273,9 +274,10 @@ impl<B: BinarySplit> BinaryTree<B> {
     /// - remains for right node
     /// - updated max for left node
     /// - updated min for right node
+    /// Returns `None` if the rows can't be separated
     fn select_split(&self, data: &Matrix<f64>, mut remains: Vec<usize>,
                     mut dmin: Vector<f64>, mut dmax: Vector<f64>)
-        -> (usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>){
+        -> Option<(usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>)> {
 
         // avoid recursive call
         loop {
@@ -290,6 +292,11 @@ impl<B: BinarySplit> BinaryTree<B> {
                 dmin.data().get_unchecked(dim) + d / 2.0
             };
 
+            if !(split > dmin[dim]) {
+                // the widest range is empty
+                return None;
+            }
+
             // split remains
             let mut l_remains: Vec<usize> = Vec::with_capacity(remains.len());
             let mut r_remains: Vec<usize> = Vec::with_capacity(remains.len());
@@ -307,12 +314,12 @@ impl<B: BinarySplit> BinaryTree<B> {
 
             if l_remains.is_empty() {
                 // all rows are in r_remains. re-split r_remains
+                dmin[dim] = column_range(data, &r_remains, dim).0;
                 remains = r_remains;
-                dmin[dim] = split;
             } else if r_remains.is_empty() {
                 // all rows are in l_remains. re-split l_remains
+                dmax[dim] = column_range(data, &l_remains, dim).1;
                 remains = l_remains;
-                dmax[dim] = split;
             } else {
                 // new hyper-rectangle's min / max
                 let mut l_max = dmax.clone();
@@ -323,7 +330,7 @@ impl<B: BinarySplit> BinaryTree<B> {
                 let mut r_min = dmin.clone();
                 r_min[dim] = split;
 
-                return (dim, split, l_remains, r_remains, l_max, r_min);
+                return Some((dim, split, l_remains, r_remains, l_max, r_min));
             }
         };
     }
@@ -338,7 +345,10 @@ impl<B: BinarySplit> BinaryTree<B> {
 
             // ToDo: avoid this clone
             let (dim, split, l_remains, r_remains, l_max, r_min) =
-                self.select_split(data, remains.clone(), dmin.clone(), dmax.clone());
+                match self.select_split(data, remains.clone(), dmin.clone(), dmax.clone()) {
+                    Some(s) => s,
+                    None => return Node::Leaf(Leaf::new(remains)),
+                };
 
             let l_node = self.split(data, l_remains, dmin.clone(), l_max);
             let g_node = self.split(data, r_remains, r_min, dmax.clone());
@@ -429,6 +439,13 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
 }
 
 
+/// min and max of a column over the given rows
+fn column_range(data: &Matrix<f64>, rows: &[usize], dim: usize) -> (f64, f64) {
+    rows.iter()
+        .map(|&r| data[[r, dim]])
+        .fold((f64::INFINITY, f64::NEG_INFINITY), |(lo, hi), v| (lo.min(v), hi.max(v)))
+}
+
 /// min
 fn min(data: &Matrix<f64>) -> Vector<f64> {
     // ToDo: use rulinalg .min (v0.4.1?)
-- 
2.43.0


From 719741b5e48a0dfdbd5380fb133a5ed425df18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 08/20] fix: assign border points to a cluster in DBSCAN

---
 src/learning/dbscan.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index e7bbdee..8c5cf34 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -190,6 +190,12 @@ impl DBSCAN {
                     self.expand_cluster(inputs, *data_point_idx, sub_neighbours, cluster);
                 }
             }
+
+            // Neighbours which are not in a cluster yet are on the border of this one
+            if let Some(ref mut clusters) = self.clusters {
+                let assigned = &mut clusters.mut_data()[*data_point_idx];
+                *assigned = assigned.or(Some(cluster));
+            }
         }
     }
 
-- 
2.43.0


From 3765c44f68c17a5c414eb86936ae06fb9cf0bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 09/20] fix: drop the DBSCAN cluster data of an earlier
 training

---
 src/learning/dbscan.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 8c5cf34..36e9b00 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -96,9 +96,11 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
             }
         }
 
-        if self.predictive {
-            self._cluster_data = Some(inputs.clone());
-        }
+        self._cluster_data = if self.predictive {
+            Some(inputs.clone())
+        } else {
+            None
+        };
 
         Ok(())
     }
-- 
2.43.0


From 575221f3e898a8a8ecb81db18b39e44eb91abe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 10/20] fix: keep the centroid of an empty k-means cluster

---
 src/learning/k_means.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..9647630 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,17 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (i, vec_i) in row_indexes.into_iter().enumerate() {
+            match self.centroids {
+                // A centroid without any points stays where it is
+                Some(ref centroids) if vec_i.is_empty() => {
+                    new_centroids.extend(centroids.select_rows(&[i]).into_vec());
+                }
+                _ => {
+                    let mat_i = inputs.select_rows(&vec_i);
+                    new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+                }
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From cb21be83c0cccc20bc09d58e14db2fdd20fe7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 11/20] fix: compare the first GMM log likelihood with no
 previous one

---
 src/learning/gmm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..134ff61 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -38,6 +38,8 @@ use learning::{LearningResult, UnSupModel};
 use learning::toolkit::rand_utils;
 use learning::error::{Error, ErrorKind};
 
+use std::f64;
+
 /// Covariance options for GMMs.
 ///
 /// - Full : The full covariance structure.
@@ -88,6 +90,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
             rand_utils::reservoir_sample(&(0..inputs.rows()).collect::<Vec<usize>>(), k);
         self.model_means = Some(inputs.select_rows(&random_rows));
 
+        // There is no previous likelihood to compare the first one with
+        self.log_lik = f64::NEG_INFINITY;
+
         for _ in 0..self.max_iters {
             let log_lik_0 = self.log_lik;
 
-- 
2.43.0


From f52e1edf617c58887c959d68c40910def02f4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 12/20] fix: return an error for a singular GMM covariance

---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 134ff61..c5e2843 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -266,7 +266,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From 8a9a966f3bd1875c07def78cb29b30c854715f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 13/20] fix: regularize the GMM covariances after normalising
 them

---
 src/learning/gmm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index c5e2843..fd0bde8 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -332,12 +332,13 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
+
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
-
+            new_covs.push(cov_mat);
         }
 
         self.model_means = Some(new_means);
-- 
2.43.0


From e7ba1c93bd2f8d9d5419d3fa78a5ed312618b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 14/20] fix: refuse GMM mixture weights that are all zero

---
 src/learning/gmm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index fd0bde8..0c77f0f 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -172,6 +172,8 @@ impl GaussianMixtureModel {
             Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have length k."))
         } else if mixture_weights.data().iter().any(|&x| x < 0f64) {
             Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have only non-negative entries."))
+        } else if mixture_weights.data().iter().all(|&x| x == 0f64) {
+            Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have a positive entry."))
         } else {
             let sum = mixture_weights.sum();
             let normalized_weights = mixture_weights / sum;
-- 
2.43.0


From f69c3bf34be00754ae98f93526943bcbc0aa9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 15/20] fix: naive Bayes never predicts a class without
 training data

Their log-probabilities were NaN (Gaussian) or those of arbitrary
parameters (Bernoulli), and NaN made argmax return the first class.
---
 src/learning/naive_bayes.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..643d1a1 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -45,6 +45,7 @@ use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 use rulinalg::utils;
 
+use std::f64;
 use std::f64::consts::PI;
 
 /// The Naive Bayes model.
@@ -139,7 +140,19 @@ impl<T: Distribution> NaiveBayes<T> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
             // Get the joint log likelihood from the distribution
-            distr.joint_log_lik(inputs, prior)
+            let mut log_probs = distr.joint_log_lik(inputs, prior)?;
+
+            // A class without training data has no fitted distribution (its
+            // likelihood can even be NaN), and zero probability
+            for mut row in log_probs.row_iter_mut() {
+                for (log_prob, p) in row.raw_slice_mut().iter_mut().zip(prior.iter()) {
+                    if *p == 0f64 {
+                        *log_prob = f64::NEG_INFINITY;
+                    }
+                }
+            }
+
+            Ok(log_probs)
         } else {
             Err(Error::new_untrained())
         }
-- 
2.43.0


From 824b548c658db30334064af30698d682db5281f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 16/20] fix: naive Bayes refuses inputs and targets of
 different lengths

---
 src/learning/naive_bayes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index 643d1a1..41c9833 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -108,6 +108,11 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets must have the same number of rows"));
+        }
+
         self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
         self.update_params(inputs, targets)
     }
-- 
2.43.0


From 4fc5a919149bbfafd7cf558d6a146693dbc25f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 17/20] fix: a failed naive Bayes training leaves the model
 unchanged

---
 src/learning/naive_bayes.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index 41c9833..a41a455 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -113,7 +113,6 @@ impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
                                   "Inputs and targets must have the same number of rows"));
         }
 
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
         self.update_params(inputs, targets)
     }
 
@@ -167,7 +166,9 @@ impl<T: Distribution> NaiveBayes<T> {
         let class_count = targets.cols();
         let total_data = inputs.rows();
 
-        self.class_counts = vec![0; class_count];
+        // The model is only changed once everything has succeeded
+        let mut distr = T::from_model_params(class_count, inputs.cols());
+        let mut class_counts = vec![0; class_count];
         let mut class_data = vec![Vec::new(); class_count];
 
         for (idx, row) in targets.row_iter().enumerate() {
@@ -176,27 +177,27 @@ impl<T: Distribution> NaiveBayes<T> {
 
             // Note the class of the input
             class_data[class].push(idx);
-            self.class_counts[class] += 1;
+            class_counts[class] += 1;
         }
 
-        if let Some(ref mut distr) = self.distr {
-            for (idx, c) in class_data.into_iter().enumerate() {
-                // If this class' vector has not been populated, we can safely
-                // skip this iteration, since the user is clearly not interested
-                // in associating features with this class
-                if c.is_empty() {
-                    continue;
-                }
-                // Update the parameters within this class
-                distr.update_params(&inputs.select_rows(&c), idx)?;
+        for (idx, c) in class_data.into_iter().enumerate() {
+            // If this class' vector has not been populated, we can safely
+            // skip this iteration, since the user is clearly not interested
+            // in associating features with this class
+            if c.is_empty() {
+                continue;
             }
+            // Update the parameters within this class
+            distr.update_params(&inputs.select_rows(&c), idx)?;
         }
 
         let mut class_prior = Vec::with_capacity(class_count);
 
         // Compute the prior as the proportion in each class
-        class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));
+        class_prior.extend(class_counts.iter().map(|c| *c as f64 / total_data as f64));
 
+        self.distr = Some(distr);
+        self.class_counts = class_counts;
         self.class_prior = Some(class_prior);
         self.cluster_count = Some(class_count);
         Ok(())
-- 
2.43.0


From 499c9311064ba734687317f89857226a118b4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 18/20] fix: PCA forgets the orientation of an earlier training

A model trained on wide data and then on long data multiplied with the
transposed components.
---
 src/learning/pca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..8767c5d 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -182,9 +182,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
-        if inputs.cols() > inputs.rows() {
+        self.inv = inputs.cols() > inputs.rows();
+        if self.inv {
             v = v.transpose();
-            self.inv = true;
         }
 
         self.components = match self.n {
-- 
2.43.0


From 7e93923f3e9cb7c38f7489fcd6e7b63df4b3c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 19/20] fix: PCA selects the first n components of wide data

The components of wide data are the rows of the matrix, but n columns
were selected, which left a matrix of a wrong shape.
---
 src/learning/pca.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 8767c5d..58b6d7c 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -170,6 +170,10 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
                     return Err(Error::new(ErrorKind::InvalidData,
                                "Input data must have equal or larger number of columns than n"));
                 }
+                if n > inputs.rows() {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                               "Input data must have equal or larger number of rows than n"));
+                }
             }
         }
 
@@ -190,7 +194,12 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
         self.components = match self.n {
             Some(c) => {
                 let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
+                if self.inv {
+                    // the components are the rows
+                    Some(v.select_rows(&slicer))
+                } else {
+                    Some(v.select_cols(&slicer))
+                }
             },
             None => Some(v)
         };
-- 
2.43.0


From e1aec450b8fdabb9b8527b696f27a218c6dc191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 20/20] fix: training a generalised linear model on singular
 data is an error

---
 src/learning/glm.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index 550d8ed..7a347ff 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -118,9 +118,7 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
             let x_t_w = &x_t * w;
 
             let new_beta = (&x_t_w * &full_inputs)
-                .inverse()
-                .expect("Could not compute input data inverse.") *
-                           x_t_w * z;
+                .inverse()? * x_t_w * z;
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
 
-- 
2.43.0

