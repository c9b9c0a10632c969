From cda8b2f49df7d74f775180f682d0247c6fea1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 01/27] fix: order graphs with isolated vertices or several
 components

Graph::from_edges dropped isolated vertices after the last connected one, and
reverse_cuthill_mckee only visited the component of vertex 0, so the envelope
solvers panicked on diagonal or decoupled systems.
---
 src/matrix/graph.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..6a35e72 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,11 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // vertices past the last one with an edge are isolated
+        while v_count > res.indices.len() {
+            res.indices.push(res.adjacent.len());
+        }
+
         res
     }
 
@@ -189,7 +194,13 @@ impl Graph {
         // identify a pseudoperipheral node of the graph by George and Liu's method
 
         // choose an arbitrary starting node
-        let mut x = 0;
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, start: usize) -> usize {
+        // identify a pseudoperipheral node of the component containing start
+
+        let mut x = start;
         let mut longest = 0;
 
         loop {
@@ -208,12 +219,18 @@ impl Graph {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
         let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
-
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
         for i in 0..self.vertex_count() {
+            if i == ordering.len() {
+                // a connected component is exhausted (or this is the first one)
+                // continue from a pseudoperipheral node of the next component
+                let start = mask.iter().position(|&unvisited| unvisited).unwrap();
+                let root = self.pseudo_peripheral_from(start);
+                mask[root] = false;
+                ordering.push(root);
+            }
+
             let adj = self.adjacent_masked(ordering[i], &mask);
 
             for a in adj {
-- 
2.43.0


From e1bf07df5b61276d9466916ac1ee8a59ae0b8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 02/27] fix: pivot gaussian elimination on magnitude and report
 singular systems

The pivot was the greatest signed value, so a column whose only non-zero
entries are negative gave a zero pivot and a NaN solution.
---
 src/matrix/inverse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..9060514 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -36,17 +36,18 @@ where
 
         // triangularize the matrix
         for col in 0..dim {
-            // find the row with the greatest value in the current column
+            // find the row with the greatest magnitude in the current column
             // (after finished rows)
             let max = self
                 .col(col)
+                .map(|x| x.abs())
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
-            if max == None {
-                return Err(MatrixError::solve("no non-zero values remain in column"));
-            }
-            let (max_idx, _) = max.unwrap();
+                .max_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
+            let max_idx = match max {
+                Some((idx, val)) if val != 0.0 => idx,
+                _ => return Err(MatrixError::solve("no non-zero values remain in column")),
+            };
 
             self.swap_rows(col, max_idx);
             b.swap_rows(col, max_idx);
-- 
2.43.0


From d00eb96a1b8cb30459f7867c3c71773f95c9f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 03/27] fix: check the shape and length given to
 ConstMatrix::from_flat

An empty iterator passed for a 1x1 matrix, and a shape that does not match the
buffer gave a matrix that reads out of bounds.
---
 src/matrix/buffer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index 947c61b..e22e51b 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -658,17 +658,18 @@ impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
         // turn a row-major vector of values into a matrix
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
+        assert_eq!(dims.0 * dims.1, SIZE, "provided shape does not match size");
 
         let mut arr_data = [0.0; SIZE];
-        let mut last = 0;
+        let mut count = 0;
 
         for (i, x) in data.into_iter().enumerate() {
             assert!(i < SIZE, "provided iterator too long");
             arr_data[i] = x;
-            last = i;
+            count += 1;
         }
 
-        assert_eq!(last, SIZE - 1, "provided iterator too short");
+        assert_eq!(count, SIZE, "provided iterator too short");
 
         Self {
             dims,
-- 
2.43.0


From 30bb9a89c092a2b4b6ac217f861dcd8a1d1e3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 04/27] fix: give an all-zero CompressedRow its row starts

In-bounds reads and products of CompressedRow::zeros panicked.
---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..955eff4 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -691,7 +691,7 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
-- 
2.43.0


From 0cf7e6bd04de5484fdce6fa9a0d44163cd64097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:55 +0000
Subject: [PATCH 05/27] fix: give rows without entries an empty range in
 Dictionary::row_bounds

The range ran backwards, so building a BiEnvelope from a matrix with an empty
row (a mass matrix with massless degrees of freedom) overflowed.
---
 src/matrix/sparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 955eff4..af47182 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -474,6 +474,13 @@ impl Dictionary {
             bnd[r].1 = bnd[r].1.max(c + 1);
         }
 
+        // rows without entries get an empty range
+        for (r, b) in bnd.iter_mut().enumerate() {
+            if b.1 == 0 {
+                *b = (r, r);
+            }
+        }
+
         bnd
     }
 
-- 
2.43.0


From cf2674413671ffb0eba6cb12b8e4e8e625672c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 06/27] fix: swap the shape in Dictionary::transposed

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index af47182..f6b7c65 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -527,7 +527,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From 5262a95a1e1fce2c9345d69dee05304d5bb4a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 07/27] fix: do not read the output buffer in envelope forward
 substitution

The diagonal was included in the dot product, so the solution was only right
when the output slice happened to hold zeros.
---
 src/matrix/sparse.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index f6b7c65..e932870 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -240,6 +240,7 @@ impl LowerRowEnvelope {
 
         for i in 0..self.n {
             let (start_col, row_stored) = self.row_stored(i);
+            let (diag, row_stored) = row_stored.split_last().unwrap();
 
             let dot: f64 = row_stored
                 .iter()
@@ -247,7 +248,7 @@ impl LowerRowEnvelope {
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-            x[i] = (b[i] - dot) / row_stored.last().unwrap();
+            x[i] = (b[i] - dot) / diag;
         }
     }
 
@@ -269,7 +270,7 @@ impl LowerRowEnvelope {
                 0
             };
 
-            let row_stored = &row_stored[offset..];
+            let (diag, row_stored) = row_stored[offset..].split_last().unwrap();
             let start_col = start_col + offset;
 
             let sub_start_col = start_col - range.0;
@@ -279,7 +280,7 @@ impl LowerRowEnvelope {
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-            x[sub_i] = (b[sub_i] - dot) / row_stored.last().unwrap();
+            x[sub_i] = (b[sub_i] - dot) / diag;
         }
     }
 
-- 
2.43.0


From 030bbe2943593c70c2297179cc77327ad66390f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 08/27] fix: pivot when inverting matrices larger than 2x2

---
 src/matrix/inverse.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 9060514..dd51761 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -190,6 +190,36 @@ where
             return Self::from_flat((2, 2), vec![d, -1.0 * b, -1.0 * c, a]);
         }
 
-        self.inv_lu()
+        // Gauss-Jordan elimination with partial pivoting
+        let n = self.shape().0;
+        let mut a = self.clone();
+        let mut inv = Self::eye(n);
+
+        for col in 0..n {
+            let pivot = (col..n).fold(col, |best, row| {
+                if a[(row, col)].abs() > a[(best, col)].abs() {
+                    row
+                } else {
+                    best
+                }
+            });
+            a.swap_rows(col, pivot);
+            inv.swap_rows(col, pivot);
+
+            let scaling = a[(col, col)];
+            a.mutate_row(col, |x| *x /= scaling);
+            inv.mutate_row(col, |x| *x /= scaling);
+
+            for row in (0..n).filter(|&row| row != col) {
+                let scaling = a[(row, col)];
+                for i in 0..n {
+                    let (x, y) = (a[(col, i)], inv[(col, i)]);
+                    a[(row, i)] -= x * scaling;
+                    inv[(row, i)] -= y * scaling;
+                }
+            }
+        }
+
+        inv
     }
 }
-- 
2.43.0


From f6a36ef75e6b28c38779ffc741e0e84445a8643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 09/27] fix: stiffness of elements with clockwise node order

---
 src/element/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..24ff5dc 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,7 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            inter *= mats.det_j.abs(); // area scaling does not depend on the node order
             inter *= mats.thickness;
             mats.b.transpose();
 
-- 
2.43.0


From f864ffef5883d5db66ad638a00b24948007f5f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 10/27] fix: integrate the element mass over the real element
 area

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 24ff5dc..43aefe4 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -231,11 +231,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * scaling * (det J) * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From cd247f2c0e6b943b713a6746f60d956334f0616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 11/27] fix: accumulate loads, apply each edge load once

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..6082def 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -250,7 +250,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -259,8 +259,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // an interior edge belongs to two elements, its load is applied once
+                    break;
                 }
             }
         }
-- 
2.43.0


From c430d861979d50a168ae8d224a3f7b72b6c27415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 12/27] fix: adding a constraint never releases or ignores a
 restraint

---
 src/element/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 6082def..7fb3f1f 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -189,6 +189,7 @@ impl ElementAssemblage {
 
     pub fn add_constraint(&mut self, n: NodeId, constraint: Constraint) {
         match (self.constraints[n.0], constraint) {
+            (_, Constraint::Free) => {}
             (Constraint::Free, c) => {
                 self.constraints[n.0] = c;
             }
@@ -204,6 +205,9 @@ impl ElementAssemblage {
             (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
+            (_, Constraint::XYFixed) => {
+                self.constraints[n.0] = Constraint::XYFixed;
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 866552ed84d427fd4e497bcdaa5aea7cb76c6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 13/27] fix: read back the text form of a free constraint

---
 src/element/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index b6ae8f8..0af8249 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -38,6 +38,7 @@ impl FromStr for Constraint {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         // parse as a string like xy, xz, y, where presence of a dim means it is struck
         match s {
+            "free" => Ok(Constraint::Free),
             "x" => Ok(Constraint::XFixed),
             "y" => Ok(Constraint::YFixed),
             "xy" => Ok(Constraint::XYFixed),
-- 
2.43.0


From 67169985ca548146f9d3c86bc12937952ce1e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 14/27] fix: factor a system without degrees of freedom

---
 src/matrix/solve/direct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..80794c6 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -104,6 +104,11 @@ pub fn cholesky_envelope(a: &LowerRowEnvelope) -> LowerRowEnvelope {
 
     let mut l = LowerRowEnvelope::from_envelope(envelope);
 
+    if a.shape().0 == 0 {
+        // nothing to factor in a system without degrees of freedom
+        return l;
+    }
+
     l[(0, 0)] = a[(0, 0)].sqrt();
 
     let mut w = Vec::new();
-- 
2.43.0


From 5c0f0438f86fdc90133ce0fafc9cf2f6e9c98aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 15/27] fix: fill both halves of the Cauchy stress tensor

---
 src/element/stress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..0035416 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -91,7 +91,7 @@ impl StressState {
 
         let mut res = LinearMatrix::zeros(dim);
         for r in 0..dim {
-            for c in r..dim {
+            for c in 0..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
             }
         }
-- 
2.43.0


From fa06dae68b126a6b73b472c331ca3edfa66c2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 16/27] fix: von Mises criterion of plane and uniaxial stress

---
 src/element/stress.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index 0035416..2062e13 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -102,9 +102,14 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                // no stress through the depth
+                let normals = (self.data[0] - self.data[1]).powi(2)
+                    + self.data[1].powi(2)
+                    + self.data[0].powi(2);
+                let shear = self.data[2].powi(2);
+                (0.5 * normals + 3.0 * shear).sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From a3f3415b1386977c06136f50d04fe96d370c59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 17/27] fix: refuse a matrix that is not positive definite in
 the Cholesky solver

---
 src/matrix/solve/direct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index 80794c6..3cbbc77 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -77,6 +77,11 @@ impl Solver for CholeskyEnvelopeSolver {
         );
         let t = Instant::now();
 
+        // a pivot that is not positive (or nan) means K is not positive definite
+        if !(0..dofs).all(|i| chol[(i, i)] > 0.0) {
+            return Err(());
+        }
+
         let mut x = vec![0.0; dofs];
         solve_ll(&chol, &self.r, &mut x);
 
-- 
2.43.0


From 02415e20c6ca5d57722b85e8fd1b9062bfe816c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 18/27] fix: let the iteration converge on an unloaded system

---
 src/matrix/solve/iterative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..a1765ae 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,8 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        // no division: u is zero when there is no load
+        if diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From 3a99ea60bedde207891a6c64e746908b75d11f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 19/27] fix: modal analysis of bodies whose mass couples what
 stiffness does not

---
 src/matrix/solve/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix/solve/mod.rs b/src/matrix/solve/mod.rs
index f573192..2afc5fe 100644
--- a/src/matrix/solve/mod.rs
+++ b/src/matrix/solve/mod.rs
@@ -132,6 +132,8 @@ impl System {
 
         for ((r, c), x) in m.nzs() {
             m_mat[(r, c)] = x;
+            // K keeps room for the coupling of M, its own coefficient there may cancel to zero
+            k_mat[(r, c)] += 0.0;
         }
 
         res.k_mat = Some(k_mat);
-- 
2.43.0


From fc62b249fc9fc9120dbf4609dcce72a4a8eb53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 20/27] fix: in_sphere lifted points with y squared in place of
 z squared

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..c63c856 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -111,27 +111,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From 100a5bd52692a6821144c6c78d8670ec0722808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:56 +0000
Subject: [PATCH 21/27] fix: pictures of coincident nodes

A single node, or nodes that all coincide, have no extent: the scale became infinite, the pixel NaN and the dot underflowed.
---
 src/visual/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..06338e7 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -145,7 +145,12 @@ impl Visualizer {
 
         // want to bring the range down to 80% of the image width
         let target_range = 0.8 * (self.im_size as f64);
-        let scaling = target_range / max_range;
+        // coincident points have no extent to scale, they all go in the middle
+        let scaling = if max_range > 0.0 {
+            target_range / max_range
+        } else {
+            1.0
+        };
 
         let middle_x = (x_max + x_min) / 2.0;
         let middle_y = (y_max + y_min) / 2.0;
-- 
2.43.0


From 06f38f04c9cced10d3fdbbc6be671834f56d280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 22/27] fix: points on a triangle's first edge rounded out of
 the triangle

The third weight was one minus the others and came out as -1e-17 on the edge from p1 to p2, so pixels on an edge shared by two triangles that both list it first stayed unfilled.
---
 src/spatial/predicates.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index c63c856..6048572 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -53,7 +53,8 @@ pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     let denom = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3);
     let a = ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) / denom;
     let b = ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) / denom;
-    let c = 1.0 - a - b;
+    // not 1 - a - b, which rounds to just below zero on the edge from p1 to p2
+    let c = ((y1 - y2) * (x - x1) + (x2 - x1) * (y - y1)) / denom;
     (a, b, c)
 }
 
-- 
2.43.0


From e083371a9f19bb9aea2dc63a37aabd2548b5ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 23/27] fix: equal node values normalised to NaN

With no spread between the values the normalisation divided zero by zero, and the colour map was asked for NaN (full heat on the hot map).
---
 src/visual/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 06338e7..201c68b 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -93,8 +93,14 @@ impl Visualizer {
 
         let range = max - min;
 
-        vals.iter_mut()
-            .for_each(|x| *x = ((*x - min) / range).clamp(0.0, 1.0));
+        vals.iter_mut().for_each(|x| {
+            // equal values are all at the bottom of the scale
+            *x = if range > 0.0 {
+                ((*x - min) / range).clamp(0.0, 1.0)
+            } else {
+                0.0
+            }
+        });
         self.node_vals = Some(vals);
     }
 
-- 
2.43.0


From 675a296ca61b1a44bbfad76f89756a32c93365f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 24/27] fix: edges shared by two elements were listed once in
 each direction

Duplicates were only removed when both elements list the edge the same way round, which neighbours of equal orientation never do.
---
 src/element/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 7fb3f1f..7ae722e 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -358,6 +358,10 @@ impl ElementAssemblage {
         for el in self.elements.iter() {
             res.extend(el.edges().into_iter().map(|x| (x.0 .0, x.1 .0)))
         }
+        // neighbours list a shared edge in opposite directions
+        for e in res.iter_mut() {
+            *e = (e.0.min(e.1), e.0.max(e.1));
+        }
         // clear out the duplicates
         res.sort();
         res.dedup();
-- 
2.43.0


From 5eba195bc706e6fdea10f5a6c65bed7b468002c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 25/27] fix: overflow of the iteration was taken for
 convergence

---
 src/matrix/solve/iterative.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index a1765ae..178b931 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -83,7 +83,8 @@ pub(super) fn gauss_seidel(
         u = new_u;
 
         // no division: u is zero when there is no load
-        if diff_norm <= tol * u.frobenius() {
+        // and an infinite change is no convergence, even of an infinite u
+        if diff_norm.is_finite() && diff_norm <= tol * u.frobenius() {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From 20328ad328215d6f7202d0e2d1752aa06730a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:24 +0000
Subject: [PATCH 26/27] fix: refuse to invert non-square matrices

---
 src/matrix/inverse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index dd51761..13af65c 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -192,6 +192,9 @@ where
 
         // Gauss-Jordan elimination with partial pivoting
         let n = self.shape().0;
+        if n != self.shape().1 {
+            panic!("non-square matrix");
+        }
         let mut a = self.clone();
         let mut inv = Self::eye(n);
 
-- 
2.43.0


From c2e39dc2f0238a9659972c9e5afbe3f599f73165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:48 +0000
Subject: [PATCH 27/27] fix: a mass matrix smaller than the stiffness is
 refused

---
 src/matrix/solve/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matrix/solve/mod.rs b/src/matrix/solve/mod.rs
index 2afc5fe..f8b81a4 100644
--- a/src/matrix/solve/mod.rs
+++ b/src/matrix/solve/mod.rs
@@ -120,6 +120,7 @@ impl System {
         let dofs = k.shape().0;
         assert_eq!(k.shape().0, k.shape().1);
         assert_eq!(m.shape().0, m.shape().1);
+        assert_eq!(m.shape().0, dofs, "k and m sizes disagree");
 
         let mut res = Self::new(dofs);
 
-- 
2.43.0

