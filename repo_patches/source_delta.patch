From 2a9329ddadae39e18bf049cf373dc46fad1faf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 01/25] fix: get_basis_spec returns an Err for an elem id equal
 to the number of Elems

---
 src/fem_domain/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
-- 
2.43.0


From c37a4716e7989f711bd31dacdd1b16119a361fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 02/25] fix: descendant_edges returns an Err for an edge id
 equal to the number of Edges

---
 src/fem_domain/domain/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From d6403cda7acf58270294c8f1090bf4946f6a6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 03/25] fix: max_uv_ratio takes the maximum of both ratios

---
 src/fem_domain/basis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..eca7277 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -334,7 +334,7 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
         let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r1 = self.jac[m][n].v[1] / self.jac[m][n].u[0];
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0


From b14d950cc1cf5ce8db15d90daed8cb78d79d14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 04/25] fix: field evaluation and VTK cells with different x
 and y densities

---
 src/fem_domain/domain/fields.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From aece6056ed89dc696e732d735b8f9534b08574c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 05/25] fix: sums of p-refinements no longer overflow

---
 src/fem_domain/domain/mesh/p_refinement.rs | 42 ++++++++++++----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..275c6d2 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -94,10 +94,12 @@ impl From<PolyOrders> for JsonValue {
 }
 
 // the internal p-refinement type
+//
+// deltas are stored with more bits than an expansion order, so that adding refinements together cannot overflow
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    Increment(u32),
+    Decrement(u32),
     None,
 }
 
@@ -105,17 +107,17 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                if delta.saturating_add(n as u32) > MAX_POLYNOMIAL_ORDER as u32 {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(n + *delta as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= n as u32 {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,33 +127,37 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d as u32),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u32),
             _ => unreachable!(),
         }
     }
 
-    pub fn as_i8(&self) -> i8 {
+    fn as_i64(&self) -> i64 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => *delta as i64,
+            Self::Decrement(delta) => -(*delta as i64),
         }
     }
 
+    pub fn as_i8(&self) -> i8 {
+        self.as_i64().clamp(i8::MIN as i64, i8::MAX as i64) as i8
+    }
+
     pub fn constrain(&mut self, bounds: [i8; 2]) {
-        let si = self.as_i8();
+        let si = self.as_i64();
 
-        if si < bounds[0] {
+        if si < bounds[0] as i64 {
             *self = Self::from_i8(bounds[0]);
-        } else if si > bounds[1] {
+        } else if si > bounds[1] as i64 {
             *self = Self::from_i8(bounds[1]);
         }
     }
 
     pub fn within(&self, bounds: [i8; 2]) -> bool {
-        let si = self.as_i8();
-        si >= bounds[0] && si <= bounds[1]
+        let si = self.as_i64();
+        si >= bounds[0] as i64 && si <= bounds[1] as i64
     }
 }
 
@@ -159,7 +165,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +174,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From 73029614fb5f1ba6e4b627ca650883d951bc0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 06/25] fix: a rejected p-refinement leaves both expansion
 orders unchanged

---
 src/fem_domain/domain/mesh/p_refinement.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index 275c6d2..d9ae20e 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -18,8 +18,11 @@ impl PolyOrders {
     ///
     /// Return an `Err` if the refinement causes the expansion orders to fall outside of the valid range
     pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
-        self.ni = refinement.refine_i(self.ni)?;
-        self.nj = refinement.refine_j(self.nj)?;
+        let ni = refinement.refine_i(self.ni)?;
+        let nj = refinement.refine_j(self.nj)?;
+
+        self.ni = ni;
+        self.nj = nj;
 
         Ok(())
     }
-- 
2.43.0


From 8047e12ad8b01f32d62a1aabf74d25948f0bf523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 07/25] fix: combining h-refinements no longer drops an
 extended refinement

---
 src/fem_domain/domain/mesh/h_refinement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..c152778 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -161,11 +161,13 @@ impl AddAssign for HRef {
         match self {
             HRef::T => (),
             HRef::U(None) => match rhs {
+                HRef::U(Some(_)) => *self = rhs,
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
                 _ => (),
             },
             HRef::V(None) => match rhs {
+                HRef::V(Some(_)) => *self = rhs,
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
                 _ => (),
-- 
2.43.0


From 3a5f526e14c67d3d831a60706f494b115eb0b0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 08/25] fix: execute_h_refinements finds errors before the mesh
 is modified

---
 Cargo.lock                    |  4 ++--
 src/fem_domain/domain/mesh.rs | 42 +++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 184fedc..5f12752 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "approx"
@@ -87,7 +87,7 @@ checksum = "e78d4f1cc4ae33bbfc157ed5d5a5ef3bc29227303d595861deb238fcec4e9457"
 
 [[package]]
 name = "fem_2d"
-version = "0.2.1"
+version = "0.2.2"
 dependencies = [
  "bytes",
  "json",
diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..c3451ed 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -859,6 +859,11 @@ impl Mesh {
             }
         }
 
+        // find any errors before the mesh is modified, such that either all or none of the refinements are executed
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.check_h_refinement(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -913,6 +918,43 @@ impl Mesh {
         Ok(())
     }
 
+    // Check that an h-refineable Elem can undergo a refinement (including the extension) without exceeding the minimum Edge length
+    fn check_h_refinement(&self, elem_id: usize, refinement: HRef) -> Result<(), HRefError> {
+        let edges = self.elems[elem_id].edges;
+
+        let (refined_edges, extension) = match refinement {
+            HRef::T => (&edges[..], None),
+            HRef::U(extension) => (&edges[0..2], extension.map(|idx| (idx, &edges[2..4]))),
+            HRef::V(extension) => (&edges[2..4], extension.map(|idx| (idx, &edges[0..2]))),
+        };
+
+        for edge_id in refined_edges {
+            if self.edges[*edge_id].length / 2.0 < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(*edge_id));
+            }
+        }
+
+        if let Some((child_idx, ext_edges)) = extension {
+            if child_idx > 1 {
+                return Err(HRefError::BisectionIdxExceeded);
+            }
+
+            // the child Elem must be h-refineable itself
+            for edge_id in refined_edges {
+                if self.edges[*edge_id].length / 2.0 <= MIN_EDGE_LENGTH {
+                    return Err(HRefError::MinEdgeLength(*edge_id));
+                }
+            }
+            for edge_id in ext_edges {
+                if self.edges[*edge_id].length / 2.0 < MIN_EDGE_LENGTH {
+                    return Err(HRefError::MinEdgeLength(*edge_id));
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
-- 
2.43.0


From 9e04bc26ba0d9a2aaa7adeebb11c37ad01df8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 09/25] fix: points at zero and at minus zero are the same
 point

---
 src/fem_domain/domain/mesh/space.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..2d918e5 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -353,7 +353,8 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            // negative values that round to zero are the same as zero
+            sign: value.is_sign_positive() || total_rounded == 0.0,
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From 43ddb89dfed469440c741c87fb2bfa1873aabeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 10/25] fix: solver files are removed when the solution cannot
 be retrieved

---
 src/fem_problem/linalg/slepc_solve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..918c29b 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -38,9 +38,9 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix);
                     clean_directory(&dir, &prefix)?;
-                    Ok(solution)
+                    Ok(solution?)
                 } else {
                     clean_directory(&dir, &prefix)?;
 
-- 
2.43.0


From b661c289cc9c452e9c92b6cfe5f768ed95efb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 11/25] fix: a malformed eigenvector file is an error instead
 of a panic

---
 src/fem_problem/linalg/slepc_solve.rs | 31 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 918c29b..61f1fb3 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -8,7 +8,7 @@ use std::time::SystemTime;
 use bytes::{Buf, BytesMut};
 use std::env::var_os;
 use std::fs::File;
-use std::io::Read;
+use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
 
 pub fn slepc_solve_gep(
@@ -116,12 +116,29 @@ fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
     header_bytes.resize(8, 0);
     vec_file.read_exact(&mut header_bytes)?;
 
-    assert_eq!(header_bytes.get_i32(), 1211214_i32); // ensure this is a PETSC vector file
-    let m = header_bytes.get_i32() as usize;
-
-    let mut value_bytes = BytesMut::new();
-    value_bytes.resize(m * 8, 0);
-    vec_file.read_exact(&mut value_bytes)?;
+    // ensure this is a PETSC vector file
+    if header_bytes.get_i32() != 1211214_i32 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Eigenvector file is not a PETSC vector file!",
+        ));
+    }
+    let m = usize::try_from(header_bytes.get_i32()).map_err(|_| {
+        Error::new(
+            ErrorKind::InvalidData,
+            "Eigenvector file has a negative length!",
+        )
+    })?;
+
+    let mut value_bytes = Vec::new();
+    vec_file.read_to_end(&mut value_bytes)?;
+    if value_bytes.len() < m * 8 {
+        return Err(Error::new(
+            ErrorKind::UnexpectedEof,
+            "Eigenvector file is shorter than its stated length!",
+        ));
+    }
+    let mut value_bytes = BytesMut::from(&value_bytes[..]);
 
     let mut values = Vec::with_capacity(m);
     for _ in 0..m {
-- 
2.43.0


From 4d7d4b3f03aca7d82b7db9d3f4b76ad9004fa881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 12/25] fix: connect the Elem of a unit Mesh to its Edges and
 Nodes

---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index c3451ed..f9ec734 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From 1b9cc99912d3da30f8061838c5739091644cd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 13/25] fix: the product of two 2x2 matrices multiplies by the
 second matrix, not its transpose

---
 src/fem_domain/domain/mesh/space.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index 2d918e5..439e904 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -167,9 +167,11 @@ impl Div<f64> for M2D {
 impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
+        // the rows of the transpose are the columns of `other`
+        let other_t = other.transpose();
         Self {
-            u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
-            v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
+            u: V2D::from([self.u.dot_with(&other_t.u), self.u.dot_with(&other_t.v)]),
+            v: V2D::from([self.v.dot_with(&other_t.u), self.v.dot_with(&other_t.v)]),
         }
     }
 }
-- 
2.43.0


From d60f45d257389d14be6bef5a4105b690e1b458b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:33 +0000
Subject: [PATCH 14/25] fix: write_to_petsc_binary_format writes the whole
 matrix in the binary format

---
 src/fem_problem/linalg/sparse_matrix.rs | 36 +------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..b4e6bc0 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -127,41 +127,7 @@ impl SparseMatrix {
     }
 
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        Ok(())
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 0d5d440f642d7444d5bd9f3f9bb2158c106fc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 15/25] fix: Gauss-Legendre weights are computed from the
 points, eigenvectors were wrong for 136 points

---
 src/fem_problem/integration/glq.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/fem_problem/integration/glq.rs b/src/fem_problem/integration/glq.rs
index 3e2a076..88b9939 100644
--- a/src/fem_problem/integration/glq.rs
+++ b/src/fem_problem/integration/glq.rs
@@ -196,14 +196,7 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
     let mut xw: Vec<(f64, f64)> = eigen_decomp
         .eigenvalues
         .iter()
-        .cloned()
-        .zip(
-            eigen_decomp
-                .eigenvectors
-                .row(0)
-                .iter()
-                .map(|weight| (*weight).powi(2) * 2.0),
-        )
+        .map(|point| (*point, gauss_quadrature_weight(n, *point)))
         .collect();
 
     xw.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
@@ -221,6 +214,21 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
     (points, weights)
 }
 
+// Weight of an n-point rule at the given point: `2 / Σ (2k + 1) P_k(x)^2` for `k` in `0..n`
+// (the eigenvectors of the Jacobi matrix are not accurate enough for this for some `n`)
+fn gauss_quadrature_weight(n: usize, x: f64) -> f64 {
+    let (mut p_prev, mut p) = (0.0, 1.0);
+    let mut sum = 0.0;
+    for k in 0..n {
+        let k_ = k as f64;
+        sum += (2.0 * k_ + 1.0) * p * p;
+        let p_next = ((2.0 * k_ + 1.0) * x * p - k_ * p_prev) / (k_ + 1.0);
+        p_prev = p;
+        p = p_next;
+    }
+    2.0 / sum
+}
+
 /// Scale a set of Gauss-Legendre-Quadrature Integration points to fall within a specific range
 ///
 /// ```
-- 
2.43.0


From 01815252f6c3ff124e0100a17ed43bc53cf0239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 16/25] fix: give simultaneous slepc_solve_gep calls different
 file prefixes

---
 src/fem_problem/linalg/slepc_solve.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 61f1fb3..c2d4212 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -10,6 +10,7 @@ use std::env::var_os;
 use std::fs::File;
 use std::io::{Error, ErrorKind, Read};
 use std::process::Command;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 pub fn slepc_solve_gep(
     gep: GEP,
@@ -166,6 +167,12 @@ fn unique_prefix() -> String {
         .unwrap();
     let mut hasher = DefaultHasher::new();
     t_now.hash(&mut hasher);
+
+    // the time alone is the same for calls that start within the clock's resolution of each other
+    static CALL_COUNT: AtomicUsize = AtomicUsize::new(0);
+    CALL_COUNT.fetch_add(1, Ordering::Relaxed).hash(&mut hasher);
+    std::process::id().hash(&mut hasher);
+
     format!("p_{}", hasher.finish().to_string().split_at(8).0)
 }
 
-- 
2.43.0


From cdba60129b2ee3c29dd6cac7ec4d7cfe1fb21760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 17/25] fix: report matrix files that could not be written
 completely

---
 src/fem_problem/linalg/sparse_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index b4e6bc0..b9f5e6a 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -226,7 +226,7 @@ impl AIJMatrixBinary {
         }
         writer.write_all(a_buf.as_ref())?;
 
-        Ok(())
+        writer.flush()
     }
 }
 
-- 
2.43.0


From 07f7bd4c8cf2c3e35548f2117c48d41d7704c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 18/25] fix: report VTK files that could not be written
 completely

---
 src/fem_domain/domain/fields.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 7bf7f13..dcee362 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -230,6 +230,8 @@ impl<'d> UniformFieldSpace<'d> {
         }
         writeln!(writer)?;
 
+        writer.flush()?;
+
         Ok(())
     }
 
-- 
2.43.0


From 0e81b502ae4b3b7a6cdd9bc67d6b4dbc5b834191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:19 +0000
Subject: [PATCH 19/25] fix: report mesh exports that could not be written
 completely

---
 src/fem_domain/domain/mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index f9ec734..33a6637 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -354,7 +354,7 @@ impl Mesh {
 
         mesh_object.write_pretty(&mut w, 4)?;
 
-        Ok(())
+        w.flush()
     }
 
     // ----------------------------------------------------------------------------------------------------
-- 
2.43.0


From 442062ec9cfe3074aad52b16f21853cf9b3c6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 20/25] fix: report a solver directory whose name is not valid
 text instead of panicking

---
 src/fem_problem/linalg/slepc_solve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index c2d4212..b4dafe4 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -17,7 +17,10 @@ pub fn slepc_solve_gep(
     target_eigenvalue: f64,
 ) -> Result<EigenPair, Box<dyn std::error::Error>> {
     if let Some(esolve_dir) = var_os("GEP_SOLVE_DIR") {
-        let dir = esolve_dir.to_str().unwrap();
+        let dir = match esolve_dir.to_str() {
+            Some(dir) => dir,
+            None => return Err(Box::new(SlepcGEPError::SolverNotFound)),
+        };
         let prefix = unique_prefix();
 
         // Write the matrices to files
-- 
2.43.0


From 153db002247e56438d68291dfa679de4f8a5423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 21/25] fix: do not panic over foreign file names when removing
 the solver's files

---
 src/fem_problem/linalg/slepc_solve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index b4dafe4..fca6803 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -183,9 +183,8 @@ fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Re
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
         let file_name_os = file.file_name();
-        let file_name = String::from(file_name_os.to_str().unwrap());
 
-        if file_name.contains(prefix.as_ref()) {
+        if file_name_os.to_string_lossy().contains(prefix.as_ref()) {
             std::fs::remove_file(file.path())?;
         }
     }
-- 
2.43.0


From 76c13d3022e1a54803fd163076463fe7cb46d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 22/25] fix: remove the solver's input files if they could not
 be written completely

---
 src/fem_problem/linalg/slepc_solve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index fca6803..5c439ec 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -24,7 +24,11 @@ pub fn slepc_solve_gep(
         let prefix = unique_prefix();
 
         // Write the matrices to files
-        gep.print_to_petsc_binary_files(&dir, &prefix)?;
+        if let Err(e) = gep.print_to_petsc_binary_files(&dir, &prefix) {
+            // whatever could be written must not stay behind
+            let _ = clean_directory(&dir, &prefix);
+            return Err(Box::new(e));
+        }
 
         // Run the solver
         let esolve_exit_status = Command::new("mpiexec")
-- 
2.43.0


From 1ca9ef2ad84a35a75ff9c2befbbfc53419af02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 23/25] fix: make the max_ortho_basis feature build and export
 its shape functions

---
 src/fem_domain/basis/hierarchical_basis_fns.rs | 2 +-
 src/lib.rs                                     | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index 7a541e6..eeadbed 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -199,7 +199,7 @@ pub mod poly {
 }
 
 #[cfg(feature = "max_ortho_basis")]
-mod max_ortho {
+pub mod max_ortho {
     use super::super::HierCurlBasisFnSpace;
 
     //https://ieeexplore.ieee.org/stamp/stamp.jsp?tp=&arnumber=6470651
diff --git a/src/lib.rs b/src/lib.rs
index ef4a74e..f1fe4ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,3 @@
-#![cfg_attr(
-    feature = "max_ortho_basis",
-    feature(const_fn_floating_point_arithmetic)
-)]
 #![doc = include_str!("../README.md")]
 
 /// Structures defining the FEM Domain, Mesh, and Basis Space
@@ -14,7 +10,7 @@ pub mod fem_problem;
 pub mod prelude {
     pub use crate::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
     #[cfg(feature = "max_ortho_basis")]
-    pub use crate::fem_domain::basis::shape_fns::max_ortho::MaxOrthoShapeFn;
+    pub use crate::fem_domain::basis::hierarchical_basis_fns::max_ortho::HierMaxOrtho;
     pub use crate::fem_domain::domain::{
         dof::{
             basis_spec::{BSAddress, BasisSpec},
-- 
2.43.0


From b91e32e01423b122abb68511ce901ac50618a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 24/25] fix: let the max-ortho tangential functions of order 10
 vanish at both ends

---
 src/fem_domain/basis/hierarchical_basis_fns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index eeadbed..ae21de9 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -217,12 +217,12 @@ pub mod max_ortho {
         &[0, -3, 0, -7, 0, -11, 0, 21],
         &[-1, 0, -5, 0, -9, 0, -13, 0, 28],
         &[0, -3, 0, -7, 0, -11, 0, -15, 0, 36],
-        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 40],
+        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 45],
         &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, 55],
         &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, -21, 0, 66],
-        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 72],
+        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 78],
     ];
-    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 40, 55, 66, 72];
+    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66, 78];
 
     const fn get_q_weight_vector<const DIM: usize>() -> [f64; DIM] {
         let mut coeffs = [0.0; DIM];
-- 
2.43.0


From afe8a14d3987eba06c4322e3a3a6a7e12e811e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 25/25] fix: second derivatives of the max-ortho functions at
 the ends of the interval

---
 .../basis/hierarchical_basis_fns.rs           | 48 ++-----------------
 1 file changed, 3 insertions(+), 45 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index ae21de9..d07b584 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -470,46 +470,6 @@ pub mod max_ortho {
             let mut primes = Vec::with_capacity(n);
             let mut double_primes = Vec::with_capacity(n);
 
-            // construct (1 - x^2) without singularities at the endpoints
-            let d2_denom: Vec<f64> = match (
-                (points[0].abs() - 1.0).abs() < 1e-15,
-                (points[num_p - 1].abs() - 1.0).abs() < 1e-15,
-            ) {
-                (true, true) => {
-                    let mut den = vec![1.0];
-                    den.extend(
-                        points
-                            .iter()
-                            .skip(1)
-                            .take(num_p - 2)
-                            .map(|x| 1.0 - x.powi(2)),
-                    );
-                    den.push(1.0);
-                    den
-                }
-                (true, false) => {
-                    let mut den = vec![1.0];
-                    den.extend(
-                        points
-                            .iter()
-                            .skip(1)
-                            .take(num_p - 1)
-                            .map(|x| 1.0 - x.powi(2)),
-                    );
-                    den
-                }
-                (false, true) => {
-                    let mut den: Vec<_> = points
-                        .iter()
-                        .take(num_p - 1)
-                        .map(|x| 1.0 - x.powi(2))
-                        .collect();
-                    den.push(1.0);
-                    den
-                }
-                (false, false) => points.iter().map(|x| (1.0 - x.powi(2))).collect(),
-            };
-
             for i in 0..=n {
                 let i_f = i as f64;
                 match i {
@@ -568,13 +528,11 @@ pub mod max_ortho {
                         );
 
                         double_primes.push(
-                            primes[i]
+                            points
                                 .iter()
-                                .zip(values[i].iter())
                                 .enumerate()
-                                .map(|(p, (prime, value))| {
-                                    (2.0 * points[p] * prime - (i_f * (i_f + 1.0)) * value)
-                                        / d2_denom[p]
+                                .map(|(p, x)| {
+                                    (i_f + 1.0) * primes[i - 1][p] + x * double_primes[i - 1][p]
                                 })
                                 .collect(),
                         )
-- 
2.43.0

