From c35a0f5bd75d7c243de3c4fe1e8b39a54770a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 01/25] hooks: access to internals for external checks (cfg
 ipr_verif)

---
 image-palette-recoloring/src/lib.rs     |  3 ++
 image-palette-recoloring/src/palette.rs | 17 +++++++
 image-palette-recoloring/src/verif.rs   | 63 +++++++++++++++++++++++++
 qhull-rs/src/delaunay.rs                |  6 +++
 4 files changed, 89 insertions(+)
 create mode 100644 image-palette-recoloring/src/verif.rs

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..3a4c3ee 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -4,6 +4,9 @@ use nalgebra::{Const, DMatrix, Dyn, Matrix, Vector3, Vector5, Vector6};
 
 mod palette;
 mod triangle_distance;
+#[cfg(ipr_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 pub use palette::compute_palette;
 
diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..7e4dd1c 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -431,3 +431,20 @@ pub(crate) fn compute_star_triangulation_coordinates(
     matrix
 }
 
+#[cfg(ipr_verif)]
+pub(crate) mod verif {
+    use super::*;
+
+    /// The new point and the indices of the two vertices it replaces.
+    pub fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
+        super::locate_edge_to_collapse(ch).into()
+    }
+
+    pub fn compute_pixel_error(
+        ch: &ConvexHull<Const<3>>,
+        pixel_counts: &[(Vector3<f64>, f64)],
+        total_count: f64,
+    ) -> f64 {
+        super::compute_pixel_error(ch, pixel_counts, total_count)
+    }
+}
diff --git a/image-palette-recoloring/src/verif.rs b/image-palette-recoloring/src/verif.rs
new file mode 100644
index 0000000..0788c67
--- /dev/null
+++ b/image-palette-recoloring/src/verif.rs
@@ -0,0 +1,63 @@
+//! Access to crate internals for the external checks. Only built with `--cfg ipr_verif`.
+
+use image::Rgb;
+use nalgebra::{Const, DMatrix, Vector3};
+use nalgebra_sparse::CsrMatrix;
+use qhull_rs::ConvexHull;
+
+use crate::{DecomposedImage, ImageWeights};
+
+/// Assemble an `ImageWeights` from its parts.
+pub fn image_weights_from_parts(
+    weights: CsrMatrix<f64>,
+    ch_rgb_vertices: Vec<Vector3<f64>>,
+    width: u32,
+    height: u32,
+) -> ImageWeights {
+    ImageWeights { weights, ch_rgb_vertices, width, height }
+}
+
+/// The per-pixel vertex weights and the colors of those vertices.
+pub fn image_weights_parts(weights: &ImageWeights) -> (&CsrMatrix<f64>, &[Vector3<f64>]) {
+    (&weights.weights, &weights.ch_rgb_vertices)
+}
+
+/// Assemble a `DecomposedImage` from its parts.
+pub fn decomposed_image_from_parts(matrix: DMatrix<f64>, width: u32, height: u32)
+    -> DecomposedImage
+{
+    DecomposedImage { matrix, width, height }
+}
+
+/// The per-pixel palette weights.
+pub fn decomposed_image_matrix(decomposed: &DecomposedImage) -> &DMatrix<f64> {
+    &decomposed.matrix
+}
+
+pub fn triangle_closest_point(
+    point: &Vector3<f64>,
+    v0: &Vector3<f64>,
+    v1: &Vector3<f64>,
+    v2: &Vector3<f64>,
+) -> Vector3<f64> {
+    crate::triangle_distance::triangle_closest_point(point, v0, v1, v2)
+}
+
+pub fn triangle_distance_sqr(
+    point: &Vector3<f64>,
+    v0: &Vector3<f64>,
+    v1: &Vector3<f64>,
+    v2: &Vector3<f64>,
+) -> f64 {
+    crate::triangle_distance::triangle_distance_sqr(point, v0, v1, v2)
+}
+
+pub fn compute_star_triangulation_coordinates(
+    palette: &[Rgb<u8>],
+    palette_ch: &ConvexHull<Const<3>>,
+    img_rgb_values: &[Vector3<f64>],
+) -> DMatrix<f64> {
+    crate::palette::compute_star_triangulation_coordinates(palette, palette_ch, img_rgb_values)
+}
+
+pub use crate::palette::verif::{compute_pixel_error, locate_edge_to_collapse};
diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..ff26fb1 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -150,6 +150,12 @@ impl<N> Delaunay<N>
         output[ndim] += self.paraboloid_shift;
         output
     }
+
+    #[cfg(ipr_verif)]
+    #[doc(hidden)]
+    pub fn verif_lift_point(&self, point: &OVector<f64, N>) -> OVector<f64, Plus1<N>> {
+        self.lift_point(point)
+    }
 }
 
 impl<const N: usize> Delaunay<Const<N>>
-- 
2.43.0


From 1e57d52c50f92677bfab3bcbcc1e54b1b448d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 02/25] hooks: raw qhull pointers for external checks (cfg
 ipr_verif)

---
 qhull-rs/src/raw.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..068bb20 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -929,6 +929,46 @@ impl<N: DimName> BarycentricSolverCache<N>
     }
 }
 
+/// Access to the structures behind the wrappers for the external checks.
+#[cfg(ipr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    pub fn hull_qh<N: DimName>(hull: &ConvexHull<N>) -> *mut qhT {
+        hull.qh.as_ptr()
+    }
+
+    pub fn delaunay_qh<N: DimName>(delaunay: &Delaunay<N>) -> *mut qhT
+        where DefaultAllocator: Allocator<f64, N>,
+              N: DimAdd<U1>,
+              DimSum<N, U1>: DimName,
+    {
+        delaunay.cv.qh.as_ptr()
+    }
+
+    pub fn facet_ptr<N: DimName>(facet: &Facet<'_, N>) -> *mut qhull_sys::facetT {
+        facet.ptr.as_ptr()
+    }
+
+    pub fn vertex_ptr<N: DimName>(vertex: &Vertex<'_, N>) -> *mut qhull_sys::vertexT {
+        vertex.ptr.as_ptr()
+    }
+
+    /// A hull around a `qhT` made elsewhere. Must not be dropped unless qhull filled it in.
+    pub unsafe fn hull_from_qh<N: DimName>(qh: *mut qhT) -> ConvexHull<N> {
+        ConvexHull { qh: NonNull::new(qh).unwrap(), pd: PhantomData }
+    }
+
+    pub unsafe fn facet_from_ptr<'a, N: DimName>(ptr: *mut qhull_sys::facetT) -> Facet<'a, N> {
+        Facet { ptr: NonNull::new(ptr).unwrap(), pd: PhantomData }
+    }
+
+    pub unsafe fn vertex_from_ptr<'a, N: DimName>(ptr: *mut qhull_sys::vertexT) -> Vertex<'a, N> {
+        Vertex { ptr: NonNull::new(ptr).unwrap(), pd: PhantomData }
+    }
+}
+
 // Ugh, dimension generic code is sooooo ugly :(
 #[derive(Clone, Debug)]
 pub struct BarycentricSolver<N: DimName>
-- 
2.43.0


From bbcc1ba8f7932891c9327eab0aef272735f7bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 03/25] fix: Simplex::plane_distance multiplies the coordinates
 with the normal

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index ff26fb1..9322b3c 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -251,7 +251,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From 7de564632bc1b7442e140c128c161cb9fb5930cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 04/25] fix: lift points onto the paraboloid qhull used

---
 qhull-rs/src/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 9322b3c..019551a 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
-- 
2.43.0


From cf300fda4253d0c110c145f3dce85cbd0b1056c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 05/25] fix: searching a triangulation of one simplex does not
 panic

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 019551a..19f246a 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -405,7 +405,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From 981e639fe6b3926003f593b7e3d78c7f5e3a7f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 06/25] fix: mark simplices without an inverse as degenerate

---
 qhull-rs/src/delaunay.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 19f246a..c968962 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -620,7 +620,10 @@ impl<N> BarycentricTransformation<N>
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        if !decomp.try_inverse_to(&mut t_inv) {
+            // A failed inversion leaves junk behind
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From c818b6278535f7553b0f631f38d2d6d3b92652a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 07/25] fix: brute-force search solves the neighbors of
 degenerate simplices

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index c968962..e35c37e 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -468,9 +468,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From e1b1e302272aae18e9fc7043b504235d357894bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 08/25] fix: neighbors of convex hull facets

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..892baa3 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), offsets_and_normals.len());
             offsets_and_normals.push((
                 // XXX This feels really gross, but it's necessary until a change is made to the
                 //     facet api :(
-- 
2.43.0


From 5c4c775f70b4b2a28bf69b46f65e64817cdd5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 09/25] fix: raw search accepts an upper Delaunay facet as
 start hint

---
 qhull-rs/src/raw.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 068bb20..c2eb912 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -545,7 +545,8 @@ impl<N: DimName> Delaunay<N>
 
         projected_point[N::dim()] = 1.0;
         'outer: for _cycle in 0..(solver_cache.0.len() / 4 + 1) {
-            let mat = if let Some(solver) = &solver_cache.0[simplex.id() as usize] {
+            let solver = solver_cache.0.get(simplex.id() as usize).and_then(|s| s.as_ref());
+            let mat = if let Some(solver) = solver {
                 &solver.mat
             } else {
                 // If we encounter a degenerate simplex, fall back to bruteforce
@@ -740,7 +741,8 @@ impl<N: DimName> Delaunay<N>
 
         projected_point[N::dim()] = 1.0;
         'outer: for _cycle in 0..(solver_cache.0.len() / 4 + 1) {
-            let mat = if let Some(solver) = &solver_cache.0[simplex.id() as usize] {
+            let solver = solver_cache.0.get(simplex.id() as usize).and_then(|s| s.as_ref());
+            let mat = if let Some(solver) = solver {
                 &solver.mat
             } else {
                 // If we encounter a degenerate simplex, fall back to bruteforce
-- 
2.43.0


From 8666d4de3fc83f8052c07216da64a1485bd72f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 10/25] fix: Facet::normal does not read past the normal of a
 hull facet

---
 qhull-rs/src/raw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index c2eb912..5ff11fc 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -207,7 +207,9 @@ impl<'a, N: DimName> Facet<'a, N> {
     pub fn normal(&self) -> &'a [f64] {
         unsafe {
             let normal_ptr = ptr::addr_of!((*self.ptr.as_ptr()).normal).read();
-            std::slice::from_raw_parts(normal_ptr, N::dim() + 1)
+            // The facets of a Delaunay triangulation have one dimension more than its points, but
+            // those of a convex hull do not. All facets are simplicial, so count the vertices.
+            std::slice::from_raw_parts(normal_ptr, self.vertices().count())
         }
     }
 
-- 
2.43.0


From 453963c9e190b45215b7f9a34c98819e6a836402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 11/25] fix: a palette with a repeated color is an error

---
 image-palette-recoloring/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 3a4c3ee..2331079 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -163,6 +163,9 @@ impl DecomposedImage {
                 palette.len()
             ))
         }
+        if palette.iter().enumerate().any(|(i, color)| palette[..i].contains(color)) {
+            return Err("The palette contains redundant colors (a color is repeated)".into());
+        }
         let palette_ch: ConvexHull<Const<3>> = palette.iter()
             .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
             .collect();
-- 
2.43.0


From 2ac58b84dce3bfc56daf8f596bf73553295b4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 12/25] fix: a palette whose colors lie in one plane is an
 error

---
 image-palette-recoloring/src/lib.rs     |  3 +++
 image-palette-recoloring/src/palette.rs | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 2331079..708ae20 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -166,6 +166,9 @@ impl DecomposedImage {
         if palette.iter().enumerate().any(|(i, color)| palette[..i].contains(color)) {
             return Err("The palette contains redundant colors (a color is repeated)".into());
         }
+        if !palette::spans_volume(palette) {
+            return Err("The colors of the palette all lie in one plane".into());
+        }
         let palette_ch: ConvexHull<Const<3>> = palette.iter()
             .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
             .collect();
diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 7e4dd1c..bb16248 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -306,6 +306,18 @@ fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &
 }
 
 
+/// Whether the colors do not all lie in one plane. The arithmetic is exact.
+pub(crate) fn spans_volume(colors: &[Rgb<u8>]) -> bool {
+    let mut points = colors.iter().map(|c| Vector3::<i64>::from(c.0.map(i64::from)));
+    let zero = Vector3::from_element(0);
+    let Some(origin) = points.next() else { return false };
+    let Some(edge) = points.by_ref().map(|p| p - origin).find(|e| *e != zero) else { return false };
+    let Some(normal) = points.by_ref().map(|p| edge.cross(&(p - origin))).find(|n| *n != zero) else {
+        return false
+    };
+    points.any(|p| normal.dot(&(p - origin)) != 0)
+}
+
 pub(crate) fn compute_star_triangulation_coordinates(
     palette: &[Rgb<u8>],
     palette_ch: &ConvexHull<Const<3>>,
-- 
2.43.0


From a89d081f1f9680f74fe2ec514f24f51af4b1768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 13/25] fix: star triangulation skips facets in one plane with
 the star

---
 Cargo.lock                              |  6 ++--
 image-palette-recoloring/src/palette.rs | 45 ++++++++++++++-----------
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 8b6e914..d7804b6 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "adler"
@@ -503,7 +503,7 @@ dependencies = [
 
 [[package]]
 name = "image-palette-recoloring"
-version = "0.1.0"
+version = "0.2.0"
 dependencies = [
  "good_lp",
  "image",
@@ -514,7 +514,7 @@ dependencies = [
 
 [[package]]
 name = "image-palette-recoloring-c"
-version = "0.1.0"
+version = "0.2.0"
 dependencies = [
  "image",
  "image-palette-recoloring",
diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index bb16248..bfb6d37 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -348,9 +348,18 @@ pub(crate) fn compute_star_triangulation_coordinates(
     // hull - the "star". (Naturally, we exclude the triangles that include the star itself to
     // avoid degenerate tetrahedrons.)
 
-    let solvers: Vec<_> = palette_ch.facets()
-        // Facets involving the star vertex would create degenerate tetrahedrons, so skip them.
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+    let star_facets: Vec<_> = palette_ch.facets()
+        // Facets involving the star vertex, or in one plane with it, would create degenerate
+        // tetrahedrons, so skip them. The coordinates are integers, so this test is exact.
+        .filter(|f| {
+            let mut edges = f.vertices().map(|v| v.point() - star_value);
+            let a = edges.next().unwrap();
+            let b = edges.next().unwrap();
+            let c = edges.next().unwrap();
+            a.dot(&b.cross(&c)) != 0.0
+        })
+        .collect();
+    let solvers: Vec<_> = star_facets.iter()
         .map(|f| {
             // TODO: Is there a better way to do this??? Can I do this with an iterator without
             //       completely losing my mind?
@@ -373,8 +382,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         //     of matrices?
         .map(|mat| mat.lu().try_inverse().unwrap())
         .collect();
-    let simplex_indices: Vec<_> = palette_ch.facets()
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+    let simplex_indices: Vec<_> = star_facets.iter()
         .map(|f| Vector4::from_iterator(
                 std::iter::once(star_index).chain(f.vertices().map(|v| v.index()))
             ))
@@ -401,7 +409,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         } else {
             // If this point is outside of the convex hull, then we want to find the point on the
             // hull closest to the point.
-            let (closest_facet, projected_point, _) = palette_ch.facets()
+            let (projected_point, _) = palette_ch.facets()
                 .map(|f| {
                     let mut it = f.vertices();
                     let v0 = it.next().unwrap().point().clone();
@@ -412,26 +420,23 @@ pub(crate) fn compute_star_triangulation_coordinates(
                     );
                     let diff = pixel - projected_point;
                     let dist = diff.dot(&diff);
-                    (f, projected_point, dist)
+                    (projected_point, dist)
                 })
-                .min_by(|(_, _, left), (_, _, right)| left.total_cmp(right))
+                .min_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
-            let solver_index = simplex_indices.iter().enumerate()
-                .find(|(_, indices)| {
-                    // This is a match if the simplex has all 3 of the vertices of closest facet.
-                    // There should only every be 1 simplex for which that is true.
-                    let indices = indices.as_slice();
-                    closest_facet.vertices()
-                        .map(|v| v.index())
-                        .all(|i| indices.contains(&i))
-                })
+            // The projected point is on the surface of one of the simplices. That is the simplex
+            // in which its smallest coordinate is largest. (It need not be one with all 3
+            // vertices of the closest facet, because the star can be in the plane of the facet.)
+            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
+            let solver_index = solvers.iter()
+                .map(|solver| (solver * vec).min())
+                .enumerate()
+                .max_by(|(_, left), (_, right)| left.total_cmp(right))
                 .map(|(i, _)| i)
                 .unwrap();
 
-            let solver = &solvers[solver_index];
-            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
-            solver.mul_to(&vec, &mut bcoords);
+            solvers[solver_index].mul_to(&vec, &mut bcoords);
             &simplex_indices[solver_index]
         };
         let mut row = matrix.row_mut(row_number);
-- 
2.43.0


From 06047bb7477571f1697cb5367ec5bb2d930a38f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:21 +0000
Subject: [PATCH 14/25] fix: compute_palette stops when no edge can be
 collapsed

---
 image-palette-recoloring/src/palette.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index bfb6d37..a6414d0 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -78,7 +78,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // No edge can be replaced by a single vertex without losing a part of the hull.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -228,7 +231,7 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -293,10 +296,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From 6ff9b468908f616588b5a5f8fa09376a1f153489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 15/25] fix: compute_palette compares the error of the
 simplified hull with the bound

---
 image-palette-recoloring/src/palette.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index a6414d0..c389dcd 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -82,7 +82,7 @@ pub fn compute_palette(
             // No edge can be replaced by a single vertex without losing a part of the hull.
             break
         };
-        let new_hull = ch.vertices()
+        let new_hull: ConvexHull<Const<3>> = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
             .cloned()
@@ -92,7 +92,7 @@ pub fn compute_palette(
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&ch, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
-- 
2.43.0


From 636bbf75c9cf3a5f11af3265a61f57d43533aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 16/25] fix: palette error is measured against the displayable
 hull

---
 image-palette-recoloring/src/palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c389dcd..a3e01f0 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -130,7 +130,7 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
+    let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
         .collect::<Vec<[f64; 3]>>()
-- 
2.43.0


From e0cfa1a5ca58c3814ec6c2f3fb5c50f2430d5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:46 +0000
Subject: [PATCH 17/25] fix: compute_palette in the C header takes the maximum
 palette size

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From 278d77bd0d0aab3435e5be68ab5aa4d2a6731b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 18/25] fix: color lists do not accept signs

---
 image-palette-recoloring-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..cf578f6 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        // `from_str_radix` also accepts a sign
+        if !color_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+            Err(format!("Color {i} isn't valid: not a hexadecimal number."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From 014a343647b3550659ae91c0ece46d89620c8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 19/25] fix: color text field accepts the digit 6

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From 6724313ac55ca0774645bc924def4cbf66a93843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 20/25] fix: web worker frees the output buffer with its own
 size

---
 image-palette-recoloring-web/src/js/webworker.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..c5a1e9e 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -182,6 +182,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -195,7 +196,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -213,6 +214,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From d8a8c9e62b4af16968c746030aabfb93a5f7c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 21/25] fix: C API does not overflow on the size of large
 images

---
 image-palette-recoloring-c/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index b0ed75c..f892dae 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -25,7 +25,7 @@ unsafe extern "C" fn free_image_buffer(size: u32, buf: *mut u8) {
 unsafe extern "C" fn create_image_weights(width: u32, height: u32, bytes: *const u8)
     -> *const c_void
 {
-    let bytes_slice = slice::from_raw_parts(bytes, 3 * (width * height) as usize);
+    let bytes_slice = slice::from_raw_parts(bytes, 3 * width as usize * height as usize);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {
         return ptr::null()
     };
@@ -50,7 +50,7 @@ unsafe extern "C" fn compute_palette(
     out_palette_size: *mut u8
 ) -> *mut [u8; 3]
 {
-    let bytes_slice = slice::from_raw_parts(img_bytes, (img_width * img_height * 3) as usize);
+    let bytes_slice = slice::from_raw_parts(img_bytes, 3 * img_width as usize * img_height as usize);
     let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(img_width, img_height, bytes_slice) else {
         return ptr::null_mut()
     };
@@ -124,7 +124,7 @@ unsafe extern "C" fn reconstruct_image(
 
     let output_slice = slice::from_raw_parts_mut(
         output_buffer,
-        (reconstructed.width() * reconstructed.height() * 3) as usize,
+        3 * reconstructed.width() as usize * reconstructed.height() as usize,
     );
     output_slice.copy_from_slice(&reconstructed);
     1
@@ -144,7 +144,7 @@ unsafe extern "C" fn grayscale_image_channel(
 
     let output_slice = slice::from_raw_parts_mut(
         output_buffer,
-        (reconstructed.width() * reconstructed.height()) as usize,
+        reconstructed.width() as usize * reconstructed.height() as usize,
     );
     output_slice.copy_from_slice(&reconstructed);
     1
-- 
2.43.0


From 4bc510769dc8587a3244087ef71b8b4543c094f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 22/25] fix: report an invalid palette to the page instead of a
 null pointer

---
 image-palette-recoloring-web/src/js/webworker.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index c5a1e9e..be61267 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -134,7 +134,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(paletteColors.length * 3, palettePtr);
             }
 
-            this.sendResponse(id, decomposedImagePtr);
+            if (decomposedImagePtr == 0) {
+                this.sendError(id, "Invalid palette");
+            } else {
+                this.sendResponse(id, decomposedImagePtr);
+            }
         } else if (method == "freeImageWeights") {
             let [ptr] = args;
             wasmInst.exports.free_image_weights(ptr);
-- 
2.43.0


From 398837ebab98202adb596509bf9ed3693924b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 23/25] fix: forget the decomposed image once it has been freed

---
 image-palette-recoloring-web/src/js/index.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..6e0bdf3 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -212,6 +212,8 @@ async function reconstructImage() {
                 method: "freeDecomposedImage",
                 args: [g_deconstructedImagePtr],
             })
+            // It is gone even if the new palette turns out to be invalid
+            g_deconstructedImagePtr = undefined;
         }
         g_deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
-- 
2.43.0


From e40a1732194686356c22832a309d30388e1aca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 24/25] fix: run the page's operations one at a time

---
 image-palette-recoloring-web/src/html/index.html |  4 ++--
 image-palette-recoloring-web/src/js/index.js     | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring-web/src/html/index.html b/image-palette-recoloring-web/src/html/index.html
index 82bf1f4..4491deb 100644
--- a/image-palette-recoloring-web/src/html/index.html
+++ b/image-palette-recoloring-web/src/html/index.html
@@ -16,7 +16,7 @@
             <h2>Reconstructed Image</h2>
             <img id="dst-img"></img>
             <div id="dst-spinner" class="spinner"></div>
-            <button id="recompute-output-button">Recompute output</button>
+            <button id="recompute-output-button" disabled>Recompute output</button>
         </div>
     </div>
 
@@ -31,7 +31,7 @@
         <label for="palette-err-limit">Maximum palette error limit:</label>
         <input type="number" name="palette-err-limit" id="palette-err-limit" value="0.0" min="0.0">
         <br>
-        <button id="recompute-palette-button">Recompute Palette</button>
+        <button id="recompute-palette-button" disabled>Recompute Palette</button>
     </div>
 
     <h2>Palette</h2>
diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 6e0bdf3..b6228aa 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -23,6 +23,15 @@ let g_imageWeightsPtr;
 let g_deconstructedImagePtr;
 let g_savedDecompositionPalette;
 
+// The operations below share these pointers, so a new one starts only after the previous one has
+// finished.
+let g_previousOperation = Promise.resolve();
+function runInTurn(operation) {
+    const result = g_previousOperation.then(operation);
+    g_previousOperation = result.catch(() => {});
+    return result;
+}
+
 function colorInputUpdateTextInput(event) {
     event.target.nextElementSibling.value = event.target.value;
 }
@@ -268,7 +277,7 @@ async function reconstructImage() {
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", async () => await runInTurn(initialSetup));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
@@ -280,10 +289,10 @@ window.addEventListener("load", (event) => {
     });
 
     recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+        await runInTurn(() => reconstructImage());
     });
     recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+        await runInTurn(() => recomputePalette());
     });
 
     // Load "example.png" into the main image
-- 
2.43.0


From 3164d496e1a0bf7c6c23cc85cc6897c25bf2dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:43 +0000
Subject: [PATCH 25/25] fix: do not rebuild the output while there are no image
 weights

---
 image-palette-recoloring-web/src/js/index.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index b6228aa..4ab31af 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -202,6 +202,11 @@ async function recomputePalette(array) {
 }
 
 async function reconstructImage() {
+    if (g_imageWeightsPtr == undefined) {
+        // The weights of the present image could not be computed, so there is nothing to rebuild
+        return;
+    }
+
     const currentPaletteColors = [];
     for (const paletteNode of paletteWrapper.children) {
         const value = paletteNode.children["palette-src-color"].value;
-- 
2.43.0

