From c8184f7aa92d0772e3167e00ac26fc1b995931cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 01/24] fix: turn qhull errors into panics instead of jumping
 to an uninitialised jmp_buf

NOerrexit was cleared without any setjmp, so every qhull error (for example
input that is not full dimensional, or a failed allocation) ended in a longjmp
to garbage. Run qhull behind a setjmp, free its memory and panic.
---
 qhull-rs/src/raw.rs                  | 48 +++++++++++++---------------
 qhull-sys/src/bindings/unix_64bit.rs | 10 ++++++
 qhull-sys/src/bindings/wasm_32bit.rs | 10 ++++++
 qhull-sys/src/ext.c                  | 26 +++++++++++++++
 4 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..1b1023c 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -49,22 +49,36 @@ impl<N: DimName> ConvexHull<N> {
     }
 
     unsafe fn init_shared(buf: *mut f64, len: usize) -> Self {
+        Self::build(buf, len, N::dim(), b"qhull   Qc Qx         Qt\0", false)
+    }
+
+    /// Runs qhull on `len` points of dimension `dim`. Takes ownership of `buf`, which must have
+    /// been allocated with `malloc`.
+    ///
+    /// Panics if qhull reports an error.
+    unsafe fn build(buf: *mut f64, len: usize, dim: usize, options: &[u8], delaunay: bool) -> Self {
         let qh = qhull_sys::rqh_malloc();
-        // TODO:
         let stdin = qhull_sys::rqh_stdin();
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull   Qc Qx         Qt\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-        ConvexHull {
+        let exitcode = qhull_sys::rqh_build(
+            qh,
+            options.as_ptr() as *mut _,
+            buf,
+            len as _,
+            dim as _,
+            delaunay as _,
+        );
+        // If there was an error, dropping this releases everything qhull allocated.
+        let hull = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
+        };
+        if exitcode != 0 {
+            panic!("qhull failed with error code {}", exitcode);
         }
+        hull
     }
 
     pub fn facets<'a>(&'a self) -> FacetListIterator<'a, N> {
@@ -412,23 +426,7 @@ impl<N: DimName> Delaunay<N>
     }
 
     unsafe fn init_shared(buf: *mut f64, len: usize) -> Self {
-        let qh = qhull_sys::rqh_malloc();
-        let stdin = qhull_sys::rqh_stdin();
-        let stdout = qhull_sys::rqh_stdout();
-        let stderr = qhull_sys::rqh_stderr();
-        qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        *qhull_sys::rqh_get_PROJECTdelaunay(qh) = 1;
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-
-        let cv = ConvexHull {
-            qh: NonNull::new(qh).unwrap(),
-            pd: PhantomData,
-        };
+        let cv = ConvexHull::build(buf, len, N::dim(), b"qhull d Qc Qx Qbb Q12 Qt Qz\0", true);
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
         for vertex in cv.vertices() {
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index 8f5103b..c7bafc4 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -1056,6 +1056,16 @@ extern "C" {
 extern "C" {
     pub fn rqh_get_last_newhigh(qh: *mut qhT) -> f64;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        options: *mut ::std::os::raw::c_char,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+        delaunay: ::std::os::raw::c_uint,
+    ) -> ::std::os::raw::c_int;
+}
 extern "C" {
     pub fn rqh_stdin() -> *mut FILE;
 }
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 8f4835b..515fda7 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -1061,6 +1061,16 @@ extern "C" {
 extern "C" {
     pub fn rqh_get_last_newhigh(qh: *mut qhT) -> f64;
 }
+extern "C" {
+    pub fn rqh_build(
+        qh: *mut qhT,
+        options: *mut ::std::os::raw::c_char,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+        delaunay: ::std::os::raw::c_uint,
+    ) -> ::std::os::raw::c_int;
+}
 extern "C" {
     pub fn rqh_stdin() -> *mut FILE;
 }
diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index c0e324b..ba7f260 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -46,6 +46,32 @@ realT rqh_get_last_newhigh(qhT *qh) {
     return qh->last_newhigh;
 }
 
+/* Compute the hull (or, when `delaunay` is set, the Delaunay triangulation) of
+   `points`, which qhull takes ownership of.
+
+   When qhull detects an error, it long jumps to `qh->errexit`. So, this is where
+   those jumps have to land. Returns 0 on success and otherwise one of qhull's
+   error codes. In either case, `qh` still has to be freed by the caller.
+   */
+int rqh_build(qhT *qh, char *options, coordT *points, int numpoints, int dim, boolT delaunay) {
+    int exitcode = 0;
+#ifndef WASM
+    exitcode = setjmp(qh->errexit);
+#endif
+    if (!exitcode) {
+        qh->NOerrexit = False;
+        qh_initflags(qh, options);
+        if (delaunay) {
+            qh->PROJECTdelaunay = True;
+        }
+        qh_init_B(qh, points, numpoints, dim, True);
+        qh_qhull(qh);
+        qh_triangulate(qh);
+    }
+    qh->NOerrexit = True;
+    return exitcode;
+}
+
 FILE* rqh_stdin() {
     return stdin;
 }
-- 
2.43.0


From 4266b5b528bd149f8268a59985a790f762f9b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 02/24] fix: check the results of malloc before handing buffers
 to qhull

---
 qhull-rs/src/raw.rs | 46 ++++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 1b1023c..fa7845c 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -11,6 +11,18 @@ use nalgebra::base::allocator::{Allocator, Reallocator};
 use nalgebra::{Const, DefaultAllocator, DimAdd, DimName, DimSum, U1};
 
 
+/// Copies `points` into a buffer from `malloc`, which is what qhull can take ownership of.
+unsafe fn copy_points<T>(points: &[T]) -> *mut f64 {
+    let len = std::mem::size_of_val(points);
+    let buf = libc::malloc(len);
+    if buf.is_null() && len != 0 {
+        panic!("out of memory");
+    }
+    libc::memcpy(buf, points.as_ptr().cast(), len);
+    buf.cast()
+}
+
+
 /// Nth dimensional convex hull
 ///
 /// This type is a type-safe wrapper around raw the qhull structures. As a result, many operations
@@ -25,11 +37,7 @@ pub struct ConvexHull<N: DimName> {
 impl<const N: usize> ConvexHull<Const<N>> {
     pub fn from_arrays(slice: &[[f64; N]]) -> Self {
         unsafe {
-            let num_points = slice.len();
-            let len = slice.len() * std::mem::size_of::<[f64; N]>();
-            let buf = libc::malloc(len);
-            libc::memcpy(buf, slice.as_ptr().cast(), len);
-            Self::init_shared(buf.cast(), num_points)
+            Self::init_shared(copy_points(slice), slice.len())
         }
     }
 }
@@ -40,11 +48,7 @@ impl<N: DimName> ConvexHull<N> {
         where DefaultAllocator: Allocator<f64, N>,
     {
         unsafe {
-            let num_points = slice.len();
-            let len = slice.len() * std::mem::size_of::<OVector<f64, N>>();
-            let buf = libc::malloc(len);
-            libc::memcpy(buf, slice.as_ptr().cast(), len);
-            Self::init_shared(buf.cast(), num_points)
+            Self::init_shared(copy_points(slice), slice.len())
         }
     }
 
@@ -58,6 +62,10 @@ impl<N: DimName> ConvexHull<N> {
     /// Panics if qhull reports an error.
     unsafe fn build(buf: *mut f64, len: usize, dim: usize, options: &[u8], delaunay: bool) -> Self {
         let qh = qhull_sys::rqh_malloc();
+        if qh.is_null() {
+            libc::free(buf.cast());
+            panic!("out of memory");
+        }
         let stdin = qhull_sys::rqh_stdin();
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
@@ -106,13 +114,11 @@ impl<N: DimName> FromIterator<OVector<f64, N>> for ConvexHull<N>
         let v: Vec<_> = iter.into_iter().collect();
         unsafe {
             let num_points = v.len();
-            let len = v.len() * std::mem::size_of::<OVector<f64, N>>();
-            let buf = libc::malloc(len);
-            libc::memcpy(buf, v.as_ptr().cast(), len);
+            let buf = copy_points(&v);
 
             // Drop `v` to free it's memory
             let _ = v;
-            Self::init_shared(buf.cast(), num_points)
+            Self::init_shared(buf, num_points)
         }
     }
 }
@@ -401,11 +407,7 @@ impl<const N: usize> Delaunay<Const<N>>
 {
     pub fn from_arrays(slice: &[[f64; N]]) -> Self {
         unsafe {
-            let num_points = slice.len();
-            let len = slice.len() * std::mem::size_of::<[f64; N]>();
-            let buf = libc::malloc(len);
-            libc::memcpy(buf, slice.as_ptr().cast(), len);
-            Self::init_shared(buf.cast(), num_points)
+            Self::init_shared(copy_points(slice), slice.len())
         }
     }
 }
@@ -417,11 +419,7 @@ impl<N: DimName> Delaunay<N>
 {
     pub fn from_vectors(slice: &[OVector<f64, N>]) -> Self {
         unsafe {
-            let num_points = slice.len();
-            let len = slice.len() * std::mem::size_of::<OVector<f64, N>>();
-            let buf = libc::malloc(len);
-            libc::memcpy(buf, slice.as_ptr().cast(), len);
-            Self::init_shared(buf.cast(), num_points)
+            Self::init_shared(copy_points(slice), slice.len())
         }
     }
 
-- 
2.43.0


From d94e2bde25aea9b3ae0414f72b4c62561c52248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 03/24] fix: make compute_palette independent of the hash map
 iteration order

---
 image-palette-recoloring/src/palette.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..a95a4ac 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -61,6 +61,10 @@ pub fn compute_palette(
         let count = pixel_map.entry(pixel).or_insert(0);
         *count += 1
     }
+    let mut pixel_map = pixel_map.into_iter().collect::<Vec<_>>();
+    // The iteration order of a `HashMap` is random, but the order in which the errors are added up
+    // below mustn't be.
+    pixel_map.sort_unstable_by_key(|(pixel, _)| pixel.0);
     let pixel_counts = pixel_map.into_iter()
         .map(|(pixel, count)| (
             Vector3::new(
-- 
2.43.0


From 07ce550683c37f929e8919a097e6aa541ad36263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 04/24] fix: don't start searching at a second simplex that
 might not exist

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..4c91244 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From 9e28b962e006c6b11295487957cea7ac24480dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 05/24] fix: compute the coordinates before testing the
 neighbors of a degenerate simplex

---
 qhull-rs/src/delaunay.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4c91244..202cdc9 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -462,6 +462,7 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
                         .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
-- 
2.43.0


From e8307c90272ea03d109b50fe84ad65f08829a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 06/24] fix: don't search with the leftovers of a failed matrix
 inversion

---
 qhull-rs/src/delaunay.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 202cdc9..6f2a2c2 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -615,7 +615,10 @@ impl<N> BarycentricTransformation<N>
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        if !decomp.try_inverse_to(&mut t_inv) {
+            // A failed inversion leaves arbitrary values behind
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
-- 
2.43.0


From 575045bfedeb8640a92c0e08b73d8af8596d1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 07/24] fix: check the outward coordinates of the neighbors of
 degenerate simplices too

---
 qhull-rs/src/delaunay.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 6f2a2c2..74b4ac9 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -465,7 +465,6 @@ impl<'a, N> SimplexSearcher<'a, N>
                     transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From e1bfd877a488ffeafdc7ea80966e25553d495a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 08/24] fix: stop simplifying the palette when no edge can be
 collapsed

---
 image-palette-recoloring/src/palette.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index a95a4ac..70c9d47 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -82,7 +82,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // None of the edges can be collapsed, so the hull can't be simplified any further.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -232,7 +235,8 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+/// Returns `None` if there isn't an edge that can be collapsed without shrinking the hull.
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -297,10 +301,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From a6f0ddf981e51b44071b8e6f40014d6eb632cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 09/24] fix: correct the lifted plane distances that the
 simplex search starts with

---
 qhull-rs/src/delaunay.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 74b4ac9..ad88950 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -103,7 +103,7 @@ impl<N> Delaunay<N>
         let last_high = delaunay.last_high();
         let last_newhigh = delaunay.last_newhigh();
 
-        let paraboloid_scale = last_newhigh / last_high - last_low;
+        let paraboloid_scale = last_newhigh / (last_high - last_low);
 
         Delaunay {
             vertices: vertices.into_boxed_slice(),
@@ -112,7 +112,7 @@ impl<N> Delaunay<N>
             normals_and_offsets: normals_and_offsets.into_boxed_slice(),
 
             paraboloid_scale,
-            paraboloid_shift: last_low * paraboloid_scale,
+            paraboloid_shift: -last_low * paraboloid_scale,
         }
     }
 
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From cd6c068f483f5e0dbd1993d0372db6d3cb4b63dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 10/24] fix: treat nearly singular simplices as degenerate when
 locating points

---
 qhull-rs/src/delaunay.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index ad88950..c1d4efc 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -578,6 +578,17 @@ impl<'a, N> SimplexSearcher<'a, N>
 }
 
 
+/// The largest sum of the absolute values of a column.
+fn l1_norm<N>(matrix: &OMatrix<f64, N, N>) -> f64
+    where DefaultAllocator: Allocator<f64, N, N>,
+          N: DimName,
+{
+    matrix.column_iter()
+        .map(|col| col.iter().map(|f| f.abs()).sum())
+        .fold(0.0, f64::max)
+}
+
+
 struct BarycentricTransformation<N>
     where DefaultAllocator: Allocator<f64, N>,
           DefaultAllocator: Allocator<f64, N, N>,
@@ -612,10 +623,14 @@ impl<N> BarycentricTransformation<N>
                 .map(move |vert| vert[i] - rn)
             );
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
+        let norm = l1_norm(&t);
         let decomp = t.lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        if !decomp.try_inverse_to(&mut t_inv) {
-            // A failed inversion leaves arbitrary values behind
+        // A failed inversion leaves arbitrary values behind, and the inverse of a nearly singular
+        // matrix is mostly rounding errors. (This is the same limit that SciPy uses.)
+        if !decomp.try_inverse_to(&mut t_inv)
+            || !(norm * l1_norm(&t_inv) * 1000.0 * f64::EPSILON < 1.0)
+        {
             t_inv.fill(f64::NAN);
         }
 
-- 
2.43.0


From 4a46c5819c0819ff88de18decd3a478f5988233a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 11/24] fix: declare the max_palette_size parameter of
 compute_palette

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From 980f9fe44362710050407a41a297c11886878fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 12/24] fix: report errors that happen while the end of an
 output image is written

---
 image-palette-recoloring-cli/src/main.rs | 35 +++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..d564986 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -1,7 +1,11 @@
+use image::codecs::pnm::{PnmSubtype, SampleEncoding};
 use image::io::Reader as ImageReader;
-use image::Rgb;
+use image::{
+    EncodableLayout, ImageBuffer, ImageFormat, ImageOutputFormat, ImageResult, PixelWithColorType, Rgb
+};
 use std::fmt::Write;
-use std::path::PathBuf;
+use std::io::Cursor;
+use std::path::{Path, PathBuf};
 
 use clap::{Parser, Subcommand};
 
@@ -78,6 +82,29 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
     Ok(ColorList(colors))
 }
 
+/// Same as `ImageBuffer::save`, except that it doesn't lose the errors that happen while the end of
+/// the file is being flushed and doesn't touch the file before the image is completely encoded.
+fn save_image<P>(img: &ImageBuffer<P, Vec<P::Subpixel>>, path: &Path) -> ImageResult<()>
+    where P: PixelWithColorType,
+          [P::Subpixel]: EncodableLayout,
+{
+    let format = match ImageFormat::from_path(path)? {
+        ImageFormat::Pnm => {
+            let extension = path.extension().unwrap_or_default().to_ascii_lowercase();
+            ImageOutputFormat::Pnm(match extension.to_str() {
+                Some("pbm") => PnmSubtype::Bitmap(SampleEncoding::Binary),
+                Some("pgm") => PnmSubtype::Graymap(SampleEncoding::Binary),
+                Some("ppm") => PnmSubtype::Pixmap(SampleEncoding::Binary),
+                _ => PnmSubtype::ArbitraryMap,
+            })
+        },
+        format => format.into(),
+    };
+    let mut bytes = vec![];
+    img.write_to(&mut Cursor::new(&mut bytes), format)?;
+    Ok(std::fs::write(path, bytes)?)
+}
+
 fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
     let cli = Cli::parse();
     match cli.commands {
@@ -107,7 +134,7 @@ fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
             let decomposed = DecomposedImage::new(&weights, &decomposition_palette).unwrap();
 
             let reconstructed_img = decomposed.reconstruct(&reconstruction_palette).unwrap();
-            reconstructed_img.save(&output_image).unwrap();
+            save_image(&reconstructed_img, &output_image).unwrap();
 
             if save_individual_channels {
                 let filename_stem = output_image.file_stem().unwrap();
@@ -121,7 +148,7 @@ fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
                     let mut filename = filename_stem.to_os_string();
                     write!(filename, "_channel_{i}_{:02X}{:02X}{:02X}.", r, g, b).unwrap();
                     filename.push(filename_extension);
-                    channel_img.save(dir.join(filename)).unwrap();
+                    save_image(&channel_img, &dir.join(filename)).unwrap();
                 }
             }
         }
-- 
2.43.0


From 9c01913bb8ff73e3ee84441c39c8f5b16df0a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 13/24] fix: accept the digit 6 in typed colors

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From 03dce912bd4400603abb51bc4218d55244f546aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 14/24] fix: keep the current image when no file was picked

---
 image-palette-recoloring-web/src/js/index.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..e017647 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -270,6 +270,9 @@ window.addEventListener("load", (event) => {
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
+        if (selectedFile === undefined) {
+            return;
+        }
         if (srcImg.src.length != 0) {
             URL.revokeObjectURL(srcImg.src);
         }
-- 
2.43.0


From e2488ed8a35c82fb99680ea5d2a28936b4181403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 15/24] fix: forget handles once they are freed

---
 image-palette-recoloring-web/src/js/index.js | 34 ++++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index e017647..28dcdfd 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -89,24 +89,35 @@ async function initialSetup() {
     recomputePaletteButton.disabled = true;
     srcImgPicker.disabled = true;
 
+    await freeImageWeights();
+    await freeDecomposedImage();
+
+    let array = computeSrcImageArray();
+    array = await recomputeImageWeights(array);
+    await recomputePalette(array);
+}
+
+// The handles are forgotten before they are freed, so that they can't be used or freed again.
+async function freeImageWeights() {
     if (g_imageWeightsPtr != undefined) {
+        const ptr = g_imageWeightsPtr;
+        g_imageWeightsPtr = undefined;
         await thread.sendRequest({
             method: "freeImageWeights",
-            args: [g_imageWeightsPtr],
+            args: [ptr],
         })
-        g_imageWeightsPtr = undefined;
     }
+}
+
+async function freeDecomposedImage() {
     if (g_deconstructedImagePtr != undefined) {
+        const ptr = g_deconstructedImagePtr;
+        g_deconstructedImagePtr = undefined;
         await thread.sendRequest({
             method: "freeDecomposedImage",
-            args: [g_deconstructedImagePtr],
+            args: [ptr],
         })
-        g_deconstructedImagePtr = undefined;
     }
-
-    let array = computeSrcImageArray();
-    array = await recomputeImageWeights(array);
-    await recomputePalette(array);
 }
 
 async function recomputeImageWeights(array) {
@@ -207,12 +218,7 @@ async function reconstructImage() {
     // If the set of decomposition palette colors has changed, then we need to recompute the
     if (g_imageWeightsPtr == undefined || currentPaletteColors != g_savedDecompositionPalette) {
         g_savedDecompositionPalette = currentPaletteColors;
-        if (g_deconstructedImagePtr != undefined) {
-            await thread.sendRequest({
-                method: "freeDecomposedImage",
-                args: [g_deconstructedImagePtr],
-            })
-        }
+        await freeDecomposedImage();
         g_deconstructedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
             args: [g_imageWeightsPtr, g_savedDecompositionPalette],
-- 
2.43.0


From 3487363dfca860d1b3481e1e51344082bcd34760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 16/24] fix: run one operation of the page at a time and
 recover from failures

---
 image-palette-recoloring-web/src/js/index.js | 58 ++++++++++++++------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 28dcdfd..ef68f2f 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -80,15 +80,28 @@ function colorValuesToString(values) {
     return '#' + part1 + part2 + part3
 }
 
+// While the page is busy, nothing else can be started.
+function setBusy(busy) {
+    dstSpinner.style.visibility = busy ? "visible" : "hidden";
+    recomputeOutputButton.disabled = busy;
+    recomputePaletteButton.disabled = busy;
+    srcImgPicker.disabled = busy;
+}
+
+async function runOperation(operation) {
+    setBusy(true);
+    try {
+        await operation();
+    } catch (e) {
+        console.log("Operation failed: ", e);
+    } finally {
+        setBusy(false);
+    }
+}
+
 async function initialSetup() {
     // TODO: Replace the dest image with a placeholder that is the same size
     offscreenImg.src = srcImg.src;
-    // TODO: Disable all controls until we're done
-    dstSpinner.style.visibility = "visible";
-    recomputeOutputButton.disabled = true;
-    recomputePaletteButton.disabled = true;
-    srcImgPicker.disabled = true;
-
     await freeImageWeights();
     await freeDecomposedImage();
 
@@ -139,6 +152,9 @@ async function recomputeImageWeights(array) {
 
 async function recomputePalette(array) {
     console.log("recomputePalette");
+    if (g_imageWeightsPtr == undefined) {
+        throw new Error("There is no image.");
+    }
     if (array === undefined) {
         array = await computeSrcImageArray();
     }
@@ -204,6 +220,10 @@ async function recomputePalette(array) {
 }
 
 async function reconstructImage() {
+    if (g_imageWeightsPtr == undefined) {
+        throw new Error("There is no image.");
+    }
+
     const currentPaletteColors = [];
     for (const paletteNode of paletteWrapper.children) {
         const value = paletteNode.children["palette-src-color"].value;
@@ -263,40 +283,44 @@ async function reconstructImage() {
         URL.revokeObjectURL(dstImg.src);
     }
     dstImg.src = url;
-    dstSpinner.style.visibility = "hidden";
-    recomputeOutputButton.disabled = false;
-    recomputePaletteButton.disabled = false;
-    srcImgPicker.disabled = false;
 }
 
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", async () => await runOperation(initialSetup));
+    srcImg.addEventListener("error", () => setBusy(false));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
         if (selectedFile === undefined) {
             return;
         }
+        // The controls are enabled again after the image has been loaded and processed.
+        setBusy(true);
         if (srcImg.src.length != 0) {
             URL.revokeObjectURL(srcImg.src);
         }
         srcImg.src = URL.createObjectURL(selectedFile);
-
     });
 
     recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+        await runOperation(reconstructImage);
     });
     recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+        await runOperation(recomputePalette);
     });
 
     // Load "example.png" into the main image
+    setBusy(true);
     (async () => {
-        let response = await fetch("example.png");
-        let blob = await response.blob();
-        srcImg.src = URL.createObjectURL(blob);
+        try {
+            let response = await fetch("example.png");
+            let blob = await response.blob();
+            srcImg.src = URL.createObjectURL(blob);
+        } catch (e) {
+            console.log("Loading the example failed: ", e);
+            setBusy(false);
+        }
     })();
 });
-- 
2.43.0


From 14e1cac38c354a07cacfe701f2c2a112823501c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 17/24] fix: report palettes that can't be used instead of
 returning a null handle

---
 image-palette-recoloring-web/src/js/webworker.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..6119d38 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -134,7 +134,11 @@ class RecoloringThreadWorker extends ThreadWorker {
                 wasmInst.exports.free_image_buffer(paletteColors.length * 3, palettePtr);
             }
 
-            this.sendResponse(id, decomposedImagePtr);
+            if (decomposedImagePtr) {
+                this.sendResponse(id, decomposedImagePtr);
+            } else {
+                this.sendError(id, "Invalid palette");
+            }
         } else if (method == "freeImageWeights") {
             let [ptr] = args;
             wasmInst.exports.free_image_weights(ptr);
-- 
2.43.0


From e31f4d528c54180d11a340af3380c8368f22a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 18/24] fix: reply to requests that fail with an exception

---
 image-palette-recoloring-web/src/js/webworker.js | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 6119d38..2c4f541 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -40,6 +40,15 @@ async function createBlobForArray(array, width, height) {
 
 class RecoloringThreadWorker extends ThreadWorker {
     async onRequest(id, payload) {
+        try {
+            await this.handleRequest(id, payload);
+        } catch (e) {
+            // Every request needs a reply
+            this.sendError(id, String(e));
+        }
+    }
+
+    async handleRequest(id, payload) {
         const wasmInst = await wasmInstPromise;
         let { method, args } = payload;
         if (method == "createImageWeights") {
-- 
2.43.0


From 75836c1e6bddc4b5c62292887711b35943fff2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 19/24] fix: give back the worker's buffers with their size
 when a request fails

---
 image-palette-recoloring-web/src/js/webworker.js | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 2c4f541..307e557 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -167,15 +167,17 @@ class RecoloringThreadWorker extends ThreadWorker {
                 paletteBuf[i * 3 + 1] = paletteColors[i][1];
                 paletteBuf[i * 3 + 2] = paletteColors[i][2];
             }
-            let width = wasmInst.exports.get_decomposed_image_width(decompImagePtr);
-            let height = wasmInst.exports.get_decomposed_image_height(decompImagePtr);
-            let imagePtr = wasmInst.exports.create_image_buffer(width * height * 3);
-
+            let width, height, imagePtr;
             let success;
             try {
+                width = wasmInst.exports.get_decomposed_image_width(decompImagePtr);
+                height = wasmInst.exports.get_decomposed_image_height(decompImagePtr);
+                imagePtr = wasmInst.exports.create_image_buffer(width * height * 3);
                 success = wasmInst.exports.reconstruct_image(decompImagePtr, palettePtr, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                if (imagePtr !== undefined) {
+                    wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                }
                 throw e;
             } finally {
                 wasmInst.exports.free_image_buffer(paletteColors.length * 3, palettePtr);
@@ -195,6 +197,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -208,7 +211,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -226,6 +229,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From 3a2f8d92c7938e91815a669407b3ee5ec6f915d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 20/24] fix: free qhull's size tables when memory runs out
 during its setup

---
 qhull-sys/src/ext.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index ba7f260..ffacd98 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -69,6 +69,16 @@ int rqh_build(qhT *qh, char *options, coordT *points, int numpoints, int dim, bo
         qh_triangulate(qh);
     }
     qh->NOerrexit = True;
+#ifndef WASM
+    if (exitcode && qh->qhmem.LASTsize == 0) {
+        /* The memory ran out before the setup of the short memory was complete;
+           qh_memfreeshort does not release its tables in that case. */
+        qh_free(qh->qhmem.sizetable);
+        qh_free(qh->qhmem.freelists);
+        qh->qhmem.sizetable = NULL;
+        qh->qhmem.freelists = NULL;
+    }
+#endif
     return exitcode;
 }
 
-- 
2.43.0


From 4ef1dbd7bad0dc88a1ad0f7febcdcaa7b20f63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 21/24] fix: free qhull's long memory that is in flight when an
 error interrupts it

---
 qhull-sys/qhull/src/libqhull_r/mem_r.c | 43 ++++++++++++++++++++++++--
 qhull-sys/qhull/src/libqhull_r/mem_r.h |  1 +
 qhull-sys/src/bindings/unix_64bit.rs   |  1 +
 qhull-sys/src/bindings/wasm_32bit.rs   |  1 +
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/qhull-sys/qhull/src/libqhull_r/mem_r.c b/qhull-sys/qhull/src/libqhull_r/mem_r.c
index 7d5509e..b746a62 100644
--- a/qhull-sys/qhull/src/libqhull_r/mem_r.c
+++ b/qhull-sys/qhull/src/libqhull_r/mem_r.c
@@ -48,6 +48,43 @@ static int qh_intcompare(const void *i, const void *j);
 
 /*========== functions in alphabetical order ======== */
 
+/* Long memory is preceded by the header of a doubly-linked list of the long memory in use.
+   When an error interrupts qhull, some of it is only known to functions that qh_errexit
+   abandoned, and qh_memfreeshort frees it by this list. */
+typedef union longT longT;
+union longT {
+  struct {
+    longT *previous;
+    longT *next;
+  } link;
+  double align[2];
+};
+
+static void *qh_malloclong(qhT *qh, int size) {
+  longT *header= (longT *)qh_malloc(sizeof(longT) + (size_t)size);
+
+  if (!header)
+    return NULL;
+  header->link.previous= NULL;
+  header->link.next= (longT *)qh->qhmem.longlist;
+  if (header->link.next)
+    header->link.next->link.previous= header;
+  qh->qhmem.longlist= header;
+  return header + 1;
+} /* malloclong */
+
+static void qh_freelong(qhT *qh, void *object) {
+  longT *header= (longT *)object - 1;
+
+  if (header->link.previous)
+    header->link.previous->link.next= header->link.next;
+  else
+    qh->qhmem.longlist= header->link.next;
+  if (header->link.next)
+    header->link.next->link.previous= header->link.previous;
+  qh_free(header);
+} /* freelong */
+
 /*-<a                             href="qh-mem_r.htm#TOC"
   >-------------------------------</a><a name="intcompare">-</a>
 
@@ -161,7 +198,7 @@ void *qh_memalloc(qhT *qh, int insize) {
     qh->qhmem.totlong += outsize;
     if (qh->qhmem.maxlong < qh->qhmem.totlong)
       qh->qhmem.maxlong= qh->qhmem.totlong;
-    if (!(object= qh_malloc((size_t)outsize))) {
+    if (!(object= qh_malloclong(qh, outsize))) {
       qh_fprintf(qh, qh->qhmem.ferr, 6082, "qhull error (qh_memalloc): insufficient memory to allocate %d bytes\n", outsize);
       qh_errexit(qh, qhmem_ERRmem, NULL, NULL);
     }
@@ -249,7 +286,7 @@ void qh_memfree(qhT *qh, void *object, int insize) {
     qh->qhmem.totlong -= insize;
     if (qh->qhmem.IStracing >= 5)
       qh_fprintf(qh, qh->qhmem.ferr, 8058, "qh_mem %p n %8d free long: %d bytes (tot %d cnt %d)\n", object, qh->qhmem.cntlong+qh->qhmem.freelong, insize, qh->qhmem.totlong, qh->qhmem.cntlong-qh->qhmem.freelong);
-    qh_free(object);
+    qh_freelong(qh, object);
   }
 } /* memfree */
 
@@ -283,6 +320,8 @@ void qh_memfreeshort(qhT *qh, int *curlong, int *totlong) {
     qh_free(buffer);
   }
   qh->qhmem.curbuffer= NULL;
+  while (qh->qhmem.longlist) /* empty unless an error interrupted qhull */
+    qh_freelong(qh, (longT *)qh->qhmem.longlist + 1);
   if (qh->qhmem.LASTsize) {
     qh_free(qh->qhmem.indextable);
     qh_free(qh->qhmem.freelists);
diff --git a/qhull-sys/qhull/src/libqhull_r/mem_r.h b/qhull-sys/qhull/src/libqhull_r/mem_r.h
index aeb761b..b16f177 100644
--- a/qhull-sys/qhull/src/libqhull_r/mem_r.h
+++ b/qhull-sys/qhull/src/libqhull_r/mem_r.h
@@ -147,6 +147,7 @@ struct qhmemT {               /* global memory management variables */
   int      totunused;         /* total unused short memory (estimated, short size - request size of first allocations) */
   int      cntlarger;         /* count of setlarger's */
   int      totlarger;         /* total copied by setlarger */
+  void    *longlist;          /* long memory in use, linked by its headers */
 };
 
 
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index c7bafc4..4a31a9c 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -112,6 +112,7 @@ pub struct qhmemT {
     pub totunused: ::std::os::raw::c_int,
     pub cntlarger: ::std::os::raw::c_int,
     pub totlarger: ::std::os::raw::c_int,
+    pub longlist: *mut ::std::os::raw::c_void,
 }
 extern "C" {
     pub fn qh_memfreeshort(
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 515fda7..2e8b57c 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -117,6 +117,7 @@ pub struct qhmemT {
     pub totunused: ::std::os::raw::c_int,
     pub cntlarger: ::std::os::raw::c_int,
     pub totlarger: ::std::os::raw::c_int,
+    pub longlist: *mut ::std::os::raw::c_void,
 }
 extern "C" {
     pub fn qh_memfreeshort(
-- 
2.43.0


From d8a57e4226859aa8874e1d922512489ea1d6f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:26 +0000
Subject: [PATCH 22/24] fix: encode all of the output images before writing the
 first one

---
 image-palette-recoloring-cli/src/main.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index d564986..0f6b7e6 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -82,9 +82,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
     Ok(ColorList(colors))
 }
 
-/// Same as `ImageBuffer::save`, except that it doesn't lose the errors that happen while the end of
-/// the file is being flushed and doesn't touch the file before the image is completely encoded.
-fn save_image<P>(img: &ImageBuffer<P, Vec<P::Subpixel>>, path: &Path) -> ImageResult<()>
+/// Encodes an image in the format that belongs to `path`, like `ImageBuffer::save` does. Writing
+/// the result with `std::fs::write` doesn't lose the errors that happen while the end of the file is
+/// being flushed, and no file is touched before all of the images are completely encoded.
+fn encode_image<P>(img: &ImageBuffer<P, Vec<P::Subpixel>>, path: &Path) -> ImageResult<Vec<u8>>
     where P: PixelWithColorType,
           [P::Subpixel]: EncodableLayout,
 {
@@ -102,7 +103,7 @@ fn save_image<P>(img: &ImageBuffer<P, Vec<P::Subpixel>>, path: &Path) -> ImageRe
     };
     let mut bytes = vec![];
     img.write_to(&mut Cursor::new(&mut bytes), format)?;
-    Ok(std::fs::write(path, bytes)?)
+    Ok(bytes)
 }
 
 fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
@@ -134,7 +135,8 @@ fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
             let decomposed = DecomposedImage::new(&weights, &decomposition_palette).unwrap();
 
             let reconstructed_img = decomposed.reconstruct(&reconstruction_palette).unwrap();
-            save_image(&reconstructed_img, &output_image).unwrap();
+            let bytes = encode_image(&reconstructed_img, &output_image).unwrap();
+            let mut outputs = vec![(output_image.clone(), bytes)];
 
             if save_individual_channels {
                 let filename_stem = output_image.file_stem().unwrap();
@@ -148,9 +150,15 @@ fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
                     let mut filename = filename_stem.to_os_string();
                     write!(filename, "_channel_{i}_{:02X}{:02X}{:02X}.", r, g, b).unwrap();
                     filename.push(filename_extension);
-                    save_image(&channel_img, &dir.join(filename)).unwrap();
+                    let path = dir.join(filename);
+                    let bytes = encode_image(&channel_img, &path).unwrap();
+                    outputs.push((path, bytes));
                 }
             }
+
+            for (path, bytes) in outputs {
+                std::fs::write(path, bytes).unwrap();
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 24a1b84a7fa60d16ae758bf1cde3165986a7acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:50 +0000
Subject: [PATCH 23/24] fix: repeat interrupted reads of the input image

---
 image-palette-recoloring-cli/src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 0f6b7e6..5bf7ab3 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -1,7 +1,8 @@
 use image::codecs::pnm::{PnmSubtype, SampleEncoding};
 use image::io::Reader as ImageReader;
 use image::{
-    EncodableLayout, ImageBuffer, ImageFormat, ImageOutputFormat, ImageResult, PixelWithColorType, Rgb
+    DynamicImage, EncodableLayout, ImageBuffer, ImageFormat, ImageOutputFormat, ImageResult,
+    PixelWithColorType, Rgb
 };
 use std::fmt::Write;
 use std::io::Cursor;
@@ -82,6 +83,14 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
     Ok(ColorList(colors))
 }
 
+/// Same as opening the file with `ImageReader`, except that reads that are interrupted by a signal
+/// are repeated. Some of the decoders don't do that.
+fn load_image(path: &Path) -> ImageResult<DynamicImage> {
+    let mut reader = ImageReader::new(Cursor::new(std::fs::read(path)?));
+    reader.set_format(ImageFormat::from_path(path)?);
+    reader.decode()
+}
+
 /// Encodes an image in the format that belongs to `path`, like `ImageBuffer::save` does. Writing
 /// the result with `std::fs::write` doesn't lose the errors that happen while the end of the file is
 /// being flushed, and no file is touched before all of the images are completely encoded.
@@ -110,8 +119,7 @@ fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
     let cli = Cli::parse();
     match cli.commands {
         Commands::GeneratePalette { error_bound, min_size, max_size, input_image } => {
-            let img = ImageReader::open(&input_image)
-                .unwrap().decode().unwrap();
+            let img = load_image(&input_image).unwrap();
             let img = img.into_rgb8();
             let palette = compute_palette(&img, min_size as usize, max_size as usize, error_bound);
             let palette_hex: Vec<String> = palette.iter()
@@ -129,7 +137,7 @@ fn main_inner() -> Result<(), Box<dyn std::error::Error>> {
             if decomposition_palette.len() != reconstruction_palette.len() {
                 panic!("The decomposition_palette and reconstruction_palette must be the same size.")
             }
-            let img = ImageReader::open(&input_image).unwrap().decode().unwrap();
+            let img = load_image(&input_image).unwrap();
             let img = img.into_rgb8();
             let weights = ImageWeights::new(&img);
             let decomposed = DecomposedImage::new(&weights, &decomposition_palette).unwrap();
-- 
2.43.0


From f008509a2759b9c9840bb9de0cf7c52769500957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 24/24] fix: refuse target palettes that don't have a color for
 every channel

---
 image-palette-recoloring-web/src/js/webworker.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 307e557..0aa2ceb 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -159,6 +159,12 @@ class RecoloringThreadWorker extends ThreadWorker {
         } else if (method == "reconstructImage") {
             let [decompImagePtr, paletteColors] = args;
 
+            // The module reads as many colors as there are channels.
+            if (paletteColors.length != wasmInst.exports.get_decomposed_image_num_channels(decompImagePtr)) {
+                this.sendError(id, "Invalid palette size");
+                return;
+            }
+
             let palettePtr = wasmInst.exports.create_image_buffer(3 * paletteColors.length);
             let paletteBuf = new Uint8ClampedArray(wasmInst.exports.memory.buffer, palettePtr, 3 * paletteColors.length);
 
-- 
2.43.0

