From ee9bc4e1f6e9340ce30350d4aa338c1c605487cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:16 +0000
Subject: [PATCH 01/32] fix: Tensor::get applied the view offset twice

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From 902434ac21886eb07095673c48ea15222600928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:17 +0000
Subject: [PATCH 02/32] fix: as_wrap_slice_n applied the view offset twice

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..20ee7e7 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(offset <= self.size && len <= self.size - offset);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From e3c9996ffa99a49cfc7a75e6aa1b960ee032668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:18 +0000
Subject: [PATCH 03/32] fix: subslice bounds could be bypassed by arithmetic
 overflow or a zero-dim shape

---
 src/tensor/tensor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 20ee7e7..832b021 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -137,12 +137,11 @@ impl<T: Type> Tensor<T> {
 
     pub fn subslice_flat(&self, offset: usize, len: usize, shape: impl Into<Shape>) -> Self {
         assert!(offset <= self.size);
-        assert!(offset + len <= self.size);
+        assert!(len <= self.size - offset);
 
         let shape = shape.into();
 
-        let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert_eq!(shape.size(), len);
 
         Self {
             shape,
@@ -158,8 +157,10 @@ impl<T: Type> Tensor<T> {
     pub fn subslice(&self, offset: usize, len: usize) -> Self {
         let dim_0 = self.dim(0);
 
-        // assert!(offset <= dim_0);
-        assert!(offset + len <= dim_0, "subslice end={} with shape={:?}", offset + len, self.shape().as_vec());
+        assert!(
+            offset <= dim_0 && len <= dim_0 - offset,
+            "subslice offset={} len={} with shape={:?}", offset, len, self.shape().as_vec()
+        );
 
         let size : usize = self.shape().as_vec()[1..].iter().product();
 
-- 
2.43.0


From 72c8d4398f055b19ac6bc0119d2b0b4471f891f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:18 +0000
Subject: [PATCH 04/32] fix: unsafe_init made zero-size allocations and ignored
 allocation failure

---
 src/tensor/data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..9e6a962 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -88,7 +88,14 @@ pub unsafe fn unsafe_init<T: Type>(
     let shape = shape.into();
 
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        match NonNull::new(alloc::alloc(layout).cast::<T>()) {
+            Some(data) => data,
+            None => alloc::handle_alloc_error(layout),
+        }
+    };
 
     (init)(data.cast::<T>().as_mut());
 
-- 
2.43.0


From d01a7be0eee0559c12ef064f77e873d56f10f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 05/32] fix: normalize along an axis wrote each lane to the
 wrong positions

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From 200826a28f10d6b9d7a39be036102a650c8bf354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:19 +0000
Subject: [PATCH 06/32] fix: fold_row with an axis folded the row of a vector
 once per element

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From d1d4290ffe4cc808946a600a60f3d87fc7d3d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:20 +0000
Subject: [PATCH 07/32] fix: 3 and 4 index lookups rejected valid indices of
 small tensors

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From 5e451dd87592e46defd11c2f39c004c1800c34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:21 +0000
Subject: [PATCH 08/32] fix: slice() of a valid index always panicked

---
 src/tensor/slice.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tensor/slice.rs b/src/tensor/slice.rs
index 6baa83a..713cffc 100644
--- a/src/tensor/slice.rs
+++ b/src/tensor/slice.rs
@@ -17,11 +17,10 @@ impl TensorSlice for usize {
         assert!(tensor.rank() > 0);
         assert!(self < tensor.dim(0));
 
-        //let shape = tensor.shape().slice(1..);
-        //let len : usize = shape.size();
+        let shape = tensor.shape().clone().remove(0);
+        let len : usize = shape.size();
 
-        //tensor.subslice_flat(self * len, len, shape)
-        todo!()
+        tensor.subslice_flat(self * len, len, shape)
     }
 }
 
@@ -31,14 +30,11 @@ impl TensorSlice for (usize, usize) {
         assert!(self.0 < tensor.dim(0));
         assert!(self.1 < tensor.dim(1));
 
-        /*
-        let shape = tensor.shape().slice(2..);
+        let shape = tensor.shape().clone().remove(0).remove(0);
         let len : usize = shape.size();
         let offset = (self.0 * tensor.dim(1) + self.1) * len;
 
         tensor.subslice_flat(offset, len, shape)
-        */
-        todo!()
     }
 }
 
-- 
2.43.0


From 0075b23ac0d9b6059edb58f40a4912e8e0bdccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:21 +0000
Subject: [PATCH 09/32] fix: frame() of a valid signal always panicked

---
 src/signal/frame.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/signal/frame.rs b/src/signal/frame.rs
index 5eee7b7..a9c8a24 100644
--- a/src/signal/frame.rs
+++ b/src/signal/frame.rs
@@ -15,14 +15,11 @@ pub fn frame(x: impl Into<Tensor>, len: usize, step: usize) -> Tensor {
         vec.push(x.subslice(i * step, len))
     }
 
-    todo!();
-    /*
-    let mut shape = Vec::from(x.shape().as_slice());
+    let mut shape = x.shape().as_vec();
     shape[0] = len;
     shape.insert(0, n_frames);
 
     Tensor::from_merge(&vec, shape)
-    */
 }
 
 #[cfg(test)]
-- 
2.43.0


From bc54b1b6c8647e33b7fed5ca5d9a5b509eae0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:22 +0000
Subject: [PATCH 10/32] fix: Shape::batch_len multiplied the inner dimensions
 instead of the batch ones

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..ea46dd6 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().product::<u32>() as usize
         } else {
             1
         }
-- 
2.43.0


From 714a694d062c65f8ec2d412f818dbe4000dca83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:22 +0000
Subject: [PATCH 11/32] fix: Shape::append always added six to the rank

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index ea46dd6..62618d9 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -249,7 +249,7 @@ impl Shape {
 
         Self {
             dims,
-            rank: self.rank + dims.len(),
+            rank: self.rank + tail.len(),
         }
     }
 
-- 
2.43.0


From a888386b9c9197a4e60969c9708767b8dc470ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:23 +0000
Subject: [PATCH 12/32] fix: Shape::squeeze with an axis looked at the wrong
 dimension

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 62618d9..a1a6328 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From 7b872c6541833a52d2f57499db98a3eef619ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:23 +0000
Subject: [PATCH 13/32] fix: Shape::insert rejected rank 6 results and accepted
 out-of-range axes

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index a1a6328..c41d679 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -392,7 +392,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From 8e5fce9ade6e71d653c4f7ccddd9e3e3b6235448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:49 +0000
Subject: [PATCH 14/32] fix: shape sizes and dimensions silently wrapped at 32
 bits

---
 src/tensor/shape.rs | 54 ++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index c41d679..20e158c 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -25,7 +25,7 @@ impl Shape {
         assert!(len > 0, "Shape requires a non-zero size");
 
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = len as u32;
+        dims[0] = to_dim(len);
 
         Self {
             dims,
@@ -35,7 +35,7 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        dims_product(&self.dims[0..self.rank as usize])
     }
 
     #[inline]
@@ -81,7 +81,7 @@ impl Shape {
     pub fn rreplace(mut self, i: usize, value: usize) -> Self {
         assert!(i < self.rank);
 
-        self.dims[i] = value as u32;
+        self.dims[i] = to_dim(value);
 
         self
     }
@@ -116,7 +116,7 @@ impl Shape {
     pub fn with_cols(self, col: usize) -> Self {
         let mut own = self;
 
-        own.dims[0] = col as u32;
+        own.dims[0] = to_dim(col);
 
         own
     }
@@ -139,7 +139,7 @@ impl Shape {
 
         let mut own = self;
 
-        own.dims[1] = row as u32;
+        own.dims[1] = to_dim(row);
 
         own
     }
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[base_rank..rank].iter().product::<u32>() as usize
+            dims_product(&self.dims[base_rank..rank])
         } else {
             1
         }
@@ -231,7 +231,7 @@ impl Shape {
 
     pub fn push(&self, dim: usize) -> Self {
         let mut dims = self.dims.clone();
-        dims[self.rank as usize] = dim as u32;
+        dims[self.rank as usize] = to_dim(dim);
 
         Self {
             dims,
@@ -244,7 +244,7 @@ impl Shape {
         let mut dims = self.dims.clone();
 
         for (i, dim) in tail.iter().enumerate() {
-            dims[i + self.rank as usize] = *dim as u32;
+            dims[i + self.rank as usize] = to_dim(*dim);
         }
 
         Self {
@@ -256,27 +256,15 @@ impl Shape {
     #[inline]
     pub fn sublen(&self, start: usize, end: usize) -> usize
     {
-        let mut size = 1;
-
         let (start, end) = (self.rank - end, self.rank - start);
 
-        for i in start..end {
-            size *= self.dims[i];
-        }
-
-        size as usize
+        dims_product(&self.dims[start..end])
     }
 
     #[inline]
     pub fn rsublen(&self, start: usize, end: usize) -> usize
     {
-        let mut size = 1;
-
-        for i in start..end {
-            size *= self.dims[i];
-        }
-
-        size as usize
+        dims_product(&self.dims[start..end])
     }
 
     #[inline]
@@ -398,7 +386,7 @@ impl Shape {
             self.dims[i + 1] = self.dims[i];
         }
 
-        self.dims[axis] = len as u32;
+        self.dims[axis] = to_dim(len);
         self.rank += 1;
 
         self
@@ -418,6 +406,18 @@ impl Shape {
     }
 }
 
+#[inline]
+fn to_dim(value: usize) -> u32 {
+    u32::try_from(value).expect("tensor dimension is too large")
+}
+
+#[inline]
+fn dims_product(dims: &[u32]) -> usize {
+    dims.iter().fold(1, |size: usize, dim| {
+        size.checked_mul(*dim as usize).expect("tensor size is too large")
+    })
+}
+
 impl fmt::Debug for Shape {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "Shape{:?}", self.as_vec())
@@ -433,7 +433,7 @@ impl From<&Shape> for Shape {
 impl From<usize> for Shape {
     fn from(value: usize) -> Self {
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = value as u32;
+        dims[0] = to_dim(value);
 
         Shape {
             dims,
@@ -447,7 +447,7 @@ impl From<&[usize]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = to_dim(*dim);
         }
 
         Shape {
@@ -462,7 +462,7 @@ impl<const N: usize> From<[usize; N]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = to_dim(*dim);
         }
 
         Shape {
@@ -478,7 +478,7 @@ impl From<Vec<usize>> for Shape {
 
         for (i, v) in value.iter().rev().enumerate() {
             assert!(*v > 0);
-            dims[i] = *v as u32;
+            dims[i] = to_dim(*v);
         }
 
         Shape {
-- 
2.43.0


From 5c03ce69dc6a8e72bca6ca1042b70967e1bda396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 15/32] fix: matmul returned a transposed shape for non-square
 results

---
 src/linalg/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..289c5c3 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -54,7 +54,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = b.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From 7dd3fc479aa1e00479bc59dddd7058294ad1208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:20 +0000
Subject: [PATCH 16/32] fix: matmul read past the end of b when the batch
 shapes differed

---
 src/linalg/matmul.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index 289c5c3..7e36d59 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,11 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert!(b.rank() > 1, "matrix multiplication requires rank >= 2");
+    assert_eq!(
+        a.shape().as_vec()[..a.rank() - 2], b.shape().as_vec()[..b.rank() - 2],
+        "matmul batch shape must match"
+    );
 
     let (m, _, n) = transpose.mkn(a, b);
 
-- 
2.43.0


From fb6419b55089c3c575cb3ba4025416afaa6b6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 17/32] fix: unstack returned no tensors or the unsplit tensor

---
 src/array/stack.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/array/stack.rs b/src/array/stack.rs
index c565cb3..7b6b4e4 100644
--- a/src/array/stack.rs
+++ b/src/array/stack.rs
@@ -154,24 +154,11 @@ impl<T: Type + Clone> Tensor<T> {
     
         let axis = axis.axis_from_rank(self.rank());
     
-        let cuts = Vec::<usize>::new();
+        let shape = self.shape().clone().remove(axis);
     
-        if axis == 0 {
-            let mut slices = Vec::<Tensor<T>>::new();
-    
-            let mut prev = 0;
-            for i in cuts {
-                if i != prev {
-                    slices.push(self.subslice(prev, i - prev));
-                }
-                prev = i;
-            }
-        
-    
-            slices
-        } else {
-            self.split_axis(Axis::axis(axis as isize), cuts)
-        }
+        self.split_axis(Axis::axis(axis as isize), self.dim(axis)).into_iter()
+            .map(|t| t.reshape(shape.clone()))
+            .collect()
     }
 }
 
-- 
2.43.0


From 7a663942f60d629ebbe985536c5612153989fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:21 +0000
Subject: [PATCH 18/32] fix: arange with a negative step never terminated

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From 56761737a88661dbfbca317084670e954614e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:22 +0000
Subject: [PATCH 19/32] fix: Rand64::next_uniform returned values far above 1

---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 54877bbdfdb424faee7af2c30afa1f5f95dca053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:22 +0000
Subject: [PATCH 20/32] fix: next_normal was infinite when the uniform draw was
 zero

---
 src/random/random.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index c92d42a..707d690 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -33,7 +33,8 @@ impl Rand32 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f32 {
-        let rng_a = self.next_uniform();
+        // ln(0) is infinite
+        let rng_a = self.next_uniform().max(f32::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
@@ -81,7 +82,8 @@ impl Rand64 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f64 {
-        let rng_a = self.next_uniform();
+        // ln(0) is infinite
+        let rng_a = self.next_uniform().max(f64::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
-- 
2.43.0


From 02a5611c6a371a9f29123e5c76a6fad86e049960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:23 +0000
Subject: [PATCH 21/32] fix: rfft_norm only accepted a single row

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From 734d3160b47e08d0162af6ceb6313eaaf1bcb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:23 +0000
Subject: [PATCH 22/32] fix: histogram2d always panicked

---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From 3c92823076116a1b01a2224714f0568b34617635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:24 +0000
Subject: [PATCH 23/32] fix: read_file returned zeros for the rest of the file
 after a short read

---
 src/io/read_file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..2e745a8 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -8,9 +8,8 @@ pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std:
 
     let mut data: Vec<u8> = Vec::new();
     data.reserve_exact(len as usize);
-    data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_to_end(&mut data)?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From 7cec510ebfd78ca98dd2d9ea82550d2067cf6ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:38 +0000
Subject: [PATCH 24/32] fix: tensors of different shapes compared as Equal
 while being !=

---
 src/math/num.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/math/num.rs b/src/math/num.rs
index 1455197..a5cd6cd 100644
--- a/src/math/num.rs
+++ b/src/math/num.rs
@@ -1,4 +1,4 @@
-use std::ops;
+use std::{cmp::Ordering, ops};
 
 use num_traits::Signed;
 
@@ -44,8 +44,12 @@ impl<T: Type + Ord + Clone> Tensor<T> {
 }
 
 impl<T: Type + PartialOrd> PartialOrd for Tensor<T> {
-    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        self.iter().partial_cmp(other.iter())
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        match self.iter().partial_cmp(other.iter()) {
+            // Equal must agree with ==, which also compares the shape
+            Some(Ordering::Equal) if self.shape() != other.shape() => None,
+            ordering => ordering,
+        }
     }
 }
 
-- 
2.43.0


From 24dae3d2f16e352328657763e53b58809bcc6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 25/32] fix: tile with a scalar multiple always panicked

---
 src/array/tile.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array/tile.rs b/src/array/tile.rs
index 868c3f5..f9018e8 100644
--- a/src/array/tile.rs
+++ b/src/array/tile.rs
@@ -30,8 +30,8 @@ where
 
     let mut o_shape_r = Vec::<usize>::new();
     let rank = shape.rank();
-    let m_len = multiples.len();
-    let o_rank = rank.max(multiples.len());
+    let m_len = mult_r.len();
+    let o_rank = rank.max(m_len);
     for i in 0..o_rank {
         let tile_dim = if i < rank { shape_r[i] } else { 1 };
         let repeat_dim = if i < m_len { mult_r[i] } else { 1 };
-- 
2.43.0


From b2a084bf14eee19b17605fb95c6f852e69ff054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:39 +0000
Subject: [PATCH 26/32] fix: decode_wav reserved memory for the claimed data
 size before checking it

---
 src/io/decode_wav.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index d35aa0e..4783ee2 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -31,6 +31,7 @@ pub fn decode_wav(
 
     assert_eq!(cursor.read_u32_big(), 0x6461_7461);
     let size = cursor.read_u32_little();
+    assert!(size as usize <= contents.as_slice().len() - cursor.index);
 
     let n_samples = size / 2;
     //let len = meta.n_channels * 
-- 
2.43.0


From 624681f6856fb67e707356196b3cf717df603093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:02 +0000
Subject: [PATCH 27/32] fix: arange never returned when the step was too small
 to advance the value

---
 src/init/vector.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index de1a4e9..24003a7 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -16,6 +16,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while start < end {
             vec.push(start);
+            assert!(start + step != start, "step={} is too small to advance from {}", step, start);
             start += step;
         }
 
@@ -25,6 +26,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
+            assert!(start + step != start, "step={} is too small to advance from {}", step, start);
             start += step;
         }
 
-- 
2.43.0


From 00ab960f0546664a7f422ab50ef1214315ea7f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:14 +0000
Subject: [PATCH 28/32] fix: the fft_length option of rfft_norm could not be
 used outside the crate

---
 src/signal/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..bf7eeec 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -2,5 +2,5 @@ mod frame;
 mod rfft;
 
 pub use frame::frame;
-pub use rfft::rfft_norm;
+pub use rfft::{rfft_norm, FftArg, FftOpt};
 
-- 
2.43.0


From d22e8ebf339e097b1fa441e8603d17f72dcfecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 29/32] fix: decode_wav dropped the last byte of an odd-sized
 data chunk

---
 src/io/decode_wav.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index 4783ee2..a4650a8 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -33,6 +33,8 @@ pub fn decode_wav(
     let size = cursor.read_u32_little();
     assert!(size as usize <= contents.as_slice().len() - cursor.index);
 
+    assert_eq!(size % 2, 0);
+
     let n_samples = size / 2;
     //let len = meta.n_channels * 
 
-- 
2.43.0


From dfd58100e88ba3401cde225915f805b371651a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:44 +0000
Subject: [PATCH 30/32] fix: conversion of empty nested vectors panicked
 instead of giving an empty tensor

---
 src/tensor/from.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/tensor/from.rs b/src/tensor/from.rs
index b27ad97..6bcc7a3 100644
--- a/src/tensor/from.rs
+++ b/src/tensor/from.rs
@@ -68,7 +68,7 @@ impl<T: Type + Clone, const N: usize> From<&Vec<[T; N]>> for Tensor<T> {
 
 impl<T: Type + Clone> From<&Vec<Vec<T>>> for Tensor<T> {
     fn from(value: &Vec<Vec<T>>) -> Self {
-        let len_1 = value[0].len();
+        let len_1 = value.first().map_or(0, |v| v.len());
 
         let data = value.iter().flat_map(|v1| {
             assert_eq!(len_1, v1.len());
@@ -82,7 +82,7 @@ impl<T: Type + Clone> From<&Vec<Vec<T>>> for Tensor<T> {
 
 impl<T: Type + Clone, const N: usize> From<&Vec<Vec<[T; N]>>> for Tensor<T> {
     fn from(value: &Vec<Vec<[T; N]>>) -> Self {
-        let len_1 = value[0].len();
+        let len_1 = value.first().map_or(0, |v| v.len());
 
         let data = value.iter().flat_map(|v1| {
             assert_eq!(len_1, v1.len());
@@ -100,8 +100,8 @@ impl<T: Clone + Type> From<&Vec<Vec<Vec<T>>>> for Tensor<T> {
     fn from(value: &Vec<Vec<Vec<T>>>) -> Self {
         let mut data = Vec::new();
 
-        let len_1 = value[0].len();
-        let len_2 = value[0][0].len();
+        let len_1 = value.first().map_or(0, |v| v.len());
+        let len_2 = value.iter().flatten().next().map_or(0, |v| v.len());
 
         for v1 in value {
             assert_eq!(len_1, v1.len());
@@ -123,9 +123,9 @@ impl<T: Clone + Type> From<&Vec<Vec<Vec<Vec<T>>>>> for Tensor<T> {
     fn from(value: &Vec<Vec<Vec<Vec<T>>>>) -> Self {
         let mut data = Vec::new();
 
-        let len_1 = value[0].len();
-        let len_2 = value[0][0].len();
-        let len_3 = value[0][0][0].len();
+        let len_1 = value.first().map_or(0, |v| v.len());
+        let len_2 = value.iter().flatten().next().map_or(0, |v| v.len());
+        let len_3 = value.iter().flatten().flatten().next().map_or(0, |v| v.len());
 
         for v1 in value {
             assert_eq!(len_1, v1.len());
@@ -149,10 +149,10 @@ impl<T: Clone + Type> From<&Vec<Vec<Vec<Vec<T>>>>> for Tensor<T> {
 
 impl<T: Clone + Type> From<&Vec<Vec<Vec<Vec<Vec<T>>>>>> for Tensor<T> {
     fn from(value: &Vec<Vec<Vec<Vec<Vec<T>>>>>) -> Self {
-        let len_1 = value[0].len();
-        let len_2 = value[0][0].len();
-        let len_3 = value[0][0][0].len();
-        let len_4 = value[0][0][0][0].len();
+        let len_1 = value.first().map_or(0, |v| v.len());
+        let len_2 = value.iter().flatten().next().map_or(0, |v| v.len());
+        let len_3 = value.iter().flatten().flatten().next().map_or(0, |v| v.len());
+        let len_4 = value.iter().flatten().flatten().flatten().next().map_or(0, |v| v.len());
 
         let data: Vec<T> = value.iter().flat_map(|v1| {
             assert_eq!(len_1, v1.len());
-- 
2.43.0


From 585030628f0b7f18dd0106471604d6de17f461a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:20 +0000
Subject: [PATCH 31/32] fix: histogram counts saturated at 2^24 values in one
 bin

---
 src/stats/histogram.rs   | 10 +++++-----
 src/stats/histogram2d.rs |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stats/histogram.rs b/src/stats/histogram.rs
index ab12df6..119e624 100644
--- a/src/stats/histogram.rs
+++ b/src/stats/histogram.rs
@@ -15,20 +15,20 @@ pub fn histogram(data: impl Into<Tensor>, args: impl Into<HistArgs>) -> (Tensor,
 
     let bins = linspace(min, max, args.n_bins + 1);
 
-    let mut values = Vec::<f32>::new();
-    values.resize(args.n_bins, 0.);
+    let mut values = Vec::<usize>::new();
+    values.resize(args.n_bins, 0);
 
     for item in data.iter() {
         let bin = ((*item - min) / delta).floor() as usize;
 
         if bin < args.n_bins {
-            values[bin] += 1.;
+            values[bin] += 1;
         } else {
-            values[args.n_bins - 1] += 1.;
+            values[args.n_bins - 1] += 1;
         }
     }
 
-    (Tensor::from(values), bins)
+    (Tensor::from(values).map(|n| *n as f32), bins)
 }
 
 pub struct HistArgs {
diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index f5dd785..7fc0e37 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -26,18 +26,18 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     let bins_x = linspace(min_x, max_x, args.n_bins + 1);
     let bins_y = linspace(min_y, max_y, args.n_bins + 1);
 
-    let mut values = Vec::<f32>::new();
-    values.resize(args.n_bins * args.n_bins, 0.);
+    let mut values = Vec::<usize>::new();
+    values.resize(args.n_bins * args.n_bins, 0);
 
     for item in data.iter_row() {
         let bin_x = (((item[0] - min_x) / delta_x).floor() as usize).min(args.n_bins - 1);
         let bin_y = (((item[1] - min_y) / delta_y).floor() as usize).min(args.n_bins - 1);
 
-        values[bin_y * args.n_bins + bin_x] += 1.;
+        values[bin_y * args.n_bins + bin_x] += 1;
     }
 
     (
-        Tensor::from(values).reshape([args.n_bins, args.n_bins]),
+        Tensor::from(values).map(|n| *n as f32).reshape([args.n_bins, args.n_bins]),
         bins_x,
         bins_y
     )
-- 
2.43.0


From 83f6a5c933e5bb5339922fee71602e352befbb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:34 +0000
Subject: [PATCH 32/32] fix: append accepted tensors whose inner dimensions
 differ

---
 src/tensor/tensor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 832b021..f587bdf 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -204,8 +204,9 @@ impl<T: Type + Clone> Tensor<T> {
         let tensor = tensor.into();
 
         assert_eq!(
-            self.shape().sublen(1, self.rank()), 
-            tensor.shape().sublen(1, tensor.rank())
+            self.shape().as_vec()[1..], 
+            tensor.shape().as_vec()[1..],
+            "append() tensor shapes must match"
         );
 
         let mut vec = Vec::from(self.shape.as_vec());
-- 
2.43.0

