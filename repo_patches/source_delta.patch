From f90f49bc919e0922a646f11ae60f635c97228560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 01/93] fix: read tensor views from their storage offset, and
 convert before applying the view's layout

---
 crates/hodu_core/src/tensor/vec.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/tensor/vec.rs b/crates/hodu_core/src/tensor/vec.rs
index 8afbe36..0bb1b92 100644
--- a/crates/hodu_core/src/tensor/vec.rs
+++ b/crates/hodu_core/src/tensor/vec.rs
@@ -310,11 +310,16 @@ fn extract_vec_from_cpu_storage<T: Clone + 'static>(cpu_storage: &CpuStorage, la
     let target_dtype = get_dtype_for_type::<T>()
         .ok_or_else(|| HoduError::InternalError("Unsupported type for extraction".to_string()))?;
 
-    let cpu_storage = if cpu_storage.dtype() != target_dtype {
-        cpu_storage.to_dtype(layout, target_dtype)?
+    // A converted storage is already contiguous, so the original strides and offset no longer apply to it.
+    let (cpu_storage, layout) = if cpu_storage.dtype() != target_dtype {
+        (
+            cpu_storage.to_dtype(layout, target_dtype)?,
+            Layout::from_shape(layout.shape()),
+        )
     } else {
-        cpu_storage.clone()
+        (cpu_storage.clone(), layout.clone())
     };
+    let layout = &layout;
 
     let total_elements = layout.shape().dims().iter().copied().product::<usize>();
     let mut result = Vec::with_capacity(total_elements);
@@ -370,15 +375,17 @@ fn extract_with_layout<T: Clone>(result: &mut Vec<T>, data: &[T], layout: &Layou
     let dims = layout.shape();
     let strides = layout.strides();
 
+    let offset = layout.offset();
+
     if layout.is_contiguous() {
-        result.extend_from_slice(data);
+        result.extend_from_slice(&data[offset..offset + layout.size()]);
     } else {
         let total_elements = dims.dims().iter().copied().product::<usize>();
         let ndim = dims.ndim();
         let mut indices = vec![0usize; ndim];
 
         for _ in 0..total_elements {
-            let flat_idx = indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
+            let flat_idx = offset + indices.iter().zip(strides.iter()).map(|(&i, &s)| i * s).sum::<usize>();
 
             if flat_idx < data.len() {
                 result.push(data[flat_idx].clone());
-- 
2.43.0


From c60e0855f111ae183a251c744f4c83e7f10b6bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 02/93] fix: to_bytes returns only the elements of a view that
 covers part of its storage

---
 crates/hodu_core/src/tensor/bytes.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 5b7a18f..346a00e 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -18,14 +18,22 @@ impl Tensor {
         let layout = self.layout();
 
         // Make contiguous if needed
-        let cpu_storage = if !layout.is_contiguous() {
+        let (cpu_storage, offset) = if !layout.is_contiguous() {
             let contiguous = self.contiguous()?;
-            contiguous.with_storage(|storage| storage.to_cpu_storage())?
+            (contiguous.with_storage(|storage| storage.to_cpu_storage())?, 0)
         } else {
-            cpu_storage
+            (cpu_storage, layout.offset())
         };
 
-        Ok(storage_to_bytes(&cpu_storage))
+        // A view may cover only part of its storage
+        let element_size = self.dtype().size_in_bytes();
+        let start = offset * element_size;
+        let end = start + layout.size() * element_size;
+        let mut bytes = storage_to_bytes(&cpu_storage);
+        bytes.truncate(end);
+        bytes.drain(..start);
+
+        Ok(bytes)
     }
 
     /// Create tensor from raw bytes on specified device
-- 
2.43.0


From 7aba695f648594ea28f40af9ae6f9d3be8a51041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 03/93] fix: flip honours the strides and offset of its input

---
 crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
index 0946a29..77ee983 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_shape_memory.rs
@@ -7,6 +7,12 @@ use crate::{
 use core::ffi::c_void;
 
 pub fn call_ops_flip(storage: &CpuStorage, layout: &Layout, dims: &[usize]) -> HoduResult<CpuStorage> {
+    // The kernel reads its input as packed row-major data
+    if !layout.is_contiguous() || layout.offset() != 0 {
+        let packed = storage.contiguous(layout)?;
+        return call_ops_flip(&packed, &Layout::from_shape(layout.shape()), dims);
+    }
+
     let dtype = storage.dtype();
     let shape = layout.shape();
     let num_els = shape.size();
-- 
2.43.0


From 44051caae9b4a746f188db1a504d1a01d87489b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 04/93] fix: element-wise, cast and contiguous kernels honour
 the offset of a scalar view

---
 crates/hodu_core/src/op_metadatas.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 6a094e3..5f1b02f 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -123,6 +123,11 @@ pub fn unary_metadata(input_layout: &Layout, output_layout: &Layout) -> Vec<usiz
     let num_els = output_layout.size();
     let num_dims = input_layout.ndim();
 
+    // Kernels read the offset only of layouts with dimensions, so pass a scalar view as one element of a vector
+    if num_dims == 0 && input_layout.offset() != 0 {
+        return vec![num_els, 1, 1, 1, input_layout.offset()];
+    }
+
     let mut metadata = Vec::with_capacity(2 + 2 * num_dims + 1);
 
     // num_els, num_dims
@@ -1617,6 +1622,11 @@ pub fn cast_metadata(layout: &Layout) -> Vec<usize> {
     let num_els = layout.size();
     let num_dims = shape.ndim();
 
+    // Kernels read the offset only of layouts with dimensions, so pass a scalar view as one element of a vector
+    if num_dims == 0 && layout.offset() != 0 {
+        return vec![num_els, 1, 1, 1, layout.offset()];
+    }
+
     let mut metadata = Vec::with_capacity(2 + 2 * num_dims + 1);
 
     // num_els, num_dims
-- 
2.43.0


From 59d1b6f936b0b55d536b6b1eb3890e331ca19814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 05/93] fix: slice with a negative step walks the dimension
 backwards

---
 crates/hodu_core/src/tensor/ops/shape.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 7e0dc97..2931245 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -474,6 +474,23 @@ impl Tensor {
         let step_scalar = step.into();
         let step_i32 = step_scalar.to_i32();
 
+        // Strides are unsigned, so walk a dimension backwards by slicing its reversal forwards
+        if step_i32 < 0 {
+            if let Some(dim_size) = self.dim_size(dim_i32) {
+                let dim_size = dim_size as i32;
+                let reversed = |index: i32| {
+                    let index = if index < 0 { dim_size + index } else { index };
+                    dim_size - 1 - index.clamp(-1, dim_size - 1)
+                };
+                return self.flip(&[dim_i32])?.slice(
+                    dim_i32,
+                    reversed(start_i32),
+                    end_i32.map(reversed),
+                    step_i32.saturating_neg(),
+                );
+            }
+        }
+
         let current_layout = self.layout();
         let new_layout = current_layout.slice(dim_i32, start_i32, end_i32, step_i32)?;
         let requires_grad = self.is_requires_grad();
-- 
2.43.0


From 820e8276c0c9b5f507693717816f26f083fe3f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 06/93] fix: element-wise results are row-major whatever the
 layout of the operands

---
 crates/hodu_core/src/tensor/ops/binary.rs     | 12 ++++++-----
 crates/hodu_core/src/tensor/ops/bitwise.rs    | 16 ++++++++------
 .../hodu_core/src/tensor/ops/cast_memory.rs   |  7 ++++---
 crates/hodu_core/src/tensor/ops/cmp.rs        | 12 ++++++-----
 crates/hodu_core/src/tensor/ops/unary.rs      | 21 +++++++++++--------
 5 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/binary.rs b/crates/hodu_core/src/tensor/ops/binary.rs
index 5265fb7..ff3fe28 100644
--- a/crates/hodu_core/src/tensor/ops/binary.rs
+++ b/crates/hodu_core/src/tensor/ops/binary.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     ops::{BinaryLogicalOp, BinaryLogicalParams, BinaryOp, BinaryParams, Op, OpParams},
     tensor::{create_builder_tensor, from_storage_with_context, gradient, utils::broadcast_tensors2, Tensor},
-    types::DType,
+    types::{DType, Layout},
     utils::valid::{
         validate_dtype_for_device, validate_dtype_for_op, validate_requires_grad_for_op, validate_same_device,
         validate_same_dtype,
@@ -24,7 +24,7 @@ macro_rules! binary_op {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
                 let requires_grad = (lhs.is_requires_grad() || rhs.is_requires_grad()) && validate_requires_grad;
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) =
                     create_builder_tensor(result_layout.clone(), lhs.dtype(), requires_grad);
 
@@ -65,7 +65,8 @@ macro_rules! binary_op {
                 let requires_grad = lhs.is_requires_grad() || rhs.is_requires_grad();
                 let requires_grad = requires_grad && validate_requires_grad;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, requires_grad);
+                let result_layout = Layout::from_shape(lhs_layout.shape());
+                let result = from_storage_with_context(storage, result_layout, true, requires_grad);
 
                 if !gradient::is_computing_gradients() && requires_grad {
                     gradient::record_operation(
@@ -95,7 +96,7 @@ macro_rules! binary_logical_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -123,7 +124,8 @@ macro_rules! binary_logical_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result_layout = Layout::from_shape(lhs_layout.shape());
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/bitwise.rs b/crates/hodu_core/src/tensor/ops/bitwise.rs
index 0c99d08..a48285b 100644
--- a/crates/hodu_core/src/tensor/ops/bitwise.rs
+++ b/crates/hodu_core/src/tensor/ops/bitwise.rs
@@ -5,6 +5,7 @@ use crate::{
         BitwiseBinaryOp, BitwiseBinaryParams, BitwiseUnaryOp, BitwiseUnaryParams, BitwiseUnaryScalarOp, Op, OpParams,
     },
     tensor::{create_builder_tensor, from_storage_with_context, utils::broadcast_tensors2, Tensor},
+    types::Layout,
     utils::valid::{validate_dtype_for_device, validate_dtype_for_op, validate_same_device, validate_same_dtype},
 };
 
@@ -21,7 +22,7 @@ macro_rules! bitwise_binary_op {
             if crate::snapshot::capture::is_active() {
                 let lhs_layout = lhs.layout();
                 let rhs_layout = rhs.layout();
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), lhs.dtype(), false);
 
@@ -51,7 +52,8 @@ macro_rules! bitwise_binary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result_layout = Layout::from_shape(lhs_layout.shape());
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
@@ -67,7 +69,7 @@ macro_rules! bitwise_unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -89,7 +91,8 @@ macro_rules! bitwise_unary_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result_layout = Layout::from_shape(input_layout.shape());
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
@@ -108,7 +111,7 @@ macro_rules! bitwise_scalar_shift_op {
 
             if crate::snapshot::capture::is_active() {
                 let input_layout = self.layout();
-                let result_layout = input_layout.clone();
+                let result_layout = Layout::from_shape(input_layout.shape());
                 // Bitwise ops don't support gradient, requires_grad is always false
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
 
@@ -134,7 +137,8 @@ macro_rules! bitwise_scalar_shift_op {
                 })?;
 
                 // Bitwise ops don't support gradient
-                let result = from_storage_with_context(storage, input_layout, true, false);
+                let result_layout = Layout::from_shape(input_layout.shape());
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index db71308..7c313fb 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -13,7 +13,8 @@ impl Tensor {
 
         if crate::snapshot::capture::is_active() {
             let input_layout = self.layout();
-            let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), dtype, false);
+            let result_layout = Layout::from_shape(input_layout.shape());
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), dtype, false);
 
             let op_params = OpParams::ToDType(ToDTypeParams { dtype });
 
@@ -22,8 +23,8 @@ impl Tensor {
                 Some(op_params),
                 vec![self.id()],
                 result_id,
-                vec![input_layout.clone()],
-                input_layout,
+                vec![input_layout],
+                result_layout,
             )?;
 
             Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/cmp.rs b/crates/hodu_core/src/tensor/ops/cmp.rs
index 9d1b42a..4d11854 100644
--- a/crates/hodu_core/src/tensor/ops/cmp.rs
+++ b/crates/hodu_core/src/tensor/ops/cmp.rs
@@ -21,7 +21,7 @@ macro_rules! cmp_op {
             let rhs_layout = rhs.layout();
 
             if crate::snapshot::capture::is_active() {
-                let result_layout = lhs_layout.clone();
+                let result_layout = Layout::from_shape(lhs_layout.shape());
                 let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
@@ -41,7 +41,8 @@ macro_rules! cmp_op {
                     })
                 })?;
 
-                let result = from_storage_with_context(storage, lhs_layout, true, false);
+                let result_layout = Layout::from_shape(lhs_layout.shape());
+                let result = from_storage_with_context(storage, result_layout, true, false);
 
                 Ok(result)
             }
@@ -59,15 +60,16 @@ macro_rules! cmp_scalar_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(input_layout.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::CmpScalar(CmpScalarOp::$op_name),
                     Some(OpParams::CmpScalar(CmpScalarParams { scalar })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
diff --git a/crates/hodu_core/src/tensor/ops/unary.rs b/crates/hodu_core/src/tensor/ops/unary.rs
index 841ac52..6763038 100644
--- a/crates/hodu_core/src/tensor/ops/unary.rs
+++ b/crates/hodu_core/src/tensor/ops/unary.rs
@@ -18,16 +18,17 @@ macro_rules! unary_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(input_layout.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::Unary(UnaryOp::$op_name),
                     Some(OpParams::Unary(UnaryParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
@@ -73,15 +74,16 @@ macro_rules! unary_logical_op {
             let input_layout = self.layout();
 
             if crate::snapshot::capture::is_active() {
-                let (result_id, result_tensor) = create_builder_tensor(input_layout.clone(), DType::BOOL, false);
+                let result_layout = Layout::from_shape(input_layout.shape());
+                let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), DType::BOOL, false);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryLogical(UnaryLogicalOp::$op_name),
                     Some(OpParams::UnaryLogical(UnaryLogicalParams)),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 Ok(result_tensor)
@@ -112,16 +114,17 @@ macro_rules! unary_scalar_op {
 
             if crate::snapshot::capture::is_active() {
                 let requires_grad = self.is_requires_grad() && validate_requires_grad;
+                let result_layout = Layout::from_shape(input_layout.shape());
                 let (result_id, result_tensor) =
-                    create_builder_tensor(input_layout.clone(), self.dtype(), requires_grad);
+                    create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
                 crate::snapshot::capture::capture_operation(
                     Op::UnaryScalar(UnaryScalarOp::$op_name),
                     Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: scalar_value })),
                     vec![self.id()],
                     result_id,
-                    vec![input_layout.clone()],
-                    input_layout,
+                    vec![input_layout],
+                    result_layout,
                 )?;
 
                 if requires_grad {
-- 
2.43.0


From f1e5ab3d2bd56ca2294c6efef436dd107e59603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 07/93] fix: gather, scatter and index_put results are
 row-major whatever the layout of the operands

---
 crates/hodu_core/src/tensor/ops/indexing.rs | 30 ++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/indexing.rs b/crates/hodu_core/src/tensor/ops/indexing.rs
index 3401240..50556f0 100644
--- a/crates/hodu_core/src/tensor/ops/indexing.rs
+++ b/crates/hodu_core/src/tensor/ops/indexing.rs
@@ -113,7 +113,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::IndexPut))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::IndexPut));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let values_layout = values.layout();
 
@@ -128,7 +129,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), values.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), values_layout, indices_layout],
+                vec![self_layout.clone(), values_layout, indices_layout],
                 result_layout.clone(),
             )?;
 
@@ -147,7 +148,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     values.with_storage(|values_storage| {
                         storage.call_ops_index_put(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             values_storage,
@@ -194,7 +195,8 @@ impl Tensor {
 
         // Output has same shape as indices
         let self_layout = self.layout();
-        let result_layout = indices.layout();
+        let indices_layout = indices.layout();
+        let result_layout = Layout::from_shape(indices_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = self.is_requires_grad() && validate_requires_grad;
@@ -207,7 +209,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), indices.id()],
                 result_id,
-                vec![self_layout.clone(), result_layout.clone()],
+                vec![self_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -227,7 +229,7 @@ impl Tensor {
                     storage.call_ops_gather(
                         &self_layout,
                         indices_storage,
-                        &result_layout,
+                        &indices_layout,
                         dim_usize,
                         Op::Indexing(IndexingOp::Gather),
                     )
@@ -269,7 +271,8 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::Scatter));
 
         // Output has same shape as self
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
         let indices_layout = indices.layout();
         let src_layout = src.layout();
 
@@ -284,7 +287,7 @@ impl Tensor {
                 Some(op_params.clone()),
                 vec![self.id(), src.id(), indices.id()],
                 result_id,
-                vec![result_layout.clone(), src_layout.clone(), indices_layout.clone()],
+                vec![self_layout.clone(), src_layout.clone(), indices_layout.clone()],
                 result_layout,
             )?;
 
@@ -303,7 +306,7 @@ impl Tensor {
                 indices.with_storage(|indices_storage| {
                     src.with_storage(|src_storage| {
                         storage.call_ops_scatter(
-                            &result_layout,
+                            &self_layout,
                             indices_storage,
                             &indices_layout,
                             src_storage,
@@ -349,7 +352,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterAdd))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterAdd));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -427,7 +431,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMax))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMax));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
@@ -505,7 +510,8 @@ impl Tensor {
         validate_indices_dtype(indices, Op::Indexing(IndexingOp::ScatterMin))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Indexing(IndexingOp::ScatterMin));
 
-        let result_layout = self.layout();
+        let self_layout = self.layout();
+        let result_layout = Layout::from_shape(self_layout.shape());
 
         if crate::snapshot::capture::is_active() {
             let requires_grad = (self.is_requires_grad() || src.is_requires_grad()) && validate_requires_grad;
-- 
2.43.0


From 2773985451ebce85ab89de74cf7c09d681e661ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 08/93] fix: topk reads the rearranged input it computed, not
 the original storage

---
 crates/hodu_core/src/tensor/ops/sort.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/sort.rs b/crates/hodu_core/src/tensor/ops/sort.rs
index 9860e95..12196e1 100644
--- a/crates/hodu_core/src/tensor/ops/sort.rs
+++ b/crates/hodu_core/src/tensor/ops/sort.rs
@@ -143,7 +143,7 @@ impl Tensor {
             let mut kernel_output_shape = input_shape.dims().to_vec();
             kernel_output_shape[ndim - 1] = k;
 
-            let (values_storage, indices_storage) = self
+            let (values_storage, indices_storage) = input
                 .with_storage(|storage| storage.call_topk(&input.layout(), k, last_dim, outer_size, largest, sorted))?;
 
             let values = from_storage_with_context(
-- 
2.43.0


From 06c0cd401659775f5ba6af7a89965abca6f24e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 09/93] fix: dispatch the remainder kernels, rem and rem_scalar
 panicked for every element type

---
 crates/hodu_cpu_kernels/src/kernels/ops_binary.rs | 2 ++
 crates/hodu_cpu_kernels/src/kernels/ops_unary.rs  | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
index e2d8232..f58b9f0 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_binary.rs
@@ -17,6 +17,7 @@ ops!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
@@ -176,6 +177,7 @@ declare_and_dispatch_binary!(
     sub,
     mul,
     div,
+    rem,
     pow,
     maximum,
     minimum,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
index 0e43d10..cd2895a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_unary.rs
@@ -62,6 +62,7 @@ ops!(
     sub_scalar,
     mul_scalar,
     div_scalar,
+    rem_scalar,
     pow_scalar,
     maximum_scalar,
     minimum_scalar,
@@ -321,7 +322,7 @@ declare_and_dispatch_unary!(
         isnan, isinf, isfinite
     ],
     scalar_ops: [
-        add_scalar, sub_scalar, mul_scalar, div_scalar, pow_scalar,
+        add_scalar, sub_scalar, mul_scalar, div_scalar, rem_scalar, pow_scalar,
         maximum_scalar, minimum_scalar,
         eq_scalar, ne_scalar, lt_scalar, le_scalar, gt_scalar, ge_scalar
     ]
-- 
2.43.0


From c7184414fb42c0a6bb1aa097418fc59743a07537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 10/93] fix: argmax, argmin, any and all produce int32 and bool
 results, and accept bool and f64

---
 .../src/be_cpu/storage/ops_reduce.rs          | 53 +++++++++++++++++--
 crates/hodu_core/src/tensor/ops/reduce.rs     |  1 +
 .../src/kernels/ops_reduce.rs                 |  4 ++
 3 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
index 2989fdd..0c4952f 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_reduce.rs
@@ -2,8 +2,8 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
-    types::{Layout, Shape},
+    ops::{Op, ReduceOp},
+    types::{DType, Layout, Shape},
 };
 use core::ffi::c_void;
 
@@ -73,8 +73,12 @@ pub fn call_ops_reduce(
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-    // Create output storage
-    let dtype = storage.dtype();
+    // Create output storage: index and logical reductions have their own element type
+    let dtype = match reduce_op {
+        ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
+        ReduceOp::Any | ReduceOp::All => DType::BOOL,
+        _ => storage.dtype(),
+    };
     let mut output = CpuDevice::allocate(output_shape.size(), dtype)?;
 
     // Get raw pointers and call kernel
@@ -87,6 +91,47 @@ pub fn call_ops_reduce(
         }};
     }
 
+    // Dispatch over the input type for reductions whose output type is fixed
+    macro_rules! call_kernel_fixed_output {
+        ($out_data:expr) => {
+            match storage {
+                CpuStorage::BOOL(input) => call_kernel!(input, $out_data),
+                CpuStorage::F8E4M3(input) => call_kernel!(input, $out_data),
+                #[cfg(feature = "f8e5m2")]
+                CpuStorage::F8E5M2(input) => call_kernel!(input, $out_data),
+                CpuStorage::BF16(input) => call_kernel!(input, $out_data),
+                CpuStorage::F16(input) => call_kernel!(input, $out_data),
+                CpuStorage::F32(input) => call_kernel!(input, $out_data),
+                #[cfg(feature = "f64")]
+                CpuStorage::F64(input) => call_kernel!(input, $out_data),
+                CpuStorage::U8(input) => call_kernel!(input, $out_data),
+                #[cfg(feature = "u16")]
+                CpuStorage::U16(input) => call_kernel!(input, $out_data),
+                CpuStorage::U32(input) => call_kernel!(input, $out_data),
+                #[cfg(feature = "u64")]
+                CpuStorage::U64(input) => call_kernel!(input, $out_data),
+                CpuStorage::I8(input) => call_kernel!(input, $out_data),
+                #[cfg(feature = "i16")]
+                CpuStorage::I16(input) => call_kernel!(input, $out_data),
+                CpuStorage::I32(input) => call_kernel!(input, $out_data),
+                #[cfg(feature = "i64")]
+                CpuStorage::I64(input) => call_kernel!(input, $out_data),
+            }
+        };
+    }
+
+    match (reduce_op, &mut output) {
+        (ReduceOp::ArgMax | ReduceOp::ArgMin, CpuStorage::I32(out)) => {
+            call_kernel_fixed_output!(out);
+            return Ok(output);
+        },
+        (ReduceOp::Any | ReduceOp::All, CpuStorage::BOOL(out)) => {
+            call_kernel_fixed_output!(out);
+            return Ok(output);
+        },
+        _ => {},
+    }
+
     match (storage, &mut output) {
         (CpuStorage::F8E4M3(input), CpuStorage::F8E4M3(out)) => call_kernel!(input, out),
         #[cfg(feature = "f8e5m2")]
diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index adb5ac2..3da268b 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -186,6 +186,7 @@ impl Tensor {
 
             // Determine output dtype based on operation
             let output_dtype = match reduce_op {
+                ReduceOp::ArgMax | ReduceOp::ArgMin => DType::I32,
                 ReduceOp::Any | ReduceOp::All => DType::BOOL,
                 _ => self.dtype(),
             };
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
index 47c8e89..aa7a1e3 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_reduce.rs
@@ -327,6 +327,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmax_bf16"
             | "hodu_cpu_argmax_f16"
             | "hodu_cpu_argmax_f32"
+            | "hodu_cpu_argmax_f64"
             | "hodu_cpu_argmax_i8"
             | "hodu_cpu_argmax_i16"
             | "hodu_cpu_argmax_i32"
@@ -341,6 +342,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_argmin_bf16"
             | "hodu_cpu_argmin_f16"
             | "hodu_cpu_argmin_f32"
+            | "hodu_cpu_argmin_f64"
             | "hodu_cpu_argmin_i8"
             | "hodu_cpu_argmin_i16"
             | "hodu_cpu_argmin_i32"
@@ -355,6 +357,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_any_bf16"
             | "hodu_cpu_any_f16"
             | "hodu_cpu_any_f32"
+            | "hodu_cpu_any_f64"
             | "hodu_cpu_any_i8"
             | "hodu_cpu_any_i16"
             | "hodu_cpu_any_i32"
@@ -369,6 +372,7 @@ unsafe fn dispatch_reduce(name: &str, input: *const c_void, output: *mut c_void,
             | "hodu_cpu_all_bf16"
             | "hodu_cpu_all_f16"
             | "hodu_cpu_all_f32"
+            | "hodu_cpu_all_f64"
             | "hodu_cpu_all_i8"
             | "hodu_cpu_all_i16"
             | "hodu_cpu_all_i32"
-- 
2.43.0


From ad0748ea1a215fa780c464ed693a8c87307a8956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 11/93] fix: relu on signed integer tensors, it panicked
 because only floating-point kernels exist

---
 crates/hodu_core/src/be_cpu/storage/ops_unary.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_unary.rs b/crates/hodu_core/src/be_cpu/storage/ops_unary.rs
index 53bc2e5..1fe9159 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_unary.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_unary.rs
@@ -2,7 +2,7 @@ use crate::{
     be::{device::BackendDeviceT, storage::BackendStorageT},
     be_cpu::{device::CpuDevice, storage::CpuStorage},
     error::{HoduError, HoduResult},
-    ops::Op,
+    ops::{Op, UnaryOp, UnaryScalarOp},
     scalar::Scalar,
     types::{DType, Layout},
 };
@@ -90,6 +90,16 @@ pub fn call_ops_unary(input_storage: &CpuStorage, input_layout: &Layout, op: Op)
         _ => return Err(HoduError::BackendError("Lcall_unaryE expects LunaryE op".to_string())),
     };
 
+    // The relu kernels are floating point only; on integers relu(x) = max(x, 0)
+    if unary_op == UnaryOp::Relu && !input_storage.dtype().is_float() {
+        return call_ops_unary_scalar(
+            input_storage,
+            input_layout,
+            Scalar::zero(input_storage.dtype()),
+            Op::UnaryScalar(UnaryScalarOp::MaximumScalar),
+        );
+    }
+
     let shape = input_layout.shape();
     let num_els = shape.size();
 
-- 
2.43.0


From 3ec0f805a6753c98308de5f98e9374377d20c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 12/93] fix: leaky_relu, elu and prelu on the CPU, they
 panicked because no kernel exists

---
 .../hodu_core/src/be_cpu/storage/ops_unary.rs | 81 +++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_unary.rs b/crates/hodu_core/src/be_cpu/storage/ops_unary.rs
index 1fe9159..71f294d 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_unary.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_unary.rs
@@ -246,6 +246,13 @@ pub fn call_ops_unary_scalar(
         },
     };
 
+    if matches!(
+        unary_op,
+        UnaryScalarOp::LeakyRelu | UnaryScalarOp::Elu | UnaryScalarOp::Prelu
+    ) {
+        return call_activation_scalar(input_storage, input_layout, scalar, unary_op);
+    }
+
     let shape = input_layout.shape();
     let num_els = shape.size();
 
@@ -305,3 +312,77 @@ pub fn call_ops_unary_scalar(
 
     Ok(output)
 }
+
+/// Activations with a scalar parameter (leaky_relu, elu, prelu), which have no C kernel.
+fn call_activation_scalar(
+    input_storage: &CpuStorage,
+    input_layout: &Layout,
+    scalar: Scalar,
+    unary_op: UnaryScalarOp,
+) -> HoduResult<CpuStorage> {
+    let dims = input_layout.shape().dims();
+    let strides = input_layout.strides();
+    let num_els = input_layout.shape().size();
+
+    // Storage index of the i-th element in row-major order
+    let index = |mut i: usize| {
+        let mut idx = input_layout.offset();
+        for (&dim, &stride) in dims.iter().zip(strides).rev() {
+            idx += (i % dim) * stride;
+            i /= dim;
+        }
+        idx
+    };
+
+    macro_rules! activation {
+        ($data:expr, $alpha:expr, $to:expr, $from:expr) => {{
+            let alpha = $to($alpha);
+            (0..num_els)
+                .map(|i| {
+                    let x = $to($data[index(i)]);
+                    $from(if x > 0.0 {
+                        x
+                    } else if unary_op == UnaryScalarOp::Elu {
+                        alpha * x.exp_m1()
+                    } else {
+                        alpha * x
+                    })
+                })
+                .collect()
+        }};
+    }
+
+    match (input_storage, scalar) {
+        (CpuStorage::F8E4M3(d), Scalar::F8E4M3(a)) => Ok(CpuStorage::F8E4M3(activation!(
+            d,
+            a,
+            |v: float8::F8E4M3| v.to_f32(),
+            float8::F8E4M3::from_f32
+        ))),
+        #[cfg(feature = "f8e5m2")]
+        (CpuStorage::F8E5M2(d), Scalar::F8E5M2(a)) => Ok(CpuStorage::F8E5M2(activation!(
+            d,
+            a,
+            |v: float8::F8E5M2| v.to_f32(),
+            float8::F8E5M2::from_f32
+        ))),
+        (CpuStorage::BF16(d), Scalar::BF16(a)) => Ok(CpuStorage::BF16(activation!(
+            d,
+            a,
+            half::bf16::to_f32,
+            half::bf16::from_f32
+        ))),
+        (CpuStorage::F16(d), Scalar::F16(a)) => Ok(CpuStorage::F16(activation!(
+            d,
+            a,
+            half::f16::to_f32,
+            half::f16::from_f32
+        ))),
+        (CpuStorage::F32(d), Scalar::F32(a)) => Ok(CpuStorage::F32(activation!(d, a, |v: f32| v, |v: f32| v))),
+        #[cfg(feature = "f64")]
+        (CpuStorage::F64(d), Scalar::F64(a)) => Ok(CpuStorage::F64(activation!(d, a, |v: f64| v, |v: f64| v))),
+        _ => Err(HoduError::BackendError(
+            "mismatched storage/scalar types in call_unary_scalar".to_string(),
+        )),
+    }
+}
-- 
2.43.0


From 1bb4ecd93c9758159e46530117511debd22c2875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 13/93] fix: transposed convolutions with output padding
 allocate the padded output

---
 crates/hodu_core/src/be/storage.rs            |   5 +
 crates/hodu_core/src/be_cpu/storage.rs        |   2 +
 .../hodu_core/src/be_cpu/storage/ops_conv.rs  | 143 ++++--------------
 crates/hodu_core/src/be_cuda/storage.rs       |  13 +-
 .../hodu_core/src/be_cuda/storage/ops_conv.rs |  18 +--
 crates/hodu_core/src/be_metal/storage.rs      |   2 +
 .../src/be_metal/storage/ops_conv.rs          |  18 +--
 crates/hodu_core/src/tensor/ops/conv.rs       |   6 +
 8 files changed, 59 insertions(+), 148 deletions(-)

diff --git a/crates/hodu_core/src/be/storage.rs b/crates/hodu_core/src/be/storage.rs
index b469a4f..a6d57eb 100644
--- a/crates/hodu_core/src/be/storage.rs
+++ b/crates/hodu_core/src/be/storage.rs
@@ -113,6 +113,7 @@ pub trait BackendStorageT: Sized {
         _: &Layout,
         _: &Self,
         _: &Layout,
+        _: &Shape,
         _: &[usize],
         _: &[usize],
         _: &[usize],
@@ -1031,6 +1032,7 @@ impl BackendStorage {
         layout: &Layout,
         weight_storage: &Self,
         weight_layout: &Layout,
+        output_shape: &Shape,
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
@@ -1051,6 +1053,7 @@ impl BackendStorage {
                 layout,
                 weight,
                 weight_layout,
+                output_shape,
                 stride,
                 padding,
                 dilation,
@@ -1061,6 +1064,7 @@ impl BackendStorage {
                 layout,
                 weight,
                 weight_layout,
+                output_shape,
                 stride,
                 padding,
                 dilation,
@@ -1071,6 +1075,7 @@ impl BackendStorage {
                 layout,
                 weight,
                 weight_layout,
+                output_shape,
                 stride,
                 padding,
                 dilation,
diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 77fceee..691245d 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -569,6 +569,7 @@ impl BackendStorageT for CpuStorage {
         layout: &Layout,
         weight_storage: &Self,
         weight_layout: &Layout,
+        output_shape: &crate::types::Shape,
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
@@ -579,6 +580,7 @@ impl BackendStorageT for CpuStorage {
             layout,
             weight_storage,
             weight_layout,
+            output_shape,
             stride,
             padding,
             dilation,
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 79cd064..2565da8 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -27,6 +27,7 @@ pub fn call_ops_conv(
     input_layout: &Layout,
     weight_storage: &CpuStorage,
     weight_layout: &Layout,
+    output_shape: &Shape,
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
@@ -78,9 +79,7 @@ pub fn call_ops_conv(
         )));
     }
 
-    let batch_size = input_shape.dims()[0];
     let in_channels = input_shape.dims()[1];
-    let out_channels = weight_shape.dims()[0];
 
     // Validate in_channels match
     if weight_shape.dims()[1] != in_channels {
@@ -91,120 +90,32 @@ pub fn call_ops_conv(
         )));
     }
 
-    // Build metadata and compute output shape based on spatial dimensions
-    let (metadata, output_shape) = match spatial_dims {
-        1 => {
-            let in_width = input_shape.dims()[2];
-            let kernel_width = weight_shape.dims()[2];
-            let stride_w = stride[0];
-            let padding_w = padding[0];
-            let dilation_w = dilation[0];
-
-            let out_width = if matches!(conv_op, ConvOp::ConvTranspose1d) {
-                // Transposed convolution
-                (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1
-            } else {
-                // Standard convolution
-                (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1
-            };
-
-            let output_shape = Shape::new(&[batch_size, out_channels, out_width]);
-
-            let output_shape_vec = vec![batch_size, out_channels, out_width];
-            let metadata = crate::op_metadatas::conv1d_metadata(
-                input_layout,
-                weight_layout,
-                stride_w,
-                padding_w,
-                dilation_w,
-                &output_shape_vec,
-            );
-
-            (metadata, output_shape)
-        },
-        2 => {
-            let in_height = input_shape.dims()[2];
-            let in_width = input_shape.dims()[3];
-            let kernel_height = weight_shape.dims()[2];
-            let kernel_width = weight_shape.dims()[3];
-            let stride_h = stride[0];
-            let stride_w = stride[1];
-            let padding_h = padding[0];
-            let padding_w = padding[1];
-            let dilation_h = dilation[0];
-            let dilation_w = dilation[1];
-
-            let (out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose2d) {
-                // Transposed convolution
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
-                (out_h, out_w)
-            } else {
-                // Standard convolution
-                let out_h = (in_height + 2 * padding_h - dilation_h * (kernel_height - 1) - 1) / stride_h + 1;
-                let out_w = (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1;
-                (out_h, out_w)
-            };
-
-            let output_shape = Shape::new(&[batch_size, out_channels, out_height, out_width]);
-
-            let output_shape_vec = vec![batch_size, out_channels, out_height, out_width];
-            let metadata = crate::op_metadatas::conv2d_metadata(
-                input_layout,
-                weight_layout,
-                &[stride_h, stride_w],
-                &[padding_h, padding_w],
-                &[dilation_h, dilation_w],
-                &output_shape_vec,
-            );
-
-            (metadata, output_shape)
-        },
-        3 => {
-            let in_depth = input_shape.dims()[2];
-            let in_height = input_shape.dims()[3];
-            let in_width = input_shape.dims()[4];
-            let kernel_depth = weight_shape.dims()[2];
-            let kernel_height = weight_shape.dims()[3];
-            let kernel_width = weight_shape.dims()[4];
-            let stride_d = stride[0];
-            let stride_h = stride[1];
-            let stride_w = stride[2];
-            let padding_d = padding[0];
-            let padding_h = padding[1];
-            let padding_w = padding[2];
-            let dilation_d = dilation[0];
-            let dilation_h = dilation[1];
-            let dilation_w = dilation[2];
-
-            let (out_depth, out_height, out_width) = if matches!(conv_op, ConvOp::ConvTranspose3d) {
-                // Transposed convolution
-                let out_d = (in_depth - 1) * stride_d - 2 * padding_d + dilation_d * (kernel_depth - 1) + 1;
-                let out_h = (in_height - 1) * stride_h - 2 * padding_h + dilation_h * (kernel_height - 1) + 1;
-                let out_w = (in_width - 1) * stride_w - 2 * padding_w + dilation_w * (kernel_width - 1) + 1;
-                (out_d, out_h, out_w)
-            } else {
-                // Standard convolution
-                let out_d = (in_depth + 2 * padding_d - dilation_d * (kernel_depth - 1) - 1) / stride_d + 1;
-                let out_h = (in_height + 2 * padding_h - dilation_h * (kernel_height - 1) - 1) / stride_h + 1;
-                let out_w = (in_width + 2 * padding_w - dilation_w * (kernel_width - 1) - 1) / stride_w + 1;
-                (out_d, out_h, out_w)
-            };
-
-            let output_shape = Shape::new(&[batch_size, out_channels, out_depth, out_height, out_width]);
-
-            let output_shape_vec = vec![batch_size, out_channels, out_depth, out_height, out_width];
-            let metadata = crate::op_metadatas::conv3d_metadata(
-                input_layout,
-                weight_layout,
-                &[stride_d, stride_h, stride_w],
-                &[padding_d, padding_h, padding_w],
-                &[dilation_d, dilation_h, dilation_w],
-                &output_shape_vec,
-            );
-
-            (metadata, output_shape)
-        },
+    // Build metadata based on spatial dimensions
+    let metadata = match spatial_dims {
+        1 => crate::op_metadatas::conv1d_metadata(
+            input_layout,
+            weight_layout,
+            stride[0],
+            padding[0],
+            dilation[0],
+            output_shape.dims(),
+        ),
+        2 => crate::op_metadatas::conv2d_metadata(
+            input_layout,
+            weight_layout,
+            stride,
+            padding,
+            dilation,
+            output_shape.dims(),
+        ),
+        3 => crate::op_metadatas::conv3d_metadata(
+            input_layout,
+            weight_layout,
+            stride,
+            padding,
+            dilation,
+            output_shape.dims(),
+        ),
         _ => unreachable!(),
     };
 
diff --git a/crates/hodu_core/src/be_cuda/storage.rs b/crates/hodu_core/src/be_cuda/storage.rs
index 3269532..c6389fd 100644
--- a/crates/hodu_core/src/be_cuda/storage.rs
+++ b/crates/hodu_core/src/be_cuda/storage.rs
@@ -482,12 +482,23 @@ impl BackendStorageT for CudaStorage {
         layout: &Layout,
         weight: &Self,
         weight_layout: &Layout,
+        output_shape: &crate::types::Shape,
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
-        ops_conv::call_ops_conv(self, layout, weight, weight_layout, stride, padding, dilation, op)
+        ops_conv::call_ops_conv(
+            self,
+            layout,
+            weight,
+            weight_layout,
+            output_shape,
+            stride,
+            padding,
+            dilation,
+            op,
+        )
     }
 
     fn call_ops_conv_grad_weight(
diff --git a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
index e95ca1b..7983331 100644
--- a/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cuda/storage/ops_conv.rs
@@ -3,7 +3,7 @@ use crate::{
     be_cuda::storage::{CudaStorage, CudaStorageData},
     error::{HoduError, HoduResult},
     ops::Op,
-    types::Layout,
+    types::{Layout, Shape},
 };
 use hodu_cuda_kernels::{cuda::CudaSlice, kernels};
 
@@ -13,6 +13,7 @@ pub fn call_ops_conv(
     input_layout: &Layout,
     weight_storage: &CudaStorage,
     weight_layout: &Layout,
+    output_shape: &Shape,
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
@@ -24,22 +25,9 @@ pub fn call_ops_conv(
     };
 
     let input_shape = input_layout.shape();
-    let weight_shape = weight_layout.shape();
-
-    let batch_size = input_shape[0];
-    let out_channels = weight_shape[0];
 
     let spatial_dims = input_shape.ndim() - 2;
-    let mut output_shape_vec = Vec::with_capacity(spatial_dims + 2);
-    output_shape_vec.push(batch_size);
-    output_shape_vec.push(out_channels);
-
-    for i in 0..spatial_dims {
-        let input_size = input_shape[2 + i];
-        let kernel_size = weight_shape[2 + i];
-        let output_size = (input_size + 2 * padding[i] - dilation[i] * (kernel_size - 1) - 1) / stride[i] + 1;
-        output_shape_vec.push(output_size);
-    }
+    let output_shape_vec = output_shape.dims().to_vec();
 
     let output_size: usize = output_shape_vec.iter().product();
 
diff --git a/crates/hodu_core/src/be_metal/storage.rs b/crates/hodu_core/src/be_metal/storage.rs
index cda3dd8..fb593ea 100644
--- a/crates/hodu_core/src/be_metal/storage.rs
+++ b/crates/hodu_core/src/be_metal/storage.rs
@@ -404,6 +404,7 @@ impl BackendStorageT for MetalStorage {
         layout: &Layout,
         weight_storage: &Self,
         weight_layout: &Layout,
+        output_shape: &crate::types::Shape,
         stride: &[usize],
         padding: &[usize],
         dilation: &[usize],
@@ -414,6 +415,7 @@ impl BackendStorageT for MetalStorage {
             layout,
             weight_storage,
             weight_layout,
+            output_shape,
             stride,
             padding,
             dilation,
diff --git a/crates/hodu_core/src/be_metal/storage/ops_conv.rs b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
index a28a7bc..9a45531 100644
--- a/crates/hodu_core/src/be_metal/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_metal/storage/ops_conv.rs
@@ -13,6 +13,7 @@ pub fn call_ops_conv(
     input_layout: &Layout,
     weight_storage: &MetalStorage,
     weight_layout: &Layout,
+    output_shape: &Shape,
     stride: &[usize],
     padding: &[usize],
     dilation: &[usize],
@@ -25,7 +26,6 @@ pub fn call_ops_conv(
     };
 
     let input_shape = input_layout.shape();
-    let weight_shape = weight_layout.shape();
     let input_ndim = input_shape.ndim();
 
     // Validate conv dimensions (needs at least [N, C, ...spatial])
@@ -37,21 +37,7 @@ pub fn call_ops_conv(
 
     let spatial_dims = input_ndim - 2;
 
-    // Compute output spatial dimensions
-    let mut output_shape_vec: Vec<usize> = vec![input_shape.dims()[0], weight_shape.dims()[0]];
-
-    for i in 0..spatial_dims {
-        let input_size = input_shape.dims()[2 + i];
-        let kernel_size = weight_shape.dims()[2 + i];
-        let s = stride[i];
-        let p = padding[i];
-        let d = dilation[i];
-
-        let output_size = (input_size + 2 * p - d * (kernel_size - 1) - 1) / s + 1;
-        output_shape_vec.push(output_size);
-    }
-
-    let output_shape = Shape::new(&output_shape_vec);
+    let output_shape_vec = output_shape.dims().to_vec();
     let num_els = output_shape.size();
 
     // Generate metadata using centralized function based on spatial dimensions
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index c11a81e..8f9ac3e 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -112,6 +112,7 @@ impl Tensor {
                         &input_layout,
                         weight_storage,
                         &weight_layout,
+                        result_layout.shape(),
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
@@ -238,6 +239,7 @@ impl Tensor {
                         &input_layout,
                         weight_storage,
                         &weight_layout,
+                        result_layout.shape(),
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
@@ -369,6 +371,7 @@ impl Tensor {
                         &input_layout,
                         weight_storage,
                         &weight_layout,
+                        result_layout.shape(),
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
@@ -500,6 +503,7 @@ impl Tensor {
                         &input_layout,
                         weight_storage,
                         &weight_layout,
+                        result_layout.shape(),
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
@@ -637,6 +641,7 @@ impl Tensor {
                         &input_layout,
                         weight_storage,
                         &weight_layout,
+                        result_layout.shape(),
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
@@ -780,6 +785,7 @@ impl Tensor {
                         &input_layout,
                         weight_storage,
                         &weight_layout,
+                        result_layout.shape(),
                         &stride_arr,
                         &padding_arr,
                         &dilation_arr,
-- 
2.43.0


From 736f68a617cc2730630641c2591b6bb2e6038214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 14/93] fix: masked_fill and clamp keep the elements they
 should keep, the selection was inverted

---
 crates/hodu_core/src/tensor/ops/selection.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index df9ba35..830984e 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -20,7 +20,7 @@ impl Tensor {
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
         let value_scalar = value.into();
         let fill_tensor = Self::full_like(self, value_scalar)?;
-        self.where3(mask, &fill_tensor)
+        fill_tensor.where3(mask, self)
     }
 
     pub fn clamp<T: Into<Scalar>>(&self, min: T, max: T) -> HoduResult<Self> {
@@ -28,21 +28,21 @@ impl Tensor {
         let max_scalar = max.into();
 
         let min_tensor = Self::full_like(self, min_scalar)?;
-        let clamped_min = self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)?;
+        let clamped_min = min_tensor.where3(&self.lt_scalar(min_scalar)?, self)?;
 
         let max_tensor = Self::full_like(&clamped_min, max_scalar)?;
-        clamped_min.where3(&clamped_min.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&clamped_min.gt_scalar(max_scalar)?, &clamped_min)
     }
 
     pub fn clamp_min<T: Into<Scalar>>(&self, min: T) -> HoduResult<Self> {
         let min_scalar = min.into();
         let min_tensor = Self::full_like(self, min_scalar)?;
-        self.where3(&self.lt_scalar(min_scalar)?, &min_tensor)
+        min_tensor.where3(&self.lt_scalar(min_scalar)?, self)
     }
 
     pub fn clamp_max<T: Into<Scalar>>(&self, max: T) -> HoduResult<Self> {
         let max_scalar = max.into();
         let max_tensor = Self::full_like(self, max_scalar)?;
-        self.where3(&self.gt_scalar(max_scalar)?, &max_tensor)
+        max_tensor.where3(&self.gt_scalar(max_scalar)?, self)
     }
 }
-- 
2.43.0


From 756dfb2183a21fbab3629280305e33dbc6fd09ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 15/93] fix: where3 selects instead of blending, NaN and
 infinity leaked from the other value and bool failed

---
 crates/hodu_core/src/tensor/ops/selection.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/selection.rs b/crates/hodu_core/src/tensor/ops/selection.rs
index 830984e..0bd2935 100644
--- a/crates/hodu_core/src/tensor/ops/selection.rs
+++ b/crates/hodu_core/src/tensor/ops/selection.rs
@@ -2,19 +2,18 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{utils::broadcast_tensors3, Tensor},
+    types::DType,
 };
 
 impl Tensor {
     pub fn where3(&self, condition: &Tensor, other: &Tensor) -> HoduResult<Self> {
         let (condition, x, y) = broadcast_tensors3(condition, self, other)?;
 
-        let mask = condition.to_dtype(x.dtype())?;
-        let one = Self::ones_like(&mask)?;
-        let inv_mask = one.sub(&mask)?;
-
-        let x_part = mask.mul(&x)?;
-        let y_part = inv_mask.mul(&y)?;
-        x_part.add(&y_part)
+        // Pick one of the two values at each position; arithmetic on both would let a NaN or an infinity of the
+        // value that is not selected through
+        let choices = Self::stack(&[&y, &x], 0)?;
+        let index = condition.to_dtype(DType::BOOL)?.to_dtype(DType::I32)?.unsqueeze(0)?;
+        choices.gather(0, &index)?.squeeze(&[0])
     }
 
     pub fn masked_fill<T: Into<Scalar>>(&self, mask: &Tensor, value: T) -> HoduResult<Self> {
-- 
2.43.0


From 8902646ee210716a29af3c31478caef6711098e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 16/93] fix: index_put metadata has the fields the kernels
 read, values were taken from wrong places

---
 crates/hodu_core/src/op_metadatas.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index 5f1b02f..a3cfce1 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -735,7 +735,7 @@ pub fn index_select_metadata(layout: &Layout, dim: usize, num_indices: usize, ou
 /// Generate metadata for index_put operations
 ///
 /// Format:
-/// - [num_els, num_dims, input_shape, input_strides, input_offset, values_shape, values_strides, values_offset, dim, num_indices]
+/// - [num_els, num_dims, input_shape, input_strides, values_strides, input_offset, values_offset, dim, num_indices]
 pub fn index_put_metadata(
     layout: &Layout,
     values_layout: &Layout,
@@ -744,10 +744,9 @@ pub fn index_put_metadata(
     output_num_els: usize,
 ) -> Vec<usize> {
     let input_shape = layout.shape();
-    let values_shape = values_layout.shape();
     let ndim = input_shape.ndim();
 
-    let mut metadata = Vec::with_capacity(2 + ndim + ndim + 1 + ndim + ndim + 1 + 1 + 1);
+    let mut metadata = Vec::with_capacity(2 + 3 * ndim + 4);
 
     metadata.push(output_num_els);
     metadata.push(ndim);
@@ -759,15 +758,14 @@ pub fn index_put_metadata(
     for &s in layout.strides() {
         metadata.push(s);
     }
-    metadata.push(layout.offset());
 
-    // values shape and strides
-    for &d in values_shape.dims() {
-        metadata.push(d);
-    }
+    // values strides
     for &s in values_layout.strides() {
         metadata.push(s);
     }
+
+    // offsets
+    metadata.push(layout.offset());
     metadata.push(values_layout.offset());
 
     metadata.push(dim);
-- 
2.43.0


From 10b0218faee02de2278a18e05579a3bec56bd739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 17/93] fix: batched matmul with OpenBLAS aligns batch
 dimensions, it read outside the operands

---
 .../kernels/ops_matrix_openblas.c             | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 50bd87e..18f98c0 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -126,12 +126,18 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch dimensions are aligned at the innermost one
+                    size_t from_inner = batch_ndim - i;
+
+                    // Apply broadcasting: a missing dimension or one of size 1 uses index 0
+                    if (from_inner + 2 < lhs_ndim) {
+                        size_t d = lhs_ndim - 3 - from_inner;
+                        lhs_batch_offset += (lhs_shape[d] == 1) ? 0 : dim_idx * lhs_strides[d];
+                    }
+                    if (from_inner + 2 < rhs_ndim) {
+                        size_t d = rhs_ndim - 3 - from_inner;
+                        rhs_batch_offset += (rhs_shape[d] == 1) ? 0 : dim_idx * rhs_strides[d];
+                    }
                 }
 
                 const f32_t *lhs_batch = lhs + lhs_batch_offset;
@@ -256,12 +262,18 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
                     size_t dim_idx = idx % batch_shape[i - 1];
                     idx /= batch_shape[i - 1];
 
-                    // Apply broadcasting: if shape is 1, use index 0
-                    size_t lhs_dim_idx = (lhs_shape[lhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-                    size_t rhs_dim_idx = (rhs_shape[rhs_ndim - 2 - i] == 1) ? 0 : dim_idx;
-
-                    lhs_batch_offset += lhs_dim_idx * lhs_strides[lhs_ndim - 2 - i];
-                    rhs_batch_offset += rhs_dim_idx * rhs_strides[rhs_ndim - 2 - i];
+                    // Batch dimensions are aligned at the innermost one
+                    size_t from_inner = batch_ndim - i;
+
+                    // Apply broadcasting: a missing dimension or one of size 1 uses index 0
+                    if (from_inner + 2 < lhs_ndim) {
+                        size_t d = lhs_ndim - 3 - from_inner;
+                        lhs_batch_offset += (lhs_shape[d] == 1) ? 0 : dim_idx * lhs_strides[d];
+                    }
+                    if (from_inner + 2 < rhs_ndim) {
+                        size_t d = rhs_ndim - 3 - from_inner;
+                        rhs_batch_offset += (rhs_shape[d] == 1) ? 0 : dim_idx * rhs_strides[d];
+                    }
                 }
 
                 const f64_t *lhs_batch = lhs + lhs_batch_offset;
-- 
2.43.0


From fef0a83332f4b06e3b35114da8d959ba392326b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 18/93] fix: einsum passes the layout of every operand, the
 first one was left out

---
 crates/hodu_core/src/tensor/ops/einsum.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/einsum.rs b/crates/hodu_core/src/tensor/ops/einsum.rs
index 474e067..63c0b57 100644
--- a/crates/hodu_core/src/tensor/ops/einsum.rs
+++ b/crates/hodu_core/src/tensor/ops/einsum.rs
@@ -101,12 +101,11 @@ impl Tensor {
 
             Ok(result_tensor)
         } else {
-            let other_layouts: Vec<Layout> = tensors.iter().skip(1).map(|t| t.layout()).collect();
-            let input_layout_refs: Vec<&Layout> = other_layouts.iter().collect();
+            let input_layout_refs: Vec<&Layout> = input_layouts.iter().collect();
 
             // Execute with nested with_storage calls based on tensor count
             let storage = match tensors.len() {
-                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &[], &parsed))?,
+                1 => tensors[0].with_storage(|s0| s0.call_ops_einsum(&[], &input_layout_refs, &parsed))?,
                 2 => tensors[0].with_storage(|s0| {
                     tensors[1].with_storage(|s1| s0.call_ops_einsum(&[s1], &input_layout_refs, &parsed))
                 })?,
-- 
2.43.0


From e8a03a4b96a1d09ab78a6b05a9637717f9a894ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 19/93] fix: concat, conv, matmul, pad and index operands of
 any layout are packed for the kernels that need it

---
 crates/hodu_core/src/be_cpu/storage.rs        | 77 ++++++++++++++-----
 .../src/be_cpu/storage/ops_concat_split.rs    |  4 +-
 2 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage.rs b/crates/hodu_core/src/be_cpu/storage.rs
index 691245d..27cebed 100644
--- a/crates/hodu_core/src/be_cpu/storage.rs
+++ b/crates/hodu_core/src/be_cpu/storage.rs
@@ -31,6 +31,7 @@ use float8::F8E4M3;
 #[cfg(feature = "f8e5m2")]
 use float8::F8E5M2;
 use half::{bf16, f16};
+use std::borrow::Cow;
 
 #[derive(Debug, Clone)]
 pub enum CpuStorage {
@@ -285,6 +286,19 @@ impl CpuStorage {
     }
 }
 
+impl CpuStorage {
+    /// The elements `layout` denotes in row-major order from the start of a storage, and the layout that
+    /// says so, for kernels that address their operands as packed arrays. Copies only if it must.
+    fn packed<'a>(&'a self, layout: &Layout) -> HoduResult<(Cow<'a, Self>, Layout)> {
+        let storage = if layout.is_contiguous() && layout.offset() == 0 {
+            Cow::Borrowed(self)
+        } else {
+            Cow::Owned(self.contiguous(layout)?)
+        };
+        Ok((storage, Layout::from_shape(layout.shape())))
+    }
+}
+
 impl BackendStorageT for CpuStorage {
     type BackendDevice = CpuDevice;
 
@@ -456,7 +470,9 @@ impl BackendStorageT for CpuStorage {
         rhs_layout: &Layout,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_matrix::call_ops_matmul(self, rhs_storage, lhs_layout, rhs_layout, op)
+        let (lhs, lhs_layout) = self.packed(lhs_layout)?;
+        let (rhs, rhs_layout) = rhs_storage.packed(rhs_layout)?;
+        ops_matrix::call_ops_matmul(&lhs, &rhs, &lhs_layout, &rhs_layout, op)
     }
 
     fn call_ops_dot(&self, rhs_storage: &Self, lhs_layout: &Layout, rhs_layout: &Layout, op: Op) -> HoduResult<Self> {
@@ -480,7 +496,17 @@ impl BackendStorageT for CpuStorage {
     }
 
     fn call_ops_concat(&self, others: &[&Self], layouts: &[&Layout], dim: usize, op: Op) -> HoduResult<Self> {
-        ops_concat_split::call_ops_concat(self, others, layouts, dim, op)
+        let packed = std::iter::once(self)
+            .chain(others.iter().copied())
+            .zip(layouts)
+            .map(|(storage, layout)| storage.packed(layout))
+            .collect::<HoduResult<Vec<_>>>()?;
+        let storages: Vec<&Self> = packed.iter().map(|(storage, _)| storage.as_ref()).collect();
+        let layouts: Vec<&Layout> = packed.iter().map(|(_, layout)| layout).collect();
+        let (first, others) = storages
+            .split_first()
+            .ok_or_else(|| HoduError::BackendError("concat requires at least one input".to_string()))?;
+        ops_concat_split::call_ops_concat(first, others, &layouts, dim, op)
     }
 
     fn call_ops_split(&self, layout: &Layout, dim: usize, start: usize, size: usize, op: Op) -> HoduResult<Self> {
@@ -495,7 +521,8 @@ impl BackendStorageT for CpuStorage {
         dim: usize,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_indexing::call_ops_index_select(self, layout, indices_storage, indices_layout, dim, op)
+        let (indices, indices_layout) = indices_storage.packed(indices_layout)?;
+        ops_indexing::call_ops_index_select(self, layout, &indices, &indices_layout, dim, op)
     }
 
     fn call_ops_index_put(
@@ -508,13 +535,16 @@ impl BackendStorageT for CpuStorage {
         dim: usize,
         op: Op,
     ) -> HoduResult<Self> {
+        let (input, layout) = self.packed(layout)?;
+        let (indices, indices_layout) = indices_storage.packed(indices_layout)?;
+        let (values, values_layout) = values_storage.packed(values_layout)?;
         ops_indexing::call_ops_index_put(
-            self,
-            layout,
-            indices_storage,
-            indices_layout,
-            values_storage,
-            values_layout,
+            &input,
+            &layout,
+            &indices,
+            &indices_layout,
+            &values,
+            &values_layout,
             dim,
             op,
         )
@@ -561,7 +591,8 @@ impl BackendStorageT for CpuStorage {
         output_dtype: crate::types::DType,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_indexing::call_ops_onehot(self, layout, num_classes, axis, output_dtype, op)
+        let (indices, layout) = self.packed(layout)?;
+        ops_indexing::call_ops_onehot(&indices, &layout, num_classes, axis, output_dtype, op)
     }
 
     fn call_ops_conv(
@@ -575,11 +606,13 @@ impl BackendStorageT for CpuStorage {
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
+        let (input, layout) = self.packed(layout)?;
+        let (weight, weight_layout) = weight_storage.packed(weight_layout)?;
         ops_conv::call_ops_conv(
-            self,
-            layout,
-            weight_storage,
-            weight_layout,
+            &input,
+            &layout,
+            &weight,
+            &weight_layout,
             output_shape,
             stride,
             padding,
@@ -599,11 +632,13 @@ impl BackendStorageT for CpuStorage {
         dilation: &[usize],
         op: Op,
     ) -> HoduResult<Self> {
+        let (input, layout) = self.packed(layout)?;
+        let (grad_output, grad_output_layout) = grad_output_storage.packed(grad_output_layout)?;
         ops_conv::call_ops_conv_grad_weight(
-            self,
-            layout,
-            grad_output_storage,
-            grad_output_layout,
+            &input,
+            &layout,
+            &grad_output,
+            &grad_output_layout,
             weight_shape,
             stride,
             padding,
@@ -631,7 +666,8 @@ impl BackendStorageT for CpuStorage {
         pad_value: Scalar,
         op: Op,
     ) -> HoduResult<Self> {
-        ops_padding::call_ops_pad(self, layout, pad_before, pad_after, pad_value, op)
+        let (input, layout) = self.packed(layout)?;
+        ops_padding::call_ops_pad(&input, &layout, pad_before, pad_after, pad_value, op)
     }
 
     fn call_ops_resize(
@@ -689,7 +725,8 @@ impl BackendStorageT for CpuStorage {
         condition_layout: &Layout,
         axis: Option<usize>,
     ) -> HoduResult<(Self, usize)> {
-        ops_indexing::call_compress(self, layout, condition, condition_layout, axis)
+        let (condition, condition_layout) = condition.packed(condition_layout)?;
+        ops_indexing::call_compress(self, layout, &condition, &condition_layout, axis)
     }
 
     fn to_dtype(&self, layout: &Layout, target_dtype: DType) -> HoduResult<Self> {
diff --git a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
index 029394d..7060740 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_concat_split.rs
@@ -110,9 +110,9 @@ pub fn call_ops_concat(
         ($variant:ident, $inner_type:ty) => {{
             // Extract all data vectors
             let mut input_vecs = Vec::with_capacity(num_inputs);
-            for storage in &storages {
+            for (storage, layout) in storages.iter().zip(layouts) {
                 match storage {
-                    CpuStorage::$variant(data) => input_vecs.push(data.as_slice()),
+                    CpuStorage::$variant(data) => input_vecs.push(&data[..layout.size()]),
                     _ => {
                         return Err(HoduError::DTypeMismatch {
                             expected: dtype,
-- 
2.43.0


From e99c56e669fdb4a51d5b6d57aa2db10fcc0f4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 20/93] fix: conversions between float and 8-bit floats agree
 with the formats, large values read as NaN, subnormals encoded wrongly

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 10 ++--
 crates/hodu_cpu_kernels/kernels/t_f8e4m3.h   | 56 ++++++++------------
 crates/hodu_cpu_kernels/kernels/t_f8e5m2.h   | 49 +++++++----------
 3 files changed, 45 insertions(+), 70 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index ad11d99..f321def 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -14,13 +14,13 @@ extern "C" {
 // INFINITY CONSTANTS FOR EXOTIC FLOATING-POINT TYPES
 // ============================================================================
 
-// FP8 E4M3 infinity values (exponent=0xF)
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF) // 1 sign | 1111 exp | 111 mant
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F) // 0 sign | 1111 exp | 111 mant
+// FP8 E4M3 has no infinities (0x7F and 0xFF are NaN), the extreme finite values stand in
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE) // 1 sign | 1111 exp | 110 mant
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E) // 0 sign | 1111 exp | 110 mant
 
 // FP8 E5M2 infinity values (exponent=0x1F)
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF) // 1 sign | 11111 exp | 11 mant
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F) // 0 sign | 11111 exp | 11 mant
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC) // 1 sign | 11111 exp | 00 mant
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C) // 0 sign | 11111 exp | 00 mant
 
 // BFloat16 infinity values (exponent=0xFF)
 #define BF16_NEG_INF ((bf16_t)0xFF80) // 1 sign | 11111111 exp | 0000000 mant
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
index 968da9a..21296a4 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e4m3.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -17,8 +18,8 @@ typedef uint8_t f8e4m3_t;
 
 #define F8E4M3_ZERO ((f8e4m3_t)0x00)
 #define F8E4M3_ONE ((f8e4m3_t)0x38) // exp=7 (bias), mant=0
-#define F8E4M3_NEG_INF ((f8e4m3_t)0xFF)
-#define F8E4M3_POS_INF ((f8e4m3_t)0x7F)
+#define F8E4M3_NEG_INF ((f8e4m3_t)0xFE) // no infinity, -448 is the smallest value
+#define F8E4M3_POS_INF ((f8e4m3_t)0x7E) // no infinity, 448 is the largest value
 
 // ============================================================================
 // CONVERSION
@@ -30,12 +31,9 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
     uint32_t mant = val & 0x7;
 
     // E4M3 uses bias of 7
-    // Special values: exp=15 is infinity/NaN
-    if (exp == 15) {
-        if (mant == 0)
-            return sign ? -INFINITY : INFINITY;
+    // It has no infinities: exp=15 is NaN only with mant=7, the rest are 256 to 448
+    if (exp == 15 && mant == 7)
         return NAN;
-    }
 
     if (exp == 0) {
         if (mant == 0)
@@ -50,38 +48,26 @@ static inline float f8e4m3_to_float(f8e4m3_t val) {
 }
 
 static inline f8e4m3_t float_to_f8e4m3(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    const uint32_t sign = (bits >> 24) & 0x80;
+    const uint32_t abs_bits = bits & 0x7FFFFFFF;
+    const float abs_val = fabsf(val);
 
-    // E4M3 max value is ~448
-    if (isinf(val) || val > 448.0f)
-        return (sign << 7) | 0x7F;
-
-    // E4M3 min normal value is 2^(-6) ≈ 0.015625
-    if (val < 0.001953125f) // 2^(-9)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 6; // bias = 7, but frexp returns [0.5, 1), so adjust
+    if (isnan(val))
+        return (f8e4m3_t)(sign | 0x7F);
 
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 15) {
-        return (sign << 7) | 0x7F;
-    }
+    // Larger magnitudes saturate to the largest finite value
+    if (abs_val >= 464.0f)
+        return (f8e4m3_t)(sign | 0x7E);
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 8.0f + 0.5f);
-    mant_bits = mant_bits > 7 ? 7 : mant_bits;
+    // Zero and subnormals: multiples of the smallest subnormal, rounded to nearest even
+    if (abs_val < 0.015625f)
+        return (f8e4m3_t)(sign | (uint32_t)rintf(abs_val * 512.0f));
 
-    return (sign << 7) | (exp << 3) | mant_bits;
+    // Normal values: round the mantissa to nearest even, a carry moves into the exponent
+    const uint32_t rounded = abs_bits + 0x7FFFF + ((abs_bits >> 20) & 1);
+    return (f8e4m3_t)(sign | ((rounded >> 20) - ((127 - 7) << 3)));
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
index 72c3dba..faba747 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f8e5m2.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -17,8 +18,8 @@ typedef uint8_t f8e5m2_t;
 
 #define F8E5M2_ZERO ((f8e5m2_t)0x00)
 #define F8E5M2_ONE ((f8e5m2_t)0x3C) // exp=15 (bias), mant=0
-#define F8E5M2_NEG_INF ((f8e5m2_t)0xFF)
-#define F8E5M2_POS_INF ((f8e5m2_t)0x7F)
+#define F8E5M2_NEG_INF ((f8e5m2_t)0xFC)
+#define F8E5M2_POS_INF ((f8e5m2_t)0x7C)
 
 // ============================================================================
 // CONVERSION
@@ -50,38 +51,26 @@ static inline float f8e5m2_to_float(f8e5m2_t val) {
 }
 
 static inline f8e5m2_t float_to_f8e5m2(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7F; // NaN
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    // E5M2 max value is ~57344
-    if (isinf(val) || val > 57344.0f)
-        return (sign << 7) | 0x7F;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    const uint32_t sign = (bits >> 24) & 0x80;
+    const uint32_t abs_bits = bits & 0x7FFFFFFF;
+    const float abs_val = fabsf(val);
 
-    // E5M2 min normal value is 2^(-14) ≈ 0.000061
-    if (val < 0.0000152587890625f) // 2^(-16)
-        return sign << 7;
-
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14; // bias = 15, but frexp returns [0.5, 1), so adjust
+    if (isnan(val))
+        return (f8e5m2_t)(sign | 0x7F);
 
-    if (exp <= 0) {
-        // Subnormal
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 7) | 0x7F;
-    }
+    // Larger magnitudes saturate to the largest finite value
+    if (abs_val >= 61440.0f)
+        return (f8e5m2_t)(sign | 0x7B);
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 4.0f + 0.5f);
-    mant_bits = mant_bits > 3 ? 3 : mant_bits;
+    // Zero and subnormals: multiples of the smallest subnormal, rounded to nearest even
+    if (abs_val < 0.00006103515625f)
+        return (f8e5m2_t)(sign | (uint32_t)rintf(abs_val * 65536.0f));
 
-    return (sign << 7) | (exp << 2) | mant_bits;
+    // Normal values: round the mantissa to nearest even, a carry moves into the exponent
+    const uint32_t rounded = abs_bits + 0xFFFFF + ((abs_bits >> 21) & 1);
+    return (f8e5m2_t)(sign | ((rounded >> 21) - ((127 - 15) << 2)));
 }
 
 // ============================================================================
-- 
2.43.0


From 2d4b1954443339b56011e3601d0abb98ea29fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 21/93] fix: conversions from float to f16 and bf16 round to
 nearest even, f16 subnormals were lost and rounding did not carry

---
 crates/hodu_cpu_kernels/kernels/t_bf16.h |  5 ++-
 crates/hodu_cpu_kernels/kernels/t_f16.h  | 41 +++++++++---------------
 2 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/t_bf16.h b/crates/hodu_cpu_kernels/kernels/t_bf16.h
index b1dc2f2..518903b 100644
--- a/crates/hodu_cpu_kernels/kernels/t_bf16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_bf16.h
@@ -35,7 +35,10 @@ static inline float bf16_to_float(bf16_t val) {
 static inline bf16_t float_to_bf16(float val) {
     uint32_t bits;
     memcpy(&bits, &val, sizeof(float));
-    return (bf16_t)(bits >> 16);
+    if (isnan(val))
+        return (bf16_t)((bits >> 16) | 0x0040);
+    // Round to nearest even, a carry moves into the exponent
+    return (bf16_t)((bits + 0x7FFF + ((bits >> 16) & 1)) >> 16);
 }
 
 // ============================================================================
diff --git a/crates/hodu_cpu_kernels/kernels/t_f16.h b/crates/hodu_cpu_kernels/kernels/t_f16.h
index b4c07e5..964e7f9 100644
--- a/crates/hodu_cpu_kernels/kernels/t_f16.h
+++ b/crates/hodu_cpu_kernels/kernels/t_f16.h
@@ -3,6 +3,7 @@
 
 #include <math.h>
 #include <stdint.h>
+#include <string.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -46,34 +47,24 @@ static inline float f16_to_float(f16_t val) {
 }
 
 static inline f16_t float_to_f16(float val) {
-    if (val == 0.0f)
-        return 0;
-    if (isnan(val))
-        return 0x7E00;
-
-    uint32_t sign = val < 0 ? 1 : 0;
-    val = fabsf(val);
-
-    if (isinf(val) || val > 65504.0f)
-        return (sign << 15) | 0x7C00;
-    if (val < 0.00006103515625f)
-        return sign << 15;
+    uint32_t bits;
+    memcpy(&bits, &val, sizeof(float));
+    const uint32_t sign = (bits >> 16) & 0x8000;
+    const uint32_t abs_bits = bits & 0x7FFFFFFF;
+    const float abs_val = fabsf(val);
 
-    int exp;
-    float mant = frexpf(val, &exp);
-    exp += 14;
-
-    if (exp <= 0) {
-        mant = ldexpf(mant, exp);
-        exp = 0;
-    } else if (exp >= 31) {
-        return (sign << 15) | 0x7C00;
-    }
+    if (isnan(val))
+        return (f16_t)(sign | 0x7E00);
+    if (abs_val >= 65520.0f)
+        return (f16_t)(sign | 0x7C00);
 
-    int mant_bits = (int)((mant * 2.0f - 1.0f) * 1024.0f + 0.5f);
-    mant_bits = mant_bits > 1023 ? 1023 : mant_bits;
+    // Zero and subnormals: multiples of the smallest subnormal, rounded to nearest even
+    if (abs_val < 0.00006103515625f)
+        return (f16_t)(sign | (uint32_t)rintf(abs_val * 16777216.0f));
 
-    return (sign << 15) | (exp << 10) | mant_bits;
+    // Normal values: round the mantissa to nearest even, a carry moves into the exponent
+    const uint32_t rounded = abs_bits + 0xFFF + ((abs_bits >> 13) & 1);
+    return (f16_t)(sign | ((rounded >> 13) - ((127 - 15) << 10)));
 }
 
 // ============================================================================
-- 
2.43.0


From 3e513477f28579112f0d235f56ba7e3b851f329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 22/93] fix: tan, softplus, mish and gelu keep full accuracy,
 tan was clamped near its poles and softplus overflowed for large inputs

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 48 +++++---------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index f321def..17a065e 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -125,40 +125,10 @@ static inline double pow_opt(double base, double exponent) {
     return pow(base, exponent);
 }
 
-// Optimized tan
-static inline float tanf_opt(float x) {
-    x = fmodf(x, 2.0f * (float)M_PI);
-    if (x > (float)M_PI)
-        x -= 2.0f * (float)M_PI;
-    else if (x < -(float)M_PI)
-        x += 2.0f * (float)M_PI;
-
-    float halfPi = (float)M_PI / 2.0f;
-    float eps = 1e-6f;
-
-    if (fabsf(fabsf(x) - halfPi) < eps) {
-        return x > 0 ? 1e6f : -1e6f;
-    }
-
-    return sinf(x) / cosf(x);
-}
-
-static inline double tan_opt(double x) {
-    x = fmod(x, 2.0 * M_PI);
-    if (x > M_PI)
-        x -= 2.0 * M_PI;
-    else if (x < -M_PI)
-        x += 2.0 * M_PI;
-
-    double halfPi = M_PI / 2.0;
-    double eps = 1e-14;
+// Tangent (the library reduces the argument exactly, and stays accurate next to the poles)
+static inline float tanf_opt(float x) { return tanf(x); }
 
-    if (fabs(fabs(x) - halfPi) < eps) {
-        return x > 0 ? 1e14 : -1e14;
-    }
-
-    return sin(x) / cos(x);
-}
+static inline double tan_opt(double x) { return tan(x); }
 
 // Base-10 exponential
 static inline float exp10f_opt(float x) { return expf(x * (float)M_LN10); }
@@ -170,16 +140,20 @@ static inline double exp10_opt(double x) { return exp(x * M_LN10); }
 // ============================================================================
 
 static inline float gelu_helper_f32(float x) {
-    return 0.5f * x * (1.0f + tanhf(0.7978845608f * (x + 0.044715f * x * x * x)));
+    return 0.5f * x * (1.0f + tanhf(0.79788456080286535588f * (x + 0.044715f * x * x * x)));
 }
 
 static inline double gelu_helper_f64(double x) {
-    return 0.5 * x * (1.0 + tanh(0.7978845608 * (x + 0.044715 * x * x * x)));
+    return 0.5 * x * (1.0 + tanh(0.79788456080286535588 * (x + 0.044715 * x * x * x)));
 }
 
-static inline float softplus_helper_f32(float x) { return logf(1.0f + expf(x)); }
+static inline float softplus_helper_f32(float x) {
+    return fmaxf(x, 0.0f) + log1pf(expf(-fabsf(x)));
+}
 
-static inline double softplus_helper_f64(double x) { return log(1.0 + exp(x)); }
+static inline double softplus_helper_f64(double x) {
+    return fmax(x, 0.0) + log1p(exp(-fabs(x)));
+}
 
 static inline float silu_helper_f32(float x) { return x / (1.0f + expf(-x)); }
 
-- 
2.43.0


From 4ceccb7008ec08c6f4479e9de3228337ccbb6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 23/93] fix: dividing the smallest 32- or 64-bit integer by -1
 no longer kills the process

---
 crates/hodu_cpu_kernels/kernels/ops_binary.c | 12 ++++++++----
 crates/hodu_cpu_kernels/kernels/ops_unary.c  | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_binary.c b/crates/hodu_cpu_kernels/kernels/ops_binary.c
index 1ebf24b..468406e 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_binary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_binary.c
@@ -777,8 +777,10 @@ IMPL_BINARY_TO_BOOL(i16_t, i16, ge, x >= y)
 IMPL_BINARY_OP(i32_t, i32, add, x + y)
 IMPL_BINARY_OP(i32_t, i32, sub, x - y)
 IMPL_BINARY_OP(i32_t, i32, mul, x *y)
-IMPL_BINARY_OP(i32_t, i32, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i32_t, i32, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i32_t, i32, div,
+               (y == -1) ? (i32_t)(0 - (uint32_t)x) : ((y != 0) ? (x / y) : 0))
+IMPL_BINARY_OP(i32_t, i32, rem,
+               (y != 0 && y != -1) ? (x % y) : 0)
 IMPL_BINARY_OP(i32_t, i32, pow, (i32_t)ipow_i64(x, y))
 IMPL_BINARY_OP(i32_t, i32, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i32_t, i32, minimum, MINIMUM(x, y))
@@ -798,8 +800,10 @@ IMPL_BINARY_TO_BOOL(i32_t, i32, ge, x >= y)
 IMPL_BINARY_OP(i64_t, i64, add, x + y)
 IMPL_BINARY_OP(i64_t, i64, sub, x - y)
 IMPL_BINARY_OP(i64_t, i64, mul, x *y)
-IMPL_BINARY_OP(i64_t, i64, div, (y != 0) ? (x / y) : 0)
-IMPL_BINARY_OP(i64_t, i64, rem, (y != 0) ? (x % y) : 0)
+IMPL_BINARY_OP(i64_t, i64, div,
+               (y == -1) ? (i64_t)(0 - (uint64_t)x) : ((y != 0) ? (x / y) : 0))
+IMPL_BINARY_OP(i64_t, i64, rem,
+               (y != 0 && y != -1) ? (x % y) : 0)
 IMPL_BINARY_OP(i64_t, i64, pow, ipow_i64(x, y))
 IMPL_BINARY_OP(i64_t, i64, maximum, MAXIMUM(x, y))
 IMPL_BINARY_OP(i64_t, i64, minimum, MINIMUM(x, y))
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index 5fc7caa..e12f8ea 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1705,8 +1705,10 @@ IMPL_UNARY_TO_BOOL(i32_t, i32, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar,
+                       (const_val == -1) ? (i32_t)(0 - (uint32_t)x) : ((const_val != 0) ? (x / const_val) : 0))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar,
+                       (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)powf_opt((float)x, (float)const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
@@ -1729,8 +1731,10 @@ IMPL_UNARY_TO_BOOL(i64_t, i64, logical_not, x == 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, add_scalar, x + const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, mul_scalar, x *const_val)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar,
+                       (const_val == -1) ? (i64_t)(0 - (uint64_t)x) : ((const_val != 0) ? (x / const_val) : 0))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar,
+                       (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)pow_opt((double)x, (double)const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, minimum_scalar, MINIMUM(x, const_val))
-- 
2.43.0


From ca8a55436516c9d136bd8e5bee22341e6aa75b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 24/93] fix: integer pow_scalar is computed in integers, and
 floating-point pow accepts negative bases with large integer exponents

---
 crates/hodu_cpu_kernels/kernels/math_utils.h | 10 ++--------
 crates/hodu_cpu_kernels/kernels/ops_unary.c  | 16 ++++++++--------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/math_utils.h b/crates/hodu_cpu_kernels/kernels/math_utils.h
index 17a065e..b1920ec 100644
--- a/crates/hodu_cpu_kernels/kernels/math_utils.h
+++ b/crates/hodu_cpu_kernels/kernels/math_utils.h
@@ -64,7 +64,7 @@ static inline float powf_opt(float base, float exponent) {
     if (exponent == 0.0f)
         return 1.0f;
     if (base == 0.0f)
-        return (exponent > 0.0f) ? 0.0f : INFINITY;
+        return powf(base, exponent);
     if (base == 1.0f)
         return 1.0f;
     if (exponent == 1.0f)
@@ -87,9 +87,6 @@ static inline float powf_opt(float base, float exponent) {
         }
     }
 
-    if (base < 0.0f)
-        return NAN;
-
     return powf(base, exponent);
 }
 
@@ -97,7 +94,7 @@ static inline double pow_opt(double base, double exponent) {
     if (exponent == 0.0)
         return 1.0;
     if (base == 0.0)
-        return (exponent > 0.0) ? 0.0 : INFINITY;
+        return pow(base, exponent);
     if (base == 1.0)
         return 1.0;
     if (exponent == 1.0)
@@ -119,9 +116,6 @@ static inline double pow_opt(double base, double exponent) {
         }
     }
 
-    if (base < 0.0)
-        return NAN;
-
     return pow(base, exponent);
 }
 
diff --git a/crates/hodu_cpu_kernels/kernels/ops_unary.c b/crates/hodu_cpu_kernels/kernels/ops_unary.c
index e12f8ea..1d87b3f 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_unary.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_unary.c
@@ -1562,7 +1562,7 @@ IMPL_UNARY_WITH_SCALAR(u8_t, u8, sub_scalar, (x > const_val) ? (x - const_val) :
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u8_t, u8, pow_scalar, (u8_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u8_t, u8, pow_scalar, (u8_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u8_t, u8, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u8_t, u8, eq_scalar, x == const_val)
@@ -1585,7 +1585,7 @@ IMPL_UNARY_WITH_SCALAR(u16_t, u16, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u16_t, u16, pow_scalar, (u16_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u16_t, u16, pow_scalar, (u16_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u16_t, u16, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u16_t, u16, eq_scalar, x == const_val)
@@ -1608,7 +1608,7 @@ IMPL_UNARY_WITH_SCALAR(u32_t, u32, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(u32_t, u32, pow_scalar, (u32_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u32_t, u32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u32_t, u32, eq_scalar, x == const_val)
@@ -1631,7 +1631,7 @@ IMPL_UNARY_WITH_SCALAR(u64_t, u64, sub_scalar, (x > const_val) ? (x - const_val)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(u64_t, u64, pow_scalar, (u64_t)pow_opt((double)x, (double)const_val))
+IMPL_UNARY_WITH_SCALAR(u64_t, u64, pow_scalar, (u64_t)ipow_u64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(u64_t, u64, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(u64_t, u64, eq_scalar, x == const_val)
@@ -1659,7 +1659,7 @@ IMPL_UNARY_WITH_SCALAR(i8_t, i8, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i8_t, i8, pow_scalar, (i8_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i8_t, i8, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i8_t, i8, eq_scalar, x == const_val)
@@ -1683,7 +1683,7 @@ IMPL_UNARY_WITH_SCALAR(i16_t, i16, sub_scalar, x - const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, mul_scalar, x *const_val)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, div_scalar, (const_val != 0) ? (x / const_val) : 0)
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, rem_scalar, (const_val != 0) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i16_t, i16, pow_scalar, (i16_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i16_t, i16, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i16_t, i16, eq_scalar, x == const_val)
@@ -1709,7 +1709,7 @@ IMPL_UNARY_WITH_SCALAR(i32_t, i32, div_scalar,
                        (const_val == -1) ? (i32_t)(0 - (uint32_t)x) : ((const_val != 0) ? (x / const_val) : 0))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, rem_scalar,
                        (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)powf_opt((float)x, (float)const_val))
+IMPL_UNARY_WITH_SCALAR(i32_t, i32, pow_scalar, (i32_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i32_t, i32, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i32_t, i32, eq_scalar, x == const_val)
@@ -1735,7 +1735,7 @@ IMPL_UNARY_WITH_SCALAR(i64_t, i64, div_scalar,
                        (const_val == -1) ? (i64_t)(0 - (uint64_t)x) : ((const_val != 0) ? (x / const_val) : 0))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, rem_scalar,
                        (const_val != 0 && const_val != -1) ? (x % const_val) : 0)
-IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)pow_opt((double)x, (double)const_val))
+IMPL_UNARY_WITH_SCALAR(i64_t, i64, pow_scalar, (i64_t)ipow_i64(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, maximum_scalar, MAXIMUM(x, const_val))
 IMPL_UNARY_WITH_SCALAR(i64_t, i64, minimum_scalar, MINIMUM(x, const_val))
 IMPL_UNARY_CMP_SCALAR_TO_BOOL(i64_t, i64, eq_scalar, x == const_val)
-- 
2.43.0


From 1bcbf865ca82298f2bab6525506b42c747efdc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 25/93] fix: norm with a fractional order no longer truncates
 the order to an integer

---
 crates/hodu_core/src/tensor/ops/reduce.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index 3da268b..bfac975 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -87,9 +87,9 @@ impl Tensor {
 
     pub fn norm<D: Into<Scalar> + Copy>(&self, p: impl Into<Scalar>, dims: &[D], keep_dim: bool) -> HoduResult<Self> {
         let p_scalar = p.into();
-        match p_scalar.to_i32() {
-            1 => self.l1_norm(dims, keep_dim),
-            2 => self.l2_norm(dims, keep_dim),
+        match p_scalar.to_f64() {
+            1.0 => self.l1_norm(dims, keep_dim),
+            2.0 => self.l2_norm(dims, keep_dim),
             _ => {
                 let p_dtype = p_scalar.to_dtype(self.dtype());
                 self.abs()?
-- 
2.43.0


From e4ef42a4c79f2a82be3447380d20d30290b9b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 26/93] fix: variance and standard deviation no longer cancel
 (negative variance, NaN deviation), they are computed from differences to the
 first element

---
 crates/hodu_cpu_kernels/kernels/ops_reduce.c | 160 +++++++++++--------
 1 file changed, 95 insertions(+), 65 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_reduce.c b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
index 1354989..d242075 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_reduce.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_reduce.c
@@ -819,8 +819,8 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
 // STANDARD DEVIATION REDUCTION
 // ============================================================================
 //
-// Computes population standard deviation: sqrt(E[X²] - E[X]²)
-// Two-pass algorithm: accumulate sum and sum of squares, then compute std.
+// Computes population standard deviation: sqrt(E[D²] - E[D]²), where D is the difference to the
+// first element, so that data far from zero does not cancel.
 //
 // Metadata layout: Same as generic reduction operations
 
@@ -853,8 +853,9 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
         }                                                                                          \
                                                                                                    \
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
-            TYPE sum = 0;                                                                          \
-            TYPE sum_squares = 0;                                                                  \
+            double shift = 0.0;                                                                    \
+            double sum = 0.0;                                                                      \
+            double sum_squares = 0.0;                                                              \
                                                                                                    \
             size_t output_indices[16];                                                             \
             size_t temp = output_idx;                                                              \
@@ -901,14 +902,21 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
+                double val = (double)input[flat_index];                                            \
+                if (reduced_idx == 0) {                                                            \
+                    shift = val;                                                                   \
+                }                                                                                  \
+                val -= shift;                                                                      \
                 sum += val;                                                                        \
                 sum_squares += val * val;                                                          \
             }                                                                                      \
                                                                                                    \
-            TYPE mean = sum / (TYPE)reduce_size;                                                   \
-            TYPE variance = (sum_squares / (TYPE)reduce_size) - (mean * mean);                     \
-            output[output_idx] = sqrt(variance);                                                   \
+            double mean = sum / (double)reduce_size;                                               \
+            double variance = sum_squares / (double)reduce_size - mean * mean;                     \
+            if (variance < 0.0) {                                                                  \
+                variance = 0.0;                                                                    \
+            }                                                                                      \
+            output[output_idx] = (TYPE)sqrt(variance);                                             \
         }                                                                                          \
     }
 
@@ -916,13 +924,7 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
 ///
 /// @param TYPE C float type
 /// @param TYPE_SUFFIX Suffix for function naming
-/// @param ZERO Zero constant for the type
-/// @param ADD_FN Addition function
-/// @param MUL_FN Multiplication function
-/// @param DIV_FN Division function
-/// @param SUB_FN Subtraction function
-/// @param SQRT_FN Square root function
-#define REDUCE_STD_OP_EXOTIC(TYPE, TYPE_SUFFIX, ZERO, ADD_FN, MUL_FN, DIV_FN, SUB_FN, SQRT_FN)     \
+#define REDUCE_STD_OP_EXOTIC(TYPE, TYPE_SUFFIX)                                                    \
     void hodu_cpu_std_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const TYPE *input = (const TYPE *)input_ptr;                                               \
@@ -947,8 +949,9 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
         }                                                                                          \
                                                                                                    \
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
-            TYPE sum = ZERO;                                                                       \
-            TYPE sum_squares = ZERO;                                                               \
+            double shift = 0.0;                                                                    \
+            double sum = 0.0;                                                                      \
+            double sum_squares = 0.0;                                                              \
                                                                                                    \
             size_t output_indices[16];                                                             \
             size_t temp = output_idx;                                                              \
@@ -995,25 +998,28 @@ REDUCE_OP(uint64_t, uint64_t, prod_u64, 1u, acc *= val)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
-                sum = ADD_FN(sum, val);                                                            \
-                sum_squares = ADD_FN(sum_squares, MUL_FN(val, val));                               \
+                double val = (double)TYPE_SUFFIX##_to_float(input[flat_index]);                    \
+                if (reduced_idx == 0) {                                                            \
+                    shift = val;                                                                   \
+                }                                                                                  \
+                val -= shift;                                                                      \
+                sum += val;                                                                        \
+                sum_squares += val * val;                                                          \
             }                                                                                      \
                                                                                                    \
-            float reduce_size_f = (float)reduce_size;                                              \
-            TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
-            TYPE mean = DIV_FN(sum, reduce_size_typed);                                            \
-            TYPE variance = SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));    \
-            output[output_idx] = SQRT_FN(variance);                                                \
+            double mean = sum / (double)reduce_size;                                               \
+            double variance = sum_squares / (double)reduce_size - mean * mean;                     \
+            if (variance < 0.0) {                                                                  \
+                variance = 0.0;                                                                    \
+            }                                                                                      \
+            output[output_idx] = float_to_##TYPE_SUFFIX((float)sqrt(variance));                    \
         }                                                                                          \
     }
 
-REDUCE_STD_OP_EXOTIC(f8e4m3_t, f8e4m3, F8E4M3_ZERO, f8e4m3_add, f8e4m3_mul, f8e4m3_div, f8e4m3_sub,
-                     f8e4m3_sqrt)
-REDUCE_STD_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, f8e5m2_add, f8e5m2_mul, f8e5m2_div, f8e5m2_sub,
-                     f8e5m2_sqrt)
-REDUCE_STD_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, bf16_add, bf16_mul, bf16_div, bf16_sub, bf16_sqrt)
-REDUCE_STD_OP_EXOTIC(f16_t, f16, F16_ZERO, f16_add, f16_mul, f16_div, f16_sub, f16_sqrt)
+REDUCE_STD_OP_EXOTIC(f8e4m3_t, f8e4m3)
+REDUCE_STD_OP_EXOTIC(f8e5m2_t, f8e5m2)
+REDUCE_STD_OP_EXOTIC(bf16_t, bf16)
+REDUCE_STD_OP_EXOTIC(f16_t, f16)
 REDUCE_STD_OP(f32_t, f32)
 REDUCE_STD_OP(f64_t, f64)
 
@@ -1021,7 +1027,7 @@ REDUCE_STD_OP(f64_t, f64)
 // VARIANCE REDUCTION
 // ============================================================================
 //
-// Computes population variance: E[X²] - E[X]²
+// Computes population variance: E[D²] - E[D]², where D is the difference to the first element
 // Same as std but without the sqrt.
 //
 // Metadata layout: Same as generic reduction operations
@@ -1055,8 +1061,9 @@ REDUCE_STD_OP(f64_t, f64)
         }                                                                                          \
                                                                                                    \
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
-            TYPE sum = 0;                                                                          \
-            TYPE sum_squares = 0;                                                                  \
+            double shift = 0.0;                                                                    \
+            double sum = 0.0;                                                                      \
+            double sum_squares = 0.0;                                                              \
                                                                                                    \
             size_t output_indices[16];                                                             \
             size_t temp = output_idx;                                                              \
@@ -1103,13 +1110,21 @@ REDUCE_STD_OP(f64_t, f64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
+                double val = (double)input[flat_index];                                            \
+                if (reduced_idx == 0) {                                                            \
+                    shift = val;                                                                   \
+                }                                                                                  \
+                val -= shift;                                                                      \
                 sum += val;                                                                        \
                 sum_squares += val * val;                                                          \
             }                                                                                      \
                                                                                                    \
-            TYPE mean = sum / (TYPE)reduce_size;                                                   \
-            output[output_idx] = (sum_squares / (TYPE)reduce_size) - (mean * mean);                \
+            double mean = sum / (double)reduce_size;                                               \
+            double variance = sum_squares / (double)reduce_size - mean * mean;                     \
+            if (variance < 0.0) {                                                                  \
+                variance = 0.0;                                                                    \
+            }                                                                                      \
+            output[output_idx] = (TYPE)variance;                                                   \
         }                                                                                          \
     }
 
@@ -1117,12 +1132,7 @@ REDUCE_STD_OP(f64_t, f64)
 ///
 /// @param TYPE C float type
 /// @param TYPE_SUFFIX Suffix for function naming
-/// @param ZERO Zero constant for the type
-/// @param ADD_FN Addition function
-/// @param MUL_FN Multiplication function
-/// @param DIV_FN Division function
-/// @param SUB_FN Subtraction function
-#define REDUCE_VAR_OP_EXOTIC(TYPE, TYPE_SUFFIX, ZERO, ADD_FN, MUL_FN, DIV_FN, SUB_FN)              \
+#define REDUCE_VAR_OP_EXOTIC(TYPE, TYPE_SUFFIX)                                                    \
     void hodu_cpu_var_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
                                     const size_t *metadata) {                                      \
         const TYPE *input = (const TYPE *)input_ptr;                                               \
@@ -1147,8 +1157,9 @@ REDUCE_STD_OP(f64_t, f64)
         }                                                                                          \
                                                                                                    \
         for (size_t output_idx = 0; output_idx < num_els; output_idx++) {                          \
-            TYPE sum = ZERO;                                                                       \
-            TYPE sum_squares = ZERO;                                                               \
+            double shift = 0.0;                                                                    \
+            double sum = 0.0;                                                                      \
+            double sum_squares = 0.0;                                                              \
                                                                                                    \
             size_t output_indices[16];                                                             \
             size_t temp = output_idx;                                                              \
@@ -1195,23 +1206,28 @@ REDUCE_STD_OP(f64_t, f64)
                     flat_index += input_indices[i] * strides[i];                                   \
                 }                                                                                  \
                                                                                                    \
-                TYPE val = input[flat_index];                                                      \
-                sum = ADD_FN(sum, val);                                                            \
-                sum_squares = ADD_FN(sum_squares, MUL_FN(val, val));                               \
+                double val = (double)TYPE_SUFFIX##_to_float(input[flat_index]);                    \
+                if (reduced_idx == 0) {                                                            \
+                    shift = val;                                                                   \
+                }                                                                                  \
+                val -= shift;                                                                      \
+                sum += val;                                                                        \
+                sum_squares += val * val;                                                          \
             }                                                                                      \
                                                                                                    \
-            float reduce_size_f = (float)reduce_size;                                              \
-            TYPE reduce_size_typed = float_to_##TYPE_SUFFIX(reduce_size_f);                        \
-            TYPE mean = DIV_FN(sum, reduce_size_typed);                                            \
-            output[output_idx] =                                                                   \
-                SUB_FN(DIV_FN(sum_squares, reduce_size_typed), MUL_FN(mean, mean));                \
+            double mean = sum / (double)reduce_size;                                               \
+            double variance = sum_squares / (double)reduce_size - mean * mean;                     \
+            if (variance < 0.0) {                                                                  \
+                variance = 0.0;                                                                    \
+            }                                                                                      \
+            output[output_idx] = float_to_##TYPE_SUFFIX((float)variance);                          \
         }                                                                                          \
     }
 
-REDUCE_VAR_OP_EXOTIC(f8e4m3_t, f8e4m3, F8E4M3_ZERO, f8e4m3_add, f8e4m3_mul, f8e4m3_div, f8e4m3_sub)
-REDUCE_VAR_OP_EXOTIC(f8e5m2_t, f8e5m2, F8E5M2_ZERO, f8e5m2_add, f8e5m2_mul, f8e5m2_div, f8e5m2_sub)
-REDUCE_VAR_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, bf16_add, bf16_mul, bf16_div, bf16_sub)
-REDUCE_VAR_OP_EXOTIC(f16_t, f16, F16_ZERO, f16_add, f16_mul, f16_div, f16_sub)
+REDUCE_VAR_OP_EXOTIC(f8e4m3_t, f8e4m3)
+REDUCE_VAR_OP_EXOTIC(f8e5m2_t, f8e5m2)
+REDUCE_VAR_OP_EXOTIC(bf16_t, bf16)
+REDUCE_VAR_OP_EXOTIC(f16_t, f16)
 
 // SIMD-optimized var_f32 (variance: E[X^2] - E[X]^2)
 void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *metadata) {
@@ -1236,6 +1252,7 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
     }
 
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
+        f32_t shift = 0.0f;
         f32_t sum = 0.0f;
         f32_t sum_squares = 0.0f;
 
@@ -1281,12 +1298,14 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
                 flat_base += input_indices[i] * strides[i];
             }
 
+            shift = input[flat_base];
+            const simd_f32_t vshift = simd_f32_set1(shift);
             simd_f32_t vsum = simd_f32_set1(0.0f);
             simd_f32_t vsum_sq = simd_f32_set1(0.0f);
             const size_t simd_end = (reduce_size / SIMD_F32_WIDTH) * SIMD_F32_WIDTH;
 
             for (size_t i = 0; i < simd_end; i += SIMD_F32_WIDTH) {
-                simd_f32_t v = simd_f32_load(&input[flat_base + i]);
+                simd_f32_t v = simd_f32_sub(simd_f32_load(&input[flat_base + i]), vshift);
                 vsum = simd_f32_add(vsum, v);
                 vsum_sq = simd_f32_fmadd(v, v, vsum_sq); // v*v + vsum_sq
             }
@@ -1294,7 +1313,7 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
             sum_squares = simd_f32_reduce_add(vsum_sq);
 
             for (size_t i = simd_end; i < reduce_size; i++) {
-                f32_t val = input[flat_base + i];
+                f32_t val = input[flat_base + i] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
@@ -1314,14 +1333,18 @@ void hodu_cpu_var_f32(const void *input_ptr, void *output_ptr, const size_t *met
                     flat_index += input_indices[i] * strides[i];
                 }
 
-                f32_t val = input[flat_index];
+                if (reduced_idx == 0) {
+                    shift = input[flat_index];
+                }
+                f32_t val = input[flat_index] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
         }
 
         f32_t mean = sum / (f32_t)reduce_size;
-        output[output_idx] = (sum_squares / (f32_t)reduce_size) - (mean * mean);
+        f32_t variance = (sum_squares / (f32_t)reduce_size) - (mean * mean);
+        output[output_idx] = variance < 0.0f ? 0.0f : variance;
     }
 }
 
@@ -1348,6 +1371,7 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
     }
 
     for (size_t output_idx = 0; output_idx < num_els; output_idx++) {
+        f64_t shift = 0.0;
         f64_t sum = 0.0;
         f64_t sum_squares = 0.0;
 
@@ -1393,12 +1417,14 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
                 flat_base += input_indices[i] * strides[i];
             }
 
+            shift = input[flat_base];
+            const simd_f64_t vshift = simd_f64_set1(shift);
             simd_f64_t vsum = simd_f64_set1(0.0);
             simd_f64_t vsum_sq = simd_f64_set1(0.0);
             const size_t simd_end = (reduce_size / SIMD_F64_WIDTH) * SIMD_F64_WIDTH;
 
             for (size_t i = 0; i < simd_end; i += SIMD_F64_WIDTH) {
-                simd_f64_t v = simd_f64_load(&input[flat_base + i]);
+                simd_f64_t v = simd_f64_sub(simd_f64_load(&input[flat_base + i]), vshift);
                 vsum = simd_f64_add(vsum, v);
                 vsum_sq = simd_f64_fmadd(v, v, vsum_sq); // v*v + vsum_sq
             }
@@ -1406,7 +1432,7 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
             sum_squares = simd_f64_reduce_add(vsum_sq);
 
             for (size_t i = simd_end; i < reduce_size; i++) {
-                f64_t val = input[flat_base + i];
+                f64_t val = input[flat_base + i] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
@@ -1426,14 +1452,18 @@ void hodu_cpu_var_f64(const void *input_ptr, void *output_ptr, const size_t *met
                     flat_index += input_indices[i] * strides[i];
                 }
 
-                f64_t val = input[flat_index];
+                if (reduced_idx == 0) {
+                    shift = input[flat_index];
+                }
+                f64_t val = input[flat_index] - shift;
                 sum += val;
                 sum_squares += val * val;
             }
         }
 
         f64_t mean = sum / (f64_t)reduce_size;
-        output[output_idx] = (sum_squares / (f64_t)reduce_size) - (mean * mean);
+        f64_t variance = (sum_squares / (f64_t)reduce_size) - (mean * mean);
+        output[output_idx] = variance < 0.0 ? 0.0 : variance;
     }
 }
 
-- 
2.43.0


From bc559599b893ac2bd0590e5f3232be09e05e1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 27/93] fix: integer determinants of 4x4 and larger matrices
 are exact, and singular half-precision matrices give 0 instead of NaN

---
 crates/hodu_cpu_kernels/kernels/ops_linalg.c | 88 ++++++++++++++++++--
 1 file changed, 80 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_linalg.c b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
index 93cfbbd..3f1f920 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_linalg.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_linalg.c
@@ -28,6 +28,7 @@
 // - 3x3: Sarrus' rule
 // - NxN: LU decomposition with partial pivoting
 //        det = (-1)^swaps * product(diagonal of U)
+// - integer types: exact elimination, modulo 2^bits
 
 /// Helper to get element from strided matrix for det
 #define DET_GET(input, batch_offset, row, col, row_stride, col_stride)                             \
@@ -165,6 +166,73 @@
         }                                                                                          \
     }
 
+/// Determinant of an integer matrix, exact modulo 2^64
+///
+/// Eliminates with Euclid's algorithm on pairs of rows: integer division alone would drop remainders.
+static uint64_t det_exact(int64_t *a, size_t n) {
+    uint64_t det = 1;
+    for (size_t k = 0; k < n; k++) {
+        for (size_t i = k + 1; i < n; i++) {
+            while (a[i * n + k] != 0) {
+                int64_t p = a[k * n + k];
+                int64_t r = a[i * n + k];
+                uint64_t q = (r == -1) ? 0 - (uint64_t)p : (uint64_t)(p / r);
+                for (size_t j = k; j < n; j++) {
+                    int64_t t = (int64_t)((uint64_t)a[k * n + j] - q * (uint64_t)a[i * n + j]);
+                    a[k * n + j] = a[i * n + j];
+                    a[i * n + j] = t;
+                }
+                det = 0 - det;
+            }
+        }
+        det *= (uint64_t)a[k * n + k];
+    }
+    return det;
+}
+
+/// Macro for determinant operation with integer types (wraps modulo 2^bits)
+#define DET_OP_INT(TYPE, TYPE_SUFFIX)                                                              \
+    void hodu_cpu_det_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,                       \
+                                    const size_t *metadata) {                                      \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
+                                                                                                   \
+        const size_t batch_size = metadata[0];                                                     \
+        const size_t n = metadata[1];                                                              \
+        const size_t ndim = metadata[2];                                                           \
+        const size_t *strides = metadata + 3 + ndim;                                               \
+        const size_t offset = metadata[3 + 2 * ndim];                                              \
+                                                                                                   \
+        /* Get row and column strides (last two dimensions) */                                     \
+        const size_t row_stride = (ndim >= 2) ? strides[ndim - 2] : n;                             \
+        const size_t col_stride = (ndim >= 1) ? strides[ndim - 1] : 1;                             \
+                                                                                                   \
+        for (size_t batch = 0; batch < batch_size; batch++) {                                      \
+            /* Calculate batch offset using strides */                                             \
+            size_t batch_offset = offset;                                                          \
+            if (ndim > 2) {                                                                        \
+                size_t temp = batch;                                                               \
+                const size_t *shape = metadata + 3;                                                \
+                for (int d = (int)ndim - 3; d >= 0; d--) {                                         \
+                    size_t dim_size = shape[d];                                                    \
+                    size_t idx = temp % dim_size;                                                  \
+                    temp /= dim_size;                                                              \
+                    batch_offset += idx * strides[d];                                              \
+                }                                                                                  \
+            }                                                                                      \
+                                                                                                   \
+            int64_t *lu = (int64_t *)malloc(n * n * sizeof(int64_t));                              \
+            for (size_t i = 0; i < n; i++) {                                                       \
+                for (size_t j = 0; j < n; j++) {                                                   \
+                    lu[i * n + j] = (int64_t)DET_GET(input, batch_offset, i, j, row_stride,        \
+                                                     col_stride);                                  \
+                }                                                                                  \
+            }                                                                                      \
+            output[batch] = (TYPE)det_exact(lu, n);                                                \
+            free(lu);                                                                              \
+        }                                                                                          \
+    }
+
 /// Macro for determinant operation with exotic types
 #define DET_OP_EXOTIC(TYPE, TYPE_SUFFIX, ZERO, ONE, ADD_FN, SUB_FN, MUL_FN, DIV_FN, NEG_FN,        \
                       ABS_FN, LT_FN)                                                               \
@@ -255,6 +323,10 @@
                                                                                                    \
                     TYPE pivot = lu[k * n + k];                                                    \
                     det = MUL_FN(det, pivot);                                                      \
+                    if (!LT_FN(ZERO, ABS_FN(pivot)) && !LT_FN(ABS_FN(pivot), ZERO)) {              \
+                        det = pivot;                                                               \
+                        break;                                                                     \
+                    }                                                                              \
                                                                                                    \
                     for (size_t i = k + 1; i < n; i++) {                                           \
                         TYPE factor = DIV_FN(lu[i * n + k], pivot);                                \
@@ -286,14 +358,14 @@ DET_OP_EXOTIC(bf16_t, bf16, BF16_ZERO, BF16_ONE, bf16_add, bf16_sub, bf16_mul, b
               bf16_abs, bf16_lt)
 DET_OP_EXOTIC(f16_t, f16, F16_ZERO, F16_ONE, f16_add, f16_sub, f16_mul, f16_div, f16_neg, f16_abs,
               f16_lt)
-DET_OP(int8_t, i8)
-DET_OP(int16_t, i16)
-DET_OP(int32_t, i32)
-DET_OP(int64_t, i64)
-DET_OP(uint8_t, u8)
-DET_OP(uint16_t, u16)
-DET_OP(uint32_t, u32)
-DET_OP(uint64_t, u64)
+DET_OP_INT(int8_t, i8)
+DET_OP_INT(int16_t, i16)
+DET_OP_INT(int32_t, i32)
+DET_OP_INT(int64_t, i64)
+DET_OP_INT(uint8_t, u8)
+DET_OP_INT(uint16_t, u16)
+DET_OP_INT(uint32_t, u32)
+DET_OP_INT(uint64_t, u64)
 
 // ============================================================================
 // MATRIX INVERSE (INV)
-- 
2.43.0


From 81ff2370d1f24782cd62ba60b0417bb1e983f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 28/93] fix: scatter_add, scatter_max and scatter_min run their
 own kernels instead of plain scatter

---
 crates/hodu_core/src/be_cpu/storage/ops_indexing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
index 5fc111c..c93dbc8 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_indexing.rs
@@ -422,10 +422,10 @@ pub fn call_ops_scatter(
     };
 
     // Validate op
-    match op {
+    let scatter_op = match op {
         Op::Indexing(
-            IndexingOp::Scatter | IndexingOp::ScatterAdd | IndexingOp::ScatterMax | IndexingOp::ScatterMin,
-        ) => (),
+            op @ (IndexingOp::Scatter | IndexingOp::ScatterAdd | IndexingOp::ScatterMax | IndexingOp::ScatterMin),
+        ) => op,
         _ => {
             return Err(HoduError::BackendError(
                 "Lcall_scatterE expects scatter-type op".to_string(),
@@ -454,7 +454,7 @@ pub fn call_ops_scatter(
 
     // Generate kernel name
     let dtype = storage.dtype();
-    let kernel_name = format!("hodu_cpu_scatter_{}", dtype);
+    let kernel_name = format!("hodu_cpu_{}_{}", scatter_op, dtype);
     let kernel_name_static = crate::cache::kernel::get_kernel_name(kernel_name);
     let kernel = hodu_cpu_kernels::macros::Kernel(kernel_name_static);
 
-- 
2.43.0


From 5736c3171f4ea14c830a83d3739303b47b94944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 29/93] fix: unique sorts negative integers before positive
 ones

---
 crates/hodu_cpu_kernels/kernels/ops_indexing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index e4e015b..5e95012 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -1185,6 +1185,10 @@ static int compare_index_pairs_float(const void *a, const void *b) {
             input_values[id] = input[flat_idx];                                                    \
             pairs[id].orig_idx = id;                                                               \
             pairs[id].sort_key = (size_t)input[flat_idx];                                          \
+            if ((TYPENAME)-1 < (TYPENAME)1) {                                                      \
+                /* signed: order negative values before positive ones */                           \
+                pairs[id].sort_key ^= (size_t)1 << (sizeof(size_t) * 8 - 1);                       \
+            }                                                                                      \
         }                                                                                          \
                                                                                                    \
         /* Sort by value */                                                                        \
-- 
2.43.0


From a63bf625e8597cf25b6a9eda9f56a5bdef212ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 30/93] fix: mean windows of half- and quarter-precision
 tensors average the values, not their bit patterns

---
 .../hodu_cpu_kernels/kernels/ops_windowing.c  | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_windowing.c b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
index d0083ac..c210182 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_windowing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_windowing.c
@@ -125,15 +125,17 @@
  * Computes the average of values in each window. Padding areas are treated as 0.
  * Only available for floating-point types.
  *
- * @param IN_TYPE C type of input elements (float type)
- * @param OUT_TYPE C type of output elements (float type)
+ * @param TYPE C type of the elements (float type)
  * @param TYPE_SUFFIX Suffix for function name
+ * @param ACC_TYPE C type to accumulate in
+ * @param TO_ACC Conversion from TYPE to ACC_TYPE
+ * @param FROM_ACC Conversion from ACC_TYPE to TYPE
  */
-#define REDUCE_WINDOW_MEAN_OP(IN_TYPE, OUT_TYPE, TYPE_SUFFIX)                                      \
+#define REDUCE_WINDOW_MEAN_OP(TYPE, TYPE_SUFFIX, ACC_TYPE, TO_ACC, FROM_ACC)                       \
     void hodu_cpu_reduce_window_mean_##TYPE_SUFFIX(const void *input_ptr, void *output_ptr,        \
                                                    const size_t *metadata) {                       \
-        const IN_TYPE *input = (const IN_TYPE *)input_ptr;                                         \
-        OUT_TYPE *output = (OUT_TYPE *)output_ptr;                                                 \
+        const TYPE *input = (const TYPE *)input_ptr;                                               \
+        TYPE *output = (TYPE *)output_ptr;                                                         \
                                                                                                    \
         const size_t num_els = metadata[0];                                                        \
         const size_t num_dims = metadata[1];                                                       \
@@ -154,7 +156,7 @@
                 tmp /= output_shape[i];                                                            \
             }                                                                                      \
                                                                                                    \
-            OUT_TYPE sum = 0;                                                                      \
+            ACC_TYPE sum = 0;                                                                      \
             size_t window_size = 1;                                                                \
             for (size_t i = 0; i < num_dims; i++) {                                                \
                 window_size *= window_shape[i];                                                    \
@@ -190,11 +192,11 @@
                     for (size_t i = 0; i < num_dims; i++) {                                        \
                         idx += input_coords[i] * input_strides[i];                                 \
                     }                                                                              \
-                    sum += (OUT_TYPE)input[idx];                                                   \
+                    sum += TO_ACC(input[idx]);                                                     \
                 }                                                                                  \
             }                                                                                      \
                                                                                                    \
-            output[out_idx] = sum / (OUT_TYPE)window_size;                                         \
+            output[out_idx] = FROM_ACC(sum / (ACC_TYPE)window_size);                               \
         }                                                                                          \
     }
 
@@ -213,12 +215,12 @@ REDUCE_WINDOW_OP(uint16_t, uint16_t, max_u16, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint32_t, uint32_t, max_u32, 0u, acc = MAX(acc, val))
 REDUCE_WINDOW_OP(uint64_t, uint64_t, max_u64, 0u, acc = MAX(acc, val))
 
-REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3_t, f8e4m3)
-REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2_t, f8e5m2)
-REDUCE_WINDOW_MEAN_OP(bf16_t, bf16_t, bf16)
-REDUCE_WINDOW_MEAN_OP(f16_t, f16_t, f16)
-REDUCE_WINDOW_MEAN_OP(float, float, f32)
-REDUCE_WINDOW_MEAN_OP(double, double, f64)
+REDUCE_WINDOW_MEAN_OP(f8e4m3_t, f8e4m3, float, f8e4m3_to_float, float_to_f8e4m3)
+REDUCE_WINDOW_MEAN_OP(f8e5m2_t, f8e5m2, float, f8e5m2_to_float, float_to_f8e5m2)
+REDUCE_WINDOW_MEAN_OP(bf16_t, bf16, float, bf16_to_float, float_to_bf16)
+REDUCE_WINDOW_MEAN_OP(f16_t, f16, float, f16_to_float, float_to_f16)
+REDUCE_WINDOW_MEAN_OP(float, f32, float, , )
+REDUCE_WINDOW_MEAN_OP(double, f64, double, , )
 
 REDUCE_WINDOW_OP(f8e4m3_t, f8e4m3_t, sum_f8e4m3, F8E4M3_ZERO, acc = f8e4m3_add(acc, val))
 REDUCE_WINDOW_OP(f8e5m2_t, f8e5m2_t, sum_f8e5m2, F8E5M2_ZERO, acc = f8e5m2_add(acc, val))
-- 
2.43.0


From 044c49202fc5d547f4e4a4c079bacdd595c77a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 31/93] fix: scatter_add, scatter_max and scatter_min support
 f64, which they accept

---
 crates/hodu_cpu_kernels/kernels/ops_indexing.c      | 3 +++
 crates/hodu_cpu_kernels/kernels/ops_indexing.h      | 6 ++++++
 crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index 5e95012..0843d5a 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -625,6 +625,7 @@ SCATTER_ADD_OP_EXOTIC(f8e5m2_t, scatter_add_f8e5m2, f8e5m2_add)
 SCATTER_ADD_OP_EXOTIC(bf16_t, scatter_add_bf16, bf16_add)
 SCATTER_ADD_OP_EXOTIC(f16_t, scatter_add_f16, f16_add)
 SCATTER_ADD_OP(float, scatter_add_f32)
+SCATTER_ADD_OP(double, scatter_add_f64)
 SCATTER_ADD_OP(int8_t, scatter_add_i8)
 SCATTER_ADD_OP(int16_t, scatter_add_i16)
 SCATTER_ADD_OP(int32_t, scatter_add_i32)
@@ -742,6 +743,7 @@ SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
 SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
 SCATTER_MAX_OP(f16_t, scatter_max_f16)
 SCATTER_MAX_OP(float, scatter_max_f32)
+SCATTER_MAX_OP(double, scatter_max_f64)
 SCATTER_MAX_OP(int8_t, scatter_max_i8)
 SCATTER_MAX_OP(int16_t, scatter_max_i16)
 SCATTER_MAX_OP(int32_t, scatter_max_i32)
@@ -859,6 +861,7 @@ SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
 SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
 SCATTER_MIN_OP(f16_t, scatter_min_f16)
 SCATTER_MIN_OP(float, scatter_min_f32)
+SCATTER_MIN_OP(double, scatter_min_f64)
 SCATTER_MIN_OP(int8_t, scatter_min_i8)
 SCATTER_MIN_OP(int16_t, scatter_min_i16)
 SCATTER_MIN_OP(int32_t, scatter_min_i32)
diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.h b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
index 50f7434..627cdd4 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.h
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.h
@@ -276,6 +276,8 @@ void hodu_cpu_scatter_add_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_add_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_add_i16(const void *input, const int32_t *indices, const void *src,
@@ -312,6 +314,8 @@ void hodu_cpu_scatter_max_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_max_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_max_i16(const void *input, const int32_t *indices, const void *src,
@@ -348,6 +352,8 @@ void hodu_cpu_scatter_min_f16(const void *input, const int32_t *indices, const v
                               void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_f32(const void *input, const int32_t *indices, const void *src,
                               void *output, const size_t *metadata);
+void hodu_cpu_scatter_min_f64(const void *input, const int32_t *indices, const void *src,
+                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i8(const void *input, const int32_t *indices, const void *src,
                              void *output, const size_t *metadata);
 void hodu_cpu_scatter_min_i16(const void *input, const int32_t *indices, const void *src,
diff --git a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
index dafd067..8e4d86a 100644
--- a/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
+++ b/crates/hodu_cpu_kernels/src/kernels/ops_indexing.rs
@@ -256,6 +256,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                 fn [<hodu_cpu_ $op_name _bf16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _f32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
+                fn [<hodu_cpu_ $op_name _f64>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i8>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i16>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
                 fn [<hodu_cpu_ $op_name _i32>](input: *const c_void, indices: *const i32, src: *const c_void, output: *mut c_void, metadata: *const usize);
@@ -280,6 +281,7 @@ macro_rules! declare_and_dispatch_scatter_add {
                     concat!("hodu_cpu_", stringify!($op_name), "_bf16") => [<hodu_cpu_ $op_name _bf16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f16") => [<hodu_cpu_ $op_name _f16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_f32") => [<hodu_cpu_ $op_name _f32>](input, indices, src, output, metadata),
+                    concat!("hodu_cpu_", stringify!($op_name), "_f64") => [<hodu_cpu_ $op_name _f64>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i8") => [<hodu_cpu_ $op_name _i8>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i16") => [<hodu_cpu_ $op_name _i16>](input, indices, src, output, metadata),
                     concat!("hodu_cpu_", stringify!($op_name), "_i32") => [<hodu_cpu_ $op_name _i32>](input, indices, src, output, metadata),
-- 
2.43.0


From ced7823a243016d5c1f7e203e90688cf14fbc162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 32/93] fix: scatter_max and scatter_min compare half- and
 quarter-precision values, not their bit patterns

---
 .../hodu_cpu_kernels/kernels/ops_indexing.c   | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_indexing.c b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
index 0843d5a..7c0c5cd 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_indexing.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_indexing.c
@@ -649,7 +649,8 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MAX_OP(TYPENAME, FN_NAME)                                                          \
+/// @param GT_FN Comparison that lets a source value replace the existing one
+#define SCATTER_MAX_OP_WITH(TYPENAME, FN_NAME, GT_FN)                                              \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -732,16 +733,20 @@ SCATTER_ADD_OP(uint64_t, scatter_add_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val > output[output_flat_idx]) {                                               \
+            if (GT_FN(src_val, output[output_flat_idx])) {                                         \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MAX_OP(f8e4m3_t, scatter_max_f8e4m3)
-SCATTER_MAX_OP(f8e5m2_t, scatter_max_f8e5m2)
-SCATTER_MAX_OP(bf16_t, scatter_max_bf16)
-SCATTER_MAX_OP(f16_t, scatter_max_f16)
+#define SCATTER_MAX_NATIVE(a, b) ((a) > (b))
+#define SCATTER_MAX_OP(TYPENAME, FN_NAME)                                                          \
+    SCATTER_MAX_OP_WITH(TYPENAME, FN_NAME, SCATTER_MAX_NATIVE)
+
+SCATTER_MAX_OP_WITH(f8e4m3_t, scatter_max_f8e4m3, f8e4m3_gt)
+SCATTER_MAX_OP_WITH(f8e5m2_t, scatter_max_f8e5m2, f8e5m2_gt)
+SCATTER_MAX_OP_WITH(bf16_t, scatter_max_bf16, bf16_gt)
+SCATTER_MAX_OP_WITH(f16_t, scatter_max_f16, f16_gt)
 SCATTER_MAX_OP(float, scatter_max_f32)
 SCATTER_MAX_OP(double, scatter_max_f64)
 SCATTER_MAX_OP(int8_t, scatter_max_i8)
@@ -767,7 +772,8 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
 ///
 /// @param TYPENAME C type for the operation
 /// @param FN_NAME Function name
-#define SCATTER_MIN_OP(TYPENAME, FN_NAME)                                                          \
+/// @param LT_FN Comparison that lets a source value replace the existing one
+#define SCATTER_MIN_OP_WITH(TYPENAME, FN_NAME, LT_FN)                                              \
     void hodu_cpu_##FN_NAME(const void *input_ptr, const int32_t *indices, const void *src_ptr,    \
                             void *output_ptr, const size_t *metadata) {                            \
         const TYPENAME *input = (const TYPENAME *)input_ptr;                                       \
@@ -850,16 +856,20 @@ SCATTER_MAX_OP(uint64_t, scatter_max_u64)
             }                                                                                      \
                                                                                                    \
             TYPENAME src_val = src[src_flat_idx];                                                  \
-            if (src_val < output[output_flat_idx]) {                                               \
+            if (LT_FN(src_val, output[output_flat_idx])) {                                         \
                 output[output_flat_idx] = src_val;                                                 \
             }                                                                                      \
         }                                                                                          \
     }
 
-SCATTER_MIN_OP(f8e4m3_t, scatter_min_f8e4m3)
-SCATTER_MIN_OP(f8e5m2_t, scatter_min_f8e5m2)
-SCATTER_MIN_OP(bf16_t, scatter_min_bf16)
-SCATTER_MIN_OP(f16_t, scatter_min_f16)
+#define SCATTER_MIN_NATIVE(a, b) ((a) < (b))
+#define SCATTER_MIN_OP(TYPENAME, FN_NAME)                                                          \
+    SCATTER_MIN_OP_WITH(TYPENAME, FN_NAME, SCATTER_MIN_NATIVE)
+
+SCATTER_MIN_OP_WITH(f8e4m3_t, scatter_min_f8e4m3, f8e4m3_lt)
+SCATTER_MIN_OP_WITH(f8e5m2_t, scatter_min_f8e5m2, f8e5m2_lt)
+SCATTER_MIN_OP_WITH(bf16_t, scatter_min_bf16, bf16_lt)
+SCATTER_MIN_OP_WITH(f16_t, scatter_min_f16, f16_lt)
 SCATTER_MIN_OP(float, scatter_min_f32)
 SCATTER_MIN_OP(double, scatter_min_f64)
 SCATTER_MIN_OP(int8_t, scatter_min_i8)
-- 
2.43.0


From affbe34c9da96f8b69b8d907f05fc1f0de628a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 33/93] fix: chunk with more chunks than whole pieces no longer
 underflows

---
 crates/hodu_core/src/tensor/ops/concat_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/concat_split.rs b/crates/hodu_core/src/tensor/ops/concat_split.rs
index 7097337..861aa8d 100644
--- a/crates/hodu_core/src/tensor/ops/concat_split.rs
+++ b/crates/hodu_core/src/tensor/ops/concat_split.rs
@@ -251,7 +251,7 @@ impl Tensor {
         let chunk_size = dim_size.div_ceil(chunks);
         let sizes: Vec<usize> = (0..chunks)
             .map(|i| {
-                let start = i * chunk_size;
+                let start = (i * chunk_size).min(dim_size);
                 let end = ((i + 1) * chunk_size).min(dim_size);
                 end - start
             })
-- 
2.43.0


From 28fdabe42a75406ef3f700bed200dbd57e1d0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 34/93] fix: matmul and dot of broadcast f32 and f64 operands
 no longer pass overlapping rows to BLAS

---
 .../kernels/ops_matrix_openblas.c             | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
index 18f98c0..b324477 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c
@@ -15,6 +15,12 @@ extern void hodu_cpu_dot_f32_fallback(const void *lhs_ptr, const void *rhs_ptr,
 extern void hodu_cpu_dot_f64_fallback(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr,
                                       const size_t *metadata);
 
+// BLAS stores a matrix as `rows` runs of `cols` adjacent elements, `row_stride` apart. Overlapping runs
+// (broadcast operands have stride 0) cannot be passed to it.
+static inline bool blas_storable(size_t rows, size_t cols, size_t row_stride, size_t col_stride) {
+    return col_stride == 1 && (row_stride >= cols || rows <= 1);
+}
+
 /// F32 matmul using OpenBLAS cblas_sgemm with thread control
 void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr,
                          const size_t *metadata) {
@@ -44,10 +50,12 @@ void hodu_cpu_matmul_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_
     // Determine matrix layouts and transpose flags
     // Row-major: innermost (last) stride is 1
     // Col-major: outermost (second-to-last) stride is 1
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    const size_t *lhs_mk = lhs_strides + lhs_ndim - 2;
+    const size_t *rhs_kn = rhs_strides + rhs_ndim - 2;
+    bool lhs_row_major = blas_storable(M, K, lhs_mk[0], lhs_mk[1]);
+    bool lhs_col_major = blas_storable(K, M, lhs_mk[1], lhs_mk[0]);
+    bool rhs_row_major = blas_storable(K, N, rhs_kn[0], rhs_kn[1]);
+    bool rhs_col_major = blas_storable(N, K, rhs_kn[1], rhs_kn[0]);
 
     // Can use BLAS if either row-major or col-major (transposed)
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
@@ -185,10 +193,12 @@ void hodu_cpu_matmul_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_strides[lhs_ndim - 1] == 1);
-    bool lhs_col_major = (lhs_strides[lhs_ndim - 2] == 1);
-    bool rhs_row_major = (rhs_strides[rhs_ndim - 1] == 1);
-    bool rhs_col_major = (rhs_strides[rhs_ndim - 2] == 1);
+    const size_t *lhs_mk = lhs_strides + lhs_ndim - 2;
+    const size_t *rhs_kn = rhs_strides + rhs_ndim - 2;
+    bool lhs_row_major = blas_storable(M, K, lhs_mk[0], lhs_mk[1]);
+    bool lhs_col_major = blas_storable(K, M, lhs_mk[1], lhs_mk[0]);
+    bool rhs_row_major = blas_storable(K, N, rhs_kn[0], rhs_kn[1]);
+    bool rhs_col_major = blas_storable(N, K, rhs_kn[1], rhs_kn[0]);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -316,10 +326,10 @@ void hodu_cpu_dot_f32(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = blas_storable(M, K, lhs_stride_m, lhs_stride_k);
+    bool lhs_col_major = blas_storable(K, M, lhs_stride_k, lhs_stride_m);
+    bool rhs_row_major = blas_storable(K, N, rhs_stride_k, rhs_stride_n);
+    bool rhs_col_major = blas_storable(N, K, rhs_stride_n, rhs_stride_k);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
@@ -373,10 +383,10 @@ void hodu_cpu_dot_f64(const void *lhs_ptr, const void *rhs_ptr, void *output_ptr
     rhs += rhs_offset;
 
     // Determine matrix layouts and transpose flags
-    bool lhs_row_major = (lhs_stride_k == 1);
-    bool lhs_col_major = (lhs_stride_m == 1);
-    bool rhs_row_major = (rhs_stride_n == 1);
-    bool rhs_col_major = (rhs_stride_k == 1);
+    bool lhs_row_major = blas_storable(M, K, lhs_stride_m, lhs_stride_k);
+    bool lhs_col_major = blas_storable(K, M, lhs_stride_k, lhs_stride_m);
+    bool rhs_row_major = blas_storable(K, N, rhs_stride_k, rhs_stride_n);
+    bool rhs_col_major = blas_storable(N, K, rhs_stride_n, rhs_stride_k);
 
     if ((lhs_row_major || lhs_col_major) && (rhs_row_major || rhs_col_major)) {
         enum CBLAS_TRANSPOSE trans_lhs = lhs_row_major ? CblasNoTrans : CblasTrans;
-- 
2.43.0


From de4d19162bd305b661e1d3c1f039c36ab6754a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 35/93] fix: conv2d and its weight gradient with OpenBLAS read
 the im2col buffer in the order it is written

---
 .../kernels/ops_conv_openblas.c               | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
index 6c10fad..1301dde 100644
--- a/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
+++ b/crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c
@@ -110,7 +110,7 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -126,12 +126,12 @@ void hodu_cpu_conv2d_f32(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         float *batch_output = output + b * out_channels * out_height * out_width;
         const float *batch_weight = weight + weight_offset;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0f, batch_weight, K,
-                    col_buffer, N, 0.0f, batch_output, N);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0f, batch_weight, K,
+                    col_buffer, K, 0.0f, batch_output, N);
     }
 
     free(col_buffer);
@@ -167,7 +167,7 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         // Fallback to naive implementation if allocation fails
@@ -183,12 +183,12 @@ void hodu_cpu_conv2d_f64(const void *input_ptr, const void *weight_ptr, void *ou
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: output = weight × col_buffer
+        // GEMM: output = weight × col_buffer^T
         double *batch_output = output + b * out_channels * out_height * out_width;
         const double *batch_weight = weight + weight_offset;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, N, K, 1.0, batch_weight, K,
-                    col_buffer, N, 0.0, batch_output, N);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, N, K, 1.0, batch_weight, K,
+                    col_buffer, K, 0.0, batch_output, N);
     }
 
     free(col_buffer);
@@ -254,7 +254,7 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     float *col_buffer = (float *)malloc(K * N * sizeof(float));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f32_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -270,12 +270,12 @@ void hodu_cpu_conv2d_grad_weight_f32(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const float *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0f, batch_grad_output, N,
-                    col_buffer, N, 1.0f, grad_weight, K);
+        cblas_sgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0f, batch_grad_output, N,
+                    col_buffer, K, 1.0f, grad_weight, K);
     }
 
     free(col_buffer);
@@ -341,7 +341,7 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
     const size_t N = out_height * out_width;
     const size_t M = out_channels;
 
-    // Allocate column buffer: [K, N]
+    // Allocate column buffer: [N, K]
     double *col_buffer = (double *)malloc(K * N * sizeof(double));
     if (!col_buffer) {
         hodu_cpu_conv2d_grad_weight_f64_fallback(input_ptr, grad_output_ptr, grad_weight_ptr,
@@ -357,12 +357,12 @@ void hodu_cpu_conv2d_grad_weight_f64(const void *input_ptr, const void *grad_out
                    kernel_width, out_height, out_width, stride_h, stride_w, padding_h, padding_w,
                    dilation_h, dilation_w);
 
-        // GEMM: grad_weight += grad_output × col_buffer^T
+        // GEMM: grad_weight += grad_output × col_buffer
         const double *batch_grad_output =
             grad_output + grad_output_offset + b * out_channels * out_height * out_width;
 
-        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, M, K, N, 1.0, batch_grad_output, N,
-                    col_buffer, N, 1.0, grad_weight, K);
+        cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, M, K, N, 1.0, batch_grad_output, N,
+                    col_buffer, K, 1.0, grad_weight, K);
     }
 
     free(col_buffer);
-- 
2.43.0


From 4584006bb7c2f79684a9e7712433ab73c2588ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 36/93] fix: transposed convolutions take their weight as
 [in_channels, out_channels, ...], as the kernels, layers and gradients do

---
 .../hodu_core/src/be_cpu/storage/ops_conv.rs   | 12 ++++++++----
 crates/hodu_core/src/tensor/ops/conv.rs        | 18 +++++++++---------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
index 2565da8..2054a1b 100644
--- a/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
+++ b/crates/hodu_core/src/be_cpu/storage/ops_conv.rs
@@ -69,7 +69,8 @@ pub fn call_ops_conv(
         )));
     }
 
-    // Validate weight shape: [out_channels, in_channels, kernel...]
+    // Validate weight shape: [out_channels, in_channels, kernel...], for transposed convolutions
+    // [in_channels, out_channels, kernel...]
     let weight_ndim = weight_shape.ndim();
     if weight_ndim != (2 + spatial_dims) {
         return Err(HoduError::BackendError(format!(
@@ -82,11 +83,14 @@ pub fn call_ops_conv(
     let in_channels = input_shape.dims()[1];
 
     // Validate in_channels match
-    if weight_shape.dims()[1] != in_channels {
+    let weight_in_channels = match conv_op {
+        ConvOp::ConvTranspose1d | ConvOp::ConvTranspose2d | ConvOp::ConvTranspose3d => weight_shape.dims()[0],
+        _ => weight_shape.dims()[1],
+    };
+    if weight_in_channels != in_channels {
         return Err(HoduError::BackendError(format!(
             "weight in_channels {} does not match input in_channels {}",
-            weight_shape.dims()[1],
-            in_channels
+            weight_in_channels, in_channels
         )));
     }
 
diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index 8f9ac3e..648c833 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -409,7 +409,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, length]
-        // Weight: [out_channels, in_channels, kernel_size] (same as conv1d)
+        // Weight: [in_channels, out_channels, kernel_size]
         if input_dims.len() != 3 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -428,10 +428,10 @@ impl Tensor {
         let batch_size = input_dims[0];
         let _channels_input = input_dims[1];
         let length_input = input_dims[2];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K]
         let kernel_size = weight_dims[2];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -541,7 +541,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, height, width]
-        // Weight: [out_channels, in_channels, kernel_h, kernel_w] (same as conv2d)
+        // Weight: [in_channels, out_channels, kernel_h, kernel_w]
         if input_dims.len() != 4 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -561,11 +561,11 @@ impl Tensor {
         let _channels_input = input_dims[1];
         let input_height = input_dims[2];
         let input_width = input_dims[3];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, K, K]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, K, K]
         let kernel_height = weight_dims[2];
         let kernel_width = weight_dims[3];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -679,7 +679,7 @@ impl Tensor {
         let weight_dims = weight_shape.dims();
 
         // Input: [batch, in_channels, depth, height, width]
-        // Weight: [out_channels, in_channels, kernel_d, kernel_h, kernel_w] (same as conv3d)
+        // Weight: [in_channels, out_channels, kernel_d, kernel_h, kernel_w]
         if input_dims.len() != 5 {
             return Err(HoduError::incompatible_shapes(
                 input_shape,
@@ -700,12 +700,12 @@ impl Tensor {
         let input_depth = input_dims[2];
         let input_height = input_dims[3];
         let input_width = input_dims[4];
-        let channels_output = weight_dims[0]; // Weight: [out_channels, in_channels, ...]
+        let channels_output = weight_dims[1]; // Weight: [in_channels, out_channels, ...]
         let kernel_depth = weight_dims[2];
         let kernel_height = weight_dims[3];
         let kernel_width = weight_dims[4];
 
-        if input_dims[1] != weight_dims[1] {
+        if input_dims[1] != weight_dims[0] {
             // in_channels must match
             return Err(HoduError::incompatible_shapes(
                 input_shape,
-- 
2.43.0


From b2d436e82b774485a20bdbd8e3f2b370be2c852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 37/93] fix: convolutions that fit are not refused by an
 intermediate underflow, and ones that do not fit are errors instead of panics

---
 crates/hodu_core/src/tensor/ops/conv.rs | 70 ++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/crates/hodu_core/src/tensor/ops/conv.rs b/crates/hodu_core/src/tensor/ops/conv.rs
index 648c833..9c7021a 100644
--- a/crates/hodu_core/src/tensor/ops/conv.rs
+++ b/crates/hodu_core/src/tensor/ops/conv.rs
@@ -13,6 +13,52 @@ use crate::{
     },
 };
 
+/// Extent of one axis of a convolution's output.
+fn conv_output_size(input: usize, kernel: usize, stride: usize, padding: usize, dilation: usize) -> HoduResult<usize> {
+    if kernel == 0 || stride == 0 || dilation == 0 {
+        return Err(HoduError::InvalidArgument(
+            "convolution kernel size, stride and dilation must be positive".to_string(),
+        ));
+    }
+    let padded = padding.checked_mul(2).and_then(|p| p.checked_add(input));
+    let extent = (kernel - 1).checked_mul(dilation).and_then(|e| e.checked_add(1));
+    match (padded, extent) {
+        (Some(padded), Some(extent)) if padded >= extent => Ok((padded - extent) / stride + 1),
+        _ => Err(HoduError::InvalidArgument(format!(
+            "convolution kernel of size {kernel} with dilation {dilation} does not fit an input of size {input} with padding {padding}"
+        ))),
+    }
+}
+
+/// Extent of one axis of a transposed convolution's output.
+fn conv_transpose_output_size(
+    input: usize,
+    kernel: usize,
+    stride: usize,
+    padding: usize,
+    output_padding: usize,
+    dilation: usize,
+) -> HoduResult<usize> {
+    if input == 0 || kernel == 0 || stride == 0 || dilation == 0 {
+        return Err(HoduError::InvalidArgument(
+            "transposed convolution input size, kernel size, stride and dilation must be positive".to_string(),
+        ));
+    }
+    let full = (|| {
+        (input - 1)
+            .checked_mul(stride)?
+            .checked_add((kernel - 1).checked_mul(dilation)?)?
+            .checked_add(output_padding)?
+            .checked_add(1)
+    })();
+    match (full, padding.checked_mul(2)) {
+        (Some(full), Some(cropped)) if full > cropped => Ok(full - cropped),
+        _ => Err(HoduError::InvalidArgument(format!(
+            "transposed convolution of an input of size {input} leaves no output with padding {padding}"
+        ))),
+    }
+}
+
 impl Tensor {
     pub fn conv1d(&self, weight: &Self, stride: usize, padding: usize, dilation: usize) -> HoduResult<Self> {
         let input_shape = self.shape();
@@ -58,7 +104,7 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv1d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv1d));
 
-        let output_length = (length_input + 2 * padding - dilation * (kernel_size - 1) - 1) / stride + 1;
+        let output_length = conv_output_size(length_input, kernel_size, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -182,8 +228,8 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv2d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv2d));
 
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -311,9 +357,9 @@ impl Tensor {
         validate_dtype_for_op(self.dtype(), Op::Conv(ConvOp::Conv3d))?;
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::Conv3d));
 
-        let output_depth = (input_depth + 2 * padding - dilation * (kernel_depth - 1) - 1) / stride + 1;
-        let output_height = (input_height + 2 * padding - dilation * (kernel_height - 1) - 1) / stride + 1;
-        let output_width = (input_width + 2 * padding - dilation * (kernel_width - 1) - 1) / stride + 1;
+        let output_depth = conv_output_size(input_depth, kernel_depth, stride, padding, dilation)?;
+        let output_height = conv_output_size(input_height, kernel_height, stride, padding, dilation)?;
+        let output_width = conv_output_size(input_width, kernel_width, stride, padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
@@ -448,7 +494,7 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose1d));
 
         let output_length =
-            (length_input - 1) * stride - 2 * padding + dilation * (kernel_size - 1) + output_padding + 1;
+            conv_transpose_output_size(length_input, kernel_size, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_length];
 
         let stride_arr = [stride];
@@ -582,9 +628,9 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose2d));
 
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_height, output_width];
 
         let stride_arr = [stride; 2];
@@ -722,11 +768,11 @@ impl Tensor {
         let validate_requires_grad = validate_requires_grad_for_op(Op::Conv(ConvOp::ConvTranspose3d));
 
         let output_depth =
-            (input_depth - 1) * stride - 2 * padding + dilation * (kernel_depth - 1) + output_padding + 1;
+            conv_transpose_output_size(input_depth, kernel_depth, stride, padding, output_padding, dilation)?;
         let output_height =
-            (input_height - 1) * stride - 2 * padding + dilation * (kernel_height - 1) + output_padding + 1;
+            conv_transpose_output_size(input_height, kernel_height, stride, padding, output_padding, dilation)?;
         let output_width =
-            (input_width - 1) * stride - 2 * padding + dilation * (kernel_width - 1) + output_padding + 1;
+            conv_transpose_output_size(input_width, kernel_width, stride, padding, output_padding, dilation)?;
         let output_shape = vec![batch_size, channels_output, output_depth, output_height, output_width];
 
         let stride_arr = [stride; 3];
-- 
2.43.0


From 94778ee2ee219d4d10195484ad88e721e30c27fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 38/93] fix: einsum rejects repeated output indices, symbols
 that are not letters and more indices than the kernels hold

---
 crates/hodu_core/src/einsum.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/einsum.rs b/crates/hodu_core/src/einsum.rs
index de03ed9..83ef0b7 100644
--- a/crates/hodu_core/src/einsum.rs
+++ b/crates/hodu_core/src/einsum.rs
@@ -2,6 +2,9 @@ use crate::error::{HoduError, HoduResult};
 use crate::types::Shape;
 use std::collections::{HashMap, HashSet};
 
+/// Most distinct indices an equation may use, and most dimensions an operand may have (fixed by the kernels).
+const MAX_INDICES: usize = 16;
+
 #[derive(Debug, Clone)]
 pub struct ParsedEinsum {
     pub input_subscripts: Vec<Vec<char>>,
@@ -37,6 +40,15 @@ impl ParsedEinsum {
             )));
         }
 
+        for &c in input_subscripts.iter().flatten() {
+            if !c.is_ascii_alphabetic() {
+                return Err(HoduError::InvalidArgument(format!(
+                    "einsum index '{}' is not a letter",
+                    c
+                )));
+            }
+        }
+
         for (i, (subs, shape)) in input_subscripts.iter().zip(input_shapes.iter()).enumerate() {
             if subs.len() != shape.ndim() {
                 return Err(HoduError::InvalidArgument(format!(
@@ -68,6 +80,13 @@ impl ParsedEinsum {
         let mut all_indices: Vec<char> = index_sizes.keys().cloned().collect();
         all_indices.sort();
 
+        if all_indices.len() > MAX_INDICES || input_subscripts.iter().any(|subs| subs.len() > MAX_INDICES) {
+            return Err(HoduError::InvalidArgument(format!(
+                "einsum supports at most {} distinct indices and dimensions",
+                MAX_INDICES
+            )));
+        }
+
         let mut index_counts: HashMap<char, usize> = HashMap::new();
         for subs in &input_subscripts {
             for &c in subs {
@@ -85,13 +104,19 @@ impl ParsedEinsum {
                 .collect()
         };
 
-        for &c in &output_subscripts {
+        for (i, &c) in output_subscripts.iter().enumerate() {
             if !index_sizes.contains_key(&c) {
                 return Err(HoduError::InvalidArgument(format!(
                     "einsum output index '{}' not found in any input",
                     c
                 )));
             }
+            if output_subscripts[..i].contains(&c) {
+                return Err(HoduError::InvalidArgument(format!(
+                    "einsum output index '{}' appears more than once",
+                    c
+                )));
+            }
         }
 
         let output_set: HashSet<char> = output_subscripts.iter().cloned().collect();
-- 
2.43.0


From 0353ea2164cbacd34340cbbf3863da681f0dced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 39/93] fix: einsum with an empty result no longer writes one
 element past it

---
 crates/hodu_core/src/op_metadatas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/op_metadatas.rs b/crates/hodu_core/src/op_metadatas.rs
index a3cfce1..c2cbe3a 100644
--- a/crates/hodu_core/src/op_metadatas.rs
+++ b/crates/hodu_core/src/op_metadatas.rs
@@ -1511,7 +1511,7 @@ pub fn einsum_metadata(
     let num_total_indices = parsed.all_indices.len();
     let num_contraction_indices = parsed.contraction_indices.len();
     let output_ndim = output_layout.ndim();
-    let num_output_els = output_layout.size().max(1);
+    let num_output_els = output_layout.size();
 
     let mut metadata = vec![
         num_output_els,
-- 
2.43.0


From 59f8b5742bf38c050fd4d8b4e16e7e2c665cb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 40/93] fix: gradients of convolutions match the transposed
 convolution's weight order and cover inputs the stride does not divide

---
 .../hodu_core/src/tensor/gradient/vjp_conv.rs | 82 +++++++++++++++----
 1 file changed, 67 insertions(+), 15 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
index abbadb7..807e84f 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_conv.rs
@@ -2,9 +2,39 @@ use super::VjpCompute;
 use crate::{
     error::{HoduError, HoduResult},
     ops::{ConvOp, OpParams},
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
+/// Output padding for which the transposed convolution of the gradient covers the whole input
+/// (the stride may leave a remainder, a different one along every axis).
+fn transposed_output_padding(
+    sizes: &[usize],
+    grad_sizes: &[usize],
+    kernel: &[usize],
+    stride: usize,
+    padding: usize,
+    dilation: usize,
+) -> usize {
+    (0..sizes.len())
+        .map(|i| {
+            let covered = (grad_sizes[i] - 1) * stride + dilation * (kernel[i] - 1) + 1;
+            (sizes[i] + 2 * padding).saturating_sub(covered)
+        })
+        .max()
+        .unwrap_or(0)
+}
+
+/// Drop what lies past the given extents of the spatial axes.
+fn crop_spatial(tensor: &Tensor, sizes: &[usize]) -> HoduResult<Tensor> {
+    let mut result = tensor.clone();
+    for (i, &size) in sizes.iter().enumerate() {
+        if result.shape().dims()[2 + i] != size {
+            result = result.slice(2 + i, 0, Some(size as i32), 1)?;
+        }
+    }
+    Ok(result)
+}
+
 impl VjpCompute for ConvOp {
     fn compute_vjp(
         &self,
@@ -38,11 +68,14 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv1d weight: [Co, Ci, K], Conv_transpose1d (backend): w [Co_out, Ci_in, K]
-                // Transpose needed: [Co, Ci, K] -> [Ci, Co, K]
-                let weight_transposed = weight.transpose(0, 1)?;
+                // Its weight is [in_channels, out_channels, ...], which is the forward weight as it stands.
+                let sizes = input.shape().dims()[2..].to_vec();
+                let grad_sizes = grad_output_tensor.shape().dims()[2..].to_vec();
+                let output_padding =
+                    transposed_output_padding(&sizes, &grad_sizes, &[kernel_size], stride, padding, dilation);
                 let grad_input =
-                    grad_output_tensor.conv_transpose1d(&weight_transposed, stride, padding, 0, dilation)?;
+                    grad_output_tensor.conv_transpose1d(&weight, stride, padding, output_padding, dilation)?;
+                let grad_input = crop_spatial(&grad_input, &sizes)?;
 
                 // Gradient w.r.t. weight: conv1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_output, channels_input, kernel_size];
@@ -76,13 +109,20 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv2d: x [N, Ci, H, W] * w [Co, Ci, K, K] -> y [N, Co, H', W']
-                // Backward: grad_y [N, Co, H', W'] -> grad_x [N, Ci, H, W]
-                // Conv_transpose2d (backend): input [N, Ci_in, H, W] * w [Co_out, Ci_in, K, K] -> output [N, Co_out, H', W']
-                // For backward: grad_y [N, Co, H', W'] needs w [Ci, Co, K, K] (transpose needed!)
-                let weight_transposed = weight.transpose(0, 1)?; // [Co, Ci, K, K] -> [Ci, Co, K, K]
+                // Its weight is [in_channels, out_channels, ...], which is the forward weight as it stands.
+                let sizes = input.shape().dims()[2..].to_vec();
+                let grad_sizes = grad_output_tensor.shape().dims()[2..].to_vec();
+                let output_padding = transposed_output_padding(
+                    &sizes,
+                    &grad_sizes,
+                    &[kernel_height, kernel_width],
+                    stride,
+                    padding,
+                    dilation,
+                );
                 let grad_input =
-                    grad_output_tensor.conv_transpose2d(&weight_transposed, stride, padding, 0, dilation)?;
+                    grad_output_tensor.conv_transpose2d(&weight, stride, padding, output_padding, dilation)?;
+                let grad_input = crop_spatial(&grad_input, &sizes)?;
 
                 // Gradient w.r.t. weight: conv2d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape_vec = vec![channels_output, channels_input, kernel_height, kernel_width];
@@ -117,11 +157,20 @@ impl VjpCompute for ConvOp {
                 let dilation = p.dilation;
 
                 // Gradient w.r.t. input: use transposed convolution
-                // Conv3d weight: [Co, Ci, Kd, Kh, Kw], Conv_transpose3d (backend): w [Co_out, Ci_in, ...]
-                // Transpose needed: [Co, Ci, ...] -> [Ci, Co, ...]
-                let weight_transposed = weight.transpose(0, 1)?;
+                // Its weight is [in_channels, out_channels, ...], which is the forward weight as it stands.
+                let sizes = input.shape().dims()[2..].to_vec();
+                let grad_sizes = grad_output_tensor.shape().dims()[2..].to_vec();
+                let output_padding = transposed_output_padding(
+                    &sizes,
+                    &grad_sizes,
+                    &[kernel_depth, kernel_height, kernel_width],
+                    stride,
+                    padding,
+                    dilation,
+                );
                 let grad_input =
-                    grad_output_tensor.conv_transpose3d(&weight_transposed, stride, padding, 0, dilation)?;
+                    grad_output_tensor.conv_transpose3d(&weight, stride, padding, output_padding, dilation)?;
+                let grad_input = crop_spatial(&grad_input, &sizes)?;
 
                 // Gradient w.r.t. weight: conv3d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![
@@ -164,6 +213,7 @@ impl VjpCompute for ConvOp {
                 // Gradient w.r.t. input: Use regular Conv1d
                 // weight shape for conv1d is [Co, Ci, K], but we need to transpose channels
                 let grad_input = grad_output_tensor.conv1d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_spatial(&grad_input, &input.shape().dims()[2..])?;
 
                 // Gradient w.r.t. weight: conv_transpose1d_grad_weight(input, grad_output, weight_shape)
                 let weight_shape = vec![channels_input, channels_output, kernel_size];
@@ -205,6 +255,7 @@ impl VjpCompute for ConvOp {
 
                 // Gradient w.r.t. input: Use regular Conv2d
                 let grad_input = grad_output_tensor.conv2d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_spatial(&grad_input, &input.shape().dims()[2..])?;
 
                 // Gradient w.r.t. weight: conv_transpose2d_grad_weight
                 let weight_shape = vec![channels_input, channels_output, kernel_height, kernel_width];
@@ -247,6 +298,7 @@ impl VjpCompute for ConvOp {
 
                 // Gradient w.r.t. input: Use regular Conv3d
                 let grad_input = grad_output_tensor.conv3d(&weight, stride, padding, dilation)?;
+                let grad_input = crop_spatial(&grad_input, &input.shape().dims()[2..])?;
 
                 // Gradient w.r.t. weight: conv_transpose3d_grad_weight
                 let weight_shape = vec![
-- 
2.43.0


From a16817ba7ca277c4ff72273c0adfd3cb09c3a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:06 +0000
Subject: [PATCH 41/93] fix: closing a gradient context releases the tape lock
 before cleaning up tensors

---
 crates/hodu_core/src/tensor/gradient/tape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 895b28f..7e12ebc 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -31,7 +31,9 @@ pub(super) fn initialize_tape(context_id: ContextId) {
 
 /// Remove a tape for a context and clean up context-owned tensors
 pub(super) fn remove_tape(context_id: ContextId) {
-    if let Some(tape) = GRADIENT_TAPES.lock().unwrap().remove(&context_id) {
+    // The lock must be released before the cleanup, which takes it again for tensors with a tracked gradient.
+    let tape = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
+    if let Some(tape) = tape {
         cleanup_context_tensors(context_id, &tape);
     }
 }
-- 
2.43.0


From 487a4c9c9af990bd2a12c5f38f1a8df04f3d9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 42/93] fix: gradients flow through contiguous copies, so
 operations on strided tensors keep them

---
 crates/hodu_core/src/ops.rs                   |  2 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  4 ++-
 .../hodu_core/src/tensor/ops/cast_memory.rs   | 29 ++++++++++++++++---
 crates/hodu_core/src/utils/valid.rs           |  4 +--
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index 287f3ea..fa77879 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -810,7 +810,7 @@ impl fmt::Debug for CastOp {
 #[derive(Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum MemoryOp {
-    Contiguous, // no-backprop
+    Contiguous,
 }
 
 impl fmt::Display for MemoryOp {
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 8d2b786..9af639f 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -5,7 +5,7 @@ use super::{
 };
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{Op, OpParams},
+    ops::{MemoryOp, Op, OpParams},
     tensor::{self, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
 };
 use std::collections::HashMap;
@@ -185,6 +185,8 @@ fn compute_vjp_for_op(
         Op::Shape(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeScalars(op) => op.compute_vjp(inputs, output, grad_output, op_params),
         Op::ShapeMemory(op) => op.compute_vjp(inputs, output, grad_output, op_params),
+        // A contiguous copy holds the same elements, so its gradient is passed through
+        Op::Memory(MemoryOp::Contiguous) => Ok(vec![grad_output]),
         _ => Err(HoduError::VjpFunctionNotFound(format!("compute_vjp for {:?}", op))),
     }
 }
diff --git a/crates/hodu_core/src/tensor/ops/cast_memory.rs b/crates/hodu_core/src/tensor/ops/cast_memory.rs
index 7c313fb..fbeddf9 100644
--- a/crates/hodu_core/src/tensor/ops/cast_memory.rs
+++ b/crates/hodu_core/src/tensor/ops/cast_memory.rs
@@ -1,9 +1,9 @@
 use crate::{
     error::{HoduError, HoduResult},
     ops::{CastOp, ContiguousParams, MemoryOp, Op, OpParams, ToDTypeParams},
-    tensor::{create_builder_tensor, from_storage_with_context, Tensor},
+    tensor::{create_builder_tensor, from_storage_with_context, gradient, Tensor},
     types::{DType, Device, Layout},
-    utils::valid::validate_dtype_for_device,
+    utils::valid::{validate_dtype_for_device, validate_requires_grad_for_op},
 };
 
 impl Tensor {
@@ -59,9 +59,12 @@ impl Tensor {
             return Ok(self.clone());
         }
 
+        let validate_requires_grad = validate_requires_grad_for_op(Op::Memory(MemoryOp::Contiguous));
+        let requires_grad = self.is_requires_grad() && validate_requires_grad;
+
         if crate::snapshot::capture::is_active() {
             let result_layout = Layout::from_shape(&self.shape());
-            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), false);
+            let (result_id, result_tensor) = create_builder_tensor(result_layout.clone(), self.dtype(), requires_grad);
 
             crate::snapshot::capture::capture_operation(
                 Op::Memory(MemoryOp::Contiguous),
@@ -72,12 +75,30 @@ impl Tensor {
                 result_layout,
             )?;
 
+            if requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result_id,
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
+
             Ok(result_tensor)
         } else {
             let storage = self.with_storage(|storage| storage.contiguous(&self.layout()))?;
             let layout = Layout::from_shape(&self.shape());
 
-            let result = from_storage_with_context(storage, layout, true, false);
+            let result = from_storage_with_context(storage, layout, true, requires_grad);
+
+            if !gradient::is_computing_gradients() && requires_grad {
+                gradient::record_operation(
+                    vec![self.id()],
+                    result.id(),
+                    Op::Memory(MemoryOp::Contiguous),
+                    OpParams::Contiguous(ContiguousParams),
+                )?;
+            }
 
             Ok(result)
         }
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index d2069fd..6a08347 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -493,8 +493,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
         // Cast operations - no backprop
         Op::Cast(_) => false, // !
 
-        // Memory operations - no backprop
-        Op::Memory(_) => false, // !
+        // Memory operations (contiguous)
+        Op::Memory(_) => true,
 
         Op::Dummy => false,
     }
-- 
2.43.0


From 880ab451c0f84bb3ccd69791f4561cb5acd970a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 43/93] fix: norm compiles without the f64 feature

---
 crates/hodu_core/src/tensor/ops/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/tensor/ops/reduce.rs b/crates/hodu_core/src/tensor/ops/reduce.rs
index bfac975..0baef9b 100644
--- a/crates/hodu_core/src/tensor/ops/reduce.rs
+++ b/crates/hodu_core/src/tensor/ops/reduce.rs
@@ -87,7 +87,7 @@ impl Tensor {
 
     pub fn norm<D: Into<Scalar> + Copy>(&self, p: impl Into<Scalar>, dims: &[D], keep_dim: bool) -> HoduResult<Self> {
         let p_scalar = p.into();
-        match p_scalar.to_f64() {
+        match p_scalar.to_f32() {
             1.0 => self.l1_norm(dims, keep_dim),
             2.0 => self.l2_norm(dims, keep_dim),
             _ => {
-- 
2.43.0


From 8bb68633213cccd96c5b321818ecc3d1ed8140a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:24 +0000
Subject: [PATCH 44/93] fix: gradients of transpose, permute and slice use the
 operation's own dimensions

---
 crates/hodu_core/src/op_params.rs             |   9 +-
 .../src/tensor/gradient/vjp_shape.rs          | 166 ++++--------------
 .../src/tensor/gradient/vjp_utils.rs          |  19 ++
 crates/hodu_core/src/tensor/ops/shape.rs      |  14 +-
 4 files changed, 75 insertions(+), 133 deletions(-)

diff --git a/crates/hodu_core/src/op_params.rs b/crates/hodu_core/src/op_params.rs
index ef8209c..b470ad5 100644
--- a/crates/hodu_core/src/op_params.rs
+++ b/crates/hodu_core/src/op_params.rs
@@ -481,11 +481,16 @@ pub struct BroadcastParams;
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct TransposeParams;
+pub struct TransposeParams {
+    pub dim1: i32,
+    pub dim2: i32,
+}
 
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
-pub struct PermuteParams;
+pub struct PermuteParams {
+    pub axes: Vec<i32>,
+}
 
 // Shape Memory Operations
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index 3282c8b..148bcf0 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -1,8 +1,8 @@
-use super::VjpCompute;
+use super::{vjp_utils::create_index_add_tensor, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
-    ops::{OpParams, ShapeOp, ShapeScalarsOp, SliceParams},
-    tensor::{tensor_from_id, Tensor, TensorId},
+    ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
+    tensor::{tensor_from_id, TensorId},
 };
 
 impl VjpCompute for ShapeOp {
@@ -11,7 +11,7 @@ impl VjpCompute for ShapeOp {
         inputs: &[TensorId],
         _output: TensorId,
         grad_output: TensorId,
-        _op_params: &OpParams,
+        op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let input = inputs[0];
         let input_tensor = tensor_from_id(input);
@@ -69,77 +69,30 @@ impl VjpCompute for ShapeOp {
                 Ok(vec![final_grad.id()])
             },
             ShapeOp::Transpose => {
-                // Reverse the transpose by finding which dimensions were swapped
-                // Compare input and output shapes to determine the transpose dimensions
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for transpose".to_string(),
+                // Swapping the same two dimensions again undoes the transpose
+                let OpParams::Transpose(TransposeParams { dim1, dim2 }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Transpose requires TransposeParams".to_string(),
                     ));
-                }
-
-                if input_shape.dims().len() < 2 {
-                    // For 0D or 1D tensors, transpose has no effect
-                    Ok(vec![grad_output])
-                } else {
-                    // Find which dimensions were swapped by comparing shapes
-                    let mut transpose_dims = None;
-
-                    // Check common case: last two dimensions transposed
-                    if input_shape.dims().len() >= 2 {
-                        let last_idx = input_shape.dims().len() - 1;
-                        let second_last_idx = input_shape.dims().len() - 2;
-
-                        if input_shape.dims()[last_idx] == grad_shape.dims()[second_last_idx]
-                            && input_shape.dims()[second_last_idx] == grad_shape.dims()[last_idx]
-                        {
-                            // Check if all other dimensions match
-                            let other_dims_match = input_shape.dims()[..second_last_idx]
-                                .iter()
-                                .zip(grad_shape.dims()[..second_last_idx].iter())
-                                .all(|(a, b)| a == b);
-
-                            if other_dims_match {
-                                transpose_dims = Some((second_last_idx as i32, last_idx as i32));
-                            }
-                        }
-                    }
-
-                    // If we couldn't determine the transpose dimensions, fall back to (-2, -1)
-                    let (dim1, dim2) = transpose_dims.unwrap_or((-2i32, -1i32));
-                    let transposed_grad = grad_tensor.transpose(dim1, dim2)?;
-                    Ok(vec![transposed_grad.id()])
-                }
+                };
+                let transposed_grad = grad_tensor.transpose(*dim1, *dim2)?;
+                Ok(vec![transposed_grad.id()])
             },
             ShapeOp::Permute => {
-                // Reverse the permutation by finding the inverse permutation
                 // If forward permutation is [a, b, c], then inverse is such that inverse[forward[i]] = i
-                if input_shape.dims().len() != grad_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Input and gradient shapes must have same rank for permute".to_string(),
+                let OpParams::Permute(PermuteParams { axes }) = op_params else {
+                    return Err(HoduError::VjpFunctionNotFound(
+                        "Permute requires PermuteParams".to_string(),
                     ));
-                }
-
-                let ndim = input_shape.dims().len();
-
-                // Find the forward permutation by comparing input and grad shapes
-                let mut forward_perm = vec![0; ndim];
-                for i in 0..ndim {
-                    for j in 0..ndim {
-                        if input_shape.dims()[i] == grad_shape.dims()[j] {
-                            // Check if this dimension is already used
-                            let already_used = forward_perm[..i].contains(&j);
-                            if !already_used {
-                                forward_perm[i] = j;
-                                break;
-                            }
-                        }
-                    }
-                }
+                };
 
-                // Compute inverse permutation
-                let mut inverse_perm = vec![0usize; ndim];
-                for (i, &p) in forward_perm.iter().enumerate() {
-                    inverse_perm[p] = i;
+                let mut inverse_perm = vec![0usize; axes.len()];
+                for (i, &axis) in axes.iter().enumerate() {
+                    let axis = input_shape.normalize_axis(axis).ok_or(HoduError::InvalidAxis {
+                        axis,
+                        ndim: input_shape.ndim(),
+                    })?;
+                    inverse_perm[axis] = i;
                 }
 
                 // Apply inverse permutation to gradient
@@ -166,67 +119,26 @@ impl VjpCompute for ShapeScalarsOp {
 
         match self {
             ShapeScalarsOp::Slice => {
-                let OpParams::Slice(SliceParams { dim, start, end, step }) = op_params else {
+                let OpParams::Slice(SliceParams { dim, start, step, .. }) = op_params else {
                     return Err(HoduError::VjpFunctionNotFound("Slice requires SliceParams".to_string()));
                 };
 
-                let dim = dim.to_i32() as usize;
-                let start = start.to_i32() as isize;
-                let end_value = end.to_i32();
-                let end = if end_value == i32::MAX {
-                    None
-                } else {
-                    Some(end_value as isize)
-                };
-                let step = step.to_i32() as isize;
-
-                // Calculate slice indices
-                let dim_size = input_shape.dims()[dim] as isize;
-                let start_idx = if start < 0 { dim_size + start } else { start };
-                let end_idx = end
-                    .map(|e| if e < 0 { dim_size + e } else { e })
-                    .unwrap_or(if step > 0 { dim_size } else { -1 });
-
-                // Generate indices based on step direction
-                let mut indices_vec = Vec::new();
-                if step > 0 {
-                    let mut idx = start_idx;
-                    while idx < end_idx && idx < dim_size {
-                        indices_vec.push(idx as i32);
-                        idx += step;
-                    }
-                } else {
-                    let mut idx = start_idx;
-                    while idx > end_idx && idx >= 0 {
-                        indices_vec.push(idx as i32);
-                        idx += step;
-                    }
-                }
-
-                // Validate that grad_shape matches expected slice output
-                if grad_shape.dims().len() != input_shape.dims().len() {
-                    return Err(HoduError::InternalError(
-                        "Gradient shape rank must match input shape rank for slice".to_string(),
-                    ));
-                }
-                if grad_shape.dims()[dim] as usize != indices_vec.len() {
-                    return Err(HoduError::InternalError(format!(
-                        "Gradient shape[{}]={} does not match expected slice size={}",
-                        dim,
-                        grad_shape.dims()[dim],
-                        indices_vec.len()
-                    )));
-                }
-
-                // Create indices tensor
-                let indices_tensor = Tensor::new(indices_vec)?;
-
-                // Create zero tensor with input shape
-                let dtype = input_tensor.dtype();
-                let grad_input = Tensor::zeros(&input_shape, dtype)?;
-
-                // Use scatter_add to place gradients at the sliced positions
-                let result = grad_input.scatter_add(dim, &indices_tensor, &grad_tensor)?;
+                let dim = dim.to_i32();
+                let dim = input_shape.normalize_axis(dim).ok_or(HoduError::InvalidAxis {
+                    axis: dim,
+                    ndim: input_shape.ndim(),
+                })?;
+
+                // The slice took `grad_shape[dim]` elements from `start` on, `step` apart
+                // (a negative step is recorded as a flip followed by a forward slice)
+                let dim_size = input_shape.dims()[dim];
+                let start = start.to_i32();
+                let start = if start < 0 { start + dim_size as i32 } else { start }.clamp(0, dim_size as i32);
+                let step = step.to_i32();
+                let indices: Vec<i32> = (0..grad_shape.dims()[dim] as i32).map(|i| start + i * step).collect();
+
+                // Place gradients at the sliced positions
+                let result = create_index_add_tensor(&grad_tensor, dim, &indices, dim_size)?;
 
                 Ok(vec![result.id()])
             },
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 2407e36..c5bae7d 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -189,6 +189,25 @@ pub fn create_sum_to_shape_tensor(tensor_id: TensorId, target_shape: &Shape) ->
     tensor.sum_to_shape(target_shape).map(|t| t.id())
 }
 
+// Indexing operations
+
+/// Adds every slice of `grad` along `dim` into position `indices[i]` of a zero tensor that has
+/// `size` positions along `dim`. This is the adjoint of selecting `indices` along `dim`.
+pub fn create_index_add_tensor(grad: &Tensor, dim: usize, indices: &[i32], size: usize) -> HoduResult<Tensor> {
+    let grad_shape = grad.shape();
+
+    let mut result_dims = grad_shape.dims().to_vec();
+    result_dims[dim] = size;
+
+    let mut indices_dims = vec![1; grad_shape.ndim()];
+    indices_dims[dim] = indices.len();
+    let indices_tensor = Tensor::new(indices.to_vec())?
+        .reshape(indices_dims)?
+        .broadcast(&grad_shape)?;
+
+    Tensor::zeros(result_dims, grad.dtype())?.scatter_add(dim, &indices_tensor, grad)
+}
+
 // Utility functions
 pub fn create_zeros_like_tensor(a: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
diff --git a/crates/hodu_core/src/tensor/ops/shape.rs b/crates/hodu_core/src/tensor/ops/shape.rs
index 2931245..e7d6a61 100644
--- a/crates/hodu_core/src/tensor/ops/shape.rs
+++ b/crates/hodu_core/src/tensor/ops/shape.rs
@@ -324,7 +324,10 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_i32,
+                        dim2: dim2_i32,
+                    }),
                 )?;
             }
 
@@ -337,7 +340,10 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Transpose),
-                    OpParams::Transpose(TransposeParams),
+                    OpParams::Transpose(TransposeParams {
+                        dim1: dim1_i32,
+                        dim2: dim2_i32,
+                    }),
                 )?;
             }
 
@@ -384,7 +390,7 @@ impl Tensor {
                     vec![self.id()],
                     result_id,
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams { axes: axes_i32 }),
                 )?;
             }
 
@@ -397,7 +403,7 @@ impl Tensor {
                     vec![self.id()],
                     result.id(),
                     Op::Shape(ShapeOp::Permute),
-                    OpParams::Permute(PermuteParams),
+                    OpParams::Permute(PermuteParams { axes: axes_i32 }),
                 )?;
             }
 
-- 
2.43.0


From e01dfe8e54348a848fe2eedfe75db7456eb3d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:54 +0000
Subject: [PATCH 45/93] fix: gradients of reductions broadcast along the
 reduced dimensions whether or not they were kept

---
 .../src/tensor/gradient/vjp_reduce.rs         | 130 +++++++-----------
 .../src/tensor/gradient/vjp_utils.rs          |  12 +-
 2 files changed, 60 insertions(+), 82 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
index 018aa32..e975305 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
@@ -1,9 +1,10 @@
-use super::VjpCompute;
+use super::{vjp_utils::create_scalar, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
     tensor::{tensor_from_id, TensorId},
+    types::Shape,
 };
 
 impl VjpCompute for ReduceOp {
@@ -32,126 +33,93 @@ impl VjpCompute for ReduceOp {
             dims.iter().map(|scalar| scalar.to_usize()).collect()
         };
 
+        let reduce_elements = reduce_dims
+            .iter()
+            .map(|&dim| input_shape.dims()[dim])
+            .product::<usize>() as f64;
+
+        // The gradient and the output with the reduced dimensions back in place as size 1,
+        // whether or not the reduction kept them, so that they broadcast against the input
+        let mut kept_dims = input_shape.dims().to_vec();
+        for &dim in &reduce_dims {
+            kept_dims[dim] = 1;
+        }
+        let kept_shape = Shape::from(kept_dims);
+        let grad_tensor = tensor_from_id(grad_output)
+            .reshape(&kept_shape)?
+            .broadcast(&input_shape)?;
+        let kept_output = || tensor_from_id(output).reshape(&kept_shape);
+
         match self {
             ReduceOp::Sum => {
                 // d/dx sum(x) = 1 for all elements
-                // Broadcast gradient back to input shape
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted = grad_tensor.broadcast(&input_shape)?;
-                Ok(vec![broadcasted.id()])
+                Ok(vec![grad_tensor.id()])
             },
             ReduceOp::Mean => {
                 // d/dx mean(x) = 1/N where N is number of elements in reduced dimensions
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale_scalar = Scalar::from_f32(1.0 / reduce_elements, dtype);
-
-                let grad_tensor = tensor_from_id(grad_output);
-                let scaled_grad = grad_tensor.mul_scalar(scale_scalar)?;
-                let broadcasted = scaled_grad.broadcast(&input_shape)?;
-                Ok(vec![broadcasted.id()])
+                let scale = create_scalar(1.0 / reduce_elements, dtype);
+                let result = grad_tensor.mul_scalar(scale)?;
+                Ok(vec![result.id()])
             },
             ReduceOp::Prod => {
-                // d/dx prod(x) = prod(x) / x_i for each element x_i
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = broadcasted_output.div(&input_tensor)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                // d/dx prod(x) = product of the other elements for each element x_i.
+                // With zeros replaced by ones, that is prod / x_i unless another element is zero.
+                let zeros = input_tensor.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?;
+                let nonzero = input_tensor.add(&zeros)?;
+                let nonzero_prod = nonzero.prod(&reduce_dims, true)?.broadcast(&input_shape)?;
+                let other_zeros = zeros.sum(&reduce_dims, true)?.sub(&zeros)?;
+                let mask = other_zeros.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?;
+                let derivative = nonzero_prod.div(&nonzero)?.mul(&mask)?;
+                let result = derivative.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Norm => {
                 // d/dx ||x||_2 = x / ||x||_2
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-                let derivative = input_tensor.div(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                let derivative = input_tensor.div(&kept_output()?)?;
+                let result = derivative.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Var => {
                 // d/dx var(x) = 2 * (x - mean(x)) / N where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
-                let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
-                let diff = input_tensor.sub(&broadcasted_mean)?;
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale = Scalar::from_f32(2.0 / reduce_elements, dtype);
+                let diff = input_tensor.sub(&input_tensor.mean(&reduce_dims, true)?)?;
+                let scale = create_scalar(2.0 / reduce_elements, dtype);
                 let derivative = diff.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                let result = derivative.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Std => {
                 // d/dx std(x) = (x - mean(x)) / (N * std(x)) where N is number of elements in reduced dimensions
-                let mean_tensor = input_tensor.mean(&reduce_dims, false)?;
-                let broadcasted_mean = mean_tensor.broadcast(&input_shape)?;
-                let diff = input_tensor.sub(&broadcasted_mean)?;
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_std = output_tensor.broadcast(&input_shape)?;
-                let reduce_elements = reduce_dims
-                    .iter()
-                    .map(|&dim| input_shape.dims()[dim])
-                    .product::<usize>() as f32;
-                let scale = Scalar::from_f32(1.0 / reduce_elements, dtype);
-                let derivative = diff.div(&broadcasted_std)?.mul_scalar(scale)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                let diff = input_tensor.sub(&input_tensor.mean(&reduce_dims, true)?)?;
+                let scale = create_scalar(1.0 / reduce_elements, dtype);
+                let derivative = diff.div(&kept_output()?)?.mul_scalar(scale)?;
+                let result = derivative.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::Max | ReduceOp::Min => {
                 // d/dx max(x) or min(x): gradient flows only to the positions that were max/min
-                // Create a mask where input equals output (broadcasted)
-                let output_tensor = tensor_from_id(output);
-                let broadcasted_output = output_tensor.broadcast(&input_shape)?;
-
                 // Create mask: 1 where input == output, 0 elsewhere
-                let mask = input_tensor.eq(&broadcasted_output)?;
-                let grad_tensor = tensor_from_id(grad_output);
+                let mask = input_tensor.eq(&kept_output()?)?;
                 let mask_f = mask.to_dtype(grad_tensor.dtype())?;
 
                 // Count how many elements are equal to max/min (for gradient distribution)
                 let count_per_position = mask_f.sum(&reduce_dims, true)?;
-                let broadcasted_count = count_per_position.broadcast(&input_shape)?;
 
                 // Distribute gradient: grad * mask / count
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let masked_grad = broadcasted_grad.mul(&mask_f)?;
-                let result = masked_grad.div(&broadcasted_count)?;
-
+                let masked_grad = grad_tensor.mul(&mask_f)?;
+                let result = masked_grad.div(&count_per_position)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::LogSum => {
                 // d/dx log(sum(x)) = 1 / sum(x)
                 // output = log(sum(x)), so sum(x) = exp(output)
-                let output_tensor = tensor_from_id(output);
-                let sum_x = output_tensor.exp()?;
-                let broadcasted_sum = sum_x.broadcast(&input_shape)?;
-                let derivative = broadcasted_sum.recip()?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = derivative.mul(&broadcasted_grad)?;
+                let sum_x = kept_output()?.exp()?;
+                let result = grad_tensor.div(&sum_x)?;
                 Ok(vec![result.id()])
             },
             ReduceOp::LogSumExp => {
-                // d/dx log(sum(exp(x))) = exp(x) / sum(exp(x)) = softmax(x)
-                // output = log(sum(exp(x))), so sum(exp(x)) = exp(output)
-                let output_tensor = tensor_from_id(output);
-                let exp_x = input_tensor.exp()?;
-                let sum_exp = output_tensor.exp()?;
-                let broadcasted_sum = sum_exp.broadcast(&input_shape)?;
-                let softmax = exp_x.div(&broadcasted_sum)?;
-                let grad_tensor = tensor_from_id(grad_output);
-                let broadcasted_grad = grad_tensor.broadcast(&input_shape)?;
-                let result = softmax.mul(&broadcasted_grad)?;
+                // d/dx log(sum(exp(x))) = exp(x) / sum(exp(x)) = exp(x - output)
+                let softmax = input_tensor.sub(&kept_output()?)?.exp()?;
+                let result = softmax.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
             _ => Err(HoduError::GradientComputationFailed(format!(
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index c5bae7d..09e7871 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -2,7 +2,7 @@ use crate::{
     error::HoduResult,
     scalar::Scalar,
     tensor::{tensor_from_id, Tensor, TensorId},
-    types::Shape,
+    types::{DType, Shape},
 };
 
 // Binary operations
@@ -209,6 +209,16 @@ pub fn create_index_add_tensor(grad: &Tensor, dim: usize, indices: &[i32], size:
 }
 
 // Utility functions
+
+/// `value` as a scalar of `dtype`, at the precision of `dtype`.
+pub fn create_scalar(value: f64, dtype: DType) -> Scalar {
+    match dtype {
+        #[cfg(feature = "f64")]
+        DType::F64 => Scalar::F64(value),
+        _ => Scalar::from_f32(value as f32, dtype),
+    }
+}
+
 pub fn create_zeros_like_tensor(a: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
     let shape = tensor_a.shape();
-- 
2.43.0


From 919271669d70a16f2f46bf9bb469d405752c270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 46/93] fix: gradient of rem follows the truncated quotient the
 forward uses

---
 .../hodu_core/src/tensor/gradient/vjp_binary.rs   | 11 +++++++----
 crates/hodu_core/src/tensor/gradient/vjp_utils.rs | 15 +++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_binary.rs b/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
index 599a555..f9731cd 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_binary.rs
@@ -45,12 +45,15 @@ impl VjpCompute for BinaryOp {
                 ])
             },
             BinaryOp::Rem => {
-                // z = x % y = x - floor(x/y) * y
+                // z = x % y = x - trunc(x/y) * y
                 // dz/dx = 1
-                // dz/dy = -floor(x/y)
+                // dz/dy = -trunc(x/y), where trunc(q) = max(floor(q), 0) + min(ceil(q), 0)
                 let x_div_y = create_div_tensor(inputs[0], inputs[1])?;
-                let floor_x_div_y = create_floor_tensor(x_div_y)?;
-                let grad_b_raw = create_neg_tensor(create_mul_tensor(grad_output, floor_x_div_y)?)?;
+                let zero = Scalar::zero(input_a.dtype());
+                let floor_or_zero = create_maximum_scalar_tensor(create_floor_tensor(x_div_y)?, zero)?;
+                let ceil_or_zero = create_minimum_scalar_tensor(create_ceil_tensor(x_div_y)?, zero)?;
+                let trunc_x_div_y = create_add_tensor(floor_or_zero, ceil_or_zero)?;
+                let grad_b_raw = create_neg_tensor(create_mul_tensor(grad_output, trunc_x_div_y)?)?;
                 Ok(vec![
                     create_sum_to_shape_tensor(grad_output, &input_a_shape)?,
                     create_sum_to_shape_tensor(grad_b_raw, &input_b_shape)?,
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 09e7871..c149fba 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -157,6 +157,11 @@ pub fn create_ln_tensor(a: TensorId) -> HoduResult<TensorId> {
     tensor_a.ln().map(|t| t.id())
 }
 
+pub fn create_ceil_tensor(a: TensorId) -> HoduResult<TensorId> {
+    let tensor_a = tensor_from_id(a);
+    tensor_a.ceil().map(|t| t.id())
+}
+
 pub fn create_floor_tensor(a: TensorId) -> HoduResult<TensorId> {
     let tensor_a = tensor_from_id(a);
     tensor_a.floor().map(|t| t.id())
@@ -183,6 +188,16 @@ pub fn create_pow_scalar_tensor(a: TensorId, scalar: Scalar) -> HoduResult<Tenso
     tensor_a.pow_scalar(scalar).map(|t| t.id())
 }
 
+pub fn create_maximum_scalar_tensor(a: TensorId, scalar: Scalar) -> HoduResult<TensorId> {
+    let tensor_a = tensor_from_id(a);
+    tensor_a.maximum_scalar(scalar).map(|t| t.id())
+}
+
+pub fn create_minimum_scalar_tensor(a: TensorId, scalar: Scalar) -> HoduResult<TensorId> {
+    let tensor_a = tensor_from_id(a);
+    tensor_a.minimum_scalar(scalar).map(|t| t.id())
+}
+
 // Reduce operations
 pub fn create_sum_to_shape_tensor(tensor_id: TensorId, target_shape: &Shape) -> HoduResult<TensorId> {
     let tensor = tensor_from_id(tensor_id);
-- 
2.43.0


From 6dcebf8c943c0812e0efb2c61348f2fe754a9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 47/93] fix: gradients of hardsigmoid, hardsilu, the elu
 family, div_scalar and pow_scalar (bool masks, infinite exp, integer scalars,
 f32 constants)

---
 .../src/tensor/gradient/vjp_unary.rs          | 126 +++++-------------
 1 file changed, 34 insertions(+), 92 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
index 9065970..2372d14 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_unary.rs
@@ -5,7 +5,6 @@ use crate::{
     scalar::Scalar,
     tensor::{tensor_from_id, TensorId},
 };
-use num_traits::Float;
 
 impl VjpCompute for UnaryOp {
     fn compute_vjp(
@@ -66,14 +65,16 @@ impl VjpCompute for UnaryOp {
                 // We can detect the linear region by checking 0 < output < 1
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let one_sixth = Scalar::from_f32(1.0 / 6.0, dtype);
+                let one_sixth = create_scalar(1.0 / 6.0, dtype);
                 let zero = Scalar::zero(dtype);
                 let one = Scalar::one(dtype);
 
                 // indicator = (output > 0) & (output < 1)
                 let gt_zero = create_gt_scalar_tensor(_output, zero)?;
                 let lt_one = create_lt_scalar_tensor(_output, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let gt_zero_f = tensor_from_id(gt_zero).to_dtype(dtype)?;
+                let lt_one_f = tensor_from_id(lt_one).to_dtype(dtype)?;
+                let indicator = create_mul_tensor(gt_zero_f.id(), lt_one_f.id())?;
 
                 // derivative = indicator * (1/6)
                 let derivative = create_mul_scalar_tensor(indicator, one_sixth)?;
@@ -86,9 +87,9 @@ impl VjpCompute for UnaryOp {
                 // where z = √(2/π) * (x + 0.044715 * x³), dz/dx = √(2/π) * (1 + 3 * 0.044715 * x²)
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let sqrt_2_over_pi = Scalar::from_f32(0.797885, dtype);
-                let coeff = Scalar::from_f32(0.044715, dtype);
-                let half = Scalar::from_f32(0.5, dtype);
+                let sqrt_2_over_pi = create_scalar((2.0 / core::f64::consts::PI).sqrt(), dtype);
+                let coeff = create_scalar(0.044715, dtype);
+                let half = create_scalar(0.5, dtype);
 
                 // Compute x²
                 let x_squared = create_mul_tensor(input, input)?;
@@ -114,7 +115,7 @@ impl VjpCompute for UnaryOp {
                 let sech_squared_z = create_sub_tensor(ones_for_sech, tanh_z_squared)?;
 
                 // dz/dx = √(2/π) * (1 + 3 * 0.044715 * x²)
-                let three_coeff_scalar = Scalar::from_f32(3.0 * 0.044715, dtype);
+                let three_coeff_scalar = create_scalar(3.0 * 0.044715, dtype);
                 let three_coeff_x_squared = create_mul_scalar_tensor(x_squared, three_coeff_scalar)?;
                 let ones_for_dz = create_ones_like_tensor(input)?;
                 let one_plus_three_coeff_x_squared = create_add_tensor(ones_for_dz, three_coeff_x_squared)?;
@@ -147,7 +148,7 @@ impl VjpCompute for UnaryOp {
                 //                  = hardsigmoid(x) + x * (1/6 if -3 <= x <= 3 else 0)
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let one_sixth = Scalar::from_f32(1.0 / 6.0, dtype);
+                let one_sixth = create_scalar(1.0 / 6.0, dtype);
                 let zero = Scalar::zero(dtype);
                 let one = Scalar::one(dtype);
 
@@ -158,7 +159,9 @@ impl VjpCompute for UnaryOp {
                 // indicator = (hardsigmoid(x) > 0) & (hardsigmoid(x) < 1)
                 let gt_zero = create_gt_scalar_tensor(hardsigmoid_x, zero)?;
                 let lt_one = create_lt_scalar_tensor(hardsigmoid_x, one)?;
-                let indicator = create_mul_tensor(gt_zero, lt_one)?;
+                let gt_zero_f = tensor_from_id(gt_zero).to_dtype(dtype)?;
+                let lt_one_f = tensor_from_id(lt_one).to_dtype(dtype)?;
+                let indicator = create_mul_tensor(gt_zero_f.id(), lt_one_f.id())?;
 
                 // x * indicator * (1/6)
                 let x_indicator = create_mul_tensor(input, indicator)?;
@@ -203,8 +206,8 @@ impl VjpCompute for UnaryOp {
                 let grad_tensor = tensor_from_id(grad_output);
                 let dtype = input_tensor.dtype();
                 let zero = Scalar::zero(dtype);
-                let selu_alpha = Scalar::from_f32(1.673_263_2, dtype);
-                let selu_scale = Scalar::from_f32(1.050_701, dtype);
+                let selu_alpha = create_scalar(1.673_263_242_354_377_2, dtype);
+                let selu_scale = create_scalar(1.050_700_987_355_480_5, dtype);
 
                 // mask_pos = x > 0
                 let mask_pos = create_gt_scalar_tensor(input, zero)?;
@@ -216,7 +219,8 @@ impl VjpCompute for UnaryOp {
                 let pos_deriv = create_mul_scalar_tensor(mask_pos_f.id(), selu_scale)?;
 
                 // For x <= 0: derivative = scale * alpha * exp(x)
-                let exp_x = create_exp_tensor(input)?;
+                // (exp(x) of a large positive x is infinite, which the mask would turn into NaN)
+                let exp_x = create_exp_tensor(create_minimum_scalar_tensor(input, zero)?)?;
                 let alpha_exp_x = create_mul_scalar_tensor(exp_x, selu_alpha)?;
                 let scale_alpha_exp_x = create_mul_scalar_tensor(alpha_exp_x, selu_scale)?;
                 let neg_deriv = create_mul_tensor(mask_neg_f.id(), scale_alpha_exp_x)?;
@@ -240,7 +244,8 @@ impl VjpCompute for UnaryOp {
 
                 // For x > 0: derivative = 1
                 // For x <= 0: derivative = exp(x)
-                let exp_x = create_exp_tensor(input)?;
+                // (exp(x) of a large positive x is infinite, which the mask would turn into NaN)
+                let exp_x = create_exp_tensor(create_minimum_scalar_tensor(input, zero)?)?;
                 let neg_deriv = create_mul_tensor(mask_neg_f.id(), exp_x)?;
 
                 let derivative = create_add_tensor(mask_pos_f.id(), neg_deriv)?;
@@ -363,7 +368,7 @@ impl VjpCompute for UnaryOp {
                 // d/dx log10(x) = 1/(x * ln(10))
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let ln_10 = Scalar::from_f32(core::f32::consts::LN_10, dtype);
+                let ln_10 = create_scalar(core::f64::consts::LN_10, dtype);
                 let x_ln_10 = create_mul_scalar_tensor(input, ln_10)?;
                 let derivative = create_recip_tensor(x_ln_10)?;
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
@@ -372,7 +377,7 @@ impl VjpCompute for UnaryOp {
                 // d/dx log2(x) = 1/(x * ln(2))
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let ln_2 = Scalar::from_f32(core::f32::consts::LN_2, dtype);
+                let ln_2 = create_scalar(core::f64::consts::LN_2, dtype);
                 let x_ln_2 = create_mul_scalar_tensor(input, ln_2)?;
                 let derivative = create_recip_tensor(x_ln_2)?;
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
@@ -385,7 +390,7 @@ impl VjpCompute for UnaryOp {
                 // d/dx 10^x = 10^x * ln(10)
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let ln_10 = Scalar::from_f32(core::f32::consts::LN_10, dtype);
+                let ln_10 = create_scalar(core::f64::consts::LN_10, dtype);
                 let derivative = create_mul_scalar_tensor(_output, ln_10)?;
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
             },
@@ -393,7 +398,7 @@ impl VjpCompute for UnaryOp {
                 // d/dx 2^x = 2^x * ln(2)
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let ln_2 = Scalar::from_f32(core::f32::consts::LN_2, dtype);
+                let ln_2 = create_scalar(core::f64::consts::LN_2, dtype);
                 let derivative = create_mul_scalar_tensor(_output, ln_2)?;
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
             },
@@ -412,7 +417,7 @@ impl VjpCompute for UnaryOp {
                 // d/dx sqrt(x) = 1/(2*sqrt(x)) = 0.5 * recip(sqrt(x))
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let half = Scalar::from_f32(0.5, dtype);
+                let half = create_scalar(0.5, dtype);
                 let recip_sqrt = create_recip_tensor(_output)?; // 1/sqrt(x)
                 let derivative = create_mul_scalar_tensor(recip_sqrt, half)?; // 0.5/sqrt(x)
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
@@ -425,7 +430,7 @@ impl VjpCompute for UnaryOp {
                 // d/dx erf(x) = (2/√π) * e^(-x²)
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let two_over_sqrt_pi = Scalar::from_f32(std::f32::consts::FRAC_2_SQRT_PI, dtype);
+                let two_over_sqrt_pi = create_scalar(core::f64::consts::FRAC_2_SQRT_PI, dtype);
 
                 let x_squared = create_mul_tensor(input, input)?;
                 let neg_x_squared = create_neg_tensor(x_squared)?;
@@ -470,67 +475,13 @@ impl VjpCompute for UnaryScalarOp {
             },
             UnaryScalarOp::DivScalar => {
                 // d/dx (x / c) = 1/c
-                let input_tensor = tensor_from_id(input);
-                let dtype = input_tensor.dtype();
-                // Create 1/c scalar with proper dtype and check for division by zero
-                let scalar_value = match scalar {
-                    Scalar::F32(v) => {
-                        if v.abs() < f32::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v, dtype)
-                    },
-                    #[cfg(feature = "f64")]
-                    Scalar::F64(v) => {
-                        if v.abs() < f64::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v as f32, dtype)
-                    },
-                    Scalar::F16(v) => {
-                        if v.abs() < half::f16::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    Scalar::BF16(v) => {
-                        if v.abs() < half::bf16::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    Scalar::F8E4M3(v) => {
-                        if v.abs() < float8::F8E4M3::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    #[cfg(feature = "f8e5m2")]
-                    Scalar::F8E5M2(v) => {
-                        if v.abs() < float8::F8E5M2::EPSILON {
-                            return Err(HoduError::GradientComputationFailed(
-                                "Division by zero in DivScalar gradient".to_string(),
-                            ));
-                        }
-                        Scalar::from_f32(1.0 / v.to_f32(), dtype)
-                    },
-                    _ => {
-                        return Err(HoduError::GradientComputationFailed(
-                            "Unsupported scalar type in DivScalar gradient".to_string(),
-                        ))
-                    },
-                };
-                Ok(vec![create_mul_scalar_tensor(grad_output, scalar_value)?])
+                let grad_tensor = tensor_from_id(grad_output);
+                if scalar.to_dtype(grad_tensor.dtype()) == Scalar::zero(grad_tensor.dtype()) {
+                    return Err(HoduError::GradientComputationFailed(
+                        "Division by zero in DivScalar gradient".to_string(),
+                    ));
+                }
+                Ok(vec![grad_tensor.div_scalar(scalar)?.id()])
             },
             UnaryScalarOp::RemScalar => {
                 // d/dx (x % c) = 1
@@ -540,17 +491,7 @@ impl VjpCompute for UnaryScalarOp {
                 // d/dx (x^c) = c * x^(c-1)
                 let input_tensor = tensor_from_id(input);
                 let dtype = input_tensor.dtype();
-                let scalar_minus_one = match scalar {
-                    Scalar::F32(v) => Scalar::from_f32(v - 1.0, dtype),
-                    #[cfg(feature = "f64")]
-                    Scalar::F64(v) => Scalar::from_f32((v - 1.0) as f32, dtype),
-                    Scalar::F16(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    Scalar::BF16(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    Scalar::F8E4M3(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    #[cfg(feature = "f8e5m2")]
-                    Scalar::F8E5M2(v) => Scalar::from_f32(v.to_f32() - 1.0, dtype),
-                    _ => Scalar::from_f32(0.0, dtype),
-                };
+                let scalar_minus_one = scalar.to_dtype(dtype) - Scalar::one(dtype);
                 let x_power_scalar_minus_one = create_pow_scalar_tensor(input, scalar_minus_one)?;
                 let derivative = create_mul_scalar_tensor(x_power_scalar_minus_one, scalar)?;
                 Ok(vec![create_mul_tensor(grad_output, derivative)?])
@@ -595,7 +536,8 @@ impl VjpCompute for UnaryScalarOp {
                 let mask_neg = create_le_scalar_tensor(input, zero)?;
                 let mask_pos_f = tensor_from_id(mask_pos).to_dtype(grad_tensor.dtype())?;
                 let mask_neg_f = tensor_from_id(mask_neg).to_dtype(grad_tensor.dtype())?;
-                let exp_input = create_exp_tensor(input)?;
+                // (exp(x) of a large positive x is infinite, which the mask would turn into NaN)
+                let exp_input = create_exp_tensor(create_minimum_scalar_tensor(input, zero)?)?;
                 let alpha_exp = create_mul_scalar_tensor(exp_input, alpha)?;
                 let neg_grad = create_mul_tensor(mask_neg_f.id(), alpha_exp)?;
                 let total_grad = create_add_tensor(mask_pos_f.id(), neg_grad)?;
-- 
2.43.0


From 734b356c5d9265e7ab8dbf3757d481cea3cef1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 48/93] fix: gradients of det and trace of a single matrix, and
 of concat and split with negative dimensions

---
 .../src/tensor/gradient/vjp_concat_split.rs      |  8 ++++----
 .../hodu_core/src/tensor/gradient/vjp_linalg.rs  | 16 ++++++++++++----
 .../hodu_core/src/tensor/gradient/vjp_shape.rs   | 11 +++++------
 .../hodu_core/src/tensor/gradient/vjp_utils.rs   | 12 +++++++++++-
 4 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs b/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
index 7cf6082..40e01e4 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_concat_split.rs
@@ -1,4 +1,4 @@
-use super::VjpCompute;
+use super::{vjp_utils::normalize_dim, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{ConcatOp, ConcatParams, OpParams, SplitOp, SplitParams},
@@ -19,13 +19,13 @@ impl VjpCompute for ConcatOp {
                 "ConcatOp requires ConcatParams".to_string(),
             ));
         };
-        let dim = *dim;
+        let dim = normalize_dim(&tensor_from_id(inputs[0]), *dim)?;
 
         let sizes: Vec<usize> = inputs
             .iter()
             .map(|&id| {
                 let tensor = tensor_from_id(id);
-                tensor.shape().dims()[dim.to_usize()] as usize
+                tensor.shape().dims()[dim]
             })
             .collect();
 
@@ -59,7 +59,7 @@ impl VjpCompute for SplitOp {
         let input_shape = input_tensor.shape();
         let dtype = input_tensor.dtype();
 
-        let dim = dim.to_usize();
+        let dim = normalize_dim(&input_tensor, *dim)?;
         let sizes: Vec<usize> = sizes.iter().map(|s| s.to_usize()).collect();
         let output_index = *output_index;
 
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index 17ea7c3..b48f72a 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -3,8 +3,17 @@ use crate::{
     error::HoduResult,
     ops::{LinalgOp, OpParams},
     tensor::{Tensor, TensorId},
+    types::Shape,
 };
 
+/// Shape [..., 1, 1] holding one value per matrix of `input` [..., N, N]
+fn per_matrix_shape(input: &Tensor) -> Shape {
+    let mut dims = input.shape().dims().to_vec();
+    let ndim = dims.len();
+    dims[ndim - 2..].fill(1);
+    Shape::from(dims)
+}
+
 impl VjpCompute for LinalgOp {
     fn compute_vjp(
         &self,
@@ -36,9 +45,8 @@ impl VjpCompute for LinalgOp {
                 let inv_a_t = inv_a.transpose(-2, -1)?;
 
                 // Scale by det(A) * grad_output
-                // det_value and grad have shape [...], need to expand to [..., 1, 1]
-                let scale = grad.mul(&det_value)?;
-                let scale = scale.unsqueeze(-1)?.unsqueeze(-1)?;
+                // det_value and grad have shape [...] (or [1] for a single matrix), need [..., 1, 1]
+                let scale = grad.mul(&det_value)?.reshape(&per_matrix_shape(&input))?;
 
                 // grad_input = scale * inv_a_t
                 let grad_input = inv_a_t.mul(&scale)?;
@@ -89,7 +97,7 @@ impl VjpCompute for LinalgOp {
                 let eye = Tensor::eye(n, input.dtype())?;
 
                 // Expand grad to [..., 1, 1] for broadcasting
-                let scale = grad.unsqueeze(-1)?.unsqueeze(-1)?;
+                let scale = grad.reshape(&per_matrix_shape(&input))?;
 
                 // grad_input = scale * I
                 let grad_input = eye.mul(&scale)?;
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index 148bcf0..da6a9c2 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -1,4 +1,7 @@
-use super::{vjp_utils::create_index_add_tensor, VjpCompute};
+use super::{
+    vjp_utils::{create_index_add_tensor, normalize_dim},
+    VjpCompute,
+};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
@@ -123,11 +126,7 @@ impl VjpCompute for ShapeScalarsOp {
                     return Err(HoduError::VjpFunctionNotFound("Slice requires SliceParams".to_string()));
                 };
 
-                let dim = dim.to_i32();
-                let dim = input_shape.normalize_axis(dim).ok_or(HoduError::InvalidAxis {
-                    axis: dim,
-                    ndim: input_shape.ndim(),
-                })?;
+                let dim = normalize_dim(&input_tensor, *dim)?;
 
                 // The slice took `grad_shape[dim]` elements from `start` on, `step` apart
                 // (a negative step is recorded as a flip followed by a forward slice)
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index c149fba..008e63d 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -1,5 +1,5 @@
 use crate::{
-    error::HoduResult,
+    error::{HoduError, HoduResult},
     scalar::Scalar,
     tensor::{tensor_from_id, Tensor, TensorId},
     types::{DType, Shape},
@@ -225,6 +225,16 @@ pub fn create_index_add_tensor(grad: &Tensor, dim: usize, indices: &[i32], size:
 
 // Utility functions
 
+/// The recorded dimension `dim` as an index into the dimensions of `tensor`.
+pub fn normalize_dim(tensor: &Tensor, dim: Scalar) -> HoduResult<usize> {
+    let dim = dim.to_i32();
+    let shape = tensor.shape();
+    shape.normalize_axis(dim).ok_or(HoduError::InvalidAxis {
+        axis: dim,
+        ndim: shape.ndim(),
+    })
+}
+
 /// `value` as a scalar of `dtype`, at the precision of `dtype`.
 pub fn create_scalar(value: f64, dtype: DType) -> Scalar {
     match dtype {
-- 
2.43.0


From af15f833d5adcb6f8e61e9129248c782f3a00412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:58 +0000
Subject: [PATCH 49/93] fix: gradients of index_select, index_put and scatter
 cover every rank, negative dimensions and repeated indices

---
 .../src/tensor/gradient/vjp_indexing.rs       | 118 +++++++++---------
 1 file changed, 61 insertions(+), 57 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
index d7bdf55..97a7f4b 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_indexing.rs
@@ -1,32 +1,46 @@
-use super::VjpCompute;
+use super::{vjp_utils::normalize_dim, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{IndexingOp, OpParams},
     tensor::{tensor_from_id, Tensor, TensorId},
+    types::Shape,
 };
 
+/// 1D `indices` along `dim` of `shape`, repeated over the other dimensions
+fn index_along(indices: &Tensor, dim: usize, shape: &Shape) -> HoduResult<Tensor> {
+    let mut dims = vec![1; shape.ndim()];
+    dims[dim] = shape.dims()[dim];
+    indices.reshape(dims)?.broadcast(shape)
+}
+
+/// The numbers 0, 1, 2, ... in the given shape
+fn number_elements(shape: &Shape) -> HoduResult<Tensor> {
+    Tensor::new((0..shape.size() as i32).collect::<Vec<i32>>())?.reshape(shape)
+}
+
 impl VjpCompute for IndexingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
         let dim = match op_params {
-            OpParams::IndexSelect(p) => p.dim.to_usize(),
-            OpParams::IndexPut(p) => p.dim.to_usize(),
-            OpParams::Gather(p) => p.dim.to_usize(),
-            OpParams::Scatter(p) => p.dim.to_usize(),
-            OpParams::ScatterAdd(p) => p.dim.to_usize(),
-            OpParams::ScatterMax(p) => p.dim.to_usize(),
-            OpParams::ScatterMin(p) => p.dim.to_usize(),
+            OpParams::IndexSelect(p) => p.dim,
+            OpParams::IndexPut(p) => p.dim,
+            OpParams::Gather(p) => p.dim,
+            OpParams::Scatter(p) => p.dim,
+            OpParams::ScatterAdd(p) => p.dim,
+            OpParams::ScatterMax(p) => p.dim,
+            OpParams::ScatterMin(p) => p.dim,
             _ => {
                 return Err(HoduError::VjpFunctionNotFound(
                     "IndexingOp requires IndexingParams".to_string(),
                 ))
             },
         };
+        let dim = normalize_dim(&tensor_from_id(inputs[0]), dim)?;
 
         match self {
             IndexingOp::IndexSelect => {
@@ -46,8 +60,8 @@ impl VjpCompute for IndexingOp {
                 let grad_self = Tensor::zeros(&self_shape, dtype)?;
 
                 // Scatter the gradient back to the original positions
-                let indices_tensor = tensor_from_id(indices_id);
                 let grad_tensor = tensor_from_id(grad_output);
+                let indices_tensor = index_along(&tensor_from_id(indices_id), dim, &grad_tensor.shape())?;
                 let result = grad_self.scatter_add(dim, &indices_tensor, &grad_tensor)?;
 
                 // IndexSelect doesn't have gradient w.r.t. indices
@@ -86,10 +100,11 @@ impl VjpCompute for IndexingOp {
                 }
 
                 let self_id = inputs[0];
-                let _values_id = inputs[1];
+                let values_id = inputs[1];
                 let indices_id = inputs[2];
 
                 let self_tensor = tensor_from_id(self_id);
+                let values_shape = tensor_from_id(values_id).shape();
                 let dtype = self_tensor.dtype();
 
                 let indices_tensor = tensor_from_id(indices_id);
@@ -98,12 +113,18 @@ impl VjpCompute for IndexingOp {
                 // Gradient w.r.t. self: everywhere except indexed positions
                 // Create a mask: 1 everywhere, 0 at indexed positions
                 let ones = Tensor::ones(self_tensor.shape(), dtype)?;
-                let zeros_at_indices =
-                    ones.index_put(dim, &indices_tensor, &Tensor::zeros(indices_tensor.shape(), dtype)?)?;
+                let zeros_at_indices = ones.index_put(dim, &indices_tensor, &Tensor::zeros(&values_shape, dtype)?)?;
                 let grad_self = grad_tensor.mul(&zeros_at_indices)?;
 
-                // Gradient w.r.t. values: gather from grad_output at indices
-                let grad_values = grad_tensor.gather(dim, &indices_tensor)?;
+                // Gradient w.r.t. values: select from grad_output at indices, for the values that
+                // were kept where an index is repeated
+                let numbers = number_elements(&values_shape)?;
+                let kept = Tensor::full(self_tensor.shape(), -1i32)?
+                    .index_put(dim, &indices_tensor, &numbers)?
+                    .index_select(dim, &indices_tensor)?
+                    .eq(&numbers)?
+                    .to_dtype(dtype)?;
+                let grad_values = grad_tensor.index_select(dim, &indices_tensor)?.mul(&kept)?;
 
                 // IndexPut doesn't have gradient w.r.t. indices
                 Ok(vec![grad_self.id(), grad_values.id()])
@@ -116,10 +137,11 @@ impl VjpCompute for IndexingOp {
                 }
 
                 let self_id = inputs[0];
-                let _src_id = inputs[1];
+                let src_id = inputs[1];
                 let indices_id = inputs[2];
 
                 let self_tensor = tensor_from_id(self_id);
+                let src_shape = tensor_from_id(src_id).shape();
                 let dtype = self_tensor.dtype();
 
                 let indices_tensor = tensor_from_id(indices_id);
@@ -128,12 +150,18 @@ impl VjpCompute for IndexingOp {
                 // Gradient w.r.t. self: everywhere except scattered positions
                 // Create a mask: 1 everywhere, 0 at scattered positions
                 let ones = Tensor::ones(self_tensor.shape(), dtype)?;
-                let zeros_at_indices =
-                    ones.scatter(dim, &indices_tensor, &Tensor::zeros(indices_tensor.shape(), dtype)?)?;
+                let zeros_at_indices = ones.scatter(dim, &indices_tensor, &Tensor::zeros(&src_shape, dtype)?)?;
                 let grad_self = grad_tensor.mul(&zeros_at_indices)?;
 
-                // Gradient w.r.t. src: gather from grad_output at indices
-                let grad_src = grad_tensor.gather(dim, &indices_tensor)?;
+                // Gradient w.r.t. src: gather from grad_output at indices, for the elements that
+                // were kept where several are scattered to the same position
+                let numbers = number_elements(&src_shape)?;
+                let kept = Tensor::full(self_tensor.shape(), -1i32)?
+                    .scatter(dim, &indices_tensor, &numbers)?
+                    .gather(dim, &indices_tensor)?
+                    .eq(&numbers)?
+                    .to_dtype(dtype)?;
+                let grad_src = grad_tensor.gather(dim, &indices_tensor)?.mul(&kept)?;
 
                 // Scatter doesn't have gradient w.r.t. indices
                 Ok(vec![grad_self.id(), grad_src.id()])
@@ -174,45 +202,21 @@ impl VjpCompute for IndexingOp {
                 let src_tensor = tensor_from_id(src_id);
                 let grad_tensor = tensor_from_id(grad_output);
 
-                // Get the values at the scattered positions from output
-                let scattered_values = grad_tensor.gather(dim, &indices_tensor)?;
-
-                // Determine which values "won" (were selected)
-                let src_won = match self {
-                    IndexingOp::ScatterMax => {
-                        // src won if src >= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.ge(&self_at_indices)?
-                    },
-                    IndexingOp::ScatterMin => {
-                        // src won if src <= self at those positions
-                        let self_at_indices = self_tensor.gather(dim, &indices_tensor)?;
-                        src_tensor.le(&self_at_indices)?
-                    },
-                    _ => unreachable!(),
-                };
-
-                // Gradient w.r.t. src: flows through where src won
-                let src_won_f = src_won.to_dtype(grad_tensor.dtype())?;
-                let grad_src = scattered_values.mul(&src_won_f)?;
-
-                // Gradient w.r.t. self: flows through where self won
-                // Create mask where self won (opposite of src_won)
+                // The elements of self and src that equal the output were selected
                 let dtype = self_tensor.dtype();
-                let ones = Tensor::ones(src_won_f.shape(), dtype)?;
-                let self_won = ones.sub(&src_won_f)?;
-
-                // Scatter the masked gradient back
-                let grad_src_scattered = grad_tensor.gather(dim, &indices_tensor)?;
-                let grad_self_at_indices = grad_src_scattered.mul(&self_won)?;
+                let output_tensor = tensor_from_id(output);
+                let self_won = self_tensor.eq(&output_tensor)?.to_dtype(dtype)?;
+                let src_won = src_tensor
+                    .eq(&output_tensor.gather(dim, &indices_tensor)?)?
+                    .to_dtype(dtype)?;
+
+                // Distribute the gradient of each position evenly among them
+                let count = self_won.scatter_add(dim, &indices_tensor, &src_won)?;
+                let share = grad_tensor.div(&count)?;
+                let grad_self = share.mul(&self_won)?;
+                let grad_src = share.gather(dim, &indices_tensor)?.mul(&src_won)?;
 
-                let zeros = Tensor::zeros(self_tensor.shape(), dtype)?;
-                let grad_self = zeros.scatter_add(dim, &indices_tensor, &grad_self_at_indices)?;
-
-                // Add gradient from positions not affected by scatter
-                let grad_self_final = grad_self.add(&grad_tensor)?;
-
-                Ok(vec![grad_self_final.id(), grad_src.id()])
+                Ok(vec![grad_self.id(), grad_src.id()])
             },
 
             IndexingOp::Onehot => {
-- 
2.43.0


From cd84fb96b3462ce981218380d2a7431dacd45d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 50/93] fix: gradients of padding accumulate every copy of an
 element

---
 .../src/tensor/gradient/vjp_padding.rs        | 279 ++----------------
 .../src/tensor/gradient/vjp_shape.rs          |   4 +-
 .../src/tensor/gradient/vjp_utils.rs          |   8 +-
 3 files changed, 24 insertions(+), 267 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
index cc678ab..e98f4c9 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_padding.rs
@@ -1,4 +1,4 @@
-use super::VjpCompute;
+use super::{vjp_utils::create_index_add_tensor, VjpCompute};
 use crate::{
     error::{HoduError, HoduResult},
     op_params::{OpParams, PaddingParams},
@@ -34,19 +34,24 @@ impl VjpCompute for PaddingOp {
                 let grad_input = slice_center(&grad_tensor, &input_shape, padding)?;
                 Ok(vec![grad_input.id()])
             },
-            PaddingOp::PadReflect => {
-                // For reflect padding, gradient accumulates from reflected positions
-                let grad_input = compute_reflect_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadReplicate => {
-                // For replicate padding, gradient accumulates at edge positions
-                let grad_input = compute_replicate_grad(&grad_tensor, &input_shape, padding)?;
-                Ok(vec![grad_input.id()])
-            },
-            PaddingOp::PadCircular => {
-                // For circular padding, gradient wraps around
-                let grad_input = compute_circular_grad(&grad_tensor, &input_shape, padding)?;
+            PaddingOp::PadReflect | PaddingOp::PadReplicate | PaddingOp::PadCircular => {
+                // Every output position copies an input position, which accumulates its gradient.
+                // The dimensions are independent, and padding the positions 0, 1, 2, ... of one
+                // dimension tells which position each output position copies.
+                let mode = match self {
+                    PaddingOp::PadReflect => "reflect",
+                    PaddingOp::PadReplicate => "replicate",
+                    _ => "circular",
+                };
+                let mut grad_input = grad_tensor;
+                for (dim, (&pad, &size)) in padding.iter().zip(input_shape.dims().iter()).enumerate() {
+                    if pad == (0, 0) {
+                        continue;
+                    }
+                    let positions = Tensor::new((0..size as i32).collect::<Vec<i32>>())?;
+                    let sources = positions.pad(&[pad], mode, 0)?;
+                    grad_input = create_index_add_tensor(&grad_input, dim, &sources, size)?;
+                }
                 Ok(vec![grad_input.id()])
             },
         }
@@ -63,249 +68,3 @@ fn slice_center(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, us
     }
     Ok(result)
 }
-
-/// Compute gradient for reflect padding
-fn compute_reflect_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region (original input area)
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, add contributions from reflected regions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: reflected from positions [1..pad_before+1]
-        // These map back to positions [1..min(pad_before, input_size-1)+1] in input
-        if pad_before > 0 && input_size > 1 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let flipped = left_pad_grad.flip(&[dim])?;
-
-            // The reflection maps position i in left pad to position (pad_before - i) in input
-            // After flip, position 0 maps to position 1, position 1 maps to position 2, etc.
-            let target_len = pad_before.min(input_size - 1);
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(
-                    &flipped,
-                    dim,
-                    flipped.shape().dims()[dim] - target_len,
-                    flipped.shape().dims()[dim],
-                )?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, 1, 1 + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, 1, 1 + target_len, &added)?;
-        }
-
-        // Right padding: reflected from positions [input_size-2, input_size-pad_after-2]
-        if pad_after > 0 && input_size > 1 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let flipped = right_pad_grad.flip(&[dim])?;
-
-            // After flip, these map to positions ending at input_size - 2
-            let target_len = pad_after.min(input_size - 1);
-            let start_pos = input_size - 1 - target_len;
-
-            let flipped_slice = if flipped.shape().dims()[dim] > target_len {
-                slice_single_dim(&flipped, dim, 0, target_len)?
-            } else {
-                flipped
-            };
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, start_pos + target_len)?;
-            let added = target.add(&flipped_slice)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, start_pos + target_len, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for replicate padding
-fn compute_replicate_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, sum padding gradients into edge positions
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: all go to first element
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let left_sum = left_pad_grad.sum(&[dim], true)?;
-
-            let first = slice_single_dim(&grad_input, dim, 0, 1)?;
-            let added = first.add(&left_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, 1, &added)?;
-        }
-
-        // Right padding: all go to last element
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-            let right_sum = right_pad_grad.sum(&[dim], true)?;
-
-            let input_size = input_dims[dim];
-            let last = slice_single_dim(&grad_input, dim, input_size - 1, input_size)?;
-            let added = last.add(&right_sum)?;
-            grad_input = replace_single_dim(&grad_input, dim, input_size - 1, input_size, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Compute gradient for circular padding
-fn compute_circular_grad(grad_output: &Tensor, input_shape: &Shape, padding: &[(usize, usize)]) -> HoduResult<Tensor> {
-    // Start with center region
-    let mut grad_input = slice_center(grad_output, input_shape, padding)?;
-
-    let input_dims = input_shape.dims();
-    let ndim = input_dims.len();
-
-    // For each dimension, wrap padding gradients around
-    for dim in 0..ndim {
-        let (pad_before, pad_after) = padding[dim];
-        let input_size = input_dims[dim];
-
-        if pad_before == 0 && pad_after == 0 {
-            continue;
-        }
-
-        // Left padding: comes from end of input (wraps around)
-        // Left pad positions [0..pad_before] come from input positions [input_size - pad_before..input_size]
-        if pad_before > 0 {
-            let left_pad_grad = slice_dim(grad_output, dim, 0, pad_before, padding, input_dims)?;
-            let start_pos = input_size - pad_before;
-
-            let target = slice_single_dim(&grad_input, dim, start_pos, input_size)?;
-            let added = target.add(&left_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, start_pos, input_size, &added)?;
-        }
-
-        // Right padding: comes from beginning of input
-        // Right pad positions come from input positions [0..pad_after]
-        if pad_after > 0 {
-            let output_size = grad_output.shape().dims()[dim];
-            let right_pad_grad = slice_dim(
-                grad_output,
-                dim,
-                output_size - pad_after,
-                output_size,
-                padding,
-                input_dims,
-            )?;
-
-            let target = slice_single_dim(&grad_input, dim, 0, pad_after)?;
-            let added = target.add(&right_pad_grad)?;
-            grad_input = replace_single_dim(&grad_input, dim, 0, pad_after, &added)?;
-        }
-    }
-
-    Ok(grad_input)
-}
-
-/// Slice a single dimension of a tensor
-fn slice_single_dim(tensor: &Tensor, dim: usize, start: usize, end: usize) -> HoduResult<Tensor> {
-    tensor.slice(dim, start as i64, Some(end as i64), 1)
-}
-
-/// Slice from grad_output taking into account other dimensions are at center
-fn slice_dim(
-    grad_output: &Tensor,
-    target_dim: usize,
-    start: usize,
-    end: usize,
-    padding: &[(usize, usize)],
-    input_dims: &[usize],
-) -> HoduResult<Tensor> {
-    let ndim = padding.len();
-    let mut result = grad_output.clone();
-
-    for dim in 0..ndim {
-        if dim == target_dim {
-            result = result.slice(dim, start as i64, Some(end as i64), 1)?;
-        } else {
-            let (pad_before, _) = padding[dim];
-            let input_size = input_dims[dim];
-            result = result.slice(dim, pad_before as i64, Some((pad_before + input_size) as i64), 1)?;
-        }
-    }
-
-    Ok(result)
-}
-
-/// Replace a slice of the tensor along a single dimension
-fn replace_single_dim(
-    tensor: &Tensor,
-    dim: usize,
-    start: usize,
-    end: usize,
-    replacement: &Tensor,
-) -> HoduResult<Tensor> {
-    let shape = tensor.shape();
-    let dim_size = shape.dims()[dim];
-
-    // If replacing the entire dimension, just return replacement
-    if start == 0 && end == dim_size {
-        return Ok(replacement.clone());
-    }
-
-    // Build result by concatenating: [before, replacement, after]
-    let mut parts: Vec<Tensor> = Vec::new();
-
-    // Before slice
-    if start > 0 {
-        let before = slice_single_dim(tensor, dim, 0, start)?;
-        parts.push(before);
-    }
-
-    // Replacement
-    parts.push(replacement.clone());
-
-    // After slice
-    if end < dim_size {
-        let after = slice_single_dim(tensor, dim, end, dim_size)?;
-        parts.push(after);
-    }
-
-    // Concatenate along dim
-    if parts.len() == 1 {
-        Ok(parts.remove(0))
-    } else {
-        let refs: Vec<&Tensor> = parts.iter().collect();
-        Tensor::cat(&refs, dim)
-    }
-}
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
index da6a9c2..a2c8554 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_shape.rs
@@ -5,7 +5,7 @@ use super::{
 use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, PermuteParams, ShapeOp, ShapeScalarsOp, SliceParams, TransposeParams},
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ShapeOp {
@@ -137,7 +137,7 @@ impl VjpCompute for ShapeScalarsOp {
                 let indices: Vec<i32> = (0..grad_shape.dims()[dim] as i32).map(|i| start + i * step).collect();
 
                 // Place gradients at the sliced positions
-                let result = create_index_add_tensor(&grad_tensor, dim, &indices, dim_size)?;
+                let result = create_index_add_tensor(&grad_tensor, dim, &Tensor::new(indices)?, dim_size)?;
 
                 Ok(vec![result.id()])
             },
diff --git a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
index 008e63d..a5de2cb 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_utils.rs
@@ -208,17 +208,15 @@ pub fn create_sum_to_shape_tensor(tensor_id: TensorId, target_shape: &Shape) ->
 
 /// Adds every slice of `grad` along `dim` into position `indices[i]` of a zero tensor that has
 /// `size` positions along `dim`. This is the adjoint of selecting `indices` along `dim`.
-pub fn create_index_add_tensor(grad: &Tensor, dim: usize, indices: &[i32], size: usize) -> HoduResult<Tensor> {
+pub fn create_index_add_tensor(grad: &Tensor, dim: usize, indices: &Tensor, size: usize) -> HoduResult<Tensor> {
     let grad_shape = grad.shape();
 
     let mut result_dims = grad_shape.dims().to_vec();
     result_dims[dim] = size;
 
     let mut indices_dims = vec![1; grad_shape.ndim()];
-    indices_dims[dim] = indices.len();
-    let indices_tensor = Tensor::new(indices.to_vec())?
-        .reshape(indices_dims)?
-        .broadcast(&grad_shape)?;
+    indices_dims[dim] = indices.size();
+    let indices_tensor = indices.reshape(indices_dims)?.broadcast(&grad_shape)?;
 
     Tensor::zeros(result_dims, grad.dtype())?.scatter_add(dim, &indices_tensor, grad)
 }
-- 
2.43.0


From cfd36ef880f8d44261acb17e6eb50d657b0f8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 51/93] fix: gradients of window reductions follow the windows,
 strides and padding of the forward

---
 .../src/tensor/gradient/vjp_windowing.rs      | 189 +++++++-----------
 1 file changed, 76 insertions(+), 113 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
index e273a0b..77ec89d 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_windowing.rs
@@ -1,23 +1,23 @@
-use super::VjpCompute;
+use super::{
+    vjp_utils::{create_index_add_tensor, create_scalar},
+    VjpCompute,
+};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceWindowParams, WindowingOp},
-    scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
+    types::Shape,
 };
 
 impl VjpCompute for WindowingOp {
     fn compute_vjp(
         &self,
         inputs: &[TensorId],
-        _output: TensorId,
+        output: TensorId,
         grad_output: TensorId,
         op_params: &OpParams,
     ) -> HoduResult<Vec<TensorId>> {
-        let OpParams::ReduceWindow(ReduceWindowParams {
-            window_shape, strides, ..
-        }) = op_params
-        else {
+        let OpParams::ReduceWindow(params) = op_params else {
             return Err(HoduError::VjpFunctionNotFound(
                 "WindowingOp requires ReduceWindowParams".to_string(),
             ));
@@ -28,121 +28,84 @@ impl VjpCompute for WindowingOp {
         let input_shape = input_tensor.shape();
         let dtype = input_tensor.dtype();
 
+        // One element per window position: the gradient of the window it belongs to
+        let window_grads = spread(&tensor_from_id(grad_output), &params.window_shape)?;
+
         match self {
             WindowingOp::ReduceWindowMax | WindowingOp::ReduceWindowMin => {
-                // For max/min pooling, gradient flows only through positions that were max/min
-                // Upsample both output and gradient by repeating each element by stride amount
-
-                // Upsample output
-                let output_tensor = tensor_from_id(_output);
-                let mut upsampled_output = output_tensor.clone();
-
-                // Upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // For each dimension, if stride > 1, insert a dimension after it and broadcast
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        // Upsample output
-                        let current_shape = upsampled_output.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_output = upsampled_output.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_output = upsampled_output.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_output = upsampled_output.reshape(&final_shape)?;
-
-                        // Upsample gradient (same process)
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
+                // Gradient flows only through the positions of each window that hold its output,
+                // evenly where there are several
+                let lowest = match self {
+                    WindowingOp::ReduceWindowMax => f64::NEG_INFINITY,
+                    _ => f64::INFINITY,
+                };
+                let mut elements = input_tensor.pad_constant(&params.padding, create_scalar(lowest, dtype))?;
+                let out_dims = tensor_from_id(output).shape().dims().to_vec();
+                for (dim, &out_size) in out_dims.iter().enumerate() {
+                    elements = elements.index_select(dim, &window_positions(params, dim, out_size)?)?;
                 }
-
-                // Broadcast to exact input shape (handles padding differences)
-                upsampled_output = upsampled_output.broadcast(&input_shape)?;
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                // Create mask: input == upsampled_output
-                let mask = input_tensor.eq(&upsampled_output)?;
-                let mask_f = mask.to_dtype(dtype)?;
-
-                // Multiply gradient by mask
-                let result = upsampled_grad.mul(&mask_f)?;
-
+                let selected = elements
+                    .eq(&spread(&tensor_from_id(output), &params.window_shape)?)?
+                    .to_dtype(dtype)?;
+                let count = spread(&gather_windows(&selected, &params.window_shape)?, &params.window_shape)?;
+                let shares = window_grads.mul(&selected)?.div(&count)?;
+                let result = add_windows(&shares, params, &input_shape, &out_dims)?;
                 Ok(vec![result.id()])
             },
-            WindowingOp::ReduceWindowMean => {
-                // Mean: divide by window size and upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
-
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
-
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
-
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
+            WindowingOp::ReduceWindowMean | WindowingOp::ReduceWindowSum => {
+                let out_dims = tensor_from_id(output).shape().dims().to_vec();
+                let result = add_windows(&window_grads, params, &input_shape, &out_dims)?;
+                if *self == WindowingOp::ReduceWindowSum {
+                    return Ok(vec![result.id()]);
                 }
-
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-
-                let window_size: usize = window_shape.iter().product();
-                let scale = Scalar::from_f32(1.0 / window_size as f32, dtype);
-                let scaled_grad = upsampled_grad.mul_scalar(scale)?;
-                Ok(vec![scaled_grad.id()])
+                let window_size: usize = params.window_shape.iter().product();
+                let scale = create_scalar(1.0 / window_size as f64, dtype);
+                Ok(vec![result.mul_scalar(scale)?.id()])
             },
-            WindowingOp::ReduceWindowSum => {
-                // Sum: just upsample gradient
-                let grad_tensor = tensor_from_id(grad_output);
-                let mut upsampled_grad = grad_tensor.clone();
-
-                // Upsample gradient same way as Max/Min
-                for (dim_idx, stride) in strides.iter().enumerate().rev() {
-                    let stride = *stride;
-                    if stride > 1 {
-                        let current_shape = upsampled_grad.shape();
-                        let current_dims = current_shape.dims();
+        }
+    }
+}
 
-                        let mut expanded_shape = current_dims.to_vec();
-                        expanded_shape.insert(dim_idx + 1, 1);
-                        upsampled_grad = upsampled_grad.reshape(&expanded_shape)?;
+/// Repeats every element of `tensor` over the positions of its window: [O1, O2, ...] -> [O1 * W1, O2 * W2, ...]
+fn spread(tensor: &Tensor, window_shape: &[usize]) -> HoduResult<Tensor> {
+    let shape = tensor.shape();
+    let dims = shape.dims();
+    let single: Vec<usize> = dims.iter().flat_map(|&d| [d, 1]).collect();
+    let repeated: Vec<usize> = dims.iter().zip(window_shape).flat_map(|(&d, &w)| [d, w]).collect();
+    let merged: Vec<usize> = dims.iter().zip(window_shape).map(|(&d, &w)| d * w).collect();
+    tensor.reshape(single)?.broadcast(repeated)?.reshape(merged)
+}
 
-                        let mut broadcast_shape = expanded_shape.clone();
-                        broadcast_shape[dim_idx + 1] = stride;
-                        upsampled_grad = upsampled_grad.broadcast(&broadcast_shape)?;
+/// Sums the positions of every window: [O1 * W1, O2 * W2, ...] -> [O1, O2, ...]
+fn gather_windows(tensor: &Tensor, window_shape: &[usize]) -> HoduResult<Tensor> {
+    let shape = tensor.shape();
+    let dims: Vec<usize> = shape.dims().iter().zip(window_shape).map(|(&d, &w)| d / w).collect();
+    let split: Vec<usize> = dims.iter().zip(window_shape).flat_map(|(&d, &w)| [d, w]).collect();
+    let window_dims: Vec<usize> = (0..dims.len()).map(|i| 2 * i + 1).collect();
+    tensor.reshape(split)?.sum(&window_dims, true)?.reshape(dims)
+}
 
-                        let mut final_shape = current_dims.to_vec();
-                        final_shape[dim_idx] *= stride;
-                        upsampled_grad = upsampled_grad.reshape(&final_shape)?;
-                    }
-                }
+/// Positions in the padded input along `dim` of the elements of all windows
+fn window_positions(params: &ReduceWindowParams, dim: usize, out_size: usize) -> HoduResult<Tensor> {
+    let positions: Vec<i32> = (0..out_size)
+        .flat_map(|o| (0..params.window_shape[dim]).map(move |w| (o * params.strides[dim] + w) as i32))
+        .collect();
+    Tensor::new(positions)
+}
 
-                upsampled_grad = upsampled_grad.broadcast(&input_shape)?;
-                Ok(vec![upsampled_grad.id()])
-            },
-        }
+/// Adds the elements of all windows into their positions of the input, leaving out the padding
+fn add_windows(
+    elements: &Tensor,
+    params: &ReduceWindowParams,
+    input_shape: &Shape,
+    out_dims: &[usize],
+) -> HoduResult<Tensor> {
+    let mut result = elements.clone();
+    for (dim, (&size, &out_size)) in input_shape.dims().iter().zip(out_dims).enumerate() {
+        let (before, after) = params.padding[dim];
+        let positions = window_positions(params, dim, out_size)?;
+        result = create_index_add_tensor(&result, dim, &positions, before + size + after)?;
+        result = result.slice(dim, before as i32, Some((before + size) as i32), 1)?;
     }
+    Ok(result)
 }
-- 
2.43.0


From b81f119c7a70b3ceec014932273778348ef66127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 52/93] fix: gradient of resize is the transpose of the
 interpolation

---
 .../src/tensor/gradient/vjp_resize.rs         | 51 +++++++++++--------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
index edcc827..836de46 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_resize.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{OpParams, ResizeMode, ResizeParams},
     ops::ResizeOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for ResizeOp {
@@ -18,7 +18,7 @@ impl VjpCompute for ResizeOp {
             mode,
             coord_transform,
             nearest_mode,
-            ..
+            output_size,
         }) = op_params
         else {
             return Err(HoduError::VjpFunctionNotFound(
@@ -33,21 +33,13 @@ impl VjpCompute for ResizeOp {
                 let input_shape = input_tensor.shape();
                 let input_dims = input_shape.dims();
 
-                let grad_tensor = tensor_from_id(grad_output);
-
-                // For resize, the gradient flows back by resizing grad_output to input shape
-                // This is valid for bilinear/bicubic interpolation
-                // For nearest neighbor, there's no well-defined gradient (we use bilinear for backward)
-
-                // Get spatial dimensions from input (skip batch and channel)
-                let spatial_dims: Vec<usize> = input_dims[2..].to_vec();
-
-                // For nearest mode, there's technically no gradient, but we can approximate
-                // by using bilinear interpolation for the backward pass
-                let backward_mode = match mode {
-                    ResizeMode::Nearest => "bilinear", // Use bilinear for backward pass
-                    ResizeMode::Linear => "bilinear",
-                    ResizeMode::Cubic => "bicubic",
+                // Resizing is linear and treats the spatial dimensions independently, so the gradient
+                // along each of them is multiplied by the transposed matrix of the resize along it.
+                // Resizing the rows of an identity matrix yields that matrix.
+                let mode_str = match mode {
+                    ResizeMode::Nearest => "nearest",
+                    ResizeMode::Linear => "linear",
+                    ResizeMode::Cubic => "cubic",
                 };
 
                 let coord_transform_str = match coord_transform {
@@ -64,9 +56,28 @@ impl VjpCompute for ResizeOp {
                     crate::op_params::ResizeNearestMode::RoundPreferCeil => "round_prefer_ceil",
                 };
 
-                // Resize grad_output back to input spatial dimensions
-                let grad_input =
-                    grad_tensor.resize(&spatial_dims, backward_mode, coord_transform_str, nearest_mode_str)?;
+                let mut grad_input = tensor_from_id(grad_output);
+                for dim in 2..input_dims.len() {
+                    let in_size = input_dims[dim];
+                    let out_size = output_size[dim - 2];
+
+                    let mut eye_dims = vec![1; input_dims.len()];
+                    eye_dims[0] = in_size;
+                    eye_dims[input_dims.len() - 1] = in_size;
+                    let mut resized_dims = vec![1; output_size.len()];
+                    resized_dims[output_size.len() - 1] = out_size;
+
+                    let weights = Tensor::eye(in_size, input_tensor.dtype())?
+                        .reshape(eye_dims)?
+                        .resize(&resized_dims, mode_str, coord_transform_str, nearest_mode_str)?
+                        .reshape([in_size, out_size])?
+                        .transpose(0, 1)?;
+
+                    grad_input = grad_input
+                        .transpose(dim as i32, -1)?
+                        .matmul(&weights)?
+                        .transpose(dim as i32, -1)?;
+                }
 
                 Ok(vec![grad_input.id()])
             },
-- 
2.43.0


From a5c21309b2ae816a8ff40fd4e503fe67fb3e6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 53/93] fix: gradient of einsum handles summed-out and repeated
 indices

---
 .../src/tensor/gradient/vjp_einsum.rs         | 70 +++++++++++--------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
index 969d7c0..3cadde9 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_einsum.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     op_params::{EinsumParams, OpParams},
     ops::EinsumOp,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
 };
 
 impl VjpCompute for EinsumOp {
@@ -30,40 +30,54 @@ impl VjpCompute for EinsumOp {
                 let grad_tensor = tensor_from_id(grad_output);
                 let mut grad_inputs = Vec::with_capacity(inputs.len());
 
-                for (i, _input_id) in inputs.iter().enumerate() {
-                    // Build gradient equation for input i
-                    // grad_input_i = einsum(grad_equation, [grad, other_inputs...])
-                    //
-                    // The grad equation:
-                    // - First operand: grad_output with output_subscripts
-                    // - Other operands: all inputs except input i with their subscripts
-                    // - Result: input_subscripts[i]
+                let input_tensors: Vec<_> = inputs.iter().map(|&id| tensor_from_id(id)).collect();
 
-                    let mut grad_operand_subs = Vec::new();
-                    let mut grad_operand_tensors = Vec::new();
-
-                    // First operand is the gradient output
-                    grad_operand_subs.push(output_subscripts.iter().collect::<String>());
-                    grad_operand_tensors.push(&grad_tensor);
-
-                    // Remaining operands are inputs except the one we're computing gradient for
-                    let input_tensors: Vec<_> = inputs.iter().map(|&id| tensor_from_id(id)).collect();
-                    for (j, input_tensor) in input_tensors.iter().enumerate() {
+                for (i, input_tensor) in input_tensors.iter().enumerate() {
+                    // The gradient of input i is the product of the output gradient and the other
+                    // inputs, summed over the indices input i does not have
+                    let mut operand_subs = vec![output_subscripts.iter().collect::<String>()];
+                    let mut operands = vec![&grad_tensor];
+                    for (j, other) in input_tensors.iter().enumerate() {
                         if j != i {
-                            grad_operand_subs.push(input_subscripts[j].iter().collect::<String>());
-                            grad_operand_tensors.push(input_tensor);
+                            operand_subs.push(input_subscripts[j].iter().collect::<String>());
+                            operands.push(other);
                         }
                     }
 
-                    // Result subscripts are the subscripts of the input we're computing gradient for
-                    let result_subs: String = input_subscripts[i].iter().collect();
+                    // Indices of input i without repetitions, and those the other operands have
+                    let subs = &input_subscripts[i];
+                    let is_first = |k: usize| !subs[..k].contains(&subs[k]);
+                    let available: String = (0..subs.len())
+                        .filter(|&k| is_first(k) && operand_subs.iter().any(|s| s.contains(subs[k])))
+                        .map(|k| subs[k])
+                        .collect();
 
-                    // Build the equation string
-                    let grad_equation = format!("{}->{}", grad_operand_subs.join(","), result_subs);
+                    let grad_equation = format!("{}->{}", operand_subs.join(","), available);
+                    let mut grad_input = Tensor::einsum(&grad_equation, &operands)?;
 
-                    // Compute the gradient
-                    let grad_tensor_refs: Vec<&crate::tensor::Tensor> = grad_operand_tensors.to_vec();
-                    let grad_input = crate::tensor::Tensor::einsum(&grad_equation, &grad_tensor_refs)?;
+                    // An index only input i has was summed over: its gradient is the same everywhere
+                    let input_shape = input_tensor.shape();
+                    let dims = input_shape.dims();
+                    let aligned: Vec<usize> = (0..subs.len())
+                        .map(|k| {
+                            if is_first(k) && available.contains(subs[k]) {
+                                dims[k]
+                            } else {
+                                1
+                            }
+                        })
+                        .collect();
+                    grad_input = grad_input.reshape(aligned)?.broadcast(&input_shape)?;
+
+                    // A repeated index took the diagonal: the gradient is zero off it
+                    for k in (0..subs.len()).filter(|&k| !is_first(k)) {
+                        let first = subs.iter().position(|s| *s == subs[k]).unwrap_or(k);
+                        let mut eye_dims = vec![1; subs.len()];
+                        eye_dims[first] = dims[first];
+                        eye_dims[k] = dims[k];
+                        let eye = Tensor::eye(dims[k], input_tensor.dtype())?.reshape(eye_dims)?;
+                        grad_input = grad_input.mul(&eye)?;
+                    }
 
                     grad_inputs.push(grad_input.id());
                 }
-- 
2.43.0


From f677d309dcba65771ba0d590b7c7a4bf5ef874b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 54/93] fix: abs has a gradient, so that l1_norm, norm and the
 absolute error loss can be differentiated

---
 crates/hodu_core/src/ops.rs         | 2 +-
 crates/hodu_core/src/utils/valid.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/ops.rs b/crates/hodu_core/src/ops.rs
index fa77879..17d0aff 100644
--- a/crates/hodu_core/src/ops.rs
+++ b/crates/hodu_core/src/ops.rs
@@ -155,7 +155,7 @@ impl fmt::Debug for CmpScalarOp {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub enum UnaryOp {
     Neg,
-    Abs,      // no-backprop
+    Abs,
     Sign,     // no-backprop
     Softsign, // x / (1 + |x|)
     Square,
diff --git a/crates/hodu_core/src/utils/valid.rs b/crates/hodu_core/src/utils/valid.rs
index 6a08347..4b9a451 100644
--- a/crates/hodu_core/src/utils/valid.rs
+++ b/crates/hodu_core/src/utils/valid.rs
@@ -408,8 +408,8 @@ pub fn validate_requires_grad_for_op(op: Op) -> bool {
 
         // Unary operations
         Op::Unary(inner_op) => match inner_op {
-            UnaryOp::Neg | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
-            UnaryOp::Abs | UnaryOp::Sign => false, // !
+            UnaryOp::Neg | UnaryOp::Abs | UnaryOp::Square | UnaryOp::Sqrt | UnaryOp::Recip => true,
+            UnaryOp::Sign => false, // !
             UnaryOp::Softsign => true,
             UnaryOp::Relu
             | UnaryOp::Sigmoid
-- 
2.43.0


From 0c7a0a80f66912f480c35c74e703d8c6092aa560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 55/93] fix: gradients of std and of the 2-norm are zero, not
 NaN, where the value is zero

---
 crates/hodu_core/src/tensor/gradient/vjp_reduce.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
index e975305..8117249 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_reduce.rs
@@ -3,7 +3,7 @@ use crate::{
     error::{HoduError, HoduResult},
     ops::{OpParams, ReduceOp, ReduceParams},
     scalar::Scalar,
-    tensor::{tensor_from_id, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
     types::Shape,
 };
 
@@ -48,6 +48,7 @@ impl VjpCompute for ReduceOp {
         let grad_tensor = tensor_from_id(grad_output)
             .reshape(&kept_shape)?
             .broadcast(&input_shape)?;
+        let nonzero = |t: Tensor| t.add(&t.eq_scalar(Scalar::zero(dtype))?.to_dtype(dtype)?);
         let kept_output = || tensor_from_id(output).reshape(&kept_shape);
 
         match self {
@@ -74,8 +75,8 @@ impl VjpCompute for ReduceOp {
                 Ok(vec![result.id()])
             },
             ReduceOp::Norm => {
-                // d/dx ||x||_2 = x / ||x||_2
-                let derivative = input_tensor.div(&kept_output()?)?;
+                // d/dx ||x||_2 = x / ||x||_2 (0 where ||x||_2 is 0)
+                let derivative = input_tensor.div(&nonzero(kept_output()?)?)?;
                 let result = derivative.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
@@ -89,9 +90,10 @@ impl VjpCompute for ReduceOp {
             },
             ReduceOp::Std => {
                 // d/dx std(x) = (x - mean(x)) / (N * std(x)) where N is number of elements in reduced dimensions
+                // (0 where std(x) is 0, as for a single element)
                 let diff = input_tensor.sub(&input_tensor.mean(&reduce_dims, true)?)?;
                 let scale = create_scalar(1.0 / reduce_elements, dtype);
-                let derivative = diff.div(&kept_output()?)?.mul_scalar(scale)?;
+                let derivative = diff.div(&nonzero(kept_output()?)?)?.mul_scalar(scale)?;
                 let result = derivative.mul(&grad_tensor)?;
                 Ok(vec![result.id()])
             },
-- 
2.43.0


From 3771252f2b794471ae961f0dd65caedd18c799c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 56/93] fix: a backward pass or optimizer step on one thread
 does not stop other threads from recording operations

---
 crates/hodu_core/src/tensor/gradient/core.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/core.rs b/crates/hodu_core/src/tensor/gradient/core.rs
index 8feb54b..81c8679 100644
--- a/crates/hodu_core/src/tensor/gradient/core.rs
+++ b/crates/hodu_core/src/tensor/gradient/core.rs
@@ -1,5 +1,5 @@
-use std::cell::RefCell;
-use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+use std::cell::{Cell, RefCell};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[repr(transparent)]
 #[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
@@ -34,21 +34,24 @@ pub(super) fn pop_context() {
     });
 }
 
-static IS_COMPUTING_GRADIENTS: AtomicBool = AtomicBool::new(false);
-static IS_IN_OPTIMIZER_STEP: AtomicBool = AtomicBool::new(false);
+// Per thread, so that one thread's backward pass or optimizer step does not stop others from recording
+thread_local! {
+    static IS_COMPUTING_GRADIENTS: Cell<bool> = const { Cell::new(false) };
+    static IS_IN_OPTIMIZER_STEP: Cell<bool> = const { Cell::new(false) };
+}
 
 pub fn is_computing_gradients() -> bool {
-    IS_COMPUTING_GRADIENTS.load(Ordering::Relaxed)
+    IS_COMPUTING_GRADIENTS.with(Cell::get)
 }
 
 pub fn is_in_optimizer_step() -> bool {
-    IS_IN_OPTIMIZER_STEP.load(Ordering::Relaxed)
+    IS_IN_OPTIMIZER_STEP.with(Cell::get)
 }
 
 pub fn set_optimizer_step_flag(value: bool) {
-    IS_IN_OPTIMIZER_STEP.store(value, Ordering::Relaxed);
+    IS_IN_OPTIMIZER_STEP.with(|flag| flag.set(value));
 }
 
 pub(super) fn set_computing_gradients(value: bool) {
-    IS_COMPUTING_GRADIENTS.store(value, Ordering::Relaxed);
+    IS_COMPUTING_GRADIENTS.with(|flag| flag.set(value));
 }
-- 
2.43.0


From a162a91a0ad772f5a81219ec376137228b34cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 57/93] fix: tensors live exactly as long as something refers
 to them: recorded operations keep their operands, everything else is released
 when dropped, and backward only consumes the graph of its loss

---
 crates/hodu_core/src/tensor.rs                |   6 +-
 crates/hodu_core/src/tensor/core.rs           |  73 +---------
 .../hodu_core/src/tensor/creation_static.rs   |   2 +-
 crates/hodu_core/src/tensor/gradient.rs       |   8 +-
 .../hodu_core/src/tensor/gradient/compute.rs  |  49 ++++---
 .../hodu_core/src/tensor/gradient/context.rs  |   4 +-
 crates/hodu_core/src/tensor/gradient/core.rs  |  15 ++-
 crates/hodu_core/src/tensor/gradient/tape.rs  | 125 ++++++------------
 crates/hodu_core/src/tensor/internal.rs       |  71 ++++++----
 crates/hodu_core/src/tensor/registry.rs       |  16 +--
 10 files changed, 144 insertions(+), 225 deletions(-)

diff --git a/crates/hodu_core/src/tensor.rs b/crates/hodu_core/src/tensor.rs
index 197e3ed..19aa8ec 100644
--- a/crates/hodu_core/src/tensor.rs
+++ b/crates/hodu_core/src/tensor.rs
@@ -22,9 +22,9 @@ pub use registry::{exists, get, get_dtype, shrink_tensor_storage, tensor_count,
 
 // Re-export internal functions for crate use
 pub(crate) use internal::{
-    create_builder_tensor, from_shared_storage_with, from_storage, from_storage_with_context, set_grad_tensor_id,
-    tensor_from_id,
+    create_builder_tensor, from_shared_storage_with, from_storage, from_storage_with_context, release_tensor,
+    set_grad_tensor_id, tensor_from_id,
 };
 
 // Re-export for submodules
-pub(crate) use registry::{get_all_tensor_ids, insert, remove};
+pub(crate) use registry::{insert, remove_unreferenced};
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index a10e352..7f970b6 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -46,52 +46,7 @@ impl Clone for Tensor {
 
 impl Drop for Tensor {
     fn drop(&mut self) {
-        let (should_remove, should_cleanup_tape, grad_id) = registry::with_tensor(self.0, |t| {
-            let prev_count = t.ref_count.load(Ordering::Relaxed);
-
-            if prev_count > 0 {
-                t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            }
-
-            let remove = if gradient::is_computing_gradients() {
-                false
-            } else {
-                (prev_count == 1 || prev_count == 0) && t.is_runtime && t.owner_context.is_none() && !t.is_gradient
-            };
-
-            let cleanup =
-                prev_count == 1 && t.requires_grad && t.owner_context.is_none() && !gradient::is_computing_gradients();
-
-            (remove, cleanup, t.grad_tensor_id)
-        })
-        .unwrap_or((false, false, None));
-
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(self.0);
-        }
-
-        if should_remove {
-            if let Some(grad_id) = grad_id {
-                if let Some((should_remove_grad, should_cleanup_grad_tape)) = registry::with_tensor(grad_id, |g| {
-                    let prev_count = g.ref_count.load(Ordering::Relaxed);
-                    if prev_count > 0 {
-                        g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                    }
-                    let remove = (prev_count == 1 || prev_count == 0) && g.is_runtime && g.owner_context.is_none();
-                    let cleanup = (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                    (remove, cleanup)
-                }) {
-                    if should_cleanup_grad_tape {
-                        gradient::cleanup_tape_for_dropped_tensor(grad_id);
-                    }
-                    if should_remove_grad {
-                        registry::remove(grad_id);
-                    }
-                }
-            }
-
-            registry::remove(self.0);
-        }
+        super::internal::release_tensor(self.0);
     }
 }
 
@@ -102,14 +57,15 @@ pub struct Tensor_ {
     pub(super) requires_grad: bool,
     pub(super) grad_tensor_id: Option<TensorId>,
     pub(super) is_runtime: bool,
-    pub(super) is_gradient: bool,
     pub(super) owner_context: Option<ContextId>,
+    /// Whether a tape has an entry that produced this tensor
+    pub(super) is_recorded: bool,
     pub(super) ref_count: AtomicUsize,
 }
 
 impl Tensor_ {
-    pub(crate) fn owner_context(&self) -> Option<ContextId> {
-        self.owner_context
+    pub(crate) fn set_recorded(&mut self) {
+        self.is_recorded = true;
     }
 }
 
@@ -267,30 +223,15 @@ impl Tensor {
             })
             .ok_or(HoduError::TensorNotFound(old_grad_id))?;
 
-            let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
-                let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-                let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-                let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-                (remove, cleanup)
-            })
-            .unwrap_or((false, false));
-
-            if should_cleanup_tape {
-                gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
-            }
-
-            if should_remove {
-                registry::remove(old_grad_id);
-            }
+            drop(Tensor(old_grad_id));
 
             let zeros = Self::zeros(&shape, dtype)?;
             let zeros_id = zeros.id();
 
             if let Some(()) = registry::with_tensor_mut(zeros_id, |t| {
-                t.is_gradient = true;
                 t.ref_count.fetch_add(1, Ordering::Relaxed);
             }) {
-                // Successfully set is_gradient
+                // The tensor holds a reference to its gradient
             } else {
                 return Err(HoduError::TensorNotFound(zeros_id));
             }
diff --git a/crates/hodu_core/src/tensor/creation_static.rs b/crates/hodu_core/src/tensor/creation_static.rs
index d88f9b8..993e3c9 100644
--- a/crates/hodu_core/src/tensor/creation_static.rs
+++ b/crates/hodu_core/src/tensor/creation_static.rs
@@ -20,8 +20,8 @@ impl Tensor {
             requires_grad: false,
             grad_tensor_id: None,
             is_runtime: false,
-            is_gradient: false,
             owner_context: None, // Builder input tensors are user-created
+            is_recorded: false,
             ref_count: AtomicUsize::new(1),
         };
         let tensor_id = TensorId::new();
diff --git a/crates/hodu_core/src/tensor/gradient.rs b/crates/hodu_core/src/tensor/gradient.rs
index 33f244d..de36f66 100644
--- a/crates/hodu_core/src/tensor/gradient.rs
+++ b/crates/hodu_core/src/tensor/gradient.rs
@@ -39,10 +39,6 @@ pub use compute::{compute_gradients, record_operation};
 pub use context::GradientContext;
 pub use core::{is_computing_gradients, is_in_optimizer_step, set_optimizer_step_flag, ContextId};
 
-pub(crate) use core::get_active_context;
+pub(crate) use core::{defer_removal, get_active_context};
+pub(crate) use tape::forget_unused_output;
 pub(crate) use vjp::VjpCompute;
-
-pub(crate) fn cleanup_tape_for_dropped_tensor(tensor_id: crate::tensor::TensorId) {
-    let context_id = get_active_context();
-    tape::remove_entries_with_input(context_id, tensor_id);
-}
diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index 9af639f..a5762bf 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -1,5 +1,8 @@
 use super::{
-    core::{get_active_context, is_computing_gradients, is_in_optimizer_step, set_computing_gradients, ContextId},
+    core::{
+        get_active_context, is_computing_gradients, is_in_optimizer_step, set_computing_gradients,
+        take_deferred_removals,
+    },
     tape::{get_tape_clone, push_entry, TapeEntry},
     vjp::VjpCompute,
 };
@@ -8,7 +11,7 @@ use crate::{
     ops::{MemoryOp, Op, OpParams},
     tensor::{self, set_grad_tensor_id, tensor_from_id, Tensor, TensorId},
 };
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, op_params: OpParams) -> HoduResult<()> {
     if is_computing_gradients() {
@@ -30,11 +33,13 @@ pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, o
 
     let context_id = get_active_context();
 
+    tensor::with_tensor_mut(output_id, |t| t.set_recorded());
+
     let entry = TapeEntry {
-        output_id,
+        output: tensor_from_id(output_id),
         op,
         op_params,
-        input_ids,
+        inputs: input_ids.into_iter().map(tensor_from_id).collect(),
     };
 
     push_entry(context_id, entry)
@@ -59,6 +64,12 @@ impl GradientComputationGuard {
 impl Drop for GradientComputationGuard {
     fn drop(&mut self) {
         set_computing_gradients(false);
+        self.keep_alive.clear();
+        for tensor_id in take_deferred_removals() {
+            if let Some(grad_id) = tensor::remove_unreferenced(tensor_id) {
+                tensor::release_tensor(grad_id);
+            }
+        }
     }
 }
 
@@ -77,6 +88,7 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     let tape_len = tape.len();
     let mut guard = GradientComputationGuard::new_with_capacity(tape_len * 3);
     let mut gradients: HashMap<TensorId, TensorId> = HashMap::new();
+    let mut visited = HashSet::new();
 
     gradients.insert(loss_tensor_id, loss_grad_id);
     guard.keep(loss_tensor);
@@ -84,12 +96,10 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
 
     let result = (|| -> HoduResult<()> {
         for entry in tape.iter().rev() {
-            if let Some(&grad_output) = gradients.get(&entry.output_id) {
-                for &input_id in &entry.input_ids {
-                    if tensor::get(input_id).is_none() {
-                        return Err(HoduError::TensorNotFound(input_id));
-                    }
-                }
+            let output_id = entry.output.id();
+            if let Some(&grad_output) = gradients.get(&output_id) {
+                visited.insert(output_id);
+                let input_ids: Vec<_> = entry.inputs.iter().map(|input| input.id()).collect();
 
                 if tensor::get(grad_output).is_none() {
                     return Err(HoduError::TensorNotFound(grad_output));
@@ -97,19 +107,13 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
 
                 guard.keep(tensor_from_id(grad_output));
 
-                let input_grads = compute_vjp_for_op(
-                    &entry.op,
-                    &entry.op_params,
-                    &entry.input_ids,
-                    entry.output_id,
-                    grad_output,
-                )?;
+                let input_grads = compute_vjp_for_op(&entry.op, &entry.op_params, &input_ids, output_id, grad_output)?;
 
                 for &grad_id in &input_grads {
                     guard.keep(tensor_from_id(grad_id));
                 }
 
-                for (input_id, grad_id) in entry.input_ids.iter().zip(input_grads.iter()) {
+                for (input_id, grad_id) in input_ids.iter().zip(input_grads.iter()) {
                     if tensor::get(*grad_id).is_none() {
                         return Err(HoduError::TensorNotFound(*grad_id));
                     }
@@ -142,13 +146,8 @@ pub fn compute_gradients(loss_tensor_id: TensorId) -> HoduResult<()> {
     drop(guard);
 
     if result.is_ok() {
-        use super::tape;
-
-        if context_id == ContextId::DEFAULT {
-            tape::cleanup_default_context_after_backward();
-        }
-
-        tape::clear_tape_for_context(context_id);
+        // Graphs that do not end in this loss stay on the tape: they may belong to another loss or thread
+        super::tape::remove_entries(context_id, &visited);
     }
 
     result
diff --git a/crates/hodu_core/src/tensor/gradient/context.rs b/crates/hodu_core/src/tensor/gradient/context.rs
index e45d922..1b4da7f 100644
--- a/crates/hodu_core/src/tensor/gradient/context.rs
+++ b/crates/hodu_core/src/tensor/gradient/context.rs
@@ -1,4 +1,4 @@
-use super::core::{pop_context, push_context, ContextId};
+use super::core::{push_context, remove_context, ContextId};
 
 pub struct GradientContext {
     context_id: ContextId,
@@ -32,7 +32,7 @@ impl Drop for GradientContext {
             return;
         }
 
-        pop_context();
+        remove_context(self.context_id);
 
         super::tape::remove_tape(self.context_id);
     }
diff --git a/crates/hodu_core/src/tensor/gradient/core.rs b/crates/hodu_core/src/tensor/gradient/core.rs
index 81c8679..5bcf9d2 100644
--- a/crates/hodu_core/src/tensor/gradient/core.rs
+++ b/crates/hodu_core/src/tensor/gradient/core.rs
@@ -1,3 +1,4 @@
+use crate::tensor::TensorId;
 use std::cell::{Cell, RefCell};
 use std::sync::atomic::{AtomicUsize, Ordering};
 
@@ -28,9 +29,9 @@ pub(super) fn push_context(context_id: ContextId) {
     });
 }
 
-pub(super) fn pop_context() {
+pub(super) fn remove_context(context_id: ContextId) {
     CONTEXT_STACK.with(|stack| {
-        stack.borrow_mut().pop();
+        stack.borrow_mut().retain(|&id| id != context_id);
     });
 }
 
@@ -38,6 +39,8 @@ pub(super) fn pop_context() {
 thread_local! {
     static IS_COMPUTING_GRADIENTS: Cell<bool> = const { Cell::new(false) };
     static IS_IN_OPTIMIZER_STEP: Cell<bool> = const { Cell::new(false) };
+    // Tensors that lost their last reference while this thread computed gradients
+    static DEFERRED_REMOVALS: RefCell<Vec<TensorId>> = const { RefCell::new(vec![]) };
 }
 
 pub fn is_computing_gradients() -> bool {
@@ -52,6 +55,14 @@ pub fn set_optimizer_step_flag(value: bool) {
     IS_IN_OPTIMIZER_STEP.with(|flag| flag.set(value));
 }
 
+pub(crate) fn defer_removal(tensor_id: TensorId) {
+    let _ = DEFERRED_REMOVALS.try_with(|ids| ids.borrow_mut().push(tensor_id));
+}
+
+pub(super) fn take_deferred_removals() -> Vec<TensorId> {
+    DEFERRED_REMOVALS.with(RefCell::take)
+}
+
 pub(super) fn set_computing_gradients(value: bool) {
     IS_COMPUTING_GRADIENTS.with(|flag| flag.set(value));
 }
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 7e12ebc..5b2edc1 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -3,18 +3,19 @@ use crate::error::HoduError;
 use crate::{
     error::HoduResult,
     ops::{Op, OpParams},
-    tensor::TensorId,
+    tensor::{Tensor, TensorId},
 };
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::sync::{LazyLock, Mutex};
 
-/// A single entry in the gradient tape
+/// A single entry in the gradient tape. It holds a reference to its tensors, so that they are there when
+/// gradients are computed even if nobody else refers to them any more.
 #[derive(Clone)]
 pub(super) struct TapeEntry {
-    pub output_id: TensorId,
+    pub output: Tensor,
     pub op: Op,
     pub op_params: OpParams,
-    pub input_ids: Vec<TensorId>,
+    pub inputs: Vec<Tensor>,
 }
 
 /// Global gradient tape storage (one tape per context)
@@ -29,75 +30,11 @@ pub(super) fn initialize_tape(context_id: ContextId) {
     GRADIENT_TAPES.lock().unwrap().insert(context_id, Vec::new());
 }
 
-/// Remove a tape for a context and clean up context-owned tensors
+/// Remove a tape for a context
 pub(super) fn remove_tape(context_id: ContextId) {
-    // The lock must be released before the cleanup, which takes it again for tensors with a tracked gradient.
     let tape = GRADIENT_TAPES.lock().unwrap().remove(&context_id);
-    if let Some(tape) = tape {
-        cleanup_context_tensors(context_id, &tape);
-    }
-}
-
-/// Clean up tensors owned by a specific context
-fn cleanup_context_tensors(context_id: ContextId, _tape: &[TapeEntry]) {
-    use crate::tensor;
-    use std::sync::atomic::Ordering;
-
-    // Collect ALL tensor IDs owned by this context with ref_count=0
-    // (not just from tape, because some intermediate tensors may not be on the tape)
-    let tensor_ids_to_check = tensor::get_all_tensor_ids();
-
-    // Remove tensors that belong to this context AND have ref_count=0
-    for tensor_id in tensor_ids_to_check {
-        if let Some((should_remove, grad_id)) = tensor::with_tensor(tensor_id, |t| {
-            // Remove if:
-            // 1. (Owned by this context OR owner_context==None) AND ref_count==0
-            // 2. NOT a gradient tensor (gradient tensors should be preserved)
-            let ref_count = t.ref_count.load(Ordering::Relaxed);
-            let owner_ctx = t.owner_context();
-            let should_remove = (owner_ctx == Some(context_id) || owner_ctx.is_none())
-                && ref_count == 0
-                && t.is_runtime
-                && !t.is_gradient;
-            (should_remove, t.grad_tensor_id)
-        }) {
-            if should_remove {
-                // If this tensor has a gradient, decrement its ref_count and remove if necessary
-                if let Some(grad_id) = grad_id {
-                    if let Some((should_remove_grad, should_cleanup_tape)) = tensor::with_tensor(grad_id, |g| {
-                        let prev_count = g.ref_count.load(Ordering::Relaxed);
-                        if prev_count > 0 {
-                            g.ref_count.fetch_sub(1, Ordering::Relaxed);
-                        }
-                        let remove = (prev_count == 1 || prev_count == 0)
-                            && g.is_runtime
-                            && g.owner_context.is_none()
-                            && !g.is_gradient;
-                        let cleanup =
-                            (prev_count == 1 || prev_count == 0) && g.requires_grad && g.owner_context.is_none();
-                        (remove, cleanup)
-                    }) {
-                        if should_cleanup_tape {
-                            remove_entries_with_input(context_id, grad_id);
-                        }
-                        if should_remove_grad {
-                            tensor::remove(grad_id);
-                        }
-                    }
-                }
-
-                tensor::remove(tensor_id);
-            }
-        }
-    }
-}
-
-/// Clean up tensors owned by the default context after backward
-/// Only removes tensors with ref_count=0
-pub(super) fn cleanup_default_context_after_backward() {
-    let context_id = ContextId::DEFAULT;
-    let tape = get_tape_clone(context_id).unwrap_or_default();
-    cleanup_context_tensors(context_id, &tape);
+    // The entries release their tensors, which takes the lock again
+    drop(tape);
 }
 
 /// Add an entry to the tape for a given context
@@ -115,22 +52,42 @@ pub(super) fn get_tape_clone(context_id: ContextId) -> HoduResult<Vec<TapeEntry>
     Ok(tapes.get(&context_id).cloned().unwrap_or_default())
 }
 
-/// Clear the tape for a given context (but don't remove tensors)
-pub(super) fn clear_tape_for_context(context_id: ContextId) {
+/// Remove the entries that produced the given tensors
+pub(super) fn remove_entries(context_id: ContextId, outputs: &HashSet<TensorId>) {
+    let mut removed = Vec::new();
     if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
         if let Some(tape) = tapes.get_mut(&context_id) {
-            tape.clear();
+            let (used, rest) = std::mem::take(tape)
+                .into_iter()
+                .partition(|entry| outputs.contains(&entry.output.id()));
+            removed = used;
+            *tape = rest;
         }
     }
+    // Released outside the lock
+    drop(removed);
 }
 
-/// Remove tape entries that have the given tensor as input
-/// This is called when a tensor with requires_grad=true is dropped
-pub(super) fn remove_entries_with_input(context_id: ContextId, tensor_id: TensorId) {
-    if let Ok(mut tapes) = GRADIENT_TAPES.lock() {
-        if let Some(tape) = tapes.get_mut(&context_id) {
-            // Remove entries where tensor_id is an input
-            tape.retain(|entry| !entry.input_ids.contains(&tensor_id));
-        }
-    }
+/// Remove the entry of a tensor that nothing but this entry refers to: no gradient can reach it any more.
+/// Returns the references the entry held.
+pub(crate) fn forget_unused_output(context_id: ContextId, tensor_id: TensorId) -> Vec<TensorId> {
+    let Ok(mut tapes) = GRADIENT_TAPES.lock() else {
+        return Vec::new();
+    };
+    let Some(tape) = tapes.get_mut(&context_id) else {
+        return Vec::new();
+    };
+    let Some(position) = tape.iter().rposition(|entry| entry.output.id() == tensor_id) else {
+        return Vec::new();
+    };
+    let entry = tape.remove(position);
+    let tensors: Vec<_> = entry.inputs.into_iter().chain([entry.output]).collect();
+    tensors
+        .into_iter()
+        .map(|tensor| {
+            let id = tensor.id();
+            std::mem::forget(tensor);
+            id
+        })
+        .collect()
 }
diff --git a/crates/hodu_core/src/tensor/internal.rs b/crates/hodu_core/src/tensor/internal.rs
index fc595f9..cb1c5e0 100644
--- a/crates/hodu_core/src/tensor/internal.rs
+++ b/crates/hodu_core/src/tensor/internal.rs
@@ -24,8 +24,8 @@ pub(crate) fn from_storage(
         requires_grad,
         grad_tensor_id: None,
         is_runtime,
-        is_gradient: false,
         owner_context,
+        is_recorded: false,
         ref_count: AtomicUsize::new(1),
     };
     let tensor_id = TensorId::new();
@@ -64,8 +64,8 @@ pub(crate) fn from_shared_storage_with(source_tensor: &Tensor, layout: Layout, r
         requires_grad,
         grad_tensor_id: None,
         is_runtime: true,
-        is_gradient: false,
         owner_context,
+        is_recorded: false,
         ref_count: AtomicUsize::new(1),
     };
 
@@ -82,8 +82,8 @@ pub(crate) fn create_builder_tensor(layout: Layout, dtype: DType, requires_grad:
         requires_grad,
         grad_tensor_id: None,
         is_runtime: false,
-        is_gradient: false,
         owner_context: None,
+        is_recorded: false,
         ref_count: AtomicUsize::new(1),
     };
     let tensor_id = TensorId::new();
@@ -108,33 +108,54 @@ pub(crate) fn set_grad_tensor_id(tensor_id: TensorId, grad_tensor_id: TensorId)
         return Err(HoduError::TensorNotFound(grad_tensor_id));
     }
 
-    let old_grad_id = registry::with_tensor(tensor_id, |tensor_ref| tensor_ref.grad_tensor_id);
+    let old_grad_id = registry::with_tensor_mut(tensor_id, |tensor_ref| {
+        tensor_ref.grad_tensor_id.replace(grad_tensor_id)
+    });
 
-    if let Some(Some(old_grad_id)) = old_grad_id {
-        let (should_remove, should_cleanup_tape) = registry::with_tensor(old_grad_id, |t| {
-            let prev_count = t.ref_count.fetch_sub(1, Ordering::Relaxed);
-            let remove = prev_count == 1 && t.is_runtime && t.owner_context.is_none();
-            let cleanup = prev_count == 1 && t.requires_grad && t.owner_context.is_none();
-            (remove, cleanup)
-        })
-        .unwrap_or((false, false));
+    match old_grad_id {
+        Some(old_grad_id) => {
+            if let Some(old_grad_id) = old_grad_id {
+                release_tensor(old_grad_id);
+            }
+            Ok(())
+        },
+        None => {
+            release_tensor(grad_tensor_id);
+            Err(HoduError::TensorNotFound(tensor_id))
+        },
+    }
+}
 
-        if should_cleanup_tape {
-            gradient::cleanup_tape_for_dropped_tensor(old_grad_id);
-        }
+/// Give up one reference to a tensor. A runtime tensor nobody refers to any more (no handle, no tape
+/// entry, no tensor whose gradient it is) is removed, and with it its reference to its gradient.
+pub(crate) fn release_tensor(tensor_id: TensorId) {
+    let mut next = Some(tensor_id);
+    let mut queue = Vec::new();
 
-        if should_remove {
-            registry::remove(old_grad_id);
+    while let Some(id) = next {
+        let state = registry::with_tensor(id, |t| {
+            let prev = t.ref_count.fetch_sub(1, Ordering::AcqRel);
+            let producer = t.owner_context.filter(|_| t.is_recorded);
+            (prev, t.is_runtime, producer)
+        });
+
+        match state {
+            Some((1, true, _)) => {
+                if gradient::is_computing_gradients() {
+                    // Gradient rules pass tensors on by id
+                    gradient::defer_removal(id);
+                } else {
+                    queue.extend(registry::remove_unreferenced(id));
+                }
+            },
+            // Only the operation that produced it still refers to it
+            Some((2, true, Some(context_id))) => {
+                queue.extend(gradient::forget_unused_output(context_id, id));
+            },
+            _ => {},
         }
-    }
 
-    if let Some(result) = registry::with_tensor_mut(tensor_id, |tensor_ref| {
-        tensor_ref.grad_tensor_id = Some(grad_tensor_id);
-        Ok(())
-    }) {
-        result
-    } else {
-        Err(HoduError::TensorNotFound(tensor_id))
+        next = queue.pop();
     }
 }
 
diff --git a/crates/hodu_core/src/tensor/registry.rs b/crates/hodu_core/src/tensor/registry.rs
index 4d5e5e8..368aa99 100644
--- a/crates/hodu_core/src/tensor/registry.rs
+++ b/crates/hodu_core/src/tensor/registry.rs
@@ -17,13 +17,11 @@ pub fn exists(tensor_id: TensorId) -> bool {
     TENSORS.contains_key(&tensor_id)
 }
 
-pub(crate) fn remove(tensor_id: TensorId) {
-    if let Some(Some(grad_id)) = with_tensor(tensor_id, |t| t.grad_tensor_id) {
-        with_tensor(grad_id, |t| {
-            t.ref_count.fetch_sub(1, Ordering::Relaxed);
-        });
-    }
-    TENSORS.remove(&tensor_id);
+/// Remove a tensor without references; returns the gradient it referred to
+pub(crate) fn remove_unreferenced(tensor_id: TensorId) -> Option<TensorId> {
+    TENSORS
+        .remove_if(&tensor_id, |_, t| t.ref_count.load(Ordering::Acquire) == 0)
+        .and_then(|(_, t)| t.grad_tensor_id)
 }
 
 pub fn get(tensor_id: TensorId) -> Option<dashmap::mapref::one::Ref<'static, TensorId, Tensor_>> {
@@ -38,10 +36,6 @@ pub fn tensor_count() -> usize {
     TENSORS.len()
 }
 
-pub(crate) fn get_all_tensor_ids() -> Vec<TensorId> {
-    TENSORS.iter().map(|entry| *entry.key()).collect()
-}
-
 pub fn with_tensor<F, R>(tensor_id: TensorId, f: F) -> Option<R>
 where
     F: FnOnce(&Tensor_) -> R,
-- 
2.43.0


From e85b2f962def372c7eeaf4092e034c09393ef884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 58/93] fix: JSON tensors keep NaN, infinities and every f64
 exactly, and refuse integers out of range

---
 crates/hodu_core/src/format/json.rs | 128 +++++++++-------------------
 1 file changed, 40 insertions(+), 88 deletions(-)

diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index 23bf41f..26276c4 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -12,6 +12,8 @@
 //! }
 //! ```
 //!
+//! Floating-point values JSON numbers cannot represent are strings (`"NaN"`, `"inf"`, `"-inf"`).
+//!
 //! For multiple tensors:
 //! ```json
 //! {
@@ -201,6 +203,20 @@ fn str_to_dtype(s: &str) -> HoduResult<DType> {
     }
 }
 
+/// A number where JSON has one that reads back as the same value, a string otherwise (NaN, infinities)
+fn float_to_json(v: f64) -> Value {
+    match serde_json::Number::from_f64(v) {
+        Some(n) if serde_json::from_str::<f64>(&n.to_string()).is_ok_and(|r| r == v) => Value::Number(n),
+        _ => Value::String(format!("{v:e}")),
+    }
+}
+
+fn json_to_float(v: &Value) -> HoduResult<f64> {
+    v.as_f64()
+        .or_else(|| v.as_str().and_then(|s| s.parse().ok()))
+        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
+}
+
 fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
     match tensor.dtype() {
         DType::BOOL => {
@@ -210,76 +226,38 @@ fn tensor_data_to_json(tensor: &Tensor) -> HoduResult<Value> {
         DType::F8E4M3 => {
             let data: Vec<F8E4M3> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         #[cfg(feature = "f8e5m2")]
         DType::F8E5M2 => {
             let data: Vec<F8E5M2> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(f32::from(v) as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(f32::from(v) as f64)).collect(),
             ))
         },
         DType::BF16 => {
             let data: Vec<bf16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F16 => {
             let data: Vec<f16> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v.to_f64())
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v.to_f64())).collect(),
             ))
         },
         DType::F32 => {
             let data: Vec<f32> = tensor.to_flatten_vec()?;
             Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v as f64)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
+                data.into_iter().map(|v| float_to_json(v as f64)).collect(),
             ))
         },
         #[cfg(feature = "f64")]
         DType::F64 => {
             let data: Vec<f64> = tensor.to_flatten_vec()?;
-            Ok(Value::Array(
-                data.into_iter()
-                    .map(|v| {
-                        serde_json::Number::from_f64(v)
-                            .map(Value::Number)
-                            .unwrap_or(Value::Null)
-                    })
-                    .collect(),
-            ))
+            Ok(Value::Array(data.into_iter().map(|v| float_to_json(v)).collect()))
         },
         DType::U8 => {
             let data: Vec<u8> = tensor.to_flatten_vec()?;
@@ -356,11 +334,7 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
         DType::F8E4M3 => {
             let values: Vec<F8E4M3> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .map(|f| F8E4M3::from_f32(f as f32))
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).map(|f| F8E4M3::from_f32(f as f32)))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
@@ -368,56 +342,34 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
         DType::F8E5M2 => {
             let values: Vec<F8E5M2> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .map(|f| F8E5M2::from_f32(f as f32))
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).map(|f| F8E5M2::from_f32(f as f32)))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
         DType::BF16 => {
             let values: Vec<bf16> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .map(bf16::from_f64)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).map(bf16::from_f64))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
         DType::F16 => {
             let values: Vec<f16> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .map(f16::from_f64)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).map(f16::from_f64))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
         DType::F32 => {
             let values: Vec<f32> = data
                 .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .map(|f| f as f32)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
+                .map(|v| json_to_float(v).map(|f| f as f32))
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
         #[cfg(feature = "f64")]
         DType::F64 => {
-            let values: Vec<f64> = data
-                .iter()
-                .map(|v| {
-                    v.as_f64()
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected number".into()))
-                })
-                .collect::<HoduResult<Vec<_>>>()?;
+            let values: Vec<f64> = data.iter().map(json_to_float).collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
         DType::U8 => {
@@ -425,8 +377,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u8)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
+                        .and_then(|n| u8::try_from(n).ok())
+                        .ok_or_else(|| HoduError::DeserializationFailed("Expected u8".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
@@ -437,8 +389,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u16)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
+                        .and_then(|n| u16::try_from(n).ok())
+                        .ok_or_else(|| HoduError::DeserializationFailed("Expected u16".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
@@ -448,8 +400,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_u64()
-                        .map(|n| n as u32)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
+                        .and_then(|n| u32::try_from(n).ok())
+                        .ok_or_else(|| HoduError::DeserializationFailed("Expected u32".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
@@ -470,8 +422,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i8)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
+                        .and_then(|n| i8::try_from(n).ok())
+                        .ok_or_else(|| HoduError::DeserializationFailed("Expected i8".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
@@ -482,8 +434,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i16)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
+                        .and_then(|n| i16::try_from(n).ok())
+                        .ok_or_else(|| HoduError::DeserializationFailed("Expected i16".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
@@ -493,8 +445,8 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
                 .iter()
                 .map(|v| {
                     v.as_i64()
-                        .map(|n| n as i32)
-                        .ok_or_else(|| HoduError::DeserializationFailed("Expected integer".into()))
+                        .and_then(|n| i32::try_from(n).ok())
+                        .ok_or_else(|| HoduError::DeserializationFailed("Expected i32".into()))
                 })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
-- 
2.43.0


From 18e16de92f8aee4d6c37a0b585a57bacca183769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 59/93] fix: shapes whose element count overflows are an error
 when tensors are read from bytes or slices

---
 crates/hodu_core/src/tensor/bytes.rs    | 9 ++++-----
 crates/hodu_core/src/tensor/creation.rs | 4 ++--
 crates/hodu_core/src/types/shape.rs     | 9 +++++++++
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/hodu_core/src/tensor/bytes.rs b/crates/hodu_core/src/tensor/bytes.rs
index 346a00e..a592ad7 100644
--- a/crates/hodu_core/src/tensor/bytes.rs
+++ b/crates/hodu_core/src/tensor/bytes.rs
@@ -41,15 +41,14 @@ impl Tensor {
     /// Data is first loaded to CPU, then transferred to the target device if needed.
     pub fn from_bytes(data: &[u8], shape: impl Into<Shape>, dtype: DType, device: Device) -> HoduResult<Self> {
         let shape = shape.into();
-        let expected_size = shape.size() * dtype.size_in_bytes();
+        let expected_size = shape.checked_size().and_then(|n| n.checked_mul(dtype.size_in_bytes()));
 
-        if data.len() != expected_size {
+        if expected_size != Some(data.len()) {
             return Err(HoduError::InvalidArgument(format!(
-                "Data size mismatch: expected {} bytes for shape {:?} with dtype {:?}, got {} bytes",
-                expected_size,
+                "Data size mismatch: {} bytes do not match shape {:?} with dtype {:?}",
+                data.len(),
                 shape.dims(),
                 dtype,
-                data.len()
             )));
         }
 
diff --git a/crates/hodu_core/src/tensor/creation.rs b/crates/hodu_core/src/tensor/creation.rs
index 8fb1c0d..fc6d56b 100644
--- a/crates/hodu_core/src/tensor/creation.rs
+++ b/crates/hodu_core/src/tensor/creation.rs
@@ -75,9 +75,9 @@ impl Tensor {
         let shape = shape.into();
         let data_shape = Shape::from(&data_shape_vec);
 
-        if shape.size() != data_shape.size() {
+        if shape.checked_size() != Some(data_shape.size()) {
             return Err(HoduError::SizeMismatch {
-                expected: shape.size(),
+                expected: shape.checked_size().unwrap_or(usize::MAX),
                 got: data_shape.size(),
             });
         }
diff --git a/crates/hodu_core/src/types/shape.rs b/crates/hodu_core/src/types/shape.rs
index 5681bbe..b40a729 100644
--- a/crates/hodu_core/src/types/shape.rs
+++ b/crates/hodu_core/src/types/shape.rs
@@ -69,6 +69,15 @@ impl Shape {
         self.dims.iter().product()
     }
 
+    /// Returns the total number of elements, or `None` if the extents are too large to address them.
+    #[inline]
+    pub fn checked_size(&self) -> Option<usize> {
+        self.dims
+            .iter()
+            .try_fold(1usize, |size, &dim| size.checked_mul(dim.max(1)))
+            .map(|_| self.size())
+    }
+
     /// Returns true if this is a scalar (0 dimensions).
     #[inline]
     pub fn is_scalar(&self) -> bool {
-- 
2.43.0


From 0766e426ce16e83e792f4c93adc7fa205d1bce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 60/93] fix: infinite F8E5M2 elements survive the JSON format

---
 crates/hodu_core/src/format/json.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/format/json.rs b/crates/hodu_core/src/format/json.rs
index 26276c4..46d3a16 100644
--- a/crates/hodu_core/src/format/json.rs
+++ b/crates/hodu_core/src/format/json.rs
@@ -342,7 +342,14 @@ fn json_data_to_tensor(data: &[Value], shape: Shape, dtype: DType) -> HoduResult
         DType::F8E5M2 => {
             let values: Vec<F8E5M2> = data
                 .iter()
-                .map(|v| json_to_float(v).map(|f| F8E5M2::from_f32(f as f32)))
+                .map(|v| {
+                    json_to_float(v).map(|f| match f {
+                        // Conversion from f32 saturates, and so do the constants of float8
+                        f64::INFINITY => F8E5M2::from_bits(0x7C),
+                        f64::NEG_INFINITY => F8E5M2::from_bits(0xFC),
+                        f => F8E5M2::from_f32(f as f32),
+                    })
+                })
                 .collect::<HoduResult<Vec<_>>>()?;
             Tensor::from_slice(values, shape)
         },
-- 
2.43.0


From 216117c8bab0b4a260dce76f61e28047d98c0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 61/93] fix: a capture board keeps the tensors of the recorded
 program alive until it is captured

---
 crates/hodu_core/src/snapshot/capture/board.rs | 18 +++++++++++++++++-
 .../hodu_core/src/snapshot/capture/storage.rs  |  5 +++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index 0babdaa..f7a9bbb 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -54,6 +54,8 @@ pub(super) struct CaptureBoard_ {
     pub(super) inputs: Vec<CapturedInput>,
     pub(super) targets: Vec<CapturedTarget>,
     pub(super) ops: Vec<CapturedOp>,
+    /// Tensors the recorded program refers to, kept alive until it is captured
+    pub(super) tensors: Vec<Tensor>,
 }
 
 impl CaptureBoard_ {
@@ -65,6 +67,7 @@ impl CaptureBoard_ {
             dtype: tensor.dtype(),
         };
         self.inputs.push(input);
+        self.tensors.push(tensor);
         Ok(())
     }
 
@@ -74,10 +77,12 @@ impl CaptureBoard_ {
             tensor_id: tensor.id(),
         };
         self.targets.push(target);
+        self.tensors.push(tensor);
     }
 
-    pub(super) fn add_op(&mut self, op: CapturedOp) {
+    pub(super) fn add_op(&mut self, op: CapturedOp, tensors: Vec<Tensor>) {
         self.ops.push(op);
+        self.tensors.extend(tensors);
     }
 }
 
@@ -93,6 +98,7 @@ impl CaptureBoard {
             inputs: Vec::new(),
             targets: Vec::new(),
             ops: Vec::new(),
+            tensors: Vec::new(),
         };
         super::storage::register_board(board);
         Self(id)
@@ -106,6 +112,7 @@ impl CaptureBoard {
             inputs: Vec::new(),
             targets: Vec::new(),
             ops: Vec::new(),
+            tensors: Vec::new(),
         };
         super::storage::register_board(board);
         Self(id)
@@ -323,6 +330,15 @@ impl CaptureBoard {
     }
 }
 
+impl Drop for CaptureBoard {
+    fn drop(&mut self) {
+        if super::storage::active_board_id() == Some(self.0) {
+            self.close();
+        }
+        super::storage::take_board(self.0);
+    }
+}
+
 impl Default for CaptureBoard {
     fn default() -> Self {
         Self::new()
diff --git a/crates/hodu_core/src/snapshot/capture/storage.rs b/crates/hodu_core/src/snapshot/capture/storage.rs
index 69f0f07..d1b344b 100644
--- a/crates/hodu_core/src/snapshot/capture/storage.rs
+++ b/crates/hodu_core/src/snapshot/capture/storage.rs
@@ -2,7 +2,7 @@ use super::board::{CaptureBoardId, CaptureBoard_, CapturedOp};
 use crate::{
     error::{HoduError, HoduResult},
     ops::{Op, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
     types::{Layout, SymbolicLayout},
 };
 use dashmap::DashMap;
@@ -102,6 +102,7 @@ pub fn capture_operation_with_symbolic(
         None => return Ok(()), // No active board, silently skip
     };
 
+    let tensors = input_ids.iter().chain([&output_id]).map(|&id| tensor_from_id(id)).collect();
     let captured = CapturedOp {
         op,
         params,
@@ -113,7 +114,7 @@ pub fn capture_operation_with_symbolic(
     };
 
     if let Some(mut board) = BOARDS.get_mut(&board_id) {
-        board.add_op(captured);
+        board.add_op(captured, tensors);
     }
 
     Ok(())
-- 
2.43.0


From d73004882f2e8434b9896634e582c9fa3673c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 62/93] fix: captured constants that are views of larger
 tensors are read correctly by the recorded operations

---
 .../hodu_core/src/snapshot/capture/board.rs   | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index f7a9bbb..c0799fc 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -5,7 +5,7 @@ use crate::{
     tensor::{Tensor, TensorId},
     types::{DType, Layout, Shape, SymbolicLayout},
 };
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
@@ -149,6 +149,7 @@ impl CaptureBoard {
 
         let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
         let constant_ids = Self::find_constants(&board.inputs, &filtered_ops, &reachable);
+        let filtered_ops = Self::rebase_constants(filtered_ops, &constant_ids);
         let snapshot_constants = Self::extract_constants(constant_ids, offset);
 
         let snapshot_inputs = board
@@ -274,6 +275,33 @@ impl CaptureBoard {
         constant_ids
     }
 
+    /// Constants are saved as contiguous data of their shape, so the layouts of the operations reading them, and of
+    /// the views taken of them, must refer to that data instead of the storage the constant was part of
+    fn rebase_constants(mut ops: Vec<CapturedOp>, constant_ids: &HashSet<TensorId>) -> Vec<CapturedOp> {
+        let mut offsets: HashMap<TensorId, usize> = HashMap::new();
+
+        for op in &mut ops {
+            for (input_id, layout) in op.input_ids.iter().zip(op.input_layouts.iter_mut()) {
+                if constant_ids.contains(input_id) {
+                    offsets.insert(*input_id, layout.offset());
+                    *layout = Layout::from_shape(layout.shape());
+                } else if let Some(offset) = offsets.get(input_id) {
+                    layout.set_offset(layout.offset() - offset);
+                }
+            }
+
+            if matches!(op.op, Op::Shape(_) | Op::ShapeScalars(_)) {
+                // Views are only taken of contiguous tensors, so their strides remain valid
+                if let Some(&offset) = op.input_ids.first().and_then(|id| offsets.get(id)) {
+                    op.output_layout.set_offset(op.output_layout.offset() - offset);
+                    offsets.insert(op.output_id, offset);
+                }
+            }
+        }
+
+        ops
+    }
+
     fn extract_constants(constant_ids: HashSet<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
         fn to_bytes<T>(vec: Vec<T>) -> Vec<u8> {
             let len = vec.len() * core::mem::size_of::<T>();
-- 
2.43.0


From 815c30795fbbbf6b974781e011bbb483d2d57692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 63/93] fix: captured constants are saved in the order of their
 use, including those that are targets themselves

---
 .../hodu_core/src/snapshot/capture/board.rs   | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index c0799fc..dba89e0 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -148,7 +148,7 @@ impl CaptureBoard {
             .collect();
 
         let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
-        let constant_ids = Self::find_constants(&board.inputs, &filtered_ops, &reachable);
+        let constant_ids = Self::find_constants(&board.inputs, &board.targets, &filtered_ops);
         let filtered_ops = Self::rebase_constants(filtered_ops, &constant_ids);
         let snapshot_constants = Self::extract_constants(constant_ids, offset);
 
@@ -254,30 +254,26 @@ impl CaptureBoard {
         }
     }
 
+    /// Tensors the program uses but does not compute, in the order of their first use
     fn find_constants(
         inputs: &[CapturedInput],
+        targets: &[CapturedTarget],
         filtered_ops: &[CapturedOp],
-        reachable: &HashSet<TensorId>,
-    ) -> HashSet<TensorId> {
-        let input_ids: HashSet<_> = inputs.iter().map(|i| i.tensor_id).collect();
-        let op_output_ids: HashSet<_> = filtered_ops.iter().map(|op| op.output_id).collect();
-
-        let mut constant_ids = HashSet::new();
-        for op in filtered_ops {
-            for &input_id in &op.input_ids {
-                if reachable.contains(&input_id) && !input_ids.contains(&input_id) && !op_output_ids.contains(&input_id)
-                {
-                    constant_ids.insert(input_id);
-                }
-            }
-        }
-
-        constant_ids
+    ) -> Vec<TensorId> {
+        let mut known_ids: HashSet<_> = inputs.iter().map(|i| i.tensor_id).collect();
+        known_ids.extend(filtered_ops.iter().map(|op| op.output_id));
+
+        let operand_ids = filtered_ops.iter().flat_map(|op| op.input_ids.iter().copied());
+        let target_ids = targets.iter().map(|t| t.tensor_id);
+        operand_ids
+            .chain(target_ids)
+            .filter(|&id| known_ids.insert(id))
+            .collect()
     }
 
     /// Constants are saved as contiguous data of their shape, so the layouts of the operations reading them, and of
     /// the views taken of them, must refer to that data instead of the storage the constant was part of
-    fn rebase_constants(mut ops: Vec<CapturedOp>, constant_ids: &HashSet<TensorId>) -> Vec<CapturedOp> {
+    fn rebase_constants(mut ops: Vec<CapturedOp>, constant_ids: &[TensorId]) -> Vec<CapturedOp> {
         let mut offsets: HashMap<TensorId, usize> = HashMap::new();
 
         for op in &mut ops {
@@ -302,7 +298,7 @@ impl CaptureBoard {
         ops
     }
 
-    fn extract_constants(constant_ids: HashSet<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
+    fn extract_constants(constant_ids: Vec<TensorId>, offset: usize) -> Vec<crate::snapshot::SnapshotConstant> {
         fn to_bytes<T>(vec: Vec<T>) -> Vec<u8> {
             let len = vec.len() * core::mem::size_of::<T>();
             let ptr = vec.as_ptr() as *const u8;
-- 
2.43.0


From 130458c7e7acebd40f8b1e0457ec00c302fe143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 64/93] fix: secondary outputs of captured topk and unique
 operations are numbered like every other tensor of the snapshot

---
 .../hodu_core/src/snapshot/capture/board.rs   | 35 ++++++++++++++++---
 crates/hodu_core/src/tensor/core.rs           |  4 +++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_core/src/snapshot/capture/board.rs b/crates/hodu_core/src/snapshot/capture/board.rs
index dba89e0..03234ff 100644
--- a/crates/hodu_core/src/snapshot/capture/board.rs
+++ b/crates/hodu_core/src/snapshot/capture/board.rs
@@ -47,6 +47,16 @@ pub struct CapturedOp {
     pub symbolic_output_layout: Option<SymbolicLayout>,
 }
 
+impl CapturedOp {
+    /// All tensors this operation computes, including those only named in its parameters
+    fn output_ids(&self) -> Vec<TensorId> {
+        match &self.params {
+            Some(OpParams::Unique(params)) => vec![self.output_id, params.inverse_id, params.counts_id],
+            _ => vec![self.output_id],
+        }
+    }
+}
+
 /// Internal board data structure stored in global storage
 pub(super) struct CaptureBoard_ {
     pub(super) id: CaptureBoardId,
@@ -144,7 +154,7 @@ impl CaptureBoard {
         let filtered_ops: Vec<_> = board
             .ops
             .into_iter()
-            .filter(|op| reachable.contains(&op.output_id))
+            .filter(|op| op.output_ids().iter().any(|id| reachable.contains(id)))
             .collect();
 
         let offset = Self::compute_id_offset(&board.inputs, &board.targets, &filtered_ops);
@@ -179,7 +189,7 @@ impl CaptureBoard {
 
                 SnapshotNode {
                     op: op.op,
-                    params: op.params,
+                    params: op.params.map(|params| Self::normalize_params(params, offset)),
                     input_ids: op
                         .input_ids
                         .into_iter()
@@ -217,7 +227,7 @@ impl CaptureBoard {
             }
 
             for op in ops {
-                if op.output_id == tensor_id {
+                if op.output_ids().contains(&tensor_id) {
                     for input_id in &op.input_ids {
                         to_visit.push(*input_id);
                     }
@@ -261,7 +271,7 @@ impl CaptureBoard {
         filtered_ops: &[CapturedOp],
     ) -> Vec<TensorId> {
         let mut known_ids: HashSet<_> = inputs.iter().map(|i| i.tensor_id).collect();
-        known_ids.extend(filtered_ops.iter().map(|op| op.output_id));
+        known_ids.extend(filtered_ops.iter().flat_map(|op| op.output_ids()));
 
         let operand_ids = filtered_ops.iter().flat_map(|op| op.input_ids.iter().copied());
         let target_ids = targets.iter().map(|t| t.tensor_id);
@@ -271,6 +281,23 @@ impl CaptureBoard {
             .collect()
     }
 
+    /// Tensor ids in parameters follow the numbering of the snapshot
+    fn normalize_params(params: OpParams, offset: usize) -> OpParams {
+        let normalize = |id: TensorId| TensorId::from_usize(id.as_usize() - offset);
+        match params {
+            OpParams::TopK(mut params) => {
+                params.indices_id = normalize(params.indices_id);
+                OpParams::TopK(params)
+            },
+            OpParams::Unique(mut params) => {
+                params.inverse_id = normalize(params.inverse_id);
+                params.counts_id = normalize(params.counts_id);
+                OpParams::Unique(params)
+            },
+            params => params,
+        }
+    }
+
     /// Constants are saved as contiguous data of their shape, so the layouts of the operations reading them, and of
     /// the views taken of them, must refer to that data instead of the storage the constant was part of
     fn rebase_constants(mut ops: Vec<CapturedOp>, constant_ids: &[TensorId]) -> Vec<CapturedOp> {
diff --git a/crates/hodu_core/src/tensor/core.rs b/crates/hodu_core/src/tensor/core.rs
index 7f970b6..1da1084 100644
--- a/crates/hodu_core/src/tensor/core.rs
+++ b/crates/hodu_core/src/tensor/core.rs
@@ -19,6 +19,10 @@ impl TensorId {
         Self(TENSOR_COUNTER.fetch_add(1, Ordering::Relaxed))
     }
 
+    pub(crate) fn from_usize(id: usize) -> Self {
+        Self(id)
+    }
+
     pub fn as_usize(&self) -> usize {
         self.0
     }
-- 
2.43.0


From 1f171e99a21aa2263c878582b4fe7bf72746c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 65/93] fix: the gradients of det, inv and trace do not release
 the tensors they only read

---
 .../hodu_core/src/tensor/gradient/vjp_linalg.rs  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
index b48f72a..59fbcc6 100644
--- a/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
+++ b/crates/hodu_core/src/tensor/gradient/vjp_linalg.rs
@@ -2,7 +2,7 @@ use super::VjpCompute;
 use crate::{
     error::HoduResult,
     ops::{LinalgOp, OpParams},
-    tensor::{Tensor, TensorId},
+    tensor::{tensor_from_id, Tensor, TensorId},
     types::Shape,
 };
 
@@ -34,9 +34,9 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let det_value = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let det_value = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Compute A^{-1}
                 let inv_a = input.inv()?;
@@ -61,8 +61,8 @@ impl VjpCompute for LinalgOp {
                 // Since output = inv(A), we have:
                 // dL/dA = -output^T @ grad_output @ output^T
 
-                let inv_a = Tensor::from_id(output);
-                let grad = Tensor::from_id(grad_output);
+                let inv_a = tensor_from_id(output);
+                let grad = tensor_from_id(grad_output);
 
                 // Transpose the output (inverse): A^{-T}
                 let inv_a_t = inv_a.transpose(-2, -1)?;
@@ -85,8 +85,8 @@ impl VjpCompute for LinalgOp {
                 // input A: [..., N, N]
                 // result: [..., N, N]
 
-                let input = Tensor::from_id(inputs[0]);
-                let grad = Tensor::from_id(grad_output);
+                let input = tensor_from_id(inputs[0]);
+                let grad = tensor_from_id(grad_output);
 
                 // Get the matrix size from input shape
                 let shape = input.shape();
-- 
2.43.0


From 43ad9f8b1dd6f4790938694e905cd0de84b76463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 66/93] fix: topk can be differentiated when its indices are
 dropped

---
 crates/hodu_core/src/tensor/gradient/compute.rs | 5 +++++
 crates/hodu_core/src/tensor/gradient/tape.rs    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/crates/hodu_core/src/tensor/gradient/compute.rs b/crates/hodu_core/src/tensor/gradient/compute.rs
index a5762bf..8289cf1 100644
--- a/crates/hodu_core/src/tensor/gradient/compute.rs
+++ b/crates/hodu_core/src/tensor/gradient/compute.rs
@@ -35,11 +35,16 @@ pub fn record_operation(input_ids: Vec<TensorId>, output_id: TensorId, op: Op, o
 
     tensor::with_tensor_mut(output_id, |t| t.set_recorded());
 
+    let results = match &op_params {
+        OpParams::TopK(params) => vec![tensor_from_id(params.indices_id)],
+        _ => vec![],
+    };
     let entry = TapeEntry {
         output: tensor_from_id(output_id),
         op,
         op_params,
         inputs: input_ids.into_iter().map(tensor_from_id).collect(),
+        _results: results,
     };
 
     push_entry(context_id, entry)
diff --git a/crates/hodu_core/src/tensor/gradient/tape.rs b/crates/hodu_core/src/tensor/gradient/tape.rs
index 5b2edc1..c78dc0f 100644
--- a/crates/hodu_core/src/tensor/gradient/tape.rs
+++ b/crates/hodu_core/src/tensor/gradient/tape.rs
@@ -16,6 +16,8 @@ pub(super) struct TapeEntry {
     pub op: Op,
     pub op_params: OpParams,
     pub inputs: Vec<Tensor>,
+    /// Further results of the operation that its gradient is computed from
+    pub _results: Vec<Tensor>,
 }
 
 /// Global gradient tape storage (one tape per context)
-- 
2.43.0


From 8e1b8c296805a4c29b3fd68a5b20fa84d7a39b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 67/93] fix: the plugin registry file is replaced as a whole
 and commands that change it do not lose each other's changes

---
 crates/hodu_plugin_runtime/src/registry.rs | 48 ++++++++++++++++++----
 hodu-cli/src/commands/plugin.rs            |  8 ++++
 hodu-cli/src/commands/plugin/install.rs    |  2 +
 3 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/registry.rs b/crates/hodu_plugin_runtime/src/registry.rs
index 660c4c7..cab4dad 100644
--- a/crates/hodu_plugin_runtime/src/registry.rs
+++ b/crates/hodu_plugin_runtime/src/registry.rs
@@ -4,7 +4,9 @@ pub use super::types::{DetectedPluginType, PluginEntry, PluginType};
 use fs2::FileExt;
 use serde::{Deserialize, Serialize};
 use std::fs::OpenOptions;
+use std::io::Write;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 /// Plugin registry stored in ~/.hodu/plugins.json
 #[derive(Debug, Clone, Serialize, Deserialize, Default)]
@@ -15,6 +17,12 @@ pub struct PluginRegistry {
     pub plugins: Vec<PluginEntry>,
 }
 
+/// Exclusive right to change the registry (see [`PluginRegistry::lock`])
+#[derive(Debug)]
+pub struct RegistryLock {
+    _file: std::fs::File,
+}
+
 impl PluginRegistry {
     /// Current schema version
     pub const CURRENT_VERSION: u32 = 1;
@@ -49,8 +57,10 @@ impl PluginRegistry {
         Ok(registry)
     }
 
-    /// Save registry to file with exclusive lock
-    pub fn save(&self, path: &Path) -> Result<(), RegistryError> {
+    /// Keep other processes from changing the registry until the returned lock is dropped
+    ///
+    /// Whoever loads the registry to change and save it holds this lock in between.
+    pub fn lock(path: &Path) -> Result<RegistryLock, RegistryError> {
         // Ensure parent directory exists
         if let Some(parent) = path.parent() {
             std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
@@ -59,19 +69,39 @@ impl PluginRegistry {
         let file = OpenOptions::new()
             .write(true)
             .create(true)
-            .truncate(true)
-            .open(path)
-            .map_err(|e| RegistryError::Io(e.to_string()))?;
+            .truncate(false)
+            .open(path.with_extension("lock"))
+            .map_err(|e| RegistryError::Lock(e.to_string()))?;
 
-        // Acquire exclusive lock for writing
         file.lock_exclusive().map_err(|e| RegistryError::Lock(e.to_string()))?;
 
+        // Lock released when file is dropped
+        Ok(RegistryLock { _file: file })
+    }
+
+    /// Save registry to file
+    ///
+    /// The file is replaced as a whole, so that readers and interrupted saves find the old or the new contents.
+    pub fn save(&self, path: &Path) -> Result<(), RegistryError> {
+        // Ensure parent directory exists
+        if let Some(parent) = path.parent() {
+            std::fs::create_dir_all(parent).map_err(|e| RegistryError::Io(e.to_string()))?;
+        }
+
         let content = serde_json::to_string_pretty(self).map_err(|e| RegistryError::Serialize(e.to_string()))?;
 
-        std::fs::write(path, content).map_err(|e| RegistryError::Io(e.to_string()))?;
+        static SAVES: AtomicUsize = AtomicUsize::new(0);
+        let save = SAVES.fetch_add(1, Ordering::Relaxed);
+        let temp = path.with_extension(format!("tmp.{}.{}", std::process::id(), save));
 
-        // Lock released when file is dropped
-        Ok(())
+        let written = std::fs::File::create(&temp)
+            .and_then(|mut file| file.write_all(content.as_bytes()).and_then(|()| file.sync_all()))
+            .and_then(|()| std::fs::rename(&temp, path));
+
+        written.map_err(|e| {
+            let _ = std::fs::remove_file(&temp);
+            RegistryError::Io(e.to_string())
+        })
     }
 
     /// Get default registry path (~/.hodu/plugins.json)
diff --git a/hodu-cli/src/commands/plugin.rs b/hodu-cli/src/commands/plugin.rs
index e4d2e6e..35dea69 100644
--- a/hodu-cli/src/commands/plugin.rs
+++ b/hodu-cli/src/commands/plugin.rs
@@ -494,6 +494,7 @@ fn do_install(args: InstallArgs) -> Result<(), Box<dyn std::error::Error>> {
 
 fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
     let registry_path = PluginRegistry::default_path()?;
+    let lock = PluginRegistry::lock(&registry_path)?;
     let mut registry = PluginRegistry::load(&registry_path)?;
 
     // Find the plugin
@@ -503,8 +504,10 @@ fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
         let format_name = format!("hodu-format-{}", args.name);
 
         if registry.find(&backend_name).is_some() {
+            drop(lock);
             return remove_plugin(RemoveArgs { name: backend_name });
         } else if registry.find(&format_name).is_some() {
+            drop(lock);
             return remove_plugin(RemoveArgs { name: format_name });
         }
 
@@ -534,6 +537,7 @@ fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
     // Remove from registry
     registry.remove(&name);
     registry.save(&registry_path)?;
+    drop(lock);
 
     output::removed(&format!("{} v{}", name, version));
     Ok(())
@@ -541,6 +545,7 @@ fn remove_plugin(args: RemoveArgs) -> Result<(), Box<dyn std::error::Error>> {
 
 fn enable_plugin(args: EnableArgs) -> Result<(), Box<dyn std::error::Error>> {
     let registry_path = PluginRegistry::default_path()?;
+    let lock = PluginRegistry::lock(&registry_path)?;
     let mut registry = PluginRegistry::load(&registry_path)?;
 
     // Try to find plugin with various name formats
@@ -548,6 +553,7 @@ fn enable_plugin(args: EnableArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     if registry.enable(&name) {
         registry.save(&registry_path)?;
+        drop(lock);
         output::finished(&format!("enabled {}", name));
     } else {
         return Err(format!("Plugin '{}' not found.", args.name).into());
@@ -558,6 +564,7 @@ fn enable_plugin(args: EnableArgs) -> Result<(), Box<dyn std::error::Error>> {
 
 fn disable_plugin(args: DisableArgs) -> Result<(), Box<dyn std::error::Error>> {
     let registry_path = PluginRegistry::default_path()?;
+    let lock = PluginRegistry::lock(&registry_path)?;
     let mut registry = PluginRegistry::load(&registry_path)?;
 
     // Try to find plugin with various name formats
@@ -577,6 +584,7 @@ fn disable_plugin(args: DisableArgs) -> Result<(), Box<dyn std::error::Error>> {
 
     if registry.disable(&name) {
         registry.save(&registry_path)?;
+        drop(lock);
         output::finished(&format!("disabled {}", name));
     } else {
         return Err(format!("Plugin '{}' not found.", args.name).into());
diff --git a/hodu-cli/src/commands/plugin/install.rs b/hodu-cli/src/commands/plugin/install.rs
index 42357de..433530b 100644
--- a/hodu-cli/src/commands/plugin/install.rs
+++ b/hodu-cli/src/commands/plugin/install.rs
@@ -357,6 +357,7 @@ pub fn install_from_path(
 
     // Load registry
     let registry_path = PluginRegistry::default_path()?;
+    let lock = PluginRegistry::lock(&registry_path)?;
     let mut registry = PluginRegistry::load(&registry_path)?;
 
     // Check if already installed
@@ -432,6 +433,7 @@ pub fn install_from_path(
     // Update registry
     registry.upsert(entry);
     registry.save(&registry_path)?;
+    drop(lock);
 
     // Check dependencies after installation
     if !dependencies.is_empty() {
-- 
2.43.0


From 4ab94530ba0ba16b8b090ffd6f6bfd8b0ebf6675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 68/93] fix: a plugin answer of null is an answer

---
 crates/hodu_plugin/src/rpc.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_plugin/src/rpc.rs b/crates/hodu_plugin/src/rpc.rs
index 6f7fb3a..987b948 100644
--- a/crates/hodu_plugin/src/rpc.rs
+++ b/crates/hodu_plugin/src/rpc.rs
@@ -28,13 +28,24 @@ pub struct Request {
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Response {
     pub jsonrpc: String,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    /// A result may be null, which is different from no result
+    #[serde(
+        default,
+        deserialize_with = "deserialize_result",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<RpcError>,
     pub id: RequestId,
 }
 
+fn deserialize_result<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Option<serde_json::Value>, D::Error> {
+    serde_json::Value::deserialize(deserializer).map(Some)
+}
+
 /// JSON-RPC notification message (no id, no response expected)
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Notification {
-- 
2.43.0


From 449355da6545d4578ed27fd0afc392dabdfb5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 69/93] fix: plugin servers do not answer notifications,
 survive invalid UTF-8 and answer invalid requests under their id

---
 hodu-plugin-sdk/src/server.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/hodu-plugin-sdk/src/server.rs b/hodu-plugin-sdk/src/server.rs
index 5553a39..c9a1cc0 100644
--- a/hodu-plugin-sdk/src/server.rs
+++ b/hodu-plugin-sdk/src/server.rs
@@ -162,9 +162,9 @@ impl PluginServer {
         let mut stdout = std::io::stdout();
         let reader = BufReader::new(stdin.lock());
 
-        for line in reader.lines() {
+        for line in reader.split(b'\n') {
             let line = line?;
-            if line.is_empty() {
+            if line.trim_ascii().is_empty() {
                 continue;
             }
 
@@ -179,10 +179,10 @@ impl PluginServer {
         Ok(())
     }
 
-    fn handle_message(&mut self, line: &str) -> Option<Response> {
-        // Parse request
-        let request: Request = match serde_json::from_str(line) {
-            Ok(req) => req,
+    fn handle_message(&mut self, line: &[u8]) -> Option<Response> {
+        // Parse message
+        let message: serde_json::Value = match serde_json::from_slice(line) {
+            Ok(message) => message,
             Err(e) => {
                 return Some(Response::error(
                     RequestId::Number(0),
@@ -191,6 +191,23 @@ impl PluginServer {
             },
         };
 
+        // Notifications are not answered
+        if message.get("method").is_some() && message.get("id").is_none() {
+            return None;
+        }
+
+        // Parse request
+        let id = message.get("id").and_then(|id| serde_json::from_value(id.clone()).ok());
+        let request: Request = match serde_json::from_value(message) {
+            Ok(req) => req,
+            Err(e) => {
+                return Some(Response::error(
+                    id.unwrap_or(RequestId::Number(0)),
+                    RpcError::invalid_request(e.to_string()),
+                ));
+            },
+        };
+
         let id = request.id.clone();
 
         // Handle based on method
-- 
2.43.0


From c30092c9f13427ee62c3fca1160eee8861689f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 70/93] fix: late answers to earlier requests do not fail later
 ones, and malformed protocol versions are not compatible

---
 crates/hodu_plugin_runtime/src/client.rs | 28 +++++++++++++-----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index dd40e43..cb59d17 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -317,11 +317,18 @@ impl PluginClient {
                 continue; // Keep reading for the actual response
             }
 
+            let response: Response = serde_json::from_str(&line).map_err(|e| ClientError::Parse(e.to_string()))?;
+
+            // Skip late answers to requests that timed out, and answers to cancel requests
+            if let RequestId::Number(n) = response.id {
+                if n != id_num && (1..self.next_id.load(Ordering::SeqCst)).contains(&n) {
+                    continue;
+                }
+            }
+
             // It's a response - clear current request ID
             self.current_request_id.store(0, Ordering::SeqCst);
 
-            let response: Response = serde_json::from_str(&line).map_err(|e| ClientError::Parse(e.to_string()))?;
-
             // Verify ID matches
             if response.id != id {
                 return Err(ClientError::IdMismatch);
@@ -380,17 +387,12 @@ pub enum ClientError {
 /// - For 0.x.y: major.minor must match (unstable API)
 /// - For >= 1.0.0: major must match
 fn is_protocol_compatible(v1: &str, v2: &str) -> bool {
-    let parts1: Vec<u32> = v1.split('.').filter_map(|s| s.parse().ok()).collect();
-    let parts2: Vec<u32> = v2.split('.').filter_map(|s| s.parse().ok()).collect();
-
-    let (major1, minor1) = (
-        parts1.first().copied().unwrap_or(0),
-        parts1.get(1).copied().unwrap_or(0),
-    );
-    let (major2, minor2) = (
-        parts2.first().copied().unwrap_or(0),
-        parts2.get(1).copied().unwrap_or(0),
-    );
+    let part = |v: &str, i: usize| v.split('.').nth(i).map_or(Some(0), |s| s.parse::<u32>().ok());
+
+    let (Some(major1), Some(minor1), Some(major2), Some(minor2)) = (part(v1, 0), part(v1, 1), part(v2, 0), part(v2, 1))
+    else {
+        return false;
+    };
 
     if major1 == 0 || major2 == 0 {
         // Pre-1.0: major.minor must match
-- 
2.43.0


From 5271b0c25ac8fdb68bbb49011ad2a1ebf8d1c354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 71/93] fix: cancelling after a request has failed does not
 send a cancellation of it

---
 crates/hodu_plugin_runtime/src/client.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index cb59d17..731b200 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -266,10 +266,21 @@ impl PluginClient {
         R: serde::de::DeserializeOwned,
     {
         let id_num = self.next_id.fetch_add(1, Ordering::SeqCst);
-        let id = RequestId::Number(id_num);
 
         // Track current request ID for cancellation
         self.current_request_id.store(id_num, Ordering::SeqCst);
+        let result = self.exchange(method, params, id_num);
+        self.current_request_id.store(0, Ordering::SeqCst);
+
+        result
+    }
+
+    fn exchange<P, R>(&mut self, method: &str, params: Option<P>, id_num: i64) -> Result<R, ClientError>
+    where
+        P: serde::Serialize,
+        R: serde::de::DeserializeOwned,
+    {
+        let id = RequestId::Number(id_num);
 
         let params_value = params
             .map(|p| serde_json::to_value(p))
@@ -326,9 +337,6 @@ impl PluginClient {
                 }
             }
 
-            // It's a response - clear current request ID
-            self.current_request_id.store(0, Ordering::SeqCst);
-
             // Verify ID matches
             if response.id != id {
                 return Err(ClientError::IdMismatch);
-- 
2.43.0


From 9699a6eb2026138501c013c33f60894d89ba3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 72/93] fix: a data loader with a large seed does not overflow
 when it is reset

---
 crates/hodu_datasets/src/data/dataloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_datasets/src/data/dataloader.rs b/crates/hodu_datasets/src/data/dataloader.rs
index 03d375e..fe91461 100644
--- a/crates/hodu_datasets/src/data/dataloader.rs
+++ b/crates/hodu_datasets/src/data/dataloader.rs
@@ -187,7 +187,7 @@ impl<D: Dataset> DataLoader<D> {
         use rand::rngs::SmallRng;
 
         let length = self.indices.len();
-        let seed_base = self.seed.unwrap_or(0) + self.epoch;
+        let seed_base = self.seed.unwrap_or(0).wrapping_add(self.epoch);
         let mut rng = SmallRng::seed_from_u64(seed_base);
 
         for i in (1..length).rev() {
-- 
2.43.0


From 6f506dbdfca10bef294e7049fb18de1e7f8ce9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 73/93] fix: Adam applies its bias correction once, for the
 right step

---
 crates/hodu_nn/src/optimizers/adam.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_nn/src/optimizers/adam.rs b/crates/hodu_nn/src/optimizers/adam.rs
index 8780329..7640ca9 100644
--- a/crates/hodu_nn/src/optimizers/adam.rs
+++ b/crates/hodu_nn/src/optimizers/adam.rs
@@ -52,16 +52,16 @@ impl Adam {
             let epsilon = self.epsilon.to_dtype(grad.dtype());
             let one = Scalar::one(grad.dtype());
 
+            // Compute bias correction terms: β₁^t and β₂^t
             let mut beta1_t = beta1;
             let mut beta2_t = beta2;
-            for _ in 0..self.t {
+            for _ in 1..self.t {
                 beta1_t = beta1_t * beta1;
                 beta2_t = beta2_t * beta2;
             }
 
             let one_minus_beta1_t = one - beta1_t;
             let one_minus_beta2_t = one - beta2_t;
-            let lr_t = lr * (one_minus_beta2_t.sqrt()) / one_minus_beta1_t;
 
             let one_minus_beta1 = one - beta1;
             let one_minus_beta2 = one - beta2;
@@ -78,7 +78,7 @@ impl Adam {
 
             // Update parameters
             let step = m_hat.div(&v_hat.sqrt()?.add_scalar(epsilon)?)?;
-            param.set_(&param.sub(&step.mul_scalar(lr_t)?)?)?;
+            param.set_(&param.sub(&step.mul_scalar(lr)?)?)?;
         }
 
         Ok(())
-- 
2.43.0


From ffe39c9914e52d5c6480b267476209b7680f79d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 74/93] fix: Adagrad's initial accumulator takes the type of
 the parameter

---
 crates/hodu_nn/src/optimizers/adagrad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/optimizers/adagrad.rs b/crates/hodu_nn/src/optimizers/adagrad.rs
index 08f5dd2..d4d4ab1 100644
--- a/crates/hodu_nn/src/optimizers/adagrad.rs
+++ b/crates/hodu_nn/src/optimizers/adagrad.rs
@@ -65,7 +65,7 @@ impl Adagrad {
             } else {
                 self.v = parameters
                     .iter()
-                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value))
+                    .map(|param| Tensor::full_like(param, self.initial_accumulator_value.to_dtype(param.dtype())))
                     .collect::<HoduResult<Vec<_>>>()?;
             }
         }
-- 
2.43.0


From 65b317bfd7964db5f63103b654fcc1efa0747986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 75/93] fix: Adam and AdamW compute 1 - beta in a type in which
 it is not zero

---
 crates/hodu_nn/src/optimizers/adam.rs | 49 ++++++++++++++++++---------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/crates/hodu_nn/src/optimizers/adam.rs b/crates/hodu_nn/src/optimizers/adam.rs
index 7640ca9..2da8ce1 100644
--- a/crates/hodu_nn/src/optimizers/adam.rs
+++ b/crates/hodu_nn/src/optimizers/adam.rs
@@ -1,5 +1,14 @@
 use crate::optimizer::Optimizer;
-use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
+use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor, types::DType};
+
+/// The type in which the coefficients of the moving averages are computed.
+fn coefficient_dtype(dtype: DType) -> DType {
+    match dtype {
+        #[cfg(feature = "f64")]
+        DType::F64 => DType::F64,
+        _ => DType::F32,
+    }
+}
 
 #[derive(Optimizer, Clone)]
 pub struct Adam {
@@ -47,10 +56,12 @@ impl Adam {
         for ((param, m), v) in parameters.iter().zip(self.m.iter_mut()).zip(self.v.iter_mut()) {
             let grad = param.grad()?;
             let lr = self.learning_rate.to_dtype(grad.dtype());
-            let beta1 = self.beta1.to_dtype(grad.dtype());
-            let beta2 = self.beta2.to_dtype(grad.dtype());
+            // 1 - β rounds to zero in a 16-bit type, so the coefficients are computed in a wider one
+            let coef_dtype = coefficient_dtype(grad.dtype());
+            let beta1 = self.beta1.to_dtype(coef_dtype);
+            let beta2 = self.beta2.to_dtype(coef_dtype);
             let epsilon = self.epsilon.to_dtype(grad.dtype());
-            let one = Scalar::one(grad.dtype());
+            let one = Scalar::one(coef_dtype);
 
             // Compute bias correction terms: β₁^t and β₂^t
             let mut beta1_t = beta1;
@@ -60,11 +71,13 @@ impl Adam {
                 beta2_t = beta2_t * beta2;
             }
 
-            let one_minus_beta1_t = one - beta1_t;
-            let one_minus_beta2_t = one - beta2_t;
+            let one_minus_beta1_t = (one - beta1_t).to_dtype(grad.dtype());
+            let one_minus_beta2_t = (one - beta2_t).to_dtype(grad.dtype());
 
-            let one_minus_beta1 = one - beta1;
-            let one_minus_beta2 = one - beta2;
+            let one_minus_beta1 = (one - beta1).to_dtype(grad.dtype());
+            let one_minus_beta2 = (one - beta2).to_dtype(grad.dtype());
+
+            let (beta1, beta2) = (beta1.to_dtype(grad.dtype()), beta2.to_dtype(grad.dtype()));
 
             // Update biased first moment estimate
             *m = m.mul_scalar(beta1)?.add(&grad.mul_scalar(one_minus_beta1)?)?;
@@ -141,11 +154,13 @@ impl AdamW {
 
             // Convert scalars to match gradient dtype
             let lr = self.learning_rate.to_dtype(grad.dtype());
-            let beta1 = self.beta1.to_dtype(grad.dtype());
-            let beta2 = self.beta2.to_dtype(grad.dtype());
+            // 1 - β rounds to zero in a 16-bit type, so the coefficients are computed in a wider one
+            let coef_dtype = coefficient_dtype(grad.dtype());
+            let beta1 = self.beta1.to_dtype(coef_dtype);
+            let beta2 = self.beta2.to_dtype(coef_dtype);
             let epsilon = self.epsilon.to_dtype(grad.dtype());
             let weight_decay = self.weight_decay.to_dtype(grad.dtype());
-            let one = Scalar::one(grad.dtype());
+            let one = Scalar::one(coef_dtype);
 
             // Compute bias correction terms: β₁^t and β₂^t
             let mut beta1_t = beta1;
@@ -155,10 +170,12 @@ impl AdamW {
                 beta2_t = beta2_t * beta2;
             }
 
-            let one_minus_beta1 = one - beta1;
-            let one_minus_beta2 = one - beta2;
-            let one_minus_beta1_t = one - beta1_t;
-            let one_minus_beta2_t = one - beta2_t;
+            let one_minus_beta1 = (one - beta1).to_dtype(grad.dtype());
+            let one_minus_beta2 = (one - beta2).to_dtype(grad.dtype());
+            let one_minus_beta1_t = (one - beta1_t).to_dtype(grad.dtype());
+            let one_minus_beta2_t = (one - beta2_t).to_dtype(grad.dtype());
+
+            let (beta1, beta2) = (beta1.to_dtype(grad.dtype()), beta2.to_dtype(grad.dtype()));
 
             // Update biased first moment estimate: m_t = β₁ * m_{t-1} + (1 - β₁) * g_t
             *m = m.mul_scalar(beta1)?.add(&grad.mul_scalar(one_minus_beta1)?)?;
@@ -177,7 +194,7 @@ impl AdamW {
 
             // AdamW: Decoupled weight decay
             // First apply weight decay: θ = θ * (1 - lr * weight_decay)
-            let decay_factor = one - lr * weight_decay;
+            let decay_factor = Scalar::one(grad.dtype()) - lr * weight_decay;
             let decayed_param = param.mul_scalar(decay_factor)?;
 
             // Then apply adaptive gradient update: θ = θ - lr * m̂ / (√v̂ + ε)
-- 
2.43.0


From 84b55ae932cf4e897b6c62d4c4c18cfaf99d4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 76/93] fix: train! and eval! can be used outside the crate

---
 crates/hodu_nn/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/hodu_nn/src/lib.rs b/crates/hodu_nn/src/lib.rs
index 02c167d..d77bd7c 100644
--- a/crates/hodu_nn/src/lib.rs
+++ b/crates/hodu_nn/src/lib.rs
@@ -38,18 +38,18 @@ pub use optimizers::{
     sgd::SGD,
 };
 
-pub(crate) mod state {
+#[doc(hidden)]
+pub mod state {
     use std::sync::Mutex;
 
     #[derive(Debug, Clone, Copy, PartialEq)]
-    pub(crate) enum State {
+    pub enum State {
         Training,
         Evaluation,
     }
 
     static STATE: Mutex<State> = Mutex::new(State::Training);
 
-    #[allow(dead_code)]
     pub fn set_state(new_state: State) {
         *STATE.lock().unwrap() = new_state;
     }
@@ -63,7 +63,7 @@ pub(crate) mod state {
 #[macro_export]
 macro_rules! train {
     () => {
-        state::set_state(state::State::Training);
+        $crate::state::set_state($crate::state::State::Training);
     };
 }
 
@@ -71,6 +71,6 @@ macro_rules! train {
 #[macro_export]
 macro_rules! eval {
     () => {
-        state::set_state(state::State::Evaluation);
+        $crate::state::set_state($crate::state::State::Evaluation);
     };
 }
-- 
2.43.0


From ec6f405bea34beeaba38852bbdfd8481bc232eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 77/93] fix: asking Dropout or a loss for its parameters does
 not recurse without end

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs | 8 ++++++++
 crates/hodu_nn/src/losses/cosine_embedding.rs     | 4 ++++
 crates/hodu_nn/src/losses/cross_entropy.rs        | 4 ++++
 crates/hodu_nn/src/losses/huber.rs                | 4 ++++
 crates/hodu_nn/src/losses/kl_div.rs               | 4 ++++
 crates/hodu_nn/src/losses/mae.rs                  | 4 ++++
 crates/hodu_nn/src/losses/mse.rs                  | 4 ++++
 crates/hodu_nn/src/losses/nll.rs                  | 4 ++++
 crates/hodu_nn/src/losses/smooth_l1.rs            | 4 ++++
 crates/hodu_nn/src/modules/dropout.rs             | 4 ++++
 10 files changed, 44 insertions(+)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index c428128..3eb870d 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -51,6 +51,10 @@ impl BCELoss {
         // Mean over all elements
         bce.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
 
 #[derive(Module, Clone, Default)]
@@ -81,4 +85,8 @@ impl BCEWithLogitsLoss {
         // Mean over all elements
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index 083351f..f676ebe 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -72,4 +72,8 @@ impl CosineEmbeddingLoss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index 6199563..eb1442f 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -46,4 +46,8 @@ impl CrossEntropyLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index c642eea..51d4bcf 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -35,4 +35,8 @@ impl HuberLoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 12a5762..7592d30 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -51,4 +51,8 @@ impl KLDivLoss {
 
         loss.sum_all()?.div_scalar(input.shape()[0] as f32)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 8c52593..856f0ad 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -20,4 +20,8 @@ impl MAELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/mse.rs b/crates/hodu_nn/src/losses/mse.rs
index f314773..8bd258c 100644
--- a/crates/hodu_nn/src/losses/mse.rs
+++ b/crates/hodu_nn/src/losses/mse.rs
@@ -20,4 +20,8 @@ impl MSELoss {
 
         Ok(mean)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 8a32680..328c418 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -43,4 +43,8 @@ impl NLLLoss {
         // Mean over batch
         nll.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index 715157e..acc5f8e 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -53,4 +53,8 @@ impl SmoothL1Loss {
 
         loss.mean_all()
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index c70e039..6aa088a 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -26,4 +26,8 @@ impl Dropout {
 
         input.mul(&scaled_mask)
     }
+
+    fn parameters(&self) -> Vec<&Tensor> {
+        vec![]
+    }
 }
-- 
2.43.0


From 03643570ca2f702cc760be03595daf8881271065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 78/93] fix: Huber loss works, and averages over all elements

---
 crates/hodu_nn/src/losses/huber.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_nn/src/losses/huber.rs b/crates/hodu_nn/src/losses/huber.rs
index 51d4bcf..7d463ae 100644
--- a/crates/hodu_nn/src/losses/huber.rs
+++ b/crates/hodu_nn/src/losses/huber.rs
@@ -14,26 +14,25 @@ impl HuberLoss {
 
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         let diff = pred.sub(target)?;
+        let delta = self.delta.to_dtype(diff.dtype());
         let abs_diff = diff.abs()?;
 
         let quadratic_loss = diff
             .pow_scalar(Scalar::from_f32(2.0, diff.dtype()))?
             .div_scalar(Scalar::from_f32(2.0, diff.dtype()))?;
         let linear_loss = abs_diff
-            .mul_scalar(self.delta)?
-            .sub_scalar(self.delta.powi(2) / Scalar::from_f32(2.0, self.delta.dtype()))?;
+            .mul_scalar(delta)?
+            .sub_scalar(delta.powi(2) / Scalar::from_f32(2.0, delta.dtype()))?;
 
-        let mask = abs_diff.le_scalar(self.delta)?;
+        let mask = abs_diff.le_scalar(delta)?;
+        let quadratic_mask = mask.to_dtype(diff.dtype())?;
+        let linear_mask = mask.logical_not()?.to_dtype(diff.dtype())?;
 
-        let loss = mask
+        let loss = quadratic_mask
             .mul(&quadratic_loss)?
-            .add(&mask.logical_not()?.mul(&linear_loss)?)?;
+            .add(&linear_mask.mul(&linear_loss)?)?;
 
-        let pred_shape = pred.shape();
-        let batch_size = Scalar::from_f32(pred_shape[0] as f32, diff.dtype());
-        let mean = loss.sum_all()?.div_scalar(batch_size)?;
-
-        Ok(mean)
+        loss.mean_all()
     }
 
     fn parameters(&self) -> Vec<&Tensor> {
-- 
2.43.0


From 8faac12bc00b010c786780255d71075d040fda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 79/93] fix: smooth L1 loss does not multiply booleans with
 floats

---
 crates/hodu_nn/src/losses/smooth_l1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/losses/smooth_l1.rs b/crates/hodu_nn/src/losses/smooth_l1.rs
index acc5f8e..56e493c 100644
--- a/crates/hodu_nn/src/losses/smooth_l1.rs
+++ b/crates/hodu_nn/src/losses/smooth_l1.rs
@@ -49,7 +49,9 @@ impl SmoothL1Loss {
 
         // Select based on condition: |x - y| < beta
         let mask = abs_diff.lt_scalar(beta)?;
-        let loss = mask.mul(&quadratic)?.add(&mask.logical_not()?.mul(&linear)?)?;
+        let quadratic_mask = mask.to_dtype(dtype)?;
+        let linear_mask = mask.logical_not()?.to_dtype(dtype)?;
+        let loss = quadratic_mask.mul(&quadratic)?.add(&linear_mask.mul(&linear)?)?;
 
         loss.mean_all()
     }
-- 
2.43.0


From 846dd98b5876d65c3a4bc9fd81404792a72d393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 80/93] fix: cosine embedding loss does not multiply booleans
 with floats

---
 crates/hodu_nn/src/losses/cosine_embedding.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_nn/src/losses/cosine_embedding.rs b/crates/hodu_nn/src/losses/cosine_embedding.rs
index f676ebe..512d509 100644
--- a/crates/hodu_nn/src/losses/cosine_embedding.rs
+++ b/crates/hodu_nn/src/losses/cosine_embedding.rs
@@ -66,9 +66,11 @@ impl CosineEmbeddingLoss {
         // mask = (y == 1)
         let mask = y.eq_scalar(one)?;
 
-        let loss = mask
+        let positive_mask = mask.to_dtype(dtype)?;
+        let negative_mask = mask.logical_not()?.to_dtype(dtype)?;
+        let loss = positive_mask
             .mul(&loss_positive)?
-            .add(&mask.logical_not()?.mul(&loss_negative)?)?;
+            .add(&negative_mask.mul(&loss_negative)?)?;
 
         loss.mean_all()
     }
-- 
2.43.0


From 42df53ca0f8f927d75832b69acf85d1291e852d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 81/93] fix: MAE loss works, and averages over all elements

---
 crates/hodu_nn/src/losses/mae.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_nn/src/losses/mae.rs b/crates/hodu_nn/src/losses/mae.rs
index 856f0ad..5381e03 100644
--- a/crates/hodu_nn/src/losses/mae.rs
+++ b/crates/hodu_nn/src/losses/mae.rs
@@ -1,5 +1,5 @@
 use crate::module::Module;
-use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
+use hodu_core::{error::HoduResult, tensor::Tensor};
 
 #[derive(Module, Clone, Default)]
 #[module(inputs = 2)]
@@ -14,11 +14,7 @@ impl MAELoss {
         let diff = pred.sub(target)?;
         let abs_diff = diff.abs()?;
 
-        let pred_shape = pred.shape();
-        let batch_size = Scalar::new(pred_shape[0]);
-        let mean = abs_diff.sum_all()?.div_scalar(batch_size)?;
-
-        Ok(mean)
+        abs_diff.mean_all()
     }
 
     fn parameters(&self) -> Vec<&Tensor> {
-- 
2.43.0


From c69272f264014a152fb8260615bdf18b097486e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 82/93] fix: BCE loss takes its epsilon in the type of the
 predictions

---
 crates/hodu_nn/src/losses/binary_cross_entropy.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_nn/src/losses/binary_cross_entropy.rs b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
index 3eb870d..98d4608 100644
--- a/crates/hodu_nn/src/losses/binary_cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/binary_cross_entropy.rs
@@ -29,8 +29,9 @@ impl BCELoss {
     fn forward(&self, (pred, target): (&Tensor, &Tensor)) -> HoduResult<Tensor> {
         // Clamp predictions to avoid log(0)
         // pred_clamped = clamp(pred, epsilon, 1 - epsilon)
-        let one_minus_eps_scalar = Scalar::one(self.epsilon.dtype()) - self.epsilon;
-        let pred_clamped = pred.clamp(self.epsilon, one_minus_eps_scalar)?;
+        let epsilon = self.epsilon.to_dtype(pred.dtype());
+        let one_minus_eps_scalar = Scalar::one(pred.dtype()) - epsilon;
+        let pred_clamped = pred.clamp(epsilon, one_minus_eps_scalar)?;
 
         // BCE = -[target * log(pred) + (1 - target) * log(1 - pred)]
 
-- 
2.43.0


From 8ca951948cd85e5f8a331bb1dde270d70d07ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 83/93] fix: KL divergence loss divides by a batch size of its
 own type

---
 crates/hodu_nn/src/losses/kl_div.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 7592d30..8f0e37b 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -1,5 +1,5 @@
 use crate::module::Module;
-use hodu_core::{error::HoduResult, tensor::Tensor};
+use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor};
 
 /// Kullback-Leibler Divergence Loss.
 ///
@@ -49,7 +49,8 @@ impl KLDivLoss {
             target_log_target.sub(&target_input)?
         };
 
-        loss.sum_all()?.div_scalar(input.shape()[0] as f32)
+        let batch_size = Scalar::from_f32(input.shape()[0] as f32, loss.dtype());
+        loss.sum_all()?.div_scalar(batch_size)
     }
 
     fn parameters(&self) -> Vec<&Tensor> {
-- 
2.43.0


From 166024bf1d53993441e907d35bf038c5253e5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 84/93] fix: the running statistics of batch normalisation do
 not keep every batch and its gradients alive

---
 crates/hodu_nn/src/modules/norm.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_nn/src/modules/norm.rs b/crates/hodu_nn/src/modules/norm.rs
index 9712679..2caa1f3 100644
--- a/crates/hodu_nn/src/modules/norm.rs
+++ b/crates/hodu_nn/src/modules/norm.rs
@@ -3,6 +3,14 @@ use crate::state::{get_state, State};
 use hodu_core::{error::HoduResult, scalar::Scalar, tensor::Tensor, types::DType};
 use std::cell::RefCell;
 
+/// The value of a tensor without its history, so that running statistics do not keep
+/// every batch they were computed from alive or let gradients flow into them.
+fn detached(tensor: &Tensor) -> HoduResult<Tensor> {
+    let result = Tensor::zeros_like(tensor)?;
+    result.set_(tensor)?;
+    Ok(result)
+}
+
 #[derive(Module, Clone)]
 pub struct BatchNorm1D {
     num_features: usize,
@@ -102,8 +110,8 @@ impl BatchNorm1D {
                     .mul_scalar(momentum_typed)?
                     .add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;
 
-                *rm = new_mean;
-                *rv = new_var;
+                *rm = detached(&new_mean)?;
+                *rv = detached(&new_var)?;
             }
 
             // Normalize
@@ -268,8 +276,8 @@ impl BatchNorm2D {
                     .mul_scalar(momentum_typed)?
                     .add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;
 
-                *rm = new_mean;
-                *rv = new_var;
+                *rm = detached(&new_mean)?;
+                *rv = detached(&new_var)?;
             }
 
             let normalized = self.normalize(input, &mean, &var)?;
@@ -410,8 +418,8 @@ impl BatchNorm3D {
                     .mul_scalar(momentum_typed)?
                     .add(&var_squeezed.mul_scalar(one_minus_momentum)?)?;
 
-                *rm = new_mean;
-                *rv = new_var;
+                *rm = detached(&new_mean)?;
+                *rv = detached(&new_var)?;
             }
 
             let normalized = self.normalize(input, &mean, &var)?;
-- 
2.43.0


From 49a685b4a30d7caa4956adacec7f46e3073f6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 85/93] fix: dropout works for all float types and for p = 1

---
 crates/hodu_nn/src/modules/dropout.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/hodu_nn/src/modules/dropout.rs b/crates/hodu_nn/src/modules/dropout.rs
index 6aa088a..afa9757 100644
--- a/crates/hodu_nn/src/modules/dropout.rs
+++ b/crates/hodu_nn/src/modules/dropout.rs
@@ -19,9 +19,16 @@ impl Dropout {
         }
 
         // Training mode: apply dropout
-        let random = Tensor::rand_uniform_like(input, 0.0, 1.0)?;
-        let mask = random.gt_scalar(self.p)?.to_dtype(input.dtype())?;
-        let scale = 1.0 / (1.0 - self.p.to_f32());
+        let random = Tensor::rand_uniform_like(input, Scalar::zero(input.dtype()), Scalar::one(input.dtype()))?;
+        let p = self.p.to_dtype(input.dtype());
+        let mask = random.ge_scalar(p)?.to_dtype(input.dtype())?;
+        // With p = 1 everything is dropped and there is nothing to scale
+        let scale = if self.p.to_f32() < 1.0 {
+            let one = Scalar::one(self.p.dtype());
+            (one / (one - self.p)).to_dtype(input.dtype())
+        } else {
+            Scalar::zero(input.dtype())
+        };
         let scaled_mask = mask.mul_scalar(scale)?;
 
         input.mul(&scaled_mask)
-- 
2.43.0


From 1962e89bc58d0055ca56eef15b798d2accea35e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 86/93] fix: attention works for all float types and with
 boolean masks

---
 crates/hodu_nn/src/modules/attention.rs | 27 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/hodu_nn/src/modules/attention.rs b/crates/hodu_nn/src/modules/attention.rs
index c083b92..a749e9c 100644
--- a/crates/hodu_nn/src/modules/attention.rs
+++ b/crates/hodu_nn/src/modules/attention.rs
@@ -31,7 +31,7 @@ pub fn scaled_dot_product_attention(
     is_causal: bool,
 ) -> HoduResult<Tensor> {
     let d_k = query.shape().last().unwrap_or(1) as f64;
-    let scale = 1.0 / d_k.sqrt();
+    let scale = scalar_of(1.0 / d_k.sqrt(), query.dtype());
 
     // QK^T / sqrt(d_k)
     let attn_weights = query.matmul(&key.transpose(-2, -1)?)?.mul_scalar(scale)?;
@@ -50,7 +50,7 @@ pub fn scaled_dot_product_attention(
     // Apply attention mask if provided (0 = mask out, 1 = attend)
     let attn_weights = if let Some(mask) = attn_mask {
         let neg_inf = get_neg_inf(query.dtype());
-        attn_weights.masked_fill(&mask.eq_scalar(0.0)?, neg_inf)?
+        attn_weights.masked_fill(&mask.logical_not()?, neg_inf)?
     } else {
         attn_weights
     };
@@ -82,22 +82,33 @@ fn create_causal_mask(seq_len_q: usize, seq_len_k: usize) -> HoduResult<Tensor>
 }
 
 /// Get negative infinity for masking based on dtype
-fn get_neg_inf(dtype: DType) -> f64 {
-    match dtype {
+fn get_neg_inf(dtype: DType) -> Scalar {
+    let value = match dtype {
         DType::F32 => f32::NEG_INFINITY as f64,
         #[cfg(feature = "f64")]
         DType::F64 => f64::NEG_INFINITY,
         DType::F16 | DType::BF16 => -65504.0,
         _ => -1e9,
+    };
+    scalar_of(value, dtype)
+}
+
+/// A scalar in the dtype of the tensors it is combined with
+fn scalar_of(value: f64, dtype: DType) -> Scalar {
+    match dtype {
+        #[cfg(feature = "f64")]
+        DType::F64 => Scalar::F64(value),
+        _ => Scalar::from_f32(value as f32, dtype),
     }
 }
 
 /// Apply dropout to tensor
 fn apply_dropout(x: &Tensor, p: f64) -> HoduResult<Tensor> {
-    let random = Tensor::rand_uniform_like(x, 0.0, 1.0)?;
-    let mask = random.gt_scalar(p)?.to_dtype(x.dtype())?;
-    let scale = 1.0 / (1.0 - p);
-    let scaled_mask = mask.mul_scalar(scale)?;
+    let random = Tensor::rand_uniform_like(x, Scalar::zero(x.dtype()), Scalar::one(x.dtype()))?;
+    let mask = random.ge_scalar(scalar_of(p, x.dtype()))?.to_dtype(x.dtype())?;
+    // With p = 1 everything is dropped and there is nothing to scale
+    let scale = if p < 1.0 { 1.0 / (1.0 - p) } else { 0.0 };
+    let scaled_mask = mask.mul_scalar(scalar_of(scale, x.dtype()))?;
     x.mul(&scaled_mask)
 }
 
-- 
2.43.0


From 75b87cfe595bb3cb7a00f9ddb5bf01c90ba3dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 87/93] fix: an embedding with a padding index can be used

---
 crates/hodu_nn/src/modules/embedding.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index 8ccdc28..ee889d6 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -150,7 +150,7 @@ impl Embedding {
     fn handle_padding_idx(&self, embeddings: &Tensor, indices: &Tensor, padding_idx: usize) -> HoduResult<Tensor> {
         // Create a mask where padding indices are marked
         // mask = (indices == padding_idx)
-        let padding_idx_scalar = Scalar::from_f32(padding_idx as f32, indices.dtype());
+        let padding_idx_scalar = Scalar::from_usize(padding_idx, indices.dtype());
         let padding_idx_tensor = Tensor::full(indices.shape(), padding_idx_scalar)?;
 
         // mask: [num_indices], true where index == padding_idx
@@ -165,7 +165,7 @@ impl Embedding {
         let zero = Tensor::zeros(mask.shape(), embeddings.dtype())?;
 
         // Convert bool mask to float: where(mask, 0.0, 1.0)
-        let float_mask = mask.where3(&zero, &one)?;
+        let float_mask = zero.where3(&mask, &one)?;
 
         // Apply mask
         embeddings.mul(&float_mask)
-- 
2.43.0


From 37044718dd6b88438bc6ffd7479ac44e7246cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 88/93] fix: the norm of an embedding is taken along its last
 dimension

---
 crates/hodu_nn/src/modules/embedding.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/hodu_nn/src/modules/embedding.rs b/crates/hodu_nn/src/modules/embedding.rs
index ee889d6..ab39126 100644
--- a/crates/hodu_nn/src/modules/embedding.rs
+++ b/crates/hodu_nn/src/modules/embedding.rs
@@ -126,17 +126,15 @@ impl Embedding {
     fn apply_max_norm(&self, embeddings: &Tensor, max_norm: Scalar) -> HoduResult<Tensor> {
         // Compute L2 norm along the embedding dimension (last dimension)
         // embeddings shape: [num_indices, embedding_dim]
-        let embedding_dim = embeddings.shape().last().unwrap();
-
         // squared_sum = sum(x^2, dim=-1, keepdim=true)
         let squared = embeddings.mul(embeddings)?;
-        let squared_sum = squared.sum(&[embedding_dim - 1], true)?;
+        let squared_sum = squared.sum(&[-1], true)?;
 
         // norm = sqrt(squared_sum)
         let norm = squared_sum.sqrt()?;
 
         // scale = min(max_norm / norm, 1.0)
-        let max_norm_tensor = Tensor::full(norm.shape(), max_norm)?;
+        let max_norm_tensor = Tensor::full(norm.shape(), max_norm.to_dtype(embeddings.dtype()))?;
         let scale = max_norm_tensor.div(&norm)?;
 
         // Clamp scale to maximum of 1.0
-- 
2.43.0


From 67b41aaa5ce6176ee514229f72271e08397e08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 89/93] fix: cross entropy and NLL losses pick the class along
 the dimension they were given

---
 crates/hodu_nn/src/losses/cross_entropy.rs | 6 +++---
 crates/hodu_nn/src/losses/nll.rs           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/hodu_nn/src/losses/cross_entropy.rs b/crates/hodu_nn/src/losses/cross_entropy.rs
index eb1442f..f883edc 100644
--- a/crates/hodu_nn/src/losses/cross_entropy.rs
+++ b/crates/hodu_nn/src/losses/cross_entropy.rs
@@ -31,14 +31,14 @@ impl CrossEntropyLoss {
         let gather_dim = if self.dim < 0 { rank + self.dim } else { self.dim };
 
         // Gather the log probabilities for the correct classes
-        // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        // target shape: [...] -> unsqueeze to [..., 1, ...] at gather_dim
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim as i64, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
diff --git a/crates/hodu_nn/src/losses/nll.rs b/crates/hodu_nn/src/losses/nll.rs
index 328c418..9047f0e 100644
--- a/crates/hodu_nn/src/losses/nll.rs
+++ b/crates/hodu_nn/src/losses/nll.rs
@@ -28,14 +28,14 @@ impl NLLLoss {
         let gather_dim = if self.dim < 0 { rank + self.dim } else { self.dim };
 
         // Gather the log probabilities for the correct classes
-        // target shape: [...] -> unsqueeze to [..., 1] at gather_dim
-        let target_unsqueezed = target.unsqueeze(-1)?;
+        // target shape: [...] -> unsqueeze to [..., 1, ...] at gather_dim
+        let target_unsqueezed = target.unsqueeze(gather_dim)?;
 
         // Gather along class dimension
         let gathered = log_probs.gather(gather_dim, &target_unsqueezed)?;
 
         // Remove the extra dimension
-        let gathered_squeezed = gathered.squeeze(&[-1])?;
+        let gathered_squeezed = gathered.squeeze(&[gather_dim])?;
 
         // Negative log likelihood
         let nll = gathered_squeezed.neg()?;
-- 
2.43.0


From e2ea57f507bbb457da587b2b62a79a85df8b759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 90/93] fix: RReLU draws its slopes in the type of its input

---
 crates/hodu_nn/src/modules/activation.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/hodu_nn/src/modules/activation.rs b/crates/hodu_nn/src/modules/activation.rs
index 1f6bdda..5916172 100644
--- a/crates/hodu_nn/src/modules/activation.rs
+++ b/crates/hodu_nn/src/modules/activation.rs
@@ -225,9 +225,7 @@ impl RReLU {
         // Compute alpha based on training/evaluation mode
         let alpha = if get_state() == State::Training {
             // Training mode: use random alpha for each element
-            let lower_f32 = self.lower.to_f32();
-            let upper_f32 = self.upper.to_f32();
-            Tensor::rand_uniform_like(input, lower_f32, upper_f32)?
+            Tensor::rand_uniform_like(input, self.lower.to_dtype(dtype), self.upper.to_dtype(dtype))?
         } else {
             // Evaluation mode: use average of lower and upper bounds
             let avg = (self.lower.to_f32() + self.upper.to_f32()) / 2.0;
-- 
2.43.0


From e4613c71bc5296131b6e4e4498d5726a529052a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 91/93] fix: KL divergence loss takes a target probability of
 zero as contributing nothing

---
 crates/hodu_nn/src/losses/kl_div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/hodu_nn/src/losses/kl_div.rs b/crates/hodu_nn/src/losses/kl_div.rs
index 8f0e37b..e64898d 100644
--- a/crates/hodu_nn/src/losses/kl_div.rs
+++ b/crates/hodu_nn/src/losses/kl_div.rs
@@ -44,7 +44,10 @@ impl KLDivLoss {
             // KL = target * (log(target) - input)
             // To handle target=0, we use: target * log(target) - target * input
             // where target * log(target) = 0 when target = 0 (by convention)
-            let target_log_target = target.mul(&target.ln()?)?;
+            let is_zero = target
+                .eq_scalar(Scalar::zero(target.dtype()))?
+                .to_dtype(target.dtype())?;
+            let target_log_target = target.mul(&target.add(&is_zero)?.ln()?)?;
             let target_input = target.mul(input)?;
             target_log_target.sub(&target_input)?
         };
-- 
2.43.0


From bbf8b1a8fa64223dac0199ab2e1f9d402c71a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 92/93] fix: plugin managers start plugins that have ended
 again, and leave none behind that fails to start or to stop

---
 crates/hodu_plugin_runtime/src/backend.rs | 20 +++++++++++++++++---
 crates/hodu_plugin_runtime/src/client.rs  | 23 ++++++++++++++++++++++-
 crates/hodu_plugin_runtime/src/format.rs  | 20 +++++++++++++++++---
 hodu-cli/src/plugins/process.rs           | 20 +++++++++++++++++---
 4 files changed, 73 insertions(+), 10 deletions(-)

diff --git a/crates/hodu_plugin_runtime/src/backend.rs b/crates/hodu_plugin_runtime/src/backend.rs
index 0826ab9..19eb855 100644
--- a/crates/hodu_plugin_runtime/src/backend.rs
+++ b/crates/hodu_plugin_runtime/src/backend.rs
@@ -61,6 +61,13 @@ impl PluginManager {
 
     /// Get or spawn a backend plugin by name
     pub fn get_plugin(&mut self, name: &str) -> Result<&mut PluginClient, ManagerError> {
+        // A plugin that has ended since is started again
+        if let Some(managed) = self.processes.get_mut(name) {
+            if !matches!(managed.child.try_wait(), Ok(None)) {
+                self.processes.remove(name);
+            }
+        }
+
         // Check if already running
         if self.processes.contains_key(name) {
             return Ok(&mut self
@@ -124,7 +131,15 @@ impl PluginManager {
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
+        let info = match client.initialize() {
+            Ok(info) => info,
+            Err(e) => {
+                // Do not leave a plugin behind that cannot be used
+                let _ = child.kill();
+                let _ = child.wait();
+                return Err(ManagerError::Client(e));
+            },
+        };
 
         Ok(ManagedPlugin { child, client, info })
     }
@@ -132,8 +147,7 @@ impl PluginManager {
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
         if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+            managed.client.stop(&mut managed.child);
         }
         Ok(())
     }
diff --git a/crates/hodu_plugin_runtime/src/client.rs b/crates/hodu_plugin_runtime/src/client.rs
index 731b200..49c2657 100644
--- a/crates/hodu_plugin_runtime/src/client.rs
+++ b/crates/hodu_plugin_runtime/src/client.rs
@@ -14,11 +14,14 @@ use std::process::{Child, ChildStdin};
 use std::sync::atomic::{AtomicI64, Ordering};
 use std::sync::mpsc::{self, RecvTimeoutError};
 use std::sync::{Arc, Mutex};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 /// Default timeout for RPC requests (5 minutes)
 pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(300);
 
+/// How long a plugin may take to end after it was told to shut down
+pub const SHUTDOWN_GRACE: Duration = Duration::from_secs(5);
+
 /// Notification handler callback type
 pub type NotificationHandler = Box<dyn Fn(&str, Option<&serde_json::Value>) + Send>;
 
@@ -166,6 +169,24 @@ impl PluginClient {
         Ok(())
     }
 
+    /// Shut the plugin down and wait for its process to end
+    ///
+    /// A plugin that does not end within [`SHUTDOWN_GRACE`] is killed.
+    pub fn stop(mut self, child: &mut Child) {
+        let _ = self.shutdown();
+        drop(self);
+
+        let deadline = Instant::now() + SHUTDOWN_GRACE;
+        while let Ok(None) = child.try_wait() {
+            if Instant::now() >= deadline {
+                let _ = child.kill();
+                let _ = child.wait();
+                break;
+            }
+            std::thread::sleep(Duration::from_millis(2));
+        }
+    }
+
     // ========================================================================
     // Format plugin methods
     // ========================================================================
diff --git a/crates/hodu_plugin_runtime/src/format.rs b/crates/hodu_plugin_runtime/src/format.rs
index 37fe072..11a9f46 100644
--- a/crates/hodu_plugin_runtime/src/format.rs
+++ b/crates/hodu_plugin_runtime/src/format.rs
@@ -61,6 +61,13 @@ impl PluginManager {
 
     /// Get or spawn a format plugin by name
     pub fn get_plugin(&mut self, name: &str) -> Result<&mut PluginClient, ManagerError> {
+        // A plugin that has ended since is started again
+        if let Some(managed) = self.processes.get_mut(name) {
+            if !matches!(managed.child.try_wait(), Ok(None)) {
+                self.processes.remove(name);
+            }
+        }
+
         // Check if already running
         if self.processes.contains_key(name) {
             return Ok(&mut self
@@ -135,7 +142,15 @@ impl PluginManager {
         client.set_timeout(self.timeout);
 
         // Initialize
-        let info = client.initialize().map_err(ManagerError::Client)?;
+        let info = match client.initialize() {
+            Ok(info) => info,
+            Err(e) => {
+                // Do not leave a plugin behind that cannot be used
+                let _ = child.kill();
+                let _ = child.wait();
+                return Err(ManagerError::Client(e));
+            },
+        };
 
         Ok(ManagedPlugin { child, client, info })
     }
@@ -143,8 +158,7 @@ impl PluginManager {
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ManagerError> {
         if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+            managed.client.stop(&mut managed.child);
         }
         Ok(())
     }
diff --git a/hodu-cli/src/plugins/process.rs b/hodu-cli/src/plugins/process.rs
index 34811a3..49af374 100644
--- a/hodu-cli/src/plugins/process.rs
+++ b/hodu-cli/src/plugins/process.rs
@@ -64,6 +64,13 @@ impl PluginManager {
 
     /// Get or spawn a plugin by name
     pub fn get_plugin(&mut self, name: &str) -> Result<&mut PluginClient, ProcessError> {
+        // A plugin that has ended since is started again
+        if let Some(managed) = self.processes.get_mut(name) {
+            if !matches!(managed.child.try_wait(), Ok(None)) {
+                self.processes.remove(name);
+            }
+        }
+
         // Check if already running
         if self.processes.contains_key(name) {
             return Ok(&mut self
@@ -142,7 +149,15 @@ impl PluginManager {
         client.set_notification_handler(Box::new(cli_notification_handler));
 
         // Initialize
-        let info = client.initialize().map_err(ProcessError::Client)?;
+        let info = match client.initialize() {
+            Ok(info) => info,
+            Err(e) => {
+                // Do not leave a plugin behind that cannot be used
+                let _ = child.kill();
+                let _ = child.wait();
+                return Err(ProcessError::Client(e));
+            },
+        };
 
         Ok(ManagedPlugin { child, client, info })
     }
@@ -150,8 +165,7 @@ impl PluginManager {
     /// Shutdown a specific plugin
     pub fn shutdown_plugin(&mut self, name: &str) -> Result<(), ProcessError> {
         if let Some(mut managed) = self.processes.remove(name) {
-            let _ = managed.client.shutdown();
-            let _ = managed.child.wait();
+            managed.client.stop(&mut managed.child);
         }
         Ok(())
     }
-- 
2.43.0


From ed79db494ee4365e9a8de797ff713a1899a485d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 93/93] fix: run --backend takes only backends, as build does

---
 hodu-cli/src/commands/run.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hodu-cli/src/commands/run.rs b/hodu-cli/src/commands/run.rs
index 97dc5d5..008aec0 100644
--- a/hodu-cli/src/commands/run.rs
+++ b/hodu-cli/src/commands/run.rs
@@ -414,11 +414,16 @@ fn find_backend_plugin<'a>(
     registry: &'a PluginRegistry,
 ) -> Result<&'a crate::plugins::PluginEntry, Box<dyn std::error::Error>> {
     if let Some(name) = backend_name {
-        if let Some(plugin) = registry.find(name) {
+        let find = |name: &str| {
+            registry
+                .find(name)
+                .filter(|p| p.plugin_type == crate::plugins::PluginType::Backend)
+        };
+        if let Some(plugin) = find(name) {
             return Ok(plugin);
         }
         let prefixed = format!("hodu-backend-{}", name);
-        if let Some(plugin) = registry.find(&prefixed) {
+        if let Some(plugin) = find(&prefixed) {
             return Ok(plugin);
         }
         return Err(format!("Backend '{}' not found.", name).into());
-- 
2.43.0

