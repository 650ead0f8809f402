From af93f1ef93140c9f1a0ac216a739b90d8f866431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 01/19] fix: re-create the indirect BGEMM kernel after every
 Prepare

The kernel object caches the input/output shapes, pointers into the input
tensor and pointers into the output transform buffers. When the input was
resized (or the arena moved) and Prepare was called again, Eval kept using the
stale object and produced wrong results or accessed invalid memory.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 4eded66..85497db 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -296,6 +296,10 @@ TfLiteStatus Prepare(TfLiteContext* context, TfLiteNode* node) {
   // we shoud always re-do the one-time setup.
   op_data->one_time_setup_complete = false;
 
+  // The indirect kernel stores shapes and pointers into the input and output
+  // transform buffers, so it must be re-created as well.
+  op_data->indirect_bgemm_kernel.reset();
+
   return kTfLiteOk;
 }
 
-- 
2.43.0


From b7b265aff88f878bf2879440e139c3e64fceb8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 02/19] fix: apply the zero-padding correction when the filter
 exceeds the image

For output pixels where the (dilated) filter sticks out of the image on two
opposite sides, ApplyCorrection fell into a branch marked 'cannot happen' and
left the +1 padding contribution in the float output, so the optimized kernels
disagreed with the reference kernel (e.g. a 3x3 filter on a 2x2 image).
---
 .../core/bconv2d/zero_padding_correction.h    | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/bconv2d/zero_padding_correction.h b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
index a8767ee..622c573 100644
--- a/larq_compute_engine/core/bconv2d/zero_padding_correction.h
+++ b/larq_compute_engine/core/bconv2d/zero_padding_correction.h
@@ -83,8 +83,8 @@ void CacheCorrectionValues(const TBitpacked* filter_data,
   //
   // So we could save this value for every tuple.
   // However (T) and (B) cannot be both true at the same time,
-  // and neither can (L) and (R) because we will assume that the (effective)
-  // filter size is always smaller than the image.
+  // and neither can (L) and (R) if the (effective) filter size is smaller than
+  // the image. (If it is not, `ApplyCorrection` combines several cases.)
   //
   // We have the following cases:
   //
@@ -259,7 +259,40 @@ void ApplyCorrection(const int input_batches, const int input_height,
           cache_X = (overflow_right >= 0 ? overflow_right : 0);
           cache_Y = overflow_bot;
         } else {
-          // This cannot happen.
+          // The kernel sticks out at two opposite sides: the effective filter
+          // is larger than the image. Every filter value outside of the image
+          // must be counted exactly once. The four cached unions count the
+          // values outside of each of the four sides twice (minus the four
+          // intersections), so we subtract each of the sides once.
+          const int left = overflow_left >= 0 ? overflow_left : 0;
+          const int right = overflow_right >= 0 ? overflow_right : 0;
+          const int top = overflow_top >= 0 ? overflow_top : 0;
+          const int bot = overflow_bot >= 0 ? overflow_bot : 0;
+          const auto cached = [&](int direction, int y, int x) {
+            return padding_cache + direction * (effective_filter_height *
+                                                effective_filter_width *
+                                                filter_count) +
+                   y * (effective_filter_width * filter_count) +
+                   x * filter_count;
+          };
+          const float* top_left = cached(0, top, left);
+          const float* top_right = cached(1, top, right);
+          const float* bot_left = cached(2, bot, left);
+          const float* bot_right = cached(3, bot, right);
+          const float* only_left = cached(0, 0, left);
+          const float* only_right = cached(1, 0, right);
+          const float* only_top = cached(0, top, 0);
+          const float* only_bot = cached(2, bot, 0);
+          float* output_ptr =
+              &output_data[((batch * output_height + out_y) * output_width +
+                            out_x) *
+                           filter_count];
+          for (int out_c = 0; out_c < filter_count; ++out_c) {
+            output_ptr[out_c] += top_left[out_c] + top_right[out_c] +
+                                 bot_left[out_c] + bot_right[out_c] -
+                                 only_left[out_c] - only_right[out_c] -
+                                 only_top[out_c] - only_bot[out_c];
+          }
           continue;
         }
 
-- 
2.43.0


From 351ddbdd5311817d8f7f549865109b272bea941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 03/19] fix: update the signatures of the subgraph whose
 tensors change

---
 larq_compute_engine/mlir/python/util.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index df19b2f..0f9847e 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -54,6 +54,15 @@ def _convert_model_from_object_to_bytearray(model_object):
     return bytes(builder.Output())
 
 
+def _get_signature_defs(model, subgraph):
+    """Returns the SignatureDefs that describe the given subgraph."""
+    return [
+        signature_def
+        for signature_def in model.signatureDefs or []
+        if model.subgraphs[signature_def.subgraphIndex] is subgraph
+    ]
+
+
 def _update_signature_def_tensors(tensor_maps, map_old_to_new_tensors):
     """Update the tensors in the SignatureDef's TensorMaps."""
     for i in range(len(tensor_maps)):
@@ -96,8 +105,7 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
         # Delete the tensors
@@ -194,8 +202,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
                     if signature_def.inputs[i].tensorIndex == op.inputs[0]:
                         signature_def.inputs[i].tensorIndex = op.outputs[0]
@@ -207,8 +214,7 @@ def modify_integer_quantized_model_io_type(
         # Remove the outputs and the dequant operator
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -296,8 +302,7 @@ def _strip_lcedequantize_ops_subgraph(
         # Remove the Dequantize operators
         for op in output_dequant_ops:
             subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-            if model.signatureDefs:
-                signature_def = model.signatureDefs[0]
+            for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
@@ -353,8 +358,7 @@ def _strip_lcedequantize_ops_subgraph(
     # Remove the LceDequantize operators
     for op in lce_output_dequant_ops:
         subgraph.outputs[subgraph.outputs == op.outputs[0]] = op.inputs[0]
-        if model.signatureDefs:
-            signature_def = model.signatureDefs[0]
+        for signature_def in _get_signature_defs(model, subgraph):
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-- 
2.43.0


From 5e8deffd338f49bba06f5dba70130c85c9fefd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 04/19] fix: renumber the intermediate tensors of operators
 when tensors are removed

---
 larq_compute_engine/mlir/python/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 0f9847e..daae025 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -105,6 +105,8 @@ def _remove_tensors_from_model(
         for op in operators:
             update_tensors(op.inputs)
             update_tensors(op.outputs)
+            if op.intermediates is not None:
+                update_tensors(op.intermediates)
         for signature_def in _get_signature_defs(model, subgraph):
             _update_signature_def_tensors(signature_def.inputs, d_old_to_new_tensors)
             _update_signature_def_tensors(signature_def.outputs, d_old_to_new_tensors)
-- 
2.43.0


From 349af32a844102a07bf11cce19dc37fea1c8d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 05/19] fix: keep tensors that are still read when changing the
 model inputs and outputs

---
 larq_compute_engine/mlir/python/util.py | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index daae025..8cd84d1 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -115,6 +115,14 @@ def _remove_tensors_from_model(
             tensors.pop(idx)
 
 
+def _count_tensor_reads(subgraph, tensor_idx):
+    """Counts how often a tensor is an operator input or a subgraph output."""
+    reads = sum(1 for ti in subgraph.outputs if ti == tensor_idx)
+    for op in subgraph.operators:
+        reads += sum(1 for ti in op.inputs if ti == tensor_idx)
+    return reads
+
+
 def _find_int8_quantized_inputs_outputs(model):
     """Validate that model input is quantized and output is dequantized."""
     main_subgraph = model.subgraphs[0]  # the main subgraph has ID 0
@@ -203,6 +211,9 @@ def modify_integer_quantized_model_io_type(
     if inference_input_type == tf.int8:
         # Remove the inputs and the quant operator
         for op in input_quant_ops:
+            # Keep inputs that are also used without being quantized
+            if _count_tensor_reads(subgraph, op.inputs[0]) > 1:
+                continue
             subgraph.inputs[subgraph.inputs == op.inputs[0]] = op.outputs[0]
             for signature_def in _get_signature_defs(model, subgraph):
                 for i in range(len(signature_def.inputs)):
@@ -220,8 +231,10 @@ def modify_integer_quantized_model_io_type(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its result is also used inside the subgraph
+            if _count_tensor_reads(subgraph, op.outputs[0]) == 0:
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -308,8 +321,10 @@ def _strip_lcedequantize_ops_subgraph(
                 for i in range(len(signature_def.outputs)):
                     if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                         signature_def.outputs[i].tensorIndex = op.inputs[0]
-            remove_tensors_idxs.add(op.outputs[0])
-            operators.remove(op)
+            # Keep the operator if its result is also used inside the subgraph
+            if _count_tensor_reads(subgraph, op.outputs[0]) == 0:
+                remove_tensors_idxs.add(op.outputs[0])
+                operators.remove(op)
 
         # Remove tensors marked for deletion.
         _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
@@ -364,8 +379,10 @@ def _strip_lcedequantize_ops_subgraph(
             for i in range(len(signature_def.outputs)):
                 if signature_def.outputs[i].tensorIndex == op.outputs[0]:
                     signature_def.outputs[i].tensorIndex = op.inputs[0]
-        remove_tensors_idxs.add(op.outputs[0])
-        operators.remove(op)
+        # Keep the operator if its result is also used inside the subgraph
+        if _count_tensor_reads(subgraph, op.outputs[0]) == 0:
+            remove_tensors_idxs.add(op.outputs[0])
+            operators.remove(op)
 
     # Remove tensors marked for deletion.
     _remove_tensors_from_model(model, subgraph, remove_tensors_idxs)
-- 
2.43.0


From 80933e693512543346b6eb852e683c45e50739f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 06/19] fix: don't cache zero-padding corrections for non-float
 outputs

The corrections are only ever applied to float outputs, and bitpacked outputs
need not have a post-activation multiplier: Prepare accepts the reference
kernel with zero padding and bitpacked output, and invoking it dereferenced the
absent multiplier.
---
 larq_compute_engine/tflite/kernels/bconv2d.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/tflite/kernels/bconv2d.cc b/larq_compute_engine/tflite/kernels/bconv2d.cc
index 85497db..185eece 100644
--- a/larq_compute_engine/tflite/kernels/bconv2d.cc
+++ b/larq_compute_engine/tflite/kernels/bconv2d.cc
@@ -338,9 +338,10 @@ void OneTimeSetup(TfLiteContext* context, TfLiteNode* node, OpData* op_data) {
   const std::int32_t channels_in_per_group =
       bconv2d_params->channels_in / bconv2d_params->groups;
 
-  // For 'same-zero' padding, compute the padding-correction.
+  // For 'same-zero' padding, compute the padding-correction. It is only applied
+  // to float outputs; bitpacked outputs need not have a multiplier at all.
   if (bconv2d_params->padding_type == kTfLitePaddingSame &&
-      bconv2d_params->pad_value == 0) {
+      bconv2d_params->pad_value == 0 && output->type == kTfLiteFloat32) {
     op_data->padding_buffer.resize(zero_padding_correction::GetCacheSize(
         bconv2d_params->filter_height, bconv2d_params->filter_width,
         bconv2d_params->channels_out, bconv2d_params->dilation_height_factor,
-- 
2.43.0


From f39eb5311e10efa74e995868c55e9a4d421a0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:32 +0000
Subject: [PATCH 07/19] fix: read 64-bit paddings in the padding fusion
 patterns

---
 larq_compute_engine/mlir/transforms/padding.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/padding.h b/larq_compute_engine/mlir/transforms/padding.h
index 69a8c75..c45e8f6 100644
--- a/larq_compute_engine/mlir/transforms/padding.h
+++ b/larq_compute_engine/mlir/transforms/padding.h
@@ -17,6 +17,7 @@ inline DenseElementsAttr GetValidPadAttr(Attribute paddings_attr) {
   if (pad_type.getRank() != 2) return nullptr;
   auto pad_shape = pad_type.getShape();
   if (pad_shape[0] != 4 || pad_shape[1] != 2) return nullptr;
+  if (!pad_type.getElementType().isa<IntegerType>()) return nullptr;
   return paddings;
 }
 
@@ -30,11 +31,17 @@ inline ShapeRefType GetShape4D(Value tensor) {
   return tensor_shape;
 }
 
+// The paddings can be 32-bit or 64-bit integers.
+inline int GetPadding(DenseElementsAttr paddings, uint64_t dimension,
+                      uint64_t side) {
+  return paddings.getValues<APInt>()[{dimension, side}].getSExtValue();
+}
+
 inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
                             int input_size, int output_size, int stride) {
   using compute_engine::core::CeilDiv;
-  int pad_before = paddings.getValues<int>()[{dimension, 0}];
-  int pad_after = paddings.getValues<int>()[{dimension, 1}];
+  const int pad_before = GetPadding(paddings, dimension, 0);
+  const int pad_after = GetPadding(paddings, dimension, 1);
   const int pad_total = pad_before + pad_after;
   return (output_size == CeilDiv(input_size, stride)) &&
          (pad_before == (pad_total / 2)) &&
@@ -42,8 +49,8 @@ inline bool IsSamePadding1D(DenseElementsAttr paddings, uint64_t dimension,
 }
 
 inline bool IsNoPadding(DenseElementsAttr paddings, uint64_t dimension) {
-  return paddings.getValues<int>()[{dimension, 0}] == 0 &&
-         paddings.getValues<int>()[{dimension, 1}] == 0;
+  return GetPadding(paddings, dimension, 0) == 0 &&
+         GetPadding(paddings, dimension, 1) == 0;
 }
 
 }  // namespace TFL
-- 
2.43.0


From 7cb7cebc66315c3a3406a4bb50690137c5478838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 08/19] fix: only fuse padding that equals SAME padding into
 strided convolutions

---
 .../mlir/transforms/fuse_padding.cc           | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/fuse_padding.cc b/larq_compute_engine/mlir/transforms/fuse_padding.cc
index c6fced9..e1589b3 100644
--- a/larq_compute_engine/mlir/transforms/fuse_padding.cc
+++ b/larq_compute_engine/mlir/transforms/fuse_padding.cc
@@ -26,9 +26,29 @@ bool IsSamePaddingPartial(Attribute paddings_attr, Value input, Value output,
   if (!strides_attr.isa<IntegerAttr>()) return false;
   const int stride = strides_attr.cast<IntegerAttr>().getInt();
 
-  // Check that there is no padding in the batch and channel dimensions
-  return IsSamePadding1D(paddings, dimension, input_shape[dimension],
-                         output_shape[dimension], stride);
+  if (!IsSamePadding1D(paddings, dimension, input_shape[dimension],
+                       output_shape[dimension], stride))
+    return false;
+
+  // The shapes alone don't tell whether "SAME" adds the same padding before the
+  // image: with a stride the last columns of the padded input may be unused, and
+  // the sizes may be unknown. The filter has the layout OHWI, so its spatial
+  // dimensions are the same as those of the input.
+  auto conv_op = output.getDefiningOp();
+  auto filter_shape = GetShape4D(conv_op->getOperand(1));
+  auto dilation = conv_op->getAttrOfType<IntegerAttr>(
+      dimension == 1 ? "dilation_h_factor" : "dilation_w_factor");
+  if (filter_shape.empty() || !dilation) return false;
+  if (ShapedType::isDynamic(input_shape[dimension]) ||
+      ShapedType::isDynamic(output_shape[dimension]) ||
+      ShapedType::isDynamic(filter_shape[dimension]))
+    return false;
+  const int64_t dilated_filter_size =
+      (filter_shape[dimension] - 1) * dilation.getInt() + 1;
+  const int64_t same_padding =
+      std::max<int64_t>(0, (output_shape[dimension] - 1) * stride +
+                               dilated_filter_size - input_shape[dimension]);
+  return GetPadding(paddings, dimension, 0) == same_padding / 2;
 }
 
 namespace fuse_padding {
-- 
2.43.0


From ec2bf02d53dc72cd942d12a4f2bb61c497693215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 09/19] fix: only recognise the tf.sign quantizer when the
 added constant breaks ties

---
 larq_compute_engine/mlir/transforms/common.h         | 12 ++++++++++++
 .../mlir/transforms/prepare_patterns_common.td       | 11 +++++++----
 larq_compute_engine/mlir/transforms/prepare_tf.cc    |  6 ++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index d192d9c..7b51b77 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -15,5 +15,17 @@ inline bool IsConstantValue(Attribute values, float expected_value) {
   return true;
 }
 
+inline bool IsConstantBetweenZeroAndOne(Attribute values) {
+  if (!values.isa<DenseElementsAttr>()) return false;
+  auto elements = values.cast<DenseElementsAttr>();
+  if (!elements.getType().getElementType().isa<FloatType>()) return false;
+
+  for (auto element : elements.getValues<APFloat>()) {
+    const double value = element.convertToDouble();
+    if (!(value > 0.0 && value < 1.0)) return false;
+  }
+  return true;
+}
+
 }  // namespace TFL
 }  // namespace mlir
diff --git a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
index 3eed4cf..41c5321 100644
--- a/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/prepare_patterns_common.td
@@ -58,10 +58,13 @@ foreach SelectOp = [TF_SelectOp, TF_SelectV2Op]<Op> in
 
 // A fallback for the old version of `ste_sign` that uses a specific `tf.sign`
 // based implementation of `larq.math.sign`.
-def : Pat<(TF_SignOp (TF_AddV2Op (TF_SignOp $arg), $c)),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
-def : Pat<(TF_SignOp (TF_AddV2Op $c, (TF_SignOp $arg))),
-          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), []>;
+// The added constant has to be between 0 and 1, so that it only matters for zeros.
+def ConstantBetweenZeroAndOne : AttrConstraint<CPred<"IsConstantBetweenZeroAndOne($_self)">>;
+def SameShape : Constraint<CPred<"HaveSameShape($0, $1)">>;
+def : Pat<(TF_SignOp:$sign (TF_AddV2Op (TF_SignOp $arg), (Arith_ConstantOp ConstantBetweenZeroAndOne))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), [(SameShape $sign, $arg)]>;
+def : Pat<(TF_SignOp:$sign (TF_AddV2Op (Arith_ConstantOp ConstantBetweenZeroAndOne), (TF_SignOp $arg))),
+          (LQ_DequantizeOp (LQ_QuantizeOp $arg)), [(SameShape $sign, $arg)]>;
 
 // Copied from legalize_patterns.td
 class I32VectorElementsAttr<int len> : ElementsAttrBase<
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 111fc6b..12540c2 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -145,6 +145,12 @@ bool HasValidFilterShape(Value input_val, Value filter_val) {
   return true;
 }
 
+bool HaveSameShape(Value a, Value b) {
+  auto a_type = a.getType().dyn_cast<RankedTensorType>();
+  auto b_type = b.getType().dyn_cast<RankedTensorType>();
+  return a_type && b_type && a_type.getShape() == b_type.getShape();
+}
+
 // Returns the number of channels of a shaped tensor. Will fail if any other
 // type is passed.
 IntegerAttr GetNumChannels(Builder& b, Value output_val) {
-- 
2.43.0


From 87b7e8bbfa1145406d6923a490d037cc6dbe36f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 10/19] fix: don't drop the activation function of a max pool
 that becomes binary

---
 .../mlir/transforms/optimize_patterns_target_arm.td          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
index 36f8a4b..3a2e681 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_target_arm.td
@@ -1,6 +1,7 @@
 include "larq_compute_engine/mlir/transforms/optimize_patterns_common.td"
 
-// Insert a binary maxpool if a maxpool is followed by a sign op.
+// Insert a binary maxpool if a maxpool is followed by a sign op. An activation
+// function can change the sign (e.g. after a ReLU there are no negative values).
 def : Pat<(LQ_QuantizeOp
               (TFL_MaxPool2DOp:$pool_output
                   $input,
@@ -9,7 +10,7 @@ def : Pat<(LQ_QuantizeOp
                   $stride_h,
                   $filter_width,
                   $filter_height,
-                  $fused_activation_function)),
+                  TFL_AF_None)),
           (LQ_BMaxPool2dOp
               (LQ_QuantizeOp $input),
               $padding,
-- 
2.43.0


From 2bd7c9bf4a14a2d9455642c427523472eed33180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 11/19] fix: only fuse scalars and per-channel values into a
 binary convolution

---
 larq_compute_engine/mlir/transforms/optimize.cc      | 10 ++++++++++
 .../mlir/transforms/optimize_patterns_common.td      | 12 ++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/optimize.cc b/larq_compute_engine/mlir/transforms/optimize.cc
index 9646a3d..296feb8 100644
--- a/larq_compute_engine/mlir/transforms/optimize.cc
+++ b/larq_compute_engine/mlir/transforms/optimize.cc
@@ -243,6 +243,16 @@ DenseElementsAttr GetBitpackedOutputThresholds(
   return DenseElementsAttr::get(type, thresholds);
 }
 
+// Whether combining `value` with the multiplier or bias vector `vector` gives
+// one value for each output channel.
+bool IsScalarOrPerChannel(Attribute value, Attribute vector) {
+  auto value_type = value.cast<TypedAttr>().getType().cast<ShapedType>();
+  auto vector_type = vector.cast<TypedAttr>().getType().cast<ShapedType>();
+  if (value_type.getRank() > 1) return false;
+  return value_type.getNumElements() == 1 ||
+         value_type.getNumElements() == vector_type.getNumElements();
+}
+
 namespace optimize_target_arm {
 #include "larq_compute_engine/mlir/transforms/generated_optimize_target_arm.inc"
 }
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index 9bc11fa..f306b43 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -35,7 +35,10 @@ def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp $rhs, $lhs)),
           [(HasOneUse $ge_op)]>;
 
-// TODO: Check shapes before fusing
+// Checks that the value has one element, or one for each output channel, so that
+// it can be merged into the multiplier or bias of the convolution.
+def ScalarOrPerChannel : Constraint<CPred<"IsScalarOrPerChannel($0, $1)">>;
+
 multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$output
@@ -68,12 +71,12 @@ multiclass FuseAddOrSubWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $output)]>;
+            [(HasOneUse $output),
+             (ScalarOrPerChannel $value, $post_activation_bias)]>;
 }
 foreach binaryOp = [TFL_AddOp, TFL_SubOp] in
   defm : FuseAddOrSubWithBConv2D<binaryOp>;
 
-// TODO: Check shapes before fusing
 multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
   def : Pat<(binaryOp
                 (LQ_Bconv2dOp:$conv_output
@@ -107,7 +110,8 @@ multiclass FuseMulOrDivWithBConv2D<Op binaryOp> {
                 $padding,
                 $stride_height,
                 $stride_width),
-            [(HasOneUse $conv_output)]>;
+            [(HasOneUse $conv_output),
+             (ScalarOrPerChannel $value, $post_activation_bias)]>;
 }
 foreach binaryOp = [TFL_DivOp, TFL_MulOp] in
   defm : FuseMulOrDivWithBConv2D<binaryOp>;
-- 
2.43.0


From 7b1048033a7fac8649de02b8c76142d2b5eb7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 12/19] fix: don't read constants of other types as floats

---
 larq_compute_engine/mlir/transforms/common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index 7b51b77..0d9ff1f 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -8,8 +8,10 @@ namespace TFL {
 
 inline bool IsConstantValue(Attribute values, float expected_value) {
   if (!values.isa<DenseElementsAttr>()) return false;
+  auto elements = values.cast<DenseElementsAttr>();
+  if (!elements.getType().getElementType().isF32()) return false;
 
-  for (auto value : values.cast<DenseElementsAttr>().getValues<float>()) {
+  for (auto value : elements.getValues<float>()) {
     if (value != expected_value) return false;
   }
   return true;
-- 
2.43.0


From 8b187dce938d9df5d7c965548a4888b5d4aac454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:46 +0000
Subject: [PATCH 13/19] fix: keep the broadcast of a comparison with a zero
 constant

---
 larq_compute_engine/mlir/transforms/common.h              | 8 ++++++++
 .../mlir/transforms/optimize_patterns_common.td           | 4 +++-
 larq_compute_engine/mlir/transforms/prepare_tf.cc         | 6 ------
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/common.h b/larq_compute_engine/mlir/transforms/common.h
index 0d9ff1f..70936da 100644
--- a/larq_compute_engine/mlir/transforms/common.h
+++ b/larq_compute_engine/mlir/transforms/common.h
@@ -2,6 +2,8 @@
 
 #include "mlir/IR/Attributes.h"
 #include "mlir/IR/BuiltinAttributes.h"
+#include "mlir/IR/BuiltinTypes.h"
+#include "mlir/IR/Value.h"
 
 namespace mlir {
 namespace TFL {
@@ -29,5 +31,11 @@ inline bool IsConstantBetweenZeroAndOne(Attribute values) {
   return true;
 }
 
+inline bool HaveSameShape(Value a, Value b) {
+  auto a_type = a.getType().dyn_cast<RankedTensorType>();
+  auto b_type = b.getType().dyn_cast<RankedTensorType>();
+  return a_type && b_type && a_type.getShape() == b_type.getShape();
+}
+
 }  // namespace TFL
 }  // namespace mlir
diff --git a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
index f306b43..07c28f1 100644
--- a/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
+++ b/larq_compute_engine/mlir/transforms/optimize_patterns_common.td
@@ -13,13 +13,15 @@ def HasOneUse : Constraint<CPred<"$0.hasOneUse()">>;
 
 class ConstantValue<string val> : AttrConstraint<CPred<"IsConstantValue($_self, " # val # ")">>;
 
+def SameShape : Constraint<CPred<"HaveSameShape($0, $1)">>;
+
 // This pattern has priority (addBenefit) over the more generic pattern below
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
                   $input,
                   (Arith_ConstantOp ConstantValue<"0.0f">))),
           (LQ_QuantizeOp $input),
-          [(HasOneUse $ge_op)], [], (addBenefit 100)>;
+          [(HasOneUse $ge_op), (SameShape $ge_op, $input)], [], (addBenefit 100)>;
 
 def : Pat<(LQ_QuantizeOp
               (TFL_GreaterEqualOp:$ge_op
diff --git a/larq_compute_engine/mlir/transforms/prepare_tf.cc b/larq_compute_engine/mlir/transforms/prepare_tf.cc
index 12540c2..111fc6b 100644
--- a/larq_compute_engine/mlir/transforms/prepare_tf.cc
+++ b/larq_compute_engine/mlir/transforms/prepare_tf.cc
@@ -145,12 +145,6 @@ bool HasValidFilterShape(Value input_val, Value filter_val) {
   return true;
 }
 
-bool HaveSameShape(Value a, Value b) {
-  auto a_type = a.getType().dyn_cast<RankedTensorType>();
-  auto b_type = b.getType().dyn_cast<RankedTensorType>();
-  return a_type && b_type && a_type.getShape() == b_type.getShape();
-}
-
 // Returns the number of channels of a shaped tensor. Will fail if any other
 // type is passed.
 IntegerAttr GetNumChannels(Builder& b, Value output_val) {
-- 
2.43.0


From 29d478017c7a177c1a6f98bf58ded7479d7a0d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 14/19] fix: constant-fold bitpacking of tensors of any rank

---
 .../mlir/transforms/bitpack.cc                | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index cbde408..4bf286b 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -16,6 +16,13 @@ using compute_engine::core::saturate;
 using compute_engine::core::TBitpacked;
 using namespace compute_engine::core::bitpacking;
 
+// The product of all dimensions but the last one, which is bitpacked.
+static int GetNumRows(llvm::ArrayRef<int64_t> shape) {
+  int num_rows = 1;
+  for (int64_t dim : shape.drop_back()) num_rows *= dim;
+  return num_rows;
+}
+
 DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   if (!x) return nullptr;
 
@@ -24,9 +31,11 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
   auto shape = shaped_type.getShape();
   auto element_type = shaped_type.getElementType();
 
-  int num_rows = shape[0] * shape[1] * shape[2];
-  int unpacked_channels = shape[3];
+  if (shape.empty()) return nullptr;
+
+  int unpacked_channels = shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
+  int num_rows = GetNumRows(shape);
 
   std::vector<TBitpacked> new_values(num_rows * packed_channels);
 
@@ -49,9 +58,10 @@ DenseElementsAttr Bitpack(mlir::Builder* builder, Attribute x) {
     return nullptr;
   }
 
-  RankedTensorType out_tensor_type =
-      RankedTensorType::get({shape[0], shape[1], shape[2], packed_channels},
-                            builder->getIntegerType(bitpacking_bitwidth));
+  llvm::SmallVector<int64_t, 4> packed_shape(shape.begin(), shape.end());
+  packed_shape.back() = packed_channels;
+  RankedTensorType out_tensor_type = RankedTensorType::get(
+      packed_shape, builder->getIntegerType(bitpacking_bitwidth));
 
   return DenseElementsAttr::get<TBitpacked>(out_tensor_type, new_values);
 }
@@ -65,11 +75,14 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
   auto output_shape = result_type.getShape();
   auto output_type = result_type.getElementType();
 
-  int num_rows = output_shape[0] * output_shape[1] * output_shape[2];
-  int unpacked_channels = output_shape[3];
+  if (output_shape.empty()) return nullptr;
+
+  int num_rows = GetNumRows(output_shape);
+  int unpacked_channels = output_shape.back();
   int packed_channels = GetBitpackedSize(unpacked_channels);
-  if (input_shape[0] != output_shape[0] || input_shape[1] != output_shape[1] ||
-      input_shape[2] != output_shape[2] || input_shape[3] != packed_channels) {
+  if (input_shape.size() != output_shape.size() ||
+      input_shape.drop_back() != output_shape.drop_back() ||
+      input_shape.back() != packed_channels) {
     return nullptr;
   }
 
-- 
2.43.0


From ff74d3e7e6e365429b76f82e29758c98fa36bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 15/19] fix: don't constant-fold a dequantization to a type
 constants can't have

---
 .../mlir/transforms/bitpack.cc                | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/larq_compute_engine/mlir/transforms/bitpack.cc b/larq_compute_engine/mlir/transforms/bitpack.cc
index 4bf286b..c6291c9 100644
--- a/larq_compute_engine/mlir/transforms/bitpack.cc
+++ b/larq_compute_engine/mlir/transforms/bitpack.cc
@@ -1,18 +1,14 @@
 #include "larq_compute_engine/mlir/transforms/bitpack.h"
 
-#include <cmath>
 #include <vector>
 
 #include "larq_compute_engine/core/bitpacking/bitpack.h"
 #include "larq_compute_engine/core/types.h"
-#include "mlir/Dialect/Quant/QuantTypes.h"
 
 namespace mlir {
 namespace TFL {
 
 using compute_engine::core::bitpacking_bitwidth;
-using compute_engine::core::round;
-using compute_engine::core::saturate;
 using compute_engine::core::TBitpacked;
 using namespace compute_engine::core::bitpacking;
 
@@ -105,19 +101,9 @@ DenseElementsAttr Unpack(Attribute x, ShapedType result_type) {
 
     return DenseElementsAttr::get<float>(result_type, new_values);
   } else {
-    auto quant_type = output_type.cast<mlir::quant::UniformQuantizedType>();
-    const double scale = quant_type.getScale();
-    const int zero_point = quant_type.getZeroPoint();
-
-    std::int8_t zero_bit_result = saturate(zero_point + round(+1.0 / scale));
-    std::int8_t one_bit_result = saturate(zero_point + round(-1.0 / scale));
-
-    std::vector<std::int8_t> new_values(num_rows * unpacked_channels);
-
-    unpack_matrix(old_values.data(), num_rows, unpacked_channels,
-                  new_values.data(), zero_bit_result, one_bit_result);
-
-    return DenseElementsAttr::get<std::int8_t>(result_type, new_values);
+    // constant-folding to other types is currently not supported; elements of
+    // a quantized type can't be stored in a DenseElementsAttr
+    return nullptr;
   }
 }
 
-- 
2.43.0


From b7a7ad955e497866706979bf9f90651e57bb59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 16/19] fix: pad the output transform by as much as the AArch64
 kernels read past it

The kernels load the multipliers and biases of eight output channels at a
time, so with channels_out % 8 in 1..3 they read up to 28 bytes past the
end; LCE_EXTRA_BYTES only provided 16.
---
 larq_compute_engine/core/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/larq_compute_engine/core/types.h b/larq_compute_engine/core/types.h
index 24da7d4..ed23522 100644
--- a/larq_compute_engine/core/types.h
+++ b/larq_compute_engine/core/types.h
@@ -35,7 +35,7 @@ inline bool FastBoundsCheck(const int index, const int limit) {
 // In our kernels we may occasionally read (but never write) beyond the end of
 // an array. This is the maximum number of extra bytes that will be read, and
 // should be added as padding to the end of tensor allocations.
-#define LCE_EXTRA_BYTES 16
+#define LCE_EXTRA_BYTES 32
 
 // Define these once here, so they can be included everywhere.
 using TBitpacked = std::int32_t;
-- 
2.43.0


From 791183f04b36912fc1daee3e11fa46222dd2256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:56 +0000
Subject: [PATCH 17/19] fix: choose the 16-bit AArch64 indirect kernels by the
 size of the filter window

The largest accumulator was taken to be the number of input bits, but with
SAME padding the window can be larger than the input: a 9x9 filter over a
1x1x1618 input wrapped around in the 16-bit accumulators.
---
 larq_compute_engine/core/indirect_bgemm/select_kernel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/larq_compute_engine/core/indirect_bgemm/select_kernel.h b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
index 7f4c20a..7a6ca2a 100644
--- a/larq_compute_engine/core/indirect_bgemm/select_kernel.h
+++ b/larq_compute_engine/core/indirect_bgemm/select_kernel.h
@@ -42,9 +42,12 @@ inline std::unique_ptr<Kernel> SelectRuntimeKernel(
   // on whether the bitpacked number of input channels is a multiple of 4, 2, or
   // 1, and whether that multiple is 1 or more than 1.
 
-  const auto max_accumulator_value = bitpacking_bitwidth *
-                                     bitpacked_input_shape.FlatSize() /
-                                     bconv2d_params->groups;
+  // The number of bits in the filter's window, which may be larger than the
+  // input when it is padded.
+  const auto max_accumulator_value =
+      bitpacking_bitwidth * bconv2d_params->filter_height *
+      bconv2d_params->filter_width * bitpacked_input_shape.Dims(3) /
+      bconv2d_params->groups;
   const bool fits_in_uint16_accumulators =
       max_accumulator_value < std::numeric_limits<std::uint16_t>::max();
 
-- 
2.43.0


From 1777972dabe90b7d9dc9f12db2c932559e89e262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:06 +0000
Subject: [PATCH 18/19] fix: don't read past the depth in the AArch64 BGEMM
 kernel with 32-bit accumulators

The streaming loop consumes eight levels of depth per iteration but ran
once whenever there were eight, and once more when the depth was an odd
multiple of four: it added up the data of the next block.
---
 larq_compute_engine/core/bgemm/kernels_aarch64.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/larq_compute_engine/core/bgemm/kernels_aarch64.h b/larq_compute_engine/core/bgemm/kernels_aarch64.h
index f555a2b..7da88d9 100644
--- a/larq_compute_engine/core/bgemm/kernels_aarch64.h
+++ b/larq_compute_engine/core/bgemm/kernels_aarch64.h
@@ -234,9 +234,10 @@ void BinaryKernelNeon4x4(const BinaryKernelParams<DstScalar, 4, 4>& params) {
       LCE_BMLA(v24, v4, v0, v1, v2, v3)
 
 #if RUY_OPT(MAX_STREAMING)
-      "cmp w12, #8\n"
+      // Every iteration consumes 8 levels of depth and loads the next 8.
+      "cmp w12, #16\n"
       "blt 78f\n"
-      "and w2, w12, #-4\n"
+      "and w2, w12, #-8\n"
 
       // Load the next 64 bytes of LHS and RHS data.
       "ld1 {v8.4s, v9.4s, v10.4s, v11.4s}, [%[lhs_ptr]], #64\n"
-- 
2.43.0


From c5cc1ab87cba9964a8eafd730b4f4609439f8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:51 +0000
Subject: [PATCH 19/19] fix: convert model inputs/outputs of every version of
 (De)Quantize operators

A flatbuffer has one operator code per version of an operator. Only one of the
Quantize, Dequantize and LceDequantize codes was looked at, so the inputs and
outputs whose conversion uses another one silently kept their type.
---
 larq_compute_engine/mlir/python/util.py | 35 +++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/larq_compute_engine/mlir/python/util.py b/larq_compute_engine/mlir/python/util.py
index 8cd84d1..5672a0d 100644
--- a/larq_compute_engine/mlir/python/util.py
+++ b/larq_compute_engine/mlir/python/util.py
@@ -130,15 +130,14 @@ def _find_int8_quantized_inputs_outputs(model):
     operators = main_subgraph.operators
 
     # Ensure model has atleast one quantize and dequantize operator
-    quant_opcode_idx, dequant_opcode_idx = None, None
+    # (there is one operator code per version of an operator)
+    quant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.builtinCode == tflite_schema.BuiltinOperator.QUANTIZE:
-            quant_opcode_idx = idx
+            quant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if quant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if quant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not quant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model is not integer quantized as it does not "
             "contain quantize/dequantize operators."
@@ -148,7 +147,10 @@ def _find_int8_quantized_inputs_outputs(model):
     input_quant_ops, output_dequant_ops = [], []
     for op in operators:
         # Find input quantize operator
-        if op.opcodeIndex == quant_opcode_idx and op.inputs[0] in main_subgraph.inputs:
+        if (
+            op.opcodeIndex in quant_opcode_idxs
+            and op.inputs[0] in main_subgraph.inputs
+        ):
             pos, float_tensor, int_tensor = (
                 "input",
                 tensors[op.inputs[0]],
@@ -157,7 +159,7 @@ def _find_int8_quantized_inputs_outputs(model):
             input_quant_ops.append(op)
         # Find output dequantize operator
         elif (
-            op.opcodeIndex == dequant_opcode_idx
+            op.opcodeIndex in dequant_opcode_idxs
             and op.outputs[0] in main_subgraph.outputs
         ):
             pos, float_tensor, int_tensor = (
@@ -260,21 +262,20 @@ def _strip_lcedequantize_ops_subgraph(
     model: tflite_schema.ModelT, subgraph: tflite_schema.SubGraphT
 ) -> None:
     # Ensure model has at least one LceDequantize and/or Dequantize operator
-    lce_dequant_opcode_idx, dequant_opcode_idx = None, None
+    # (there is one operator code per version of an operator)
+    lce_dequant_opcode_idxs, dequant_opcode_idxs = set(), set()
     for idx, opcode in enumerate(model.operatorCodes):
         if opcode.customCode == b"LceDequantize":
-            lce_dequant_opcode_idx = idx
+            lce_dequant_opcode_idxs.add(idx)
         elif opcode.builtinCode == tflite_schema.BuiltinOperator.DEQUANTIZE:
-            dequant_opcode_idx = idx
-        if lce_dequant_opcode_idx is not None and dequant_opcode_idx is not None:
-            break
-    if lce_dequant_opcode_idx is None and dequant_opcode_idx is None:
+            dequant_opcode_idxs.add(idx)
+    if not lce_dequant_opcode_idxs and not dequant_opcode_idxs:
         raise ValueError(
             "Model does not contain any LceDequantize or Dequantize operators."
         )
 
     # Ensure model outputs are dequantized and remove Dequantize ops first if any
-    if dequant_opcode_idx is not None:
+    if dequant_opcode_idxs:
         tensors = subgraph.tensors
         operators = subgraph.operators
         remove_tensors_idxs = set()
@@ -283,7 +284,7 @@ def _strip_lcedequantize_ops_subgraph(
         for op in operators:
             # Find output Dequantize operator
             if (
-                op.opcodeIndex == dequant_opcode_idx
+                op.opcodeIndex in dequant_opcode_idxs
                 and op.outputs[0] in subgraph.outputs
             ):
                 pos, float_tensor, int_tensor = (
@@ -338,7 +339,7 @@ def _strip_lcedequantize_ops_subgraph(
     for op in operators:
         # Find output LceDequantize operator
         if (
-            op.opcodeIndex == lce_dequant_opcode_idx
+            op.opcodeIndex in lce_dequant_opcode_idxs
             and op.outputs[0] in subgraph.outputs
         ):
             pos, output_tensor, input_tensor = (
-- 
2.43.0

