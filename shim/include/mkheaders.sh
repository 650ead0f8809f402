#!/bin/bash
# Regenerates the forwarding headers next to this script.
cd "$(dirname "$0")"
w() { mkdir -p "$(dirname "$1")"; echo "#pragma once
#include \"$2\"" > "$1"; }
for h in c/builtin_op_data c/common c/c_api c/c_api_types context core/c/common core/c/builtin_op_data core/c/c_api_types \
  core/macros core/api/op_resolver core/api/error_reporter core/api/flatbuffer_conversions kernels/kernel_util kernels/op_macros kernels/padding \
  kernels/internal/common kernels/internal/compatibility kernels/internal/cppmath kernels/internal/types kernels/internal/tensor \
  kernels/internal/tensor_ctypes kernels/internal/tensor_utils kernels/internal/quantization_util kernels/internal/max kernels/internal/min kernels/internal/runtime_shape \
  kernels/internal/portable_tensor kernels/internal/optimized/im2col_utils kernels/internal/round kernels/internal/constants kernels/internal/legacy_types \
 op_resolver mutable_op_resolver tools/logging logger minimal_logging portable_type_to_tflitetype type_to_tflitetype \
  schema/schema_generated schema/schema_utils util array; do
  w "tensorflow/lite/$h.h" tfl_shim.h
done
for h in cpu_backend_context cpu_backend_gemm cpu_backend_gemm_params cpu_backend_gemm_ruy cpu_backend_threadpool; do
  w "tensorflow/lite/kernels/$h.h" ruy_shim.h
done
w tensorflow/compiler/mlir/lite/schema/schema_generated.h tfl_shim.h
for h in path matrix mat ruy context ctx context_get_ctx trmul trmul_params prepare_packed_matrices pack_common pack pack_arm mul_params \
  kernel_common kernel create_trmul_params platform opt_set check_macros side_pair size_util tune allocator profiler/instrumentation; do
  w "ruy/$h.h" ruy_shim.h
done
for h in base flatbuffers flexbuffers util; do w "flatbuffers/$h.h" flex_shim.h; done
for h in interpreter interpreter_builder model model_builder optional_debug_tools kernels/register; do w "tensorflow/lite/$h.h" lite_shim.h; done
for h in benchmark_tflite_model benchmark_model benchmark_params; do w "tensorflow/lite/tools/benchmark/$h.h" bench_shim.h; done
for h in command_line_flags tool_params; do w "tensorflow/lite/tools/$h.h" bench_shim.h; done
