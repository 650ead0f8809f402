#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
K = "larq_compute_engine/tflite/kernels/"
C = "larq_compute_engine/core/"
M = "larq_compute_engine/mlir/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
NOCPP = "The C++ kernel tests need Bazel and TensorFlow sources, do not run here, and sample a few shapes; "

prop("C01", "Sign-exact bitpacking by LceQuantize",
 "For every float32, int8 or bool tensor, LceQuantize yields one bit per channel that is 1 exactly when the element is negative (float < 0, int8 < zero point, bool false), least significant bit first in 32-bit words. The last dimension is packed separately for every row, and bits past the last channel are 0.",
 ["inputs", "configurations"], "all shapes, ranks, channel counts (also not multiples of 32), element values incl. -0.0/infinities, all int8 zero points",
 NOCPP + "they cannot reach every channel count/position/zero-point combination.",
 [K+"quantization.cc", C+"bitpacking/bitpack.h", C+"bitpacking/bitpack_aarch64.h", C+"bitpacking/utils.h"],
 [("bitpack_matrix/bitpack_array", C+"bitpacking/bitpack.h"), ("QuantizeEval", K+"quantization.cc")],
 ["LceQuantize op output"])
prop("C02", "LceDequantize decodes the packed sign and round-trips",
 "For every packed tensor LceDequantize writes, per channel, +1.0/-1.0 (float), true/false (bool), or the int8 code of +1/-1 under the output's scale and zero point saturated to the int8 range, for bit 0/1. It writes exactly the number of channels of its output, so for float and bool tensors quantize after dequantize is the identity on packed data and dequantize after quantize is the sign function.",
 ["inputs", "configurations"], "all packed words, shapes, channel counts, scales and zero points",
 NOCPP + "no test runs the two ops in sequence for all channel remainders.",
 [K+"quantization.cc", C+"bitpacking/bitpack.h"],
 [("unpack_matrix", C+"bitpacking/bitpack.h"), ("DequantizeEval", K+"quantization.cc")],
 ["LceDequantize op output", "LceDequantize -> LceQuantize composition"])
prop("C03", "Binary convolution equals the +1/-1 convolution exactly",
 "For every accepted LceBconv2d configuration with VALID padding or SAME padding with ones, the accumulated value behind every output element equals the integer convolution of the +1/-1 decoded input and filter, for every stride, dilation, filter size, batch, channel count (with padding channels ignored) and output position; spatially padded positions count as +1.",
 ["inputs", "configurations"], "all input/filter bit patterns and all accepted shapes, strides, dilations, paddings, channel counts",
 NOCPP + "the parameter space (stride x dilation x padding x channels remainder x filter) is infinite.",
 [K+"bconv2d.cc", C+"bconv2d/reference.h", C+"bconv2d/optimized_bgemm.h", C+"bconv2d/optimized_indirect_bgemm.h", C+"bgemm/kernels_common.h", C+"bgemm/kernels_aarch64.h", C+"indirect_bgemm/kernel_8x4x1_aarch64.h", C+"indirect_bgemm/kernel_8x4x2_aarch64.h", C+"indirect_bgemm/kernel_8x4x4_aarch64.h"],
 [("BConv2DReference", C+"bconv2d/reference.h"), ("BConv2DOptimizedBGEMM (im2col + ruy)", C+"bconv2d/optimized_bgemm.h"), ("indirection buffer", C+"indirect_bgemm/kernel.h")],
 ["LceBconv2d float output of all three kernels"])
prop("C04", "Reference, BGEMM and indirect-BGEMM kernels agree",
 "For every configuration that two of the selectable LceBconv2d kernels both accept, they produce identical output tensors (same shape and the same bits) for the same inputs. (On AArch64, an int8 result exactly halfway between two integers may be rounded to either.)",
 ["inputs", "configurations"], "all inputs and configurations, all output types",
 NOCPP + "they compare kernels on sampled parameters with random inputs only.",
 [K+"bconv2d.cc", C+"bconv2d/optimized_bgemm.h", C+"bconv2d/optimized_indirect_bgemm.h", C+"indirect_bgemm/kernel_4x2_portable.h", C+"indirect_bgemm/select_kernel.h", C+"bgemm/bgemm.h", C+"bgemm/ruy_pack.h", C+"bgemm/kernels_aarch64.h"],
 [("kernel template instantiation per KernelType", K+"bconv2d.cc"), ("runtime kernel selection", C+"indirect_bgemm/select_kernel.h")],
 ["outputs of the three registrations on the same tensors"])
prop("C05", "SAME zero padding contributes exactly nothing",
 "For every accepted LceBconv2d configuration with SAME padding and zero pad value, every output element equals the +1/-1 convolution in which out-of-image positions contribute 0, whatever part of the filter is outside the image (including filters larger than the image, strides and dilations).",
 ["inputs", "configurations"], "all shapes, strides, dilations, filter sizes relative to the image, multipliers, all output positions",
 NOCPP + "border cases depend on four overflow distances; tests only use images larger than the filter.",
 [C+"bconv2d/zero_padding_correction.h", C+"bconv2d/reference.h", K+"bconv2d.cc"],
 [("CacheCorrectionValues/ApplyCorrection", C+"bconv2d/zero_padding_correction.h"), ("binary zero point", C+"bconv2d/reference.h")],
 ["LceBconv2d output with padding SAME, pad_values 0"])
prop("C06", "Float and int8 output stage: activation, affine, rounding",
 "For float output every LceBconv2d element is clamp(acc)*multiplier+bias with the fused activation applied to the +1/-1 accumulator acc; for int8 output that value is divided by the output scale, shifted by the zero point, rounded to nearest (either neighbour on ties) and saturated to [-128,127], for every such value that fits a 32-bit integer. Each output channel uses its own multiplier and bias.",
 ["inputs", "configurations"], "all accumulators, activations, multipliers (any sign), biases, scales, zero points, channel counts",
 NOCPP + "saturation, negative multipliers and activation bounds interact with the back-transformation only in corner combinations.",
 [C+"bconv2d/output_transform.h", K+"bconv2d.cc", K+"utils.h"],
 [("OutputTransform::Run", C+"bconv2d/output_transform.h"), ("OneTimeSetup", K+"bconv2d.cc"), ("CalculateActivationRange", K+"utils.h")],
 ["LceBconv2d float/int8 outputs"])
prop("C07", "Bitpacked LceBconv2d output obeys per-channel thresholds",
 "For bitpacked output, bit c of every output pixel is 1 exactly when the XOR-popcount accumulator of channel c exceeds that channel's threshold, packed least significant bit first, with bits past the last output channel 0, for every number of output channels and every kernel.",
 ["inputs", "configurations"], "all accumulators, thresholds (incl. INT_MIN/INT_MAX and out of range), output channel counts",
 NOCPP + "remainder channels, word boundaries and pixel boundaries need specific shapes.",
 [C+"bconv2d/output_transform.h", C+"bconv2d/reference.h", C+"bgemm/kernels_common.h", C+"bconv2d/optimized_indirect_bgemm.h", C+"indirect_bgemm/kernel_4x2_portable.h"],
 [("bit accumulation across channels/tiles", C+"bgemm/kernels_common.h")],
 ["LceBconv2d int32 output words"])
prop("C08", "Grouped binary convolution separates the groups",
 "With G groups, output channel c depends only on the input channels of group c div (channels_out/G) and equals the +1/-1 convolution over exactly those channels, for all kernels that accept grouped convolutions and all output types.",
 ["inputs", "configurations"], "all group counts, channels per group, filter shapes, output types",
 NOCPP + "cross-group leakage appears only for particular remainder shapes.",
 [C+"bconv2d/reference.h", C+"indirect_bgemm/kernel.h", C+"indirect_bgemm/kernel_4x2_portable.h", K+"bconv2d.cc"],
 [("groups loop", C+"indirect_bgemm/kernel.h")],
 ["LceBconv2d outputs with grouped filters"])
prop("C09", "Binary max-pool is the maximum over each window",
 "For every accepted LceBMaxPool2d configuration, each output bit is 0 (+1) exactly when some in-image element of its window is +1, i.e. it is the max over the in-image part of the window in +1/-1 arithmetic, for SAME and VALID padding, any stride and filter size; output shape follows the padding scheme.",
 ["inputs", "configurations"], "all inputs, filter sizes, strides, paddings, channel counts",
 NOCPP + "windows at borders and non-square filters/strides are sampled only.",
 [C+"bmaxpool.h", K+"bmaxpool.cc"], [("BMaxPool", C+"bmaxpool.h")], ["LceBMaxPool2d output"])
prop("C10", "Op results depend only on current shapes, weights and inputs",
 "Over every history of input resizes (larger, smaller, batch changes), re-allocations (which may move every tensor) and repeated invocations, every invocation of an LCE op yields the result a freshly created op would give for the current inputs; nothing computed for an earlier shape, address or content may leak into it.",
 ["histories"], "all interleavings of resize / allocate / set input / invoke on all ops, kernels and output types",
 NOCPP + "tests build an interpreter once and invoke once; no test re-allocates with a different shape.",
 [K+"bconv2d.cc", C+"indirect_bgemm/kernel.h", C+"bconv2d/zero_padding_correction.h", K+"quantization.cc", K+"bmaxpool.cc"],
 [("one_time_setup_complete reset in Prepare", K+"bconv2d.cc"), ("indirect_bgemm_kernel creation", K+"bconv2d.cc")],
 ["every invoke in a recorded history"], state=[("one_time_setup_complete", "cached transforms valid", K+"bconv2d.cc"), ("indirect_bgemm_kernel", "cached indirection buffer and packed weights", K+"bconv2d.cc")])
prop("C11", "Unsupported op configurations are rejected, supported accepted",
 "Prepare of every LCE op succeeds exactly for the supported combinations of required options, input count, tensor types, ranks, weight/threshold/multiplier/bias shapes, int8 quantization, group structure, padding/activation/output combinations and kernel, and otherwise returns an error (never a crash, never success); on success the output tensor has exactly the shape implied by input shape, filter, stride, dilation and padding.",
 ["configurations"], "all combinations of option maps (missing/out of range), tensor types, ranks, dims, group structure, kernels",
 NOCPP + "only two or three error paths are tested.",
 [K+"bconv2d.cc", K+"bmaxpool.cc", K+"quantization.cc"], [("TF_LITE_ENSURE checks in Prepare", K+"bconv2d.cc"), ("LCE_ENSURE_PARAM in Init", K+"bconv2d.cc")],
 ["status of Prepare", "output dims after Prepare"])
prop("C12", "Parallel/blocked execution does not change results",
 "The result of an optimized LceBconv2d invocation is the same for every number of threads, every partition of the output matrix into blocks and every order in which blocks are executed; every output element is computed exactly once and no block reads or writes outside its part.",
 ["schedules", "configurations"], "all block partitions, execution orders and thread counts of the GEMM scheduler",
 NOCPP + "the test fixture uses one or two thread counts and the default partition.",
 [C+"bgemm/bgemm.h", C+"bgemm/kernels_common.h", C+"bgemm/ruy_trmul_params.h", C+"bconv2d/optimized_bgemm.h"],
 [("RunKernel block interface", C+"bgemm/kernels.h"), ("ruy TrMul", C+"bgemm/bgemm.h")],
 ["outputs under controlled ruy schedules"])
prop("C13", "Ops write only their outputs",
 "Invoking any LCE op never modifies its input, weight, multiplier, bias or threshold tensors, and writes no byte outside its output tensor (and temporaries), nor reads past the memory its tensors (with the LCE_EXTRA_BYTES TF Lite adds to them) and own buffers occupy, for every shape including tail channels and single-element tensors.",
 ["inputs", "configurations", "histories"], "all ops, shapes, kernels",
 NOCPP + "an out-of-bounds write into neighbouring arena memory is invisible to value comparisons.",
 [C+"indirect_bgemm/kernel_4x2_portable.h", C+"bgemm/kernels_common.h", C+"bgemm/kernels_aarch64.h", C+"bitpacking/bitpack.h", C+"bitpacking/bitpack_aarch64.h", C+"bmaxpool.h"],
 [("tail handling of the kernels", C+"indirect_bgemm/kernel_4x2_portable.h")], ["guard bytes around every buffer; snapshots of all inputs"])
prop("C14", "Registration exposes every LCE op with the chosen kernel",
 "Registering the LCE ops makes exactly LceQuantize, LceDequantize, LceBconv2d and LceBMaxPool2d resolvable, and LceBconv2d then behaves as the kernel requested (reference, indirect, or the optimized BGEMM by default), including that kernel's restrictions.",
 ["configurations"], "all registration flag combinations",
 "No test asserts which kernel a registration resolves to.",
 [K+"lce_ops_register.h", K+"bconv2d.cc"], [("RegisterLCECustomOps", K+"lce_ops_register.h")], ["op resolver contents and kernel-specific acceptance"])
prop("C15", "Set-batch-size rewrites exactly the batch dimension",
 "The set-batch-size pass gives every ranked entry-function argument batch size one in its first dimension when that dimension is dynamic, leaves every other dimension, element type, encoding, static shape, unranked and rank-0 argument, result type, attribute and operation unchanged, keeps function type and block arguments consistent, and is idempotent.",
 ["programs"], "all modules: argument counts, ranks, static/dynamic dims, element types, result types, several functions",
 "The single lit test has one function with two arguments.",
 [M+"transforms/set_batch_size.cc", M+"tests/set_batch_size.mlir"], [("SetBatchSize::runOnOperation", M+"transforms/set_batch_size.cc")],
 ["module printed by the real pass in lce-tf-opt"])
NOPY = "The Python tests need the compiled converter and do not run here; "
prop("C16", "Integer input/output conversion removes only boundary conversions",
 "Requesting int8 inputs and/or outputs for an integer-quantized model yields a well-formed model whose inputs (outputs) at a float boundary conversion become the int8 tensors behind it, in the same order and under the same signature names, for every signature; all other operators, options, intermediates, weights, tensor types, names and quantization are unchanged, and a conversion whose float tensor is still needed elsewhere in the model stays usable. A model without quantize/dequantize operators, or whose boundary conversions are not float32/int8, is refused with a ValueError.",
 ["programs", "configurations"], "all models (graphs, tensor numberings, subgraphs, signatures, shared and repeated tensors) and all four type combinations",
 NOPY + "they only convert one or two Keras models whose tensors happen to be numbered favourably.",
 [M+"python/util.py"], [("modify_integer_quantized_model_io_type", M+"python/util.py"), ("tensor removal and renumbering", M+"python/util.py")],
 ["serialized model returned"])
prop("C17", "Stripping dequantization exposes the packed outputs and nothing else",
 "Stripping the LceDequantize operators makes every output that was produced by an LceDequantize (optionally followed by a Dequantize), or by a float Dequantize, deliver the tensor before these operators, in the same position and under the same signature names, in every subgraph; inner operators, values read by other operators, and all remaining structure are unchanged and the model stays well-formed. A model without such operators, or with ill-typed ones at its outputs, is refused with a ValueError.",
 ["programs"], "all models: graphs, numberings, several subgraphs and signatures, chains of both operators, shared tensors",
 NOPY + "a single linear model is tested.",
 [M+"python/util.py"], [("strip_lcedequantize_ops", M+"python/util.py")], ["serialized model returned"])
W = "larq_compute_engine/tflite/python/"
NOEXT = "The interpreter's Python tests need the compiled extension and do not run here; "
prop("C18", "Interpreter.predict runs every sample once, in order, and returns its outputs",
 "Interpreter.predict runs the samples of an array, list of arrays or iterator one at a time, each exactly once, in order, as a batch of one with exactly the given values whatever the arrays' memory layout, and returns per model output the concatenation of what the model computed for each sample, as copies later invocations cannot change; if an invocation fails, an error is raised and nothing is returned.",
 ["inputs", "histories"], "all sequences of predict calls, input forms (array, list, iterator), numbers of samples, model signatures, array layouts, failing invocations",
 NOEXT + "they call predict a few times on one-input models.",
 [W+"interpreter_base.py", W+"interpreter_wrapper_utils.h", W+"interpreter_wrapper_lite.cc"],
 [("InterpreterBase.predict", W+"interpreter_base.py"), ("InterpreterWrapperBase::predict", W+"interpreter_wrapper_utils.h")],
 ["arrays returned by predict", "input tensors at each invocation of the underlying interpreter"], state=[("flatbuffer_", "the model's bytes, which outlive the caller's", W+"interpreter_wrapper_lite.cc")])
prop("C19", "Interpreter reports and enforces the model's tensor properties",
 "The Interpreter reports for every model input and output, in model order, its numpy type, its shape, and its quantization scale(s) and zero point (None if it has none); data whose number of arrays, type or shape differ from the model's inputs is refused with an error before any invocation of that sample, and data that is no array, list or iterator with a ValueError; and the thread count and delegate option given at construction are those the model runs with.",
 ["inputs", "configurations"], "all models (types, ranks, per-tensor and per-channel quantization, tensor numberings), all ill-fitting data, all constructor options",
 NOEXT + "they inspect one float model.",
 [W+"interpreter_base.py", W+"interpreter.py", W+"interpreter_wrapper_utils.h", W+"interpreter_wrapper_lite.cc"],
 [("SetTensorFromNumpy", W+"interpreter_wrapper_utils.h"), ("LiteInterpreterWrapper constructor", W+"interpreter_wrapper_lite.cc")],
 ["Interpreter properties", "exceptions of predict", "thread count and resolver used"])
prop("C20", "A model of LCE ops computes the composition of its ops, sample after sample",
 "The Interpreter accepts a model built from LCE ops (mixed with others) exactly if every op is supported by the binary-convolution kernel chosen at construction, gives every op's output the shape its definition implies, and each prediction then leaves in every model output the composition of the ops' mathematical definitions applied to that sample, whatever earlier samples, predictions, threads or other ops have left in memory, without disturbing any other tensor.",
 ["configurations", "inputs", "histories"], "all networks of the four ops, all kernels, thread counts, sequences of predictions",
 NOEXT + "op tests run one op at a time; the end-to-end tests need the converter.",
 [K+"bconv2d.cc", K+"bmaxpool.cc", K+"quantization.cc", K+"lce_ops_register.h", W+"interpreter_wrapper_lite.cc", W+"interpreter_wrapper_utils.h"],
 [("LiteInterpreterWrapper constructor", W+"interpreter_wrapper_lite.cc"), ("OpData::padding_buffer and output transform per node", K+"bconv2d.cc")],
 ["contents of every tensor after every node", "predictions"])
T = M + "transforms/"
NOMLIR = "The converter's tests are file checks of hand-written modules (and most cannot be built here): each compares the printed output of one sample. "
prop("C21", "Recognising binarized convolutions preserves the model's function",
 "The prepare pass turns sign patterns, (padded) convolutions with a +1/-1 scaled filter and their inputs into LCE ops (for either target) such that, for every input, every output of the model has the values and type it had before; every convolution it replaces becomes one LceBconv2d whose strides, dilations, padding, pad value, channel count, filter and multiplier describe exactly that convolution; and whatever does not qualify (a filter that is not a sign times a per-channel scale, a padding value or geometry the kernel cannot express, a value other than a sign) is left as it is.",
 ["programs", "inputs", "configurations"], "all modules (sign idioms, filters, paddings, strides, dilations, shared values, other ops), both targets, all inputs",
 NOMLIR, [T+"prepare_tf.cc", T+"prepare_patterns_common.td", T+"prepare_patterns_target_arm.td", T+"padding.h", T+"common.h"],
 [("IsBinaryFilter, ComputeFilter, ComputeMultiplier", T+"prepare_tf.cc"), ("IsSamePadding, GetPadding", T+"padding.h"), ("sign and convolution patterns", T+"prepare_patterns_common.td")],
 ["module before and after the real pass"])
prop("C22", "Fusing arithmetic into binary convolutions preserves the model's function",
 "The optimize pass (either target) moves multiplications, divisions, additions, subtractions, activations and max pools into or across LCE ops only when every model output keeps its values and type for every input: in particular never past an activation or padding for which the result would differ, nor when the value in between is used elsewhere, and every fused LceBconv2d still describes the same convolution.",
 ["programs", "inputs", "configurations"], "all modules of convolutions, pools and surrounding arithmetic, constants of all broadcastable shapes, activations, paddings, uses; both targets",
 NOMLIR, [T+"optimize.cc", T+"optimize_patterns_common.td", T+"optimize_patterns_target_arm.td"],
 [("fusion patterns and their side conditions", T+"optimize_patterns_common.td"), ("activation and pool patterns", T+"optimize_patterns_target_arm.td")], ["module before and after the real pass"])
prop("C23", "Bit-packed convolution outputs compute the sign of what they replace",
 "When the optimize pass lets a binary convolution write bit-packed output, then for every value the accumulator can take and every channel, the threshold comparison (with the possibly negated filter) yields the sign of the activated, multiplied and biased value it replaces, including zero and negative multipliers, thresholds beyond the reachable range and clamping activations; and this happens only for convolutions whose padding permits it and whose float output is not needed.",
 ["programs", "inputs", "configurations"], "all multipliers, biases, activations, filter sizes and channel counts; every accumulator value",
 NOMLIR, [T+"optimize.cc", T+"optimize_patterns_target_arm.td"], [("WriteBitpackedActivations, GetThresholds", T+"optimize.cc")], ["thresholds, filter and padding of the rewritten LceBconv2d"])
prop("C24", "Compile-time bit-packing is bit-exact",
 "Packing convolution filters at conversion time, folding LceQuantize and LceDequantize of constants, and folding pairs of them yields exactly the bits and values the ops would compute at run time, for every shape, rank and number of channels (bits past the last channel zero), and only rewrites float filters of LceBconv2d.",
 ["programs", "inputs"], "all constants: shapes, ranks, values, element types; several uses",
 NOMLIR, [T+"bitpack.cc", T+"bitpack_weights.cc", T+"bitpack_weights_patterns.td", T+"bitpack_activations_patterns.td", M+"ir/lce_ops.cc"],
 [("Bitpack, Unpack", T+"bitpack.cc"), ("folders", M+"ir/lce_ops.cc")], ["constants in the rewritten module"])
prop("C25", "Padding is fused only where the operator pads identically",
 "The padding pass replaces an explicit zero padding followed by a convolution with VALID padding by a single convolution with SAME padding exactly when both read the same values at every position, and otherwise leaves them; every model output keeps its values and type.",
 ["programs", "inputs", "configurations"], "all paddings (any integer type, any sides and dimensions), values, filters, strides, dilations, operators",
 NOMLIR, [T+"fuse_padding.cc", T+"fuse_padding.td", T+"padding.h"], [("NoBatchAndChannelPadding, SamePadding", T+"fuse_padding.td"), ("IsSamePadding", T+"padding.h")], ["module before and after the real pass"])
prop("C26", "Quantization absorbs conversions without changing the function",
 "The LCE quantize pass lets LceBconv2d, LceDequantize and LceQuantize produce or consume int8 directly only where a quantize or dequantize operator stood next to them, with that operator's scale and zero point, keeping the float value for other readers, so that every output is what it was before (the sign of dequantized values included).",
 ["programs", "inputs"], "all modules around quantize/dequantize operators, scales, zero points, several uses",
 NOMLIR, [T+"quantize.cc", T+"quantize_patterns.td"], [("LCEQuantizePass patterns", T+"quantize_patterns.td")], ["module before and after the real pass"])
prop("C27", "Removal of pass-through operators preserves everything else",
 "Op removal replaces the results of tf.Identity, tf.IdentityN, tf.CheckNumerics, tf.Snapshot, tf.StopGradient and tf.PlaceholderWithDefault by the corresponding operands and changes nothing else in the program.",
 ["programs"], "all modules: chains, several results, several uses, returned values, other operators",
 NOMLIR, [T+"op_removal.cc", T+"op_removal_patterns.td"], [("op removal patterns", T+"op_removal_patterns.td")], ["module before and after the real pass"])
prop("C28", "Detection post-processing is quantized soundly",
 "The detection pass makes exactly those TFLite_Detection_PostProcess operators work on int8 whose inputs all come from dequantize operators, reading the tensors behind these; the score output becomes an int8 tensor with the score input's parameters followed by a dequantize, all other results, options and readers stay as they were.",
 ["programs"], "all modules around custom operators: inputs, result types, uses, options",
 NOMLIR, [T+"detection_postprocess.cc"], [("DetectionPostProcess pattern", T+"detection_postprocess.cc")], ["module before and after the real pass"])
prop("C29", "Deployed operators carry exactly the converter's attributes",
 "Legalization writes every LCE op as a custom operator whose name and option bytes describe exactly its attributes, keeping operands, results and uses; translating back restores the very same op; other custom operators are untouched; and the kernels, given those bytes, accept and compute the operator the attributes describe.",
 ["programs", "configurations"], "all ops, attribute values and optional operands; other custom operators",
 "Kernel tests write the options themselves, converter tests compare printed bytes: nothing relates the writer and the reader.",
 [T+"legalize_tflite.cc", T+"translate_tflite.cc", M+"ir/lce_ops.cc", M+"ir/lce_ops.td", K+"bconv2d.cc", K+"bmaxpool.cc", K+"utils.h"],
 [("buildCustomOption", M+"ir/lce_ops.cc"), ("TranslateToLCEPattern", T+"translate_tflite.cc"), ("Init", K+"bconv2d.cc")], ["option bytes, rebuilt op, kernel behaviour"])
prop("C30", "The whole conversion preserves the model's function",
 "For every network of sign/convolution/normalization/activation/pooling layers (with or without quantization nodes) and either target, what a conversion exports is a legal program of deployable operators, for a batch of one, computing the same outputs as the original network for every input, in which no binary layer, fusible operator or pass-through operator that the converter knows is left; default quantization ranges, where requested, are the only thing that changes values; and the passes in sequence keep every intermediate program legal and the same in function.",
 ["programs", "inputs", "configurations"], "all networks of supported layers, both targets, static and dynamic batch, with and without quantization",
 NOMLIR + "The end-to-end tests convert a few models and need TensorFlow's converter.",
 [M+"tf_tfl_passes.cc", M+"tf_to_tfl_flatbuffer.cc", T+"prepare_tf.cc", T+"optimize.cc", T+"bitpack_weights.cc", T+"fuse_padding.cc", T+"legalize_tflite.cc", T+"set_batch_size.cc"],
 [("AddPreVariableFreezingTFToLCETFLConversionPasses, AddPostVariableFreezingTFToLCETFLConversionPasses", M+"tf_tfl_passes.cc"), ("AddQuantizationPasses", M+"tf_tfl_passes.cc")],
 ["module after every pass", "module given to TensorFlow's exporter"])
prop("C31", "A conversion request is carried out as asked, or refused",
 "The converter's native entry points hand TensorFlow's importer exactly the model, inputs (names, types, shapes), outputs, tags, signatures and version of the request; quantize (with float inputs of unknown range, to signed int8) exactly if asked, with the default range exactly if one was given; freeze variables with the model's own session; export with exactly the request's tags, custom operators allowed and TensorFlow operators not, under unique names of limited length; and return exactly the exported bytes. A request with an unknown target, no signature, several or no entry functions, control flow of version 1, or for which any stage fails raises an error and returns nothing.",
 ["inputs", "configurations", "histories"], "all requests, all points of failure",
 "No test reaches the native entry points without TensorFlow's build. ",
 [M+"python/common.cc", M+"python/graphdef_tfl_flatbuffer.cc", M+"python/saved_model_tfl_flatbuffer.cc", M+"python/pybind_export.cc", M+"tf_to_tfl_flatbuffer.cc"],
 [("GetNumInputs, GetLCETarget, ConvertMLIRModuleToTFLiteFlatBuffer", M+"python/common.cc"), ("IsValidGraph, TruncateOpOrArgLocNameMapper, ConvertTFExecutorToTFLOrFlatbuffer", M+"tf_to_tfl_flatbuffer.cc")],
 ["calls into TensorFlow", "returned bytes or exception"])
PY = "larq_compute_engine/mlir/python/"
prop("C32", "The Python conversion functions validate, fall back and return as documented",
 "convert_keras_model and convert_saved_model refuse, before converting anything, arguments that are no (single-precision) Keras model, missing or unreadable SavedModels, inference types other than float32 and int8, unknown targets, and graph mode; otherwise they ask the native converter for exactly the model, tag, signature, format version, target and default range they were given. If converting a Keras model as a SavedModel fails at any point, its graph is converted instead, with every input (name, type, shape, batch one where open) and output, quantized exactly if the graph or its functions hold training-time quantization or a default range was given; models with other open dimensions are refused. The caller gets exactly the native converter's bytes, with int8 inputs and outputs where asked for and quantized, or an error; a warning says that dummy ranges or the fallback were used. The model is unchanged and no files are left.",
 ["inputs", "configurations", "histories"], "all models, options and points of failure",
 "The repository's converter tests need its native extension, which cannot be built here, and cover a handful of option combinations and no failures of the native converter.",
 [PY+"converter.py", PY+"util.py"], [("convert_keras_model, convert_saved_model", PY+"converter.py"), ("_validate_options, _contains_training_quant_op", PY+"converter.py")],
 ["calls into the native extension", "returned bytes, exception, warnings", "model and temporary files"])
prop("C33", "A converted Keras model computes the Keras model's predictions",
 "For every Keras model of larq and Keras layers, converted either way, for either target, the program handed to TensorFlow Lite's exporter has the model's inputs and outputs and computes, for every input, exactly the model's predictions (with binarized weights and activations, batch normalization folded, and binary layers deployed as LCE operators) - except where default quantization ranges were asked for.",
 ["programs", "inputs", "configurations"], "all models of supported layers",
 "The end-to-end tests convert a few models and need TensorFlow's converter.",
 [PY+"converter.py", M+"tf_tfl_passes.cc", M+"tf_to_tfl_flatbuffer.cc", T+"prepare_tf.cc", T+"optimize.cc", T+"bitpack_weights.cc", T+"fuse_padding.cc", T+"legalize_tflite.cc", T+"set_batch_size.cc"],
 [("convert_keras_model", PY+"converter.py"), ("AddPreVariableFreezingTFToLCETFLConversionPasses, AddPostVariableFreezingTFToLCETFLConversionPasses", M+"tf_tfl_passes.cc")],
 ["the Keras model's predictions", "module given to TensorFlow's exporter"])
B = "larq_compute_engine/tflite/benchmark/"
prop("C34", "The shipped programs run a model with the kernel that was asked for",
 "The benchmark program runs a model, as often as asked, if and only if its command line is well-formed, the model can be read and every LCE op in it is supported by the binary-convolution kernel its flags ask for (the reference kernel if asked for, else the indirect one if asked for, else the optimized one, wherever the flags stand), computing every op correctly; it reports the flags' values (those given, or both in verbose mode), and exits with zero exactly on success. The minimal example and the Java binding's resolver provide the TensorFlow Lite and LCE ops with the optimized kernel.",
 ["inputs", "configurations"], "all command lines and models of LCE ops",
 "No test runs these programs.",
 [B+"lce_benchmark_main.cc", B+"lce_benchmark_tflite_model.cc", B+"lce_benchmark_tflite_model.h", "larq_compute_engine/tflite/java/lce_ops_jni.cc", "examples/lce_minimal.cc", "larq_compute_engine/tflite/kernels/lce_ops_register.h"],
 [("LceBenchmarkTfLiteModel::Run, GetFlags, LogParams", B+"lce_benchmark_tflite_model.cc"), ("RegisterSelectedOps", B+"lce_benchmark_main.cc"), ("CreateOpResolver", "larq_compute_engine/tflite/java/lce_ops_jni.cc")],
 ["exit code", "contents of every tensor the interpreter computes", "reported parameters"])
if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
