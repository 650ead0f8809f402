T = "TLA+ trace validation: "
N = " Runs the portable C++ code natively and the AArch64 build (assembly kernels) by interpretation; assumes /verif/shim stands in for TF Lite, ruy and flexbuffers; bounded by the generated configurations."
MB = " Assumes /verif/lib/mtblgen.py and the TF/TFL dialect definitions in /verif/mlirshim stand in faithfully for mlir-tblgen and TensorFlow; floats are modelled as exact dyadic numbers; bounded by the generated modules."
CT = T + "Converter specification (graph semantics of tf/tfl/lq programs) + ConverterTrace over modules before/after the real passes"
TECH.update({
 "C01": (T + "RoundTrip model + LceNodeTrace over recorded LceQuantize histories", "Every bit of every recorded output is decided by TLC against the op's mathematical definition; all channel counts 1..130 and all int8 zero points are enumerated, shapes sampled." + N),
 "C02": (T + "RoundTrip model + LceNodeTrace over recorded LceDequantize histories", "As C01 for LceDequantize; round trips are proved on the model for small rows." + N),
 "C03": (T + "BinaryDot/Geometry models + LceNodeTrace over all three kernels", "Axis geometries enumerated by TLC are replayed pairwise on the real kernels; every output element is decided against the +1/-1 convolution." + N),
 "C04": (T + "kernel agreement as an invariant of LceNode invocations", "Outputs of all accepting kernels on the same tensors must be equal; larger shapes than C03 because only fingerprints are compared." + N),
 "C05": (T + "PadCache model (exhaustive small geometries) + LceNodeTrace", "The correction's case analysis is model checked for every small geometry; TLC-enumerated geometries are replayed on the real code." + N),
 "C06": (T + "BinaryDot output-stage model + LceNodeTrace on float/int8 outputs", "Exact dyadic arithmetic: float outputs must match exactly, int8 outputs must be a nearest saturated integer." + N),
 "C07": (T + "LceNodeTrace on bit-packed outputs", "Every bit incl. padding bits decided by TLC; all output channel counts 1..100 enumerated." + N),
 "C08": (T + "LceNodeTrace on grouped convolutions", "Reference and indirect kernels against the per-group convolution." + N),
 "C09": (T + "Geometry model + LceNodeTrace on LceBMaxPool2d", "TLC-enumerated window geometries replayed on the real op." + N),
 "C10": (T + "Lifecycle model; all its histories replayed on the real ops", "Every history of resize/allocate/feed/invoke up to the bound is generated by TLC from the cache model and replayed with fresh random configurations; arena buffers move and are poisoned on each allocation." + N),
 "C11": (T + "LceNode acceptance predicate against recorded Prepare outcomes", "Single and double mutations of valid configurations plus TLC-enumerated geometries." + N),
 "C12": (T + "Gemm model; its schedules replayed on the real kernels; GemmTrace on the words each block writes", "All 2x2-grid and sampled (thorough: all) 3x2-grid schedules, plus randomized block partitions on real threads." + N),
 "C13": (T + "guard and snapshot observations in LceNodeTrace, ASAN/UBSAN build", "Every buffer is surrounded by guards, inputs are compared before/after; heap errors are trapped." + N),
 "C14": (T + "registration step and kernel-discriminating configurations in LceNodeTrace", "All four flag combinations; the kernel selected is identified by what it accepts." + N),
 "C15": (T + "SetBatch model + SetBatchTrace over the real MLIR pass", "Random modules through the real pass (MLIR 18); function types, block arguments, everything else, and a second application are decided by TLC."),
 "C16": (T + "ModelIO rewriting model (meaning preserved, confluent) + ModelIOTrace over the real Python function", "Random serialized models through the real function; TLC computes the rewriting and compares the parsed result up to tensor numbering."),
 "C17": (T + "ModelIO rewriting model + ModelIOTrace over the real Python function", "As C16, over all subgraphs."),
 "C18": (T + "Predict model (results under buffer reuse, exhaustive for small sessions) + PredictTrace over sessions with the real extension module", "Random sessions: constructor, predict calls in every input form and array layout; each invocation's inputs and outputs are recorded beneath the real Python and C++ layers and TLC decides what may be returned. TensorFlow Lite's interpreter is replaced by /verif/shim's."),
 "C19": (T + "Predict model + PredictTrace over sessions with the real extension module", "As C18, with ill-fitting data, reported properties and constructor options."),
 "C20": (T + "Network specification + NetworkTrace over predictions of random networks through the real Interpreter classes", "Each node's recorded contents are decided by TLC against the op's definition, and dataflow between nodes, samples and predictions against Network; small shapes. TensorFlow Lite's memory planner is replaced by /verif/shim's (separate buffers, overwritten before each invocation)."),
 "C21": (CT + "; Rewrites model", "Random modules through the real pass on MLIR 18; TLC checks well-formedness, step conditions and equality of all outputs on sample inputs." + MB),
 "C22": (CT + "; Rewrites model (with negative configurations)", "As C21; the rewriting rules with their side conditions are proved meaning-preserving on the model for all small values." + MB),
 "C23": (CT + "; ThresholdTrace for every accumulator value", "As C21; thresholds of wide convolutions are decided for every reachable accumulator value." + MB),
 "C24": (CT, "As C21, packed constants compared bit by bit." + MB),
 "C25": (CT + "; Rewrites model", "As C21, with paddings of every kind." + MB),
 "C26": (CT, "As C21, on quantized types." + MB),
 "C27": (CT, "As C21; structural equality up to the removed ops." + MB),
 "C28": (CT, "As C21; structural specification of the pass." + MB),
 "C29": (CT + "; LceNodeTrace with the converter's option bytes on the real kernels", "As C21; options are decoded by an independent FlexBuffers implementation, and given to the real kernels." + MB),
 "C30": (CT + "; ConvertTrace over conversions through the real extension", "As C21 over the whole pass sequence, program by program, and from the imported to the exported program through the converter's real entry points and pipeline. TensorFlow's own passes in between are stand-ins." + MB),
 "C31": (T + "Convert request model (exhaustive over request kinds and points of failure) + ConvertTrace over conversions through the real extension", "The extension is built from the real sources; TensorFlow's importer, exporter and passes are recording stand-ins that fail where told. TLC decides every recorded call and the outcome." + N),
 "C32": (T + "Api model (exhaustive over a family of calls and outcomes) + ApiTrace over calls of the real Python functions on real Keras models", "Every native request, failure, result, warning and exception of a call is decided by TLC. The native extension is the real one (C31's build); the SavedModel and graph importers are the installed TensorFlow's; exported bytes are prepared ones." + N),
 "C34": (T + "Programs model (all short command lines) + ProgramsTrace over runs of the real programs", "The programs are built from the real sources against /verif/shim's benchmark base class and interpreter; every tensor of every run, the reported parameters and the exit code are decided by TLC." + N),
 "C33": (T + "ApiTrace over conversions of real larq/Keras networks: imported and exported programs against Keras's own predictions", "The imported program is tied to the model's predictions and the exported program to the imported one, exactly, on sample inputs; programs with ops the specification does not interpret are tied to the imported program only." + MB),
})
