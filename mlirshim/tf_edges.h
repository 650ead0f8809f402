// Stand-ins for what larq's converter uses of TensorFlow besides the dialects:
// pass constructors, importer, exporter, options.  Declarations only; see
// convert_edges.cc and import_edges.cc.
#ifndef LCEV_TF_EDGES_H_
#define LCEV_TF_EDGES_H_
#include "llvm/ADT/StringSet.h"
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

#include "absl/types/span.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OwningOpRef.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassInstrumentation.h"
#include "mlir/Pass/PassManager.h"

namespace lcev {
class Status {
 public:
  Status() = default;
  explicit Status(std::string m) : bad_(true), m_(std::move(m)) {}
  bool ok() const { return !bad_; }
  const std::string& message() const { return m_; }
  std::string ToString() const { return bad_ ? m_ : "OK"; }
  void IgnoreError() const {}
 private:
  bool bad_ = false;
  std::string m_;
};
template <typename T> class StatusOr {
 public:
  StatusOr(T v) : v_(std::move(v)) {}
  StatusOr(Status s) : s_(std::move(s)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& value() { return *v_; }
  T& operator*() { return *v_; }
  T* operator->() { return &*v_; }
 private:
  Status s_;
  std::optional<T> v_;
};
}  // namespace lcev

namespace absl {
using Status = ::lcev::Status;
template <typename T> using StatusOr = ::lcev::StatusOr<T>;
inline Status OkStatus() { return Status(); }
inline Status InternalError(std::string m) { return Status(std::move(m)); }
inline Status InvalidArgumentError(std::string m) { return Status(std::move(m)); }
}  // namespace absl
namespace tsl {
using Status = ::lcev::Status;
template <typename T> using StatusOr = ::lcev::StatusOr<T>;
}

namespace toco {
class TocoFlags {
 public:
  void set_force_select_tf_ops(bool b) { force = b; }
  void set_allow_custom_ops(bool b) { custom = b; }
  void set_enable_select_tf_ops(bool b) { select = b; }
  bool force_select_tf_ops() const { return force; }
  bool enable_select_tf_ops() const { return select; }
  bool allow_custom_ops() const { return custom; }
  bool force = true, custom = false, select = false;
};
}  // namespace toco

namespace tensorflow {
using Status = ::lcev::Status;
using std::string;
inline Status OkStatus() { return Status(); }
namespace errors {
template <typename... A> Status InvalidArgument(A... a) { std::ostringstream s; (s << ... << a); return Status(s.str()); }
template <typename... A> Status Internal(A... a) { std::ostringstream s; (s << ... << a); return Status(s.str()); }
}  // namespace errors
enum DataType { DT_INVALID = 0, DT_FLOAT = 1, DT_INT8 = 6, DT_HALF = 19, DT_QINT8 = 11, DT_QUINT8 = 12, DT_QINT32 = 13 };
class Session { public: int id = 0; };
struct SavedModelBundle {
  Session s; bool has = true;
  Session* GetSession() { return has ? &s : nullptr; }
};
class GraphDef { public: std::string bytes; };
class GraphDebugInfo {};
struct ArrayInfo { std::string dtype; std::optional<std::vector<int>> shape; };
struct GraphImportConfig {
  using InputArrays = std::vector<std::pair<std::string, ArrayInfo>>;
  std::string graph_func_name;
  InputArrays inputs;
  std::vector<std::string> outputs, control_outputs;
  bool prune_unused_nodes = false, convert_legacy_fed_inputs = false, graph_as_function = false, upgrade_legacy = false,
       restrict_functionalization_to_compiled_nodes = false, enable_shape_inference = true, unconditionally_use_set_output_shapes = false;
};
Status LoadProtoFromBuffer(const std::string& bytes, GraphDef* g);
Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& dtypes,
                           const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportConfig::InputArrays* inputs);
Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* outputs);
lcev::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo& d, const GraphImportConfig& specs,
                                                                      mlir::MLIRContext* context, bool add_default_attributes = true);
lcev::StatusOr<mlir::OwningOpRef<mlir::ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags,
    absl::Span<const std::string> custom_opdefs, absl::Span<std::string> exported_names, const GraphImportConfig& specs, bool enable_variable_lifting,
    mlir::MLIRContext* context, std::unique_ptr<SavedModelBundle>* bundle);
namespace internal { Status RegisterAllCustomOps(const toco::TocoFlags& flags); }
using OpOrVal = llvm::PointerUnion<mlir::Operation*, mlir::Value>;
class OpOrArgNameMapper {
 public:
  virtual ~OpOrArgNameMapper();
  std::string GetUniqueName(OpOrVal v);
 protected:
  virtual std::string GetName(OpOrVal v) = 0;
 private:
  llvm::StringMap<int> used_;
  llvm::StringSet<> taken_;
};
class OpOrArgLocNameMapper : public OpOrArgNameMapper {
 public:
  ~OpOrArgLocNameMapper() override;
 protected:
  std::string GetName(OpOrVal v) override;
};
namespace converter { struct DebugOptions {}; }
void InitPassManager(mlir::PassManager& pm, const converter::DebugOptions& o, llvm::raw_ostream* s = nullptr);
}  // namespace tensorflow

namespace tflite {
namespace metrics { struct ConverterErrorData { enum Code { ERROR_UNSUPPORTED_CONTROL_FLOW_V1 = 3 }; }; }
struct FlatbufferExportOptions {
  toco::TocoFlags toco_flags;
  std::unordered_set<std::string> saved_model_tags;
  std::unordered_set<std::string>* unused = nullptr;
  tensorflow::OpOrArgNameMapper* op_or_arg_name_mapper = nullptr;
};
bool MlirToFlatBufferTranslateFunction(mlir::ModuleOp module, const FlatbufferExportOptions& options, std::string* out, bool serialize_stablehlo_ops = false);
}  // namespace tflite

namespace mlir {
namespace quant {
enum class QDQConversionMode { kQDQNone, kQDQStatic, kQDQDynamic };
struct QuantizationSpecs {
  bool weight_quantization = false, post_training_quantization = false, disable_infer_tensor_range = false, enable_mlir_dynamic_range_quantizer = false;
  tensorflow::DataType inference_type = tensorflow::DT_FLOAT, inference_input_type = tensorflow::DT_FLOAT;
  std::vector<std::pair<std::optional<double>, std::optional<double>>> input_ranges;
  std::pair<std::optional<double>, std::optional<double>> default_ranges;
  std::string serialized_quant_stats;
  QDQConversionMode qdq_conversion_mode = QDQConversionMode::kQDQNone;
  bool legacy_float_scale = false, verify_numeric = false, whole_model_verify = false;
  bool RunPropagationAndRewriteQuantizationPasses() const { return inference_type != tensorflow::DT_FLOAT && !weight_quantization; }
  bool IsSignedInferenceType() const { return inference_type != tensorflow::DT_QUINT8; }
};
}  // namespace quant
class StatusScopedDiagnosticHandler : public ScopedDiagnosticHandler {
 public:
  explicit StatusScopedDiagnosticHandler(MLIRContext* c, bool propagate = false, bool filter_stack = false);
  ~StatusScopedDiagnosticHandler();
  lcev::Status ConsumeStatus();
  lcev::Status Combine(lcev::Status s);
 private:
  std::string text_;
};
namespace tf_executor {
#define LCEV_OP(C, N) struct C { static bool classof(const Operation* op) { return const_cast<Operation*>(op)->getName().getStringRef() == N; } };
LCEV_OP(SwitchOp, "tf_executor.Switch") LCEV_OP(MergeOp, "tf_executor.Merge") LCEV_OP(EnterOp, "tf_executor.Enter") LCEV_OP(ExitOp, "tf_executor.Exit")
LCEV_OP(NextIterationSinkOp, "tf_executor.NextIteration.Sink") LCEV_OP(NextIterationSourceOp, "tf_executor.NextIteration.Source")
#undef LCEV_OP
}  // namespace tf_executor
using FuncPass = std::unique_ptr<OperationPass<func::FuncOp>>;
using ModulePass = std::unique_ptr<OperationPass<ModuleOp>>;
namespace TFL {
void AttachErrorCode(InFlightDiagnostic&& d, tflite::metrics::ConverterErrorData::Code c);
class ErrorCollectorInstrumentation : public PassInstrumentation {
 public:
  explicit ErrorCollectorInstrumentation(MLIRContext* c);
  ~ErrorCollectorInstrumentation() override;
};
std::vector<std::string> AllTfFakeQuantOps();
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& s);
FuncPass CreateDefaultQuantParamsPass(double min, double max, bool is_signed);
FuncPass CreateQuantizePass();
FuncPass CreatePostQuantizePass(bool emit_quant_adaptor_ops = true);
FuncPass CreatePostQuantizeRemoveQDQPass();
FuncPass CreateOptimizeOpOrderPass();
FuncPass CreateOptimizePass(bool enable_canonicalization);
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>& ops);
ModulePass CreatePrepareCompositeFunctionsPass();
ModulePass CreateLowerStaticTensorListPass();
ModulePass CreateLegalizeTFWhilePass();
FuncPass CreateReduceWhileOperandsPass();
FuncPass CreatePrepareTFPass(bool unfold_batch_matmul, bool allow_bf16_and_f16_type_legalization);
FuncPass CreateLegalizeTFPass(bool run_tfl_runtime_verification);
ModulePass CreateAnalyzeVariablesPass();
ModulePass CreateLegalizeVariablesPass();
ModulePass CreateLegalizeHashTablesPass();
ModulePass CreateOptimizeFunctionalOpsPass();
FuncPass CreateSplitMergedOperandsPass();
ModulePass CreateInsertCallOnceOpFromSessionInitializerPass();
ModulePass CreateUnfoldLargeSplatConstantPass();
ModulePass CreateWhileOutlinePass();
FuncPass CreateRuntimeVerifyPass();
}  // namespace TFL
namespace TF {
struct StandardPipelineOptions { bool enable_inliner = false, form_clusters = false; };
struct LayoutOptimizationPipelineOptions { std::string force_data_format; bool skip_fold_transpose_in_ops = false; };
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions& o);
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& o);
FuncPass CreateDeviceIndexSelectorPass();
ModulePass CreateTFShapeInferencePass();
ModulePass CreateTFFunctionalControlFlowToRegions();
ModulePass CreateTFRegionControlFlowToFunctional();
FuncPass CreateInitTextFileToImportPass(std::string dir);
}  // namespace TF
namespace TFDevice { FuncPass CreateDecomposeResourceOpsPass(); }
namespace tf_saved_model {
ModulePass CreateOptimizeGlobalTensorsPass();
ModulePass CreateFreezeGlobalTensorsPass(bool allow_mutable_tensors = false);
ModulePass CreateFreezeAssetsPass(std::string dir = "");
LogicalResult FreezeVariables(ModuleOp m, tensorflow::Session* s);
}  // namespace tf_saved_model
namespace odml {
ModulePass createPrintOpStatsPass(std::vector<std::string> accepted);
std::vector<std::string> GetAcceptedTFLiteDialects();
}  // namespace odml
}  // namespace mlir
#endif
