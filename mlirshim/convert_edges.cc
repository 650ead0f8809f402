// Stand-ins for TensorFlow's passes, importer and exporter around larq's
// conversion, and the recorder of what happens (file $LCEV_REC, one JSON event
// per line).  $LCEV_FAIL names what is to fail; $LCEV_OUT the file whose
// contents the exporter returns.
#include <cstdlib>
#include <fstream>

#include "larq_compute_engine/mlir/transforms/passes.h"
#include "mlir/Parser/Parser.h"
#include "mlir_graph.h"
#include "tf_edges.h"

namespace {
bool fails(const char* what) {
  const char* f = getenv("LCEV_FAIL");
  return f && *f && std::string(f) == what;
}
void record(const std::string& s) {
  if (const char* p = getenv("LCEV_REC")) std::ofstream(p, std::ios::app) << s << "\n";
}
template <typename C> std::string strs(const C& v) {
  std::vector<std::string> x(v.begin(), v.end());
  std::string s = "[";
  for (auto& e : x) s += (s.size() > 1 ? "," : "") + q(e);
  return s + "]";
}
template <typename C> std::string sorted(const C& v) {
  std::vector<std::string> x(v.begin(), v.end());
  std::sort(x.begin(), x.end());
  return strs(x);
}
std::string b(bool x) { return x ? "true" : "false"; }
func::FuncOp entry(ModuleOp m) {
  func::FuncOp first;
  for (auto f : m.getOps<func::FuncOp>()) {
    if (!first) first = f;
    if (f->hasAttr("tf.entry_function")) return f;
  }
  return first;
}
std::string moduleGraph(ModuleOp m) { auto f = entry(m); return f ? graph(f) : "null"; }
std::string last;

struct Recorder : PassInstrumentation {
  void done(Pass* p, Operation* op, bool ok) {
    std::string n;
    llvm::raw_string_ostream os(n);
    p->printAsTextualPipeline(os);
    os.flush();
    if (p->getArgument().empty()) return;   // pass adaptors
    ModuleOp m = llvm::isa<ModuleOp>(op) ? llvm::cast<ModuleOp>(op) : op->getParentOfType<ModuleOp>();
    auto f = llvm::dyn_cast<func::FuncOp>(op);
    if (f && f != entry(m)) return;
    std::string g = moduleGraph(m);
    std::string s = "{\"e\":\"pass\",\"n\":" + q(n) + ",\"ok\":" + b(ok);
    if (g != last || !ok) s += ",\"g\":" + g;
    last = g;
    record(s + "}");
  }
  void runAfterPass(Pass* p, Operation* op) override { done(p, op, true); }
  void runAfterPassFailed(Pass* p, Operation* op) override { done(p, op, false); }
};

// ---- passes that do nothing here -----------------------------------------------
template <typename T> struct Nothing : PassWrapper<Nothing<T>, OperationPass<T>> {
  std::string name;
  bool fail = false;
  Nothing(std::string n, bool f = false) : name(std::move(n)), fail(f) {}
  Nothing(const Nothing& o) : PassWrapper<Nothing<T>, OperationPass<T>>(o), name(o.name), fail(o.fail) {}
  StringRef getArgument() const final { return name; }
  void runOnOperation() override {
    if (fail) { this->getOperation()->emitError("told to fail"); this->signalPassFailure(); }
  }
};
FuncPass F(const char* n, const char* fail = "") { return std::make_unique<Nothing<func::FuncOp>>(n, fails(fail)); }
ModulePass M(const char* n, const char* fail = "") { return std::make_unique<Nothing<ModuleOp>>(n, fails(fail)); }

// ---- shape inference: the batch dimension ----------------------------------------
struct Shapes : PassWrapper<Shapes, OperationPass<ModuleOp>> {
  StringRef getArgument() const final { return "tf-shape-inference"; }
  void runOnOperation() override {
    for (auto f : getOperation().getOps<func::FuncOp>()) {
      if (f.isExternal()) continue;
      auto batch = [](Type t) { auto r = llvm::dyn_cast<RankedTensorType>(t); return r && r.getRank() > 0 ? r.getDimSize(0) : -2; };
      auto with = [](Type t, int64_t n) {
        auto r = llvm::cast<RankedTensorType>(t);
        SmallVector<int64_t> d(r.getShape());
        d[0] = n;
        return RankedTensorType::get(d, r.getElementType());
      };
      // the batch of what an op computes is that of the first operand that depends on an input
      llvm::DenseSet<Value> fed(f.getArguments().begin(), f.getArguments().end());
      f.walk([&](Operation* op) {
        if (llvm::isa<func::ReturnOp>(op)) return;
        int64_t n = -2;
        bool live = false;
        for (auto o : op->getOperands()) {
          if (!fed.contains(o)) continue;
          live = true;
          if (n == -2 && batch(o.getType()) != -2) n = batch(o.getType());
        }
        for (auto r : op->getResults()) {
          if (live) fed.insert(r);
          if (n >= 0 && batch(r.getType()) == ShapedType::kDynamic) r.setType(with(r.getType(), n));
        }
      });
      auto ret = llvm::cast<func::ReturnOp>(f.getBody().front().getTerminator());
      f.setFunctionType(FunctionType::get(f.getContext(), f.getFunctionType().getInputs(), ret.getOperandTypes()));
    }
  }
};

// ---- preparation, legalization, optimization of the float graph --------------------
template <typename Body> struct ByName : RewritePattern {
  ByName(MLIRContext* c, StringRef n) : RewritePattern(n, 1, c) {}
  LogicalResult matchAndRewrite(Operation* op, PatternRewriter& rw) const override { return Body()(op, rw); }
};
struct BatchNorm {
  LogicalResult operator()(Operation* op, PatternRewriter& rw) const {
    DenseElementsAttr v[4];
    for (int i = 0; i < 4; i++) if (!matchPattern(op->getOperand(i + 1), m_Constant(&v[i]))) return failure();
    for (unsigned i = 1; i < op->getNumResults(); i++) if (!op->getResult(i).use_empty()) return failure();
    auto e = op->getAttrOfType<FloatAttr>("epsilon");
    if (!e || !v[0].getElementType().isF32()) return failure();
    auto g = v[0].getValues<float>(), o = v[1].getValues<float>(), m = v[2].getValues<float>(), s = v[3].getValues<float>();
    int64_t n = v[0].getNumElements();
    std::vector<float> mul(n), add(n);
    for (int64_t i = 0; i < n; i++) {
      mul[i] = g[i] / std::sqrt(s[i] + (float)e.getValueAsDouble());
      add[i] = o[i] - m[i] * mul[i];
    }
    auto t = RankedTensorType::get({n}, v[0].getElementType());
    Value x = rw.create<TF::MulOp>(op->getLoc(), op->getOperand(0), rw.create<arith::ConstantOp>(op->getLoc(), DenseElementsAttr::get(t, ArrayRef<float>(mul))));
    x.setType(op->getResult(0).getType());
    Value y = rw.create<TF::AddV2Op>(op->getLoc(), x, rw.create<arith::ConstantOp>(op->getLoc(), DenseElementsAttr::get(t, ArrayRef<float>(add))));
    y.setType(op->getResult(0).getType());
    SmallVector<Value> r(op->getNumResults(), y);
    for (unsigned i = 1; i < r.size(); i++) r[i] = op->getOperand(1);
    rw.replaceOp(op, r);
    return success();
  }
};
Value quantDequant(OpBuilder& b, Location l, Value x, double scale, int64_t zp) {
  auto t = llvm::cast<RankedTensorType>(x.getType());
  auto qt = quant::UniformQuantizedType::get(quant::QuantizationFlags::Signed, b.getIntegerType(8), b.getF32Type(), scale, zp, -128, 127);
  auto rt = RankedTensorType::get(t.getShape(), qt);
  OperationState s(l, "tfl.quantize");
  s.addOperands(x); s.addTypes(rt); s.addAttribute("qtype", TypeAttr::get(rt));
  Value y = b.create(s)->getResult(0);
  OperationState d(l, "tfl.dequantize");
  d.addOperands(y); d.addTypes(t);
  return b.create(d)->getResult(0);
}
struct FakeQuant {
  LogicalResult operator()(Operation* op, PatternRewriter& rw) const {
    double lo = op->getAttrOfType<FloatAttr>("min").getValueAsDouble(), hi = op->getAttrOfType<FloatAttr>("max").getValueAsDouble();
    double scale = (hi - lo) / 255;
    Value y = quantDequant(rw, op->getLoc(), op->getOperand(0), scale, (int64_t)std::lround(-128 - lo / scale));
    rw.replaceOp(op, y);
    return success();
  }
};
struct Forward {
  LogicalResult operator()(Operation* op, PatternRewriter& rw) const { rw.replaceOp(op, op->getOperands().take_front(op->getNumResults())); return success(); }
};
struct BiasAdd {
  LogicalResult operator()(Operation* op, PatternRewriter& rw) const {
    auto n = rw.create<TFL::AddOp>(op->getLoc(), op->getOperand(0), op->getOperand(1), rw.getStringAttr("NONE"));
    n->getResult(0).setType(op->getResult(0).getType());
    rw.replaceOp(op, n->getResults());
    return success();
  }
};
// An activation becomes part of the op before it.
template <typename Act> struct FuseAct : OpRewritePattern<Act> {
  StringRef to;
  FuseAct(MLIRContext* c, StringRef to) : OpRewritePattern<Act>(c), to(to) {}
  LogicalResult matchAndRewrite(Act op, PatternRewriter& rw) const override {
    Operation* x = op->getOperand(0).getDefiningOp();
    if (!x || !x->hasOneUse() || !llvm::isa<TFL::AddOp, TFL::SubOp, TFL::MulOp, TFL::MaxPool2DOp, TFL::Conv2DOp>(x)) return failure();
    auto a = x->getAttrOfType<StringAttr>("fused_activation_function");
    if (!a || a.getValue() != "NONE") return failure();
    rw.modifyOpInPlace(x, [&] { x->setAttr("fused_activation_function", rw.getStringAttr(to)); });
    rw.replaceOp(op, x->getResults());
    return success();
  }
};
// Default ranges: every binary convolution's and argument's float values.
struct Greedy : PassWrapper<Greedy, OperationPass<func::FuncOp>> {
  std::string name;
  std::function<void(func::FuncOp, RewritePatternSet&)> fill;
  Greedy(std::string n, std::function<void(func::FuncOp, RewritePatternSet&)> f) : name(std::move(n)), fill(std::move(f)) {}
  Greedy(const Greedy& o) : PassWrapper<Greedy, OperationPass<func::FuncOp>>(o), name(o.name), fill(o.fill) {}
  StringRef getArgument() const final { return name; }
  void getDependentDialects(DialectRegistry& r) const override { r.insert<TFL::TensorFlowLiteDialect, arith::ArithDialect, quant::QuantizationDialect>(); }
  void runOnOperation() override {
    RewritePatternSet p(&getContext());
    fill(getOperation(), p);
    (void)applyPatternsAndFoldGreedily(getOperation(), std::move(p));
  }
};
struct FoldQdq : RewritePattern {
  FoldQdq(MLIRContext* c) : RewritePattern("tfl.dequantize", 1, c) {}
  LogicalResult matchAndRewrite(Operation* op, PatternRewriter& rw) const override {
    Operation* x = op->getOperand(0).getDefiningOp();
    if (!x || x->getName().getStringRef() != "tfl.quantize") return failure();
    Operation* c = x->getOperand(0).getDefiningOp();
    if (!c || !llvm::isa<arith::ConstantOp>(c)) return failure();
    rw.replaceOp(op, x->getOperand(0));
    return success();
  }
};
// Constants of binary convolutions that are exact on a grid get quantized.
void quantizeConstants(func::FuncOp f) {
  f.walk([&](lq::Bconv2dOp op) {
    for (int i = 2; i < 4; i++) {
      DenseElementsAttr v;
      if (!matchPattern(op->getOperand(i), m_Constant(&v)) || !v.getElementType().isF32()) continue;
      bool ok = true;
      for (float x : v.getValues<float>()) ok = ok && std::abs(x) <= 31 && x * 4 == std::floor(x * 4);
      if (!ok) continue;
      OpBuilder b(op);
      op->setOperand(i, quantDequant(b, op.getLoc(), op->getOperand(i), 0.25, 0));
    }
  });
}
void quantizeDefault(func::FuncOp f, double lo, double hi) {
  double scale = (hi - lo) / 255;
  int64_t zp = std::lround(-128 - lo / scale);
  auto wrap = [&](Value v) {
    if (!llvm::isa<RankedTensorType>(v.getType()) || !llvm::cast<RankedTensorType>(v.getType()).getElementType().isF32()) return;
    for (auto u : v.getUsers()) if (u->getName().getStringRef() == "tfl.quantize") return;
    OpBuilder b(f.getContext());
    b.setInsertionPointAfterValue(v);
    Value y = quantDequant(b, f.getLoc(), v, scale, zp);
    v.replaceUsesWithIf(y, [&](OpOperand& o) { return o.getOwner() != y.getDefiningOp()->getOperand(0).getDefiningOp(); });
  };
  SmallVector<Value> vs;
  f.walk([&](Operation* op) { if (llvm::isa<lq::Bconv2dOp, lq::DequantizeOp>(op)) vs.push_back(op->getResult(0)); });
  for (auto v : vs) wrap(v);
}
struct Apply : PassWrapper<Apply, OperationPass<func::FuncOp>> {
  std::string name;
  std::function<void(func::FuncOp)> f;
  Apply(std::string n, std::function<void(func::FuncOp)> f) : name(std::move(n)), f(std::move(f)) {}
  Apply(const Apply& o) : PassWrapper<Apply, OperationPass<func::FuncOp>>(o), name(o.name), f(o.f) {}
  StringRef getArgument() const final { return name; }
  void getDependentDialects(DialectRegistry& r) const override { r.insert<TFL::TensorFlowLiteDialect, quant::QuantizationDialect>(); }
  void runOnOperation() override { f(getOperation()); }
};
}  // namespace

namespace mlir {
StatusScopedDiagnosticHandler::StatusScopedDiagnosticHandler(MLIRContext* c, bool, bool) : ScopedDiagnosticHandler(c) {
  setHandler([this](Diagnostic& d) { text_ += str(d) + "\n"; return success(); });
}
StatusScopedDiagnosticHandler::~StatusScopedDiagnosticHandler() {}
lcev::Status StatusScopedDiagnosticHandler::ConsumeStatus() {
  std::string t;
  std::swap(t, text_);
  return t.empty() ? lcev::Status() : lcev::Status(t);
}
lcev::Status StatusScopedDiagnosticHandler::Combine(lcev::Status s) {
  auto c = ConsumeStatus();
  if (s.ok()) return c;
  return c.ok() ? s : lcev::Status(s.message() + "\n" + c.message());
}
namespace TFL {
void AttachErrorCode(InFlightDiagnostic&& d, tflite::metrics::ConverterErrorData::Code) { d.report(); }
ErrorCollectorInstrumentation::ErrorCollectorInstrumentation(MLIRContext*) {}
ErrorCollectorInstrumentation::~ErrorCollectorInstrumentation() {}
std::vector<std::string> AllTfFakeQuantOps() { return {"tf.FakeQuantWithMinMaxArgs", "tf.FakeQuantWithMinMaxVars", "tf.FakeQuantWithMinMaxVarsPerChannel"}; }
FuncPass CreatePrepareQuantizePass(const quant::QuantizationSpecs& s) {
  std::string r = "[";
  for (auto& x : s.input_ranges) r += std::string(r.size() > 1 ? "," : "") + (x.first || x.second ? "1" : "0");
  record("{\"e\":\"quantize\",\"type\":" + std::to_string(s.inference_type) + ",\"input\":" + std::to_string(s.inference_input_type) + ",\"ranges\":" + r +
         "],\"post\":" + b(s.post_training_quantization) + "}");
  return std::make_unique<Apply>("tfl-prepare-quantize", [](func::FuncOp f) { quantizeConstants(f); });
}
FuncPass CreateDefaultQuantParamsPass(double lo, double hi, bool is_signed) {
  record("{\"e\":\"default\",\"min\":" + hexd(lo) + ",\"max\":" + hexd(hi) + ",\"signed\":" + b(is_signed) + "}");
  return std::make_unique<Apply>("tfl-default-quant", [=](func::FuncOp f) { quantizeDefault(f, lo, hi); });
}
FuncPass CreateQuantizePass() { return std::make_unique<Greedy>("tfl-quantize", [](func::FuncOp, RewritePatternSet& p) { p.add<FoldQdq>(p.getContext()); }); }
FuncPass CreatePostQuantizePass(bool) { return F("tfl-post-quantize"); }
FuncPass CreatePostQuantizeRemoveQDQPass() { return F("tfl-post-quantize-remove-qdq"); }
FuncPass CreateOptimizeOpOrderPass() { return F("tfl-optimize-op-order"); }
FuncPass CreateOptimizePass(bool) {
  return std::make_unique<Greedy>("tfl-optimize", [](func::FuncOp, RewritePatternSet& p) {
    p.add<FuseAct<TFL::ReluOp>>(p.getContext(), "RELU"); p.add<FuseAct<TFL::Relu6Op>>(p.getContext(), "RELU6"); p.add<FuseAct<TFL::Relu1Op>>(p.getContext(), "RELU_N1_TO_1");
  });
}
FuncPass CreateRaiseCustomOpsPass(const std::vector<std::string>&) { return F("tfl-raise-custom-ops", "pre"); }
ModulePass CreatePrepareCompositeFunctionsPass() { return M("tfl-prepare-composite-funcs-tf"); }
ModulePass CreateLowerStaticTensorListPass() { return M("tfl-lower-static-tensor-list"); }
ModulePass CreateLegalizeTFWhilePass() { return M("tfl-legalize-tf-while"); }
FuncPass CreateReduceWhileOperandsPass() { return F("tfl-reduce-while"); }
FuncPass CreatePrepareTFPass(bool, bool) {
  return std::make_unique<Greedy>("tfl-prepare-tf", [](func::FuncOp, RewritePatternSet& p) {
    p.add<ByName<BatchNorm>>(p.getContext(), "tf.FusedBatchNormV3");
    p.add<ByName<FakeQuant>>(p.getContext(), "tf.FakeQuantWithMinMaxArgs");
  });
}
FuncPass CreateLegalizeTFPass(bool) {
  if (fails("post")) return F("tfl-legalize-tf", "post");
  return std::make_unique<Greedy>("tfl-legalize-tf", [](func::FuncOp, RewritePatternSet& p) {
    shimLegalizePatterns(p);
    for (auto n : {"tf.Identity", "tf.IdentityN", "tf.StopGradient", "tf.Snapshot"}) p.add<ByName<Forward>>(p.getContext(), n);
    p.add<ByName<BiasAdd>>(p.getContext(), "tf.BiasAdd");
  });
}
ModulePass CreateAnalyzeVariablesPass() { return M("tfl-analyze-variables"); }
ModulePass CreateLegalizeVariablesPass() { return M("tfl-legalize-variables"); }
ModulePass CreateLegalizeHashTablesPass() { return M("tfl-legalize-hashtables"); }
ModulePass CreateOptimizeFunctionalOpsPass() { return M("tfl-optimize-functional-ops"); }
FuncPass CreateSplitMergedOperandsPass() { return F("tfl-split-merged-operands"); }
ModulePass CreateInsertCallOnceOpFromSessionInitializerPass() { return M("tfl-insert-call-once-op"); }
ModulePass CreateUnfoldLargeSplatConstantPass() { return M("tfl-unfold-large-splat-constant"); }
ModulePass CreateWhileOutlinePass() { return M("tfl-while-loop-outline"); }
FuncPass CreateRuntimeVerifyPass() { return F("tfl-runtime-verify"); }
}  // namespace TFL
namespace TF {
void CreateTFStandardPipeline(OpPassManager& pm, const StandardPipelineOptions&) { pm.addPass(M("tf-standard-pipeline")); }
void CreateLayoutOptimizationPipeline(OpPassManager& pm, const LayoutOptimizationPipelineOptions& o) {
  record("{\"e\":\"layout\",\"format\":" + q(o.force_data_format) + "}");
  pm.addPass(F("tf-layout-optimization"));
}
FuncPass CreateDeviceIndexSelectorPass() { return F("tf-device-index-selector"); }
ModulePass CreateTFShapeInferencePass() { return std::make_unique<Shapes>(); }
ModulePass CreateTFFunctionalControlFlowToRegions() { return M("tf-functional-control-flow-to-regions"); }
ModulePass CreateTFRegionControlFlowToFunctional() { return M("tf-region-control-flow-to-functional"); }
FuncPass CreateInitTextFileToImportPass(std::string) { return F("tf-init-text-file-to-import"); }
}  // namespace TF
namespace TFDevice { FuncPass CreateDecomposeResourceOpsPass() { return F("tf-device-decompose-resource-ops"); } }
namespace tf_saved_model {
ModulePass CreateOptimizeGlobalTensorsPass() { return M("tf-saved-model-optimize-global-tensors"); }
ModulePass CreateFreezeGlobalTensorsPass(bool) { return M("tf-saved-model-freeze-global-tensors"); }
ModulePass CreateFreezeAssetsPass(std::string dir) {
  record("{\"e\":\"assets\",\"dir\":" + q(dir) + "}");
  return M("tf-saved-model-freeze-assets");
}
LogicalResult FreezeVariables(ModuleOp, tensorflow::Session* s) {
  record("{\"e\":\"freeze\",\"session\":" + b(s) + "}");
  return failure(fails("freeze"));
}
}  // namespace tf_saved_model
namespace odml {
ModulePass createPrintOpStatsPass(std::vector<std::string>) { return M("print-op-stats"); }
std::vector<std::string> GetAcceptedTFLiteDialects() { return {"tfl"}; }
}  // namespace odml
}  // namespace mlir

namespace tensorflow {
OpOrArgNameMapper::~OpOrArgNameMapper() {}
OpOrArgLocNameMapper::~OpOrArgLocNameMapper() {}
std::string OpOrArgNameMapper::GetUniqueName(OpOrVal v) {
  std::string n = GetName(v), u = n;
  for (int& k = used_[n]; !taken_.insert(u).second;) u = n + std::to_string(++k);
  return u;
}
std::string OpOrArgLocNameMapper::GetName(OpOrVal v) {
  Location l = v.is<Operation*>() ? v.get<Operation*>()->getLoc() : v.get<Value>().getLoc();
  std::string n;
  llvm::SmallVector<Location> todo{l};
  while (!todo.empty()) {
    auto x = todo.pop_back_val();
    if (auto nl = llvm::dyn_cast<NameLoc>(x)) n += (n.empty() ? "" : ";") + nl.getName().str();
    if (auto fl = llvm::dyn_cast<FusedLoc>(x)) for (auto y : llvm::reverse(fl.getLocations())) todo.push_back(y);
  }
  return n;
}
void InitPassManager(PassManager& pm, const converter::DebugOptions&, llvm::raw_ostream*) { pm.addInstrumentation(std::make_unique<Recorder>()); }

Status LoadProtoFromBuffer(const std::string& bytes, GraphDef* g) {
  if (fails("load")) return Status("told to fail");
  g->bytes = bytes;
  return Status();
}
Status ParseInputArrayInfo(const std::vector<std::string>& names, const std::vector<std::string>& dtypes,
                           const std::vector<std::optional<std::vector<int>>>& shapes, GraphImportConfig::InputArrays* inputs) {
  if (fails("inputs") || names.size() != dtypes.size() || names.size() != shapes.size()) return Status("bad inputs");
  for (size_t i = 0; i < names.size(); i++) inputs->push_back({names[i], ArrayInfo{dtypes[i], shapes[i]}});
  return Status();
}
Status ParseOutputArrayInfo(const std::vector<std::string>& names, std::vector<std::string>* outputs) {
  if (fails("outputs")) return Status("bad outputs");
  *outputs = names;
  return Status();
}
namespace {
lcev::StatusOr<OwningOpRef<ModuleOp>> parse(const std::string& text, MLIRContext* c) {
  if (fails("import")) return Status("told to fail");
  DialectRegistry r;
  r.insert<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, TF::TensorFlowDialect, TFL::TensorFlowLiteDialect>();
  c->appendDialectRegistry(r);
  c->disableMultithreading();
  c->loadAllAvailableDialects();
  c->allowUnregisteredDialects();
  std::string diag;
  OwningOpRef<ModuleOp> m;
  {
    ScopedDiagnosticHandler h(c, [&](Diagnostic& d) { diag += str(d) + "\n"; return success(); });
    m = parseSourceString<ModuleOp>(text, c);
    if (!m || failed(m->verifyInvariants())) { record("{\"e\":\"badmodule\",\"why\":" + q(diag) + "}"); return Status(diag); }
  }
  last = moduleGraph(*m);
  record("{\"e\":\"module\",\"g\":" + last + "}");
  return lcev::StatusOr<OwningOpRef<ModuleOp>>(std::move(m));
}
}  // namespace
lcev::StatusOr<OwningOpRef<ModuleOp>> ConvertGraphdefToMlir(const GraphDef& g, const GraphDebugInfo&, const GraphImportConfig& s, MLIRContext* c, bool) {
  std::string r = "{\"e\":\"import\",\"kind\":\"graphdef\",\"names\":[", d = "],\"dtypes\":[", h = "],\"shapes\":[";
  for (size_t i = 0; i < s.inputs.size(); i++) {
    std::string k = i ? "," : "";
    r += k + q(s.inputs[i].first);
    d += k + q(s.inputs[i].second.dtype);
    auto& sh = s.inputs[i].second.shape;
    h += k + (sh ? "[" : "\"none\"");
    if (sh) { for (size_t j = 0; j < sh->size(); j++) h += (j ? "," : "") + std::to_string((*sh)[j]); h += "]"; }
  }
  record(r + d + h + "],\"outputs\":" + strs(s.outputs) + ",\"prune\":" + b(s.prune_unused_nodes) + ",\"legacy\":" + b(s.convert_legacy_fed_inputs) +
         ",\"asfunc\":" + b(s.graph_as_function) + ",\"upgrade\":" + b(s.upgrade_legacy) + "}");
  return parse(g.bytes, c);
}
lcev::StatusOr<OwningOpRef<ModuleOp>> ImportSavedModel(const std::string& dir, int version, const std::unordered_set<std::string>& tags,
    absl::Span<const std::string>, absl::Span<std::string> names, const GraphImportConfig& s, bool lift, MLIRContext* c, std::unique_ptr<SavedModelBundle>* bundle) {
  record("{\"e\":\"import\",\"kind\":\"saved_model\",\"dir\":" + q(dir) + ",\"version\":" + std::to_string(version) + ",\"tags\":" + sorted(tags) + ",\"exported\":" + strs(names) +
         ",\"upgrade\":" + b(s.upgrade_legacy) + ",\"lift\":" + b(lift) + "}");
  if (fails("nobundle")) bundle->reset();
  else if (*bundle) (*bundle)->has = !fails("nosession");
  std::ifstream f(dir + "/module.mlir");
  if (!f) return Status("no such model");
  std::stringstream t;
  t << f.rdbuf();
  return parse(t.str(), c);
}
namespace internal {
Status RegisterAllCustomOps(const toco::TocoFlags&) { return fails("register") ? Status("told to fail") : Status(); }
}
}  // namespace tensorflow

namespace tflite {
bool MlirToFlatBufferTranslateFunction(ModuleOp m, const FlatbufferExportOptions& o, std::string* out, bool stablehlo) {
  std::string names = "[";
  if (o.op_or_arg_name_mapper)
    m.walk([&](Operation* op) {
      if (!op->getNumResults() || llvm::isa<ModuleOp, func::FuncOp>(op)) return;
      struct Plain : tensorflow::OpOrArgLocNameMapper { using OpOrArgLocNameMapper::GetName; } plain;
      std::string a = plain.GetName(op), u = o.op_or_arg_name_mapper->GetUniqueName(op);
      names += std::string(names.size() > 1 ? "," : "") + "[" + q(a) + "," + q(u) + "]";
    });
  record("{\"e\":\"export\",\"tags\":" + sorted(o.saved_model_tags) + ",\"custom\":" + b(o.toco_flags.allow_custom_ops()) + ",\"select\":" +
         b(o.toco_flags.force_select_tf_ops() || o.toco_flags.enable_select_tf_ops()) + ",\"stablehlo\":" + b(stablehlo) + ",\"names\":" + names + "],\"g\":" + moduleGraph(m) + "}");
  if (fails("export")) return false;
  {
    // what the kernels will be asked to do
    OwningOpRef<ModuleOp> c = m.clone();
    PassManager pm(m.getContext());
    last.clear();
    pm.addInstrumentation(std::make_unique<Recorder>());
    pm.addNestedPass<func::FuncOp>(TFL::CreateTranslateToLCEPass());
    (void)pm.run(*c);
  }
  if (const char* p = getenv("LCEV_OUT")) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    *out = s.str();
  }
  if (fails("verify")) m->setAttr("undialected", UnitAttr::get(m.getContext()));
  return true;
}
}  // namespace tflite
