// Stand-in implementations of the TF/TFL ops used by larq's converter passes:
// builders with result type deduction and constant folding of f32 arithmetic.
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/Matchers.h"
#include "mlir/Interfaces/FoldInterfaces.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

using namespace mlir;

namespace mlir { namespace TFL { namespace detail {
struct ConstBytesAttrStorage : public AttributeStorage {
  using KeyTy = StringRef;
  ConstBytesAttrStorage(StringRef v) : v(v) {}
  bool operator==(const KeyTy& k) const { return k == v; }
  static ConstBytesAttrStorage* construct(AttributeStorageAllocator& a, const KeyTy& k) {
    return new (a.allocate<ConstBytesAttrStorage>()) ConstBytesAttrStorage(a.copyInto(k));
  }
  StringRef v;
};
} 
ConstBytesAttr ConstBytesAttr::get(MLIRContext* c, StringRef v) { return Base::get(c, v); }
StringRef ConstBytesAttr::getValue() const { return getImpl()->v; }
} }

namespace {
Type Broadcast(Value a, Value b, Type elem = nullptr) {
  auto s = OpTrait::util::getBroadcastedType(a.getType(), b.getType(), elem);
  if (s) return s;
  auto x = llvm::cast<ShapedType>(a.getType());
  if (elem) return OpTrait::util::getBroadcastedType(a.getType(), b.getType(), elem);
  (void)x;
  return nullptr;
}
Type BroadcastBool(OpBuilder& b, Value l, Value r) {
  auto x = llvm::cast<ShapedType>(l.getType()), y = llvm::cast<ShapedType>(r.getType());
  SmallVector<int64_t, 4> s;
  if (!x.hasRank() || !y.hasRank() || !OpTrait::util::getBroadcastedShape(x.getShape(), y.getShape(), s)) return UnrankedTensorType::get(b.getI1Type());
  return RankedTensorType::get(s, b.getI1Type());
}
// f32 constant folding with numpy broadcasting.
template <typename F>
OpFoldResult FoldF32(Type result, Attribute l, Attribute r, F f) {
  auto a = llvm::dyn_cast_or_null<DenseElementsAttr>(l), b = llvm::dyn_cast_or_null<DenseElementsAttr>(r);
  if (!a || !b) return {};
  if (!a.getElementType().isF32() || !b.getElementType().isF32()) return {};
  SmallVector<int64_t, 4> s;
  if (!OpTrait::util::getBroadcastedShape(a.getType().getShape(), b.getType().getShape(), s)) return {};
  auto rt = llvm::dyn_cast<RankedTensorType>(result);
  if (!rt || rt.getShape() != ArrayRef<int64_t>(s)) return {};
  int64_t n = 1;
  for (auto d : s) n *= d;
  auto va = a.getValues<float>(), vb = b.getValues<float>();
  auto at = [&](DenseElementsAttr t, int64_t i) {
    auto sh = t.getType().getShape();
    int64_t off = 0, stride = 1;
    for (int k = (int)s.size() - 1, j = (int)sh.size() - 1; k >= 0; k--, j--) {
      int64_t ix = i % s[k]; i /= s[k];
      if (j >= 0) { off += (sh[j] == 1 ? 0 : ix) * stride; stride *= sh[j]; }
    }
    return off;
  };
  std::vector<float> out(n);
  for (int64_t i = 0; i < n; i++) { volatile float x = va[at(a, i)], y = vb[at(b, i)]; volatile float z = f(x, y); out[i] = z; }
  return DenseElementsAttr::get(rt, ArrayRef<float>(out));
}
float add(float x, float y) { return x + y; }
float sub(float x, float y) { return x - y; }
float mul(float x, float y) { return x * y; }
float divf(float x, float y) { return x / y; }
}  // namespace

#include "tfl_dialect.cc.inc"
#include "tf_dialect.cc.inc"
#define GET_OP_CLASSES
#include "tfl_ops.cc.inc"
#define GET_OP_CLASSES
#include "tf_ops.cc.inc"

namespace mlir { namespace TFL {
void TensorFlowLiteDialect::initialize() {
  addAttributes<ConstBytesAttr>();
  addOperations<
#define GET_OP_LIST
#include "tfl_ops.cc.inc"
      >();
}
Operation* TensorFlowLiteDialect::materializeConstant(OpBuilder& b, Attribute v, Type t, Location loc) {
  if (llvm::isa<UnitAttr>(v)) return llvm::isa<NoneType>(t) ? b.create<NoValueOp>(loc, llvm::cast<UnitAttr>(v)).getOperation() : nullptr;
  if (arith::ConstantOp::isBuildableWith(v, t)) return b.create<arith::ConstantOp>(loc, t, llvm::cast<TypedAttr>(v));
  return nullptr;
}
Attribute TensorFlowLiteDialect::parseAttribute(DialectAsmParser& p, Type) const {
  StringRef kw; std::string s;
  if (p.parseKeyword(&kw) || kw != "const_bytes" || p.parseColon() || p.parseString(&s)) { p.emitError(p.getNameLoc(), "bad tfl attribute"); return {}; }
  StringRef r(s);
  if (!r.consume_front("0x")) { p.emitError(p.getNameLoc(), "expected a hex string"); return {}; }
  std::string bytes = llvm::fromHex(r);
  return ConstBytesAttr::get(getContext(), bytes);
}
void TensorFlowLiteDialect::printAttribute(Attribute a, DialectAsmPrinter& os) const {
  os << "const_bytes : \"0x" << llvm::toHex(llvm::cast<ConstBytesAttr>(a).getValue()) << "\"";
}
#define BIN(Op, f) \
  void Op::build(OpBuilder& b, OperationState& s, Value l, Value r, StringAttr af) { s.addOperands({l, r}); s.addAttribute("fused_activation_function", af); s.types.push_back(Broadcast(l, r)); } \
  OpFoldResult Op::fold(FoldAdaptor a) { if (getFusedActivationFunction() != "NONE") return {}; return FoldF32(getOutput().getType(), a.getOperands()[0], a.getOperands()[1], f); }
BIN(AddOp, add) BIN(SubOp, sub) BIN(MulOp, mul) BIN(DivOp, divf)
#undef BIN
#define CMP(Op) void Op::build(OpBuilder& b, OperationState& s, Value l, Value r) { s.addOperands({l, r}); s.types.push_back(BroadcastBool(b, l, r)); }
CMP(GreaterEqualOp) CMP(LessEqualOp) CMP(GreaterOp) CMP(LessOp)
#undef CMP
void NoValueOp::build(OpBuilder& b, OperationState& s, UnitAttr v) { s.addTypes(b.getNoneType()); s.addAttribute("value", v); }
OpFoldResult NoValueOp::fold(FoldAdaptor) { return getValueAttr(); }
} }  // namespace mlir::TFL

namespace mlir { namespace TF {
// Folding of further ops on constants (magnitudes of latent weights).
struct Folds : public DialectFoldInterface {
  using DialectFoldInterface::DialectFoldInterface;
  LogicalResult fold(Operation* op, ArrayRef<Attribute> in, SmallVectorImpl<OpFoldResult>& out) const final {
    StringRef n = op->getName().getStringRef();
    auto rt = op->getNumResults() == 1 ? llvm::dyn_cast<RankedTensorType>(op->getResult(0).getType()) : RankedTensorType();
    auto x = in.empty() ? DenseElementsAttr() : llvm::dyn_cast_or_null<DenseElementsAttr>(in[0]);
    if (!rt || !rt.hasStaticShape() || !rt.getElementType().isF32() || !x || !x.getElementType().isF32()) return failure();
    std::vector<float> v(rt.getNumElements());
    if (n == "tf.Abs" && x.getType() == rt) {
      int64_t i = 0;
      for (float f : x.getValues<float>()) v[i++] = std::abs(f);
    } else if (n == "tf.Mean" && in.size() == 2) {
      auto axes = llvm::dyn_cast_or_null<DenseIntElementsAttr>(in[1]);
      if (!axes) return failure();
      auto sh = x.getType().getShape();
      std::vector<bool> gone(sh.size());
      for (auto a : axes.getValues<APInt>()) gone[(a.getSExtValue() + sh.size()) % sh.size()] = true;
      std::vector<double> sum(v.size());
      int64_t i = 0;
      for (float f : x.getValues<float>()) {
        int64_t r = i++, off = 0, stride = 1;
        for (int k = (int)sh.size() - 1; k >= 0; k--) { if (!gone[k]) { off += (r % sh[k]) * stride; stride *= sh[k]; } r /= sh[k]; }
        if (off >= (int64_t)sum.size()) return failure();
        sum[off] += f;
      }
      for (size_t k = 0; k < v.size(); k++) v[k] = (float)(sum[k] / ((double)x.getNumElements() / v.size()));
    } else {
      return failure();
    }
    out.push_back(DenseElementsAttr::get(rt, ArrayRef<float>(v)));
    return success();
  }
};
void TensorFlowDialect::initialize() {
  allowUnknownOperations();
  addInterfaces<Folds>();
  addOperations<
#define GET_OP_LIST
#include "tf_ops.cc.inc"
      >();
}
Operation* TensorFlowDialect::materializeConstant(OpBuilder& b, Attribute v, Type t, Location loc) {
  auto e = llvm::dyn_cast<ElementsAttr>(v);
  if (!e) return nullptr;
  return b.create<ConstOp>(loc, t, e);
}
OpFoldResult ConstOp::fold(FoldAdaptor) { return getValueAttr(); }
OpFoldResult SignOp::fold(FoldAdaptor a) {
  auto x = llvm::dyn_cast_or_null<DenseElementsAttr>(a.getOperands()[0]);
  if (!x || !x.getElementType().isF32() || x.getType() != getType()) return {};
  std::vector<float> v;
  for (float f : x.getValues<float>()) v.push_back(f > 0 ? 1.0f : f < 0 ? -1.0f : 0.0f);
  return DenseElementsAttr::get(llvm::cast<RankedTensorType>(getType()), ArrayRef<float>(v));
}
#define BIN(Op, f) \
  void Op::build(OpBuilder& b, OperationState& s, Value l, Value r) { s.addOperands({l, r}); s.types.push_back(Broadcast(l, r)); } \
  OpFoldResult Op::fold(FoldAdaptor a) { return FoldF32(getZ().getType(), a.getOperands()[0], a.getOperands()[1], f); }
BIN(AddV2Op, add) BIN(SubOp, sub) BIN(MulOp, mul) BIN(DivOp, divf)
#undef BIN
#define CMP(Op) void Op::build(OpBuilder& b, OperationState& s, Value l, Value r) { s.addOperands({l, r}); s.types.push_back(BroadcastBool(b, l, r)); }
CMP(GreaterEqualOp) CMP(LessEqualOp)
#undef CMP
OpFoldResult BroadcastToOp::fold(FoldAdaptor) { return getInput().getType() == getOutput().getType() ? OpFoldResult(getInput()) : OpFoldResult(); }
void ShapeOp::build(OpBuilder& b, OperationState& s, Value x, BoolAttr use32) {
  auto t = llvm::dyn_cast<RankedTensorType>(x.getType());
  s.addOperands(x);
  s.types.push_back(RankedTensorType::get({t ? t.getRank() : ShapedType::kDynamic}, use32.getValue() ? b.getI32Type() : b.getI64Type()));
}
OpFoldResult ShapeOp::fold(FoldAdaptor) {
  auto t = llvm::dyn_cast<RankedTensorType>(getInput().getType());
  auto o = llvm::dyn_cast<RankedTensorType>(getOutput().getType());
  if (!t || !t.hasStaticShape() || !o) return {};
  SmallVector<Attribute, 4> v;
  for (auto d : t.getShape()) v.push_back(IntegerAttr::get(o.getElementType(), d));
  return DenseElementsAttr::get(o, v);
}
void TransposeOp::build(OpBuilder& b, OperationState& s, Value x, Value perm) {
  s.addOperands({x, perm});
  auto t = llvm::cast<RankedTensorType>(x.getType());
  DenseIntElementsAttr p;
  SmallVector<int64_t, 4> sh(t.getRank(), ShapedType::kDynamic);
  if (matchPattern(perm, m_Constant(&p))) { int i = 0; for (auto q : p.getValues<APInt>()) sh[i++] = t.getShape()[q.getSExtValue()]; }
  s.types.push_back(RankedTensorType::get(sh, t.getElementType()));
}
} }  // namespace mlir::TF
