// Stand-ins for the TensorFlow passes between larq's, and graphs as JSON.
#pragma once
#include <string>

#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"
#include "mlir/Tools/mlir-opt/MlirOptMain.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "mlir/Transforms/Passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"

using namespace mlir;

// ---- stand-ins for the TensorFlow passes between larq's -------------------
namespace {
// Folds tf.Transpose of a rank-4 f32 constant.
struct FoldTranspose : OpRewritePattern<TF::TransposeOp> {
  using OpRewritePattern::OpRewritePattern;
  LogicalResult matchAndRewrite(TF::TransposeOp op, PatternRewriter& rw) const override {
    DenseElementsAttr x; DenseIntElementsAttr p;
    if (!matchPattern(op.getOperand(0), m_Constant(&x)) || !matchPattern(op.getOperand(1), m_Constant(&p))) return failure();
    auto s = x.getType().getShape();
    SmallVector<int64_t> perm, d, st(s.size(), 1);
    for (auto q : p.getValues<APInt>()) perm.push_back(q.getSExtValue());
    if (perm.size() != s.size()) return failure();
    for (int i = (int)s.size() - 2; i >= 0; i--) st[i] = st[i + 1] * s[i + 1];
    for (auto q : perm) d.push_back(s[q]);
    SmallVector<Attribute> out, in(x.getValues<Attribute>());
    for (int64_t i = 0; i < (int64_t)in.size(); i++) {
      int64_t r = i, off = 0;
      for (int k = (int)d.size() - 1; k >= 0; k--) { off += (r % d[k]) * st[perm[k]]; r /= d[k]; }
      out.push_back(in[off]);
    }
    rw.replaceOpWithNewOp<arith::ConstantOp>(op, DenseElementsAttr::get(RankedTensorType::get(d, x.getType().getElementType()), out));
    return success();
  }
};
// One-to-one legalization of the TF ops used in generated networks.
template <typename From, typename To> struct Bin : OpRewritePattern<From> {
  using OpRewritePattern<From>::OpRewritePattern;
  LogicalResult matchAndRewrite(From op, PatternRewriter& rw) const override {
    auto n = rw.create<To>(op.getLoc(), op.getOperand(0), op.getOperand(1), rw.getStringAttr("NONE"));
    n->getResult(0).setType(op->getResult(0).getType());
    rw.replaceOp(op, n->getResults());
    return success();
  }
};
template <typename From> struct Rename : OpRewritePattern<From> {
  StringRef to;
  Rename(MLIRContext* c, StringRef to) : OpRewritePattern<From>(c), to(to) {}
  LogicalResult matchAndRewrite(From op, PatternRewriter& rw) const override {
    OperationState s(op.getLoc(), to);
    s.addOperands(op->getOperands());
    s.addTypes(op->getResultTypes());
    rw.replaceOp(op, rw.create(s)->getResults());
    return success();
  }
};
struct Pool : OpRewritePattern<TF::MaxPoolOp> {
  using OpRewritePattern::OpRewritePattern;
  LogicalResult matchAndRewrite(TF::MaxPoolOp op, PatternRewriter& rw) const override {
    auto at = [&](StringRef a, int i) { return rw.getI32IntegerAttr(llvm::cast<IntegerAttr>(op->getAttrOfType<ArrayAttr>(a)[i]).getInt()); };
    OperationState s(op.getLoc(), "tfl.max_pool_2d");
    s.addOperands(op->getOperands());
    s.addTypes(op->getResultTypes());
    s.addAttribute("padding", op->getAttr("padding"));
    s.addAttribute("stride_w", at("strides", 2)); s.addAttribute("stride_h", at("strides", 1));
    s.addAttribute("filter_width", at("ksize", 2)); s.addAttribute("filter_height", at("ksize", 1));
    s.addAttribute("fused_activation_function", rw.getStringAttr("NONE"));
    rw.replaceOp(op, rw.create(s)->getResults());
    return success();
  }
};
void shimLegalizePatterns(RewritePatternSet& p) {
  MLIRContext* c = p.getContext();
  p.add<FoldTranspose, Pool, Bin<TF::AddV2Op, TFL::AddOp>, Bin<TF::SubOp, TFL::SubOp>, Bin<TF::MulOp, TFL::MulOp>, Bin<TF::DivOp, TFL::DivOp>>(c);
  p.add<Rename<TF::ReluOp>>(c, "tfl.relu"); p.add<Rename<TF::Relu6Op>>(c, "tfl.relu6");
  p.add<Rename<TF::GreaterEqualOp>>(c, "tfl.greater_equal"); p.add<Rename<TF::LessEqualOp>>(c, "tfl.less_equal");
  p.add<Rename<TF::LogicalNotOp>>(c, "tfl.logical_not");
  p.add<Rename<TF::PadOp>>(c, "tfl.pad"); p.add<Rename<TF::PadV2Op>>(c, "tfl.padv2");
}
struct ShimLegalize : PassWrapper<ShimLegalize, OperationPass<func::FuncOp>> {
  StringRef getArgument() const final { return "shim-legalize-tf"; }
  void getDependentDialects(DialectRegistry& r) const override { r.insert<TFL::TensorFlowLiteDialect, arith::ArithDialect>(); }
  void runOnOperation() override {
    RewritePatternSet p(&getContext());
    shimLegalizePatterns(p);
    (void)applyPatternsAndFoldGreedily(getOperation(), std::move(p));
  }
};

// ---- JSON -----------------------------------------------------------------
std::string q(StringRef s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; }
    else r += c;
  }
  return r + "\"";
}
template <typename T> std::string str(T&& x) { std::string s; llvm::raw_string_ostream o(s); o << x; return o.str(); }
std::string hexd(double d) { char b[64]; snprintf(b, 64, "\"%a\"", d); return b; }

std::string elem(Type e) {
  if (auto u = llvm::dyn_cast<quant::UniformQuantizedType>(e))
    return "\"k\":\"q\",\"q\":{\"w\":" + std::to_string(u.getStorageTypeIntegralWidth()) + ",\"signed\":" + (u.isSigned() ? "true" : "false") +
           ",\"scale\":" + hexd(u.getScale()) + ",\"zp\":" + std::to_string(u.getZeroPoint()) + ",\"lo\":" + std::to_string(u.getStorageTypeMin()) +
           ",\"hi\":" + std::to_string(u.getStorageTypeMax()) + "}";
  return "\"k\":" + q(str(e));
}
std::string type(Type t) {
  if (auto r = llvm::dyn_cast<RankedTensorType>(t)) {
    std::string s = "{\"d\":[";
    for (int64_t i = 0; i < r.getRank(); i++) s += (i ? "," : "") + std::to_string(r.isDynamicDim(i) ? -1 : r.getDimSize(i));
    return s + "]," + elem(r.getElementType()) + "}";
  }
  if (llvm::isa<NoneType>(t)) return "{\"d\":[],\"k\":\"none\"}";
  return "{\"d\":[],\"k\":" + q("?" + str(t)) + "}";
}
template <typename R> std::string types(R r) {
  std::string s = "[";
  for (auto t : r) s += (s.size() > 1 ? "," : "") + type(t);
  return s + "]";
}
std::string attr(Attribute a);
std::string dense(DenseElementsAttr d) {
  std::string s = "{\"t\":" + type(d.getType()) + ",\"v\":[";
  bool first = true;
  auto put = [&](const std::string& x) { if (!first) s += ","; first = false; s += x; };
  Type e = d.getElementType();
  if (e.isF32() || e.isF64() || e.isF16() || e.isBF16()) {
    for (auto v : d.getValues<APFloat>()) {
      bool lost; APFloat x = v; x.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
      put(hexd(x.convertToDouble()));
    }
  } else if (llvm::isa<IntegerType>(e)) {
    for (auto v : d.getValues<APInt>()) put(std::to_string(e.isInteger(1) ? (int64_t)v.getZExtValue() : v.getSExtValue()));
  } else {
    for (auto c : d.getRawData()) put(std::to_string((int)(signed char)c));
  }
  return s + "]}";
}
std::string attr(Attribute a) {
  if (auto x = llvm::dyn_cast<StringAttr>(a)) return q(x.getValue());
  if (auto x = llvm::dyn_cast<BoolAttr>(a)) return x.getValue() ? "true" : "false";
  if (auto x = llvm::dyn_cast<IntegerAttr>(a)) return std::to_string(x.getInt());
  if (auto x = llvm::dyn_cast<FloatAttr>(a)) return hexd(x.getValueAsDouble());
  if (auto x = llvm::dyn_cast<DenseElementsAttr>(a)) return dense(x);
  if (auto x = llvm::dyn_cast<TypeAttr>(a)) return type(x.getValue());
  if (auto x = llvm::dyn_cast<TFL::ConstBytesAttr>(a)) return q(llvm::toHex(x.getValue(), true));
  if (auto x = llvm::dyn_cast<ArrayAttr>(a)) {
    std::string s = "[";
    for (auto e : x) s += (s.size() > 1 ? "," : "") + attr(e);
    return s + "]";
  }
  return q(str(a));
}
std::string graph(func::FuncOp f) {
  if (f.isExternal() || f.getBody().getBlocks().size() != 1) return "null";
  Block& b = f.getBody().front();
  llvm::DenseMap<Value, int> id;
  int n = 0;
  for (auto a : b.getArguments()) id[a] = ++n;
  std::string s = "{\"args\":" + types(b.getArgumentTypes()) + ",\"sig\":" + types(f.getFunctionType().getInputs()) + ",\"ret\":" + types(f.getFunctionType().getResults()) + ",\"ops\":[";
  std::string outs = "[]";
  bool first = true;
  for (auto& op : b) {
    std::string ins = "[";
    for (auto v : op.getOperands()) ins += (ins.size() > 1 ? "," : "") + std::to_string(id.lookup(v));
    ins += "]";
    if (llvm::isa<func::ReturnOp>(op)) { outs = ins; continue; }
    for (auto r : op.getResults()) id[r] = ++n;
    s += (first ? "" : ",");
    first = false;
    s += "{\"n\":" + q(op.getName().getStringRef()) + ",\"i\":" + ins + ",\"o\":" + types(op.getResultTypes()) + ",\"a\":{";
    bool fa = true;
    for (auto a : op.getAttrDictionary()) { s += (fa ? "" : ",") + q(a.getName().getValue()) + ":" + attr(a.getValue()); fa = false; }
    s += "}}";
  }
  return s + "],\"outs\":" + outs + "}";
}
}  // namespace
