// Runs larq/compute-engine's set-batch-size pass (compiled from /repo) on every
// module of the input file (separated by lines of "// -----") twice and prints
// each function's types and body before, after one and after two applications.
#include <fstream>
#include <iostream>
#include <sstream>

#include "larq_compute_engine/mlir/transforms/passes.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/ControlFlow/IR/ControlFlowOps.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/Pass.h"
#include "mlir/Pass/PassManager.h"

using namespace mlir;

template <typename T> static std::string str(T x) {
  std::string s; llvm::raw_string_ostream o(s); o << x; return o.str();
}
static std::string q(const std::string& s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += "\\n"; continue; } r += c; }
  return r + "\"";
}
static std::string type(Type t) {
  std::string r;
  if (auto x = llvm::dyn_cast<RankedTensorType>(t)) {
    r = "{\"k\":\"ranked\",\"d\":[";
    for (int64_t i = 0; i < x.getRank(); i++) r += (i ? "," : "") + std::to_string(x.isDynamicDim(i) ? -1 : x.getDimSize(i));
    return r + "],\"e\":" + q(str(x.getElementType())) + ",\"enc\":" + q(x.getEncoding() ? str(x.getEncoding()) : "") + "}";
  }
  return "{\"k\":\"other\",\"d\":[],\"e\":" + q(str(t)) + ",\"enc\":\"\"}";
}
template <typename R> static std::string types(R r) {
  std::string s = "[";
  for (auto t : r) s += (s.size() > 1 ? "," : "") + type(t);
  return s + "]";
}
static std::string module(ModuleOp m) {
  std::string s = "[";
  for (auto f : m.getOps<func::FuncOp>()) {
    s += (s.size() > 1 ? "," : "");
    s += "{\"name\":" + q(f.getName().str()) + ",\"sig\":" + types(f.getFunctionType().getInputs()) +
         ",\"res\":" + types(f.getFunctionType().getResults()) + ",\"args\":";
    s += f.isExternal() ? "[]" : types(f.getBody().front().getArgumentTypes());
    s += ",\"ext\":"; s += f.isExternal() ? "true" : "false";
    // everything else: attributes (minus the function type), argument
    // attributes, other blocks and the operations
    std::string rest;
    for (auto a : f->getAttrs()) if (a.getName() != "function_type") rest += str(a.getName()) + "=" + str(a.getValue()) + ";";
    int bn = 0;
    for (auto& b : f.getBody()) {
      rest += "^" + std::to_string(bn);
      if (bn++) for (auto t : b.getArgumentTypes()) rest += str(t) + ",";
      for (auto& op : b) {
        rest += "|" + op.getName().getStringRef().str() + str(op.getAttrDictionary());
        for (auto v : op.getOperands())
          rest += llvm::isa<BlockArgument>(v) ? " a" + std::to_string(llvm::cast<BlockArgument>(v).getArgNumber()) : " r" + str(v.getType());
        for (auto t : op.getResultTypes()) rest += ">" + str(t);
        for (auto& rg : op.getRegions()) for (auto& rb : rg) for (auto t : rb.getArgumentTypes()) rest += "#" + str(t);
      }
    }
    s += ",\"rest\":" + q(rest) + "}";
  }
  // anything at module level that is not a function
  std::string other;
  for (auto& op : *m.getBody()) if (!llvm::isa<func::FuncOp>(op)) other += str(op.getName().getStringRef()) + str(op.getAttrDictionary());
  return "{\"f\":" + s + "],\"other\":" + q(other) + "}";
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  DialectRegistry reg;
  reg.insert<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, cf::ControlFlowDialect>();
  std::string line, text;
  long n = 0;
  auto flush = [&] {
    MLIRContext ctx(reg);
    ctx.allowUnregisteredDialects();
    if (argc > 3) ctx.disableMultithreading();
    OwningOpRef<ModuleOp> m = parseSourceString<ModuleOp>(text, &ctx);
    if (!m) { std::cerr << "module " << n << " does not parse\n" << text; exit(3); }
    out << "{\"n\":" << n << ",\"before\":" << module(*m);
    for (const char* k : {"after", "again"}) {
      PassManager pm(&ctx);
      pm.addNestedPass<func::FuncOp>(CreateSetBatchSizePass());
      bool ok = succeeded(pm.run(*m)) && succeeded(verify(*m));
      out << ",\"" << k << "_ok\":" << (ok ? "true" : "false") << ",\"" << k << "\":" << module(*m);
    }
    out << "}\n";
    out.flush();
    n++;
    text.clear();
  };
  while (std::getline(in, line)) {
    if (line.rfind("// -----", 0) == 0) flush(); else text += line + "\n";
  }
  return 0;
}
