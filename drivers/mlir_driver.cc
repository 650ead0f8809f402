// Runs larq/compute-engine's converter passes (compiled from /repo against
// MLIR 18 and the stand-in TF/TFL dialects) on modules, and prints the graph of
// the module's first function before and after each pass as JSON.
//   mlir_driver run IN OUT   IN: modules separated by lines of "// -----", each
//                            starting with "// passes: p1; p2{opt=v}; ..."
//   mlir_driver ...          behaves like mlir-opt
#include <fstream>
#include <iostream>
#include <sstream>

#include "mlir_graph.h"

namespace {
func::FuncOp firstFunc(ModuleOp m) { for (auto f : m.getOps<func::FuncOp>()) return f; return nullptr; }
std::string trim(std::string s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

int runFile(DialectRegistry& registry, const char* in, const char* out) {
  std::ifstream f(in);
  std::ofstream o(out);
  std::string line, text, passes;
  auto flush = [&]() -> bool {
    if (trim(text).empty()) return true;
    MLIRContext ctx(registry, MLIRContext::Threading::DISABLED);
    ctx.allowUnregisteredDialects();
    ctx.loadAllAvailableDialects();
    std::string diag;
    ScopedDiagnosticHandler h(&ctx, [&](Diagnostic& d) { diag += str(d) + "\n"; return success(); });
    auto m = parseSourceString<ModuleOp>(text, &ctx);
    if (!m || failed(verify(*m))) { std::cerr << "bad module: " << diag << "\n" << text << "\n"; return false; }
    diag.clear();
    o << "{\"g\":[" << graph(firstFunc(*m));
    std::string ok = "[", note = "[";
    std::stringstream ps(passes);
    std::string p;
    while (std::getline(ps, p, ';')) {
      p = trim(p);
      if (p.empty()) continue;
      PassManager pm(&ctx);
      std::string err;
      llvm::raw_string_ostream es(err);
      if (failed(parsePassPipeline("func.func(" + p + ")", pm, es))) { std::cerr << "bad pass " << p << ": " << es.str() << "\n"; return false; }
      bool r = succeeded(pm.run(*m)) && succeeded(verify(*m));
      o << "," << graph(firstFunc(*m));
      ok += (ok.size() > 1 ? "," : ""); ok += r ? "true" : "false";
      note += (note.size() > 1 ? "," : "") + q(diag);
      diag.clear();
      if (!r) break;
    }
    o << "],\"ok\":" << ok << "],\"note\":" << note << "]}\n" << std::flush;
    return true;
  };
  while (std::getline(f, line)) {
    if (line == "// -----") { if (!flush()) return 3; text.clear(); passes.clear(); continue; }
    if (line.rfind("// passes:", 0) == 0) { passes = line.substr(10); continue; }
    text += line + "\n";
  }
  return flush() ? 0 : 3;
}
}  // namespace

int main(int argc, char** argv) {
  registerTransformsPasses();
  PassRegistration<ShimLegalize>();
  DialectRegistry registry;
  registry.insert<arith::ArithDialect, func::FuncDialect, quant::QuantizationDialect, TF::TensorFlowDialect,
                  TFL::TensorFlowLiteDialect, lq::LarqDialect>();
  if (argc == 4 && std::string(argv[1]) == "run") return runFile(registry, argv[2], argv[3]);
  return failed(MlirOptMain(argc, argv, "opt\n", registry));
}
