// Linked with ops_driver.cc in place of the ops: each registration's functions
// run the AArch64 code of the image beside the executable.
#include "a64.h"
#include "a64_step.h"
#include "flatbuffers/flexbuffers.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "ruy/ruy.h"
namespace {
a64::Cpu& cpu() {
  static a64::Cpu* c = [] {
    auto* p = new a64::Cpu;
    char exe[4096];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    std::string d(exe, n > 0 ? n : 0);
    d.resize(d.rfind('/') + 1);
    p->load(d + "image.elf", d + "image.dis", d + "image.sym");
    for (auto& s : p->sym) if (s.first.rfind("__init_fn_", 0) == 0) p->call(s.second);
    return p;
  }();
  return *c;
}
TfLiteRegistration orig[8];
template <int S> TfLiteRegistration* wrap(const char* name) {
  static TfLiteRegistration w;
  auto& c = cpu();
  if (!c.sym.count(name)) { fprintf(stderr, "A64: no %s\n", name); _exit(77); }
  auto* r = (TfLiteRegistration*)c.call(c.sym[name]);
  if (!r) return nullptr;
  w = orig[S] = *r;
  if (r->init) w.init = [](TfLiteContext* x, const char* b, size_t n) { return (void*)cpu().call((a64::u64)orig[S].init, (a64::u64)x, (a64::u64)b, n); };
  if (r->free) w.free = [](TfLiteContext* x, void* b) { cpu().call((a64::u64)orig[S].free, (a64::u64)x, (a64::u64)b); };
  if (r->prepare) w.prepare = [](TfLiteContext* x, TfLiteNode* n) { return (TfLiteStatus)(int)cpu().call((a64::u64)orig[S].prepare, (a64::u64)x, (a64::u64)n); };
  if (r->invoke) w.invoke = [](TfLiteContext* x, TfLiteNode* n) { return (TfLiteStatus)(int)cpu().call((a64::u64)orig[S].invoke, (a64::u64)x, (a64::u64)n); };
  return &w;
}
}  // namespace
namespace compute_engine {
namespace tflite {
#define OP(k, N) TfLiteRegistration* Register_##N() { return wrap<k>("Register_" #N); }
OP(0, QUANTIZE) OP(1, DEQUANTIZE) OP(2, BCONV_2D) OP(3, BCONV_2D_REF) OP(4, BCONV_2D_OPT_INDIRECT_BGEMM) OP(5, BMAXPOOL_2D)
}  // namespace tflite
}  // namespace compute_engine
