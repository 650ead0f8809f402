// Executes a script of op-level commands against larq/compute-engine's real
// TF Lite custom ops (compiled from /repo) and reports one JSON line per
// observable event.  It plays the role of the TF Lite interpreter: it owns the
// tensors, calls init/prepare/invoke/free through the op resolver, re-allocates
// the arena on every allocation pass and surrounds every buffer with guards.
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "flatbuffers/flexbuffers.h"
#include "larq_compute_engine/tflite/kernels/lce_ops_register.h"
#include "ruy/ruy.h"

using std::string;
using std::vector;

#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif

static const size_t kGuard = 64;
static const size_t kExtra = 32;  // LCE_EXTRA_BYTES: may be read, never written

struct Buf {
  vector<unsigned char> mem;
  size_t n = 0;
  unsigned char fill = 0xCD;
  Buf() = default;
  Buf(const Buf&) = delete;
  ~Buf() { open(); }
  void make(size_t bytes, unsigned char f) {
    n = bytes;
    fill = f;
    mem.assign(kGuard + bytes + kExtra + kGuard + 64, f);
    close();
  }
  // The guards may not even be read (seen by a build with AddressSanitizer).
  void open() { ASAN_UNPOISON_MEMORY_REGION(mem.data(), mem.size()); }
  void close() {
    unsigned char* d = data();
    ASAN_POISON_MEMORY_REGION(mem.data(), d - mem.data());
    ASAN_POISON_MEMORY_REGION(d + n + kExtra, mem.data() + mem.size() - (d + n + kExtra));
  }
  unsigned char* data() {
    auto p = reinterpret_cast<uintptr_t>(mem.data()) + kGuard;
    return reinterpret_cast<unsigned char*>((p + 15) & ~uintptr_t(15));
  }
  bool intact() {
    unsigned char* d = data();
    bool ok = true;
    open();
    for (unsigned char* p = mem.data(); p < d; p++) ok &= *p == fill;
    for (unsigned char* p = d + n; p < mem.data() + mem.size(); p++) ok &= *p == fill;
    close();
    return ok;
  }
};

static size_t type_size(TfLiteType t) {
  switch (t) {
    case kTfLiteFloat32: case kTfLiteInt32: return 4;
    case kTfLiteInt8: case kTfLiteUInt8: case kTfLiteBool: return 1;
    case kTfLiteInt16: return 2;
    case kTfLiteInt64: return 8;
    default: return 4;
  }
}
static TfLiteType parse_type(const string& s) {
  if (s == "f32") return kTfLiteFloat32;
  if (s == "i32") return kTfLiteInt32;
  if (s == "i8") return kTfLiteInt8;
  if (s == "u8") return kTfLiteUInt8;
  if (s == "bool") return kTfLiteBool;
  if (s == "i16") return kTfLiteInt16;
  if (s == "i64") return kTfLiteInt64;
  fprintf(stderr, "bad type %s\n", s.c_str());
  exit(3);
}

struct Inst {
  tflite::MutableOpResolver resolver;
  const TfLiteRegistration* reg = nullptr;
  TfLiteContext ctx{};
  TfLiteNode node{};
  vector<TfLiteTensor*> tensors;  // stable addresses
  vector<TfLiteTensor> flat;      // what ctx.tensors points at
  std::map<int, std::unique_ptr<Buf>> bufs;
  vector<std::unique_ptr<Buf>> graveyard;
  tflite::CpuBackendContext backend;
  flexbuffers::Builder fbb;
  bool fb_open = false;
  size_t fb_start = 0;
  vector<uint8_t> options;
  vector<int> in_ids, out_ids;
  int errors = 0;
  bool ready = false;
  bool inited = false;
  int moves = 0;
};
static Inst* g_inst = nullptr;

static TfLiteStatus ResizeTensor(TfLiteContext* c, TfLiteTensor* t, TfLiteIntArray* d) {
  if (t->dims) TfLiteIntArrayFree(t->dims);
  t->dims = d;
  size_t n = type_size(t->type);
  for (int i = 0; i < d->size; i++) n *= d->data[i];
  t->bytes = n;
  t->data.raw = nullptr;  // allocated after the whole graph is prepared
  return kTfLiteOk;
}
static void ReportError(TfLiteContext*, const char* fmt, ...) {
  g_inst->errors++;
  if (getenv("LCE_DRIVER_VERBOSE")) {
    va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a); fputc('\n', stderr);
  }
}
static TfLiteStatus AddTensors(TfLiteContext* c, int n, int* first) {
  Inst* I = g_inst;
  *first = (int)I->flat.size();
  // The interpreter keeps spare capacity so that tensor pointers stay valid
  // during Prepare; do the same.
  for (int i = 0; i < n; i++) {
    TfLiteTensor t{};
    t.dims = TfLiteIntArrayCreate(0);
    if (I->flat.size() == I->flat.capacity()) { fprintf(stderr, "tensor capacity\n"); exit(3); }
    I->flat.push_back(t);
  }
  c->tensors = I->flat.data();
  c->tensors_size = I->flat.size();
  return kTfLiteOk;
}

static vector<string> split(const string& l) {
  std::istringstream is(l);
  vector<string> r;
  string w;
  while (is >> w) r.push_back(w);
  return r;
}
static string hex(const unsigned char* p, size_t n) {
  static const char* d = "0123456789abcdef";
  string s(2 * n, '0');
  for (size_t i = 0; i < n; i++) { s[2 * i] = d[p[i] >> 4]; s[2 * i + 1] = d[p[i] & 15]; }
  return s;
}
static int unhex(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static void place(Inst* I, int id, unsigned char fill) {
  TfLiteTensor& t = I->flat[id];
  size_t n = type_size(t.type);
  for (int i = 0; i < t.dims->size; i++) n *= t.dims->data[i];
  t.bytes = n;
  auto b = std::make_unique<Buf>();
  b->make(n, fill);
  auto& slot = I->bufs[id];
  if (slot) {
    // The old memory may be handed to somebody else: poison it but keep it
    // mapped, so that a stale pointer shows up as a wrong result.
    slot->open();
    std::fill(slot->mem.begin(), slot->mem.end(), 0x5B);
    I->graveyard.push_back(std::move(slot));
  }
  slot = std::move(b);
  t.data.raw = reinterpret_cast<char*>(slot->data());
}

int main(int argc, char** argv) {
  std::map<int, std::unique_ptr<Inst>> insts;
  std::ifstream in(argv[1]);
  FILE* out = fopen(argv[2], "w");
  string line;
  long lineno = 0;
  while (std::getline(in, line)) {
    lineno++;
    auto w = split(line);
    if (w.empty()) continue;
    const string& c = w[0];
    if (c == "mark") {  // start of a history
      fprintf(out, "{\"ev\":\"mark\",\"h\":%s}\n", w[1].c_str());
      fflush(out);
      insts.clear();
      ruy::shim_schedule() = ruy::ShimSchedule();
      continue;
    }
    if (c == "schedx") {  // schedx gr gc kind i j kind i j ...
      auto& s = ruy::shim_schedule();
      s = ruy::ShimSchedule();
      s.gr = atoi(w[1].c_str()); s.gc = atoi(w[2].c_str());
      for (size_t i = 3; i + 2 < w.size(); i += 3) s.steps.push_back({atoi(w[i].c_str()), atoi(w[i + 1].c_str()), atoi(w[i + 2].c_str())});
      continue;
    }
    if (c == "sched") {
      auto& s = ruy::shim_schedule();
      s = ruy::ShimSchedule();
      s.row_block = atoi(w[1].c_str()); s.col_block = atoi(w[2].c_str());
      s.order = atoi(w[3].c_str()); s.threads = atoi(w[4].c_str());
      continue;
    }
    int id = atoi(w[1].c_str());
    if (c == "new") {  // new <id> <custom-op-name> <use_ref> <use_indirect>
      auto I = std::make_unique<Inst>();
      g_inst = I.get();
      bool ref = w[3] == "1", ind = w[4] == "1";
      compute_engine::tflite::RegisterLCECustomOps(&I->resolver, ref, ind);
      I->reg = I->resolver.FindOp(w[2].c_str(), 1);
      I->flat.reserve(64);
      I->ctx.impl_ = &I->backend;
      I->ctx.ResizeTensor = ResizeTensor;
      I->ctx.ReportError = ReportError;
      I->ctx.AddTensors = AddTensors;
      I->ctx.tensors = I->flat.data();
      string names;
      for (auto& kv : I->resolver.custom_) names += (names.empty() ? "\"" : ",\"") + kv.first.first + "/" + std::to_string(kv.first.second) + "\"";
      fprintf(out, "{\"ev\":\"new\",\"i\":%d,\"found\":%s,\"ops\":[%s]}\n", id, I->reg ? "true" : "false", names.c_str());
      fflush(out);
      static TfLiteRegistration none{};
      none.prepare = [](TfLiteContext*, TfLiteNode*) { return kTfLiteError; };
      if (!I->reg) I->reg = &none;
      insts[id] = std::move(I);
      continue;
    }
    Inst* I = insts.at(id).get();
    g_inst = I;
    if (c == "opt") {
      if (!I->fb_open) { I->fb_start = I->fbb.StartMap(); I->fb_open = true; }
      if (w[2] == "int") I->fbb.Int(w[3].c_str(), atoll(w[4].c_str()));
      else if (w[2] == "uint") I->fbb.UInt(w[3].c_str(), strtoull(w[4].c_str(), nullptr, 10));
      else I->fbb.Float(w[3].c_str(), atof(w[4].c_str()));
    } else if (c == "rawopt") {
      I->options.clear();
      for (size_t i = 0; i + 1 < w[2].size(); i += 2) I->options.push_back(unhex(w[2][i]) * 16 + unhex(w[2][i + 1]));
    } else if (c == "init") {
      if (I->options.empty()) {
        if (!I->fb_open) { I->fb_start = I->fbb.StartMap(); I->fb_open = true; }
        I->fbb.EndMap(I->fb_start); I->fbb.Finish();
        I->options = I->fbb.GetBuffer();
      }
      I->node.user_data = I->reg->init ? I->reg->init(&I->ctx, (const char*)I->options.data(), I->options.size()) : nullptr;
      // The flatbuffer may be unmapped / reused by the application after init.
      std::fill(I->options.begin(), I->options.end(), 0xEE);
      I->inited = true;
    } else if (c == "tensor") {  // tensor <id> in|out type ro|rw|none rank dims...
      TfLiteTensor t{};
      t.type = parse_type(w[3]);
      bool ro = w[4] == "ro";
      t.allocation_type = w[4] == "ro" ? kTfLiteMmapRo : w[4] == "rw" ? kTfLiteArenaRw : w[4] == "dyn" ? kTfLiteDynamic : kTfLiteMemNone;
      if (w[4] == "absent") {  // an optional input that is not given
        I->in_ids.push_back(-1);
        continue;
      }
      int rank = atoi(w[5].c_str());
      t.dims = TfLiteIntArrayCreate(rank);
      for (int i = 0; i < rank; i++) t.dims->data[i] = atoi(w[6 + i].c_str());
      int tid = (int)I->flat.size();
      if (I->flat.size() == I->flat.capacity()) { fprintf(stderr, "tensor capacity\n"); exit(3); }
      I->flat.push_back(t);
      I->ctx.tensors = I->flat.data();
      I->ctx.tensors_size = I->flat.size();
      (w[2] == "in" ? I->in_ids : I->out_ids).push_back(tid);
      if (ro) place(I, tid, 0xCD);
    } else if (c == "quant") {  // quant <id> in|out k scale zp affine
      int k = atoi(w[3].c_str());
      TfLiteTensor& t = I->flat[(w[2] == "in" ? I->in_ids : I->out_ids)[k]];
      t.params.scale = strtof(w[4].c_str(), nullptr);
      t.params.zero_point = atoi(w[5].c_str());
      if (w[6] == "1") t.quantization.type = kTfLiteAffineQuantization;
    } else if (c == "data") {  // data <id> k hex   (input k)
      int tid = I->in_ids[atoi(w[2].c_str())];
      if (tid < 0) continue;
      auto& b = I->bufs[tid];
      size_t n = w.size() > 3 ? w[3].size() / 2 : 0;
      if (!b && !I->ready) continue;
      if (I->flat[tid].allocation_type != kTfLiteMmapRo && !I->ready) continue;
      if (!b || b->n != n) { fprintf(stderr, "line %ld: data size %zu vs %zu\n", lineno, n, b ? b->n : 0); exit(3); }
      for (size_t i = 0; i < n; i++) b->data()[i] = unhex(w[3][2 * i]) * 16 + unhex(w[3][2 * i + 1]);
    } else if (c == "resize") {  // resize <id> k rank dims...
      int tid = I->in_ids[atoi(w[2].c_str())];
      int rank = atoi(w[3].c_str());
      auto* d = TfLiteIntArrayCreate(rank);
      for (int i = 0; i < rank; i++) d->data[i] = atoi(w[4 + i].c_str());
      ResizeTensor(&I->ctx, &I->flat[tid], d);
      I->ready = false;
    } else if (c == "prepare") {
      // AllocateTensors(): prepare the node, then (re)place every arena tensor.
      if (!I->node.inputs) {
        I->node.inputs = TfLiteIntArrayCreate(I->in_ids.size());
        for (size_t i = 0; i < I->in_ids.size(); i++) I->node.inputs->data[i] = I->in_ids[i];
        I->node.outputs = TfLiteIntArrayCreate(I->out_ids.size());
        for (size_t i = 0; i < I->out_ids.size(); i++) I->node.outputs->data[i] = I->out_ids[i];
        I->node.temporaries = TfLiteIntArrayCreate(0);
        I->node.intermediates = TfLiteIntArrayCreate(0);
      }
      int before = I->errors;
      TfLiteStatus st = I->reg->prepare(&I->ctx, &I->node);
      string shape;
      I->ready = st == kTfLiteOk;
      if (st == kTfLiteOk) {
        I->moves++;
        for (size_t i = 0; i < I->flat.size(); i++) {
          bool io = false;
          for (int x : I->in_ids) io |= x == (int)i;
          for (int x : I->out_ids) io |= x == (int)i;
          bool temp = false;
          for (int k = 0; k < I->node.temporaries->size; k++) temp |= I->node.temporaries->data[k] == (int)i;
          if ((io || temp) && I->flat[i].allocation_type != kTfLiteMmapRo) place(I, i, 0xCD);
        }
        TfLiteTensor& o = I->flat[I->out_ids[0]];
        for (int i = 0; i < o.dims->size; i++) shape += (i ? "," : "") + std::to_string(o.dims->data[i]);
      }
      fprintf(out, "{\"ev\":\"prepare\",\"i\":%d,\"ok\":%s,\"reported\":%s,\"oshape\":[%s]}\n", id, st == kTfLiteOk ? "true" : "false",
              I->errors > before ? "true" : "false", shape.c_str());
      fflush(out);
    } else if (c == "eval") {
      if (!I->ready) {
        fprintf(out, "{\"ev\":\"eval\",\"i\":%d,\"ok\":false,\"guards\":true,\"inputs\":true,\"out\":\"\"}\n", id);
        continue;
      }
      // Everything the op must not change.
      std::map<int, vector<unsigned char>> before;
      for (int x : I->in_ids) if (I->bufs.count(x) && I->bufs[x]) before[x] = vector<unsigned char>(I->bufs[x]->data(), I->bufs[x]->data() + I->bufs[x]->n);
      int oid = I->out_ids[0];
      {  // previous contents of the output are arbitrary
        auto& b = I->bufs[oid];
        std::fill(b->data(), b->data() + b->n, (unsigned char)(w.size() > 2 ? atoi(w[2].c_str()) : 0x99));
      }
      // temporaries share memory with other nodes of a model
      for (int k = 0; k < I->node.temporaries->size; k++) {
        auto& b = I->bufs[I->node.temporaries->data[k]];
        if (b) for (size_t j = 0; j < b->n; j++) b->data()[j] = (unsigned char)((w.size() > 2 ? atoi(w[2].c_str()) : 0x99) * 31 + j * 167 + 13);
      }
      ruy::shim_schedule().log.clear();
      ruy::shim_schedule().bitpacked = I->flat[oid].type == kTfLiteInt32;
      TfLiteStatus st = I->reg->invoke(&I->ctx, &I->node);
      bool guards = true, inputs = true;
      for (auto& kv : I->bufs) if (kv.second) guards &= kv.second->intact();
      for (auto& kv : I->graveyard) for (unsigned char ch : kv->mem) guards &= ch == 0x5B;
      for (auto& kv : before) inputs &= std::equal(kv.second.begin(), kv.second.end(), I->bufs[kv.first]->data());
      auto& ob = I->bufs[oid];
      const string& gl = ruy::shim_schedule().log;
      fprintf(out, "{\"ev\":\"eval\",\"i\":%d,\"ok\":%s,\"guards\":%s,\"inputs\":%s,\"out\":\"%s\"%s%s}\n", id, st == kTfLiteOk ? "true" : "false",
              guards ? "true" : "false", inputs ? "true" : "false", hex(ob->data(), ob->n).c_str(), gl.empty() ? "" : ",\"gemm\":", gl.c_str());
      fflush(out);
    } else if (c == "free") {
      if (I->reg->free) I->reg->free(&I->ctx, I->node.user_data);
      insts.erase(id);
    } else {
      fprintf(stderr, "unknown command %s\n", c.c_str());
      exit(3);
    }
  }
  fprintf(out, "{\"ev\":\"end\"}\n");
  fclose(out);
  return 0;
}
