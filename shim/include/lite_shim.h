// Stand-in for TensorFlow Lite's model/interpreter classes.  A "flatbuffer" is
// a small text format (see drivers/py_predict.py); memory is handled as hostile
// as the real arena allows: every buffer is guarded, moves on allocation, and
// everything but constants and inputs is overwritten before each invocation.
// Every invocation is logged.
#pragma once
#include <cstdint>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "flex_shim.h"
#include "ruy_shim.h"
#include "tfl_shim.h"

namespace tflite {
struct ShimLog { std::string s; };
class Interpreter;
// Where a program does not set its inputs itself: called before each invocation.
inline void (*&shim_feed())(Interpreter*, int) { static void (*f)(Interpreter*, int) = nullptr; return f; }
inline ShimLog& shim_log() { static ShimLog l; return l; }

struct ShimModel {
  struct T { int type; std::vector<int> dims; bool ro, dyn; int q; std::vector<float> scales; std::vector<int> zps; float scale; int zp; std::string name, hex; };
  struct N { std::string op; bool custom; std::string opts; std::vector<int> in, out; };
  std::vector<T> tensors;
  std::vector<N> nodes;
  std::vector<int> inputs, outputs;
};

class FlatBufferModel {
 public:
  // The buffer must outlive the model: it is parsed again, lazily, at build time.
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* p, size_t n, void* = nullptr) {
    if (n < 8 || std::string(p, 8) != "LCESHIM1") return nullptr;
    auto m = std::make_unique<FlatBufferModel>();
    m->p_ = p;
    m->n_ = n;
    return m;
  }
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* path, void* = nullptr) {
    std::ifstream f(path, std::ios::binary);
    if (!f) return nullptr;
    auto own = std::make_shared<std::string>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    auto m = BuildFromBuffer(own->data(), own->size());
    if (m) m->own_ = own;
    return m;
  }
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromFile(const char* path, void* = nullptr) { return BuildFromFile(path); }
  static std::unique_ptr<FlatBufferModel> VerifyAndBuildFromBuffer(const char* p, size_t n, void* = nullptr) { return BuildFromBuffer(p, n); }
  bool initialized() const { return true; }
  ShimModel Parse() const {
    ShimModel m;
    std::istringstream is(std::string(p_, n_));
    std::string line;
    while (std::getline(is, line)) {
      std::istringstream l(line);
      std::string c;
      l >> c;
      auto ints = [&](std::vector<int>& v) { int k, x; l >> k; while (k-- > 0) { l >> x; v.push_back(x); } };
      if (c == "T") {
        ShimModel::T t{};
        l >> t.type;
        ints(t.dims);
        int k; float f;
        l >> t.ro >> t.dyn >> t.q;
        l >> k; while (k-- > 0) { l >> f; t.scales.push_back(f); }
        ints(t.zps);
        l >> t.scale >> t.zp >> t.name >> t.hex;
        m.tensors.push_back(t);
      } else if (c == "N") {
        ShimModel::N n{};
        l >> n.op >> n.custom >> n.opts;
        ints(n.in);
        ints(n.out);
        m.nodes.push_back(n);
      } else if (c == "I") ints(m.inputs);
      else if (c == "O") ints(m.outputs);
    }
    return m;
  }
  const char* p_;
  size_t n_;
  std::shared_ptr<std::string> own_;
};

namespace ops { namespace builtin {
class BuiltinOpResolver : public MutableOpResolver {
 public:
  virtual bool delegates() const { return true; }
};
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {
 public:
  bool delegates() const override { return false; }
};
} }  // namespace ops::builtin

class Interpreter {
 public:
  struct Buf {
    std::vector<unsigned char> mem;
    size_t n;
    unsigned char* data() { return (unsigned char*)(((uintptr_t)mem.data() + 64 + 15) & ~(uintptr_t)15); }
    explicit Buf(size_t bytes) : mem(64 + bytes + 16 + 64 + 64, 0xCD), n(bytes) {}
    bool intact() {
      for (unsigned char* p = mem.data(); p < data(); p++) if (*p != 0xCD) return false;
      for (unsigned char* p = data() + n; p < mem.data() + mem.size(); p++) if (*p != 0xCD) return false;
      return true;
    }
  };
  struct Node { ShimModel::N def; TfLiteRegistration reg; TfLiteNode node{}; std::vector<unsigned char> opts; int calls = 0; };

  ~Interpreter() {
    cur() = this;
    for (auto& n : nodes_) if (n->reg.free && n->node.user_data) n->reg.free(&ctx_, n->node.user_data);
    if (cur() == this) cur() = nullptr;
  }
  const std::vector<int>& inputs() const { return model_.inputs; }
  const std::vector<int>& outputs() const { return model_.outputs; }
  TfLiteTensor* tensor(int i) { return i < 0 || i >= (int)flat_.size() ? nullptr : &flat_[i]; }
  const TfLiteTensor* tensor(int i) const { return const_cast<Interpreter*>(this)->tensor(i); }
  size_t tensors_size() const { return flat_.size(); }
  TfLiteTensor* input_tensor(size_t i) { return tensor(model_.inputs[i]); }
  TfLiteTensor* output_tensor(size_t i) { return tensor(model_.outputs[i]); }
  const TfLiteTensor* input_tensor(size_t i) const { return tensor(model_.inputs[i]); }
  const TfLiteTensor* output_tensor(size_t i) const { return tensor(model_.outputs[i]); }
  const char* GetInputName(int i) const { return tensor(model_.inputs[i])->name; }
  const char* GetOutputName(int i) const { return tensor(model_.outputs[i])->name; }
  template <typename T> T* typed_tensor(int i) { auto* t = tensor(i); return t ? reinterpret_cast<T*>(t->data.raw) : nullptr; }
  template <typename T> const T* typed_tensor(int i) const { return const_cast<Interpreter*>(this)->typed_tensor<T>(i); }
  template <typename T> T* typed_input_tensor(int i) { return typed_tensor<T>(model_.inputs[i]); }
  template <typename T> T* typed_output_tensor(int i) { return typed_tensor<T>(model_.outputs[i]); }
  size_t nodes_size() const { return nodes_.size(); }
  size_t subgraphs_size() const { return 1; }
  TfLiteStatus ResetVariableTensors() { return kTfLiteOk; }
  TfLiteStatus SetNumThreads(int n) { threads_ = n; backend_.SetMaxNumThreads(n); return kTfLiteOk; }

  TfLiteStatus AllocateTensors() {
    cur() = this;
    ready_ = false;
    for (auto& n : nodes_) {
      if (n->reg.prepare && n->reg.prepare(&ctx_, &n->node) != kTfLiteOk) return kTfLiteError;
    }
    for (size_t i = 0; i < flat_.size(); i++) if (flat_[i].allocation_type != kTfLiteMmapRo) Place(i);
    ready_ = true;
    return kTfLiteOk;
  }
  TfLiteStatus Invoke() {
    cur() = this;
    if (!ready_) return kTfLiteError;
    if (shim_feed()) shim_feed()(this, samples_++);
    auto& log = shim_log().s;
    // The serialized model is not copied: it must still be there
    log += std::string("{\"e\":\"begin\",\"model\":") + (std::hash<std::string>()(std::string(p_, n_)) == hash_ ? "true" : "false") + ",\"x\":[";
    for (size_t i = 0; i < model_.inputs.size(); i++) log += (i ? ",\"" : "\"") + Hex(model_.inputs[i]) + "\"";
    log += "]}\n";
    // Only inputs and constants have defined contents now
    for (size_t i = 0; i < flat_.size(); i++) {
      bool in = false;
      for (int x : model_.inputs) in |= x == (int)i;
      if (!in && flat_[i].allocation_type != kTfLiteMmapRo) Scramble(i);
    }
    int k = 0;
    for (auto& n : nodes_) {
      std::string xs;
      for (int t : n->def.in) xs += (xs.empty() ? "\"" : ",\"") + (t < 0 || flat_[t].allocation_type == kTfLiteMmapRo ? std::string() : Hex(t)) + "\"";
      n->calls++;
      TfLiteStatus st = n->def.custom ? n->reg.invoke(&ctx_, &n->node) : Test(*n);
      bool guards = true;
      for (auto& b : bufs_) if (b) guards &= b->intact();
      std::string ys;
      for (int t : n->def.out) ys += (ys.empty() ? "\"" : ",\"") + Hex(t) + "\"";
      log += "{\"e\":\"node\",\"k\":" + std::to_string(k) + ",\"ok\":" + (st == kTfLiteOk ? "true" : "false") + ",\"guards\":" + (guards ? "true" : "false") +
             ",\"x\":[" + xs + "],\"y\":[" + ys + "]}\n";
      for (int t : n->node.temporaries ? std::vector<int>(n->node.temporaries->data, n->node.temporaries->data + n->node.temporaries->size) : std::vector<int>()) Scramble(t);
      if (st != kTfLiteOk) return st;
      k++;
    }
    log += "{\"e\":\"end\",\"y\":[";
    for (size_t i = 0; i < model_.outputs.size(); i++) log += (i ? ",\"" : "\"") + Hex(model_.outputs[i]) + "\"";
    log += "]}\n";
    return kTfLiteOk;
  }

  ShimModel model_;
  std::vector<std::unique_ptr<Node>> nodes_;
  std::vector<TfLiteTensor> flat_;
  std::vector<std::unique_ptr<Buf>> bufs_, old_;
  TfLiteContext ctx_{};
  CpuBackendContext backend_;
  std::vector<std::unique_ptr<std::string>> names_;
  uint32_t rnd_ = 12345;
  int threads_ = 1;
  bool ready_ = false;
  const char* p_ = nullptr;
  size_t n_ = 0, hash_ = 0;

  static Interpreter*& cur() { static Interpreter* c = nullptr; return c; }
  static size_t ElemSize(int t) {
    switch (t) { case kTfLiteFloat32: case kTfLiteInt32: return 4; case kTfLiteInt64: case kTfLiteFloat64: return 8;
                 case kTfLiteInt16: case kTfLiteFloat16: return 2; default: return 1; }
  }
  int samples_ = 0;
  uint32_t Next() { rnd_ = rnd_ * 1664525u + 1013904223u; return rnd_ >> 9; }
  void Scramble(int i) {
    if (!bufs_[i] || flat_[i].allocation_type == kTfLiteMmapRo) return;
    for (size_t j = 0; j < bufs_[i]->n; j++) bufs_[i]->data()[j] = flat_[i].type == kTfLiteBool ? Next() & 1 : Next();
  }
  std::string Hex(int t) {
    static const char* d = "0123456789abcdef";
    std::string s;
    if (!bufs_[t]) return s;
    for (size_t i = 0; i < bufs_[t]->n; i++) { unsigned char c = bufs_[t]->data()[i]; s += d[c >> 4]; s += d[c & 15]; }
    return s;
  }
  void Place(int i) {
    TfLiteTensor& t = flat_[i];
    size_t n = ElemSize(t.type);
    for (int j = 0; j < t.dims->size; j++) n *= t.dims->data[j];
    t.bytes = n;
    if (bufs_[i]) { std::fill(bufs_[i]->mem.begin(), bufs_[i]->mem.end(), 0x5B); old_.push_back(std::move(bufs_[i])); }
    bufs_[i] = std::make_unique<Buf>(n);
    t.data.raw = (char*)bufs_[i]->data();
    Scramble(i);
  }
  // The builtin operator "TEST" writes fresh arbitrary values; "FAIL:n" fails at its nth call.
  TfLiteStatus Test(Node& n) {
    if (n.def.op.compare(0, 5, "FAIL:") == 0 && n.calls == atoi(n.def.op.c_str() + 5)) return kTfLiteError;
    for (int t : n.def.out) Scramble(t);
    return kTfLiteOk;
  }
  static TfLiteStatus Resize(TfLiteContext*, TfLiteTensor* t, TfLiteIntArray* d) {
    if (t->dims && t->dims != d) TfLiteIntArrayFree(t->dims);
    t->dims = d;
    t->data.raw = nullptr;
    return kTfLiteOk;
  }
  static void Report(TfLiteContext*, const char*, ...) {}
  static TfLiteStatus Add(TfLiteContext* c, int n, int* first) {
    Interpreter* I = cur();
    *first = I->flat_.size();
    for (int i = 0; i < n; i++) {
      TfLiteTensor t{};
      t.type = kTfLiteInt8;
      t.dims = TfLiteIntArrayCreate(0);
      t.name = "temporary";
      if (I->flat_.size() == I->flat_.capacity()) { fprintf(stderr, "shim: tensor capacity\n"); abort(); }
      I->flat_.push_back(t);
      I->bufs_.emplace_back();
    }
    c->tensors = I->flat_.data();
    c->tensors_size = I->flat_.size();
    return kTfLiteOk;
  }
};

class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& m, const OpResolver& r) : m_(m), r_(r) {}
  TfLiteStatus SetNumThreads(int n) { threads_ = n; return kTfLiteOk; }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out, int threads) { threads_ = threads; return (*this)(out); }
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out) {
    auto I = std::make_unique<Interpreter>();
    Interpreter::cur() = I.get();
    I->model_ = m_.Parse();
    I->p_ = m_.p_;
    I->n_ = m_.n_;
    I->hash_ = std::hash<std::string>()(std::string(m_.p_, m_.n_));
    I->flat_.reserve(512);
    I->bufs_.reserve(512);
    I->ctx_.impl_ = &I->backend_;
    I->ctx_.ResizeTensor = Interpreter::Resize;
    I->ctx_.ReportError = Interpreter::Report;
    I->ctx_.AddTensors = Interpreter::Add;
    for (auto& d : I->model_.tensors) {
      TfLiteTensor t{};
      t.type = (TfLiteType)d.type;
      t.dims = TfLiteIntArrayCreate(d.dims.size());
      for (size_t j = 0; j < d.dims.size(); j++) t.dims->data[j] = d.dims[j];
      t.allocation_type = d.ro ? kTfLiteMmapRo : d.dyn ? kTfLiteDynamic : kTfLiteArenaRw;
      I->names_.push_back(std::make_unique<std::string>(d.name));
      t.name = I->names_.back()->c_str();
      t.params.scale = d.scale;
      t.params.zero_point = d.zp;
      if (d.q) {
        t.quantization.type = kTfLiteAffineQuantization;
        auto* a = (TfLiteAffineQuantization*)malloc(sizeof(TfLiteAffineQuantization));
        a->scale = TfLiteFloatArrayCreate(d.scales.size());
        for (size_t j = 0; j < d.scales.size(); j++) a->scale->data[j] = d.scales[j];
        a->zero_point = TfLiteIntArrayCreate(d.zps.size());
        for (size_t j = 0; j < d.zps.size(); j++) a->zero_point->data[j] = d.zps[j];
        a->quantized_dimension = 0;
        t.quantization.params = a;
      }
      int id = I->flat_.size();
      I->flat_.push_back(t);
      I->bufs_.emplace_back();
      if (d.ro) {
        size_t n = d.hex == "-" ? 0 : d.hex.size() / 2;
        I->bufs_[id] = std::make_unique<Interpreter::Buf>(n);
        auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t j = 0; j < n; j++) I->bufs_[id]->data()[j] = v(d.hex[2 * j]) * 16 + v(d.hex[2 * j + 1]);
        I->flat_[id].bytes = n;
        I->flat_[id].data.raw = (char*)I->bufs_[id]->data();
      }
    }
    I->ctx_.tensors = I->flat_.data();
    I->ctx_.tensors_size = I->flat_.size();
    std::string regs;
    for (auto& d : I->model_.nodes) {
      auto n = std::make_unique<Interpreter::Node>();
      n->def = d;
      n->reg = TfLiteRegistration{};
      if (d.custom) {
        const TfLiteRegistration* r = r_.FindOp(d.op.c_str(), 1);
        if (!r) { out->reset(); return kTfLiteError; }
        n->reg = *r;
      } else if (d.op != "TEST" && d.op.compare(0, 5, "FAIL:") != 0) { out->reset(); return kTfLiteError; }
      auto arr = [](const std::vector<int>& v) { auto* a = TfLiteIntArrayCreate(v.size()); for (size_t j = 0; j < v.size(); j++) a->data[j] = v[j]; return a; };
      n->node.inputs = arr(d.in);
      n->node.outputs = arr(d.out);
      n->node.temporaries = TfLiteIntArrayCreate(0);
      n->node.intermediates = TfLiteIntArrayCreate(0);
      if (d.custom) {
        flexbuffers::Builder fbb;
        size_t s = fbb.StartMap();
        std::istringstream os(d.opts);
        std::string kv;
        while (std::getline(os, kv, ';')) {
          size_t e = kv.find('=');
          if (e != std::string::npos) fbb.Int(kv.substr(0, e).c_str(), atoll(kv.c_str() + e + 1));
        }
        fbb.EndMap(s);
        fbb.Finish();
        n->opts = fbb.GetBuffer();
        if (n->reg.init) n->node.user_data = n->reg.init(&I->ctx_, (const char*)n->opts.data(), n->opts.size());
      }
      I->nodes_.push_back(std::move(n));
    }
    I->SetNumThreads(threads_);
    auto* b = dynamic_cast<const ops::builtin::BuiltinOpResolver*>(&r_);
    shim_log().s += "{\"e\":\"build\",\"threads\":" + std::to_string(threads_) + ",\"delegates\":" + (b && b->delegates() ? "true" : "false") + "}\n";
    *out = std::move(I);
    return kTfLiteOk;
  }
  const FlatBufferModel& m_;
  const OpResolver& r_;
  int threads_ = -1;
};
inline void PrintInterpreterState(const Interpreter*) {}
}  // namespace tflite

extern "C" {
// The log since the last call (valid until the next one).
__attribute__((visibility("default"), used)) inline const char* lce_shim_take_log() {
  static std::string kept;
  kept.swap(tflite::shim_log().s);
  tflite::shim_log().s.clear();
  return kept.c_str();
}
}
