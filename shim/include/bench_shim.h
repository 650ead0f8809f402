// Stand-in for TensorFlow Lite's benchmark tool: parameters, command line flags,
// and the run itself (load, resolve, build, allocate, invoke).
#pragma once
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "lite_shim.h"

void RegisterSelectedOps(::tflite::MutableOpResolver* resolver);

namespace tflite {
namespace tools {

class ToolParam {
 public:
  template <typename T> static std::unique_ptr<ToolParam> Create(const T& v, int position = 0);
  virtual ~ToolParam() {}
  virtual std::unique_ptr<ToolParam> Clone() const = 0;
  bool set = false;
  int position = 0;
};
template <typename T> class TypedToolParam : public ToolParam {
 public:
  explicit TypedToolParam(const T& v) : value(v) {}
  std::unique_ptr<ToolParam> Clone() const override { return std::make_unique<TypedToolParam<T>>(*this); }
  void Set(const T& v) { value = v; set = true; }
  T Get() const { return value; }
  T value;
};
template <typename T> std::unique_ptr<ToolParam> ToolParam::Create(const T& v, int position) {
  auto p = std::make_unique<TypedToolParam<T>>(v);
  p->position = position;
  return p;
}

class ToolParams {
 public:
  ToolParams() = default;
  ToolParams(const ToolParams& o) { for (auto& p : o.params_) params_[p.first] = p.second->Clone(); }
  ToolParams(ToolParams&&) = default;
  ToolParams& operator=(ToolParams&&) = default;
  void AddParam(const std::string& name, std::unique_ptr<ToolParam> v) { params_[name] = std::move(v); }
  void RemoveParam(const std::string& name) { params_.erase(name); }
  bool HasParam(const std::string& name) const { return params_.count(name) > 0; }
  bool Empty() const { return params_.empty(); }
  template <typename T> TypedToolParam<T>* As(const std::string& name) const {
    auto i = params_.find(name);
    auto* p = i == params_.end() ? nullptr : dynamic_cast<TypedToolParam<T>*>(i->second.get());
    if (!p) { fprintf(stderr, "no such parameter: %s\n", name.c_str()); std::abort(); }
    return p;
  }
  template <typename T> void Set(const std::string& name, const T& v, int position = 0) { auto* p = As<T>(name); p->Set(v); p->position = position; }
  template <typename T> bool HasValueSet(const std::string& name) const { return As<T>(name)->set; }
  template <typename T> int GetPosition(const std::string& name) const { return As<T>(name)->position; }
  template <typename T> T Get(const std::string& name) const { return As<T>(name)->Get(); }
  void Set(const ToolParams& o) { for (auto& p : params_) { auto i = o.params_.find(p.first); if (i != o.params_.end()) p.second = i->second->Clone(); } }
  void Merge(const ToolParams& o, bool overwrite = false) { for (auto& p : o.params_) if (overwrite || !params_.count(p.first)) params_[p.first] = p.second->Clone(); }
 private:
  std::map<std::string, std::unique_ptr<ToolParam>> params_;
};
}  // namespace tools

class Flag {
 public:
  enum FlagType { kPositional = 0, kRequired, kOptional };
  template <typename T>
  Flag(const char* name, const std::function<void(const T&, int)>& hook, T, const std::string& usage, FlagType = kOptional)
      : name_(name), set_([hook](const std::string& s, int i) { T v{}; if (!To(s, &v)) return false; hook(v, i); return true; }) {}
  template <typename T>
  Flag(const char* name, T* dst, const std::string& usage, FlagType = kOptional)
      : name_(name), set_([dst](const std::string& s, int) { return To(s, dst); }) {}
  const std::string& GetFlagName() const { return name_; }
  static bool To(const std::string& s, bool* v) {
    if (s == "true" || s == "1") *v = true;
    else if (s == "false" || s == "0") *v = false;
    else return false;
    return true;
  }
  static bool To(const std::string& s, int* v) { char* e; *v = (int)strtol(s.c_str(), &e, 10); return !s.empty() && !*e; }
  static bool To(const std::string& s, float* v) { char* e; *v = strtof(s.c_str(), &e); return !s.empty() && !*e; }
  static bool To(const std::string& s, std::string* v) { *v = s; return true; }
  bool Set(const std::string& s, int i) const { return set_(s, i); }
 private:
  std::string name_;
  std::function<bool(const std::string&, int)> set_;
};

namespace benchmark {
using BenchmarkParam = tools::ToolParam;
using BenchmarkParams = tools::ToolParams;

template <typename T> Flag CreateFlag(const char* name, BenchmarkParams* params, const std::string& usage) {
  return Flag(name, std::function<void(const T&, int)>([params, name](const T& v, int i) { params->Set<T>(name, v, i); }), params->Get<T>(name), usage, Flag::kOptional);
}

inline void ShimReport(const char* name, const std::string& v) { shim_log().s += std::string("{\"e\":\"param\",\"name\":\"") + name + "\",\"value\":\"" + v + "\"}\n"; }
inline std::string ShimText(bool v) { return v ? "true" : "false"; }
inline std::string ShimText(int v) { return std::to_string(v); }
inline std::string ShimText(const std::string&) { return "text"; }
#define LOG_BENCHMARK_PARAM(type, name, description, verbose)                                        \
  do {                                                                                               \
    if ((verbose) || params_.HasValueSet<type>(name)) ::tflite::benchmark::ShimReport(name, ::tflite::benchmark::ShimText(params_.Get<type>(name))); \
  } while (0)

class BenchmarkModel {
 public:
  static BenchmarkParams DefaultParams() {
    BenchmarkParams p;
    p.AddParam("num_runs", BenchmarkParam::Create<int>(2));
    p.AddParam("num_threads", BenchmarkParam::Create<int>(-1));
    p.AddParam("verbose", BenchmarkParam::Create<bool>(false));
    return p;
  }
  explicit BenchmarkModel(BenchmarkParams params = DefaultParams()) : params_(std::move(params)) {}
  virtual ~BenchmarkModel() {}
  TfLiteStatus Run(int argc, char** argv) {
    TF_LITE_ENSURE_STATUS(ParseFlags(argc, argv));
    return Run();
  }
  virtual TfLiteStatus Run() = 0;
  BenchmarkParams* mutable_params() { return &params_; }
 protected:
  virtual void LogParams() { LOG_BENCHMARK_PARAM(int, "num_threads", "Num threads", false); }
  virtual std::vector<Flag> GetFlags() {
    return {CreateFlag<int>("num_runs", &params_, ""), CreateFlag<int>("num_threads", &params_, ""), CreateFlag<bool>("verbose", &params_, "")};
  }
  TfLiteStatus ParseFlags(int argc, char** argv) { return ParseFlags(&argc, argv); }
  virtual TfLiteStatus ParseFlags(int* argc, char** argv) {
    auto flags = GetFlags();
    for (int i = 1; i < *argc; i++) {
      std::string a = argv[i];
      for (auto& f : flags) {
        std::string p = "--" + f.GetFlagName() + "=";
        if (a.compare(0, p.size(), p) == 0) { if (!f.Set(a.substr(p.size()), i)) return kTfLiteError; }
        else if (a == "--" + f.GetFlagName()) return kTfLiteError;
      }
    }
    return kTfLiteOk;
  }
  BenchmarkParams params_;
};

class BenchmarkTfLiteModel : public BenchmarkModel {
 public:
  using BenchmarkModel::Run;
  explicit BenchmarkTfLiteModel(BenchmarkParams params = DefaultParams()) : BenchmarkModel(std::move(params)) {}
  static BenchmarkParams DefaultParams() {
    BenchmarkParams p = BenchmarkModel::DefaultParams();
    p.AddParam("graph", BenchmarkParam::Create<std::string>(""));
    return p;
  }
  std::vector<Flag> GetFlags() override {
    std::vector<Flag> f = BenchmarkModel::GetFlags();
    f.push_back(CreateFlag<std::string>("graph", &params_, ""));
    return f;
  }
  void LogParams() override {
    BenchmarkModel::LogParams();
    LOG_BENCHMARK_PARAM(std::string, "graph", "Graph", params_.Get<bool>("verbose"));
  }
  TfLiteStatus Run() override {
    if (params_.Get<std::string>("graph").empty()) return kTfLiteError;
    LogParams();
    model_ = FlatBufferModel::BuildFromFile(params_.Get<std::string>("graph").c_str());
    if (!model_) return kTfLiteError;
    auto resolver = GetOpResolver();
    InterpreterBuilder b(*model_, *resolver);
    if (b(&interpreter_, params_.Get<int>("num_threads")) != kTfLiteOk || !interpreter_) return kTfLiteError;
    if (interpreter_->AllocateTensors() != kTfLiteOk) return kTfLiteError;
    for (int i = 0; i < params_.Get<int>("num_runs"); i++) if (interpreter_->Invoke() != kTfLiteOk) return kTfLiteError;
    return kTfLiteOk;
  }
 protected:
  virtual std::unique_ptr<OpResolver> GetOpResolver() const {
    auto r = std::make_unique<ops::builtin::BuiltinOpResolver>();
    ::RegisterSelectedOps(r.get());
    return r;
  }
  std::unique_ptr<FlatBufferModel> model_;
  std::unique_ptr<Interpreter> interpreter_;
};
}  // namespace benchmark
}  // namespace tflite
