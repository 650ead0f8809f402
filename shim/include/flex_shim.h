// Stand-in for flatbuffers' flexbuffers.h: the documented FlexBuffers wire
// format (maps, vectors, typed vectors, strings, scalars), builder and reader.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

#ifndef FLATBUFFERS_LITTLEENDIAN
#define FLATBUFFERS_LITTLEENDIAN 1
#endif
namespace flexbuffers {
enum BitWidth { BIT_WIDTH_8 = 0, BIT_WIDTH_16 = 1, BIT_WIDTH_32 = 2, BIT_WIDTH_64 = 3 };
enum Type {
  FBT_NULL = 0, FBT_INT = 1, FBT_UINT = 2, FBT_FLOAT = 3, FBT_KEY = 4, FBT_STRING = 5,
  FBT_INDIRECT_INT = 6, FBT_INDIRECT_UINT = 7, FBT_INDIRECT_FLOAT = 8, FBT_MAP = 9, FBT_VECTOR = 10,
  FBT_VECTOR_INT = 11, FBT_VECTOR_UINT = 12, FBT_VECTOR_FLOAT = 13, FBT_VECTOR_KEY = 14,
  FBT_VECTOR_STRING_DEPRECATED = 15, FBT_BLOB = 25, FBT_BOOL = 26, FBT_VECTOR_BOOL = 36
};
inline int64_t ReadSInt(const uint8_t* d, int w) {
  switch (w) { case 1: return (int8_t)d[0]; case 2: { int16_t v; memcpy(&v, d, 2); return v; }
    case 4: { int32_t v; memcpy(&v, d, 4); return v; } default: { int64_t v; memcpy(&v, d, 8); return v; } }
}
inline uint64_t ReadUInt(const uint8_t* d, int w) {
  switch (w) { case 1: return d[0]; case 2: { uint16_t v; memcpy(&v, d, 2); return v; }
    case 4: { uint32_t v; memcpy(&v, d, 4); return v; } default: { uint64_t v; memcpy(&v, d, 8); return v; } }
}
inline double ReadDbl(const uint8_t* d, int w) {
  if (w == 4) { float f; memcpy(&f, d, 4); return f; }
  if (w == 8) { double f; memcpy(&f, d, 8); return f; }
  return 0;
}
class Map; class Vector;
class String {
 public:
  String(const char* s, size_t n) : s_(s), n_(n) {}
  size_t length() const { return n_; } size_t size() const { return n_; }
  const char* c_str() const { return s_; } std::string str() const { return std::string(s_, n_); }
 private: const char* s_; size_t n_;
};
class Reference {
 public:
  Reference() : d_(nullptr), pw_(1), bw_(1), t_(FBT_NULL) {}
  Reference(const uint8_t* d, uint8_t pw, uint8_t packed) : d_(d), pw_(pw), bw_(1 << (packed & 3)), t_((Type)(packed >> 2)) {}
  Reference(const uint8_t* d, uint8_t pw, uint8_t bw, Type t) : d_(d), pw_(pw), bw_(bw), t_(t) {}
  Type GetType() const { return t_; }
  bool IsNull() const { return t_ == FBT_NULL; } bool IsInt() const { return t_ == FBT_INT || t_ == FBT_INDIRECT_INT; }
  bool IsUInt() const { return t_ == FBT_UINT || t_ == FBT_INDIRECT_UINT; } bool IsIntOrUint() const { return IsInt() || IsUInt(); }
  bool IsBool() const { return t_ == FBT_BOOL; } bool IsFloat() const { return t_ == FBT_FLOAT || t_ == FBT_INDIRECT_FLOAT; }
  bool IsNumeric() const { return IsIntOrUint() || IsFloat(); } bool IsMap() const { return t_ == FBT_MAP; }
  bool IsString() const { return t_ == FBT_STRING; } bool IsVector() const { return t_ == FBT_VECTOR || t_ == FBT_MAP; }
  bool IsAnyVector() const { return IsVector() || (t_ >= FBT_VECTOR_INT && t_ <= FBT_VECTOR_STRING_DEPRECATED) || t_ == FBT_VECTOR_BOOL; }
  int64_t AsInt64() const {
    switch (t_) {
      case FBT_INT: return ReadSInt(d_, pw_);
      case FBT_UINT: case FBT_BOOL: return (int64_t)ReadUInt(d_, pw_);
      case FBT_FLOAT: return (int64_t)ReadDbl(d_, pw_);
      case FBT_INDIRECT_INT: return ReadSInt(Ind(), bw_);
      case FBT_INDIRECT_UINT: return (int64_t)ReadUInt(Ind(), bw_);
      case FBT_INDIRECT_FLOAT: return (int64_t)ReadDbl(Ind(), bw_);
      default: return 0;
    }
  }
  int32_t AsInt32() const { return (int32_t)AsInt64(); } int16_t AsInt16() const { return (int16_t)AsInt64(); }
  int8_t AsInt8() const { return (int8_t)AsInt64(); } uint64_t AsUInt64() const { return (uint64_t)AsInt64(); }
  uint32_t AsUInt32() const { return (uint32_t)AsInt64(); } uint16_t AsUInt16() const { return (uint16_t)AsInt64(); }
  uint8_t AsUInt8() const { return (uint8_t)AsInt64(); } bool AsBool() const { return AsInt64() != 0; }
  double AsDouble() const {
    if (t_ == FBT_FLOAT) return ReadDbl(d_, pw_);
    if (t_ == FBT_INDIRECT_FLOAT) return ReadDbl(Ind(), bw_);
    return (double)AsInt64();
  }
  float AsFloat() const { return (float)AsDouble(); }
  const char* AsKey() const { return t_ == FBT_KEY ? (const char*)Ind() : ""; }
  String AsString() const {
    if (t_ == FBT_STRING) { const uint8_t* p = Ind(); return String((const char*)p, ReadUInt(p - bw_, bw_)); }
    if (t_ == FBT_KEY) { const char* k = AsKey(); return String(k, strlen(k)); }
    return String("", 0);
  }
  inline Map AsMap() const; inline Vector AsVector() const;
  std::string ToString() const { return AsString().str(); }
  const uint8_t* Ind() const { return d_ - ReadUInt(d_, pw_); }
  uint8_t bw() const { return bw_; }
 private:
  const uint8_t* d_; uint8_t pw_, bw_; Type t_;
};
class Vector {
 public:
  Vector(const uint8_t* d, uint8_t w, Type t) : d_(d), w_(w), t_(t) {}
  size_t size() const { return d_ ? ReadUInt(d_ - w_, w_) : 0; }
  Reference operator[](size_t i) const {
    if (i >= size()) return Reference();
    if (t_ == FBT_VECTOR || t_ == FBT_MAP) return Reference(d_ + i * w_, w_, d_[size() * w_ + i]);
    Type e = t_ == FBT_VECTOR_BOOL ? FBT_BOOL : (Type)(t_ - FBT_VECTOR_INT + FBT_INT);
    return Reference(d_ + i * w_, w_, 1, e);
  }
 protected:
  const uint8_t* d_; uint8_t w_; Type t_;
};
using TypedVector = Vector;
class Map : public Vector {
 public:
  Map(const uint8_t* d, uint8_t w) : Vector(d, w, FBT_MAP) {}
  Vector Keys() const {
    const uint8_t* kp = d_ - 3 * w_;
    return Vector(kp - ReadUInt(kp, w_), (uint8_t)ReadUInt(kp + w_, w_), FBT_VECTOR_KEY);
  }
  Vector Values() const { return Vector(d_, w_, FBT_VECTOR); }
  Reference operator[](const char* key) const {
    if (!d_) return Reference();
    Vector k = Keys();
    for (size_t i = 0; i < k.size(); i++)
      if (!strcmp(k[i].AsKey(), key)) return Vector::operator[](i);
    return Reference();
  }
  Reference operator[](const std::string& key) const { return (*this)[key.c_str()]; }
};
inline Map Reference::AsMap() const { return t_ == FBT_MAP ? Map(Ind(), bw_) : Map(nullptr, 1); }
inline Vector Reference::AsVector() const { return IsAnyVector() ? Vector(Ind(), bw_, t_) : Vector(nullptr, 1, FBT_VECTOR); }
inline Reference GetRoot(const uint8_t* b, size_t n) {
  if (b == nullptr || n < 3) return Reference();
  const uint8_t* e = b + n;
  uint8_t bw = *--e; uint8_t packed = *--e; e -= bw;
  return Reference(e, bw, packed);
}
inline Reference GetRoot(const std::vector<uint8_t>& b) { return GetRoot(b.data(), b.size()); }

class Builder {
 public:
  Builder(size_t = 256) {}
  const std::vector<uint8_t>& GetBuffer() const { return buf_; }
  size_t GetSize() const { return buf_.size(); }
  void Clear() { buf_.clear(); st_.clear(); }
  void Null() { st_.push_back(V{FBT_NULL, 0, 0, 0}); }
  void Int(int64_t i) { V v{FBT_INT, i, 0, WI(i)}; st_.push_back(v); }
  void UInt(uint64_t u) { V v{FBT_UINT, (int64_t)u, 0, WU(u)}; st_.push_back(v); }
  void Bool(bool b) { V v{FBT_BOOL, b, 0, 0}; st_.push_back(v); }
  void Float(float f) { V v{FBT_FLOAT, 0, f, 2}; st_.push_back(v); }
  void Double(double f) { V v{FBT_FLOAT, 0, f, ((double)(float)f == f) ? 2 : 3}; st_.push_back(v); }
  void Null(const char* k) { Key(k); Null(); } void Int(const char* k, int64_t i) { Key(k); Int(i); }
  void UInt(const char* k, uint64_t i) { Key(k); UInt(i); } void Bool(const char* k, bool i) { Key(k); Bool(i); }
  void Float(const char* k, float f) { Key(k); Float(f); } void Double(const char* k, double f) { Key(k); Double(f); }
  void Add(int64_t v) { Int(v); } void Add(int v) { Int(v); } void Add(bool v) { Bool(v); } void Add(float v) { Float(v); } void Add(double v) { Double(v); }
  template <typename T> void Add(const char* k, const T& v) { Key(k); Add(v); }
  size_t Key(const char* k) { size_t loc = buf_.size(); for (const char* p = k; ; ++p) { buf_.push_back((uint8_t)*p); if (!*p) break; } st_.push_back(V{FBT_KEY, (int64_t)loc, 0, 0}); return loc; }
  size_t String(const char* s, size_t n) { int w = WU(n); Align(w); Put((uint64_t)n, 1 << w); size_t loc = buf_.size(); buf_.insert(buf_.end(), s, s + n); buf_.push_back(0); st_.push_back(V{FBT_STRING, (int64_t)loc, 0, w}); return loc; }
  size_t String(const char* s) { return String(s, strlen(s)); }
  size_t String(const std::string& s) { return String(s.c_str(), s.size()); }
  void String(const char* k, const std::string& s) { Key(k); String(s); }
  size_t StartMap() { return st_.size(); } size_t StartMap(const char* k) { Key(k); return st_.size(); }
  size_t StartVector() { return st_.size(); } size_t StartVector(const char* k) { Key(k); return st_.size(); }
  size_t EndVector(size_t start, bool = false, bool = false) { V v = Vec(start, st_.size() - start, 1, nullptr); st_.resize(start); st_.push_back(v); return (size_t)v.i; }
  size_t EndMap(size_t start) {
    size_t n = (st_.size() - start) / 2;
    std::vector<std::pair<V, V>> kv;
    for (size_t i = 0; i < n; i++) kv.push_back({st_[start + 2 * i], st_[start + 2 * i + 1]});
    std::stable_sort(kv.begin(), kv.end(), [&](auto& a, auto& b) { return strcmp((char*)&buf_[a.first.i], (char*)&buf_[b.first.i]) < 0; });
    st_.resize(start);
    for (auto& p : kv) { st_.push_back(p.first); st_.push_back(p.second); }
    V keys = VecKeys(start, n);
    V vals = Vec(start + 1, n, 2, &keys);
    st_.resize(start); st_.push_back(vals); return (size_t)vals.i;
  }
  template <typename F> size_t Map(F f) { auto s = StartMap(); f(); return EndMap(s); }
  template <typename F> size_t Map(const char* k, F f) { auto s = StartMap(k); f(); return EndMap(s); }
  template <typename F> size_t Vector(F f) { auto s = StartVector(); f(); return EndVector(s); }
  template <typename F> size_t Vector(const char* k, F f) { auto s = StartVector(k); f(); return EndVector(s); }
  void Finish() {
    V& v = st_[0]; int w = EW(v, buf_.size(), 0); Align(w);
    PutAny(v, 1 << w); buf_.push_back(Packed(v, w)); buf_.push_back((uint8_t)(1 << w));
  }
 private:
  struct V { Type t; int64_t i; double f; int w; };
  static int WI(int64_t i) { return i >= -128 && i <= 127 ? 0 : i >= -32768 && i <= 32767 ? 1 : i >= INT32_MIN && i <= INT32_MAX ? 2 : 3; }
  static int WU(uint64_t u) { return u < 256 ? 0 : u < 65536 ? 1 : u <= 0xFFFFFFFFull ? 2 : 3; }
  static bool Inline(Type t) { return t <= FBT_FLOAT || t == FBT_BOOL; }
  void Align(int w) { size_t b = 1 << w; while (buf_.size() % b) buf_.push_back(0); }
  void Put(uint64_t v, int n) { for (int k = 0; k < n; k++) buf_.push_back((uint8_t)(v >> (8 * k))); }
  void PutAny(const V& v, int n) {
    if (v.t == FBT_FLOAT) { if (n == 4) { float f = (float)v.f; uint32_t u; memcpy(&u, &f, 4); Put(u, 4); } else { uint64_t u; memcpy(&u, &v.f, 8); Put(u, 8); } }
    else if (Inline(v.t)) Put((uint64_t)v.i, n);
    else Put((uint64_t)(buf_.size() - (size_t)v.i), n);
  }
  int EW(const V& v, size_t size, size_t idx) const {
    if (Inline(v.t)) return v.w;
    for (int w = 0; w < 4; w++) { size_t b = 1 << w; size_t off = ((size + b - 1) / b * b) + idx * b - (size_t)v.i; if (WU(off) <= w) return w; }
    return 3;
  }
  uint8_t Packed(const V& v, int parent) const { int w = Inline(v.t) ? std::max(v.w, parent) : v.w; return (uint8_t)(w | (v.t << 2)); }
  V VecKeys(size_t start, size_t n) {
    int w = WU(n);
    for (size_t i = 0; i < n; i++) w = std::max(w, EW(st_[start + 2 * i], buf_.size(), i + 1));
    Align(w); Put(n, 1 << w); size_t loc = buf_.size();
    for (size_t i = 0; i < n; i++) PutAny(st_[start + 2 * i], 1 << w);
    return V{FBT_VECTOR_KEY, (int64_t)loc, 0, w};
  }
  V Vec(size_t start, size_t n, size_t step, const V* keys) {
    int w = WU(n); size_t pre = 1;
    if (keys) { w = std::max(w, EW(*keys, buf_.size(), 0)); pre += 2; }
    for (size_t i = 0; i < n; i++) w = std::max(w, EW(st_[start + i * step], buf_.size(), i + pre));
    Align(w);
    if (keys) { PutAny(*keys, 1 << w); Put(1ull << keys->w, 1 << w); }
    Put(n, 1 << w); size_t loc = buf_.size();
    for (size_t i = 0; i < n; i++) PutAny(st_[start + i * step], 1 << w);
    for (size_t i = 0; i < n; i++) buf_.push_back(Packed(st_[start + i * step], w));
    return V{keys ? FBT_MAP : FBT_VECTOR, (int64_t)loc, 0, w};
  }
  std::vector<uint8_t> buf_; std::vector<V> st_;
};
}  // namespace flexbuffers
