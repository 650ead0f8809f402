// Stand-in for the parts of TensorFlow Lite that larq/compute-engine's kernels
// use.  TensorFlow's sources are not available offline, so these declarations
// reproduce the documented TF Lite C API / kernel-utility semantics (TF 2.16).
// Nothing in here belongs to the system under test.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

// ---------------------------------------------------------------- C API ----
typedef enum TfLiteStatus {
  kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3
} TfLiteStatus;

typedef enum {
  kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteUInt8 = 3,
  kTfLiteInt64 = 4, kTfLiteString = 5, kTfLiteBool = 6, kTfLiteInt16 = 7,
  kTfLiteComplex64 = 8, kTfLiteInt8 = 9, kTfLiteFloat16 = 10,
  kTfLiteFloat64 = 11, kTfLiteComplex128 = 12, kTfLiteUInt64 = 13,
  kTfLiteResource = 14, kTfLiteVariant = 15, kTfLiteUInt32 = 16,
  kTfLiteUInt16 = 17, kTfLiteInt4 = 18
} TfLiteType;

typedef struct TfLiteIntArray { int size; int data[]; } TfLiteIntArray;
typedef struct TfLiteFloatArray { int size; float data[]; } TfLiteFloatArray;

inline size_t TfLiteIntArrayGetSizeInBytes(int size) {
  return sizeof(TfLiteIntArray) + sizeof(int) * size;
}
inline TfLiteIntArray* TfLiteIntArrayCreate(int size) {
  auto* r = (TfLiteIntArray*)malloc(TfLiteIntArrayGetSizeInBytes(size));
  r->size = size;
  return r;
}
inline void TfLiteIntArrayFree(TfLiteIntArray* a) { free(a); }
inline TfLiteIntArray* TfLiteIntArrayCopy(const TfLiteIntArray* src) {
  if (!src) return nullptr;
  auto* r = TfLiteIntArrayCreate(src->size);
  if (r) memcpy(r->data, src->data, src->size * sizeof(int));
  return r;
}
inline int TfLiteIntArrayEqual(const TfLiteIntArray* a, const TfLiteIntArray* b) {
  if (a == b) return 1;
  if (!a || !b || a->size != b->size) return 0;
  return std::equal(a->data, a->data + a->size, b->data);
}
inline int TfLiteIntArrayEqualsArray(const TfLiteIntArray* a, int n, const int* b) {
  if (a == nullptr) return n == 0;
  if (a->size != n) return 0;
  for (int i = 0; i < n; ++i) if (a->data[i] != b[i]) return 0;
  return 1;
}
inline TfLiteFloatArray* TfLiteFloatArrayCreate(int size) {
  auto* r = (TfLiteFloatArray*)malloc(sizeof(TfLiteFloatArray) + sizeof(float) * size);
  r->size = size;
  return r;
}
inline void TfLiteFloatArrayFree(TfLiteFloatArray* a) { free(a); }

typedef struct TfLiteQuantizationParams { float scale; int32_t zero_point; } TfLiteQuantizationParams;
typedef enum TfLiteQuantizationType { kTfLiteNoQuantization = 0, kTfLiteAffineQuantization = 1 } TfLiteQuantizationType;
typedef struct TfLiteQuantization { TfLiteQuantizationType type; void* params; } TfLiteQuantization;
typedef struct TfLiteAffineQuantization {
  TfLiteFloatArray* scale; TfLiteIntArray* zero_point; int32_t quantized_dimension;
} TfLiteAffineQuantization;
typedef enum TfLiteAllocationType {
  kTfLiteMemNone = 0, kTfLiteMmapRo, kTfLiteArenaRw, kTfLiteArenaRwPersistent,
  kTfLiteDynamic, kTfLitePersistentRo, kTfLiteCustom, kTfLiteVariantObject
} TfLiteAllocationType;
typedef union TfLitePtrUnion {
  int32_t* i32; uint32_t* u32; int64_t* i64; uint64_t* u64; float* f; double* f64;
  char* raw; const char* raw_const; uint8_t* uint8; bool* b; int16_t* i16;
  uint16_t* ui16; int8_t* int8; void* data;
} TfLitePtrUnion;
typedef struct TfLiteTensor {
  TfLiteType type;
  TfLitePtrUnion data;
  TfLiteIntArray* dims;
  TfLiteQuantizationParams params;
  TfLiteAllocationType allocation_type;
  size_t bytes;
  const void* allocation;
  const char* name;
  void* delegate;
  int buffer_handle;
  bool data_is_stale;
  bool is_variable;
  TfLiteQuantization quantization;
  void* sparsity;
  const TfLiteIntArray* dims_signature;
} TfLiteTensor;
typedef struct TfLiteNode {
  TfLiteIntArray* inputs;
  TfLiteIntArray* outputs;
  TfLiteIntArray* intermediates;
  TfLiteIntArray* temporaries;
  void* user_data;
  void* builtin_data;
  const void* custom_initial_data;
  int custom_initial_data_size;
  void* delegate;
  bool might_have_side_effect;
} TfLiteNode;
struct TfLiteExternalContext;
typedef struct TfLiteContext {
  size_t tensors_size;
  void* impl_;
  TfLiteTensor* tensors;
  TfLiteStatus (*ResizeTensor)(struct TfLiteContext*, TfLiteTensor* tensor, TfLiteIntArray* new_size);
  void (*ReportError)(struct TfLiteContext*, const char* msg, ...);
  TfLiteStatus (*AddTensors)(struct TfLiteContext*, int tensors_to_add, int* first_new_tensor_index);
  TfLiteTensor* (*GetTensor)(const struct TfLiteContext*, int);
  int recommended_num_threads;
  bool allow_fp32_relax_to_fp16;
  void* profiler;
} TfLiteContext;
typedef struct TfLiteRegistration {
  void* (*init)(TfLiteContext* context, const char* buffer, size_t length);
  void (*free)(TfLiteContext* context, void* buffer);
  TfLiteStatus (*prepare)(TfLiteContext* context, TfLiteNode* node);
  TfLiteStatus (*invoke)(TfLiteContext* context, TfLiteNode* node);
  const char* (*profiling_string)(const TfLiteContext* context, const TfLiteNode* node);
  int32_t builtin_code;
  const char* custom_name;
  int version;
  void* registration_external;
  void* async_kernel;
  uint64_t inplace_operator;
} TfLiteRegistration;
inline const char* TfLiteTypeGetName(TfLiteType t) {
  switch (t) {
    case kTfLiteNoType: return "NOTYPE"; case kTfLiteFloat32: return "FLOAT32";
    case kTfLiteInt32: return "INT32"; case kTfLiteUInt8: return "UINT8";
    case kTfLiteInt64: return "INT64"; case kTfLiteBool: return "BOOL";
    case kTfLiteInt16: return "INT16"; case kTfLiteInt8: return "INT8";
    default: return "OTHER";
  }
}

#define TF_LITE_KERNEL_LOG(context, ...)            \
  do {                                              \
    (context)->ReportError((context), __VA_ARGS__); \
  } while (false)
#define TF_LITE_MAYBE_KERNEL_LOG(context, ...)        \
  do {                                                \
    if ((context) != nullptr) {                       \
      (context)->ReportError((context), __VA_ARGS__); \
    }                                                 \
  } while (false)
#define TF_LITE_ENSURE_MSG(context, value, ...)        \
  do {                                                 \
    if (!(value)) {                                    \
      TF_LITE_KERNEL_LOG((context), __FILE__ " " __VA_ARGS__); \
      return kTfLiteError;                             \
    }                                                  \
  } while (0)
#define TF_LITE_ENSURE(context, a)                                        \
  do {                                                                    \
    if (!(a)) {                                                           \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s was not true.", __FILE__, __LINE__, #a); \
      return kTfLiteError;                                                \
    }                                                                     \
  } while (0)
#define TF_LITE_ENSURE_STATUS(a) \
  do {                           \
    const TfLiteStatus s = (a);  \
    if (s != kTfLiteOk) {        \
      return s;                  \
    }                            \
  } while (0)
#define TF_LITE_ENSURE_OK(context, status) TF_LITE_ENSURE_STATUS(status)
#define TF_LITE_ENSURE_EQ(context, a, b)                                  \
  do {                                                                    \
    if ((a) != (b)) {                                                     \
      TF_LITE_KERNEL_LOG((context), "%s:%d %s != %s", __FILE__, __LINE__, #a, #b); \
      return kTfLiteError;                                                \
    }                                                                     \
  } while (0)
#define TF_LITE_ENSURE_TYPES_EQ(context, a, b) TF_LITE_ENSURE_EQ(context, a, b)
#define TF_LITE_ENSURE_NEAR(context, a, b, epsilon)                       \
  do {                                                                    \
    auto delta = ((a) > (b)) ? ((a) - (b)) : ((b) - (a));                 \
    if (delta > epsilon) {                                                \
      TF_LITE_KERNEL_LOG((context), "%s:%d not near", __FILE__, __LINE__); \
      return kTfLiteError;                                                \
    }                                                                     \
  } while (0)

#define TF_LITE_FATAL(msg)          \
  do {                              \
    fprintf(stderr, "%s\n", (msg)); \
    std::abort();                   \
  } while (false)
#define TF_LITE_ASSERT(x)        \
  do {                           \
    if (!(x)) TF_LITE_FATAL(#x); \
  } while (0)
#define TF_LITE_ASSERT_EQ(x, y)                            \
  do {                                                     \
    if ((x) != (y)) TF_LITE_FATAL(#x " didn't equal " #y); \
  } while (0)
#define TFLITE_ABORT std::abort()
#define TFLITE_ASSERT_FALSE ((void)0)
// Release builds (-c opt) compile the DCHECKs out; keep the arguments checked
// by the compiler but not evaluated.
#define TFLITE_DCHECK(c) (void)sizeof(!(c))
#define TFLITE_DCHECK_EQ(x, y) (void)sizeof((x) == (y))
#define TFLITE_DCHECK_NE(x, y) (void)sizeof((x) != (y))
#define TFLITE_DCHECK_GE(x, y) (void)sizeof((x) >= (y))
#define TFLITE_DCHECK_GT(x, y) (void)sizeof((x) > (y))
#define TFLITE_DCHECK_LE(x, y) (void)sizeof((x) <= (y))
#define TFLITE_DCHECK_LT(x, y) (void)sizeof((x) < (y))
#define TFLITE_CHECK(c) ((c) ? (void)0 : std::abort())
#define TFLITE_CHECK_EQ(x, y) (((x) == (y)) ? (void)0 : std::abort())
#define TFLITE_CHECK_NE(x, y) (((x) != (y)) ? (void)0 : std::abort())
#define TFLITE_CHECK_GE(x, y) (((x) >= (y)) ? (void)0 : std::abort())
#define TFLITE_CHECK_GT(x, y) (((x) > (y)) ? (void)0 : std::abort())
#define TFLITE_CHECK_LE(x, y) (((x) <= (y)) ? (void)0 : std::abort())
#define TFLITE_CHECK_LT(x, y) (((x) < (y)) ? (void)0 : std::abort())

// builtin_op_data.h
typedef enum { kTfLitePaddingUnknown = 0, kTfLitePaddingSame, kTfLitePaddingValid } TfLitePadding;
typedef struct { int width; int height; int width_offset; int height_offset; } TfLitePaddingValues;
typedef enum {
  kTfLiteActNone = 0, kTfLiteActRelu, kTfLiteActReluN1To1, kTfLiteActRelu6,
  kTfLiteActTanh, kTfLiteActSignBit, kTfLiteActSigmoid
} TfLiteFusedActivation;

#ifdef LCE_SHIM_RTTI
#endif

namespace tflite {

enum Padding : int8_t { Padding_SAME = 0, Padding_VALID = 1, Padding_MIN = 0, Padding_MAX = 1 };
enum ActivationFunctionType : int8_t {
  ActivationFunctionType_NONE = 0, ActivationFunctionType_RELU = 1,
  ActivationFunctionType_RELU_N1_TO_1 = 2, ActivationFunctionType_RELU6 = 3,
  ActivationFunctionType_TANH = 4, ActivationFunctionType_SIGN_BIT = 5,
  ActivationFunctionType_MIN = 0, ActivationFunctionType_MAX = 5
};

// cppmath.h
template <class T> inline T TfLiteRound(const T x) { return ::std::round(x); }
template <class T> inline T TfLiteExpm1(const T x) { return ::std::expm1(x); }

template <TfLiteType T> struct TfLiteTypeToType;
template <> struct TfLiteTypeToType<kTfLiteFloat32> { using Type = float; };
template <> struct TfLiteTypeToType<kTfLiteInt32> { using Type = int32_t; };
template <> struct TfLiteTypeToType<kTfLiteInt8> { using Type = int8_t; };
template <> struct TfLiteTypeToType<kTfLiteUInt8> { using Type = uint8_t; };
template <> struct TfLiteTypeToType<kTfLiteInt16> { using Type = int16_t; };
template <> struct TfLiteTypeToType<kTfLiteInt64> { using Type = int64_t; };
template <> struct TfLiteTypeToType<kTfLiteBool> { using Type = bool; };
template <typename T> constexpr TfLiteType typeToTfLiteType() {
  if (std::is_same<T, float>::value) return kTfLiteFloat32;
  if (std::is_same<T, int32_t>::value) return kTfLiteInt32;
  if (std::is_same<T, int8_t>::value) return kTfLiteInt8;
  if (std::is_same<T, uint8_t>::value) return kTfLiteUInt8;
  if (std::is_same<T, bool>::value) return kTfLiteBool;
  if (std::is_same<T, int16_t>::value) return kTfLiteInt16;
  if (std::is_same<T, int64_t>::value) return kTfLiteInt64;
  return kTfLiteNoType;
}

class RuntimeShape {
 public:
  static constexpr int kMaxSmallSize = 6;
  RuntimeShape() {}
  explicit RuntimeShape(int n) : d_(n) {}
  RuntimeShape(int n, int32_t value) : d_(n, value) {}
  RuntimeShape(int n, const int32_t* data) : d_(data, data + n) {}
  RuntimeShape(const std::initializer_list<int> l) : d_(l.begin(), l.end()) {}
  bool operator==(const RuntimeShape& o) const { return d_ == o.d_; }
  bool operator!=(const RuntimeShape& o) const { return !(d_ == o.d_); }
  int32_t DimensionsCount() const { return (int32_t)d_.size(); }
  int32_t Dims(int i) const { TFLITE_DCHECK_GE(i, 0); return d_.at(i); }
  void SetDim(int i, int32_t v) { d_.at(i) = v; }
  int32_t* DimsData() { return d_.data(); }
  const int32_t* DimsData() const { return d_.data(); }
  const int32_t* DimsDataUpTo5D() const { return d_.data(); }
  const int32_t* DimsDataUpTo6D() const { return d_.data(); }
  void Resize(int n) { d_.resize(n); }
  void ReplaceWith(int n, const int32_t* data) { d_ = std::vector<int32_t>(data, data + n); }
  template <typename T> void BuildFrom(const T& it) { d_.assign(it.begin(), it.end()); }
  int FlatSize() const { int s = 1; for (int v : d_) s *= v; return s; }
  static RuntimeShape ExtendedShape(int n, const RuntimeShape& s) {
    RuntimeShape r(n, 1);
    for (int i = 0; i < s.DimensionsCount(); i++) r.SetDim(n - s.DimensionsCount() + i, s.Dims(i));
    return r;
  }
 private:
  std::vector<int32_t> d_;
};
inline size_t ReducedOutputOffset(...) { return 0; }
inline int Offset(const RuntimeShape& s, int i0, int i1, int i2, int i3) {
  const int32_t* d = s.DimsData();
  return ((i0 * d[1] + i1) * d[2] + i2) * d[3] + i3;
}
inline int Offset(const RuntimeShape& s, int* index) { return Offset(s, index[0], index[1], index[2], index[3]); }
inline int Offset(const RuntimeShape& s, int i0, int i1, int i2, int i3, int i4) {
  return (((i0 * s.Dims(1) + i1) * s.Dims(2) + i2) * s.Dims(3) + i3) * s.Dims(4) + i4;
}
inline int FlatSizeSkipDim(const RuntimeShape& s, int skip) {
  int f = 1;
  for (int i = 0; i < s.DimensionsCount(); ++i) f *= (i == skip) ? 1 : s.Dims(i);
  return f;
}
inline int MatchingDim(const RuntimeShape& s1, int i1, const RuntimeShape& s2, int i2) {
  return std::min(s1.Dims(i1), s2.Dims(i2));
}
template <typename... Args>
int MatchingDim(const RuntimeShape& s1, int i1, const RuntimeShape& s2, int i2, Args... args) {
  return MatchingDim(s1, i1, args...);
}
inline int MatchingFlatSize(const RuntimeShape& s, const RuntimeShape&) { return s.FlatSize(); }
template <typename... Args> int MatchingFlatSize(const RuntimeShape& s, const RuntimeShape&, Args... r) { return MatchingFlatSize(s, r...); }
inline int MatchingFlatSizeSkipDim(const RuntimeShape& s, int skip, const RuntimeShape&) { return FlatSizeSkipDim(s, skip); }
inline int MatchingElementsSize(const RuntimeShape& s, const RuntimeShape&) { return s.FlatSize(); }

enum class PaddingType : uint8_t { kNone, kSame, kValid };
enum class FusedActivationFunctionType : uint8_t { kNone, kRelu6, kRelu1, kRelu };
struct PaddingValues { int16_t width; int16_t height; int16_t width_offset; int16_t height_offset; };
struct ConvParams {
  PaddingType padding_type;
  PaddingValues padding_values;
  int16_t stride_width;
  int16_t stride_height;
  int16_t dilation_width_factor;
  int16_t dilation_height_factor;
  int32_t input_offset;
  int32_t weights_offset;
  int32_t output_offset;
  int32_t output_multiplier;
  int output_shift;
  int32_t quantized_activation_min;
  int32_t quantized_activation_max;
  float float_activation_min;
  float float_activation_max;
};

// padding.h
inline int ComputePadding(int stride, int dilation_rate, int in_size, int filter_size, int out_size) {
  int effective_filter_size = (filter_size - 1) * dilation_rate + 1;
  int padding = ((out_size - 1) * stride + effective_filter_size - in_size) / 2;
  return padding > 0 ? padding : 0;
}
inline int ComputePaddingWithOffset(int stride, int dilation_rate, int in_size, int filter_size,
                                    int out_size, int* offset) {
  int effective_filter_size = (filter_size - 1) * dilation_rate + 1;
  int total_padding = ((out_size - 1) * stride + effective_filter_size - in_size);
  total_padding = total_padding > 0 ? total_padding : 0;
  *offset = total_padding % 2;
  return total_padding / 2;
}
inline int ComputeOutSize(TfLitePadding padding, int image_size, int filter_size, int stride,
                          int dilation_rate = 1) {
  int effective_filter_size = (filter_size - 1) * dilation_rate + 1;
  if (stride == 0) return 0;
  switch (padding) {
    case kTfLitePaddingSame: return (image_size + stride - 1) / stride;
    case kTfLitePaddingValid: return (image_size + stride - effective_filter_size) / stride;
    default: return 0;
  }
}
inline TfLitePaddingValues ComputePaddingHeightWidth(
    int stride_height, int stride_width, int dilation_rate_height, int dilation_rate_width,
    int in_height, int in_width, int filter_height, int filter_width, TfLitePadding padding,
    int* out_height, int* out_width) {
  *out_width = ComputeOutSize(padding, in_width, filter_width, stride_width, dilation_rate_width);
  *out_height = ComputeOutSize(padding, in_height, filter_height, stride_height, dilation_rate_height);
  TfLitePaddingValues pv;
  int offset = 0;
  pv.height = ComputePaddingWithOffset(stride_height, dilation_rate_height, in_height, filter_height, *out_height, &offset);
  pv.height_offset = offset;
  pv.width = ComputePaddingWithOffset(stride_width, dilation_rate_width, in_width, filter_width, *out_width, &offset);
  pv.width_offset = offset;
  return pv;
}

// kernel_util.h
inline TfLiteTensor* ShimTensorAt(const TfLiteContext* c, int i) {
  return c->tensors != nullptr ? &c->tensors[i] : c->GetTensor(c, i);
}
inline const TfLiteTensor* GetInput(const TfLiteContext* c, const TfLiteNode* n, int i) {
  if (i < 0 || i >= n->inputs->size) return nullptr;
  int t = n->inputs->data[i];
  return t < 0 ? nullptr : ShimTensorAt(c, t);
}
inline const TfLiteTensor* GetOptionalInputTensor(const TfLiteContext* c, const TfLiteNode* n, int i) {
  return GetInput(c, n, i);
}
inline TfLiteTensor* GetVariableInput(TfLiteContext* c, const TfLiteNode* n, int i) {
  return const_cast<TfLiteTensor*>(GetInput(c, n, i));
}
inline TfLiteTensor* GetOutput(TfLiteContext* c, const TfLiteNode* n, int i) {
  if (i < 0 || i >= n->outputs->size) return nullptr;
  int t = n->outputs->data[i];
  return t < 0 ? nullptr : ShimTensorAt(c, t);
}
inline TfLiteTensor* GetTemporary(TfLiteContext* c, const TfLiteNode* n, int i) {
  if (!n->temporaries || i < 0 || i >= n->temporaries->size) return nullptr;
  return ShimTensorAt(c, n->temporaries->data[i]);
}
inline TfLiteStatus GetInputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, const TfLiteTensor** t) {
  *t = GetInput(c, n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline TfLiteStatus GetOutputSafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = GetOutput(const_cast<TfLiteContext*>(c), n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline TfLiteStatus GetTemporarySafe(const TfLiteContext* c, const TfLiteNode* n, int i, TfLiteTensor** t) {
  *t = GetTemporary(const_cast<TfLiteContext*>(c), n, i);
  return *t ? kTfLiteOk : kTfLiteError;
}
inline int NumDimensions(const TfLiteTensor* t) { return t->dims->size; }
inline int SizeOfDimension(const TfLiteTensor* t, int d) { return t->dims->data[d]; }
inline int NumInputs(const TfLiteNode* n) { return n->inputs == nullptr ? 0 : n->inputs->size; }
inline int NumOutputs(const TfLiteNode* n) { return n->outputs == nullptr ? 0 : n->outputs->size; }
inline int NumIntermediates(const TfLiteNode* n) { return n->intermediates ? n->intermediates->size : 0; }
inline int64_t NumElements(const TfLiteIntArray* d) { int64_t c = 1; for (int i = 0; i < d->size; ++i) c *= d->data[i]; return c; }
inline int64_t NumElements(const TfLiteTensor* t) { return NumElements(t->dims); }
inline int64_t NumElements(const int* d, int n) { int64_t c = 1; for (int i = 0; i < n; ++i) c *= d[i]; return c; }
inline bool IsConstantTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteMmapRo; }
inline bool IsConstantOrPersistentTensor(const TfLiteTensor* t) { return IsConstantTensor(t) || t->allocation_type == kTfLitePersistentRo; }
inline bool IsDynamicTensor(const TfLiteTensor* t) { return t->allocation_type == kTfLiteDynamic; }
inline void SetTensorToDynamic(TfLiteTensor* t) { t->allocation_type = kTfLiteDynamic; t->data.raw = nullptr; }
inline bool HaveSameShapes(const TfLiteTensor* a, const TfLiteTensor* b) { return TfLiteIntArrayEqual(a->dims, b->dims); }
template <typename T>
void CalculateActivationRange(TfLiteFusedActivation activation, T* mn, T* mx) {
  if (activation == kTfLiteActRelu) { *mn = 0; *mx = std::numeric_limits<T>::max(); }
  else if (activation == kTfLiteActRelu6) { *mn = 0; *mx = 6; }
  else if (activation == kTfLiteActReluN1To1) { *mn = -1; *mx = 1; }
  else { *mn = std::numeric_limits<T>::lowest(); *mx = std::numeric_limits<T>::max(); }
}

// tensor_ctypes.h
template <typename T> inline T* GetTensorData(TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<T*>(t->data.raw) : nullptr; }
template <typename T> inline const T* GetTensorData(const TfLiteTensor* t) { return t != nullptr ? reinterpret_cast<const T*>(t->data.raw) : nullptr; }
inline RuntimeShape GetTensorShape(const TfLiteTensor* t) {
  if (t == nullptr) return RuntimeShape();
  return RuntimeShape(t->dims->size, t->dims->data);
}
inline RuntimeShape GetTensorShape(std::vector<int32_t> d) { return RuntimeShape((int)d.size(), d.data()); }

// im2col_utils.h: element semantics of TF Lite's Im2col / DilatedIm2col.
namespace optimized_ops {
template <typename T>
void ShimIm2col(const ConvParams& p, int kheight, int kwidth, int dil_h, int dil_w, uint8_t zero_byte,
                const RuntimeShape& in, const T* input, const RuntimeShape& out, T* output) {
  const int sw = p.stride_width, sh = p.stride_height;
  const int pw = p.padding_values.width, ph = p.padding_values.height;
  const int batches = MatchingDim(in, 0, out, 0);
  const int depth = in.Dims(3), ih = in.Dims(1), iw = in.Dims(2);
  const int oh = out.Dims(1), ow = out.Dims(2), od = out.Dims(3);
  for (int b = 0; b < batches; ++b)
    for (int y = 0; y < oh; ++y)
      for (int x = 0; x < ow; ++x) {
        T* dst = output + ((size_t)(b * oh + y) * ow + x) * od;
        for (int ky = 0; ky < kheight; ++ky)
          for (int kx = 0; kx < kwidth; ++kx) {
            const int iy = y * sh - ph + ky * dil_h, ix = x * sw - pw + kx * dil_w;
            T* d = dst + (ky * kwidth + kx) * depth;
            if (iy >= 0 && iy < ih && ix >= 0 && ix < iw)
              memcpy(d, input + Offset(in, b, iy, ix, 0), sizeof(T) * depth);
            else
              memset(d, zero_byte, sizeof(T) * depth);
          }
      }
}
template <typename T>
void Im2col(const ConvParams& p, int kheight, int kwidth, uint8_t zero_byte, const RuntimeShape& in,
            const T* input, const RuntimeShape& out, T* output) {
  ShimIm2col(p, kheight, kwidth, 1, 1, zero_byte, in, input, out, output);
}
template <typename T>
void DilatedIm2col(const ConvParams& p, uint8_t zero_byte, const RuntimeShape& in, const T* input,
                   const RuntimeShape& filter, const RuntimeShape& out, T* im2col) {
  // TF Lite passes the conv output shape here and derives the im2col row size
  // from the filter shape.
  RuntimeShape o(out);
  o.SetDim(3, filter.Dims(1) * filter.Dims(2) * in.Dims(3));
  ShimIm2col(p, filter.Dims(1), filter.Dims(2), p.dilation_height_factor, p.dilation_width_factor,
             zero_byte, in, input, o, im2col);
}
}  // namespace optimized_ops

// op_resolver.h
class OpResolver {
 public:
  virtual const TfLiteRegistration* FindOp(const char* op, int version) const { return nullptr; }
  virtual ~OpResolver() {}
};
class MutableOpResolver : public OpResolver {
 public:
  void AddCustom(const char* name, const TfLiteRegistration* r, int version = 1) {
    TfLiteRegistration n = *r;
    n.custom_name = name;
    n.version = version;
    custom_[{name, version}] = n;
    order_.push_back(name);
  }
  void AddCustom(const char* name, const TfLiteRegistration* r, int min_version, int max_version) {
    for (int v = min_version; v <= max_version; ++v) AddCustom(name, r, v);
  }
  const TfLiteRegistration* FindOp(const char* op, int version) const override {
    auto it = custom_.find({op, version});
    return it == custom_.end() ? nullptr : &it->second;
  }
  std::map<std::pair<std::string, int>, TfLiteRegistration> custom_;
  std::vector<std::string> order_;
};

struct ShimLogMessage {
  std::ostringstream s;
  template <typename T> ShimLogMessage& operator<<(const T& v) { s << v; return *this; }
};
}  // namespace tflite
#define TFLITE_LOG(sev) ::tflite::ShimLogMessage()
#define TFLITE_LOG_PROD(...) ((void)0)
