// Stand-in for the parts of ruy and TF Lite's cpu_backend_gemm that
// larq/compute-engine's BGEMM uses (see tfl_shim.h).  It reproduces ruy's
// documented layouts, packing contract, pre-packed LHS cache, and lets the
// harness choose how a multiplication is cut into blocks, in which order the
// blocks run and on how many threads.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include "tfl_shim.h"

#ifndef RUY_PLATFORM_NEON
#define RUY_PLATFORM_NEON 0
#endif
#ifndef RUY_PLATFORM_NEON_64
#define RUY_PLATFORM_NEON_64 0
#endif
#ifndef RUY_PLATFORM_NEON_32
#define RUY_PLATFORM_NEON_32 0
#endif
#ifndef RUY_PLATFORM_ARM_64
#define RUY_PLATFORM_ARM_64 0
#endif
#ifndef RUY_PLATFORM_ARM_32
#define RUY_PLATFORM_ARM_32 0
#endif
#ifndef RUY_PLATFORM_ARM
#define RUY_PLATFORM_ARM 0
#endif
#ifndef RUY_PLATFORM_X86
#define RUY_PLATFORM_X86 0
#endif
#ifndef RUY_SHIM_FAT
#define RUY_SHIM_FAT 1
#endif
#define RUY_STR_(x) #x
#define RUY_STR(x) RUY_STR_(x)
#define RUY_OPT(X) RUY_SHIM_OPT_##X
#define RUY_SHIM_OPT_ASM 1
#ifndef RUY_SHIM_OPT_MAX_STREAMING
#define RUY_SHIM_OPT_MAX_STREAMING 1
#endif
#define RUY_SHIM_OPT_FAT_KERNEL RUY_SHIM_FAT
#define RUY_DCHECK(c) (void)sizeof(!(c))
#define RUY_DCHECK_EQ(x, y) (void)sizeof((x) == (y))
#define RUY_DCHECK_NE(x, y) (void)sizeof((x) != (y))
#define RUY_DCHECK_GE(x, y) (void)sizeof((x) >= (y))
#define RUY_DCHECK_GT(x, y) (void)sizeof((x) > (y))
#define RUY_DCHECK_LE(x, y) (void)sizeof((x) <= (y))
#define RUY_DCHECK_LT(x, y) (void)sizeof((x) < (y))
#define RUY_CHECK(c) ((c) ? (void)0 : std::abort())

namespace ruy {
namespace profiler {
class ScopeLabel {
 public:
  template <typename... A> explicit ScopeLabel(A&&...) {}
  ~ScopeLabel() {}
};
}  // namespace profiler

enum class Path : uint8_t {
  kNone = 0, kStandardCpp = 0x1, kInternalStandardCppVariant1 = 0x2, kNeon = 0x10,
  kNeonDotprod = 0x20
};
enum class Tuning { kAuto, kA55ish, kX1, kGeneric };
enum class Order : uint8_t { kColMajor, kRowMajor };
enum class CachePolicy : uint8_t { kNeverCache, kCacheIfLargeSpeedup, kCacheIfSignificantSpeedup, kAlwaysCache };
enum class Side { kLhs = 0, kRhs = 1 };
template <typename T> struct SidePair {
  using ElementType = T;
  SidePair() {}
  SidePair(const T& a, const T& b) : e{a, b} {}
  const T& operator[](Side s) const { return e[(int)s]; }
  T& operator[](Side s) { return e[(int)s]; }
  T e[2];
};

struct Layout {
  int rows() const { return rows_; }
  int cols() const { return cols_; }
  int stride() const { return stride_; }
  Order order() const { return order_; }
  int rows_ = 0, cols_ = 0, stride_ = 0;
  Order order_ = Order::kColMajor;
};
inline void MakeSimpleLayout(int rows, int cols, Order order, Layout* l) {
  l->rows_ = rows; l->cols_ = cols; l->order_ = order;
  l->stride_ = order == Order::kColMajor ? rows : cols;
}
template <typename Scalar> class Matrix {
 public:
  const Layout& layout() const { return layout_; }
  Layout* mutable_layout() { return &layout_; }
  Scalar* data() { return data_; }
  const Scalar* data() const { return data_; }
  void set_data(Scalar* p) { data_ = p; }
  void set_data(const Scalar* p) { data_ = const_cast<Scalar*>(p); }
  Scalar zero_point() const { return zero_point_; }
  void set_zero_point(Scalar z) { zero_point_ = z; }
  CachePolicy cache_policy() const { return cache_policy_; }
  void set_cache_policy(CachePolicy c) { cache_policy_ = c; }
 private:
  Scalar* data_ = nullptr;
  Layout layout_;
  Scalar zero_point_ = 0;
  CachePolicy cache_policy_ = CachePolicy::kNeverCache;
};

struct MatLayout { int32_t rows = 0, cols = 0, stride = 0; Order order = Order::kColMajor; };
struct KernelLayout { Order order = Order::kColMajor; uint8_t rows = 1, cols = 1; };
template <Order tOrder, int tRows, int tCols> struct FixedKernelLayout {
  static constexpr Order kOrder = tOrder;
  static constexpr int kRows = tRows;
  static constexpr int kCols = tCols;
};
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kCols;
template <Order o, int r, int c> constexpr int FixedKernelLayout<o, r, c>::kRows;
struct PMatLayout { int32_t rows = 0, cols = 0, stride = 0; Order order = Order::kColMajor; KernelLayout kernel; };
template <typename L> KernelLayout ToKernelLayout() {
  KernelLayout r; r.order = L::kOrder; r.rows = L::kRows; r.cols = L::kCols; return r;
}
namespace detail {
template <typename T> class ConstCheckingPtr {
 public:
  T* get() { return p_; }
  const T* get() const { return p_; }
  void set(T* p) { p_ = p; }
  void set(const T* p) { p_ = const_cast<T*>(p); }
  void set(std::nullptr_t) { p_ = nullptr; }
 private:
  T* p_ = nullptr;
};
}  // namespace detail
template <typename S> struct Mat {
  detail::ConstCheckingPtr<S> data;
  MatLayout layout;
  S zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
template <typename S> struct PMat {
  S* data = nullptr;
  using SumsType = S;
  SumsType* sums = nullptr;
  PMatLayout layout;
  int32_t zero_point = 0;
};
struct EMat { size_t elt = 0; void* data = nullptr; MatLayout layout; int32_t zero_point = 0; CachePolicy cache_policy = CachePolicy::kNeverCache; };
struct PEMat { size_t elt = 0; void* data = nullptr; void* sums = nullptr; PMatLayout layout; int32_t zero_point = 0; };

template <typename S> EMat EraseType(const Mat<S>& m) {
  EMat e; e.elt = sizeof(S); e.data = const_cast<void*>(static_cast<const void*>(m.data.get()));
  e.layout = m.layout; e.zero_point = (int32_t)m.zero_point; e.cache_policy = m.cache_policy; return e;
}
template <typename S> Mat<S> UneraseType(const EMat& e) {
  Mat<S> m; m.data.set(static_cast<S*>(e.data)); m.layout = e.layout; m.zero_point = (S)e.zero_point; m.cache_policy = e.cache_policy; return m;
}
template <typename S> PMat<S> UneraseType(const PEMat& e) {
  PMat<S> m; m.data = static_cast<S*>(e.data); m.layout = e.layout; m.zero_point = e.zero_point; return m;
}
inline bool IsColMajor(const MatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const MatLayout& l) { return l.order == Order::kRowMajor; }
inline bool IsColMajor(const PMatLayout& l) { return l.order == Order::kColMajor; }
inline bool IsRowMajor(const PMatLayout& l) { return l.order == Order::kRowMajor; }
inline int Offset(const MatLayout& l, int row, int col) {
  return row * (l.order == Order::kRowMajor ? l.stride : 1) + col * (l.order == Order::kColMajor ? l.stride : 1);
}
inline int Offset(const PMatLayout& l, int row, int col) {
  int ro = row & ~(l.kernel.rows - 1), co = col & ~(l.kernel.cols - 1);
  int rso = l.order == Order::kColMajor ? l.kernel.cols : l.stride;
  int cso = l.order == Order::kRowMajor ? l.kernel.rows : l.stride;
  int ri = row - ro, ci = col - co;
  int rsi = l.kernel.order == Order::kColMajor ? 1 : l.kernel.cols;
  int csi = l.kernel.order == Order::kRowMajor ? 1 : l.kernel.rows;
  return ro * rso + co * cso + ri * rsi + ci * csi;
}
template <typename S> const S* ElementPtr(const Mat<S>& m, int r, int c) { return m.data.get() + Offset(m.layout, r, c); }
template <typename S> S* ElementPtr(Mat<S>* m, int r, int c) { return m->data.get() + Offset(m->layout, r, c); }
template <typename S> S Element(const Mat<S>& m, int r, int c) { return *ElementPtr(m, r, c); }
template <typename S> const S* ElementPtr(const PMat<S>& m, int r, int c) { return m.data + Offset(m.layout, r, c); }
template <typename S> S* ElementPtr(PMat<S>* m, int r, int c) { return m->data + Offset(m->layout, r, c); }
template <typename S> S Element(const PMat<S>& m, int r, int c) { return *ElementPtr(m, r, c); }
inline Order Transpose(Order o) { return o == Order::kColMajor ? Order::kRowMajor : Order::kColMajor; }
template <typename S> Mat<S> Transpose(const Mat<S>& m) {
  Mat<S> r(m); r.layout.order = Transpose(m.layout.order); std::swap(r.layout.rows, r.layout.cols); return r;
}
template <typename S> Mat<S> ToInternalImpl(const S* d, const Layout& l, S zp, CachePolicy cp) {
  Mat<S> m; m.data.set(const_cast<S*>(d)); m.layout.rows = l.rows(); m.layout.cols = l.cols(); m.layout.stride = l.stride();
  m.layout.order = l.order(); m.zero_point = zp; m.cache_policy = cp; return m;
}
template <typename S> Mat<S> ToInternal(const Matrix<S>& s) { return ToInternalImpl<S>(s.data(), s.layout(), s.zero_point(), s.cache_policy()); }
template <typename S> Mat<S> ToInternal(Matrix<S>& s) { return ToInternalImpl<S>(s.data(), s.layout(), s.zero_point(), s.cache_policy()); }

// ---- harness-controlled schedule -------------------------------------------
struct ShimSchedule {
  int row_block = 0;   // in units of LHS kernel columns; 0 = one block
  int col_block = 0;   // in units of RHS kernel columns; 0 = one block
  unsigned order = 0;  // 0 = natural, else permutation seed
  int threads = 1;
  // Explicit schedule: a gr x gc grid of blocks and a list of steps
  // (kind, i, j): 0 = pack LHS block i, 1 = pack RHS block j, 2 = run (i, j).
  int gr = 0, gc = 0;
  struct Step { int kind, i, j; };
  std::vector<Step> steps;
  bool bitpacked = false;  // destination rows are packed 32 to a word
  std::string log;  // JSON: what the steps were and which cells they wrote
};
#ifdef RUY_SHIM_REMOTE  // code for another processor: the host has the schedule
ShimSchedule& shim_schedule();
#else
inline ShimSchedule& shim_schedule() { static ShimSchedule s; return s; }
#endif
struct ShimBlock { int r0, c0, r1, c1; };
inline std::vector<ShimBlock>& shim_last_blocks() { static std::vector<ShimBlock> b; return b; }

class Allocator { public: void FreeAll() {} };
struct ShimCacheKey {
  const void* data; int rows, cols, stride, order, krows, kcols, korder, zp;
  bool operator<(const ShimCacheKey& o) const {
    return std::tie(data, rows, cols, stride, order, krows, kcols, korder, zp) <
           std::tie(o.data, o.rows, o.cols, o.stride, o.order, o.krows, o.kcols, o.korder, o.zp);
  }
};
class Ctx {
 public:
  Allocator* GetMainAllocator() { return &alloc_; }
  int max_num_threads() const { return shim_schedule().threads; }
  std::map<ShimCacheKey, std::vector<char>> prepacked;
  std::vector<std::unique_ptr<std::vector<char>>> scratch;
 private:
  Allocator alloc_;
};
class Context {
 public:
  Ctx* shim_ctx() { return &ctx_; }
  int max_num_threads() const { return shim_schedule().threads; }
  void set_max_num_threads(int) {}
  void ClearPrepackedCache() { ctx_.prepacked.clear(); }
 private:
  Ctx ctx_;
};
inline Ctx* get_ctx(Context* c) { return c->shim_ctx(); }

static constexpr int kMaxMulParamsAlignment = alignof(std::max_align_t);
static constexpr int kMaxMulParamsSize = 128;
struct TrMulParams {
  using RunPackFn = void(Tuning, const EMat&, PEMat*, int, int);
  using RunKernelFn = void(Tuning, const SidePair<PEMat>&, const void*, const SidePair<int>&, const SidePair<int>&, EMat*);
  TrMulParams() : run_pack{nullptr, nullptr}, is_prepacked{false, false} {}
  SidePair<RunPackFn*> run_pack;
  SidePair<bool> is_prepacked;
  SidePair<EMat> src;
  EMat dst;
  SidePair<PEMat> packed_matrix;
  RunKernelFn* run_kernel = nullptr;
  Path path = Path::kNone;
  int local_data_cache_size = 0;
  int shared_data_cache_size = 0;
  alignas(kMaxMulParamsAlignment) char mul_params_bytes[kMaxMulParamsSize];
};
inline int round_up_pot(int v, int m) { return (v + m - 1) & ~(m - 1); }
namespace detail {
template <typename Scalar, typename PackedScalar>
void CreatePackedMatrix(Side side, const KernelLayout& kl, TrMulParams* p) {
  const EMat& src = p->src[side];
  PEMat* pk = &p->packed_matrix[side];
  pk->elt = sizeof(PackedScalar);
  pk->zero_point = src.zero_point;
  pk->layout.rows = round_up_pot(src.layout.rows, kl.rows);
  pk->layout.cols = round_up_pot(src.layout.cols, kl.cols);
  pk->layout.order = Order::kColMajor;
  pk->layout.kernel = kl;
  pk->layout.stride = pk->layout.rows;
}
}  // namespace detail
template <Path ThePath, typename FixedKernelLayoutT, typename Scalar, typename PackedScalar, typename SumsType, Order SrcOrder>
struct PackImpl {
  static void Run(Tuning, const Mat<Scalar>& src, PMat<PackedScalar>* packed, int start_col, int end_col) {
    for (int col = start_col; col < end_col; col++)
      for (int row = 0; row < packed->layout.rows; row++)
        *ElementPtr(packed, row, col) = (col < src.layout.cols && row < src.layout.rows)
                                            ? (PackedScalar)Element(src, row, col)
                                            : (PackedScalar)packed->zero_point;
  }
};
inline void PreparePackedMatrices(Ctx* ctx, TrMulParams* p) {
  for (Side side : {Side::kLhs, Side::kRhs}) {
    const EMat& src = p->src[side];
    PEMat& pk = p->packed_matrix[side];
    // As ruy does: a few words of slack so that kernels may read beyond the end.
    const size_t bytes = pk.elt * (size_t)pk.layout.stride * pk.layout.cols + 64;
    if (src.cache_policy == CachePolicy::kAlwaysCache) {
      ShimCacheKey k{src.data, pk.layout.rows, pk.layout.cols, src.layout.stride, (int)src.layout.order,
                     pk.layout.kernel.rows, pk.layout.kernel.cols, (int)pk.layout.kernel.order, pk.zero_point};
      auto it = ctx->prepacked.find(k);
      if (it == ctx->prepacked.end()) {
        it = ctx->prepacked.emplace(k, std::vector<char>(bytes, (char)0xA5)).first;
        pk.data = it->second.data();
        p->run_pack[side](Tuning::kAuto, src, &pk, 0, pk.layout.cols);
      }
      pk.data = it->second.data();
      p->is_prepacked[side] = true;
    } else {
      ctx->scratch.emplace_back(new std::vector<char>(bytes, (char)0x5A));
      pk.data = ctx->scratch.back()->data();
    }
  }
}
// Follows an explicit schedule and reports exactly which destination elements
// each run step writes (by running it over two different backgrounds).
inline void TrMulSteps(TrMulParams* p, ShimSchedule& s) {
  PEMat& lhs = p->packed_matrix[Side::kLhs];
  PEMat& rhs = p->packed_matrix[Side::kRhs];
  auto split = [](int n, int unit, int g) {
    std::vector<std::pair<int, int>> r;
    int units = n / unit;
    for (int i = 0; i < g; i++) {
      int a = units * i / g, b = units * (i + 1) / g;
      if (a < b) r.push_back({a * unit, b * unit});
    }
    return r;
  };
  auto L = split(lhs.layout.cols, lhs.layout.kernel.cols, s.gr);
  auto C = split(rhs.layout.cols, rhs.layout.kernel.cols, s.gc);
  const bool bitpacked = s.bitpacked;
  const int rows = p->dst.layout.rows, cols = p->dst.layout.cols;
  const int srows = bitpacked ? (p->dst.layout.stride + 31) / 32 : p->dst.layout.stride;
  const size_t bytes = (size_t)srows * cols * p->dst.elt;
  unsigned char* d = static_cast<unsigned char*>(p->dst.data);
  auto num = [](int x) { return std::to_string(x); };
  s.log = "{\"rows\":" + num(rows) + ",\"cols\":" + num(cols) + ",\"srows\":" + num(srows) + ",\"unit\":" + num(bitpacked ? 32 : 1) + ",\"gr\":" + num(L.size()) +
          ",\"gc\":" + num(C.size()) + ",\"pre\":[" + (p->is_prepacked[Side::kLhs] ? "true" : "false") + "," + (p->is_prepacked[Side::kRhs] ? "true" : "false") + "],\"lb\":[";
  for (auto& b : L) s.log += (s.log.back() == '[' ? "[" : ",[") + num(b.first) + "," + num(b.second) + "]";
  s.log += "],\"cb\":[";
  for (auto& b : C) s.log += (s.log.back() == '[' ? "[" : ",[") + num(b.first) + "," + num(b.second) + "]";
  s.log += "],\"ev\":[";
  bool first = true;
  for (auto& st : s.steps) {
    if ((st.kind != 1 && st.i >= (int)L.size()) || (st.kind != 0 && st.j >= (int)C.size())) continue;
    if (st.kind < 2 && p->is_prepacked[static_cast<Side>(st.kind)]) continue;
    s.log += first ? "" : ",";
    first = false;
    if (st.kind == 0) {
      p->run_pack[Side::kLhs](Tuning::kAuto, p->src[Side::kLhs], &lhs, L[st.i].first, L[st.i].second);
      s.log += "{\"e\":\"packL\",\"i\":" + num(st.i) + "}";
    } else if (st.kind == 1) {
      p->run_pack[Side::kRhs](Tuning::kAuto, p->src[Side::kRhs], &rhs, C[st.j].first, C[st.j].second);
      s.log += "{\"e\":\"packR\",\"j\":" + num(st.j) + "}";
    } else {
      std::vector<unsigned char> orig(d, d + bytes), ra, rb;
      auto run = [&] {
        EMat dst = p->dst;
        p->run_kernel(Tuning::kAuto, p->packed_matrix, p->mul_params_bytes, SidePair<int>(L[st.i].first, C[st.j].first),
                      SidePair<int>(L[st.i].second, C[st.j].second), &dst);
      };
      for (size_t b = 0; b < bytes; b++) d[b] = 0x00;
      run();
      ra.assign(d, d + bytes);
      for (size_t b = 0; b < bytes; b++) d[b] = 0xFF;
      run();
      rb.assign(d, d + bytes);
      std::vector<int> cells;  // flat element index col * srows + row
      for (size_t e = 0; e < bytes / p->dst.elt; e++) {
        bool w = false, all = true;
        for (size_t k = 0; k < p->dst.elt; k++) {
          size_t b = e * p->dst.elt + k;
          bool wb = ra[b] == rb[b];
          w |= wb; all &= wb;
          d[b] = wb ? ra[b] : orig[b];
        }
        if (w) cells.push_back(all ? (int)e : -(int)e - 1);
      }
      s.log += "{\"e\":\"run\",\"i\":" + num(st.i) + ",\"j\":" + num(st.j) + ",\"w\":[";
      for (size_t k = 0; k < cells.size(); k++) s.log += (k ? "," : "") + num(cells[k]);
      s.log += "]}";
    }
  }
  s.log += "]}";
}
inline void TrMul(Ctx* ctx, TrMulParams* p) {
  ShimSchedule& s = shim_schedule();
  if (!s.steps.empty()) { TrMulSteps(p, s); ctx->scratch.clear(); return; }
  PEMat& lhs = p->packed_matrix[Side::kLhs];
  PEMat& rhs = p->packed_matrix[Side::kRhs];
  const int R = lhs.layout.cols, C = rhs.layout.cols;
  const int rb = s.row_block > 0 ? s.row_block * lhs.layout.kernel.cols : std::max(R, 1);
  const int cb = s.col_block > 0 ? s.col_block * rhs.layout.kernel.cols : std::max(C, 1);
  std::vector<ShimBlock> blocks;
  for (int r = 0; r < R; r += rb)
    for (int c = 0; c < C; c += cb) blocks.push_back({r, c, std::min(r + rb, R), std::min(c + cb, C)});
  if (s.order) { std::mt19937 g(s.order); std::shuffle(blocks.begin(), blocks.end(), g); }
  shim_last_blocks() = blocks;
  // Pack the sides that are not pre-packed, one block column range at a time,
  // in the order in which the blocks first need them.
  std::map<std::pair<int, int>, bool> done[2];
  for (auto& b : blocks) {
    if (!p->is_prepacked[Side::kLhs] && !done[0][{b.r0, b.r1}]) {
      p->run_pack[Side::kLhs](Tuning::kAuto, p->src[Side::kLhs], &lhs, b.r0, b.r1); done[0][{b.r0, b.r1}] = true;
    }
    if (!p->is_prepacked[Side::kRhs] && !done[1][{b.c0, b.c1}]) {
      p->run_pack[Side::kRhs](Tuning::kAuto, p->src[Side::kRhs], &rhs, b.c0, b.c1); done[1][{b.c0, b.c1}] = true;
    }
  }
  auto run = [&](const ShimBlock& b) {
    EMat dst = p->dst;
    p->run_kernel(Tuning::kAuto, p->packed_matrix, p->mul_params_bytes, SidePair<int>(b.r0, b.c0),
                  SidePair<int>(b.r1, b.c1), &dst);
  };
#ifdef RUY_SHIM_REMOTE
  const bool threaded = false;
#else
  const bool threaded = s.threads > 1;
#endif
  if (!threaded) {
    for (auto& b : blocks) run(b);
  } else {
#ifndef RUY_SHIM_REMOTE
    std::atomic<size_t> next{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < s.threads; t++)
      ts.emplace_back([&] { for (size_t i; (i = next++) < blocks.size();) run(blocks[i]); });
    for (auto& t : ts) t.join();
#endif
  }
  ctx->scratch.clear();
}
// Present in ruy/mul_params.h
template <typename AccumScalar, typename DstScalar> class MulParams {};
}  // namespace ruy

namespace tflite {
class CpuBackendContext {
 public:
  ruy::Context* ruy_context() const { return ctx_.get(); }
  static CpuBackendContext* GetFromContext(TfLiteContext* c) { return static_cast<CpuBackendContext*>(c->impl_); }
  int max_num_threads() const { return ruy::shim_schedule().threads; }
  void SetMaxNumThreads(int) {}
  bool use_caching() const { return true; }
 private:
  std::unique_ptr<ruy::Context> ctx_{new ruy::Context};
};
namespace cpu_backend_gemm {
enum class Order { kColMajor, kRowMajor };
enum class CachePolicy : uint8_t { kNeverCache, kCacheIfLargeSpeedup, kCacheIfSignificantSpeedup, kAlwaysCache };
template <typename Scalar> struct MatrixParams {
  Order order = Order::kColMajor;
  int rows = 0;
  int cols = 0;
  Scalar zero_point = 0;
  CachePolicy cache_policy = CachePolicy::kNeverCache;
};
inline CachePolicy DefaultCachePolicy(bool c) { return c ? CachePolicy::kCacheIfLargeSpeedup : CachePolicy::kNeverCache; }
namespace detail {
template <typename Scalar, typename DataPointer>
void MakeRuyMatrix(const MatrixParams<Scalar>& params, DataPointer data_ptr, ruy::Matrix<Scalar>* dst, bool use_caching = false) {
  ruy::MakeSimpleLayout(params.rows, params.cols,
                        params.order == Order::kColMajor ? ruy::Order::kColMajor : ruy::Order::kRowMajor,
                        dst->mutable_layout());
  dst->set_data(data_ptr);
  dst->set_zero_point(params.zero_point);
  if (use_caching) dst->set_cache_policy(static_cast<ruy::CachePolicy>(params.cache_policy));
}
}  // namespace detail
}  // namespace cpu_backend_gemm
}  // namespace tflite
