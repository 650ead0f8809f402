// Runs AArch64 code on the host: the image is an ELF file linked at fixed
// addresses, its disassembly (llvm-objdump's text) is decoded once and then
// interpreted.  Memory is the host's; a call that leaves the image calls the
// host function at that address, with integer and pointer arguments only.
#pragma once
#include <dlfcn.h>
#include <elf.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define A64_RAW __attribute__((no_sanitize("address"), noinline))
#endif
namespace a64 {
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
typedef __int128 i128; typedef unsigned __int128 u128;

union V { u8 b[16]; u16 h[8]; u32 s[4]; u64 d[2]; float f[4]; double g[2]; };
enum K : u8 { REG, FPR, VEC, LIST, IMM, FIMM, MEM, COND, NONE };
enum Sh : u8 { NOSH, LSL, LSR, ASR, ROR, MSL, UXTB, UXTH, UXTW, UXTX, SXTB, SXTH, SXTW, SXTX };
struct Opd {
  K k = NONE;
  u8 n = 0;         // register; base of a memory operand (31 = zero register, 32 = sp)
  u8 w = 0;         // width of a register; element size of a vector, in bits
  u8 lanes = 0;     // vector lanes
  i8 idx = -1;      // vector element
  u8 cnt = 0;       // registers in a list
  Sh sh = NOSH; u8 sa = 0;
  i8 m = -1; u8 mw = 64;  // index register of a memory operand
  u8 mode = 0;      // memory: 0 offset, 1 pre-indexed, 2 post-indexed (by imm, or by register m)
  i64 imm = 0; double f = 0;
};
struct Ins { u16 op = 0; u8 nop = 0; u8 cond = 0; u32 text = 0; Opd o[5]; };

#define A64_OPS(X) X(mov)X(movk)X(movi)X(mvni)X(add)X(adds)X(sub)X(subs)X(cmp)X(cmn)X(neg)X(negs)X(adc)X(sbc)X(and_)X(ands)X(tst)X(orr)X(orn)X(eor)X(eon)X(bic)X(bics)X(mvn)X(not_) \
  X(lsl)X(lsr)X(asr)X(ror)X(extr)X(ubfx)X(sbfx)X(ubfiz)X(sbfiz)X(bfi)X(bfxil)X(sxtb)X(sxth)X(sxtw)X(uxtb)X(uxth)X(uxtw)X(mul)X(madd)X(msub)X(mneg)X(smull)X(umull)X(smaddl)X(umaddl)X(smsubl)X(umsubl)X(smnegl)X(umnegl) \
  X(smulh)X(umulh)X(sdiv)X(udiv)X(csel)X(csinc)X(csinv)X(csneg)X(cset)X(csetm)X(cinc)X(cinv)X(cneg)X(ccmp)X(ccmn)X(clz)X(cls)X(rbit)X(rev) \
  X(b)X(bcond)X(bl)X(blr)X(br)X(ret)X(cbz)X(cbnz)X(tbz)X(tbnz)X(brk)X(nop)X(adr)X(ldr)X(ldrb)X(ldrh)X(ldrsb)X(ldrsh)X(ldrsw)X(str)X(strb)X(strh)X(ldp)X(ldpsw)X(stp)X(stx)X(stxb) \
  X(fmov)X(fadd)X(fsub)X(fmul)X(fnmul)X(fdiv)X(fmadd)X(fmsub)X(fnmadd)X(fnmsub)X(fneg)X(fabs_)X(fsqrt)X(fcmp)X(fccmp)X(fcsel)X(fcvt)X(fcvtzs)X(fcvtzu)X(fcvtas)X(fcvtns)X(fcvtms)X(fcvtps)X(fcvtau)X(fcvtnu)X(scvtf)X(ucvtf) \
  X(frinta)X(frintn)X(frintz)X(frintm)X(frintp)X(frinti)X(frintx)X(fmax)X(fmin)X(fmaxnm)X(fminnm)X(fmla)X(fmls)X(mla)X(mls) \
  X(cnt)X(addp)X(addv)X(uaddlp)X(saddlp)X(uadalp)X(sadalp)X(uaddlv)X(saddlv)X(smin)X(smax)X(umin)X(umax)X(sminv)X(smaxv)X(uminv)X(umaxv)X(sqxtn)X(sqxtn2)X(uqxtn)X(uqxtn2)X(sqxtun)X(sqxtun2)X(xtn)X(xtn2) \
  X(ushll)X(ushll2)X(sshll)X(sshll2)X(uxtl)X(uxtl2)X(sxtl)X(sxtl2)X(shl)X(sshr)X(ushr)X(sri)X(sli)X(usra)X(ssra)X(shrn)X(shrn2)X(ushl)X(sshl)X(uzp1)X(uzp2)X(zip1)X(zip2)X(trn1)X(trn2)X(ext)X(dup)X(umov)X(smov)X(ins) \
  X(fcmgt)X(fcmge)X(fcmeq)X(fcmlt)X(fcmle)X(cmgt)X(cmge)X(cmeq)X(cmlt)X(cmle)X(cmhi)X(cmhs)X(cmtst)X(bsl)X(bit)X(bif)X(sqsub)X(sqadd)X(uqsub)X(uqadd)X(saddl)X(uaddl)X(saddw)X(uaddw)X(tbl)X(rev64)X(rev32)X(rev16)X(abs_) \
  X(ld1)X(ld2)X(ld3)X(ld4)X(st1)X(st2)X(st3)X(st4)X(ld1r)X(unknown)
enum OpC : u16 {
#define X(n) O_##n,
  A64_OPS(X)
#undef X
};

struct Cpu {
  u64 x[33] = {};  // 31: reads as zero; 32: sp
  V v[32];
  bool N = false, Z = false, C = false, Vf = false;
  u64 pc = 0;
  u64 base = 0, end = 0;       // text of the image
  u64 hbase = 0, hend = 0;     // trampolines to host functions
  std::vector<Ins> code;
  std::vector<std::string> texts;
  std::vector<void*> host;
  std::vector<std::string> host_name;
  std::map<std::string, u64> sym;
  u64 count = 0;
  char* stack = nullptr;
  static constexpr u64 kReturn = 0x7fffffffffff0ull;

  [[noreturn]] void fail(const char* what, const Ins* i = nullptr) {
    fprintf(stderr, "A64: %s at %lx: %s\n", what, (unsigned long)pc, i ? texts[i->text].c_str() : "");
    _exit(77);
  }
  // ---- operands
  static u64 mask(u64 v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
  static i64 sext(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
  static u64 ext(u64 v, Sh s) {
    switch (s) { case UXTB: return v & 0xff; case UXTH: return v & 0xffff; case UXTW: return v & 0xffffffffu; case SXTB: return sext(v, 8); case SXTH: return sext(v, 16); case SXTW: return sext(v, 32); default: return v; }
  }
  u64 r(const Opd& o) {
    if (o.k == IMM) return o.sh == LSL ? (u64)o.imm << o.sa : (u64)o.imm;
    u64 v = mask(x[o.n], o.w);
    switch (o.sh) {
      case NOSH: return v;
      case LSL: return mask(v << o.sa, o.w);
      case LSR: return v >> o.sa;
      case ASR: return mask((u64)(sext(v, o.w) >> o.sa), o.w);
      case ROR: return o.sa ? mask((v >> o.sa) | (v << (o.w - o.sa)), o.w) : v;
      default: return ext(v, o.sh) << o.sa;
    }
  }
  void wr(const Opd& o, u64 val) { if (o.n != 31) x[o.n] = mask(val, o.w); }
  void flags_nz(u64 v, int w) { N = (v >> (w - 1)) & 1; Z = mask(v, w) == 0; }
  u64 addf(u64 a, u64 b, bool c, int w) {
    a = mask(a, w); b = mask(b, w);
    u128 s = (u128)a + b + c;
    u64 res = mask((u64)s, w);
    flags_nz(res, w);
    C = (bool)((s >> w) & 1);
    Vf = (((a ^ res) & (b ^ res)) >> (w - 1)) & 1;
    return res;
  }
  bool cc(u8 c) {
    bool res = true;
    switch (c >> 1) { case 0: res = Z; break; case 1: res = C; break; case 2: res = N; break; case 3: res = Vf; break; case 4: res = C && !Z; break; case 5: res = N == Vf; break; case 6: res = N == Vf && !Z; break; case 7: return true; }
    return (c & 1) ? !res : res;
  }
  u64 addr(const Opd& o) {
    u64 b = x[o.n];
    if (o.mode == 2) { if (o.n != 31) x[o.n] = b + (o.m >= 0 ? x[(int)o.m] : (u64)o.imm); return b; }
    if (o.m >= 0) { u64 i = mask(x[(int)o.m], o.mw); b += o.sh == NOSH || o.sh == LSL ? i << o.sa : ext(i, o.sh) << o.sa; return b; }
    b += o.imm;
    if (o.mode == 1) x[o.n] = b;
    return b;
  }
  // The interpreted code's memory accesses.  In the sanitizing build one
  // outside the live objects ends the process.
#ifdef __SANITIZE_ADDRESS__
  A64_RAW void rdm(void* d, const void* a, size_t n) {
    if (__asan_region_is_poisoned((void*)a, n)) { fprintf(stderr, "load of %zu bytes outside objects at %llx\n", n, (unsigned long long)pc); _exit(70); }
    for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = ((const volatile char*)a)[i];
  }
  A64_RAW void wrm(void* a, const void* s, size_t n) {
    if (__asan_region_is_poisoned(a, n)) { fprintf(stderr, "store of %zu bytes outside objects at %llx\n", n, (unsigned long long)pc); _exit(70); }
    for (size_t i = 0; i < n; i++) ((volatile char*)a)[i] = ((const volatile char*)s)[i];
  }
#else
  void rdm(void* d, const void* a, size_t n) { memcpy(d, a, n); }
  void wrm(void* a, const void* s, size_t n) { memcpy(a, s, n); }
#endif
  template <class T> T ld(u64 a) { T t; rdm(&t, (void*)a, sizeof t); return t; }
  template <class T> void st(u64 a, T t) { wrm((void*)a, &t, sizeof t); }
  u64 ldn(u64 a, int w) { u64 t = 0; rdm(&t, (void*)a, w / 8); return t; }
  void stn(u64 a, u64 t, int w) { wrm((void*)a, &t, w / 8); }
  u64 el(const V& q, int w, int i) { switch (w) { case 8: return q.b[i]; case 16: return q.h[i]; case 32: return q.s[i]; default: return q.d[i]; } }
  void se(V& q, int w, int i, u64 val) { switch (w) { case 8: q.b[i] = val; break; case 16: q.h[i] = val; break; case 32: q.s[i] = val; break; default: q.d[i] = val; } }
  void setF(const Opd& o, u64 val) { V t{}; t.d[0] = mask(val, o.w); v[o.n] = t; }
  u64 getF(const Opd& o) { return mask(v[o.n].d[0], o.w); }
  double fl(const Opd& o) { return o.k == FIMM ? o.f : o.k == IMM ? (double)o.imm : o.w == 32 ? (double)v[o.n].f[0] : v[o.n].g[0]; }
  void setfl(const Opd& o, double d) { u64 t = 0; if (o.w == 32) { float f = (float)d; memcpy(&t, &f, 4); } else memcpy(&t, &d, 8); setF(o, t); }
  // register, element or immediate as an integer
  u64 val(const Opd& o) {
    if (o.k == REG || o.k == IMM) return r(o);
    if (o.k == VEC && o.idx >= 0) return el(v[o.n], o.w, o.idx);
    return getF(o);
  }
  static i64 sat(i128 t, int w, bool sg) {
    i128 lo = sg ? -((i128)1 << (w - 1)) : 0, hi = sg ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1;
    return (i64)(t < lo ? lo : t > hi ? hi : t);
  }
  static u64 toint(double d, int w, bool sg) {
    if (std::isnan(d)) return 0;
    double hi = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w), lo = sg ? -hi : 0;
    if (d >= hi) return sg ? mask(((u64)1 << (w - 1)) - 1, w) : mask(~0ull, w);
    if (d <= lo) return sg ? mask((u64)1 << (w - 1), w) : 0;
    return mask(sg ? (u64)(i64)d : (u64)d, w);
  }
  static double rnd(int op, double d) {
    switch (op) {
      case O_fcvtas: case O_fcvtau: case O_frinta: return std::round(d);
      case O_fcvtns: case O_fcvtnu: case O_frintn: case O_frinti: case O_frintx: return std::nearbyint(d);
      case O_fcvtms: case O_frintm: return std::floor(d);
      case O_fcvtps: case O_frintp: return std::ceil(d);
      default: return std::trunc(d);
    }
  }
  static double fminmax(int op, double a, double b) {
    if (std::isnan(a) || std::isnan(b)) {
      if ((op == O_fmaxnm || op == O_fminnm) && !(std::isnan(a) && std::isnan(b))) return std::isnan(a) ? b : a;
      return NAN;
    }
    bool mx = op == O_fmax || op == O_fmaxnm;
    if (a == 0 && b == 0) return mx ? (std::signbit(a) ? b : a) : (std::signbit(a) ? a : b);
    return mx ? (a > b ? a : b) : (a < b ? a : b);
  }
  double felv(const Opd& o, int i) { if (o.k == FIMM) return o.f; if (o.idx >= 0) i = o.idx; return o.w == 32 ? (double)v[o.n].f[i] : v[o.n].g[i]; }
  void setfel(V& q, int w, int i, double d) { if (w == 32) q.f[i] = (float)d; else q.g[i] = d; }

  // ---- calls
  u64 call(u64 f, u64 a0 = 0, u64 a1 = 0, u64 a2 = 0) {
    u64 save[33]; memcpy(save, x, sizeof x);
    u64 pc0 = pc;
    if (!stack) { const size_t n = 8 << 20; stack = (char*)malloc(n); x[32] = ((u64)stack + n - 64) & ~15ull; }
    x[0] = a0; x[1] = a1; x[2] = a2; x[30] = kReturn;
    pc = f;
    run();
    u64 res = x[0], sp = x[32];
    memcpy(x, save, sizeof x);
    if (!save[32]) x[32] = sp;
    pc = pc0;
    return res;
  }
  void hostcall(void* f) {
    using F = u64 (*)(u64, u64, u64, u64, u64, u64, u64, u64);
    x[0] = ((F)f)(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
    pc = x[30];
  }
  void run() {
    while (pc != kReturn) {
      if (pc >= base && pc < end) step();
      else if (pc >= hbase && pc < hend) {
        void* h = host[(pc - hbase) / 16];
        if (!h) { fprintf(stderr, "A64: no host function %s\n", host_name[(pc - hbase) / 16].c_str()); _exit(77); }
        hostcall(h);
      } else if (!pc) { fprintf(stderr, "A64: call of a null pointer\n"); abort(); }
      else hostcall((void*)pc);
    }
  }
  void step();
  // ---- loading
  static u8 cond_of(const std::string& s) {
    static const char* N[] = {"eq", "ne", "hs", "lo", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "al", "nv"};
    for (int i = 0; i < 16; i++) if (s == N[i]) return i;
    if (s == "cs") return 2;
    if (s == "cc") return 3;
    return 255;
  }
  bool reg(const std::string& s, Opd& o) {
    if (s == "sp" || s == "wsp") { o.k = REG; o.n = 32; o.w = s == "sp" ? 64 : 32; return true; }
    if (s == "xzr" || s == "wzr") { o.k = REG; o.n = 31; o.w = s[0] == 'x' ? 64 : 32; return true; }
    if (s == "lr") { o.k = REG; o.n = 30; o.w = 64; return true; }
    if (s.size() < 2 || !isdigit(s[1])) return false;
    char* e; long n = strtol(s.c_str() + 1, &e, 10);
    if (s[0] == 'v') {
      o.k = VEC; o.n = n;
      if (*e != '.') return false;
      e++;
      int lanes = isdigit(*e) ? (int)strtol(e, &e, 10) : 0;
      o.w = *e == 'b' ? 8 : *e == 'h' ? 16 : *e == 's' ? 32 : *e == 'd' ? 64 : 0;
      o.lanes = lanes;
      e++;
      if (*e == '[') { o.idx = strtol(e + 1, &e, 10); e++; }
      return o.w && !*e;
    }
    if (*e) return false;
    switch (s[0]) {
      case 'x': o.k = REG; o.w = 64; break;
      case 'w': o.k = REG; o.w = 32; break;
      case 'b': o.k = FPR; o.w = 8; break;
      case 'h': o.k = FPR; o.w = 16; break;
      case 's': o.k = FPR; o.w = 32; break;
      case 'd': o.k = FPR; o.w = 64; break;
      case 'q': o.k = FPR; o.w = 128; break;
      default: return false;
    }
    o.n = n;
    return true;
  }
  static bool shift(const std::string& s, Sh& sh, u8& sa) {
    static const std::map<std::string, Sh> M = {{"lsl", LSL}, {"lsr", LSR}, {"asr", ASR}, {"ror", ROR}, {"msl", MSL}, {"uxtb", UXTB}, {"uxth", UXTH}, {"uxtw", UXTW}, {"uxtx", UXTX}, {"sxtb", SXTB}, {"sxth", SXTH}, {"sxtw", SXTW}, {"sxtx", SXTX}};
    auto p = s.find(' ');
    auto it = M.find(s.substr(0, p));
    if (it == M.end()) return false;
    sh = it->second;
    sa = p == std::string::npos ? 0 : (u8)strtol(s.c_str() + s.find('#') + 1, nullptr, 0);
    return true;
  }
  static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> out; std::string cur; int d = 0;
    for (char c : s) {
      if (c == '[' || c == '{') d++;
      if (c == ']' || c == '}') d--;
      if (c == ',' && !d) { out.push_back(cur); cur.clear(); }
      else if (!(c == ' ' && cur.empty())) cur += c;
    }
    if (!cur.empty()) out.push_back(cur);
    for (auto& t : out) while (!t.empty() && t.back() == ' ') t.pop_back();
    return out;
  }
  bool decode(std::string mn, const std::string& args, Ins& I) {
    static std::unordered_map<std::string, int> M;
    if (M.empty()) {
#define X(n) M[#n] = O_##n;
      A64_OPS(X)
#undef X
      for (auto p : {"and", "not", "fabs", "abs"}) M[p] = M[std::string(p) + "_"];
      for (auto p : {"ldr", "ldrb", "ldrh", "ldrsb", "ldrsh", "ldrsw", "str", "strb", "strh"}) { std::string t = p; M[t.substr(0, 2) + "u" + t.substr(2)] = M[p]; }
      M["ldapr"] = M["ldar"] = M["ldaxr"] = M["ldxr"] = O_ldr; M["ldaprb"] = M["ldarb"] = M["ldaxrb"] = M["ldxrb"] = O_ldrb; M["ldaprh"] = M["ldarh"] = O_ldrh;
      M["stlr"] = O_str; M["stlrb"] = O_strb; M["stlrh"] = O_strh; M["stlxr"] = M["stxr"] = O_stx; M["stlxrb"] = M["stxrb"] = O_stxb;
      M["adrp"] = O_adr; M["ldnp"] = O_ldp; M["stnp"] = O_stp;
      for (auto p : {"prfm", "prfum", "hint", "bti", "paciasp", "autiasp", "dmb", "dsb", "isb", "pacibsp", "yield", "clrex"}) M[p] = O_nop;
    }
    if (mn.rfind("b.", 0) == 0) { I.cond = cond_of(mn.substr(2)); mn = "bcond"; if (I.cond == 255) return false; }
    auto it = M.find(mn);
    if (it == M.end()) return false;
    I.op = it->second;
    if (I.op == O_nop) return true;
    for (auto& t : split(args)) {
      if (I.nop == 5) return false;
      Opd o; Sh sh; u8 sa;
      if (t[0] == '[') {
        o.k = MEM;
        auto close = t.find(']');
        auto in = split(t.substr(1, close - 1));
        Opd b;
        if (!reg(in[0], b)) return false;
        o.n = b.n;
        if (in.size() > 1) {
          if (in[1][0] == '#') o.imm = strtoll(in[1].c_str() + 1, nullptr, 0);
          else { if (!reg(in[1], b)) return false; o.m = b.n; o.mw = b.w; }
        }
        if (in.size() > 2 && !shift(in[2], o.sh, o.sa)) return false;
        if (t.back() == '!') o.mode = 1;
      } else if (t[0] == '{') {
        o.k = LIST;
        auto close = t.find('}');
        std::string body = t.substr(1, close - 1);
        while (!body.empty() && body[0] == ' ') body.erase(0, 1);
        std::vector<std::string> rs;
        auto dash = body.find(" - ");
        if (dash != std::string::npos) {
          Opd a, b;
          std::string s1 = body.substr(0, dash), s2 = body.substr(dash + 3);
          while (!s2.empty() && s2.back() == ' ') s2.pop_back();
          if (!reg(s1, a) || !reg(s2, b)) return false;
          o.n = a.n; o.w = a.w; o.lanes = a.lanes; o.cnt = (b.n - a.n + 32) % 32 + 1;
        } else {
          auto in = split(body);
          Opd a;
          for (auto& q : in) { Opd z; if (!reg(q, z)) return false; if (!o.cnt) a = z; o.cnt++; }
          o.n = a.n; o.w = a.w; o.lanes = a.lanes;
        }
        if (close + 1 < t.size() && t[close + 1] == '[') o.idx = atoi(t.c_str() + close + 2);
      } else if (t[0] == '#' || isdigit(t[0])) {
        const char* p = t.c_str() + (t[0] == '#');
        std::string q = p;
        if (q.find('.') != std::string::npos && q.find("0x") == std::string::npos) { o.k = FIMM; o.f = strtod(p, nullptr); }
        else { o.k = IMM; o.imm = (i64)(q[0] == '-' ? strtoll(p, nullptr, 0) : (i64)strtoull(p, nullptr, 0)); }
        // the increment of a post-indexed access
        if (I.nop && I.o[I.nop - 1].k == MEM) { I.o[I.nop - 1].mode = 2; I.o[I.nop - 1].imm = o.imm; continue; }
      } else if (shift(t, sh, sa)) {
        if (!I.nop) return false;
        I.o[I.nop - 1].sh = sh; I.o[I.nop - 1].sa = sa;
        continue;
      } else if (reg(t, o)) {
        if (I.nop && I.o[I.nop - 1].k == MEM && o.k == REG) { I.o[I.nop - 1].mode = 2; I.o[I.nop - 1].m = o.n; continue; }
      } else {
        u8 c = cond_of(t);
        if (c == 255) return false;
        o.k = COND; I.cond = c;
      }
      I.o[I.nop++] = o;
    }
    return true;
  }
  void load(const std::string& elf, const std::string& dis, const std::string& syms) {
    std::ifstream f(elf, std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(f)), {});
    auto* eh = (Elf64_Ehdr*)d.data();
    auto* ph = (Elf64_Phdr*)(d.data() + eh->e_phoff);
    for (int i = 0; i < eh->e_phnum; i++) {
      if (ph[i].p_type != PT_LOAD) continue;
      u64 a = ph[i].p_vaddr & ~4095ull, z = (ph[i].p_vaddr + ph[i].p_memsz + 4095) & ~4095ull;
      void* m = mmap((void*)a, z - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      if (m != (void*)a && m == MAP_FAILED) m = mmap((void*)a, z - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
      if (m != (void*)a) { fprintf(stderr, "A64: cannot map the image\n"); _exit(77); }
      memcpy((void*)ph[i].p_vaddr, d.data() + ph[i].p_offset, ph[i].p_filesz);
    }
    // symbols: "address name" (defined) and "! address name" (provided by the host)
    std::ifstream sf(syms);
    std::string a, b;
    hbase = ~0ull;
    while (sf >> a >> b) {
      if (a == "!") {
        std::string name; sf >> name;
        u64 at = strtoull(b.c_str(), nullptr, 16);
        if (hbase == ~0ull) {
          hbase = at;
          if (mmap((void*)at, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)at) { fprintf(stderr, "A64: cannot map the host table\n"); _exit(77); }
        }
        void* h = dlsym(RTLD_DEFAULT, name.c_str());
        if (name == "__cxa_atexit") h = (void*)+[](u64, u64, u64) -> u64 { return 0; };
        if (name == "stderr") { st<u64>(at, (u64)stderr); h = nullptr; }
        host.push_back(h); host_name.push_back(name);
        hend = at + 16;
      } else sym[b] = strtoull(a.c_str(), nullptr, 16);
    }
    std::ifstream df(dis);
    std::string l;
    u64 at0 = 0;
    std::vector<std::pair<u64, Ins>> L;
    while (std::getline(df, l)) {
      // address TAB mnemonic TAB operands
      auto t1 = l.find('\t'), t2 = l.find('\t', t1 + 1);
      if (t1 == std::string::npos) continue;
      Ins I;
      I.text = texts.size();
      std::string mn = l.substr(t1 + 1, t2 == std::string::npos ? std::string::npos : t2 - t1 - 1), args = t2 == std::string::npos ? "" : l.substr(t2 + 1);
      texts.push_back(mn + " " + args);
      u64 at = strtoull(l.c_str(), nullptr, 16);
      if (!decode(mn, args, I)) { I = Ins(); I.op = O_unknown; I.text = texts.size() - 1; }
      L.push_back({at, I});
    }
    base = L.front().first; end = L.back().first + 4; (void)at0;
    Ins bad; bad.op = O_unknown; bad.text = texts.size(); texts.push_back("(not code)");
    code.assign((end - base) / 4, bad);
    for (auto& p : L) code[(p.first - base) / 4] = p.second;
  }
};
}  // namespace a64
