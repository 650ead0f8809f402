// One AArch64 instruction.
#pragma once
#include "a64.h"
namespace a64 {
inline void Cpu::step() {
  const Ins& I = code[(pc - base) / 4];
  const Opd &A = I.o[0], &B = I.o[1], &D = I.o[2], &E = I.o[3];
  u64 next = pc + 4;
  const int n = I.nop;
  // vectors, lane by lane; the part of the register that is not written is cleared
  auto bits = [&](const Opd& o) { return o.k == VEC ? (int)o.lanes * o.w : (int)o.w; };
  auto lanes_of = [&](const Opd& o) { return o.k == VEC ? (int)o.lanes : 1; };
  auto get = [&](const Opd& o, int i) -> u64 {
    if (o.k == IMM) return mask((u64)o.imm << (o.sh == LSL ? o.sa : 0), 64);
    if (o.k == REG) return r(o);
    if (o.k == FPR) return getF(o);
    return el(v[o.n], o.w, o.idx >= 0 ? o.idx : i);
  };
  auto put = [&](V t) { if (bits(A) <= 64) t.d[1] = 0; v[A.n] = t; };
  auto map2 = [&](auto f) { V t{}; for (int i = 0; i < lanes_of(A); i++) se(t, A.w, i, f(get(B, i), n > 2 ? get(D, i) : 0, i)); put(t); };
  auto acc2 = [&](auto f) { V t = v[A.n]; if (bits(A) <= 64) t.d[1] = 0; for (int i = 0; i < lanes_of(A); i++) se(t, A.w, i, f(get(A, i), get(B, i), n > 2 ? get(D, i) : 0)); put(t); };
  auto fmap = [&](auto f) { V t{}; for (int i = 0; i < lanes_of(A); i++) setfel(t, A.w, i, f(felv(B, i), n > 2 ? felv(D, i) : 0.0)); put(t); };
  const bool vec = A.k == VEC || A.k == FPR;
  const int w = A.w;
  auto bin = [&](u64 a, u64 b, bool c, bool set) { u64 res; if (set) res = addf(a, b, c, w); else res = a + b + c; wr(A, res); };
  switch (I.op) {
    case O_nop: break;
    case O_unknown: fail("unsupported instruction", &I);
    // ---- moves
    case O_mov: case O_umov: case O_smov: case O_ins:
      if (A.k == REG) wr(A, I.op == O_smov ? (u64)sext(val(B), B.w) : val(B));
      else if (A.k == VEC && A.idx >= 0) se(v[A.n], A.w, A.idx, val(B));
      else if (A.k == VEC) { V t = v[B.n]; put(t); }
      else setF(A, val(B));
      break;
    case O_movk: { int s = B.sh == LSL ? B.sa : 0; wr(A, (mask(x[A.n], A.w) & ~(0xffffull << s)) | ((u64)(B.imm & 0xffff) << s)); break; }
    case O_movi: case O_mvni: {
      if (A.k == FPR) { setF(A, (u64)B.imm); break; }
      u64 e = (u64)B.imm;
      if (B.sh == LSL) e <<= B.sa;
      if (B.sh == MSL) e = (e << B.sa) | ((1ull << B.sa) - 1);
      if (I.op == O_mvni) e = ~e;
      V t{}; for (int i = 0; i < A.lanes; i++) se(t, A.w, i, e);
      put(t); break;
    }
    // ---- integer arithmetic
    case O_add: if (vec) map2([](u64 a, u64 b, int) { return a + b; }); else bin(r(B), r(D), 0, false); break;
    case O_sub: if (vec) map2([](u64 a, u64 b, int) { return a - b; }); else bin(r(B), ~r(D), 1, false); break;
    case O_adds: bin(r(B), r(D), 0, true); break;
    case O_subs: bin(r(B), ~r(D), 1, true); break;
    case O_adc: bin(r(B), r(D), C, false); break;
    case O_sbc: bin(r(B), ~r(D), C, false); break;
    case O_cmp: addf(r(A), ~r(B), 1, w); break;
    case O_cmn: addf(r(A), r(B), 0, w); break;
    case O_neg: if (vec) map2([](u64 a, u64, int) { return 0 - a; }); else wr(A, 0 - r(B)); break;
    case O_negs: wr(A, addf(0, ~r(B), 1, w)); break;
    case O_and_: if (vec) map2([](u64 a, u64 b, int) { return a & b; }); else wr(A, r(B) & r(D)); break;
    case O_ands: { u64 t = mask(r(B) & r(D), w); flags_nz(t, w); C = Vf = false; wr(A, t); break; }
    case O_bics: { u64 t = mask(r(B) & ~r(D), w); flags_nz(t, w); C = Vf = false; wr(A, t); break; }
    case O_tst: { u64 t = mask(r(A) & r(B), w); flags_nz(t, w); C = Vf = false; break; }
    case O_orr: if (vec && n == 2) acc2([](u64 a, u64 b, u64) { return a | b; }); else if (vec) map2([](u64 a, u64 b, int) { return a | b; }); else wr(A, r(B) | r(D)); break;
    case O_orn: if (vec) map2([](u64 a, u64 b, int) { return a | ~b; }); else wr(A, r(B) | ~r(D)); break;
    case O_eor: if (vec) map2([](u64 a, u64 b, int) { return a ^ b; }); else wr(A, r(B) ^ r(D)); break;
    case O_eon: wr(A, r(B) ^ ~r(D)); break;
    case O_bic: if (vec && n == 2) acc2([](u64 a, u64 b, u64) { return a & ~b; }); else if (vec) map2([](u64 a, u64 b, int) { return a & ~b; }); else wr(A, r(B) & ~r(D)); break;
    case O_mvn: case O_not_: if (vec) map2([](u64 a, u64, int) { return ~a; }); else wr(A, ~r(B)); break;
    case O_bsl: { V t{}; for (int i = 0; i < 2; i++) t.d[i] = (v[A.n].d[i] & v[B.n].d[i]) | (~v[A.n].d[i] & v[D.n].d[i]); put(t); break; }
    case O_bit: { V t{}; for (int i = 0; i < 2; i++) t.d[i] = (v[A.n].d[i] & ~v[D.n].d[i]) | (v[B.n].d[i] & v[D.n].d[i]); put(t); break; }
    case O_bif: { V t{}; for (int i = 0; i < 2; i++) t.d[i] = (v[A.n].d[i] & v[D.n].d[i]) | (v[B.n].d[i] & ~v[D.n].d[i]); put(t); break; }
    case O_lsl: wr(A, r(B) << (r(D) & (w - 1))); break;
    case O_lsr: wr(A, r(B) >> (r(D) & (w - 1))); break;
    case O_asr: wr(A, (u64)(sext(r(B), w) >> (r(D) & (w - 1)))); break;
    case O_ror: { int s = r(D) & (w - 1); u64 a = r(B); wr(A, s ? (a >> s) | (a << (w - s)) : a); break; }
    case O_extr: { int s = (int)E.imm; u64 hi = r(B), lo = r(D); wr(A, s ? (lo >> s) | (hi << (w - s)) : lo); break; }
    case O_ubfx: wr(A, mask(r(B) >> D.imm, (int)E.imm)); break;
    case O_sbfx: wr(A, (u64)sext(mask(r(B) >> D.imm, (int)E.imm), (int)E.imm)); break;
    case O_ubfiz: wr(A, mask(r(B), (int)E.imm) << D.imm); break;
    case O_sbfiz: wr(A, (u64)sext(mask(r(B), (int)E.imm), (int)E.imm) << D.imm); break;
    case O_bfi: { u64 m = mask(~0ull, (int)E.imm) << D.imm; wr(A, (mask(x[A.n], w) & ~m) | ((r(B) << D.imm) & m)); break; }
    case O_bfxil: { u64 m = mask(~0ull, (int)E.imm); wr(A, (mask(x[A.n], w) & ~m) | ((r(B) >> D.imm) & m)); break; }
    case O_sxtb: wr(A, (u64)sext(r(B), 8)); break;
    case O_sxth: wr(A, (u64)sext(r(B), 16)); break;
    case O_sxtw: wr(A, (u64)sext(r(B), 32)); break;
    case O_uxtb: wr(A, r(B) & 0xff); break;
    case O_uxth: wr(A, r(B) & 0xffff); break;
    case O_uxtw: wr(A, r(B) & 0xffffffffu); break;
    case O_mul: if (vec) map2([](u64 a, u64 b, int) { return a * b; }); else wr(A, r(B) * r(D)); break;
    case O_mneg: wr(A, 0 - r(B) * r(D)); break;
    case O_madd: wr(A, r(E) + r(B) * r(D)); break;
    case O_msub: wr(A, r(E) - r(B) * r(D)); break;
    case O_smull: case O_smnegl: { u64 t = (u64)(sext(r(B), 32) * sext(r(D), 32)); if (vec) fail("unsupported form", &I); wr(A, I.op == O_smull ? t : 0 - t); break; }
    case O_umull: case O_umnegl: { if (vec) fail("unsupported form", &I); u64 t = r(B) * r(D); wr(A, I.op == O_umull ? t : 0 - t); break; }
    case O_smaddl: wr(A, r(E) + (u64)(sext(r(B), 32) * sext(r(D), 32))); break;
    case O_smsubl: wr(A, r(E) - (u64)(sext(r(B), 32) * sext(r(D), 32))); break;
    case O_umaddl: wr(A, r(E) + r(B) * r(D)); break;
    case O_umsubl: wr(A, r(E) - r(B) * r(D)); break;
    case O_smulh: wr(A, (u64)(((i128)(i64)r(B) * (i64)r(D)) >> 64)); break;
    case O_umulh: wr(A, (u64)(((u128)r(B) * r(D)) >> 64)); break;
    case O_sdiv: { i64 a = sext(r(B), w), b = sext(r(D), w); wr(A, b == 0 ? 0 : b == -1 ? 0 - (u64)a : (u64)(a / b)); break; }
    case O_udiv: { u64 b = r(D); wr(A, b ? r(B) / b : 0); break; }
    // ---- conditions
    case O_csel: wr(A, cc(I.cond) ? r(B) : r(D)); break;
    case O_csinc: wr(A, cc(I.cond) ? r(B) : r(D) + 1); break;
    case O_csinv: wr(A, cc(I.cond) ? r(B) : ~r(D)); break;
    case O_csneg: wr(A, cc(I.cond) ? r(B) : 0 - r(D)); break;
    case O_cset: wr(A, cc(I.cond)); break;
    case O_csetm: wr(A, cc(I.cond) ? ~0ull : 0); break;
    case O_cinc: wr(A, cc(I.cond) ? r(B) + 1 : r(B)); break;
    case O_cinv: wr(A, cc(I.cond) ? ~r(B) : r(B)); break;
    case O_cneg: wr(A, cc(I.cond) ? 0 - r(B) : r(B)); break;
    case O_ccmp: case O_ccmn:
      if (cc(I.cond)) { if (I.op == O_ccmp) addf(r(A), ~r(B), 1, w); else addf(r(A), r(B), 0, w); }
      else { int f = (int)D.imm; N = f & 8; Z = f & 4; C = f & 2; Vf = f & 1; }
      break;
    case O_clz: if (vec) { map2([&](u64 a, u64, int) { u64 k = 0; while (k < (u64)w && !((a >> (w - 1 - k)) & 1)) k++; return k; }); break; } { u64 a = r(B); int k = 0; while (k < w && !((a >> (w - 1 - k)) & 1)) k++; wr(A, k); break; }
    case O_cls: fail("unsupported form", &I);
    case O_rbit: if (vec) map2([](u64 a, u64, int) { u64 t = 0; for (int i = 0; i < 8; i++) t |= ((a >> i) & 1) << (7 - i); return t; }); else { u64 a = r(B), t = 0; for (int i = 0; i < w; i++) t |= ((a >> i) & 1) << (w - 1 - i); wr(A, t); } break;
    case O_rev: { u64 a = r(B); wr(A, w == 64 ? __builtin_bswap64(a) : __builtin_bswap32((u32)a)); break; }
    // ---- branches
    case O_b: next = (u64)A.imm; break;
    case O_bcond: if (cc(I.cond)) next = (u64)A.imm; break;
    case O_bl: x[30] = next; next = (u64)A.imm; break;
    case O_blr: { u64 t = r(A); x[30] = next; next = t; break; }
    case O_br: next = r(A); break;
    case O_ret: next = x[30]; break;
    case O_cbz: if (r(A) == 0) next = (u64)B.imm; break;
    case O_cbnz: if (r(A) != 0) next = (u64)B.imm; break;
    case O_tbz: if (!((r(A) >> B.imm) & 1)) next = (u64)D.imm; break;
    case O_tbnz: if ((r(A) >> B.imm) & 1) next = (u64)D.imm; break;
    case O_brk: fprintf(stderr, "A64: brk\n"); abort();
    case O_adr: wr(A, (u64)B.imm); break;
    // ---- memory
    case O_ldr: {
      u64 a = B.k == IMM ? (u64)B.imm : addr(B);
      if (A.k == REG) wr(A, ldn(a, w)); else { V t{}; rdm(&t, (void*)a, w / 8); v[A.n] = t; }
      break;
    }
    case O_ldrb: wr(A, ldn(addr(B), 8)); break;
    case O_ldrh: wr(A, ldn(addr(B), 16)); break;
    case O_ldrsb: wr(A, (u64)sext(ldn(addr(B), 8), 8)); break;
    case O_ldrsh: wr(A, (u64)sext(ldn(addr(B), 16), 16)); break;
    case O_ldrsw: wr(A, (u64)sext(ldn(addr(B), 32), 32)); break;
    case O_str: { u64 t = A.k == REG ? mask(x[A.n], w) : 0; u64 a = addr(B); if (A.k == REG) stn(a, t, w); else wrm((void*)a, &v[A.n], w / 8); break; }
    case O_strb: { u64 t = x[A.n]; stn(addr(B), t, 8); break; }
    case O_strh: { u64 t = x[A.n]; stn(addr(B), t, 16); break; }
    case O_ldp: {
      u64 a = addr(D);
      if (A.k == REG) { u64 p = ldn(a, w), q = ldn(a + w / 8, w); wr(A, p); wr(B, q); }
      else { V p{}, q{}; rdm(&p, (void*)a, w / 8); rdm(&q, (void*)(a + w / 8), w / 8); v[A.n] = p; v[B.n] = q; }
      break;
    }
    case O_ldpsw: { u64 a = addr(D); u64 p = (u64)sext(ldn(a, 32), 32), q = (u64)sext(ldn(a + 4, 32), 32); wr(A, p); wr(B, q); break; }
    case O_stp: {
      u64 p = A.k == REG ? x[A.n] : 0, q = A.k == REG ? x[B.n] : 0;
      u64 a = addr(D);
      if (A.k == REG) { stn(a, p, w); stn(a + w / 8, q, w); } else { wrm((void*)a, &v[A.n], w / 8); wrm((void*)(a + w / 8), &v[B.n], w / 8); }
      break;
    }
    case O_stx: { stn(addr(D), x[B.n], B.w); wr(A, 0); break; }
    case O_stxb: { stn(addr(D), x[B.n], 8); wr(A, 0); break; }
    // ---- floating point
    case O_fmov:
      if (B.k == FIMM || B.k == IMM) { if (A.k == VEC) { V t{}; for (int i = 0; i < A.lanes; i++) setfel(t, w, i, fl(B)); put(t); } else setfl(A, fl(B)); }
      else if (A.k == REG) wr(A, val(B));
      else if (A.k == VEC) se(v[A.n], w, A.idx, val(B));
      else setF(A, val(B));
      break;
    case O_fadd: fmap([](double a, double b) { return a + b; }); break;
    case O_fsub: fmap([](double a, double b) { return a - b; }); break;
    case O_fmul: fmap([](double a, double b) { return a * b; }); break;
    case O_fnmul: fmap([](double a, double b) { return -(a * b); }); break;
    case O_fdiv: fmap([](double a, double b) { return a / b; }); break;
    case O_fneg: fmap([](double a, double) { return -a; }); break;
    case O_fabs_: fmap([](double a, double) { return std::fabs(a); }); break;
    case O_fsqrt: fmap([](double a, double) { return std::sqrt(a); }); break;
    case O_fmax: case O_fmin: case O_fmaxnm: case O_fminnm: fmap([&](double a, double b) { return fminmax(I.op, a, b); }); break;
    case O_frinta: case O_frintn: case O_frintz: case O_frintm: case O_frintp: case O_frinti: case O_frintx: fmap([&](double a, double) { return rnd(I.op, a); }); break;
    case O_fmadd: case O_fmsub: case O_fnmadd: case O_fnmsub: {
      double a = fl(B), b = fl(D), c = fl(E);
      if (I.op == O_fmsub || I.op == O_fnmadd) a = -a;
      if (I.op == O_fnmadd || I.op == O_fnmsub) c = -c;
      setfl(A, w == 32 ? (double)std::fma((float)a, (float)b, (float)c) : std::fma(a, b, c));
      break;
    }
    case O_fmla: case O_fmls: {
      V t = v[A.n];
      for (int i = 0; i < lanes_of(A); i++) {
        double a = felv(B, i), b = felv(D, i), c = A.w == 32 ? (double)t.f[i] : t.g[i];
        if (I.op == O_fmls) a = -a;
        setfel(t, A.w, i, A.w == 32 ? (double)std::fma((float)a, (float)b, (float)c) : std::fma(a, b, c));
      }
      put(t); break;
    }
    case O_fcmp: case O_fccmp: {
      if (I.op == O_fccmp && !cc(I.cond)) { int f = (int)D.imm; N = f & 8; Z = f & 4; C = f & 2; Vf = f & 1; break; }
      double a = fl(A), b = fl(B);
      if (std::isnan(a) || std::isnan(b)) { N = Z = false; C = Vf = true; }
      else { N = a < b; Z = a == b; C = a >= b; Vf = false; }
      break;
    }
    case O_fcsel: setF(A, cc(I.cond) ? getF(B) : getF(D)); break;
    case O_fcvt: if (A.w < 32 || B.w < 32) fail("unsupported form", &I); setfl(A, fl(B)); break;
    case O_fcvtzs: case O_fcvtas: case O_fcvtns: case O_fcvtms: case O_fcvtps: case O_fcvtzu: case O_fcvtau: case O_fcvtnu: {
      bool sg = !(I.op == O_fcvtzu || I.op == O_fcvtau || I.op == O_fcvtnu);
      double sc = n > 2 ? std::ldexp(1.0, (int)D.imm) : 1.0;
      if (A.k == REG) wr(A, toint(rnd(I.op, fl(B) * sc), w, sg));
      else { V t{}; for (int i = 0; i < lanes_of(A); i++) se(t, w, i, toint(rnd(I.op, felv(B, i) * sc), w, sg)); put(t); }
      break;
    }
    case O_scvtf: case O_ucvtf: {
      double sc = n > 2 ? std::ldexp(1.0, -(int)D.imm) : 1.0;
      V t{};
      for (int i = 0; i < lanes_of(A); i++) {
        u64 a = get(B, i);
        // one rounding, from the integer to the destination
        if (A.w == 32) t.f[i] = I.op == O_scvtf ? (float)sext(a, B.w) * (float)sc : (float)mask(a, B.w) * (float)sc;
        else t.g[i] = I.op == O_scvtf ? (double)sext(a, B.w) * sc : (double)mask(a, B.w) * sc;
      }
      put(t); break;
    }
    // ---- vectors
    case O_mla: acc2([](u64 c, u64 a, u64 b) { return c + a * b; }); break;
    case O_mls: acc2([](u64 c, u64 a, u64 b) { return c - a * b; }); break;
    case O_cnt: map2([](u64 a, u64, int) { return (u64)__builtin_popcountll(a); }); break;
    case O_abs_: map2([&](u64 a, u64, int) { i64 t = sext(a, w); return (u64)(t < 0 ? -t : t); }); break;
    case O_addp: {
      if (A.k == FPR) { setF(A, v[B.n].d[0] + v[B.n].d[1]); break; }
      V t{}; int L = A.lanes;
      for (int i = 0; i < L; i++) { const V& s = i < L / 2 ? v[B.n] : v[D.n]; int j = 2 * (i % (L / 2)); se(t, w, i, el(s, w, j) + el(s, w, j + 1)); }
      put(t); break;
    }
    case O_addv: { u64 s = 0; for (int i = 0; i < B.lanes; i++) s += el(v[B.n], B.w, i); setF(A, s); break; }
    case O_uaddlv: { u64 s = 0; for (int i = 0; i < B.lanes; i++) s += el(v[B.n], B.w, i); setF(A, s); break; }
    case O_saddlv: { u64 s = 0; for (int i = 0; i < B.lanes; i++) s += (u64)sext(el(v[B.n], B.w, i), B.w); setF(A, s); break; }
    case O_sminv: case O_smaxv: case O_uminv: case O_umaxv: {
      bool sg = I.op == O_sminv || I.op == O_smaxv, mx = I.op == O_smaxv || I.op == O_umaxv;
      i128 s = 0;
      for (int i = 0; i < B.lanes; i++) { u64 e = el(v[B.n], B.w, i); i128 z = sg ? (i128)sext(e, B.w) : (i128)e; if (!i || (mx ? z > s : z < s)) s = z; }
      setF(A, (u64)s); break;
    }
    case O_uaddlp: case O_saddlp: case O_uadalp: case O_sadalp: {
      bool sg = I.op == O_saddlp || I.op == O_sadalp, ac = I.op == O_uadalp || I.op == O_sadalp;
      V t{};
      for (int i = 0; i < A.lanes; i++) {
        u64 a = el(v[B.n], B.w, 2 * i), b = el(v[B.n], B.w, 2 * i + 1);
        u64 s = sg ? (u64)(sext(a, B.w) + sext(b, B.w)) : a + b;
        se(t, w, i, s + (ac ? el(v[A.n], w, i) : 0));
      }
      put(t); break;
    }
    case O_saddl: case O_uaddl: { V t{}; for (int i = 0; i < A.lanes; i++) { u64 a = el(v[B.n], B.w, i), b = el(v[D.n], D.w, i); se(t, w, i, I.op == O_saddl ? (u64)(sext(a, B.w) + sext(b, D.w)) : a + b); } put(t); break; }
    case O_saddw: case O_uaddw: { V t{}; for (int i = 0; i < A.lanes; i++) { u64 b = el(v[D.n], D.w, i); se(t, w, i, el(v[B.n], B.w, i) + (I.op == O_saddw ? (u64)sext(b, D.w) : b)); } put(t); break; }
    case O_smin: map2([&](u64 a, u64 b, int) { return (u64)std::min(sext(a, w), sext(b, w)); }); break;
    case O_smax: map2([&](u64 a, u64 b, int) { return (u64)std::max(sext(a, w), sext(b, w)); }); break;
    case O_umin: map2([&](u64 a, u64 b, int) { return std::min(a, b); }); break;
    case O_umax: map2([&](u64 a, u64 b, int) { return std::max(a, b); }); break;
    case O_sqadd: map2([&](u64 a, u64 b, int) { return (u64)sat((i128)sext(a, w) + sext(b, w), w, true); }); break;
    case O_sqsub: map2([&](u64 a, u64 b, int) { return (u64)sat((i128)sext(a, w) - sext(b, w), w, true); }); break;
    case O_uqadd: map2([&](u64 a, u64 b, int) { return (u64)sat((i128)a + b, w, false); }); break;
    case O_uqsub: map2([&](u64 a, u64 b, int) { return (u64)sat((i128)a - b, w, false); }); break;
    case O_xtn: case O_sqxtn: case O_uqxtn: case O_sqxtun: case O_shrn: {
      if (A.k != VEC) fail("unsupported form", &I);
      V t{};
      for (int i = 0; i < A.lanes; i++) {
        u64 a = el(v[B.n], B.w, i);
        se(t, w, i, I.op == O_xtn ? a : I.op == O_shrn ? a >> D.imm : I.op == O_sqxtn ? (u64)sat(sext(a, B.w), w, true) : I.op == O_uqxtn ? (u64)sat((i128)a, w, false) : (u64)sat(sext(a, B.w), w, false));
      }
      put(t); break;
    }
    case O_xtn2: case O_sqxtn2: case O_uqxtn2: case O_sqxtun2: case O_shrn2: {
      V t = v[A.n];
      int h = A.lanes / 2;
      for (int i = 0; i < h; i++) {
        u64 a = el(v[B.n], B.w, i);
        se(t, w, h + i, I.op == O_xtn2 ? a : I.op == O_shrn2 ? a >> D.imm : I.op == O_sqxtn2 ? (u64)sat(sext(a, B.w), w, true) : I.op == O_uqxtn2 ? (u64)sat((i128)a, w, false) : (u64)sat(sext(a, B.w), w, false));
      }
      v[A.n] = t; break;
    }
    case O_ushll: case O_ushll2: case O_sshll: case O_sshll2: case O_uxtl: case O_uxtl2: case O_sxtl: case O_sxtl2: {
      bool up = I.op == O_ushll2 || I.op == O_sshll2 || I.op == O_uxtl2 || I.op == O_sxtl2, sg = I.op == O_sshll || I.op == O_sshll2 || I.op == O_sxtl || I.op == O_sxtl2;
      int s = n > 2 ? (int)D.imm : 0;
      V t{};
      for (int i = 0; i < A.lanes; i++) { u64 a = el(v[B.n], B.w, i + (up ? A.lanes : 0)); se(t, w, i, (sg ? (u64)sext(a, B.w) : a) << s); }
      put(t); break;
    }
    case O_shl: map2([&](u64 a, u64 b, int) { return a << b; }); break;
    case O_sshr: map2([&](u64 a, u64 b, int) { return (u64)(sext(a, w) >> std::min<u64>(b, 63)); }); break;
    case O_ushr: map2([&](u64 a, u64 b, int) { return b >= (u64)w ? 0 : a >> b; }); break;
    case O_usra: acc2([&](u64 c, u64 a, u64 b) { return c + (b >= (u64)w ? 0 : a >> b); }); break;
    case O_ssra: acc2([&](u64 c, u64 a, u64 b) { return c + (u64)(sext(a, w) >> std::min<u64>(b, 63)); }); break;
    case O_sri: acc2([&](u64 c, u64 a, u64 b) { u64 m = b >= (u64)w ? 0 : mask(~0ull, w) >> b; return (c & ~m) | (b >= (u64)w ? 0 : a >> b); }); break;
    case O_sli: acc2([&](u64 c, u64 a, u64 b) { u64 m = mask(~0ull, w) << b; return (c & ~m) | (a << b); }); break;
    case O_ushl: case O_sshl: map2([&](u64 a, u64 b, int) -> u64 {
        i8 s = (i8)b;
        if (s >= 0) return s >= w ? 0 : a << s;
        if (I.op == O_ushl) return -s >= w ? 0 : a >> -s;
        return (u64)(sext(a, w) >> std::min(-(int)s, 63));
      }); break;
    case O_uzp1: case O_uzp2: { V t{}; int L = A.lanes, o = I.op == O_uzp2; for (int i = 0; i < L; i++) { int j = 2 * i + o; se(t, w, i, j < L ? el(v[B.n], w, j) : el(v[D.n], w, j - L)); } put(t); break; }
    case O_zip1: case O_zip2: { V t{}; int L = A.lanes, o = I.op == O_zip2 ? L / 2 : 0; for (int i = 0; i < L; i++) se(t, w, i, el(i % 2 ? v[D.n] : v[B.n], w, o + i / 2)); put(t); break; }
    case O_trn1: case O_trn2: { V t{}; int o = I.op == O_trn2; for (int i = 0; i < A.lanes; i++) se(t, w, i, el(i % 2 ? v[D.n] : v[B.n], w, (i & ~1) + o)); put(t); break; }
    case O_ext: { V t{}; int L = A.lanes; for (int i = 0; i < L; i++) { int j = i + (int)E.imm; t.b[i] = j < L ? v[B.n].b[j] : v[D.n].b[j - L]; } put(t); break; }
    case O_dup: { u64 e = B.k == REG ? r(B) : el(v[B.n], B.w, B.idx); if (A.k == FPR) { setF(A, e); break; } V t{}; for (int i = 0; i < A.lanes; i++) se(t, w, i, e); put(t); break; }
    case O_tbl: { V t{}; for (int i = 0; i < A.lanes; i++) { u8 j = v[D.n].b[i]; t.b[i] = j < 16 * B.cnt ? v[(B.n + j / 16) % 32].b[j % 16] : 0; } put(t); break; }
    case O_rev64: case O_rev32: case O_rev16: { int c = (I.op == O_rev64 ? 64 : I.op == O_rev32 ? 32 : 16) / w; V t{}; for (int i = 0; i < A.lanes; i++) se(t, w, i, el(v[B.n], w, i / c * c + c - 1 - i % c)); put(t); break; }
    case O_fcmgt: case O_fcmge: case O_fcmeq: case O_fcmlt: case O_fcmle: {
      auto cmp = [&](double a, double b) { return I.op == O_fcmgt ? a > b : I.op == O_fcmge ? a >= b : I.op == O_fcmeq ? a == b : I.op == O_fcmlt ? a < b : a <= b; };
      bool zero = D.k == FIMM || D.k == IMM;
      if (A.k == FPR) { setF(A, cmp(fl(B), zero ? 0.0 : fl(D)) ? mask(~0ull, w) : 0); break; }
      V t{};
      for (int i = 0; i < lanes_of(A); i++) se(t, w, i, cmp(felv(B, i), zero ? 0.0 : felv(D, i)) ? ~0ull : 0);
      put(t); break;
    }
    case O_cmgt: map2([&](u64 a, u64 b, int) { return sext(a, w) > sext(b, w) ? ~0ull : 0; }); break;
    case O_cmge: map2([&](u64 a, u64 b, int) { return sext(a, w) >= sext(b, w) ? ~0ull : 0; }); break;
    case O_cmlt: map2([&](u64 a, u64 b, int) { return sext(a, w) < sext(b, w) ? ~0ull : 0; }); break;
    case O_cmle: map2([&](u64 a, u64 b, int) { return sext(a, w) <= sext(b, w) ? ~0ull : 0; }); break;
    case O_cmeq: map2([&](u64 a, u64 b, int) { return mask(a, w) == mask(b, w) ? ~0ull : 0; }); break;
    case O_cmhi: map2([&](u64 a, u64 b, int) { return a > b ? ~0ull : 0; }); break;
    case O_cmhs: map2([&](u64 a, u64 b, int) { return a >= b ? ~0ull : 0; }); break;
    case O_cmtst: map2([&](u64 a, u64 b, int) { return (a & b) ? ~0ull : 0; }); break;
    // ---- structured memory accesses
    case O_ld1r: { u64 a = addr(B), e = ldn(a, w); V t{}; for (int i = 0; i < A.lanes; i++) se(t, w, i, e); if (A.lanes * w <= 64) t.d[1] = 0; v[A.n] = t; break; }
    case O_ld1: case O_ld2: case O_ld3: case O_ld4: case O_st1: case O_st2: case O_st3: case O_st4: {
      bool load = I.op <= O_ld4;
      int inter = 1 + (load ? I.op - O_ld1 : I.op - O_st1);
      u64 a = addr(B);
      if (A.idx >= 0) {
        for (int q = 0; q < A.cnt; q++, a += w / 8) { V& t = v[(A.n + q) % 32]; if (load) se(t, w, A.idx, ldn(a, w)); else stn(a, el(t, w, A.idx), w); }
        break;
      }
      if (load) for (int q = 0; q < A.cnt; q++) v[(A.n + q) % 32] = V{};
      if (inter == 1) for (int q = 0; q < A.cnt; q++) for (int i = 0; i < A.lanes; i++, a += w / 8) { V& t = v[(A.n + q) % 32]; if (load) se(t, w, i, ldn(a, w)); else stn(a, el(t, w, i), w); }
      else for (int i = 0; i < A.lanes; i++) for (int q = 0; q < inter; q++, a += w / 8) { V& t = v[(A.n + q) % 32]; if (load) se(t, w, i, ldn(a, w)); else stn(a, el(t, w, i), w); }
      break;
    }
    default: fail("unsupported instruction", &I);
  }
  pc = next;
}
}  // namespace a64
