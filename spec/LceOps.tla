------------------------------ MODULE LceOps ------------------------------
(* What each larq compute-engine op computes, as a function of its options,  *)
(* tensor shapes and contents.  This is the mathematical (+1/-1) meaning, not *)
(* a transcription of a kernel: bits are decoded, values are multiplied.      *)
(* Real numbers are dyadic and represented as integers scaled by a constant.  *)
EXTENDS LceBits, SequencesExt

\* Nearest integers to num/den (both on a tie), unsaturated
Nearest(num, den) ==
    LET r == (2 * num + den) \div (2 * den)
    IN  {r} \cup (IF (2 * num + den) % (2 * den) = 0 THEN {r - 1} ELSE {})

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* Sum of f[lo..hi]
RECURSIVE SumF(_, _, _)
SumF(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumF(f, lo + 1, hi)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

----------------------------------------------------------------------------
(* Padding arithmetic shared by convolution and pooling (TF semantics)        *)
SAME == 0
VALID == 1
EffFilter(f, dil) == (f - 1) * dil + 1
OutSize(padding, size, f, stride, dil) ==
    IF padding = SAME THEN CeilDiv(size, stride)
                      ELSE CeilDiv(size - EffFilter(f, dil) + 1, stride)
PadBefore(padding, size, f, stride, dil) ==
    LET out == OutSize(padding, size, f, stride, dil)
        total == (out - 1) * stride + EffFilter(f, dil) - size
    IN  IF padding = SAME THEN Max2(0, total) \div 2 ELSE 0

----------------------------------------------------------------------------
(* LceBconv2d.  cfg.o is the record of options, cfg.ws the filter shape        *)
(* <<channels_out, fh, fw, words per group>>, cfg.w the filter halves.         *)
Groups(cfg) == PackedSize(cfg.o.cin) \div cfg.ws[4]
GroupCin(cfg) == IF cfg.ws[4] = PackedSize(cfg.o.cin) THEN cfg.o.cin
                 ELSE cfg.o.cin \div Groups(cfg)
ConvOH(cfg, s) == OutSize(cfg.o.pad, s[2], cfg.ws[2], cfg.o.sh, cfg.o.dh)
ConvOW(cfg, s) == OutSize(cfg.o.pad, s[3], cfg.ws[3], cfg.o.sw, cfg.o.dw)

\* Number of channels in which the filter tap (oc,fy,fx) and the input pixel
\* agree minus the number in which they differ: the +1/-1 dot product.
\* (LceOpsMC checks  n - 2*popcount(a xor b) = sum of the sign products.)
TapIn(cfg, x, s, b, iy, ix, g, wbase) ==
    LET hw == 2 * cfg.ws[4]                                  \* halves per group
        xb == ((b * s[2] + iy) * s[3] + ix) * (2 * s[4]) + g * hw
        \* unrolled sum over the halves of this pixel
        RECURSIVE go(_, _)
        go(i, acc) == IF i > hw THEN acc
                      ELSE go(i + 1, acc + Pop16(x[xb + i] ^^ cfg.w[wbase + i]))
    IN  GroupCin(cfg) - 2 * go(1, 0)
\* An out-of-image position: all +1 (one padding) or nothing (zero padding)
TapOut(cfg, wbase) ==
    IF cfg.o.pad = SAME /\ cfg.o.pv = 0 THEN 0
    ELSE LET hw == 2 * cfg.ws[4]
             RECURSIVE go(_, _)
             go(i, acc) == IF i > hw THEN acc
                           ELSE go(i + 1, acc + Pop16(cfg.w[wbase + i]))
         IN  GroupCin(cfg) - 2 * go(1, 0)

\* The integer +1/-1 convolution at (b, oy, ox, oc), all 0-based
ConvAcc(cfg, x, s, b, oy, ox, oc) ==
    LET fh == cfg.ws[2]
        fw == cfg.ws[3]
        oy0 == oy * cfg.o.sh - PadBefore(cfg.o.pad, s[2], fh, cfg.o.sh, cfg.o.dh)
        ox0 == ox * cfg.o.sw - PadBefore(cfg.o.pad, s[3], fw, cfg.o.sw, cfg.o.dw)
        g == oc \div (cfg.ws[1] \div Groups(cfg))
        RECURSIVE go(_, _)
        go(t, acc) ==
            IF t = fh * fw THEN acc
            ELSE LET fy == t \div fw
                     fx == t % fw
                     iy == oy0 + fy * cfg.o.dh
                     ix == ox0 + fx * cfg.o.dw
                     wb == ((oc * fh + fy) * fw + fx) * (2 * cfg.ws[4])
                 IN  go(t + 1, acc + (IF iy >= 0 /\ iy < s[2] /\ ix >= 0 /\ ix < s[3]
                                      THEN TapIn(cfg, x, s, b, iy, ix, g, wb)
                                      ELSE TapOut(cfg, wb)))
    IN  go(0, 0)

\* Fused activation on the integer result (codes of the TFLite schema)
Activate(act, a) == CASE act = 1 -> Max2(a, 0)
                      [] act = 2 -> Clamp(a, -1, 1)
                      [] act = 3 -> Clamp(a, 0, 6)
                      [] OTHER -> a

\* Float output element, scaled by cfg.fs (multiplier and bias are too)
FloatOut(cfg, a, oc) == Activate(cfg.o.act, a) * cfg.mul[oc + 1] + cfg.bias[oc + 1]

\* The set of int8 results allowed for the real value num/den + zp:
\* nearest integer (both neighbours on an exact tie), saturated.
Int8Of(num, den, zp) ==
    {Clamp(r + zp, -128, 127) : r \in Nearest(num, den)}
\* cfg.qn/cfg.qd: 1/(scale * fs) as a fraction
Int8Out(cfg, a, oc) == Int8Of(FloatOut(cfg, a, oc) * cfg.qn, cfg.qd, cfg.zp)

\* Output bit: XOR-popcount accumulator against the channel's threshold.
\* (K - a) / 2 is the accumulator for the +1/-1 sum a over K products.
ConvK(cfg) == cfg.ws[2] * cfg.ws[3] * GroupCin(cfg)
BitOut(cfg, a, oc) == IF (ConvK(cfg) - a) \div 2 > cfg.thr[oc + 1] THEN 1 ELSE 0

ConvOutShape(cfg, s) ==
    <<s[1], ConvOH(cfg, s), ConvOW(cfg, s),
      IF cfg.ot = "i32" THEN PackedSize(cfg.ws[1]) ELSE cfg.ws[1]>>

\* Does the flat output `y` (channels last) equal the convolution?
ConvOutOK(cfg, x, s, y) ==
    LET oh == ConvOH(cfg, s)
        ow == ConvOW(cfg, s)
        co == cfg.ws[1]
        Acc(p, oc) == ConvAcc(cfg, x, s, p \div (oh * ow), (p \div ow) % oh, p % ow, oc)
        npix == s[1] * oh * ow
    IN  IF cfg.ot = "i32"
        THEN LET words == PackedSize(co)
             IN  /\ Len(y) = npix * words * 2
                 /\ \A p \in 0..(npix - 1) :
                      /\ PadBitsZero(y, words, p, co)
                      /\ \A oc \in 0..(co - 1) :
                           ChanBit(y, words, p, oc) = BitOut(cfg, Acc(p, oc), oc)
        ELSE /\ Len(y) = npix * co
             /\ \A p \in 0..(npix - 1) : \A oc \in 0..(co - 1) :
                  IF cfg.ot = "f32"
                  THEN y[p * co + oc + 1] = FloatOut(cfg, Acc(p, oc), oc)
                  ELSE y[p * co + oc + 1] \in Int8Out(cfg, Acc(p, oc), oc)

\* What is expected, for diagnostics
ConvExpected(cfg, x, s) ==
    LET oh == ConvOH(cfg, s)
        ow == ConvOW(cfg, s)
        co == cfg.ws[1]
        Acc(p, oc) == ConvAcc(cfg, x, s, p \div (oh * ow), (p \div ow) % oh, p % ow, oc)
    IN  [i \in 1..(s[1] * oh * ow * co) |->
            LET p == (i - 1) \div co
                oc == (i - 1) % co
            IN  IF cfg.ot = "i32" THEN BitOut(cfg, Acc(p, oc), oc)
                ELSE IF cfg.ot = "f32" THEN FloatOut(cfg, Acc(p, oc), oc)
                ELSE CHOOSE v \in Int8Out(cfg, Acc(p, oc), oc) : TRUE]

----------------------------------------------------------------------------
(* LceBMaxPool2d: maximum over the in-image part of each window               *)
PoolOutShape(cfg, s) ==
    <<s[1], OutSize(cfg.o.pad, s[2], cfg.o.fh, cfg.o.sh, 1),
            OutSize(cfg.o.pad, s[3], cfg.o.fw, cfg.o.sw, 1), s[4]>>
PoolBit(cfg, x, s, b, oy, ox, c) ==
    LET y0 == oy * cfg.o.sh - PadBefore(cfg.o.pad, s[2], cfg.o.fh, cfg.o.sh, 1)
        x0 == ox * cfg.o.sw - PadBefore(cfg.o.pad, s[3], cfg.o.fw, cfg.o.sw, 1)
        ys == Max2(0, y0) .. (Min2(s[2], y0 + cfg.o.fh) - 1)
        xs == Max2(0, x0) .. (Min2(s[3], x0 + cfg.o.fw) - 1)
        somePlus == \E iy \in ys : \E ix \in xs :
                       ChanBit(x, s[4], (b * s[2] + iy) * s[3] + ix, c) = 0
    IN  IF somePlus THEN 0 ELSE 1
PoolOutOK(cfg, x, s, y) ==
    LET os == PoolOutShape(cfg, s)
        npix == os[1] * os[2] * os[3]
    IN  /\ Len(y) = npix * 2 * s[4]
        /\ \A p \in 0..(npix - 1) : \A c \in 0..(32 * s[4] - 1) :
             ChanBit(y, s[4], p, c) =
               PoolBit(cfg, x, s, p \div (os[2] * os[3]), (p \div os[3]) % os[2], p % os[3], c)

----------------------------------------------------------------------------
(* LceQuantize / LceDequantize                                                *)
\* Elements: floats as sign codes (-1 negative, 0 otherwise) is NOT enough for
\* reading the trace independently, so they come as exact order-preserving
\* integers; int8 and bool as themselves.
Negative(cfg, v) == CASE cfg.it = "f32" -> v < 0
                      [] cfg.it = "i8" -> v < cfg.izp
                      [] cfg.it = "bool" -> v = 0
\* cfg.nz (the AArch64 kernel, which packs the sign bit): -0.0 and NaNs with the
\* sign bit set may come out as either.  The harness makes an abstract zero
\* or NaN negative at even (1-based) positions.
SignBitOnly(cfg, x, i) == "nz" \in DOMAIN cfg /\ i % 2 = 0 /\ (x[i] = 0 \/ x[i] > 2139095040)
LastDim(s) == s[Len(s)]
Rows(s) == Prod(SubSeq(s, 1, Len(s) - 1))
QuantOutShape(cfg, s) == [s EXCEPT ![Len(s)] = PackedSize(LastDim(s))]
QuantOutOK(cfg, x, s, y) ==
    LET n == LastDim(s)
        words == PackedSize(n)
    IN  /\ Len(y) = Rows(s) * words * 2
        /\ \A r \in 0..(Rows(s) - 1) :
             /\ PadBitsZero(y, words, r, n)
             /\ \A c \in 0..(n - 1) :
                  \/ ChanBit(y, words, r, c) = (IF Negative(cfg, x[r * n + c + 1]) THEN 1 ELSE 0)
                  \/ SignBitOnly(cfg, x, r * n + c + 1)

\* Decoded value of +1 / -1.  floats: scaled by cfg.fs.  int8: nearest code of
\* +-1/scale (cfg.qn/cfg.qd = 1/scale), saturated.
DecodeSet(cfg, sign) ==
    CASE cfg.ot = "f32" -> {sign * cfg.fs}
      [] cfg.ot = "bool" -> {IF sign = 1 THEN 1 ELSE 0}
      [] cfg.ot = "i8" ->
            LET off == Nearest(cfg.qn, cfg.qd)
            IN  {Clamp(cfg.ozp + sign * o, -128, 127) : o \in off}
DequantOutOK(cfg, x, s, os, y) ==
    LET n == LastDim(os)
        words == PackedSize(n)
    IN  /\ Len(y) = Rows(os) * n
        /\ \A r \in 0..(Rows(os) - 1) : \A c \in 0..(n - 1) :
             y[r * n + c + 1] \in DecodeSet(cfg, Sign(ChanBit(x, words, r, c)))
=============================================================================
