------------------------------- MODULE Graph --------------------------------
(* Dataflow graphs of TensorFlow, TF Lite and LCE ops, as the converter sees   *)
(* them, and what they compute.                                                *)
(* A type is [k, d, q]: element kind ("f32", "i1", "i32", "i64", "q", "none",  *)
(* or another name), dimensions, and quantization [sn, sd, zp, lo, hi] (scale  *)
(* sn/sd).  A value is [t |-> type, v |-> flat contents].  Real numbers are     *)
(* dyadic and scaled by S.  A graph is [args, ops, outs, ret]; an op is         *)
(* [n, i, o, a]: name, operands, result types, attributes.  SSA values are     *)
(* numbered: arguments first, then results in order.                           *)
EXTENDS LceOps

Force(f) == Tail(<<0>> \o f)
SameShape(t, d) == t.d = d
Elems(t) == Prod(t.d)
IsFloat(t) == t.k = "f32"

\* round half away from zero: num/den, den > 0
RoundHA(num, den) == IF num >= 0 THEN (2 * num + den) \div (2 * den)
                     ELSE -((2 * (-num) + den) \div (2 * den))
\* products and quotients of reals scaled by S (rounded down), within 32 bits
MulS(x, y, S) == (x \div S) * y + ((x % S) * y) \div S
DivP(x, y, S) == (x \div y) * S + ((x % y) * S) \div y
DivS(x, y, S) == IF y > 0 THEN DivP(x, y, S) ELSE DivP(-x, -y, S)

(* Numpy broadcasting                                                          *)
DimAt(d, n, i) == IF i > n - Len(d) THEN d[i - (n - Len(d))] ELSE 1
CanBcast(d, e) == LET n == Max2(Len(d), Len(e)) IN
    \A i \in 1..n : LET x == DimAt(d, n, i) y == DimAt(e, n, i) IN x = y \/ x = 1 \/ y = 1
Bcast(d, e) == LET n == Max2(Len(d), Len(e)) IN
    [i \in 1..n |-> LET x == DimAt(d, n, i) y == DimAt(e, n, i) IN IF x = 1 THEN y ELSE x]
\* t can be broadcast to exactly shape d
BcastTo(t, d) == Len(t) <= Len(d) /\ CanBcast(t, d) /\ Bcast(t, d) = d
\* offset in a tensor of shape d of the p-th element (0-based) of shape od
BOff(od, d, p) ==
    LET n == Len(od)
        RECURSIVE go(_, _, _, _)
        go(i, r, stride, off) ==
            IF i = 0 THEN off
            ELSE LET x == DimAt(d, n, i)
                     ix == r % od[i]
                 IN  go(i - 1, r \div od[i], stride * x, off + (IF x = 1 THEN 0 ELSE ix * stride))
    IN  go(n, p, 1, 0)
Read(od, x, p) == IF x.t.d = od THEN x.v[p + 1]
                  ELSE IF Len(x.v) = 1 THEN x.v[1]
                  ELSE x.v[BOff(od, x.t.d, p) + 1]
Map2(F(_, _), t, x, y) ==
    [t |-> t, v |-> Force([i \in 1..Elems(t) |-> F(Read(t.d, x, i - 1), Read(t.d, y, i - 1))])]
Map1(F(_), t, x) == [t |-> t, v |-> Force([i \in 1..Elems(t) |-> F(x.v[i])])]
\* coordinates of flat position p of shape d (0-based)
Coord(d, p) == LET n == Len(d)
                   st == [i \in 1..n |-> Prod(SubSeq(d, i + 1, n))]
               IN  [i \in 1..n |-> (p \div st[i]) % d[i]]
FlatIx(d, c) == LET RECURSIVE go(_, _)
                    go(i, acc) == IF i > Len(d) THEN acc ELSE go(i + 1, acc * d[i] + c[i])
                IN  go(1, 0)

(* Activation of a real number scaled by S                                     *)
ActF(name, x, S) == CASE name = "RELU" -> Max2(x, 0)
                      [] name = "RELU_N1_TO_1" -> Clamp(x, -S, S)
                      [] name = "RELU6" -> Clamp(x, 0, 6 * S)
                      [] OTHER -> x
ActNames == {"NONE", "RELU", "RELU_N1_TO_1", "RELU6"}
ActCode == [NONE |-> 0, RELU |-> 1, RELU_N1_TO_1 |-> 2, RELU6 |-> 3]
PadCode == [p \in {"SAME", "VALID"} |-> IF p = "SAME" THEN SAME ELSE VALID]

Has(r, f) == f \in DOMAIN r
Get(r, f, dflt) == IF f \in DOMAIN r THEN r[f] ELSE dflt

----------------------------------------------------------------------------
(* Binary filters.  A filter counts as binary when every weight is, up to half  *)
(* a percent, plus or minus the magnitude of its channel's first weight; it    *)
(* then stands for exactly that.                                               *)
\* HWIO filter w of shape fs
FirstOf(w, fs, oc) == w[oc + 1]
NearBinary(w, fs) ==
    \A i \in 1..Prod(fs) : LET s == FirstOf(w, fs, (i - 1) % fs[4]) IN
        s # 0 /\ Abs(Abs(w[i]) - Abs(s)) * 200 <= Abs(s)
Snap(w, fs) == Force([i \in 1..Prod(fs) |->
    LET s == Abs(FirstOf(w, fs, (i - 1) % fs[4])) IN IF w[i] < 0 THEN -s ELSE s])

----------------------------------------------------------------------------
(* Real convolution.  x: input contents of shape xs; W(fy, fx, ic, oc): weight  *)
(* (ic within the group); Bias(oc) scaled by S.                                 *)
ConvReal(x, xs, W(_, _, _, _), Bias(_), fh, fw, gcin, co, pad, sh, sw, dh, dw, depthwise, mult, t, act, S) ==
    LET oh == OutSize(pad, xs[2], fh, sh, dh)
        ow == OutSize(pad, xs[3], fw, sw, dw)
        pt == PadBefore(pad, xs[2], fh, sh, dh)
        pl == PadBefore(pad, xs[3], fw, sw, dw)
        groups == xs[4] \div gcin
        At(b, oy, ox, oc) ==
            LET g == IF depthwise THEN oc \div mult ELSE oc \div (co \div groups)
                RECURSIVE go(_, _)
                go(k, acc) ==
                    IF k = fh * fw * gcin THEN acc
                    ELSE LET ic == k % gcin
                             fx == (k \div gcin) % fw
                             fy == k \div (gcin * fw)
                             iy == oy * sh - pt + fy * dh
                             ix == ox * sw - pl + fx * dw
                         IN  go(k + 1, IF iy >= 0 /\ iy < xs[2] /\ ix >= 0 /\ ix < xs[3]
                                       THEN acc + MulS(x[((b * xs[2] + iy) * xs[3] + ix) * xs[4] + g * gcin + ic + 1], W(fy, fx, ic, oc), S)
                                       ELSE acc)
            IN  ActF(act, go(0, 0) + Bias(oc), S)
    IN  [t |-> t, v |-> Force([i \in 1..Elems(t) |->
            LET p == i - 1 IN At(p \div (oh * ow * co), (p \div (ow * co)) % oh, (p \div co) % ow, p % co)])]
ConvDims(xs, fh, fw, co, pad, sh, sw, dh, dw) ==
    <<xs[1], OutSize(pad, xs[2], fh, sh, dh), OutSize(pad, xs[3], fw, sw, dw), co>>
GeomOK(xs, fh, fw, pad, sh, sw, dh, dw) ==
    /\ Len(xs) = 4 /\ sh > 0 /\ sw > 0 /\ dh > 0 /\ dw > 0 /\ fh > 0 /\ fw > 0
    /\ OutSize(pad, xs[2], fh, sh, dh) > 0 /\ OutSize(pad, xs[3], fw, sw, dw) > 0

MaxOf(S0) == CHOOSE m \in S0 : \A y \in S0 : y <= m
PoolReal(x, pad, fh, fw, sh, sw, t, act, S) ==
    LET xs == x.t.d
        pt == PadBefore(pad, xs[2], fh, sh, 1)
        pl == PadBefore(pad, xs[3], fw, sw, 1)
        At(b, oy, ox, c) ==
            LET ys == Max2(0, oy * sh - pt) .. (Min2(xs[2], oy * sh - pt + fh) - 1)
                zs == Max2(0, ox * sw - pl) .. (Min2(xs[3], ox * sw - pl + fw) - 1)
            IN  ActF(act, MaxOf({x.v[((b * xs[2] + iy) * xs[3] + ix) * xs[4] + c + 1] : iy \in ys, ix \in zs}), S)
    IN  [t |-> t, v |-> Force([i \in 1..Elems(t) |->
            LET c == Coord(t.d, i - 1) IN At(c[1], c[2], c[3], c[4])])]
\* the mean over the part of each window that is inside
AvgReal(x, pad, fh, fw, sh, sw, t) ==
    LET xs == x.t.d
        pt == PadBefore(pad, xs[2], fh, sh, 1)
        pl == PadBefore(pad, xs[3], fw, sw, 1)
        At(b, oy, ox, c) ==
            LET y0 == Max2(0, oy * sh - pt) y1 == Min2(xs[2], oy * sh - pt + fh)
                x0 == Max2(0, ox * sw - pl) x1 == Min2(xs[3], ox * sw - pl + fw)
                RECURSIVE go(_, _)
                go(k, acc) == IF k = (y1 - y0) * (x1 - x0) THEN acc \div k
                              ELSE go(k + 1, acc + x.v[((b * xs[2] + y0 + (k \div (x1 - x0))) * xs[3] + x0 + (k % (x1 - x0))) * xs[4] + c + 1])
            IN  go(0, 0)
    IN  [t |-> t, v |-> Force([i \in 1..Elems(t) |->
            LET c == Coord(t.d, i - 1) IN At(c[1], c[2], c[3], c[4])])]

----------------------------------------------------------------------------
(* LCE ops on graph values: packed tensors are i32 words; kernels' meaning is   *)
(* LceOps'.                                                                     *)
Halves(v) == Force([i \in 1..(2 * Len(v)) |-> LET w == v[(i + 1) \div 2] IN
                        IF i % 2 = 1 THEN w % 65536 ELSE (w \div 65536) % 65536])
Words(h) == Force([i \in 1..(Len(h) \div 2) |-> LET hi == h[2 * i] IN
                        (IF hi >= 32768 THEN hi - 65536 ELSE hi) * 65536 + h[2 * i - 1]])
\* Pack rows of n bits B(r, c) into halves
PackBits(B(_, _), rows, n) ==
    LET hw == 2 * PackedSize(n)
        H(r, j) == LET RECURSIVE go(_, _)
                       go(c, acc) == IF c > 15 \/ 16 * j + c >= n THEN acc
                                     ELSE go(c + 1, acc + (IF B(r, 16 * j + c) = 1 THEN P2[c] ELSE 0))
                   IN  go(0, 0)
    IN  Force([i \in 1..(rows * hw) |-> H((i - 1) \div hw, (i - 1) % hw)])
NegBit(t, v) == CASE t.k = "q" -> (IF v < t.q.zp THEN 1 ELSE 0)
                  [] t.k = "i1" -> (IF v = 0 THEN 1 ELSE 0)
                  [] OTHER -> (IF v < 0 THEN 1 ELSE 0)
PackedDims(d) == [d EXCEPT ![Len(d)] = PackedSize(LastDim(d))]
LqQuantize(x, t) ==
    LET n == LastDim(x.t.d)
    IN  [t |-> t, v |-> Words(PackBits(LAMBDA r, c : NegBit(x.t, x.v[r * n + c + 1]), Rows(x.t.d), n))]
Decode(t, sign, S) == CASE t.k = "f32" -> sign * S
                        [] t.k = "i1" -> (IF sign = 1 THEN 1 ELSE 0)
                        [] t.k = "q" -> Clamp(t.q.zp + sign * RoundHA(t.q.sd, t.q.sn), t.q.lo, t.q.hi)
                        [] OTHER -> sign
LqDequantize(x, t, S) ==
    LET n == LastDim(t.d)
        w == LastDim(x.t.d)
        h == Halves(x.v)
    IN  [t |-> t, v |-> Force([i \in 1..Elems(t) |->
            Decode(t, Sign(ChanBit(h, w, (i - 1) \div n, (i - 1) % n)), S)])]
\* the configuration record of LceOps
BconvCfg(op, ins) ==
    LET f == ins[2]
        d == f.t.d
        packed == f.t.k = "i32"
        ws == IF packed THEN d ELSE PackedDims(d)
        n == LastDim(d)
    IN  [o |-> [cin |-> op.a.channels_in, dh |-> op.a.dilation_height_factor, dw |-> op.a.dilation_width_factor,
                act |-> ActCode[op.a.fused_activation_function], pv |-> op.a.pad_values, pad |-> PadCode[op.a.padding],
                sh |-> op.a.stride_height, sw |-> op.a.stride_width],
         ws |-> ws,
         w |-> IF packed THEN Halves(f.v)
               ELSE PackBits(LAMBDA r, c : IF f.v[r * n + c + 1] < 0 THEN 1 ELSE 0, Rows(d), n),
         mul |-> ins[3].v, bias |-> ins[4].v, thr |-> ins[5].v, ot |-> op.o[1].k]
\* the weights' own channels per group agree with channels_in
FilterChannelsOK(op, f) ==
    LET fi == f.t.d[4] cin == op.a.channels_in IN
    IF f.t.k = "f32" THEN fi = cin \/ (fi > 0 /\ cin % fi = 0 /\ fi % 32 = 0)
    ELSE LET P == PackedSize(cin) IN fi = P \/ (fi > 0 /\ P % fi = 0 /\ (cin \div (P \div fi)) % 32 = 0)
BconvOK(op, ins) ==
    /\ Len(ins) = 5 /\ Len(op.o) = 1
    /\ ins[1].t.k = "i32" /\ ins[2].t.k \in {"f32", "i32"} /\ Len(ins[1].t.d) = 4 /\ Len(ins[2].t.d) = 4
    /\ op.a.fused_activation_function \in ActNames /\ op.a.padding \in {"SAME", "VALID"} /\ op.a.pad_values \in {0, 1}
    /\ LastDim(ins[1].t.d) = PackedSize(op.a.channels_in)
    /\ FilterChannelsOK(op, ins[2])
    /\ LET a == op.a
           f == ins[2].t.d
           G == IF ins[2].t.k = "f32" THEN op.a.channels_in \div f[4] ELSE PackedSize(op.a.channels_in) \div f[4]
           d == ConvDims(ins[1].t.d, f[2], f[3], f[1], PadCode[a.padding], a.stride_height, a.stride_width, a.dilation_height_factor, a.dilation_width_factor)
       IN  /\ f[1] % G = 0
           /\ GeomOK(ins[1].t.d, f[2], f[3], PadCode[a.padding], a.stride_height, a.stride_width, a.dilation_height_factor, a.dilation_width_factor)
           /\ op.o[1].k \in {"f32", "q", "i32"}
           /\ (a.padding = "SAME" /\ a.pad_values = 0) => op.o[1].k # "i32" /\ a.fused_activation_function = "NONE"
           /\ op.o[1].d = (IF op.o[1].k = "i32" THEN PackedDims(d) ELSE d)
           /\ IF op.o[1].k = "i32" THEN ins[5].t.k = "i32" /\ ins[5].t.d = <<f[1]>>
              ELSE \A j \in {3, 4} : ins[j].t.k = "f32" /\ ins[j].t.d = <<f[1]>>
LqBconv(op, ins, S) ==
    LET cfg == BconvCfg(op, ins)
        t == op.o[1]
        xs == ins[1].t.d
        oh == ConvOH(cfg, xs)
        ow == ConvOW(cfg, xs)
        co == cfg.ws[1]
        xh == Halves(ins[1].v)
        Acc(r, oc) == ConvAcc(cfg, xh, xs, r \div (oh * ow), (r \div ow) % oh, r % ow, oc)
    IN  IF t.k = "i32"
        THEN [t |-> t, v |-> Words(PackBits(LAMBDA r, c : BitOut(cfg, Acc(r, c), c), xs[1] * oh * ow, co))]
        ELSE [t |-> t, v |-> Force([i \in 1..Elems(t) |->
                 LET y == FloatOut(cfg, Acc((i - 1) \div co, (i - 1) % co), (i - 1) % co) IN
                 IF t.k = "f32" THEN y
                 ELSE Clamp(t.q.zp + RoundHA(y * t.q.sd, S * t.q.sn), t.q.lo, t.q.hi)])]
PoolAttrsOK(a, xs) == GeomOK(xs, a.filter_height, a.filter_width, PadCode[a.padding], a.stride_height, a.stride_width, 1, 1)
LqPool(op, x) ==
    LET a == op.a
        cfg == [o |-> [pad |-> PadCode[a.padding], fh |-> a.filter_height, fw |-> a.filter_width, sh |-> a.stride_height, sw |-> a.stride_width]]
        xs == x.t.d
        h == Halves(x.v)
        t == op.o[1]
    IN  [t |-> t, v |-> Words(PackBits(LAMBDA r, c :
            PoolBit(cfg, h, xs, r \div (t.d[2] * t.d[3]), (r \div t.d[3]) % t.d[2], r % t.d[3], c), Rows(t.d), 32 * xs[4]))]

----------------------------------------------------------------------------
(* One op.  Legal: the operands fit the op and the declared result types.       *)
ArithF(n, x, y, S) == CASE n \in {"tf.AddV2", "tfl.add"} -> x + y
                        [] n \in {"tf.Sub", "tfl.sub"} -> x - y
                        [] n \in {"tf.Mul", "tfl.mul"} -> MulS(x, y, S)
                        [] OTHER -> IF y = 0 THEN 0 ELSE DivS(x, y, S)
Arith == {"tf.AddV2", "tfl.add", "tf.Sub", "tfl.sub", "tf.Mul", "tfl.mul", "tf.Div", "tfl.div"}
CmpF(n, x, y) == LET r == CASE n \in {"tf.GreaterEqual", "tfl.greater_equal"} -> x >= y
                            [] n \in {"tf.LessEqual", "tfl.less_equal"} -> x <= y
                            [] n \in {"tf.Greater", "tfl.greater"} -> x > y
                            [] OTHER -> x < y
                 IN  IF r THEN 1 ELSE 0
Cmp == {"tf.GreaterEqual", "tfl.greater_equal", "tf.LessEqual", "tfl.less_equal", "tf.Greater", "tfl.greater", "tf.Less", "tfl.less"}
UnF(n, x, S) == CASE n \in {"tf.Relu", "tfl.relu"} -> Max2(x, 0)
                  [] n \in {"tf.Relu6", "tfl.relu6"} -> Clamp(x, 0, 6 * S)
                  [] n = "tfl.relu_n1_to_1" -> Clamp(x, -S, S)
                  [] n = "tf.Sign" -> (IF x > 0 THEN S ELSE IF x < 0 THEN -S ELSE 0)
                  [] n = "tf.Abs" -> Abs(x)
                  [] n \in {"tf.Neg", "tfl.neg"} -> -x
Un == {"tf.Relu", "tfl.relu", "tf.Relu6", "tfl.relu6", "tfl.relu_n1_to_1", "tf.Sign", "tf.Abs", "tf.Neg", "tfl.neg"}
Ident == {"tf.Identity", "tf.CheckNumerics", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.PreventGradient"}
Const == {"arith.constant", "tf.Const"}
Select == {"tf.Select", "tf.SelectV2"}

TfConvKnown(op) == /\ op.a.padding \in {"SAME", "VALID"}
                   /\ Get(op.a, "data_format", "NHWC") = "NHWC"
TfStr(op, i) == op.a.strides[i]
TfDil(op, i) == Get(op.a, "dilations", <<1, 1, 1, 1>>)[i]
LceCustom == {"LceQuantize", "LceDequantize", "LceBconv2d", "LceBMaxPool2d"}
IsLceCustom(op) == op.n = "tfl.custom" /\ op.a.custom_code \in LceCustom
LqName == [LceQuantize |-> "lq.Quantize", LceDequantize |-> "lq.Dequantize", LceBconv2d |-> "lq.Bconv2d", LceBMaxPool2d |-> "lq.BMaxPool2d"]
\* the LCE op a custom op stands for; a.opt: its decoded options
AsLq(op) == [op EXCEPT !.n = LqName[op.a.custom_code],
             !.a = [f \in DOMAIN op.a.opt |->
                      IF f = "padding" THEN (IF op.a.opt[f] = 0 THEN "SAME" ELSE IF op.a.opt[f] = 1 THEN "VALID" ELSE "?")
                      ELSE IF f = "fused_activation_function"
                           THEN (IF op.a.opt[f] \in 0..3 THEN CHOOSE n \in ActNames : ActCode[n] = op.a.opt[f] ELSE "?")
                      ELSE op.a.opt[f]]]
BconvFields == {"channels_in", "dilation_height_factor", "dilation_width_factor", "fused_activation_function", "pad_values",
                "padding", "stride_height", "stride_width"}
PoolFields == {"padding", "stride_width", "stride_height", "filter_width", "filter_height"}

OneOut(op) == Len(op.o) = 1
\* batch normalization: operands x, scale, offset, mean, variance; the standard
\* deviation is representable
StdOf(v, S) == CASE 4 * v = S -> S \div 2 [] v = S -> S [] v = 4 * S -> 2 * S [] OTHER -> 0
BnOK(op, ins, S) ==
    LET c == LastDim(ins[1].t.d) IN
    /\ Len(ins) = 5 /\ ins[1].t.k = "f32" /\ Len(ins[1].t.d) = 4 /\ op.o[1] = ins[1].t
    /\ op.a.is_training = FALSE /\ Get(op.a, "data_format", "NHWC") = "NHWC"
    /\ \A j \in 2..5 : ins[j].t.k = "f32" /\ ins[j].t.d = <<c>>
    /\ \A i \in 1..c : StdOf(ins[5].v[i] + op.a.epsilon, S) > 0
\* fake quantization to 8 bits between a.min and a.max (scaled by S)
FqStep(a) == (a.max - a.min) \div 255
FqOK(a) == /\ a.num_bits = 8 /\ a.narrow_range = FALSE /\ a.min <= 0 /\ a.max > 0
           /\ (a.max - a.min) % 255 = 0 /\ (-a.min) % FqStep(a) = 0
PadsOK(op, ins) == LET x == ins[1].t p == ins[2] IN
    /\ p.t.k \in {"i32", "i64"} /\ p.t.d = <<Len(x.d), 2>>
    /\ \A i \in 1..Len(p.v) : p.v[i] >= 0
    /\ Len(op.o[1].d) = Len(x.d)
    /\ \A i \in 1..Len(x.d) : op.o[1].d[i] = x.d[i] + p.v[2 * i - 1] + p.v[2 * i]
\* shapes: matrices, joined tensors, means over axes
\* scalars packed into a vector, one entry of a vector
PackOK(op, ins) == op.a.axis = 0 /\ \A i \in 1..Len(ins) : ins[i].t.d = <<>> /\ ins[i].t.k = op.o[1].k
EntryOK(op, ins) == /\ Len(ins[1].t.d) = 1 /\ op.o[1].d = <<>> /\ op.a.shrink_axis_mask = 1 /\ op.a.begin_mask = 0 /\ op.a.ellipsis_mask = 0
                    /\ op.a.new_axis_mask = 0 /\ Len(ins[2].v) = 1 /\ ins[2].v[1] \in 0..(Len(ins[1].v) - 1)
MatDims(op, ins) == LET x == ins[1].t.d y == ins[2].t.d IN
    <<IF op.a.transpose_a THEN x[2] ELSE x[1], IF op.a.transpose_b THEN y[1] ELSE y[2]>>
MatInner(op, ins) == <<IF op.a.transpose_a THEN ins[1].t.d[1] ELSE ins[1].t.d[2], IF op.a.transpose_b THEN ins[2].t.d[2] ELSE ins[2].t.d[1]>>
CatAxis(ins) == LET a == ins[Len(ins)].v[1] IN (IF a < 0 THEN a + Len(ins[1].t.d) ELSE a) + 1
MeanAxes(ins) == LET r == Len(ins[1].t.d) IN {(IF ins[2].v[i] < 0 THEN ins[2].v[i] + r ELSE ins[2].v[i]) + 1 : i \in 1..Len(ins[2].v)}
MeanDims(op, ins) == LET x == ins[1].t.d ax == MeanAxes(ins) IN
    IF op.a.keep_dims THEN [i \in 1..Len(x) |-> IF i \in ax THEN 1 ELSE x[i]]
    ELSE LET keep == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : i \notin ax) IN [i \in 1..Len(keep) |-> x[keep[i]]]
RECURSIVE Legal(_, _)
Legal(op, ins) ==
    LET n == op.n IN
    CASE n \in Const -> OneOut(op) /\ op.a.value.t = op.o[1] /\ Len(op.a.value.v) = Elems(op.o[1])
      [] n \in Arith -> /\ OneOut(op) /\ Len(ins) = 2
                        /\ CanBcast(ins[1].t.d, ins[2].t.d)
                        /\ op.o[1].d = Bcast(ins[1].t.d, ins[2].t.d)
                        /\ ins[1].t.k = ins[2].t.k /\ op.o[1].k = ins[1].t.k
                        /\ Get(op.a, "fused_activation_function", "NONE") \in ActNames
      [] n \in Cmp -> /\ OneOut(op) /\ Len(ins) = 2 /\ op.o[1].k = "i1"
                      /\ CanBcast(ins[1].t.d, ins[2].t.d)
                      /\ op.o[1].d = Bcast(ins[1].t.d, ins[2].t.d)
                      /\ ins[1].t.k = ins[2].t.k
      [] n \in Un -> OneOut(op) /\ Len(ins) = 1 /\ op.o[1] = ins[1].t
      [] n \in {"tf.LogicalNot", "tfl.logical_not"} -> OneOut(op) /\ Len(ins) = 1 /\ op.o[1] = ins[1].t /\ ins[1].t.k = "i1"
      [] n \in Select -> /\ OneOut(op) /\ Len(ins) = 3 /\ ins[1].t.k = "i1"
                         /\ \A i \in 1..3 : BcastTo(ins[i].t.d, op.o[1].d)
                         /\ ins[2].t.k = op.o[1].k /\ ins[3].t.k = op.o[1].k
      [] n = "tf.BroadcastTo" -> /\ OneOut(op) /\ Len(ins) = 2 /\ ins[2].v = op.o[1].d
                                 /\ BcastTo(ins[1].t.d, op.o[1].d) /\ op.o[1].k = ins[1].t.k
      [] n = "tf.Shape" -> OneOut(op) /\ Len(ins) = 1 /\ op.o[1].d = <<Len(ins[1].t.d)>> /\ op.o[1].k \in {"i32", "i64"}
      [] n = "tf.Transpose" -> /\ OneOut(op) /\ Len(ins) = 2 /\ Len(ins[2].v) = Len(ins[1].t.d)
                               /\ {ins[2].v[i] : i \in 1..Len(ins[2].v)} = 0..(Len(ins[1].t.d) - 1)
                               /\ op.o[1].d = [i \in 1..Len(ins[1].t.d) |-> ins[1].t.d[ins[2].v[i] + 1]]
                               /\ op.o[1].k = ins[1].t.k
      [] n \in Ident -> Len(ins) >= 1 /\ OneOut(op) /\ op.o[1].k = ins[1].t.k /\ op.o[1].d = ins[1].t.d
      [] n = "tf.IdentityN" -> op.o = [i \in 1..Len(ins) |-> ins[i].t]
      [] n = "tf.FusedBatchNormV3" -> Len(op.o) >= 1
      [] n = "tf.Reshape" -> OneOut(op) /\ Len(ins) = 2 /\ op.o[1].k = ins[1].t.k /\ Elems(op.o[1]) = Elems(ins[1].t)
      [] n = "tf.MatMul" -> /\ OneOut(op) /\ Len(ins) = 2 /\ Len(ins[1].t.d) = 2 /\ Len(ins[2].t.d) = 2 /\ op.o[1].k = ins[1].t.k
                            /\ MatInner(op, ins)[1] = MatInner(op, ins)[2] /\ op.o[1].d = MatDims(op, ins)
      [] n = "tf.ConcatV2" -> /\ OneOut(op) /\ Len(ins) >= 2 /\ CatAxis(ins) \in 1..Len(ins[1].t.d)
                              /\ \A j \in 1..(Len(ins) - 1) : ins[j].t.k = op.o[1].k /\ Len(ins[j].t.d) = Len(op.o[1].d)
                              /\ op.o[1].d = [i \in 1..Len(ins[1].t.d) |-> IF i # CatAxis(ins) THEN ins[1].t.d[i]
                                                                            ELSE FoldLeft(LAMBDA a, x : a + x.t.d[i], 0, SubSeq(ins, 1, Len(ins) - 1))]
      [] n = "tf.Rsqrt" -> OneOut(op) /\ Len(ins) = 1 /\ op.o[1] = ins[1].t
      [] n = "tf.Pack" -> OneOut(op) /\ (PackOK(op, ins) => op.o[1].d = <<Len(ins)>>)
      [] n = "tf.StridedSlice" -> OneOut(op) /\ Len(ins) = 4
      [] n = "tf.Cast" -> OneOut(op) /\ Len(ins) = 1 /\ op.o[1].d = ins[1].t.d
      [] n \in {"tf.Mean", "tf.Max"} -> OneOut(op) /\ Len(ins) = 2 /\ op.o[1].k = ins[1].t.k /\ op.o[1].d = MeanDims(op, ins)
      [] n = "tf.DepthwiseConv2dNative" ->
            /\ OneOut(op) /\ Len(ins) = 2 /\ ins[1].t.k = "f32" /\ ins[2].t.k = "f32" /\ op.o[1].k = "f32"
            /\ Len(ins[1].t.d) = 4 /\ Len(ins[2].t.d) = 4
            /\ TfConvKnown(op) =>
                 LET f == ins[2].t.d IN
                 /\ GeomOK(ins[1].t.d, f[1], f[2], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3))
                 /\ ins[1].t.d[4] = f[3]
                 /\ op.o[1].d = ConvDims(ins[1].t.d, f[1], f[2], f[3] * f[4], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3))
      [] n = "tf.BiasAdd" -> /\ OneOut(op) /\ Len(ins) = 2 /\ Get(op.a, "data_format", "NHWC") = "NHWC"
                             /\ op.o[1] = ins[1].t /\ ins[2].t.k = ins[1].t.k /\ ins[2].t.d = <<LastDim(ins[1].t.d)>>
      [] n = "tf.FakeQuantWithMinMaxArgs" -> OneOut(op) /\ Len(ins) = 1 /\ op.o[1] = ins[1].t /\ ins[1].t.k = "f32" /\ FqOK(op.a)
      [] n = "tf.Conv2D" ->
            /\ OneOut(op) /\ Len(ins) = 2 /\ ins[1].t.k = "f32" /\ ins[2].t.k = "f32" /\ op.o[1].k = "f32"
            /\ Len(ins[1].t.d) = 4 /\ Len(ins[2].t.d) = 4
            /\ TfConvKnown(op) =>
                 LET f == ins[2].t.d IN
                 /\ GeomOK(ins[1].t.d, f[1], f[2], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3))
                 /\ ins[1].t.d[4] % f[3] = 0 /\ f[4] % (ins[1].t.d[4] \div f[3]) = 0
                 /\ op.o[1].d = ConvDims(ins[1].t.d, f[1], f[2], f[4], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3))
      [] n \in {"tf.Pad", "tfl.pad", "tf.PadV2", "tfl.padv2"} ->
            /\ OneOut(op) /\ PadsOK(op, ins) /\ op.o[1].k = ins[1].t.k
            /\ Len(ins) = 3 => Len(ins[3].v) = 1 /\ ins[3].t.k = ins[1].t.k
      [] n \in {"tf.MaxPool", "tf.AvgPool"} ->
            /\ OneOut(op) /\ Len(ins) = 1 /\ op.a.padding \in {"SAME", "VALID"} /\ op.o[1].k = ins[1].t.k
            /\ GeomOK(ins[1].t.d, op.a.ksize[2], op.a.ksize[3], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), 1, 1)
            /\ op.o[1].d = ConvDims(ins[1].t.d, op.a.ksize[2], op.a.ksize[3], ins[1].t.d[4], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), 1, 1)
      [] n = "tfl.max_pool_2d" ->
            /\ OneOut(op) /\ Len(ins) = 1 /\ op.o[1].k = ins[1].t.k
            /\ PoolAttrsOK(op.a, ins[1].t.d) /\ op.a.fused_activation_function \in ActNames
            /\ op.o[1].d = ConvDims(ins[1].t.d, op.a.filter_height, op.a.filter_width, ins[1].t.d[4], PadCode[op.a.padding], op.a.stride_height, op.a.stride_width, 1, 1)
      [] n \in {"tfl.conv_2d", "tfl.depthwise_conv_2d"} ->
            LET dwise == n = "tfl.depthwise_conv_2d"
                x == ins[1].t.d
                f == ins[2].t.d
                a == op.a
                co == IF dwise THEN f[4] ELSE f[1]
            IN  /\ OneOut(op) /\ Len(ins) = 3 /\ Len(x) = 4 /\ Len(f) = 4
                /\ ins[1].t.k = "f32" /\ ins[2].t.k = "f32" /\ op.o[1].k = "f32"
                /\ ins[3].t.k = "none" \/ (ins[3].t.k = "f32" /\ ins[3].t.d = <<co>>)
                /\ IF dwise THEN f[1] = 1 /\ f[4] = x[4] * a.depth_multiplier
                            ELSE x[4] % f[4] = 0 /\ f[1] % (x[4] \div f[4]) = 0
                /\ GeomOK(x, f[2], f[3], PadCode[a.padding], a.stride_h, a.stride_w, a.dilation_h_factor, a.dilation_w_factor)
                /\ a.fused_activation_function \in ActNames
                /\ op.o[1].d = ConvDims(x, f[2], f[3], co, PadCode[a.padding], a.stride_h, a.stride_w, a.dilation_h_factor, a.dilation_w_factor)
      [] n = "tfl.quantize" -> OneOut(op) /\ Len(ins) = 1 /\ ins[1].t.k = "f32" /\ op.o[1].k = "q" /\ op.o[1].d = ins[1].t.d /\ op.a.qtype = op.o[1]
      [] n = "tfl.dequantize" -> OneOut(op) /\ Len(ins) = 1 /\ ins[1].t.k = "q" /\ op.o[1].k = "f32" /\ op.o[1].d = ins[1].t.d
      [] n = "tfl.no_value" -> OneOut(op) /\ op.o[1].k = "none"
      [] n = "lq.Quantize" -> /\ OneOut(op) /\ Len(ins) = 1 /\ ins[1].t.k \in {"f32", "i1", "i32", "i64", "q"}
                              /\ Len(ins[1].t.d) > 0 /\ op.o[1].k = "i32" /\ op.o[1].d = PackedDims(ins[1].t.d)
      [] n = "lq.Dequantize" -> /\ OneOut(op) /\ Len(ins) = 1 /\ ins[1].t.k = "i32"
                                /\ op.o[1].k \in {"f32", "i1", "i32", "i64", "q"}
                                /\ Len(op.o[1].d) > 0 /\ ins[1].t.d = PackedDims(op.o[1].d)
      [] n = "lq.Bconv2d" -> DOMAIN op.a = BconvFields /\ BconvOK(op, ins)
      [] n = "lq.BMaxPool2d" -> /\ DOMAIN op.a = PoolFields
                                /\ OneOut(op) /\ Len(ins) = 1 /\ ins[1].t.k = "i32" /\ op.o[1].k = "i32"
                                /\ op.a.padding \in {"SAME", "VALID"}
                                /\ PoolAttrsOK(op.a, ins[1].t.d)
                                /\ op.o[1].d = ConvDims(ins[1].t.d, op.a.filter_height, op.a.filter_width, ins[1].t.d[4], PadCode[op.a.padding], op.a.stride_height, op.a.stride_width, 1, 1)
      [] n = "tfl.custom" /\ IsLceCustom(op) ->
            /\ op.a.opt_ok
            /\ DOMAIN op.a.opt = (CASE op.a.custom_code = "LceBconv2d" -> BconvFields
                                    [] op.a.custom_code = "LceBMaxPool2d" -> PoolFields
                                    [] OTHER -> {"none"})
            /\ Legal(AsLq(op), ins)
      [] OTHER -> TRUE

\* An op the specification does not interpret: some fixed function of its
\* name, attributes (op.h is their fingerprint) and operands.
MixV(v) == FoldLeft(LAMBDA a, y : ((a * 7) + (y % 1009)) % 1009, 1, v)
MixX(acc, x) == ((acc * 31) + MixV(x.v)) % 1009
Opaque(op, ins, S) ==
    LET m == FoldLeft(MixX, op.h % 1009, ins)
        Mix(i, j) == ((m * 13) + (i * i * 5) + (j * 101)) % 1009
        \* reals are small integers
        At(i, j) == IF IsFloat(op.o[j]) THEN ((Mix(i, j) % 61) - 30) * S ELSE Mix(i, j) - 504
    IN  [j \in 1..Len(op.o) |-> [t |-> op.o[j], v |-> Force([i \in 1..Elems(op.o[j]) |-> At(i, j)])]]

\* Detection post-processing: real inputs (quantized ones stand for reals); some
\* fixed boxes, classes and count; the scores are entries of its second input.
IsDetection(op) == op.n = "tfl.custom" /\ op.a.custom_code = "TFLite_Detection_PostProcess"
RealQ(q, x, S) == ((x - q.zp) * S * q.sn) \div q.sd
Reals(x, S) == IF x.t.k # "q" THEN x
               ELSE [t |-> [k |-> "f32", d |-> x.t.d, q |-> [sn |-> 0, sd |-> 1, zp |-> 0, lo |-> 0, hi |-> 0]],
                     v |-> Force([i \in 1..Len(x.v) |-> RealQ(x.t.q, x.v[i], S)])]
ToQ(q, y, S) == Clamp(q.zp + RoundHA(y * q.sd, S * q.sn), q.lo, q.hi)
Detection(op, ins, S) ==
    LET rs == Force([j \in 1..Len(ins) |-> Reals(ins[j], S)])
        r == Opaque(op, rs, S)
        at == Opaque([op EXCEPT !.o[3].k = "i32"], rs, S)[3].v
        m == Len(rs[2].v)
        Score(t, i) == LET y == rs[2].v[((at[i] + 504) % m) + 1] IN IF t.k = "q" THEN ToQ(t.q, y, S) ELSE y
    IN  [j \in 1..Len(r) |-> IF j # 3 THEN r[j]
                             ELSE [t |-> op.o[3], v |-> Force([i \in 1..Elems(op.o[3]) |-> Score(op.o[3], i)])]]

RECURSIVE Apply(_, _, _)
Apply(op, ins, S) ==
    LET n == op.n rt == IF Len(op.o) > 0 THEN op.o[1] ELSE [k |-> "none", d |-> <<>>] IN
    CASE n \in Const -> <<[t |-> rt, v |-> op.a.value.v]>>
      [] n \in Arith -> <<LET a == Get(op.a, "fused_activation_function", "NONE") IN
                          Map2(LAMBDA x, y : ActF(a, ArithF(n, x, y, IF rt.k = "f32" THEN S ELSE 1), S), rt, ins[1], ins[2])>>
      [] n \in Cmp -> <<Map2(LAMBDA x, y : CmpF(n, x, y), rt, ins[1], ins[2])>>
      [] n \in Un -> <<Map1(LAMBDA x : UnF(n, x, S), rt, ins[1])>>
      [] n \in {"tf.LogicalNot", "tfl.logical_not"} -> <<Map1(LAMBDA x : 1 - x, rt, ins[1])>>
      [] n \in Select -> <<[t |-> rt, v |-> Force([i \in 1..Elems(rt) |->
                             IF Read(rt.d, ins[1], i - 1) = 1 THEN Read(rt.d, ins[2], i - 1) ELSE Read(rt.d, ins[3], i - 1)])]>>
      [] n = "tf.BroadcastTo" -> <<[t |-> rt, v |-> Force([i \in 1..Elems(rt) |-> Read(rt.d, ins[1], i - 1)])]>>
      [] n = "tf.Shape" -> <<[t |-> rt, v |-> ins[1].t.d]>>
      [] n = "tf.Transpose" -> <<[t |-> rt, v |-> Force([i \in 1..Elems(rt) |->
                LET c == Coord(rt.d, i - 1)
                    s == [j \in 1..Len(rt.d) |-> c[CHOOSE k \in 1..Len(rt.d) : ins[2].v[k] = j - 1]]
                IN  ins[1].v[FlatIx(ins[1].t.d, s) + 1]])]>>
      [] n \in Ident -> <<ins[1]>>
      [] n = "tf.IdentityN" -> ins
      [] n = "tf.FusedBatchNormV3" /\ BnOK(op, ins, S) ->
            LET c == LastDim(rt.d)
                Y(x, j) == DivS(MulS(x - ins[4].v[j], ins[2].v[j], S), StdOf(ins[5].v[j] + op.a.epsilon, S), S) + ins[3].v[j]
            IN  <<[t |-> rt, v |-> Force([i \in 1..Elems(rt) |-> Y(ins[1].v[i], ((i - 1) % c) + 1)])]>>
                \o Force([j \in 1..(Len(op.o) - 1) |-> [t |-> op.o[j + 1], v |-> Force([i \in 1..Elems(op.o[j + 1]) |-> 0])]])
      [] n = "tf.BiasAdd" -> <<Map2(LAMBDA x, y : x + y, rt, ins[1], ins[2])>>
      [] n = "tf.FakeQuantWithMinMaxArgs" ->
            <<LET st == FqStep(op.a) IN Map1(LAMBDA x : Clamp(RoundHA(x, st), op.a.min \div st, op.a.max \div st) * st, rt, ins[1])>>
      [] n = "tf.Conv2D" /\ TfConvKnown(op) ->
            LET f == ins[2].t.d
                w == IF NearBinary(ins[2].v, f) THEN Snap(ins[2].v, f) ELSE ins[2].v
            IN  <<ConvReal(ins[1].v, ins[1].t.d, LAMBDA fy, fx, ic, oc : w[((fy * f[2] + fx) * f[3] + ic) * f[4] + oc + 1], LAMBDA oc : 0,
                           f[1], f[2], f[3], f[4], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3), FALSE, 1, rt, "NONE", S)>>
      [] n = "tf.Reshape" -> <<[t |-> rt, v |-> ins[1].v]>>
      [] n = "tf.MatMul" ->
            LET x == ins[1].t.d y == ins[2].t.d m == MatInner(op, ins)[1]
                X(i, k) == ins[1].v[(IF op.a.transpose_a THEN k * x[2] + i ELSE i * x[2] + k) + 1]
                Y(k, j) == ins[2].v[(IF op.a.transpose_b THEN j * y[2] + k ELSE k * y[2] + j) + 1]
            IN  <<[t |-> rt, v |-> Force([p \in 1..Elems(rt) |->
                     LET i == (p - 1) \div rt.d[2] j == (p - 1) % rt.d[2] IN
                     FoldLeft(LAMBDA a, k : a + MulS(X(i, k - 1), Y(k - 1, j), S), 0, [k \in 1..m |-> k])])]>>
      [] n = "tf.ConcatV2" ->
            LET ax == CatAxis(ins)
                \* the operand a position c along the axis falls into, and the position there
                Part(c) == CHOOSE r \in {<<j, c - FoldLeft(LAMBDA a, x : a + x.t.d[ax], 0, SubSeq(ins, 1, j - 1))>> : j \in 1..(Len(ins) - 1)} :
                               r[2] >= 0 /\ r[2] < ins[r[1]].t.d[ax]
            IN  <<[t |-> rt, v |-> Force([p \in 1..Elems(rt) |->
                     LET c == Coord(rt.d, p - 1) q == Part(c[ax]) IN
                     ins[q[1]].v[FlatIx(ins[q[1]].t.d, [c EXCEPT ![ax] = q[2]]) + 1]])]>>
      [] n = "tf.Mean" ->
            LET x == ins[1] ax == MeanAxes(ins)
                one == [i \in 1..Len(x.t.d) |-> IF i \in ax THEN 1 ELSE x.t.d[i]]
                At(p) == FlatIx(one, [i \in 1..Len(one) |-> IF i \in ax THEN 0 ELSE Coord(x.t.d, p - 1)[i]]) + 1
                home == Force([p \in 1..Len(x.v) |-> At(p)])
            IN  <<[t |-> rt, v |-> Force([j \in 1..Elems(rt) |->
                     FoldLeft(LAMBDA a, p : IF home[p] = j THEN a + x.v[p] ELSE a, 0, [p \in 1..Len(x.v) |-> p]) \div (Len(x.v) \div Elems(rt))])]>>
      [] n = "tf.DepthwiseConv2dNative" /\ TfConvKnown(op) ->
            LET f == ins[2].t.d w == ins[2].v IN
            <<ConvReal(ins[1].v, ins[1].t.d, LAMBDA fy, fx, ic, oc : w[((fy * f[2] + fx) * f[3] + (oc \div f[4])) * f[4] + (oc % f[4]) + 1], LAMBDA oc : 0,
                       f[1], f[2], 1, f[3] * f[4], PadCode[op.a.padding], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3), TRUE, f[4], rt, "NONE", S)>>
      [] n \in {"tf.Pad", "tfl.pad", "tf.PadV2", "tfl.padv2"} ->
            LET pv == IF Len(ins) = 3 THEN ins[3].v[1] ELSE 0
                p == ins[2].v
                xd == ins[1].t.d
            IN  <<[t |-> rt, v |-> Force([i \in 1..Elems(rt) |->
                     LET c == Coord(rt.d, i - 1)
                         s == [j \in 1..Len(xd) |-> c[j] - p[2 * j - 1]]
                     IN  IF \A j \in 1..Len(xd) : s[j] >= 0 /\ s[j] < xd[j] THEN ins[1].v[FlatIx(xd, s) + 1] ELSE pv])]>>
      [] n = "tf.Rsqrt" /\ (\A i \in 1..Len(ins[1].v) : StdOf(ins[1].v[i], S) > 0) -> <<Map1(LAMBDA x : DivS(S, StdOf(x, S), S), rt, ins[1])>>
      [] n = "tf.Pack" /\ PackOK(op, ins) -> <<[t |-> rt, v |-> Force([i \in 1..Len(ins) |-> ins[i].v[1]])]>>
      [] n = "tf.StridedSlice" /\ EntryOK(op, ins) -> <<[t |-> rt, v |-> <<ins[1].v[ins[2].v[1] + 1]>>]>>
      [] n = "tf.Cast" /\ ins[1].t.k \in {"i32", "i1"} /\ rt.k = "f32" -> <<Map1(LAMBDA x : x * S, rt, ins[1])>>
      [] n = "tf.Max" ->
            LET x == ins[1] ax == MeanAxes(ins)
                one == [i \in 1..Len(x.t.d) |-> IF i \in ax THEN 1 ELSE x.t.d[i]]
                At(p) == FlatIx(one, [i \in 1..Len(one) |-> IF i \in ax THEN 0 ELSE Coord(x.t.d, p - 1)[i]]) + 1
                home == Force([p \in 1..Len(x.v) |-> At(p)])
            IN  <<[t |-> rt, v |-> Force([j \in 1..Elems(rt) |-> MaxOf({x.v[p] : p \in {q \in 1..Len(x.v) : home[q] = j}})])]>>
      [] n = "tf.AvgPool" -> <<AvgReal(ins[1], PadCode[op.a.padding], op.a.ksize[2], op.a.ksize[3], TfStr(op, 2), TfStr(op, 3), rt)>>
      [] n = "tf.MaxPool" -> <<PoolReal(ins[1], PadCode[op.a.padding], op.a.ksize[2], op.a.ksize[3], TfStr(op, 2), TfStr(op, 3), rt, "NONE", S)>>
      [] n = "tfl.max_pool_2d" -> <<PoolReal(ins[1], PadCode[op.a.padding], op.a.filter_height, op.a.filter_width, op.a.stride_height, op.a.stride_width, rt, op.a.fused_activation_function, S)>>
      [] n \in {"tfl.conv_2d", "tfl.depthwise_conv_2d"} ->
            LET dwise == n = "tfl.depthwise_conv_2d"
                f == ins[2].t.d
                a == op.a
                bias == ins[3]
                w == ins[2].v
            IN  <<ConvReal(ins[1].v, ins[1].t.d,
                     LAMBDA fy, fx, ic, oc : IF dwise THEN w[(fy * f[3] + fx) * f[4] + oc + 1]
                                             ELSE w[((oc * f[2] + fy) * f[3] + fx) * f[4] + ic + 1],
                     LAMBDA oc : IF bias.t.k = "none" THEN 0 ELSE bias.v[oc + 1],
                     f[2], f[3], IF dwise THEN 1 ELSE f[4], IF dwise THEN f[4] ELSE f[1], PadCode[a.padding],
                     a.stride_h, a.stride_w, a.dilation_h_factor, a.dilation_w_factor, dwise, IF dwise THEN a.depth_multiplier ELSE 1,
                     rt, a.fused_activation_function, S)>>
      [] n = "tfl.quantize" -> <<Map1(LAMBDA x : Clamp(rt.q.zp + RoundHA(x * rt.q.sd, S * rt.q.sn), rt.q.lo, rt.q.hi), rt, ins[1])>>
      [] n = "tfl.dequantize" -> <<LET q == ins[1].t.q IN Map1(LAMBDA x : ((x - q.zp) * S * q.sn) \div q.sd, rt, ins[1])>>
      [] n = "tfl.no_value" -> <<[t |-> rt, v |-> <<>>]>>
      [] n = "lq.Quantize" -> <<LqQuantize(ins[1], rt)>>
      [] n = "lq.Dequantize" -> <<LqDequantize(ins[1], rt, S)>>
      [] n = "lq.Bconv2d" -> <<LqBconv(op, ins, S)>>
      [] n = "lq.BMaxPool2d" -> <<LqPool(op, ins[1])>>
      [] n = "tfl.custom" /\ IsLceCustom(op) -> Apply(AsLq(op), ins, S)
      [] IsDetection(op) /\ Len(ins) = 3 /\ Len(op.o) = 4 -> Detection(op, ins, S)
      [] OTHER -> Opaque(op, ins, S)

----------------------------------------------------------------------------
(* Whole graphs                                                                 *)
\* the graph for batches of one
OneT(t) == IF Len(t.d) > 0 /\ t.d[1] = -1 THEN [t EXCEPT !.d[1] = 1] ELSE t
AtOne(g) == [g EXCEPT !.args = Force([i \in 1..Len(g.args) |-> OneT(g.args[i])]),
                      !.sig = Force([i \in 1..Len(g.sig) |-> OneT(g.sig[i])]),
                      !.ret = Force([i \in 1..Len(g.ret) |-> OneT(g.ret[i])]),
                      !.ops = Force([k \in 1..Len(g.ops) |-> [g.ops[k] EXCEPT !.o = Force([j \in 1..Len(g.ops[k].o) |-> OneT(g.ops[k].o[j])])]])]
\* st: [ok, env, bad]; env the values so far, bad the first illegal op
Step(st, op, S) ==
    IF ~st.ok THEN st
    ELSE IF \E j \in 1..Len(op.i) : op.i[j] \notin 1..Len(st.env) THEN [st EXCEPT !.ok = FALSE, !.bad = op]
    ELSE LET ins == Force([j \in 1..Len(op.i) |-> st.env[op.i[j]]]) IN
         IF Legal(op, ins) THEN [st EXCEPT !.env = st.env \o Apply(op, ins, S)]
         ELSE [st EXCEPT !.ok = FALSE, !.bad = op]
Run(g, S, xs) ==
    FoldLeft(LAMBDA st, op : Step(st, op, S),
             [ok |-> TRUE, env |-> Force([i \in 1..Len(g.args) |-> [t |-> g.args[i], v |-> xs[i]]]), bad |-> <<>>],
             g.ops)
\* the results, or <<"illegal", op>>
Meaning(g, S, xs) ==
    LET st == Run(g, S, xs) IN
    IF ~st.ok THEN <<"illegal", st.bad.n>>
    ELSE IF \E j \in 1..Len(g.outs) : g.outs[j] \notin 1..Len(st.env) THEN <<"illegal", "return">>
    ELSE IF [j \in 1..Len(g.outs) |-> st.env[g.outs[j]].t] # g.ret THEN <<"illegal", "return types">>
    ELSE <<"ok", [j \in 1..Len(g.outs) |-> st.env[g.outs[j]].v]>>

(* Navigation.  Nav(g, S): the graph with, per value, the op defining it (0: an   *)
(* argument) and its type, and the number of uses.                              *)
Nav(g, S) ==
    LET def == FoldLeft(LAMBDA acc, k : acc \o [j \in 1..Len(g.ops[k].o) |-> k], [j \in 1..Len(g.args) |-> 0], [k \in 1..Len(g.ops) |-> k])
        ty == FoldLeft(LAMBDA acc, op : acc \o op.o, g.args, g.ops)
        allIn == FoldLeft(LAMBDA acc, op : acc \o op.i, g.outs, g.ops)
    IN  [g |-> g, S |-> S, def |-> def, ty |-> ty,
         uses |-> Force([v \in 1..Len(def) |-> Cardinality({j \in 1..Len(allIn) : allIn[j] = v})])]
NoOp == [n |-> "argument", i |-> <<>>, o |-> <<>>, a |-> [x \in {} |-> 0], h |-> 0]
OpOf(N, v) == IF N.def[v] = 0 THEN NoOp ELSE N.g.ops[N.def[v]]
TypeOf(N, v) == N.ty[v]
Once(N, v) == N.uses[v] = 1
IsConst(N, v) == OpOf(N, v).n = "arith.constant"
ConstVal(N, v) == OpOf(N, v).a.value
ConstF32(N, v) == IsConst(N, v) /\ ConstVal(N, v).t.k = "f32"
AllEq(x, c) == \A i \in 1..Len(x.v) : x.v[i] = c
=============================================================================
