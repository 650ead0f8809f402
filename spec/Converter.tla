------------------------------ MODULE Converter ------------------------------
(* The converter: a graph and the passes that rewrite it.  A pass may replace   *)
(* the graph by any graph of the same signature that means the same on every    *)
(* input and is in the pass's normal form: nothing is left of what the pass     *)
(* exists to recognise, fuse, pack or remove.                                   *)
EXTENDS Graph

Sig(g) == [args |-> g.args, sig |-> g.sig, ret |-> g.ret, n |-> Len(g.outs)]
Coherent(g) == g.sig = g.args
\* what a graph computes from each of the samples xss
Means(g, S, xss) == Force([i \in 1..Len(xss) |-> Meaning(g, S, xss[i])])

----------------------------------------------------------------------------
(* SAME padding                                                                 *)
SameTotal(size, f, stride, dil) == Max2(0, (CeilDiv(size, stride) - 1) * stride + EffFilter(f, dil) - size)
\* padding b before and a after is what SAME adds
IsSame1(b, a, size, f, stride, dil) ==
    LET t == SameTotal(size, f, stride, dil) IN b = t \div 2 /\ a = t - t \div 2
PadIsSame(p, d, fh, fw, sh, sw, dh, dw) ==
    /\ Len(p) = 8 /\ Len(d) = 4 /\ p[1] = 0 /\ p[2] = 0 /\ p[7] = 0 /\ p[8] = 0
    /\ \A i \in 1..4 : d[i] > 0
    /\ IsSame1(p[3], p[4], d[2], fh, sh, dh)
    /\ IsSame1(p[5], p[6], d[3], fw, sw, dw)
PadConst(N, op) == /\ op.n \in {"tf.Pad", "tfl.pad", "tf.PadV2", "tfl.padv2"} /\ IsConst(N, op.i[2])
                   /\ Len(op.i) = 3 => ConstF32(N, op.i[3])
PadValue(N, op) == IF Len(op.i) = 3 THEN ConstVal(N, op.i[3]).v[1] ELSE 0
Pads(N, op) == ConstVal(N, op.i[2]).v

----------------------------------------------------------------------------
(* Preparation: binary layers are recognised                                    *)
GroupsOK(xd, fd) == xd[4] % fd[3] = 0 /\ (xd[4] = fd[3] \/ fd[3] % 32 = 0)
BinaryConvLeft(N, op, target) ==
    /\ op.n = "tf.Conv2D" /\ TfConvKnown(op)
    /\ TfStr(op, 1) = 1 /\ TfStr(op, 4) = 1 /\ TfDil(op, 1) = 1 /\ TfDil(op, 4) = 1
    /\ ConstF32(N, op.i[2])
    /\ LET f == ConstVal(N, op.i[2])
           x == OpOf(N, op.i[1])
       IN  /\ NearBinary(f.v, f.t.d)
           /\ \/ /\ x.n = "lq.Dequantize" /\ GroupsOK(x.o[1].d, f.t.d)
                 /\ op.a.padding = "VALID" \/ target = "arm"
              \/ /\ x.n \in {"tf.PadV2", "tfl.padv2"} /\ op.a.padding = "VALID" /\ PadConst(N, x)
                 /\ OpOf(N, x.i[1]).n = "lq.Dequantize" /\ GroupsOK(TypeOf(N, x.i[1]).d, f.t.d)
                 /\ PadValue(N, x) = N.S
                 /\ PadIsSame(Pads(N, x), TypeOf(N, x.i[1]).d, f.t.d[1], f.t.d[2], TfStr(op, 2), TfStr(op, 3), TfDil(op, 2), TfDil(op, 3))
\* a where(cond, 1, -1)
SelectLeft(N, op) ==
    /\ op.n \in Select /\ ConstF32(N, op.i[2]) /\ ConstF32(N, op.i[3])
    /\ \E c \in {N.S, -N.S} : AllEq(ConstVal(N, op.i[2]), c) /\ AllEq(ConstVal(N, op.i[3]), -c)
\* sign(sign(x) + 0.1)
SignLeft(N, op) ==
    /\ op.n = "tf.Sign"
    /\ LET a == OpOf(N, op.i[1]) IN
       /\ a.n = "tf.AddV2"
       /\ \E j \in {1, 2} : LET c == a.i[3 - j] IN
            /\ OpOf(N, a.i[j]).n = "tf.Sign" /\ ConstF32(N, c) /\ ConstVal(N, c).t.d = <<>>
            /\ ConstVal(N, c).v[1] > 0 /\ ConstVal(N, c).v[1] < N.S
NFPrepare(N, target) == \A k \in 1..Len(N.g.ops) : LET op == N.g.ops[k] IN
    /\ ~BinaryConvLeft(N, op, target) /\ ~SelectLeft(N, op) /\ ~SignLeft(N, op)
    \* other targets have no zero padding
    /\ (op.n = "lq.Bconv2d" /\ target # "arm" /\ op.a.padding = "SAME") => op.a.pad_values = 1

----------------------------------------------------------------------------
(* Optimization: fusions around binary convolutions                             *)
FloatConv(N, v) == LET c == OpOf(N, v) IN
    /\ c.n = "lq.Bconv2d" /\ Once(N, v) /\ c.o[1].k = "f32" /\ ConstF32(N, c.i[3]) /\ ConstF32(N, c.i[4])
PerChannel(N, v, ch) == /\ ConstF32(N, v)
                        /\ LET d == ConstVal(N, v).t.d IN d = <<>> \/ d = <<1>> \/ d = <<ch>>
ArithLeft(N, op) ==
    /\ op.n \in {"tfl.add", "tfl.sub", "tfl.mul", "tfl.div"} /\ op.a.fused_activation_function = "NONE"
    /\ FloatConv(N, op.i[1])
    /\ PerChannel(N, op.i[2], LastDim(TypeOf(N, op.i[1]).d))
OnePadOrValid(a) == a.padding = "VALID" \/ a.pad_values = 1
ActivationLeft(N, op) ==
    /\ op.n \in {"tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1"}
    /\ FloatConv(N, op.i[1])
    /\ LET c == OpOf(N, op.i[1]) IN
       /\ c.a.fused_activation_function = "NONE" /\ OnePadOrValid(c.a)
       /\ AllEq(ConstVal(N, c.i[3]), N.S) /\ AllEq(ConstVal(N, c.i[4]), 0)
BinaryOutputLeft(N, op) ==
    /\ op.n = "lq.Quantize" /\ FloatConv(N, op.i[1])
    /\ LET c == OpOf(N, op.i[1]) IN
       /\ ConstF32(N, c.i[2]) /\ OpOf(N, c.i[5]).n = "tfl.no_value"
       /\ (c.a.padding = "VALID" /\ c.a.pad_values = 0) \/ (c.a.padding = "SAME" /\ c.a.pad_values = 1)
CompareLeft(N, op) ==
    /\ op.n = "lq.Quantize" /\ Once(N, op.i[1])
    /\ OpOf(N, op.i[1]).n \in {"tfl.greater_equal", "tfl.less_equal"}
PoolLeft(N, op) ==
    /\ op.n = "lq.Quantize" /\ Once(N, op.i[1])
    /\ OpOf(N, op.i[1]).n = "tfl.max_pool_2d" /\ OpOf(N, op.i[1]).a.fused_activation_function = "NONE"
Pools(g) == Cardinality({k \in 1..Len(g.ops) : g.ops[k].n = "lq.BMaxPool2d"})
NFOptimize(N, target) == \A k \in 1..Len(N.g.ops) : LET op == N.g.ops[k] IN
    /\ ~ArithLeft(N, op) /\ ~ActivationLeft(N, op) /\ ~BinaryOutputLeft(N, op) /\ ~CompareLeft(N, op)
    /\ target = "arm" => ~PoolLeft(N, op)

----------------------------------------------------------------------------
(* The other passes                                                             *)
NFBitpack(N) == \A k \in 1..Len(N.g.ops) : LET op == N.g.ops[k] IN
    ~(op.n = "lq.Bconv2d" /\ ConstF32(N, op.i[2]))
NFFusePadding(N) == \A k \in 1..Len(N.g.ops) : LET op == N.g.ops[k] IN
    ~ /\ op.n \in {"tfl.conv_2d", "tfl.depthwise_conv_2d"} /\ op.a.padding = "VALID" /\ Once(N, op.i[1])
      /\ LET x == OpOf(N, op.i[1])
             f == TypeOf(N, op.i[2]).d
         IN  /\ x.n \in {"tfl.pad", "tfl.padv2"} /\ PadConst(N, x) /\ PadValue(N, x) = 0
             /\ PadIsSame(Pads(N, x), TypeOf(N, x.i[1]).d, f[2], f[3], op.a.stride_h, op.a.stride_w, op.a.dilation_h_factor, op.a.dilation_w_factor)
NFQuantize(N) == \A k \in 1..Len(N.g.ops) : LET op == N.g.ops[k] IN
    /\ op.n = "tfl.quantize" => ~(Once(N, op.i[1]) /\ OpOf(N, op.i[1]).n \in {"lq.Bconv2d", "lq.Dequantize"})
    /\ op.n = "lq.Quantize" => ~(Once(N, op.i[1]) /\ OpOf(N, op.i[1]).n = "tfl.dequantize")
    /\ op.n = "lq.Bconv2d" =>
         ~(\A j \in {3, 4} : LET d == OpOf(N, op.i[j]) IN d.n = "tfl.dequantize" /\ OpOf(N, d.i[1]).n = "tfl.quantize")
NFOpRemoval(N) == \A k \in 1..Len(N.g.ops) :
    /\ N.g.ops[k].n \notin {"tf.Identity", "tf.IdentityN", "tf.CheckNumerics", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.Const"}
NFLegalize(N) == \A k \in 1..Len(N.g.ops) : N.g.ops[k].n \notin {"lq.Quantize", "lq.Dequantize", "lq.Bconv2d", "lq.BMaxPool2d"}
NFDetection(N) == \A k \in 1..Len(N.g.ops) : LET op == N.g.ops[k] IN
    IsDetection(op) =>
        ~ /\ Len(op.i) = 3 /\ \A j \in 1..3 : OpOf(N, op.i[j]).n = "tfl.dequantize"
          /\ [j \in 1..Len(op.o) |-> op.o[j].k] = <<"i32", "i32", "f32", "i32">>
NFTranslate(N) == \A k \in 1..Len(N.g.ops) : ~IsLceCustom(N.g.ops[k])

\* p: [pass, target]
NormalForm(p, g, S) == LET N == Nav(g, S) IN
    CASE p.pass = "tfl-prepare-lce" -> NFPrepare(N, p.target)
      [] p.pass = "tfl-optimize-lce" -> NFOptimize(N, p.target)
      [] p.pass = "tfl-lce-bitpack-weights" -> NFBitpack(N)
      [] p.pass = "tfl-fuse-padding" -> NFFusePadding(N)
      [] p.pass = "lce-quantize" -> NFQuantize(N)
      [] p.pass = "lce-op-removal-tf" -> NFOpRemoval(N)
      [] p.pass = "tfl-legalize-lce" -> NFLegalize(N)
      [] p.pass = "detection-postprocess-int" -> NFDetection(N)
      [] p.pass = "lce-translate-tfl" -> NFTranslate(N)
      [] OTHER -> TRUE
\* a target without binary pooling does not get it
TargetOK(p, g, g2) == (p.pass = "tfl-optimize-lce" /\ p.target # "arm") => Pools(g2) <= Pools(g)

----------------------------------------------------------------------------
\* graph: the current graph; ran: the passes so far; mean: what the graph computes
VARIABLES graph, ran, mean
cvars == <<graph, ran, mean>>
ConvInit(g) == graph = g /\ ran = <<>> /\ mean = <<>>
\* the module to convert; it must make sense
WellFormed(m) == \A i \in 1..Len(m) : m[i][1] = "ok"
Start(S, xss) == LET m == Means(graph, S, xss) IN WellFormed(m) = TRUE /\ mean' = m /\ UNCHANGED <<graph, ran>>
PassTo(p, g2, S, xss) ==
    /\ Sig(g2) = Sig(graph) /\ Coherent(g2)
    /\ (Means(g2, S, xss) = mean) = TRUE
    /\ NormalForm(p, g2, S) = TRUE
    /\ TargetOK(p, graph, g2)
    /\ graph' = g2 /\ ran' = Append(ran, p) /\ mean' = mean
=============================================================================
