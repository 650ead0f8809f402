---------------------------- MODULE LceSupport -----------------------------
(* Which configurations of the ops each kernel supports, the shape of the      *)
(* result, and whether contents are a correct result.                          *)
EXTENDS LceOps

(* Which configurations are supported                                          *)
ConvOptionsOK(c) == c.missing = <<>> /\ c.o.pv \in {0, 1}

GroupingOK(c, k) ==
    LET P == PackedSize(c.o.cin) IN
    \/ c.ws[4] = P
    \/ /\ k # "bgemm"                       \* BGEMM: no groups
       /\ P % c.ws[4] = 0
       /\ LET G == P \div c.ws[4] IN
            /\ (c.o.cin \div G) % 32 = 0    \* groups occupy whole words
            /\ c.ws[1] % G = 0

ZeroPadOK(c, k) ==
    (c.o.pad = SAME /\ c.o.pv = 0) =>
        IF k \in {"ref", "both"} THEN c.o.cin % 2 = 0
        ELSE c.ot = "f32" /\ c.o.act \notin {1, 2, 3}

\* c.in: the five input tensors as records [t |-> type, s |-> shape]
ConvSupported(c, k, s) ==
    /\ ConvOptionsOK(c)
    /\ Len(c.in) = 5
    /\ Len(s) = 4 /\ Len(c.in[2].s) = 4
    /\ c.in[1].t = "i32" /\ c.in[2].t = "i32"
    /\ c.ot \in {"i32", "i8", "f32"}
    /\ GroupingOK(c, k)
    /\ ZeroPadOK(c, k)
    /\ IF c.ot = "i32"
       THEN /\ c.in[5].t = "i32" /\ c.in[5].s = <<c.ws[1]>>
       ELSE \A i \in {3, 4} : c.in[i].t = "f32" /\ c.in[i].s = <<c.ws[1]>>
    /\ c.ot = "i8" => c.affine
    /\ k = "ind" => ~c.dyn                  \* indirection needs a stable tensor

PoolSupported(c, s) ==
    /\ Len(c.in) = 1 /\ Len(s) = 4
    /\ c.in[1].t = "i32" /\ c.ot = "i32"
    /\ c.o.sh # 0 /\ c.o.sw # 0 /\ c.o.fh # 0 /\ c.o.fw # 0

QuantSupported(c, s) ==
    /\ Len(c.in) = 1
    /\ c.it \in {"f32", "i8", "bool"} /\ c.ot = "i32"
    /\ Len(s) = Len(c.os)

DequantSupported(c, s) ==
    /\ Len(c.in) = 1
    /\ c.it = "i32" /\ c.ot \in {"f32", "i8", "bool"}
    /\ Len(s) = Len(c.os)
    /\ \A i \in 1..(Len(s) - 1) : s[i] = c.os[i]
    /\ LastDim(s) = PackedSize(LastDim(c.os))

Supported(c, k, s) ==
    CASE c.op = "bconv" -> ConvSupported(c, k, s)
      [] c.op = "pool" -> PoolSupported(c, s)
      [] c.op = "quant" -> QuantSupported(c, s)
      [] c.op = "dequant" -> DequantSupported(c, s)

OutShape(c, s) ==
    CASE c.op = "bconv" -> ConvOutShape(c, s)
      [] c.op = "pool" -> PoolOutShape(c, s)
      [] c.op = "quant" -> QuantOutShape(c, s)
      [] c.op = "dequant" -> c.os

\* y is a correct output for contents x of shape s
Correct(c, x, s, y) ==
    CASE c.op = "bconv" -> ConvOutOK(c, x, s, y)
      [] c.op = "pool" -> PoolOutOK(c, x, s, y)
      [] c.op = "quant" -> QuantOutOK(c, x, s, y)
      [] c.op = "dequant" -> DequantOutOK(c, x, s, c.os, y)
=============================================================================
