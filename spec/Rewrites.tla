------------------------------ MODULE Rewrites -------------------------------
(* The converter's rewrite rules as transitions on a small term: a binary      *)
(* convolution followed by a chain of steps.  A term means a function from two *)
(* neighbouring accumulators (two output positions of one channel) to two      *)
(* values; no rule may change that function.  Reals are integers (scaled); an   *)
(* output bit is 1 for a negative value.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K,          \* taps: accumulators are K - 2x for x in 0..K
          MaxLen,     \* steps behind the convolution
          Unit,       \* the real number one
          Loose       \* rules applied without their side condition (negative tests)

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
AbsV(x) == IF x < 0 THEN -x ELSE x
Accs == {K - 2 * x : x \in 0..K}
Acts == {"NONE", "RELU", "RELU_N1_TO_1"}
Act(a, x, u) == CASE a = "RELU" -> Max(x, 0) [] a = "RELU_N1_TO_1" -> Min(Max(x, -u), u) [] OTHER -> x
NegInf == -1000
PosInf == 1000

(* Thresholds.  With positive multiplier: bit iff x > Thr, x the number of      *)
(* disagreements; with a negative one the weights are flipped first.            *)
FloorDiv(a, b) == a \div b     \* b > 0: TLA+ rounds down
ClampLo(a) == CASE a = "RELU" -> 0 [] a = "RELU_N1_TO_1" -> -1 [] OTHER -> -K
ClampHi(a) == CASE a = "RELU" -> K [] a = "RELU_N1_TO_1" -> 1 [] OTHER -> K
Thr(m, b, a) ==
    IF m = 0 THEN (IF b < 0 THEN NegInf ELSE PosInf)
    ELSE LET lo == IF m > 0 THEN ClampLo(a) ELSE -ClampHi(a)
             hi == IF m > 0 THEN ClampHi(a) ELSE -ClampLo(a)
             y1 == lo * AbsV(m) + b
             y2 == hi * AbsV(m) + b
         IN  IF y1 < 0 /\ y2 < 0 THEN NegInf
             ELSE IF y1 >= 0 /\ y2 >= 0 THEN PosInf
             ELSE FloorDiv(b + K * AbsV(m), 2 * AbsV(m))
Flip(m) == m < 0

----------------------------------------------------------------------------
(* conv: [out |-> "real", m, b, act] or [out |-> "bits", thr, flip]             *)
(* steps: [s |-> "add"|"mul"|"rsub"|"relu"|"relu1"|"pool"|"quant"|"ge"|"le"|    *)
(*         "bool"|"binpool", c]                                                *)
ConvOut(cv, acc) ==
    IF cv.out = "real" THEN Act(cv.act, acc, 1) * cv.m + cv.b
    ELSE LET x == (K - (IF cv.flip THEN -acc ELSE acc)) \div 2 IN IF x > cv.thr THEN 1 ELSE 0
DoStep(st, v) ==
    LET one(x) == CASE st.s = "add" -> x + st.c
                    [] st.s = "rsub" -> st.c - x
                    [] st.s = "mul" -> x * st.c
                    [] st.s = "relu" -> Act("RELU", x, Unit)
                    [] st.s = "relu1" -> Act("RELU_N1_TO_1", x, Unit)
                    [] st.s = "quant" -> (IF x < 0 THEN 1 ELSE 0)
                    [] st.s = "bool" -> (IF x = 0 THEN 1 ELSE 0)   \* bit-packing a boolean: false is 1
                    [] st.s = "ge" -> (IF x >= st.c THEN 1 ELSE 0)
                    [] st.s = "le" -> (IF x <= st.c THEN 1 ELSE 0)
                    [] OTHER -> x
    IN  IF st.s = "pool" THEN LET m == Act(IF st.c = 1 THEN "RELU" ELSE "NONE", Max(v[1], v[2]), Unit) IN <<m, m>>
        ELSE IF st.s = "binpool" THEN LET m == Min(v[1], v[2]) IN <<m, m>>
        ELSE <<one(v[1]), one(v[2])>>
RECURSIVE Chain(_, _)
Chain(ss, v) == IF ss = <<>> THEN v ELSE Chain(Tail(ss), DoStep(Head(ss), v))
Means(t) == [p \in Accs \X Accs |-> Chain(t.ss, <<ConvOut(t.cv, p[1]), ConvOut(t.cv, p[2])>>)]

----------------------------------------------------------------------------
Real(t) == t.cv.out = "real"
First(t) == Head(t.ss)
At(t, i, s) == i \in 1..Len(t.ss) /\ t.ss[i].s = s
\* replace n steps from i on
Splice(ss, i, n, new) == SubSeq(ss, 1, i - 1) \o new \o SubSeq(ss, i + n, Len(ss))
St(s, c) == [s |-> s, c |-> c]

FuseAdd(t) == IF Real(t) /\ At(t, 1, "add")
              THEN {[cv |-> [t.cv EXCEPT !.b = @ + First(t).c], ss |-> Tail(t.ss)]} ELSE {}
FuseMul(t) == IF Real(t) /\ At(t, 1, "mul")
              THEN {[cv |-> [t.cv EXCEPT !.m = @ * First(t).c,
                                         !.b = IF "mulbias" \in Loose THEN @ ELSE @ * First(t).c], ss |-> Tail(t.ss)]} ELSE {}
\* an activation moves in front of the multiplication: only through the identity
FuseAct(t) == IF Real(t) /\ (At(t, 1, "relu") \/ At(t, 1, "relu1")) /\ t.cv.act = "NONE"
                 /\ ("act" \in Loose \/ (t.cv.m = Unit /\ t.cv.b = 0))
              THEN {[cv |-> [t.cv EXCEPT !.act = IF First(t).s = "relu" THEN "RELU" ELSE "RELU_N1_TO_1"], ss |-> Tail(t.ss)]} ELSE {}
BinaryOutput(t) == IF Real(t) /\ At(t, 1, "quant")
                   THEN {[cv |-> [out |-> "bits", thr |-> Thr(t.cv.m, t.cv.b, t.cv.act),
                                  flip |-> IF "flip" \in Loose THEN FALSE ELSE Flip(t.cv.m)], ss |-> Tail(t.ss)]} ELSE {}
Compare(t) == UNION {IF At(t, i, "ge") /\ At(t, i + 1, "bool")
                     THEN {[t EXCEPT !.ss = Splice(t.ss, i, 2, <<St("add", -t.ss[i].c), St("quant", 0)>>)]}
                     ELSE IF At(t, i, "le") /\ At(t, i + 1, "bool")
                     THEN {[t EXCEPT !.ss = Splice(t.ss, i, 2, <<St("rsub", t.ss[i].c), St("quant", 0)>>)]}
                     ELSE {} : i \in 1..Len(t.ss)}
BinaryPool(t) == UNION {IF At(t, i, "pool") /\ At(t, i + 1, "quant") /\ ("pool" \in Loose \/ t.ss[i].c = 0)
                        THEN {[t EXCEPT !.ss = Splice(t.ss, i, 2, <<St("quant", 0), St("binpool", 0)>>)]}
                        ELSE {} : i \in 1..Len(t.ss)}
Rewritten(t) == FuseAdd(t) \cup FuseMul(t) \cup FuseAct(t) \cup BinaryOutput(t) \cup Compare(t) \cup BinaryPool(t)
\* what may not be left
Normal(t) == Rewritten(t) = {}

----------------------------------------------------------------------------
(* Recognition of the binary sign: sign(sign(x) + c) for x in -2..2             *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
SignRule(c, u) == "sign" \in Loose \/ (c > 0 /\ c < u)
SignOK(u) == \A c \in -(2 * u)..(2 * u) : SignRule(c, u) =>
                \A x \in -2..2 : Sgn(Sgn(x) * u + c) = (IF x >= 0 THEN 1 ELSE -1)

(* Explicit padding in front of a VALID convolution against SAME, per axis      *)
CD(a, b) == (a + b - 1) \div b
Eff(f, d) == (f - 1) * d + 1
SameOut(n, s) == CD(n, s)
Total(n, f, s, d) == Max(0, (SameOut(n, s) - 1) * s + Eff(f, d) - n)
ValidOut(n, f, s, d) == IF n < Eff(f, d) THEN 0 ELSE CD(n - Eff(f, d) + 1, s)
\* the input positions a window sees
PadWindow(y, b, s, f, d) == [k \in 0..(f - 1) |-> y * s + k * d - b]
PadRule(n, f, s, d, b, a) ==
    LET t == Total(n, f, s, d) IN
    IF "padding" \in Loose THEN b = (a + b) \div 2 /\ a = (a + b + 1) \div 2 /\ ValidOut(n + a + b, f, s, d) = SameOut(n, s)
    ELSE b = t \div 2 /\ a = t - t \div 2
PadOK == \A n \in 1..6, f \in 1..4, s \in 1..3, d \in 1..2, b \in 0..3, a \in 0..3 :
    (PadRule(n, f, s, d, b, a) /\ ValidOut(n + a + b, f, s, d) > 0) =>
        /\ ValidOut(n + a + b, f, s, d) = SameOut(n, s)
        /\ \A y \in 0..(SameOut(n, s) - 1) :
              LET w1 == PadWindow(y, b, s, f, d)
                  w2 == PadWindow(y, Total(n, f, s, d) \div 2, s, f, d)
                  in(i) == i >= 0 /\ i < n
              IN  \A k \in 0..(f - 1) : (in(w1[k]) \/ in(w2[k])) => w1[k] = w2[k]

(* int8: bit-packing, before or after dequantization                            *)
QuantOK == \A zp \in -3..3, q \in -4..4 : ((q - zp) < 0) = (q < zp)
=============================================================================
