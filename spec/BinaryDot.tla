------------------------------ MODULE BinaryDot ------------------------------
(* Design of binary convolution arithmetic: XOR-popcount over packed words     *)
(* equals the +1/-1 dot product, word padding contributes nothing, all-zero    *)
(* padding pixels count as +1, and the output stage (back-transformation,      *)
(* clamp in the doubled domain, affine) equals activation-then-affine.         *)
(* States: every pair of bit vectors up to MaxN channels, then every           *)
(* accumulator/activation/multiplier/bias/threshold combination.               *)
EXTENDS LceBits
CONSTANTS MaxN, MaxK, MaxMul, MaxBias
VARIABLES mode, n, a, b, k, acc, act, mul, bias, thr
vars == <<mode, n, a, b, k, acc, act, mul, bias, thr>>

Bits == 0..(2^MaxN - 1)
Dot(m, u, v) == LET f[i \in 0..m] == IF i = 0 THEN 0
                        ELSE f[i - 1] + Sign(BitOfHalf(u, i - 1)) * Sign(BitOfHalf(v, i - 1))
                IN f[m]
SumOf(m, v) == Dot(m, 0, v)

Act == 0..3
Activate(t, x) == CASE t = 1 -> Max2(x, 0) [] t = 2 -> Clamp(x, -1, 1)
                    [] t = 3 -> Clamp(x, 0, 6) [] OTHER -> x
Lo(t) == CASE t = 1 -> 0 [] t = 2 -> -1 [] t = 3 -> 0 [] OTHER -> -1000000
Hi(t) == CASE t = 2 -> 1 [] t = 3 -> 6 [] OTHER -> 1000000

Init ==
    \/ /\ mode = "dot" /\ n \in 1..MaxN
       /\ a \in 0..(2^n - 1) /\ b \in 0..(2^n - 1)
       /\ k = 0 /\ acc = 0 /\ act = 0 /\ mul = 0 /\ bias = 0 /\ thr = 0
    \/ /\ mode = "out" /\ n = 0 /\ a = 0 /\ b = 0
       /\ k \in 1..MaxK /\ acc \in 0..k /\ act \in Act
       /\ mul \in -MaxMul..MaxMul /\ bias \in -MaxBias..MaxBias /\ thr = 0
    \/ /\ mode = "thr" /\ n = 0 /\ a = 0 /\ b = 0
       /\ k \in 1..MaxK /\ acc \in 0..k /\ act \in Act
       /\ mul \in -MaxMul..MaxMul /\ bias \in -MaxBias..MaxBias /\ thr = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* popcount identity, and a padding pixel (bits 0) yields the plain filter sum
DotInv == mode = "dot" => /\ n - 2 * Pop16(a ^^ b) = Dot(n, a, b)
                          /\ n - 2 * Pop16(0 ^^ b) = SumOf(n, b)

\* the code's output stage: clamp' (acc << 1) * mul' + bias'
ClampMin == k - Min2(Hi(act), k)
ClampMax == k - Max2(Lo(act), -k)
Stage == Max2(Min2(2 * acc, ClampMax), ClampMin) * (-mul) + (bias + k * mul)
OutInv == mode = "out" => Stage = Activate(act, k - 2 * acc) * mul + bias

\* a threshold decides the sign of the affine result (no activation, mul # 0):
\* for mul > 0 the result decreases in acc, so it is negative above a threshold
ThrInv == (mode = "thr" /\ act = 0 /\ mul > 0) =>
    LET T == CHOOSE t \in -1..k : \A x \in 0..k : ((k - 2 * x) * mul + bias < 0) = (x > t)
    IN  (acc > T) = ((k - 2 * acc) * mul + bias < 0)
=============================================================================
