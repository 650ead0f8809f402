--------------------------- MODULE ThresholdTrace ----------------------------
(* Thresholds the converter computed for wide binary convolutions: for every     *)
(* accumulator value a channel can have, its output bit is the sign of the real *)
(* output.  A history: taps k, activation act, channels c of                    *)
(* [m, b, thr, flip] (multiplier and bias scaled; flip: all weights negated).   *)
EXTENDS LceOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<h, l>>
H == Trace[h]
Real(acc, c) == (CASE H.act = "RELU" -> Max2(acc, 0) [] H.act = "RELU6" -> Clamp(acc, 0, 6)
                   [] H.act = "RELU_N1_TO_1" -> Clamp(acc, -1, 1) [] OTHER -> acc) * c.m + c.b
\* x: inputs that disagree with the original weights
BitOK(x, c) == ((IF c.flip THEN H.k - x ELSE x) > c.thr) = (Real(H.k - 2 * x, c) < 0)
ChannelOK(c) == \A x \in 0..H.k : BitOK(x, c)
TraceInit == h \in 1..Len(Trace) /\ l = 0
Channel == l < Len(H.c) /\ ChannelOK(H.c[l + 1]) = TRUE /\ l' = l + 1 /\ h' = h
TraceNext ==
    \/ Channel
    \/ H.fused /\ l = Len(H.c) /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ h' = h
    \/ Diag /\ ~H.fused /\ PrintT(<<"STUCK", h, 0, "not fused">>) /\ FALSE /\ UNCHANGED vars
    \/ Diag /\ l < Len(H.c) /\ ~ChannelOK(H.c[l + 1])
       /\ PrintT(<<"STUCK", h, l, ToJson([c |-> H.c[l + 1], at |-> CHOOSE x \in 0..H.k : ~BitOK(x, H.c[l + 1])])>>) /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
