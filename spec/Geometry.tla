------------------------------- MODULE Geometry ------------------------------
(* One spatial axis of convolution / pooling: size, filter, stride, dilation,  *)
(* padding scheme.  Invariants every accepted geometry must satisfy, and the   *)
(* enumeration of all small geometries that is replayed on the real ops        *)
(* (each state prints one axis).                                               *)
EXTENDS LceOps
CONSTANTS MaxSize, MaxF, MaxS, MaxD, Emit
VARIABLES pad, size, f, s, d
vars == <<pad, size, f, s, d>>
out == OutSize(pad, size, f, s, d)
before == PadBefore(pad, size, f, s, d)
Init == /\ pad \in {SAME, VALID} /\ size \in 1..MaxSize /\ f \in 1..MaxF
        /\ s \in 1..MaxS /\ d \in 1..MaxD
        /\ OutSize(pad, size, f, s, d) >= 1
        /\ (Emit => PrintT(<<"AXIS", pad, size, f, s, d>>))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
InImage(o) == {t \in 0..(f - 1) : LET i == o * s - before + t * d IN i >= 0 /\ i < size}
\* VALID never leaves the image; the number of outputs is maximal
ValidInside == pad = VALID => \A o \in 0..(out - 1) : InImage(o) = 0..(f - 1)
ValidMaximal == pad = VALID => out * s + EffFilter(f, d) > size
\* SAME: one output per stride; for undilated windows every one of them meets
\* the image, so a maximum exists
SameCount == pad = SAME => (out - 1) * s < size /\ out * s >= size
SameMeets == (pad = SAME /\ d = 1) => \A o \in 0..(out - 1) : InImage(o) # {}
\* every pixel is covered when the stride does not exceed the filter
Covered == (pad = SAME /\ d = 1 /\ s <= f) =>
    \A i \in 0..(size - 1) : \E o \in 0..(out - 1) : \E t \in 0..(f - 1) : o * s - before + t = i
=============================================================================
