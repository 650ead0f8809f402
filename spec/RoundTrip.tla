------------------------------ MODULE RoundTrip ------------------------------
(* Quantize / dequantize as the ops define them, on every small row: bit       *)
(* order, padding bits, sign function and round trips.                         *)
EXTENDS LceOps
CONSTANT MaxC
Vals == {-128, -3, -1, 0, 1, 127}
Zp == {-128, -1, 0, 1, 127}
VARIABLES n, row, t, zp
vars == <<n, row, t, zp>>
Init == /\ n \in 1..MaxC /\ t \in {"f32", "i8", "bool"}
        /\ row \in [1..n -> IF t = "bool" THEN {0, 1} ELSE Vals]
        /\ zp \in (IF t = "i8" THEN Zp ELSE {0})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
QC == [it |-> t, izp |-> zp]
Word(r) == LET f[i \in 0..n] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF Negative(QC, r[i]) THEN P2[i - 1] ELSE 0) IN f[n]
Packed == <<Word(row), 0>>
DC == [ot |-> t, fs |-> 1, ozp |-> zp, qn |-> 1, qd |-> 1]
Decoded == [i \in 1..n |-> CHOOSE v \in DecodeSet(DC, Sign(ChanBit(Packed, 1, 0, i - 1))) : TRUE]
\* the packing is the one QuantOutOK describes, and only that one
PackOK == QuantOutOK(QC, row, <<n>>, Packed)
PackUnique == \A w \in 0..(2^(n + 1) - 1) : w # Packed[1] => ~QuantOutOK(QC, row, <<n>>, <<w, 0>>)
DecodeOK == DequantOutOK(DC, Packed, <<1>>, <<n>>, Decoded)
\* quantize o dequantize = id whenever -1 is representable (zero point not at
\* the lower end); dequantize o quantize = sign
RoundTrip == (t # "i8" \/ zp > -128) => Word(Decoded) = Word(row)
SignFn == \A i \in 1..n : (t = "f32") => Decoded[i] = IF row[i] < 0 THEN -1 ELSE 1
=============================================================================
