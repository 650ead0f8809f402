------------------------------ MODULE LceBits ------------------------------
(* Bit-packed binary tensors.  A packed 32-bit word is written as two 16-bit *)
(* halves (low half first): TLC integers are signed 32-bit, so a full word   *)
(* would wrap.  Bit 0 stands for +1 and bit 1 for -1.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == Max2(lo, Min2(hi, x))
CeilDiv(a, b) == (a + b - 1) \div b
Abs(x) == IF x < 0 THEN -x ELSE x

\* 2^i for i in 0..16 (table: exponentiation is slow in TLC)
P2 == [i \in 0..16 |-> 2^i]

\* number of one bits in a byte, and in a 16-bit half
RECURSIVE PopRec(_)
PopRec(v) == IF v = 0 THEN 0 ELSE (v % 2) + PopRec(v \div 2)
Pop8 == [v \in 0..255 |-> PopRec(v)]
Pop16(h) == Pop8[h % 256] + Pop8[h \div 256]

\* bit i (0..31) of the word whose halves are lo, hi
BitOfHalf(h, i) == (h \div P2[i]) % 2

\* A sequence of halves `d` holds rows of `words` words each.
\* Channel c (0-based) of row r (0-based):
ChanBit(d, words, r, c) == BitOfHalf(d[r * words * 2 + (c \div 16) + 1], c % 16)

\* +1/-1 value of a bit
Sign(bit) == IF bit = 0 THEN 1 ELSE -1

PackedSize(channels) == CeilDiv(channels, 32)

\* All bits of row r at channel positions >= channels are zero
PadBitsZero(d, words, r, channels) ==
    \A i \in 0..(2 * words - 1) :
        LET h == d[r * words * 2 + i + 1]
            used == Clamp(channels - 16 * i, 0, 16)
        IN  h < P2[used]
=============================================================================
