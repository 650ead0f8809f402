------------------------------ MODULE PadCache -------------------------------
(* Zero-padding correction.  For one output position, the design must subtract *)
(* every filter tap that lies outside the image exactly once, using only the   *)
(* cached corner unions T u L, T u R, B u L, B u R.  OppositeSides = FALSE is  *)
(* the original design, which applies nothing when the filter sticks out at    *)
(* two opposite sides (an effective filter larger than the image); TLC then    *)
(* shows a violation.                                                          *)
EXTENDS LceBits
CONSTANTS MaxSize, MaxF, MaxS, MaxD, OppositeSides
VARIABLES H, W, fh, fw, sh, sw, dh, dw, oy, ox
vars == <<H, W, fh, fw, sh, sw, dh, dw, oy, ox>>

Eff(f, d) == (f - 1) * d + 1
Out(size, s) == CeilDiv(size, s)
\* the code's offset: C++ division truncates towards zero
Trunc2(x) == IF x >= 0 THEN x \div 2 ELSE -((-x) \div 2)
Off(size, f, s, d) == Trunc2((Out(size, s) - 1) * s + Eff(f, d) - size)
Before(size, f, s, d) == Max2(0, (Out(size, s) - 1) * s + Eff(f, d) - size) \div 2

Init == /\ H \in 1..MaxSize /\ W \in 1..MaxSize
        /\ fh \in 1..MaxF /\ fw \in 1..MaxF
        /\ sh \in 1..MaxS /\ sw \in 1..MaxS
        /\ dh \in 1..MaxD /\ dw \in 1..MaxD
        /\ oy \in 0..(Out(H, sh) - 1) /\ ox \in 0..(Out(W, sw) - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Taps == (0..(fh - 1)) \X (0..(fw - 1))
\* taps really outside the image
Outside == {t \in Taps :
    LET iy == oy * sh - Before(H, fh, sh, dh) + t[1] * dh
        ix == ox * sw - Before(W, fw, sw, dw) + t[2] * dw
    IN  iy < 0 \/ iy >= H \/ ix < 0 \/ ix >= W}

top == Off(H, fh, sh, dh) - oy * sh
bot == Eff(fh, dh) - H - top
left == Off(W, fw, sw, dw) - ox * sw
right == Eff(fw, dw) - W - left

T(y) == {t \in Taps : t[1] * dh < y}
B(y) == {t \in Taps : Eff(fh, dh) - t[1] * dh <= y}
L(x) == {t \in Taps : t[2] * dw < x}
R(x) == {t \in Taps : Eff(fw, dw) - t[2] * dw <= x}
P(x) == Max2(0, x)
\* cached union of case c at index (y, x): an index must be inside the cache
InCache(y, x) == y >= 0 /\ y < Eff(fh, dh) /\ x >= 0 /\ x < Eff(fw, dw)

\* multiset of corrected taps: how often tap t is subtracted
Count(t, S) == IF t \in S THEN 1 ELSE 0
Case == IF left <= 0 /\ right <= 0 /\ top <= 0 /\ bot <= 0 THEN "inside"
        ELSE IF right <= 0 /\ top > 0 /\ bot < 0 THEN "0"
        ELSE IF left < 0 /\ right > 0 /\ bot <= 0 THEN "1"
        ELSE IF left > 0 /\ right < 0 /\ top <= 0 THEN "2"
        ELSE IF left <= 0 /\ top < 0 /\ bot > 0 THEN "3"
        ELSE "opposite"
Applied(t) ==
    CASE Case = "inside" -> 0
      [] Case = "0" -> Count(t, T(top) \cup L(P(left)))
      [] Case = "1" -> Count(t, T(P(top)) \cup R(right))
      [] Case = "2" -> Count(t, B(P(bot)) \cup L(left))
      [] Case = "3" -> Count(t, B(bot) \cup R(P(right)))
      [] Case = "opposite" ->
           IF ~OppositeSides THEN 0
           ELSE Count(t, T(P(top)) \cup L(P(left))) + Count(t, T(P(top)) \cup R(P(right)))
              + Count(t, B(P(bot)) \cup L(P(left))) + Count(t, B(P(bot)) \cup R(P(right)))
              - Count(t, L(P(left))) - Count(t, R(P(right)))
              - Count(t, T(P(top))) - Count(t, B(P(bot)))
ExactlyOnce == \A t \in Taps : Applied(t) = Count(t, Outside)
CacheBounds ==
    CASE Case = "inside" -> TRUE
      [] Case = "0" -> InCache(top, P(left))
      [] Case = "1" -> InCache(P(top), right)
      [] Case = "2" -> InCache(P(bot), left)
      [] Case = "3" -> InCache(bot, P(right))
      [] Case = "opposite" -> OppositeSides =>
            InCache(P(top), P(left)) /\ InCache(P(bot), P(right))

\* "inside" positions are skipped by jumping along the row: nothing that needs a
\* correction may lie between this position and the next one visited
SkipOK == Case = "inside" =>
    LET jump == CeilDiv(W + Off(W, fw, sw, dw) - Eff(fw, dw), sw)
    IN  \A x \in (ox + 1)..(jump - 1) :
          LET l == Off(W, fw, sw, dw) - x * sw
              r == Eff(fw, dw) - W - l
          IN  l <= 0 /\ r <= 0
=============================================================================
