----------------------------- MODULE RewritesMC ------------------------------
EXTENDS Rewrites
VARIABLES t0, t, built
vars == <<t0, t, built>>
Steps == {St("add", -1), St("add", 2), St("add", -3), St("mul", -1), St("mul", 2), St("mul", 0), St("relu", 0), St("relu1", 0),
          St("pool", 0), St("pool", 1)}
Ends == {<<>>, <<St("quant", 0)>>, <<St("ge", 0), St("bool", 0)>>, <<St("ge", 1), St("bool", 0)>>, <<St("le", 1), St("bool", 0)>>,
         <<St("pool", 0), St("quant", 0)>>, <<St("pool", 1), St("quant", 0)>>}
SeqsUpTo(n) == UNION {[1..k -> Steps] : k \in 0..n}
Convs == {[out |-> "real", m |-> m, b |-> b, act |-> a] : m \in {-Unit, 0, Unit, 1, -3}, b \in {-5, -1, 0, 1, 4}, a \in Acts}
Init == t0 \in {[cv |-> c, ss |-> <<>>] : c \in Convs} /\ t = t0 /\ built = FALSE
Build == /\ ~built /\ built' = TRUE
         /\ \E m \in SeqsUpTo(MaxLen), e \in Ends : t' = [t EXCEPT !.ss = m \o e]
         /\ t0' = t'
Rewrite == built /\ t' \in Rewritten(t) /\ t0' = t0 /\ built' = built
Next == Build \/ Rewrite
Spec == Init /\ [][Next]_vars
Same == Means(t) = Means(t0)
\* what the normal form promises
Reached == built /\ Normal(t) =>
    /\ Real(t) => ~At(t, 1, "add") /\ ~At(t, 1, "mul") /\ ~At(t, 1, "quant")
    /\ \A i \in 1..Len(t.ss) : ~(At(t, i, "pool") /\ t.ss[i].c = 0 /\ At(t, i + 1, "quant")) /\ ~At(t, i + 1, "bool")
ASSUME "sign" \in Loose \/ "padding" \in Loose \/ (SignOK(8) /\ PadOK /\ QuantOK)
SignSound == SignOK(8)
PadSound == PadOK
=============================================================================
