----------------------------- MODULE ModelIOMC -------------------------------
(* Design check of ModelIO on every small graph: each step keeps the model's   *)
(* meaning (what is stripped is exactly what a caller now does outside), the   *)
(* graph stays well formed, and the order of the steps does not matter.        *)
EXTENDS ModelIO
CONSTANTS MaxOps, MaxIn, Codes
VARIABLES orig, inw, outw    \* operators stripped at each input / output, outermost last
vars == <<g, req, orig, inw, outw>>

T0(n) == [i \in 1..n |-> [n |-> i, t |-> 0, s |-> <<>>, q |-> "", b |-> ""]]
\* operators in order; operator k produces tensor nin + k
RECURSIVE OpSeqs(_, _)
OpSeqs(nin, n) == IF n = 0 THEN {<<>>}
    ELSE {Append(s, o) : s \in OpSeqs(nin, n - 1),
          o \in [c : Codes, f : {""}, i : UNION {[1..m -> 1..(nin + n - 1)] : m \in 1..2}, o : {<<nin + n>>}, x : {<<>>}]}
OneInput(s) == \A k \in DOMAIN s : s[k].c # "OP" => Len(s[k].i) = 1
Graphs == UNION {{[subs |-> <<[n |-> "main", T |-> T0(nin + n), O |-> s, I |-> [j \in 1..nin |-> j], U |-> u]>>,
                   sigs |-> <<[k |-> "s", sub |-> 1, I |-> [j \in 1..nin |-> [n |-> j, t |-> j]], U |-> [j \in DOMAIN u |-> [n |-> j, t |-> u[j]]]]>>,
                   codes |-> <<>>, rest |-> ""] :
                  s \in {x \in OpSeqs(nin, n) : OneInput(x)}, u \in UNION {[1..m -> 1..(nin + n)] : m \in 1..2}} : nin \in 1..MaxIn, n \in 0..MaxOps}
Reqs == {[call |-> "modify", it |-> a, ot |-> b] : a, b \in {"float32", "int8"}} \cup {[call |-> "strip", it |-> "", ot |-> ""]}
Init == /\ g \in Graphs /\ req \in Reqs /\ orig = g
        /\ inw = [p \in DOMAIN g.subs[1].I |-> <<>>] /\ outw = [p \in DOMAIN g.subs[1].U |-> <<>>]
Sg == g.subs[1]
Next == \E k \in DOMAIN Sg.O :
    \/ /\ StripInput(1, k)
       /\ inw' = [p \in DOMAIN inw |-> IF Sg.I[p] = Sg.O[k].i[1] THEN Append(inw[p], Sg.O[k].c) ELSE inw[p]]
       /\ UNCHANGED <<orig, outw>>
    \/ /\ StripOutput(1, k)
       /\ outw' = [p \in DOMAIN outw |-> IF Sg.U[p] = Sg.O[k].o[1] THEN <<Sg.O[k].c>> \o outw[p] ELSE outw[p]]
       /\ UNCHANGED <<orig, inw>>
Spec == Init /\ [][Next]_vars

\* meaning of a tensor as a term over the inputs
RECURSIVE Wrap(_, _)
Wrap(w, t) == IF w = <<>> THEN t ELSE Wrap(Tail(w), <<Head(w), <<t>>>>)
RECURSIVE Term(_, _, _)
Term(sg, w, t) ==
    IF Has(sg.I, t) THEN LET p == CHOOSE p \in DOMAIN sg.I : sg.I[p] = t IN Wrap(w[p], <<"in", p>>)
    ELSE IF \E k \in DOMAIN sg.O : sg.O[k].o[1] = t
    THEN LET k == CHOOSE k \in DOMAIN sg.O : sg.O[k].o[1] = t
         IN  <<sg.O[k].c, [j \in DOMAIN sg.O[k].i |-> Term(sg, w, sg.O[k].i[j])]>>
    ELSE <<"undefined", t>>
NoW == [p \in DOMAIN orig.subs[1].I |-> <<>>]
\* an input with stripped operators now carries their result
Preserved == \A p \in DOMAIN Sg.U :
    Wrap(outw[p], Term(Sg, inw, Sg.U[p])) = Term(orig.subs[1], NoW, orig.subs[1].U[p])
Signatures == \A j \in DOMAIN g.sigs : /\ \A p \in DOMAIN Sg.I : g.sigs[j].I[p].t = Sg.I[p]
                                       /\ \A p \in DOMAIN Sg.U : g.sigs[j].U[p].t = Sg.U[p]
Defined == \A k \in DOMAIN Sg.O : \A j \in DOMAIN Sg.O[k].i :
    \/ Has(Sg.I, Sg.O[k].i[j]) \/ \E m \in 1..(k - 1) : Sg.O[m].o[1] = Sg.O[k].i[j]
Confluent == ~(ENABLED Next) => g = Normal(orig, req)
=============================================================================
