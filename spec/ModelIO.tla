------------------------------- MODULE ModelIO -------------------------------
(* Rewriting the boundary of a converted model: int8 inputs/outputs instead of *)
(* float ones, and bit-packed outputs instead of dequantized ones.             *)
(* A model: subs (subgraphs), sigs (signatures), codes (operator codes).       *)
(* A subgraph: T tensors (n name, t type, s shape, q quantization, b buffer),  *)
(* O operators (c code, f options, i inputs, o outputs, x intermediates), I    *)
(* inputs, U outputs.  Tensors are numbered from 1; 0 is an absent tensor.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES g,      \* the model
          req     \* the request: [call |-> "modify" | "strip", it, ot]
ioVars == <<g, req>>

F32 == 0
I32 == 2
I8 == 9
Q == "QUANTIZE"
DQ == "DEQUANTIZE"
LDQ == "custom:LceDequantize"
Has(s, x) == \E i \in DOMAIN s : s[i] = x
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Replace(s, x, y) == [i \in DOMAIN s |-> IF s[i] = x THEN y ELSE s[i]]

\* how often tensor t is read: operator inputs, and subgraph outputs
OpReads(sg, t) == Cardinality({<<k, j>> \in (DOMAIN sg.O) \X (1..8) : j \in DOMAIN sg.O[k].i /\ sg.O[k].i[j] = t})
OutReads(sg, t) == Cardinality({j \in DOMAIN sg.U : sg.U[j] = t})

\* boundary operators
InputQ(sg, k) == sg.O[k].c = Q /\ Has(sg.I, sg.O[k].i[1])
OutputOp(sg, k, code) == sg.O[k].c = code /\ Has(sg.U, sg.O[k].o[1])
Ty(sg, t) == sg.T[t].t
WellTyped(sg, k) ==
    LET a == Ty(sg, sg.O[k].i[1])
        b == Ty(sg, sg.O[k].o[1])
    IN  CASE sg.O[k].c = Q -> a = F32 /\ b = I8
          [] sg.O[k].c = DQ -> a = I8 /\ b = F32
          [] sg.O[k].c = LDQ -> a = I32 /\ b \in {F32, I8}

\* Requests that must be refused: not an integer quantized / larq model
Refused(m, r) ==
    IF r.call = "modify"
    THEN \/ ~Has(m.codes, Q) /\ ~Has(m.codes, DQ)
         \/ LET sg == m.subs[1] IN
            \E k \in DOMAIN sg.O : (InputQ(sg, k) \/ OutputOp(sg, k, DQ)) /\ ~WellTyped(sg, k)
    ELSE \/ ~Has(m.codes, LDQ) /\ ~Has(m.codes, DQ)
         \/ \E i \in DOMAIN m.subs : LET sg == m.subs[i] IN
            \E k \in DOMAIN sg.O :
                \/ (OutputOp(sg, k, DQ) \/ OutputOp(sg, k, LDQ)) /\ ~WellTyped(sg, k)
                \/ /\ sg.O[k].c = LDQ /\ ~WellTyped(sg, k)   \* behind a stripped Dequantize
                   /\ \E j \in DOMAIN sg.O : OutputOp(sg, j, DQ) /\ sg.O[j].i[1] = sg.O[k].o[1]

SigMap(m, i, side, x, y) ==
    [m EXCEPT !.sigs = [j \in DOMAIN m.sigs |->
        IF m.sigs[j].sub # i THEN m.sigs[j]
        ELSE [m.sigs[j] EXCEPT ![side] = [e \in DOMAIN m.sigs[j][side] |->
                [m.sigs[j][side][e] EXCEPT !.t = IF @ = x THEN y ELSE @]]]]]

----------------------------------------------------------------------------
(* One step of the rewriting of subgraph i                                     *)
\* An input's Quantize disappears when nothing else reads the float tensor.
CanStripInput(m, r, i, k) ==
    LET sg == m.subs[i] IN
    /\ r.call = "modify" /\ r.it = "int8" /\ i = 1
    /\ InputQ(sg, k)
    /\ OpReads(sg, sg.O[k].i[1]) + OutReads(sg, sg.O[k].i[1]) = 1
StripInputTo(m, i, k) ==
    LET sg == m.subs[i]
        a == sg.O[k].i[1]
        b == sg.O[k].o[1]
    IN  SigMap([m EXCEPT !.subs[i].I = Replace(sg.I, a, b), !.subs[i].O = RemoveAt(sg.O, k)], i, "I", a, b)
\* An output is taken from before its Dequantize; the operator stays only while
\* another operator reads its result.
CanStripOutput(m, r, i, k) ==
    LET sg == m.subs[i] IN
    \/ r.call = "modify" /\ r.ot = "int8" /\ i = 1 /\ OutputOp(sg, k, DQ)
    \/ r.call = "strip" /\ (OutputOp(sg, k, DQ) \/ OutputOp(sg, k, LDQ))
StripOutputTo(m, i, k) ==
    LET sg == m.subs[i]
        a == sg.O[k].o[1]
        b == sg.O[k].i[1]
    IN  SigMap([m EXCEPT !.subs[i].U = Replace(sg.U, a, b),
                         !.subs[i].O = IF OpReads(sg, a) = 0 THEN RemoveAt(sg.O, k) ELSE sg.O], i, "U", a, b)

StripInput(i, k) == CanStripInput(g, req, i, k) /\ g' = StripInputTo(g, i, k) /\ UNCHANGED req
StripOutput(i, k) == CanStripOutput(g, req, i, k) /\ g' = StripOutputTo(g, i, k) /\ UNCHANGED req
Rewrite == \E i \in DOMAIN g.subs : \E k \in DOMAIN g.subs[i].O : StripInput(i, k) \/ StripOutput(i, k)

\* The result of rewriting to the end (ModelIOMC: the order does not matter)
RECURSIVE Normal(_, _)
Normal(m, r) ==
    LET ins == {x \in (DOMAIN m.subs) \X (1..40) : x[2] \in DOMAIN m.subs[x[1]].O /\ CanStripInput(m, r, x[1], x[2])}
        outs == {x \in (DOMAIN m.subs) \X (1..40) : x[2] \in DOMAIN m.subs[x[1]].O /\ CanStripOutput(m, r, x[1], x[2])}
    IN  IF ins # {} THEN LET x == CHOOSE x \in ins : TRUE IN Normal(StripInputTo(m, x[1], x[2]), r)
        ELSE IF outs # {} THEN LET x == CHOOSE x \in outs : TRUE IN Normal(StripOutputTo(m, x[1], x[2]), r)
        ELSE m

----------------------------------------------------------------------------
(* Equality of models up to the numbering of tensors                           *)
InRange(sg) ==
    LET ok(s) == \A j \in DOMAIN s : s[j] \in 0..Len(sg.T)
        pos(s) == \A j \in DOMAIN s : s[j] \in 1..Len(sg.T)
    IN  /\ pos(sg.I) /\ pos(sg.U)
        /\ \A k \in DOMAIN sg.O : ok(sg.O[k].i) /\ pos(sg.O[k].o) /\ pos(sg.O[k].x)
\* tensors by their full description (names are unique in a subgraph)
Tn(sg, t) == IF t = 0 THEN [n |-> ""] ELSE sg.T[t]
Tns(sg, s) == [j \in DOMAIN s |-> Tn(sg, s[j])]
Named(sg) == [I |-> Tns(sg, sg.I), U |-> Tns(sg, sg.U), n |-> sg.n,
              O |-> [k \in DOMAIN sg.O |-> [c |-> sg.O[k].c, f |-> sg.O[k].f, i |-> Tns(sg, sg.O[k].i),
                                            o |-> Tns(sg, sg.O[k].o), x |-> Tns(sg, sg.O[k].x)]]]
Used(sg) == {sg.I[j] : j \in DOMAIN sg.I} \cup {sg.U[j] : j \in DOMAIN sg.U}
            \cup UNION {{sg.O[k].i[j] : j \in DOMAIN sg.O[k].i} \cup {sg.O[k].o[j] : j \in DOMAIN sg.O[k].o}
                        \cup {sg.O[k].x[j] : j \in DOMAIN sg.O[k].x} : k \in DOMAIN sg.O}
NamedSigs(m) == [j \in DOMAIN m.sigs |->
    LET sg == m.subs[m.sigs[j].sub]
        side(s) == [e \in DOMAIN s |-> [n |-> s[e].n, t |-> IF s[e].t \in 1..Len(sg.T) THEN sg.T[s[e].t] ELSE [n |-> "dangling"]]]
    IN  [k |-> m.sigs[j].k, sub |-> m.sigs[j].sub, I |-> side(m.sigs[j].I), U |-> side(m.sigs[j].U)]]
\* b is the rewriting result a, with the orphaned tensors removed (or not)
SameModel(a, b, orig) ==
    /\ Len(a.subs) = Len(b.subs)
    /\ a.codes = b.codes /\ a.rest = b.rest
    /\ \A i \in DOMAIN b.subs : InRange(b.subs[i])
    /\ \A i \in DOMAIN b.subs :
         /\ Named(a.subs[i]) = Named(b.subs[i])
         /\ LET names == {b.subs[i].T[j] : j \in DOMAIN b.subs[i].T}
                old == {orig.subs[i].T[j] : j \in DOMAIN orig.subs[i].T}
                gone == {Tn(orig.subs[i], t) : t \in Used(orig.subs[i]) \ Used(a.subs[i])}
            IN  /\ names \subseteq old
                /\ (old \ gone) \subseteq names
                /\ Cardinality(names) = Len(b.subs[i].T)
    /\ NamedSigs(a) = NamedSigs(b)
=============================================================================
