------------------------------- MODULE SetBatch ------------------------------
(* The set-batch-size pass over a module: a function pass, applied to the      *)
(* functions in any order (the pass manager runs them in parallel).            *)
(* A function: sig (input types), args (entry block argument types, empty when *)
(* external), res, ext, rest (everything else).  A type: k ranked/other, d     *)
(* dims (-1 dynamic), e, enc.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mod,   \* sequence of functions
          todo   \* indices of functions the current application has not visited
sbVars == <<mod, todo>>
BatchOne(t) == IF t.k = "ranked" /\ t.d # <<>> /\ t.d[1] = -1
               THEN [t EXCEPT !.d = [t.d EXCEPT ![1] = 1]] ELSE t
Map1(s) == [i \in DOMAIN s |-> BatchOne(s[i])]
Rewrite(f) == [f EXCEPT !.sig = Map1(f.sig), !.args = Map1(f.args)]
SBInit(m) == mod = m /\ todo = {}
Start == todo = {} /\ todo' = DOMAIN mod /\ UNCHANGED mod
Visit(i) == /\ i \in todo
            /\ mod' = [mod EXCEPT ![i] = Rewrite(mod[i])]
            /\ todo' = todo \ {i}
\* the whole application in one step
Apply == /\ todo = {} /\ mod' = [i \in DOMAIN mod |-> Rewrite(mod[i])] /\ UNCHANGED todo
Consistent(m) == \A i \in DOMAIN m : ~m[i].ext => m[i].sig = m[i].args
NoDynamicBatch(m) == \A i \in DOMAIN m : \A j \in DOMAIN m[i].sig :
    LET t == m[i].sig[j] IN ~(t.k = "ranked" /\ t.d # <<>> /\ t.d[1] = -1)
=============================================================================
