----------------------------- MODULE PredictMC ------------------------------
(* Predict on top of the interpreter's memory: the model's output buffers are  *)
(* reused by every invocation, so each row must be copied when it is written.  *)
(* With Copy = FALSE (rows refer to the buffer) the result is wrong.           *)
EXTENDS Predict
CONSTANTS Copy, MaxSamples
VARIABLES given,   \* the samples of the current call
          buf,     \* the output buffer
          kept,    \* rows collected: values, or references to the buffer
          got,     \* the results of all calls so far, each with its samples
          calls
vars == <<io, todo, rows, st, given, buf, kept, got, calls>>
Arr == {[t |-> "f", s |-> <<1, 2>>, d |-> v] : v \in {"a", "b"}} \cup {[t |-> "f", s |-> <<1, 3>>, d |-> "c"]}
Samples == UNION {[1..n -> {<<x>> : x \in Arr}] : n \in 1..MaxSamples}
F(v) == <<"f", v>>         \* what the model computes
Init == /\ io = [I |-> <<[t |-> "f", s |-> <<1, 2>>]>>, U |-> <<[t |-> "f", s |-> <<1, 1>>]>>]
        /\ todo = <<>> /\ rows = <<>> /\ st = "idle" /\ given = <<>> /\ buf = <<"none">> /\ kept = <<>> /\ got = <<>> /\ calls = 0
Row(k) == IF kept[k] = <<"ref">> THEN buf ELSE kept[k]
Next ==
    \/ /\ calls < 2 /\ calls' = calls + 1
       /\ \E s \in Samples : Call(s) /\ given' = s
       /\ kept' = <<>> /\ UNCHANGED <<buf, got>>
    \/ /\ todo # <<>>
       /\ LET v == F(Head(todo)[1].d) IN
          /\ Run(<<Head(todo)[1].d>>, <<v>>)
          /\ buf' = v
          /\ kept' = Append(kept, IF Copy THEN v ELSE <<"ref">>)
       /\ UNCHANGED <<given, got, calls>>
    \/ todo # <<>> /\ Fail(<<Head(todo)[1].d>>) /\ UNCHANGED <<given, buf, kept, got, calls>>
    \/ Refuse /\ UNCHANGED <<given, buf, kept, got, calls>>
    \/ /\ \E res \in {<<[t |-> "f", s |-> <<Len(rows), 1>>, rows |-> [i \in DOMAIN rows |-> rows[i][1]]]>>} : Result("array", res)
       /\ got' = Append(got, [s |-> given, r |-> [k \in DOMAIN kept |-> Row(k)]])
       /\ UNCHANGED <<given, buf, kept, calls>>
    \/ Raise /\ UNCHANGED <<given, buf, kept, got, calls>>
Spec == Init /\ [][Next]_vars
\* Every result has one row per sample, computed from that sample
OnePerSample == \A c \in DOMAIN got : got[c].r = [k \in DOMAIN got[c].s |-> F(got[c].s[k][1].d)]
\* Nothing is returned for a call with an unfit sample
OnlyFit == \A c \in DOMAIN got : \A k \in DOMAIN got[c].s : Fits(got[c].s[k])
InOrder == st = "running" => Len(rows) + Len(todo) = Len(given)
=============================================================================
