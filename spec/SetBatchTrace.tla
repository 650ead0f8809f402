---------------------------- MODULE SetBatchTrace ----------------------------
(* Every recorded run of the real pass: before -> after -> again.              *)
EXTENDS SetBatch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<mod, todo, h, l>>
TraceInit == h \in 1..Len(Trace) /\ l = 1 /\ SBInit(Trace[h].before.f)
Logged == IF l = 1 THEN Trace[h].after ELSE Trace[h].again
Ok == IF l = 1 THEN Trace[h].after_ok ELSE Trace[h].again_ok
TraceApply == /\ l <= 2 /\ Apply /\ Ok
              /\ mod' = Logged.f /\ Logged.other = Trace[h].before.other
              /\ l' = l + 1 /\ h' = h
TraceNext ==
    \/ TraceApply
    \/ l = 3 /\ PrintT(<<"ACCEPT", h>>) /\ l' = 4 /\ UNCHANGED <<mod, todo, h>>
    \/ Diag /\ l <= 2 /\ ~ENABLED TraceApply
       /\ PrintT(<<"STUCK", h, l, ToJson([expected |-> [i \in DOMAIN mod |-> Rewrite(mod[i])], got |-> Logged.f, ok |-> Ok])>>)
       /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
