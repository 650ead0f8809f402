---------------------------- MODULE PredictTrace -----------------------------
(* Recorded sessions with the Python Interpreter: construction, the reported   *)
(* tensor properties, and any number of predict calls with the invocations the *)
(* interpreter underneath saw.                                                 *)
EXTENDS Predict, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<io, todo, rows, st, h, l>>
Steps == Trace[h].steps
S == Steps[l]
Here(e) == l <= Len(Steps) /\ S.e = e /\ l' = l + 1 /\ h' = h
TraceInit == /\ h \in 1..Len(Trace) /\ l = 1
             /\ io = Trace[h].io /\ todo = <<>> /\ rows = <<>> /\ st = "idle"

\* Construction passes the options on; "" is a log the driver could not read
Built == /\ Here("built") /\ st = "idle"
         /\ S.ok = TRUE
         /\ S.threads = Trace[h].opts.threads /\ S.delegates = Trace[h].opts.xnnpack
         /\ UNCHANGED predVars
\* The reported properties are those of the model's tensors.  Types that numpy
\* does not have and differing per-channel zero points cannot be reported.
Known(v) == \A j \in DOMAIN v : v[j].known
Report(side) == LET v == IF side = "input" THEN io.I ELSE io.U IN
    [types |-> IF Known(v) THEN [j \in DOMAIN v |-> v[j].t] ELSE <<"error">>,
     shapes |-> [j \in DOMAIN v |-> v[j].s],
     scales |-> [j \in DOMAIN v |-> v[j].scale],
     zps |-> IF \A j \in DOMAIN v : v[j].zp # "error" THEN [j \in DOMAIN v |-> v[j].zp] ELSE <<"error">>]
Meta == /\ Here("meta") /\ st = "idle"
        /\ S.I = Report("input") /\ S.U = Report("output")
        /\ UNCHANGED predVars
TCall == Here("call") /\ Call(S.samples)
\* the serialized model must still be in memory when the model runs
TRun == Here("run") /\ S.model /\ Run(S.x, S.y)
TFail == Here("fail") /\ S.model /\ Fail(S.x)
TRefuse == l <= Len(Steps) /\ S.e = "raise" /\ Refuse /\ UNCHANGED <<h, l>>
TRaise == Here("raise") /\ Raise
TResult == Here("result") /\ S.kept /\ Result(S.kind, S.res)
\* Data that is not an array, a list or an iterator is refused
TBad == Here("bad") /\ st = "idle" /\ S.err = "ValueError" /\ UNCHANGED predVars
TraceStep == Built \/ Meta \/ TCall \/ TRun \/ TFail \/ TRefuse \/ TRaise \/ TResult \/ TBad
Why == [event |-> S, io |-> io, next |-> IF todo = <<>> THEN <<>> ELSE Head(todo), rows |-> rows, st |-> st]
TraceNext ==
    \/ TraceStep
    \/ /\ l = Len(Steps) + 1 /\ st = "idle"
       /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ UNCHANGED <<io, todo, rows, st, h>>
    \/ /\ Diag /\ l <= Len(Steps) /\ ~ENABLED TraceStep
       /\ PrintT(<<"STUCK", h, l, ToJson(Why)>>) /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<h, l, st>>
=============================================================================
