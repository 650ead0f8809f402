---------------------------- MODULE ProgramsTrace ----------------------------
(* Recorded runs of the programs must be behaviours of Programs.               *)
EXTENDS Programs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<net, mem, pc, rows, phase, prog, args, there, runs, told, code, h, l>>
Steps == Trace[h].steps
S == Steps[l]
Here(e) == l <= Len(Steps) /\ S.e = e /\ l' = l + 1 /\ h' = h
TraceInit == /\ h \in 1..Len(Trace) /\ l = 1
             /\ ProgInit(Trace[h].prog, Trace[h].args, Trace[h].there, Trace[h].net)
             /\ mem = [t \in 1..Trace[h].tensors |-> ""]
TTell == Here("param") /\ Tell(S.name, S.value)
TLoad == Here("build") /\ Load(S.threads)
TBegin == Here("begin") /\ S.x = S.fed /\ RunBegin(S.x)
TNode == Here("node") /\ S.ok /\ S.guards /\ S.k = pc /\ RunNode(S.x, S.xv, S.y, S.yv)
TEnd == Here("end") /\ RunEnd(S.y)
TExit == Here("exit") /\ Exit(S.code)
TraceStep == TTell \/ TLoad \/ TBegin \/ TNode \/ TEnd \/ TExit
Why == [event |-> S, kernel |-> net.kernel, acceptable |-> Acceptable, running |-> Running, reports |-> Reports(prog, args), told |-> told, runs |-> runs]
TraceNext ==
    \/ TraceStep
    \/ /\ l = Len(Steps) + 1 /\ code # None
       /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ UNCHANGED <<net, mem, pc, rows, phase, prog, args, there, runs, told, code, h>>
    \/ /\ Diag /\ l <= Len(Steps) /\ ~ENABLED TraceStep
       /\ PrintT(<<"STUCK", h, l, ToJson(Why)>>) /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<h, l>>
=============================================================================
