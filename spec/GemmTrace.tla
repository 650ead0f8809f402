------------------------------ MODULE GemmTrace ------------------------------
(* Every recorded blocked multiplication of the real kernels is a behaviour of *)
(* the blocked GEMM (spec/Gemm): operands are packed before they are used and  *)
(* each run step writes exactly the destination words of its own block, which  *)
(* the harness measured by executing the step over two backgrounds.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l, pl, pr, run, written
vars == <<h, l, pl, pr, run, written>>
T == Trace[h]
Ev == T.ev
I == 0..(T.gr - 1)
J == 0..(T.gc - 1)
Min2(a, b) == IF a <= b THEN a ELSE b
TraceInit == /\ h \in 1..Len(Trace) /\ l = 1
             /\ pl = IF Trace[h].pre[1] THEN 0..(Trace[h].gr - 1) ELSE {}
             /\ pr = IF Trace[h].pre[2] THEN 0..(Trace[h].gc - 1) ELSE {}
             /\ run = {} /\ written = {}
Is(e) == l <= Len(Ev) /\ Ev[l].e = e /\ l' = l + 1 /\ h' = h
\* words of block (i, j) as flat indices (column-major destination)
Words(i, j) ==
    {c * T.srows + r : r \in (T.lb[i + 1][1] \div T.unit)..((Min2(T.lb[i + 1][2], T.rows) + T.unit - 1) \div T.unit - 1),
                       c \in T.cb[j + 1][1]..(Min2(T.cb[j + 1][2], T.cols) - 1)}
PackL == /\ Is("packL") /\ Ev[l].i \notin pl /\ pl' = pl \cup {Ev[l].i} /\ UNCHANGED <<pr, run, written>>
PackR == /\ Is("packR") /\ Ev[l].j \notin pr /\ pr' = pr \cup {Ev[l].j} /\ UNCHANGED <<pl, run, written>>
Run == /\ Is("run")
       /\ LET i == Ev[l].i
              j == Ev[l].j
              w == {Ev[l].w[k] : k \in DOMAIN Ev[l].w}
          IN  /\ <<i, j>> \notin run /\ i \in pl /\ j \in pr
              /\ w = Words(i, j)
              /\ w \cap written = {}
              /\ run' = run \cup {<<i, j>>}
              /\ written' = written \cup w
       /\ UNCHANGED <<pl, pr>>
Step == PackL \/ PackR \/ Run
Done == /\ l = Len(Ev) + 1 /\ run = I \X J
        /\ written = 0..(T.srows * T.cols - 1)
TraceNext ==
    \/ Step
    \/ /\ Done /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ UNCHANGED <<h, pl, pr, run, written>>
    \/ /\ Diag /\ l <= Len(Ev) + 1 /\ ~ENABLED Step /\ ~Done
       /\ PrintT(<<"STUCK", h, l, ToJson(IF l <= Len(Ev) /\ Ev[l].e = "run"
              THEN [expected |-> Words(Ev[l].i, Ev[l].j), got |-> Ev[l]] ELSE [step |-> l])>>)
       /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
