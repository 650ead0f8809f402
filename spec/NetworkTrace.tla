---------------------------- MODULE NetworkTrace -----------------------------
(* Recorded predictions of models of LCE ops must be behaviours of Network.    *)
EXTENDS Network, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<net, mem, pc, rows, phase, h, l>>
Steps == Trace[h].steps
S == Steps[l]
Here(e) == l <= Len(Steps) /\ S.e = e /\ l' = l + 1 /\ h' = h
TraceInit == /\ h \in 1..Len(Trace) /\ l = 1
             /\ net = Trace[h].net /\ mem = [t \in 1..Trace[h].tensors |-> ""]
             /\ pc = 0 /\ rows = <<>> /\ phase = "new"
\* The reported shapes of the model's outputs are the ops' output shapes
ShapeOf(t) == LET k == CHOOSE k \in DOMAIN net.nodes : \E i \in DOMAIN net.nodes[k].dst : net.nodes[k].dst[i] = t
              IN OutShape(net.nodes[k].cfg, net.nodes[k].cfg.in[1].s)
Produced(t) == \E k \in DOMAIN net.nodes : IsLce(net.nodes[k]) /\ \E i \in DOMAIN net.nodes[k].dst : net.nodes[k].dst[i] = t
TConstruct == /\ Here("built") /\ Construct(S.ok)
              /\ S.ok => \A j \in DOMAIN net.outs : Produced(net.outs[j]) => S.shapes[j] = ShapeOf(net.outs[j])
TBegin == Here("begin") /\ S.x = S.fed /\ Begin(S.x)
TNode == Here("node") /\ S.ok /\ S.guards /\ S.k = pc /\ Node(S.x, S.xv, S.y, S.yv)
TEnd == Here("end") /\ Finish(S.y)
TPredicted == Here("result") /\ S.err = "" /\ Predicted(S.res)
TraceStep == TConstruct \/ TBegin \/ TNode \/ TEnd \/ TPredicted
Why == [event |-> S, acceptable |-> Acceptable, node |-> IF pc \in DOMAIN net.nodes THEN net.nodes[pc] ELSE [none |-> 0], kernel |-> net.kernel]
TraceNext ==
    \/ TraceStep
    \/ /\ l = Len(Steps) + 1 /\ pc = 0 /\ rows = <<>>
       /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ UNCHANGED <<net, mem, pc, rows, phase, h>>
    \/ /\ Diag /\ l <= Len(Steps) /\ ~ENABLED TraceStep
       /\ PrintT(<<"STUCK", h, l, ToJson(Why)>>) /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<h, l>>
=============================================================================
