---------------------------- MODULE LceNodeTrace ----------------------------
(* Trace checking: every recorded history of the real ops (one line of the     *)
(* file per history) must be a behaviour of LceNode.                           *)
EXTENDS LceNode, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
\* LCE_DIAG = "1": print what the specification expects at the failing step
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"

VARIABLES h, l
vars == <<cfg, phase, shp, data, result, h, l>>

Steps == Trace[h].steps
Here(e) == l <= Len(Steps) /\ Steps[l].e = e /\ l' = l + 1 /\ h' = h
\* per-kernel list of the log -> function on kernel names
PerKernel(v) == [k \in Kernels(cfg) |-> v[CHOOSE i \in DOMAIN cfg.kernels : cfg.kernels[i] = k]]

TraceInit ==
    /\ h \in 1..Len(Trace)
    /\ l = 1
    /\ NodeInit(Trace[h].cfg)

TraceResize == Here("resize") /\ Resize(Steps[l].s)
\* What this history is checked for: "alloc" (acceptance and output shape),
\* "value" (output values; "value1": of one kernel, with agree), "agree" (the kernels' outputs are equal),
\* "near" (they differ by at most one),
\* "writes" (nothing but the output is written), "status".
Judged(x) == \E i \in DOMAIN Trace[h].judge : Trace[h].judge[i] = x
\* A kernel whose allocation fails must say so; one that succeeds must have
\* given its output the right shape.
TraceAllocate ==
    /\ Here("alloc")
    /\ IF Judged("alloc")
       THEN /\ Allocate(PerKernel(Steps[l].ok))
            /\ \A k \in Kernels(cfg) :
                 IF phase'[k] = "ready" THEN PerKernel(Steps[l].os)[k] = OutShape(cfg, shp)
                                        ELSE TRUE
       ELSE Allocated(PerKernel(Steps[l].ok))
TraceFeed == Here("feed") /\ Feed(Steps[l].x)
\* Invocation
TraceInvoke ==
    /\ Here("invoke")
    /\ LET out == PerKernel(Steps[l].y) IN
       /\ Invoked(out)
       /\ Judged("status") => \A k \in Ready : PerKernel(Steps[l].ok)[k]
       /\ Judged("writes") => \A k \in Ready : PerKernel(Steps[l].guards)[k] /\ PerKernel(Steps[l].inputs)[k]
       /\ Judged("agree") => (Agree(out) = TRUE)
       /\ Judged("near") => (Near(out) = TRUE)
       /\ Judged("value1") => Correct(cfg, data, shp, out[CHOOSE k \in Ready : TRUE]) = TRUE
       /\ Judged("value") => \A k \in Ready : Correct(cfg, data, shp, out[k]) = TRUE

\* Registration: exactly the four LCE ops are resolvable, whatever the flags
Registered == {"LceQuantize/1", "LceDequantize/1", "LceBconv2d/1", "LceBMaxPool2d/1"}
TraceNew ==
    /\ Here("new")
    /\ Len(Steps[l].ops) = Len(cfg.kernels)
    /\ \A i \in 1..Len(Steps[l].ops) : {Steps[l].ops[i][j] : j \in DOMAIN Steps[l].ops[i]} = Registered
    /\ UNCHANGED nodeVars

TraceStep == TraceNew \/ TraceResize \/ TraceAllocate \/ TraceFeed \/ TraceInvoke

Expected ==
    IF cfg.op = "bconv" /\ "w" \in DOMAIN cfg /\ data # <<>> THEN ConvExpected(cfg, data, shp)
    ELSE <<>>
Why ==
    CASE Steps[l].e = "alloc" ->
           [expected_ok |-> [k \in Kernels(cfg) |-> Supported(cfg, k, shp)],
            got_ok |-> PerKernel(Steps[l].ok),
            shape |-> IF \E k \in Kernels(cfg) : Supported(cfg, k, shp) THEN OutShape(cfg, shp) ELSE <<>>]
      [] Steps[l].e = "invoke" -> [expected |-> Expected, got |-> Steps[l].y]
      [] OTHER -> [event |-> Steps[l]]

TraceNext ==
    \/ TraceStep
    \/ /\ l = Len(Steps) + 1
       /\ PrintT(<<"ACCEPT", h>>)
       /\ l' = l + 1
       /\ UNCHANGED <<cfg, phase, shp, data, result, h>>
    \/ /\ Diag
       /\ l <= Len(Steps)
       /\ ~ENABLED TraceStep
       /\ PrintT(<<"STUCK", h, l, ToJson(Why)>>)
       /\ FALSE
       /\ UNCHANGED vars

View == <<h, l>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
