---------------------------- MODULE ModelIOTrace -----------------------------
(* Recorded runs of modify_integer_quantized_model_io_type and                 *)
(* strip_lcedequantize_ops: model before, model after (or the error).          *)
EXTENDS ModelIO, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<g, req, h, l>>
TraceInit == h \in 1..Len(Trace) /\ l = 1 /\ g = Trace[h].before /\ req = Trace[h].req
Accept == IF Refused(Trace[h].before, req)
          THEN Trace[h].err = "ValueError"
          ELSE Trace[h].err = "" /\ SameModel(Normal(Trace[h].before, req), Trace[h].after, Trace[h].before)
Check == l = 1 /\ (Accept = TRUE) /\ l' = 2 /\ PrintT(<<"ACCEPT", h>>) /\ UNCHANGED <<g, req, h>>
Why == IF Refused(Trace[h].before, req) THEN [expected |-> "ValueError", got |-> Trace[h].err]
       ELSE [expected |-> "see after", got |-> Trace[h].err, model |-> Normal(Trace[h].before, req), after |-> Trace[h].after]
TraceNext == \/ Check
             \/ Diag /\ l = 1 /\ ~Accept /\ PrintT(<<"STUCK", h, l, ToJson(Why)>>) /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
