--------------------------- MODULE ConverterTrace ----------------------------
(* Recorded runs of the real passes: a history is a sequence of graphs, the     *)
(* first given to the first pass, each next one a pass's result.                *)
EXTENDS Converter, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<graph, ran, mean, h, l>>
H == Trace[h]
TraceInit == h \in 1..Len(Trace) /\ l = 0 /\ ConvInit(Trace[h].g[1])
Given == l = 0 /\ Start(H.S, H.xs) /\ l' = 1 /\ h' = h
GivenBad == /\ Diag /\ l = 0 /\ ~WellFormed(Means(graph, H.S, H.xs))
            /\ PrintT(<<"STUCK", h, 0, ToJson([why |-> Means(graph, H.S, H.xs)])>>) /\ FALSE /\ UNCHANGED vars
TracePass == /\ l >= 1 /\ l <= Len(H.p)
             /\ H.ok[l] /\ Len(H.g) > l
             /\ PassTo(H.p[l], H.g[l + 1], H.S, H.xs)
             /\ l' = l + 1 /\ h' = h
Why == IF ~H.ok[l] THEN "the pass failed"
       ELSE IF Sig(H.g[l + 1]) # Sig(graph) \/ ~Coherent(H.g[l + 1]) THEN "signature changed"
       ELSE IF \E i \in 1..Len(H.xs) : Meaning(H.g[l + 1], H.S, H.xs[i])[1] # "ok"
            THEN "not well-formed: " \o (CHOOSE m \in {Meaning(H.g[l + 1], H.S, H.xs[i])[2] : i \in 1..Len(H.xs)} : TRUE)
       ELSE IF Means(H.g[l + 1], H.S, H.xs) # mean THEN "computes something else"
       ELSE "not in the pass's normal form"
TraceNext ==
    \/ Given \/ GivenBad \/ TracePass
    \/ l = Len(H.p) + 1 /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ UNCHANGED <<graph, ran, mean, h>>
    \/ Diag /\ l >= 1 /\ l <= Len(H.p) /\ ~ENABLED TracePass
       /\ PrintT(<<"STUCK", h, l, ToJson([why |-> Why, pass |-> H.p[l]])>>)
       /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
