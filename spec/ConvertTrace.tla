----------------------------- MODULE ConvertTrace -----------------------------
(* Recorded conversions through the extension's entry points.                   *)
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l
vars == <<convvars, h, l>>
H == Trace[h]
TraceInit == h \in 1..Len(Trace) /\ l = 0 /\ ConvertInit(Trace[h].req)
ImportRec(i) == IF i.kind = "saved_model" THEN [i EXCEPT !.tags = {i.tags[j] : j \in 1..Len(i.tags)}] ELSE i
ExportRec(o) == [o EXCEPT !.tags = {o.tags[j] : j \in 1..Len(o.tags)}]
\* H.e: the events, in order
Ev == H.e[l + 1]
Is(n) == l < Len(H.e) /\ Ev.e = n
Config == /\ H.freeze = FreezeFor(req) /\ H.assets = AssetsFor(req)
          /\ H.quantize = QuantizeFor(req) /\ H.default = DefaultFor(req)
          /\ H.layout = <<"NHWC">>
TImport == Is("import") /\ AskImport(ImportRec(Ev.a))
TLoad == Is("module") /\ Load(Ev.g, H.S, H.xs)
TDefault == Is("default") /\ Default(Ev.before, Ev.g, H.S, H.xs)
TExport == Is("export") /\ Config /\ Export(ExportRec(Ev.a), Ev.names, Ev.kernel, Ev.g, H.S, H.xs)
TReturn == Is("return") /\ Return(Ev.out)
TFail == Is("error") /\ Fail
Step1 == TImport \/ TLoad \/ TDefault \/ TExport \/ TReturn \/ TFail
Why == IF l >= Len(H.e) THEN "ended early"
       ELSE IF Ev.e # "export" THEN Ev.e
       ELSE IF ~Config THEN "export: configuration of quantization, freezing, assets or layout"
       ELSE IF ExportRec(Ev.a) # ExportFor(req) \/ ~NamesOK(Ev.names) THEN "export: options"
       ELSE IF LceLeft(Ev.kernel) THEN "export: LCE ops left"
       ELSE IF Sig(Ev.g) # Sig(graph) \/ ~Coherent(Ev.g) THEN "export: signature"
       ELSE IF \E i \in 1..Len(H.xs) : Meaning(Ev.g, H.S, H.xs[i])[1] # "ok"
            THEN "export: not well-formed: " \o (CHOOSE m \in {Meaning(Ev.g, H.S, H.xs[i])[2] : i \in 1..Len(H.xs)} : TRUE)
       ELSE IF Means(Ev.g, H.S, H.xs) # mean THEN "export: computes something else"
       ELSE "export: not finished"
TraceNext ==
    \/ Step1 /\ l' = l + 1 /\ h' = h
    \/ l = Len(H.e) /\ stage \in {"returned", "failed"} /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ UNCHANGED <<convvars, h>>
    \/ Diag /\ l <= Len(H.e) /\ stage \notin {"returned", "failed"} /\ ~ENABLED Step1
       /\ PrintT(<<"STUCK", h, l, ToJson([why |-> Why, req |-> req])>>)
       /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
