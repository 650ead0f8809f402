------------------------------- MODULE ApiTrace -------------------------------
(* Recorded calls of the converter's Python API.                                *)
EXTENDS Api, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.LCE_TRACE)
Diag == "LCE_DIAG" \in DOMAIN IOEnv /\ IOEnv.LCE_DIAG = "1"
VARIABLES h, l, k
\* k: the conversion of the call that is under way
vars == <<apivars, h, l, k>>
H == Trace[h]
TraceInit == h \in 1..Len(Trace) /\ l = 0 /\ k = 0 /\ ApiInit(Trace[h].call)
Ev == H.e[l + 1]
Is(n) == l < Len(H.e) /\ Ev.e = n
C == H.conv[k]
ImportRec(i) == IF i.kind = "saved_model" THEN [i EXCEPT !.tags = {i.tags[j] : j \in 1..Len(i.tags)}] ELSE i
ExportRec(o) == [o EXCEPT !.tags = {o.tags[j] : j \in 1..Len(o.tags)}]
Config == /\ C.freeze = FreezeFor(req) /\ C.assets = AssetsFor(req)
          /\ C.quantize = QuantizeFor(req) /\ C.default = DefaultFor(req)
          /\ C.layout = <<"NHWC">>
Io == IF k = 0 THEN "refused" ELSE C.io
TFirst == Is("request") /\ First(H.conv[Ev.k].req) /\ k' = Ev.k
TSecond == Is("request") /\ Second(H.conv[Ev.k].req, H.conv[Ev.k].pos, Io) /\ k' = Ev.k
Here == k' = k /\ UNCHANGED <<call, phase>>
TImport == Is("import") /\ phase = "converting" /\ AskImport(ImportRec(Ev.a)) /\ Here
TLoad == /\ Is("module") /\ phase = "converting" /\ Load(Ev.g, H.S, C.xs) /\ Here
         /\ (H.ys # <<>> /\ AllInterpreted(Ev.g)) => Predicts(mean', H.ys)
TDefault == Is("default") /\ phase = "converting" /\ Default(Ev.before, Ev.g, H.S, C.xs) /\ Here
TExport == Is("export") /\ phase = "converting" /\ Config /\ Export(ExportRec(Ev.a), Ev.names, Ev.kernel, Ev.g, H.S, C.xs) /\ Here
TReturn == Is("return") /\ phase = "converting" /\ Return(Ev.out) /\ Here
TFail == Is("error") /\ phase = "converting" /\ Fail /\ Here
TDeliver == Is("deliver") /\ Deliver(Ev.out, Io, Ev.dummy, Ev.fallback) /\ k' = k
TRaise == Is("raise") /\ Raise(Ev.err, Io) /\ k' = k
TRefuse == Is("raise") /\ Refuse(Ev.err) /\ k' = k
Step1 == TFirst \/ TSecond \/ TImport \/ TLoad \/ TDefault \/ TExport \/ TReturn \/ TFail \/ TDeliver \/ TRaise \/ TRefuse
\* nothing else happened: the caller's model is as it was, no files are left
Clean == H.intact /\ H.left = 0
Why == IF l >= Len(H.e) THEN (IF ~Clean THEN "leaves traces" ELSE "ended early")
       ELSE IF Ev.e = "module" THEN
            (IF \E i \in 1..Len(C.xs) : Meaning(AtOne(Ev.g), H.S, C.xs[i])[1] # "ok"
             THEN "import: not well-formed: " \o (CHOOSE m \in {Meaning(AtOne(Ev.g), H.S, C.xs[i])[2] : i \in 1..Len(C.xs)} : TRUE)
             ELSE "import: is not the model: " \o ToJson(<<[i \in 1..Len(C.xs) |-> Meaning(AtOne(Ev.g), H.S, C.xs[i])[2]], H.ys>>))
       ELSE IF Ev.e # "export" THEN Ev.e
       ELSE IF ~Config THEN "export: configuration of quantization, freezing, assets or layout"
       ELSE IF ExportRec(Ev.a) # ExportFor(req) \/ ~NamesOK(Ev.names) THEN "export: options"
       ELSE IF LceLeft(Ev.kernel) THEN "export: LCE ops left"
       ELSE IF Sig(Ev.g) # Sig(graph) \/ ~Coherent(Ev.g) THEN "export: signature"
       ELSE IF \E i \in 1..Len(C.xs) : Meaning(Ev.g, H.S, C.xs[i])[1] # "ok" THEN "export: not well-formed"
       ELSE IF Means(Ev.g, H.S, C.xs) # mean THEN "export: computes something else"
       ELSE "export: not finished"
TraceNext ==
    \/ Step1 /\ l' = l + 1 /\ h' = h
    \/ l = Len(H.e) /\ phase = "done" /\ Clean /\ PrintT(<<"ACCEPT", h>>) /\ l' = l + 1 /\ phase' = "over" /\ UNCHANGED <<convvars, call, h, k>>
    \/ Diag /\ phase # "over" /\ ~ENABLED Step1 /\ ~(phase = "done" /\ l = Len(H.e) /\ Clean)
       /\ PrintT(<<"STUCK", h, l, ToJson([why |-> Why, call |-> call])>>)
       /\ FALSE /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
