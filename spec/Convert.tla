------------------------------- MODULE Convert --------------------------------
(* A conversion request: what the converter asks of TensorFlow (import the      *)
(* model, freeze its variables, quantize, export) on behalf of the caller, and  *)
(* what it does to the model in between.                                        *)
(* A request is [kind, target, quant, range, names, dtypes, shapes, outputs,    *)
(* tags, exported, version, entries, v1, fails, out]; range is <<>> or          *)
(* <<min, max>>; entries has the number of inputs each entry function of the    *)
(* model names (-1: it names none); fails is the stage at which TensorFlow is   *)
(* to fail ("": none); out is what its exporter returns.                        *)
EXTENDS Converter, TLC

Targets == {"arm", "xcore"}
Saved(r) == r.kind = "saved_model"
Quantizes(r) == Saved(r) \/ r.quant
\* requests that cannot be served
Before(r) == IF Saved(r) THEN {"register"} ELSE {"load", "inputs", "outputs"}
Refused(r) == r.target \notin Targets \/ r.fails \in Before(r) \/ (Saved(r) /\ r.exported = <<>>)
NoSuch(r) == r.fails = "import"
Unfit(r) == r.v1 \/ (Saved(r) /\ (Len(r.entries) # 1 \/ \E i \in 1..Len(r.entries) : r.entries[i] < 0))
Breaks(r) == r.fails \in {"pre", "post"} \/ (Saved(r) /\ r.fails = "freeze")
Early(r) == Refused(r) \/ NoSuch(r) \/ Unfit(r) \/ Breaks(r)
Fails(r) == Early(r) \/ r.fails \in {"export", "verify"}
NumInputs(r) == IF Saved(r) THEN r.entries[1] ELSE Len(r.names)

\* what TensorFlow's importer is asked
ShapeOf(d) == [given |-> Len(d) > 0, d |-> d]
ImportFor(r) ==
    IF Saved(r)
    THEN [kind |-> r.kind, dir |-> TRUE, version |-> r.version, tags |-> {r.tags[i] : i \in 1..Len(r.tags)}, exported |-> r.exported, upgrade |-> TRUE, lift |-> TRUE]
    ELSE [kind |-> r.kind, names |-> r.names, dtypes |-> r.dtypes, shapes |-> [i \in 1..Len(r.shapes) |-> ShapeOf(r.shapes[i])],
          outputs |-> r.outputs, prune |-> TRUE, legacy |-> TRUE, asfunc |-> FALSE, upgrade |-> TRUE]
\* its variables are frozen with the model's own session, if there is one
FreezeFor(r) == IF Saved(r) THEN <<r.fails \notin {"nobundle", "nosession"}>> ELSE <<>>
AssetsFor(r) == IF Saved(r) THEN <<TRUE>> ELSE <<>>
\* quantization: to int8, with float inputs of unknown range
QuantizeFor(r) ==
    IF ~Quantizes(r) THEN <<>>
    ELSE <<[type |-> "qint8", input |-> "float", ranges |-> [i \in 1..NumInputs(r) |-> FALSE], post |-> (Saved(r) /\ r.range # <<>>)]>>
DefaultFor(r) == IF Quantizes(r) /\ r.range # <<>> THEN <<[min |-> r.range[1], max |-> r.range[2], signed |-> TRUE]>> ELSE <<>>
ExportFor(r) == [tags |-> (IF Saved(r) THEN {r.tags[i] : i \in 1..Len(r.tags)} ELSE {}), custom |-> TRUE, select |-> FALSE, stablehlo |-> FALSE]
\* names the exporter is given ([own, used]): an op's own, cut after 50 characters, made unique
Cut(s) == IF Len(s) > 50 THEN SubSeq(s, 1, 50) ELSE s
NamesOK(s) ==
    /\ \A i, j \in 1..Len(s) : i # j => s[i].used # s[j].used
    /\ \A i \in 1..Len(s) : s[i].used = Cut(s[i].own) \/ \E k \in 1..Len(s) : s[i].used = Cut(s[i].own) \o ToString(k)

----------------------------------------------------------------------------
(* The program that gets exported                                               *)
LceLeft(g) == \E k \in 1..Len(g.ops) : g.ops[k].n \in {"lq.Quantize", "lq.Dequantize", "lq.Bconv2d", "lq.BMaxPool2d"}
PackedConv(N, v) == LET c == OpOf(N, v) IN
    /\ c.n = "lq.Bconv2d" /\ Once(N, v) /\ c.o[1].k = "f32" /\ IsConst(N, c.i[2]) /\ ConstF32(N, c.i[3]) /\ ConstF32(N, c.i[4])
BinaryOutputAtEnd(N, op) ==
    /\ op.n = "lq.Quantize" /\ PackedConv(N, op.i[1])
    /\ LET c == OpOf(N, op.i[1]) IN
       /\ OpOf(N, c.i[5]).n = "tfl.no_value"
       /\ c.a.padding = "VALID" \/ c.a.pad_values = 1
ConstLeft(N, op) ==
    \/ op.n = "lq.Quantize" /\ ConstF32(N, op.i[1])
    \/ op.n = "lq.Dequantize" /\ op.o[1].k = "f32" /\ IsConst(N, op.i[1])
\* g: the program with its LCE ops spelled out
Finished(g, r, S) ==
    LET N == Nav(g, S) IN
    /\ NFPrepare(N, r.target) /\ NFOptimize(N, r.target) /\ NFBitpack(N) /\ NFFusePadding(N) /\ NFOpRemoval(N)
    /\ \A k \in 1..Len(g.ops) : ~BinaryOutputAtEnd(N, g.ops[k]) /\ ~ConstLeft(N, g.ops[k])
    /\ Quantizes(r) => NFQuantize(N) /\ NFDetection(N)
    /\ r.target # "arm" => Pools(g) = 0

----------------------------------------------------------------------------
\* stage: "asked", "imported", "loaded", "exporting", "returned", "failed"
VARIABLES req, stage
convvars == <<cvars, req, stage>>
NoGraph == [args |-> <<>>, sig |-> <<>>, ret |-> <<>>, ops |-> <<>>, outs |-> <<>>]
ConvertInit(r) == req = r /\ stage = "asked" /\ ConvInit(NoGraph)
AskImport(i) == stage = "asked" /\ i = ImportFor(req) /\ stage' = "imported" /\ UNCHANGED <<cvars, req>>
\* for batches of one
Load(g, S, xss) == /\ stage = "imported" /\ ~NoSuch(req)
                   /\ LET g1 == AtOne(g) m == Means(g1, S, xss) IN WellFormed(m) = TRUE /\ graph' = g1 /\ mean' = m
                   /\ stage' = "loaded" /\ UNCHANGED <<req, ran>>
\* default quantization ranges change what is computed
Default(before, after, S, xss) ==
    /\ stage = "loaded" /\ DefaultFor(req) # <<>> /\ ran = <<>>
    /\ Sig(after) = Sig(graph) /\ Sig(before) = Sig(graph)
    /\ (Means(before, S, xss) = mean) = TRUE
    /\ LET m == Means(after, S, xss) IN WellFormed(m) = TRUE /\ mean' = m
    /\ graph' = after /\ ran' = <<"default">> /\ UNCHANGED <<req, stage>>
Export(o, names, kernel, g, S, xss) ==
    /\ stage = "loaded" /\ ~Refused(req) /\ ~Unfit(req) /\ ~Breaks(req)
    /\ (DefaultFor(req) # <<>>) = (ran = <<"default">>)
    /\ o = ExportFor(req)
    /\ NamesOK(names)
    /\ ~LceLeft(kernel)
    /\ Sig(g) = Sig(graph) /\ Coherent(g)
    /\ (Means(g, S, xss) = mean) = TRUE
    /\ Finished(g, req, S) = TRUE
    /\ graph' = g /\ stage' = "exporting" /\ UNCHANGED <<req, ran, mean>>
Return(out) == stage = "exporting" /\ ~Fails(req) /\ out = req.out /\ stage' = "returned" /\ UNCHANGED <<cvars, req>>
Fail == stage \in {"asked", "imported", "loaded", "exporting"} /\ Fails(req) /\ (Early(req) \/ stage = "exporting") /\ stage' = "failed" /\ UNCHANGED <<cvars, req>>
=============================================================================
