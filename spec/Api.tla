--------------------------------- MODULE Api ----------------------------------
(* A call of the converter's Python API, convert_keras_model or                 *)
(* convert_saved_model: which calls are refused, which conversion requests      *)
(* (Convert) a call makes, and what the caller gets.                            *)
(* A call c is [api, model, mixed, eager, there, version, in, out, target,      *)
(* range, inputs, nout, fq]: is the argument a Keras model, one of mixed        *)
(* precision; is execution eager; does the SavedModel exist, its format         *)
(* version; inference types; range <<>> or <<min, max>>; the model's inputs     *)
(* [dtype, dims] (-1: unknown) and number of outputs; has it training-time      *)
(* quantization.                                                                *)
EXTENDS Convert

Keras(c) == c.api = "keras"
IoTypes == {"float32", "int8"}
BadValue(c) == c.in \notin IoTypes \/ c.out \notin IoTypes \/ c.target \notin Targets
               \/ (Keras(c) /\ (~c.model \/ c.mixed))
               \/ (~Keras(c) /\ c.there /\ c.version \notin {1, 2})
Servable(c) == ~BadValue(c) /\ c.eager /\ (Keras(c) \/ c.there)
Refusals(c) == (IF BadValue(c) THEN {"ValueError"} ELSE {})
               \cup (IF ~c.eager THEN {"RuntimeError"} ELSE {})
               \cup (IF ~Keras(c) /\ ~c.there THEN {"OSError"} ELSE {})
Wants8(c) == c.in = "int8" \/ c.out = "int8"

\* the requests a call makes: first that of a SavedModel
SavedRequest(c, r) ==
    /\ r.kind = "saved_model" /\ {r.tags[i] : i \in 1..Len(r.tags)} = {"serve"} /\ r.exported = <<"serving_default">>
    /\ r.version = c.version /\ r.target = c.target /\ r.range = c.range
\* for a Keras model then, failing that, that of its graph.  pos: which input of
\* the model each input named in the request is.
Dynamic(c) == \E i \in 1..Len(c.inputs) : \E j \in 2..Len(c.inputs[i].dims) : c.inputs[i].dims[j] < 0
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
One(d) == [j \in 1..Len(d) |-> IF j = 1 /\ d[j] < 0 THEN 1 ELSE d[j]]
QuantizesGraph(c) == c.fq \/ c.range # <<>>
GraphRequest(c, r, pos) ==
    /\ r.kind = "graphdef" /\ r.target = c.target /\ r.range = c.range /\ r.quant = QuantizesGraph(c)
    /\ Len(r.names) = Len(c.inputs) /\ Distinct(r.names)
    /\ Len(pos) = Len(c.inputs) /\ {pos[i] : i \in 1..Len(pos)} = 1..Len(c.inputs)
    /\ Len(r.dtypes) = Len(pos) /\ Len(r.shapes) = Len(pos)
    /\ \A i \in 1..Len(pos) : r.dtypes[i] = c.inputs[pos[i]].dtype /\ r.shapes[i] = One(c.inputs[pos[i]].dims)
    /\ Len(r.outputs) = c.nout /\ Distinct(r.outputs)

----------------------------------------------------------------------------
(* phase: "called", "converting", "again" (the SavedModel could not be          *)
(* converted), "done".                                                          *)
VARIABLES call, phase
apivars == <<convvars, call, phase>>
NoRequest == [kind |-> "none"]
ApiInit(c) == call = c /\ phase = "called" /\ ConvertInit(NoRequest)
Attempt(r) == req' = r /\ stage' = "asked" /\ graph' = NoGraph /\ ran' = <<>> /\ mean' = <<>> /\ phase' = "converting" /\ UNCHANGED call
\* io: what the exported bytes r.out are with the inference types asked for ("refused": they cannot have them)
Modified == Wants8(call) /\ (Saved(req) \/ req.quant)
Unmodifiable(io) == stage = "returned" /\ Modified /\ io = "refused"
Failed(io) == stage = "failed" \/ Unmodifiable(io)
Refuse(err) == phase = "called" /\ ~Servable(call) /\ err \in Refusals(call) /\ phase' = "done" /\ UNCHANGED <<convvars, call>>
First(r) == phase = "called" /\ Servable(call) /\ SavedRequest(call, r) /\ Attempt(r)
Second(r, pos, io) == /\ phase = "converting" /\ Failed(io) /\ Keras(call) /\ Saved(req)
                      /\ ~Dynamic(call) /\ GraphRequest(call, r, pos) /\ Attempt(r)
\* the caller's result, and warnings: dummy ranges were used, the graph had to do
Deliver(out, io, dummy, fallback) ==
    /\ phase = "converting" /\ stage = "returned" /\ ~Unmodifiable(io)
    /\ out = IF Modified THEN io ELSE req.out
    /\ dummy = (call.range # <<>>) /\ fallback = ~Saved(req) 
    /\ phase' = "done" /\ UNCHANGED <<convvars, call>>
Raise(err, io) ==
    /\ phase = "converting" /\ Failed(io)
    /\ (Keras(call) /\ Saved(req)) => Dynamic(call) /\ err = "ValueError"
    /\ Unmodifiable(io) => err = "ValueError"
    /\ phase' = "done" /\ UNCHANGED <<convvars, call>>

(* The imported program computes the model's predictions: ys has, per sample,   *)
(* the values of the model's outputs (in some order).  Compared only where all  *)
(* ops are ones the specification interprets.                                   *)
Interpreted == Const \cup Arith \cup Cmp \cup Un \cup Select \cup Ident \cup
    {"tf.LogicalNot", "tf.BroadcastTo", "tf.Shape", "tf.Transpose", "tf.IdentityN", "tf.FusedBatchNormV3", "tf.BiasAdd", "tf.FakeQuantWithMinMaxArgs",
     "tf.Conv2D", "tf.DepthwiseConv2dNative", "tf.Pad", "tf.PadV2", "tf.MaxPool", "tf.Reshape", "tf.MatMul", "tf.ConcatV2", "tf.Mean", "tf.Max", "tf.Cast", "tf.AvgPool", "tf.Rsqrt", "tf.Pack", "tf.StridedSlice"}
AllInterpreted(g) == \A k \in 1..Len(g.ops) : g.ops[k].n \in Interpreted
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Predicts(m, ys) == \E p \in Perms(call.nout) :
    \A i \in 1..Len(ys) : m[i] = <<"ok", [j \in 1..call.nout |-> ys[i][p[j]]]>>
=============================================================================
