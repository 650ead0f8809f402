------------------------------- MODULE ApiMC ---------------------------------
(* Every call of the Python API of a small family is refused, served, or fails; *)
(* a conversion is abstracted to its outcome.                                   *)
EXTENDS Api
VARIABLE result
vars == <<apivars, result>>
In == {"float32", "int8", "uint8"}
Calls == {[api |-> a, model |-> m, mixed |-> FALSE, eager |-> e, there |-> t, version |-> v, in |-> i, out |-> o, target |-> g,
           range |-> r, inputs |-> <<[dtype |-> "DT_FLOAT", dims |-> d]>>, nout |-> 1, fq |-> f] :
             a \in {"keras", "saved_model"}, m \in BOOLEAN, e \in BOOLEAN, t \in BOOLEAN, v \in {1, 3}, i \in In, o \in {"float32", "int8"},
             g \in {"arm", "x86"}, r \in {<<>>, <<"lo", "hi">>}, d \in {<<-1, 2>>, <<-1, -1>>}, f \in BOOLEAN}
Saved1(c) == [kind |-> "saved_model", target |-> c.target, quant |-> TRUE, range |-> c.range, names |-> <<>>, dtypes |-> <<>>, shapes |-> <<>>, outputs |-> <<>>,
              tags |-> <<"serve">>, exported |-> <<"serving_default">>, version |-> c.version, entries |-> <<1>>, v1 |-> FALSE, fails |-> "", out |-> "saved"]
Graph1(c) == [kind |-> "graphdef", target |-> c.target, quant |-> QuantizesGraph(c), range |-> c.range, names |-> <<"x">>, dtypes |-> <<"DT_FLOAT">>,
              shapes |-> <<One(c.inputs[1].dims)>>, outputs |-> <<"y">>, tags |-> <<>>, exported |-> <<>>, version |-> 0, entries |-> <<1>>, v1 |-> FALSE, fails |-> "", out |-> "graph"]
Io == {"saved8", "graph8", "refused"}
Nothing == [e |-> "nothing"]
Init == (\E c \in Calls : ApiInit(c)) /\ result = Nothing
\* a conversion succeeds or fails
Outcome == /\ phase = "converting" /\ stage = "asked" /\ stage' \in {"returned", "failed"}
           /\ UNCHANGED <<req, graph, ran, mean, call, phase, result>>
Next ==
    \/ \E e \in {"ValueError", "RuntimeError", "OSError"} : Refuse(e) /\ result' = [e |-> e]
    \/ First(Saved1(call)) /\ result' = result
    \/ \E io \in Io : Second(Graph1(call), <<1>>, io) /\ result' = result
    \/ Outcome
    \/ \E out \in {"saved", "graph"} \cup Io, io \in Io, d \in BOOLEAN, f \in BOOLEAN :
         Deliver(out, io, d, f) /\ result' = [e |-> "ok", out |-> out, dummy |-> d, fallback |-> f]
    \/ \E e \in {"ValueError", "RuntimeError", "OSError"}, io \in Io : Raise(e, io) /\ result' = [e |-> e]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound ==
    /\ phase = "done" => result # Nothing
    \* nothing is converted for a call that is refused, and it is always refused
    /\ ~Servable(call) => stage = "asked" /\ req.kind = "none" /\ (phase = "done" => result.e \in Refusals(call))
    \* what a caller gets has the types that were asked for, where it is quantized, and nothing unquantized is altered
    /\ (phase = "done" /\ result.e = "ok") =>
        /\ stage = "returned" /\ (result.out \in {"saved8", "graph8"}) = Modified /\ result.out # "refused"
        /\ result.fallback => Keras(call) /\ ~Dynamic(call)
        /\ (Wants8(call) /\ result.out = "graph") => ~call.fq /\ call.range = <<>>
        /\ result.dummy = (call.range # <<>>)
    /\ phase = "converting" /\ ~Saved(req) => Keras(call) /\ ~Dynamic(call)
Decided == <>[](phase = "done")
==============================================================================
