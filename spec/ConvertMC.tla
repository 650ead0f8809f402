------------------------------ MODULE ConvertMC ------------------------------
(* Every conversion request of a small family is carried through or refused,    *)
(* whatever fails on the way.                                                   *)
EXTENDS Convert
T == [k |-> "f32", d |-> <<1, 2>>, q |-> [sn |-> 0, sd |-> 1, zp |-> 0, lo |-> 0, hi |-> 0]]
G == [args |-> <<T>>, sig |-> <<T>>, ret |-> <<T>>, ops |-> <<>>, outs |-> <<1>>]
S == 4
Stages == {"", "register", "load", "inputs", "outputs", "import", "nobundle", "nosession", "pre", "freeze", "post", "export", "verify"}
Reqs == [kind : {"graphdef", "saved_model"}, target : {"arm", "xcore", "x86"}, quant : BOOLEAN, range : {<<>>, <<"lo", "hi">>},
         names : {<<"x">>}, dtypes : {<<"DT_FLOAT">>}, shapes : {<< <<1, 2>> >>}, outputs : {<<"y">>}, tags : {<<"serve">>},
         exported : {<<>>, <<"serving_default">>}, version : {1}, entries : {<<1>>, <<>>, <<-1>>, <<1, 1>>}, v1 : BOOLEAN, fails : Stages, out : {"00"}]
Init == \E r \in Reqs : ConvertInit(r)
Next ==
    \/ AskImport(ImportFor(req))
    \/ Load(G, S, << << <<4, -8>> >> >>)
    \/ Default(G, G, S, << << <<4, -8>> >> >>)
    \/ Export(ExportFor(req), <<[own |-> "a", used |-> "a"]>>, G, G, S, << << <<4, -8>> >> >>)
    \/ Return(req.out)
    \/ Fail
Spec == Init /\ [][Next]_convvars /\ WF_convvars(Next)
Sound == /\ stage = "returned" => ~Fails(req)
         /\ stage = "failed" => Fails(req)
         /\ stage = "exporting" => ~Early(req)
Decided == <>[](stage = IF Fails(req) THEN "failed" ELSE "returned")
==============================================================================
