----------------------------- MODULE ProgramsMC ------------------------------
(* All short command lines, over models that some of the kernels can run.      *)
EXTENDS Programs
VARIABLE good   \* the kernels that can run the model
mcVars == <<net, mem, pc, rows, phase, prog, args, there, runs, told, code, good>>
MCAcceptable == net.kernel \in good
Words == {<<f, "true">> : f \in Lce} \cup {<<"use_indirect_bgemm", "0">>, <<"use_reference_bconv", "maybe">>, <<"verbose", "1">>, <<"graph", "m">>, <<"num_runs", "1">>, <<"--use_indirect_bgemm">>}
Lines == UNION {[1..n -> Words] : n \in 0..4}
Once(a) == \A i, j \in DOMAIN a : i # j /\ Len(a[i]) = 2 => a[i][1] # a[j][1]
Kernels == {"ref", "both", "ind", "bgemm"}
MCInit == /\ good \in {{}, Kernels, {"ref", "both"}, {"ref", "both", "ind"}, {"bgemm"}}
          /\ \E p \in {"benchmark", "minimal"}, t \in BOOLEAN :
               \E a \in IF p = "benchmark" THEN {a \in Lines : Once(a)} ELSE {<<>>, <<<<"m">>>>, <<<<"m">>, <<"m">>>>} :
                   ProgInit(p, a, t, [nodes |-> <<[cfg |-> [op |-> "other"], src |-> <<1>>, dst |-> <<2>>]>>, ins |-> <<1>>, outs |-> <<2>>])
          /\ mem = [t \in 1..2 |-> ""]
MCTell == \E r \in Reports(prog, args) : Tell(r[1], r[2])
Told == {told[i] : i \in DOMAIN told} = Reports(prog, args)
MCNext == /\ \/ MCTell \/ (Told /\ Load(Threads(prog, args))) \/ RunBegin(<<"x">>) \/ RunNode(<<mem[1]>>, <<>>, <<"y">>, <<>>) \/ RunEnd(<<mem[2]>>)
             \/ \E c \in 0..1 : Exit(c)
          /\ UNCHANGED good
MCSpec == MCInit /\ [][MCNext]_mcVars
\* The reference kernel is used if asked for, whatever else is said and wherever
KernelAsAsked ==
    /\ prog = "benchmark" /\ <<"use_reference_bconv", "true">> \in {args[i] : i \in DOMAIN args} => net.kernel \in {"ref", "both"}
    /\ prog # "benchmark" => net.kernel = "bgemm"
    /\ (\A i \in DOMAIN args : args[i] \notin {<<f, "true">> : f \in Lce}) => net.kernel = "bgemm"
\* Nothing is computed with a kernel that cannot; success means all runs were made
NothingUnsupported == pc > 0 \/ runs > 0 => net.kernel \in good /\ there
SuccessMeansDone == code = 0 => runs = Wanted(prog, args) /\ net.kernel \in good /\ there /\ WellFormed(prog, args)
\* A program that is refused its arguments runs nothing
MalformedRunsNothing == ~WellFormed(prog, args) => runs = 0 /\ code # 0
Ends == code = None => ENABLED MCNext
=============================================================================
