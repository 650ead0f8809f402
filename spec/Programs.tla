------------------------------ MODULE Programs ------------------------------
(* The programs that ship with the engine: the benchmark tool, the minimal     *)
(* example, and the resolver of the Java binding.  Each reads its arguments,   *)
(* chooses the convolution kernel they ask for, runs the model (Network) and   *)
(* says whether that worked.                                                   *)
EXTENDS Network
VARIABLES
    prog,   \* "benchmark" | "minimal" | "jni"
    args,   \* arguments: <<flag, value>> for --flag=value, <<word>> for anything else
    there,  \* the model file exists
    runs,   \* completed invocations
    told,   \* parameters reported: <<name, value>>, in order
    code    \* exit code, None while it runs
progVars == <<prog, args, there, runs, told, code>>

None == 0 - 1
Lce == {"use_reference_bconv", "use_indirect_bgemm"}
Bools == Lce \cup {"verbose"}
Yes == {"true", "1"}
No == {"false", "0"}
Given(a, f) == \E i \in DOMAIN a : Len(a[i]) = 2 /\ a[i][1] = f
Value(a, f) == a[CHOOSE i \in DOMAIN a : Len(a[i]) = 2 /\ a[i][1] = f][2]
On(a, f) == Given(a, f) /\ Value(a, f) \in Yes
Number(a, f, default) == IF ~Given(a, f) THEN default
                         ELSE CHOOSE n \in 0..16 : ToString(n) = Value(a, f)
\* The arguments make sense to the program
WellFormed(p, a) ==
    IF p = "benchmark"
    THEN /\ \A i \in DOMAIN a : IF Len(a[i]) = 2 THEN a[i][1] \in Bools => a[i][2] \in Yes \cup No
                                ELSE a[i][1] \notin {"--use_reference_bconv", "--use_indirect_bgemm", "--verbose"}
         /\ Given(a, "graph")
    ELSE Len(a) = 1
\* The reference kernel wins; the optimized one is the default
Kernel(p, a) ==
    IF p # "benchmark" THEN "bgemm"
    ELSE IF On(a, "use_reference_bconv") THEN IF On(a, "use_indirect_bgemm") THEN "both" ELSE "ref"
    ELSE IF On(a, "use_indirect_bgemm") THEN "ind" ELSE "bgemm"
Wanted(p, a) == IF p = "benchmark" THEN Number(a, "num_runs", 2) ELSE IF p = "jni" THEN 2 ELSE 1
Threads(p, a) == IF p = "benchmark" THEN Number(a, "num_threads", 0 - 1) ELSE 0 - 1
\* What the benchmark reports about its parameters: those given, and all in verbose mode
Reports(p, a) ==
    IF p # "benchmark" \/ ~WellFormed(p, a) THEN {}
    ELSE {<<f, IF On(a, f) THEN "true" ELSE "false">> : f \in {f \in Lce : Given(a, f) \/ On(a, "verbose")}}
         \cup (IF Given(a, "num_threads") THEN {<<"num_threads", Value(a, "num_threads")>>} ELSE {})
         \cup {<<"graph", "text">>}

Running == WellFormed(prog, args) /\ there
ProgInit(p, a, t, n) == /\ prog = p /\ args = a /\ there = t /\ runs = 0 /\ told = <<>> /\ code = None
                        /\ net = [nodes |-> n.nodes, ins |-> n.ins, outs |-> n.outs, kernel |-> Kernel(p, a)]
                        /\ pc = 0 /\ rows = <<>> /\ phase = "new"
Tell(name, value) == /\ code = None
                     /\ \A i \in DOMAIN told : told[i][1] # name
                     /\ told' = Append(told, <<name, value>>)
                     /\ UNCHANGED <<prog, args, there, runs, code, net, mem, pc, rows, phase>>
\* The model is loaded, and accepted if the chosen kernel can run it
Load(threads) == /\ Running /\ code = None /\ threads = Threads(prog, args)
                 /\ Construct(Acceptable)
                 /\ UNCHANGED progVars
RunBegin(x) == runs < Wanted(prog, args) /\ code = None /\ Begin(x) /\ UNCHANGED progVars
RunNode(x, xv, y, yv) == Node(x, xv, y, yv) /\ UNCHANGED progVars
RunEnd(y) == Finish(y) /\ runs' = runs + 1 /\ UNCHANGED <<prog, args, there, told, code>>
Success == Running /\ phase = "ready" /\ pc = 0 /\ runs = Wanted(prog, args)
Failure == ~Running \/ phase = "refused"
Exit(c) == /\ code = None /\ pc = 0
           /\ \/ Success /\ c = 0
              \/ Failure /\ c > 0
           /\ {told[i] : i \in DOMAIN told} = Reports(prog, args)
           /\ code' = c
           /\ UNCHANGED <<prog, args, there, runs, told, net, mem, pc, rows, phase>>
=============================================================================
