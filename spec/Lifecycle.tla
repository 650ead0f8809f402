------------------------------ MODULE Lifecycle ------------------------------
(* Implementation-level model of one LceBconv2d op's caches over its life:     *)
(* Prepare / Eval with one-time setup (transform vectors, padding buffer) and  *)
(* the indirect kernel, which captures the input shape, the input address and  *)
(* the address of the transform vectors.  Abstract shapes are 1..NShapes.      *)
(* ResetKernel = FALSE is the original design (the indirect kernel survives    *)
(* Prepare); TLC then finds the stale-kernel history.                          *)
(* With Emit every complete history is printed; they are replayed on the real  *)
(* ops (spec/LceNodeTrace judges the results).                                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NShapes, MaxLen, ResetKernel, Indirect, Emit
VARIABLES shape, addr, ready, fed, setup, kernel, hist, used
vars == <<shape, addr, ready, fed, setup, kernel, hist, used>>
None == [sh |-> 0, ad |-> 0]
Init == /\ shape = 1 /\ addr = 0 /\ ready = FALSE /\ fed = 0
        /\ setup = FALSE /\ kernel = None /\ hist = <<>> /\ used = None
Room == Len(hist) < MaxLen
Log(e) == hist' = Append(hist, e)
Resize == \E s \in 1..NShapes :
    /\ Room /\ s # shape
    /\ (hist # <<>> => hist[Len(hist)][1] # "resize")
    /\ shape' = s /\ ready' = FALSE /\ fed' = 0
    /\ Log(<<"resize", s>>)
    /\ UNCHANGED <<addr, setup, kernel, used>>
\* AllocateTensors: Prepare, then the arena is laid out afresh
Allocate ==
    /\ Room /\ (hist # <<>> => hist[Len(hist)][1] # "alloc")
    /\ ready' = TRUE /\ addr' = addr + 1 /\ fed' = 0
    /\ setup' = FALSE
    /\ kernel' = IF ResetKernel THEN None ELSE kernel
    /\ Log(<<"alloc", 0>>)
    /\ UNCHANGED <<shape, used>>
Feed == /\ Room /\ ready /\ (hist # <<>> => hist[Len(hist)][1] # "feed")
        /\ fed' = fed + 1
        /\ Log(<<"feed", 0>>)
        /\ UNCHANGED <<shape, addr, ready, setup, kernel, used>>
Invoke ==
    /\ Room /\ ready /\ fed > 0
    /\ setup' = TRUE
    /\ LET k == IF kernel = None THEN [sh |-> shape, ad |-> addr] ELSE kernel
       IN  /\ kernel' = IF Indirect THEN k ELSE None
           /\ used' = IF Indirect THEN k ELSE [sh |-> shape, ad |-> addr]
    /\ Log(<<"invoke", 0>>)
    /\ UNCHANGED <<shape, addr, ready, fed>>
Next == \/ Resize \/ Allocate \/ Feed \/ Invoke
Spec == Init /\ [][Next]_vars
\* What an invocation computed from is what is current: never an earlier
\* shape or address
LastIsInvoke == hist # <<>> /\ hist[Len(hist)][1] = "invoke"
Fresh == LastIsInvoke => used = [sh |-> shape, ad |-> addr]
\* Emission: maximal histories that end in an invocation
Complete == Len(hist) = MaxLen /\ LastIsInvoke
EmitInv == (Emit /\ Complete) => PrintT("HIST " \o ToJson(hist))
=============================================================================
