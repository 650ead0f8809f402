------------------------------ MODULE LceNode ------------------------------
(* One larq compute-engine op under the TF Lite interpreter, for every kernel  *)
(* that implements it side by side: created from its custom options, its input *)
(* resized, allocated (Prepare), fed and invoked, any number of times.         *)
EXTENDS LceSupport

\* Kernels are named by the registration that selects them: "ref", "bgemm" (the
\* default), "ind", and "both" (both flags set: the reference kernel wins).
VARIABLES cfg,     \* options, tensor types, weights: fixed at creation
          phase,   \* [kernel -> "init" | "ready" | "stale" | "failed"]
          shp,     \* current shape of input 0
          data,    \* current contents of input 0 (<<>>: not fed since allocation)
          result   \* [kernel -> output of the last invocation]
nodeVars == <<cfg, phase, shp, data, result>>

Kernels(c) == Range(c.kernels)

----------------------------------------------------------------------------
(* Actions                                                                     *)
NodeInit(c) ==
    /\ cfg = c
    /\ phase = [k \in Kernels(c) |-> "init"]
    /\ shp = c.in[1].s
    /\ data = <<>>
    /\ result = [k \in Kernels(c) |-> <<>>]

\* The application resizes input 0; every kernel must be allocated again.
Resize(s) ==
    /\ shp' = s
    /\ data' = <<>>
    /\ phase' = [k \in DOMAIN phase |-> IF phase[k] = "failed" THEN "failed" ELSE "stale"]
    /\ UNCHANGED <<cfg, result>>

\* AllocateTensors: ok[k] is the reported status.  Buffers move: contents are lost.
Allocated(ok) ==
    /\ phase' = [k \in DOMAIN phase |-> IF ok[k] THEN "ready" ELSE "failed"]
    /\ data' = <<>>
    /\ UNCHANGED <<cfg, shp, result>>
Allocate(ok) ==
    /\ \A k \in DOMAIN phase : ok[k] = Supported(cfg, k, shp)
    /\ Allocated(ok)

Feed(x) ==
    /\ \E k \in DOMAIN phase : phase[k] = "ready"
    /\ data' = x
    /\ UNCHANGED <<cfg, phase, shp, result>>

\* All ready kernels are invoked on the same contents; out[k] is what each wrote.
Ready == {k \in DOMAIN phase : phase[k] = "ready"}
Agree(out) == \A j, k \in Ready : out[k] = out[j]
\* int8 results on an exact tie may be rounded either way: agreement up to one step
Near(out) == \A j, k \in Ready : /\ Len(out[k]) = Len(out[j])
                                 /\ \A i \in 1..Len(out[k]) : out[k][i] - out[j][i] \in {0 - 1, 0, 1}
Invoked(out) ==
    /\ Ready # {} /\ data # <<>>
    /\ result' = [k \in DOMAIN phase |-> IF k \in Ready THEN out[k] ELSE result[k]]
    /\ UNCHANGED <<cfg, phase, shp, data>>
\* They must agree, and be correct for the *current* shape, contents and weights.
Invoke(out) ==
    /\ Invoked(out)
    /\ Agree(out)
    /\ Correct(cfg, data, shp, out[CHOOSE j \in Ready : TRUE]) = TRUE
=============================================================================
