------------------------------ MODULE Network -------------------------------
(* A model made of LCE ops (and ops of others) under the Interpreter: which    *)
(* models it accepts, and what a prediction computes: every node, in order, on *)
(* exactly the contents its producers left, giving a correct result, again and *)
(* again over the same memory.                                                 *)
EXTENDS LceSupport

VARIABLES
    net,    \* [kernel, nodes, ins, outs]; a node is [cfg, src, dst]; cfg.op = "other": not an LCE op
    mem,    \* tensor -> contents ("": undefined)
    pc,     \* next node; 0: not invoked
    rows,   \* outputs of the samples of this prediction so far
    phase   \* "new" | "ready" | "refused"
netVars == <<net, mem, pc, rows, phase>>

IsLce(n) == n.cfg.op # "other"
Acceptable == \A k \in DOMAIN net.nodes :
                 LET n == net.nodes[k] IN IsLce(n) => Supported(n.cfg, net.kernel, n.cfg.in[1].s)

\* The constructor accepts exactly the models whose every op is supported by the
\* kernel it was asked for; the op's outputs get the shapes of their definitions.
Construct(ok) ==
    /\ phase = "new"
    /\ ok = Acceptable
    /\ phase' = IF ok THEN "ready" ELSE "refused"
    /\ UNCHANGED <<net, mem, pc, rows>>

\* A sample: x[i] are the contents of the i-th model input
Begin(x) ==
    /\ phase = "ready" /\ pc = 0
    /\ Len(x) = Len(net.ins)
    /\ mem' = [t \in DOMAIN mem |-> IF \E i \in DOMAIN x : net.ins[i] = t
                                    THEN x[CHOOSE i \in DOMAIN x : net.ins[i] = t] ELSE ""]
    /\ pc' = 1
    /\ UNCHANGED <<net, rows, phase>>

\* Node pc reads x (xv: as numbers) and leaves y (yv: as numbers)
Node(x, xv, y, yv) ==
    /\ pc \in DOMAIN net.nodes
    /\ LET n == net.nodes[pc] IN
       /\ x = [i \in DOMAIN n.src |-> mem[n.src[i]]]
       /\ \A i \in DOMAIN x : x[i] # ""
       /\ IsLce(n) => Correct(n.cfg, xv, n.cfg.in[1].s, yv) = TRUE
       /\ mem' = [t \in DOMAIN mem |-> IF \E i \in DOMAIN n.dst : n.dst[i] = t
                                       THEN y[CHOOSE i \in DOMAIN n.dst : n.dst[i] = t] ELSE mem[t]]
    /\ pc' = pc + 1
    /\ UNCHANGED <<net, rows, phase>>

Finish(y) ==
    /\ pc = Len(net.nodes) + 1
    /\ y = [i \in DOMAIN net.outs |-> mem[net.outs[i]]]
    /\ rows' = Append(rows, y)
    /\ pc' = 0
    /\ UNCHANGED <<net, mem, phase>>

\* What predict returns: per output, the samples' rows in order
Predicted(res) ==
    /\ phase = "ready" /\ pc = 0 /\ rows # <<>>
    /\ Len(res) = Len(net.outs)
    /\ \A j \in DOMAIN res : res[j] = [i \in DOMAIN rows |-> rows[i][j]]
    /\ rows' = <<>>
    /\ UNCHANGED <<net, mem, pc, phase>>
=============================================================================
