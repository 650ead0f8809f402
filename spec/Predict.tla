------------------------------ MODULE Predict -------------------------------
(* Interpreter.predict: the samples of a call are run one at a time, in order, *)
(* each as a batch of one; what the model wrote for them is returned           *)
(* concatenated, per model output.  A sample that does not have exactly the    *)
(* model's input types and shapes is refused, a failing invocation is reported,*)
(* and in both cases nothing is returned.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES io,     \* [I, U]: types t and shapes s of the model's inputs, outputs
          todo,   \* samples not yet run; a sample is a sequence of arrays [t, s, d]
          rows,   \* what each invocation so far has written
          st      \* "idle" | "running" | "error"
predVars == <<io, todo, rows, st>>

Fits(x) == /\ Len(x) = Len(io.I)
           /\ \A j \in DOMAIN x : x[j].t = io.I[j].t /\ x[j].s = io.I[j].s

Call(samples) == st = "idle" /\ st' = "running" /\ todo' = samples /\ rows' = <<>> /\ UNCHANGED io
\* The invocation sees exactly the sample's values; out is what the model wrote
Run(seen, out) ==
    /\ st = "running" /\ todo # <<>> /\ Fits(Head(todo))
    /\ seen = [j \in DOMAIN Head(todo) |-> Head(todo)[j].d]
    /\ rows' = Append(rows, out)
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<io, st>>
Fail(seen) ==
    /\ st = "running" /\ todo # <<>> /\ Fits(Head(todo))
    /\ seen = [j \in DOMAIN Head(todo) |-> Head(todo)[j].d]
    /\ st' = "error"
    /\ UNCHANGED <<io, todo, rows>>
Refuse ==
    /\ st = "running" /\ todo # <<>> /\ ~Fits(Head(todo))
    /\ st' = "error"
    /\ UNCHANGED <<io, todo, rows>>
\* What the caller gets when all samples have run
Shape(j) == [io.U[j].s EXCEPT ![1] = @ * Len(rows)]
Result(kind, res) ==
    /\ st = "running" /\ todo = <<>>
    /\ kind = (IF Len(io.U) = 1 THEN "array" ELSE "list")
    /\ Len(res) = Len(io.U)
    /\ \A j \in DOMAIN res : /\ res[j].t = io.U[j].t
                             /\ res[j].s = Shape(j)
                             /\ res[j].rows = [i \in DOMAIN rows |-> rows[i][j]]
    /\ st' = "idle" /\ UNCHANGED <<io, todo, rows>>
Raise == st = "error" /\ st' = "idle" /\ UNCHANGED <<io, todo, rows>>
=============================================================================
