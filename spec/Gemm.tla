-------------------------------- MODULE Gemm ---------------------------------
(* The blocked binary GEMM under an arbitrary scheduler: the destination is a  *)
(* GR x GC grid of blocks; a block may run once its packed operands exist.     *)
(* Invariants: every cell is produced exactly once, never from an operand that *)
(* is not packed yet, and no two blocks share a destination word (bit-packed   *)
(* destinations: Unit rows per word).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS GR, GC, Rows, Cols, KR, Unit, Emit
VARIABLES pl, pr, run, hist, writes
vars == <<pl, pr, run, hist, writes>>
\* block boundaries, in units of KR kernel rows
RowsUp == ((Rows + KR - 1) \div KR) * KR
LB(i) == (((RowsUp \div KR) * i) \div GR) * KR
CB(j) == (Cols * j) \div GC
Min2(a, b) == IF a <= b THEN a ELSE b
\* destination words written by block (i, j): <<word row, column>>
Words(i, j) == {<<r \div Unit, c>> : r \in LB(i)..(Min2(LB(i + 1), Rows) - 1), c \in CB(j)..(CB(j + 1) - 1)}
AllWords == {<<r \div Unit, c>> : r \in 0..(Rows - 1), c \in 0..(Cols - 1)}
I == 0..(GR - 1)
J == 0..(GC - 1)
Init == pl = {} /\ pr = {} /\ run = {} /\ hist = <<>> /\ writes = [w \in AllWords |-> 0]
Log(k, i, j) == hist' = IF Emit THEN Append(hist, <<k, i, j>>) ELSE hist
\* the left operand (weights) is packed up front
PackL(i) == /\ i \notin pl /\ pl' = pl \cup {i}
            /\ \A x \in 0..(i - 1) : x \in pl
            /\ pr = {} /\ run = {}
            /\ Log(0, i, 0) /\ UNCHANGED <<pr, run, writes>>
PackR(j) == /\ j \notin pr /\ pl = I /\ pr' = pr \cup {j}
            /\ Log(1, 0, j) /\ UNCHANGED <<pl, run, writes>>
Run(i, j) == /\ <<i, j>> \notin run /\ i \in pl /\ j \in pr
             /\ run' = run \cup {<<i, j>>}
             /\ writes' = [w \in AllWords |-> writes[w] + IF w \in Words(i, j) THEN 1 ELSE 0]
             /\ Log(2, i, j) /\ UNCHANGED <<pl, pr>>
Done == run = I \X J
Next == \/ \E i \in I : PackL(i)
        \/ \E j \in J : PackR(j)
        \/ \E i \in I, j \in J : Run(i, j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OncePerWord == \A w \in AllWords : writes[w] <= 1
Disjoint == \A p, q \in I \X J : p # q => Words(p[1], p[2]) \cap Words(q[1], q[2]) = {}
Complete == Done => \A w \in AllWords : writes[w] = 1
EmitInv == (Emit /\ Done) => PrintT("SCHED " \o ToJson(hist))
Terminates == <>Done
=============================================================================
