------------------------------ MODULE SetBatchMC -----------------------------
EXTENDS SetBatch
VARIABLES orig, n
vars == <<mod, todo, orig, n>>
Dims == {-1, 0, 1, 2}
Ranked == {[k |-> "ranked", d |-> d, e |-> "f32", enc |-> ""] : d \in {<<>>} \cup [1..1 -> Dims] \cup [1..2 -> {-1, 1, 3}]}
Other == {[k |-> "other", d |-> <<>>, e |-> "tensor<*xf32>", enc |-> ""]}
Types == Ranked \cup Other
Fn(s, x) == [sig |-> s, args |-> IF x THEN <<>> ELSE s, res |-> s, ext |-> x, rest |-> "r"]
Init == /\ \E a, b \in Types : \E x \in BOOLEAN :
             orig = <<Fn(<<a, b>>, FALSE), Fn(<<b>>, x)>>
        /\ SBInit(orig) /\ n = 0
Next == \/ Start /\ n < 2 /\ n' = n + 1 /\ UNCHANGED orig
        \/ \E i \in todo : Visit(i) /\ UNCHANGED <<orig, n>>
Spec == Init /\ [][Next]_vars
Done == todo = {} /\ n > 0
Inv == /\ Consistent(mod)
       /\ Done => /\ NoDynamicBatch(mod)
                  /\ mod = [i \in DOMAIN orig |-> Rewrite(orig[i])]   \* also after the second application
       /\ \A i \in DOMAIN mod : mod[i].res = orig[i].res /\ mod[i].rest = orig[i].rest
            /\ \A j \in DOMAIN mod[i].sig :
                  LET t == mod[i].sig[j] o == orig[i].sig[j] IN
                  /\ t.k = o.k /\ t.e = o.e /\ Len(t.d) = Len(o.d)
                  /\ \A x \in DOMAIN t.d : x > 1 \/ o.d[x] # -1 => t.d[x] = o.d[x]
=============================================================================
