----------------------------- MODULE MerbinnerGen -----------------------------
(* Programs over Merbinner trees: from the empty tree, Depth puts and removals*)
(* (also of missing keys) applied to the latest or an earlier tree.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NKeys, NVals, Depth
VARIABLES prog, pos
Init == prog = <<[op |-> "new", items |-> <<>>]>> /\ pos = 0
N == Len(prog)
Next == /\ N <= Depth /\ pos' = pos
        /\ \E a \in IF N < 2 THEN {1} ELSE {N, N - 1} :
             \/ \E k \in 1..NKeys, v \in 1..NVals : prog' = Append(prog, [op |-> "put", a |-> a, k |-> k, v |-> v])
             \/ \E k \in 1..NKeys : prog' = Append(prog, [op |-> "remove", a |-> a, k |-> k])
Spec == Init /\ [][Next]_<<prog, pos>>
Emit == N <= Depth \/ PrintT(<<"PROGRAM", ToJson(prog)>>)
=============================================================================
