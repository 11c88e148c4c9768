------------------------------- MODULE ProofGen -------------------------------
(* Enumerates pruning histories over the graph of ProofDesign.tla: handles    *)
(* 1 (leaf), 2 (middle), 3 (root), then whatever prune, reload and reading    *)
(* attributes give.                                                           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES ops, hs          \* hs[h]: class of handle h, "" if it is no proof

Attrs(c) == CASE c = "GR" -> <<"l", "r", "x">> [] c = "GM" -> <<"c", "y">> [] c = "GL" -> <<"z">>
Sub(c, n) == CASE <<c, n>> = <<"GR", "l">> -> "GM" [] <<c, n>> = <<"GR", "r">> -> "GL"
               [] <<c, n>> = <<"GM", "c">> -> "GL" [] OTHER -> ""
Init == ops = <<>> /\ hs = <<"GL", "GM", "GR">>
Next == /\ Len(ops) < Depth
        /\ \E a \in 3..Len(hs) :
             /\ hs[a] # ""
             /\ \/ /\ ops' = Append(ops, [op |-> "prune", a |-> a]) /\ hs' = Append(hs, hs[a])
                \/ /\ a > 3
                   /\ ops' = Append(ops, [op |-> "reload", a |-> a]) /\ hs' = Append(hs, hs[a])
                \/ \E i \in 1..Len(Attrs(hs[a])) : LET n == Attrs(hs[a])[i] IN
                   /\ a > 3
                   /\ [op |-> "acc", a |-> a, n |-> n] \notin {ops[j] : j \in 1..Len(ops)}
                   /\ ops' = Append(ops, [op |-> "acc", a |-> a, n |-> n]) /\ hs' = Append(hs, Sub(hs[a], n))
Spec == Init /\ [][Next]_<<ops, hs>>
Emit == Len(ops) = Depth => PrintT(<<"PROGRAM", ToJson(ops)>>)
=============================================================================
