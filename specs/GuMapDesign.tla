----------------------------- MODULE GuMapDesign -----------------------------
(* Design check of globally unique maps: seals are closed at most once, over  *)
(* one digest; digests of different contents differ.  Nodes are assembled     *)
(* from arbitrary parts.  Two nodes that verify and have the same seal have   *)
(* the same contents, and so do all the nodes reachable below them; and a     *)
(* witness never verifies with other contents.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seals, Keys, Vals, Tagged    \* Tagged: digests of leaf and inner contents are told apart
VARIABLES closed                        \* seal -> digest, for the seals closed

Leaves == [k : {"L"}, seal : Seals, key : Keys, val : Vals]
Inners == [k : {"I"}, seal : Seals, l : Seals, r : Seals]
Contents(n) == IF n.k = "L" THEN <<n.key, n.val>> ELSE <<n.l, n.r>>
Digest(n) == <<IF Tagged THEN n.k ELSE "", Contents(n)>>
Nodes == Leaves \cup Inners
Verifies(n) == n.seal \in DOMAIN closed /\ closed[n.seal] = Digest(n)
Init == closed = <<>>
Close == \E n \in Nodes : n.seal \notin DOMAIN closed /\ closed' = (n.seal :> Digest(n)) @@ closed
Next == Close
Spec == Init /\ [][Next]_closed
Verifying == {n \in Nodes : Verifies(n)}
SameContents == \A a, b \in Verifying : a.seal = b.seal => a.k = b.k /\ Contents(a) = Contents(b)
(* what can be reached from a seal, following verifying inner nodes *)
RECURSIVE Reach(_, _)
Reach(s, d) == LET here == {n \in Verifying : n.seal = s} IN
  IF d = 0 THEN {} ELSE {n \in here : n.k = "L"} \cup UNION {Reach(n.l, d - 1) \cup Reach(n.r, d - 1) : n \in {m \in here : m.k = "I"}}
Stable == [][\A n \in Verifying : n \in {m \in Nodes : m.seal \in DOMAIN closed' /\ closed'[m.seal] = Digest(m)}]_closed
OnePerSeal == \A s \in Seals : \A a, b \in Reach(s, 3) : a.seal = b.seal => a = b
=============================================================================
