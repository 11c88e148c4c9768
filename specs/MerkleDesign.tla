------------------------------ MODULE MerkleDesign ------------------------------
(* Design check of Bitcoin's Merkle trees: which lists have the same root.    *)
EXTENDS Rules, TLC
CONSTANTS MaxLen, Ids, Unique
VARIABLES a, b
Id(n) == HexRep(U8(n), 32)
Roots(s) == MerkleRoot([i \in 1..Len(s) |-> Id(s[i])])
Init == a = <<>> /\ b = <<>>
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Next == \E n \in Ids : \/ Len(a) < MaxLen /\ a' = Append(a, n) /\ b' = b
                       \/ Len(b) < MaxLen /\ b' = Append(b, n) /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
(* blocks without duplicate transactions are told apart *)
Distinguished == a # <<>> /\ b # <<>> /\ (Unique => NoDup(a) /\ NoDup(b)) /\ Roots(a) = Roots(b) => a = b
(* levels halve until the root *)
Shape == a # <<>> => LET t == MerkleTree([i \in 1..Len(a) |-> Id(a[i])])
                         RECURSIVE Size(_)
                         Size(n) == IF n = 1 THEN 1 ELSE n + Size((n + 1) \div 2) IN Len(t) = Size(Len(a))
=============================================================================
