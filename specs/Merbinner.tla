------------------------------ MODULE Merbinner ------------------------------
(* Merbinner trees: a map from keys to values, and the commitment to it.      *)
(* Keys are numbered in the order of their bits: U[k] = [bits, contrib, ser]. *)
(* A map is a function from a set of key numbers to value serializations.     *)
(* c = [tag, leaf]: the class's hash tag and how values contribute (see MMR). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, PySeq, Commit

SubEmpty == "ca380e10c7d544dfaef055bce2125329"
SubLeaf  == "f5cc855e9d214f8dab427883c765c323"
SubInner == "66d747410ffd41789a79641a45e23dda"

EmptyMap == <<>>
Put(m, k, v) == (k :> v) @@ m
Remove(m, k) == [j \in DOMAIN m \ {k} |-> m[j]]
Has(m, k) == k \in DOMAIN m
Subset(m, o) == \A k \in DOMAIN m : k \in DOMAIN o /\ o[k] = m[k]

KeysOf(U, m) == SelectSeq([i \in 1..Len(U) |-> i], LAMBDA k : k \in DOMAIN m)
ItemsOf(U, m) == LET ks == KeysOf(U, m) IN [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>]

(* No map holds two keys where the bits of one start with those of the other  *)
Clash(U, j, k) == j # k /\ (IsPrefixOf(U[j].bits, U[k].bits) \/ IsPrefixOf(U[k].bits, U[j].bits))
Room(U, m, k) == \A j \in DOMAIN m : ~Clash(U, j, k)
UniverseOk(U) == \A i \in 1..Len(U)-1 : ~LexLt(U[i+1].bits, U[i].bits)

(* the radix tree over a nonempty sorted sequence of keys *)
Prefix(U, ks) == IF Len(ks) = 1 THEN U[ks[1]].bits ELSE CommonPrefix(U[ks[1]].bits, U[ks[Len(ks)]].bits)
LeftKeys(U, ks)  == LET n == Len(Prefix(U, ks)) IN SelectSeq(ks, LAMBDA k : U[k].bits[n + 1] = 0)
RightKeys(U, ks) == LET n == Len(Prefix(U, ks)) IN SelectSeq(ks, LAMBDA k : U[k].bits[n + 1] = 1)

Contrib(c, v) == IF c.leaf = "ser" THEN v ELSE ProofHash(c.leaf, DataHash(<<v>>))

RECURSIVE BHash(_, _, _, _), BDataHash(_, _, _, _)
BDataHash(c, U, m, ks) ==
  IF Len(ks) = 0 THEN DataHash(<<>>)
  ELSE IF Len(ks) = 1 THEN DataHash(<<U[ks[1]].contrib, Contrib(c, m[ks[1]])>>)
  ELSE DataHash(<<EncBits(Prefix(U, ks)), BHash(c, U, m, LeftKeys(U, ks)), BHash(c, U, m, RightKeys(U, ks))>>)
BHash(c, U, m, ks) ==
  ProofHash(Derive(IF ks = <<>> THEN SubEmpty ELSE IF Len(ks) = 1 THEN SubLeaf ELSE SubInner, c.tag),
            BDataHash(c, U, m, ks))

RECURSIVE BSer(_, _, _, _)
BSer(c, U, m, ks) ==
  "00" \o IF Len(ks) = 0 THEN "00"
  ELSE IF Len(ks) = 1 THEN "01" \o U[ks[1]].ser \o (IF c.leaf = "ser" THEN "" ELSE "00") \o m[ks[1]]
  ELSE "02" \o EncBits(Prefix(U, ks)) \o BSer(c, U, m, LeftKeys(U, ks)) \o BSer(c, U, m, RightKeys(U, ks))

(* prefixes in preorder, as lists of bits *)
RECURSIVE BShape(_, _)
BShape(U, ks) ==
  IF Len(ks) = 0 THEN <<<<>>>>
  ELSE IF Len(ks) = 1 THEN <<U[ks[1]].bits>>
  ELSE <<Prefix(U, ks)>> \o BShape(U, LeftKeys(U, ks)) \o BShape(U, RightKeys(U, ks))
=============================================================================
