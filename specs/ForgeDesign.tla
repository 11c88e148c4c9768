----------------------------- MODULE ForgeDesign -----------------------------
(* Design check: partial views of forged structures never contradict each     *)
(* other.  Assuming no hash collisions, everything with one hash is a view of *)
(* one term: a tree of nodes whose kind is always visible (it selects the     *)
(* hash tag) and whose fields are either all there or pruned away.  The terms *)
(* are arbitrary: inner nodes claim any length or prefix over any children.   *)
(* Statements are evaluated on views the way the implementation does it; each *)
(* answer must be the one the unpruned term gives.  Committed = FALSE is the  *)
(* broken design in which inner nodes don't commit to their length or prefix  *)
(* (each view may claim another one).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, PySeq
CONSTANTS Kind, Depth, Values, Lengths, Committed
VARIABLES term, pruned, claim        \* claim: what inner nodes of this view claim, where not committed

Bits2 == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
Prefixes == {<<>>, <<0>>, <<1>>, <<0, 1>>}
Empty == [k |-> "e"]
Leaves == IF Kind = "mmr" THEN {[k |-> "l", v |-> v] : v \in Values}
          ELSE {[k |-> "l", key |-> b, v |-> v] : b \in {<<0, 0>>, <<1, 1>>, <<0, 1>>}, v \in Values}
Claims == IF Kind = "mmr" THEN Lengths ELSE Prefixes
RECURSIVE Terms(_)
Terms(d) == IF d = 0 THEN {Empty} \cup Leaves
            ELSE Terms(d - 1) \cup {[k |-> "i", c |-> c, l |-> x, r |-> y] : c \in Claims, x \in Terms(d - 1), y \in Terms(d - 1)}

RECURSIVE Paths(_, _)
Paths(t, p) == IF t.k = "i" THEN {p} \cup Paths(t.l, Append(p, 0)) \cup Paths(t.r, Append(p, 1)) ELSE {p}
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(IF Head(p) = 0 THEN t.l ELSE t.r, Tail(p))

(* answers *)
Ans(v) == [k |-> "is", v |-> <<v>>]
Absent == [k |-> "absent", v |-> <<>>]
Pruned == [k |-> "pruned", v |-> <<>>]
Error  == [k |-> "error", v |-> <<>>]

Claim(t, p, C) == IF Committed \/ p \notin DOMAIN C THEN t.c ELSE C[p]
LenM(t, P, C, p) == IF t.k = "e" THEN Ans(0) ELSE IF t.k = "l" THEN Ans(1) ELSE IF p \in P THEN Pruned ELSE Ans(Claim(t, p, C))
RECURSIVE GetM(_, _, _, _, _)
GetM(t, P, C, p, i) ==
  CASE t.k = "e" -> Absent
    [] t.k = "l" -> IF i \notin {0, -1} THEN Absent ELSE IF p \in P THEN Pruned ELSE Ans(t.v)
    [] t.k = "i" ->
         IF p \in P THEN Pruned
         ELSE LET n == Claim(t, p, C)
                  j == IF i < 0 THEN i + n ELSE i
                  ll == LenM(t.l, P, C, Append(p, 0))
                  lr == LenM(t.r, P, C, Append(p, 1)) IN
              IF ~(0 <= j /\ j < n) THEN Absent
              ELSE IF ll.k = "pruned" THEN Pruned
              ELSE IF j < ll.v[1] THEN GetM(t.l, P, C, Append(p, 0), j)
              ELSE IF lr.k = "pruned" THEN Pruned
              ELSE IF j < ll.v[1] + lr.v[1] THEN GetM(t.r, P, C, Append(p, 1), j - ll.v[1])
              ELSE Error
RECURSIVE Lookup(_, _, _, _, _)
Lookup(t, P, C, p, key) ==
  CASE t.k = "e" -> Absent
    [] t.k = "l" -> IF p \in P THEN Pruned ELSE IF t.key = key THEN Ans(t.v) ELSE Absent
    [] t.k = "i" ->
         IF p \in P THEN Pruned
         ELSE LET x == Claim(t, p, C) IN
              IF ~IsPrefixOf(x, key) THEN Absent
              ELSE IF Len(x) = Len(key) THEN Error
              ELSE IF key[Len(x) + 1] = 1 THEN Lookup(t.r, P, C, Append(p, 1), key) ELSE Lookup(t.l, P, C, Append(p, 0), key)
RECURSIVE CountB(_, _, _)
CountB(t, P, p) ==
  CASE t.k = "e" -> Ans(0)
    [] t.k = "l" -> Ans(1)
    [] t.k = "i" -> IF p \in P THEN Pruned
         ELSE LET a == CountB(t.l, P, Append(p, 0))  b == CountB(t.r, P, Append(p, 1)) IN
              IF a.k = "pruned" \/ b.k = "pruned" THEN Pruned ELSE Ans(a.v[1] + b.v[1])

Answers(P, C) ==
  IF Kind = "mmr" THEN [s \in {<<"len", 0>>} \cup {<<"get", i>> : i \in -4..4} |->
                          IF s[1] = "len" THEN LenM(term, P, C, <<>>) ELSE GetM(term, P, C, <<>>, s[2])]
  ELSE [s \in {<<"len", 0>>} \cup {<<"lookup", b>> : b \in Bits2} |->
          IF s[1] = "len" THEN CountB(term, P, <<>>) ELSE Lookup(term, P, C, <<>>, s[2])]

vars == <<term, pruned, claim>>
Init == term \in Terms(Depth) /\ pruned = {} /\ claim = <<>>
Inners == {p \in Paths(term, <<>>) : At(term, p).k = "i"}
(* children of something pruned can't be seen anyway *)
Hidden(p) == \E n \in 0..Len(p) - 1 : SubSeq(p, 1, n) \in pruned
Prune == \E p \in Paths(term, <<>>) \ pruned : ~Hidden(p) /\ pruned' = pruned \cup {p} /\ UNCHANGED <<term, claim>>
Lie == ~Committed /\ claim = <<>> /\ \E p \in Inners, c \in Claims : claim' = (p :> c) /\ UNCHANGED <<term, pruned>>
Next == Prune \/ Lie
Spec == Init /\ [][Next]_vars
NoContradiction == LET a == Answers(pruned, claim)  b == Answers({}, <<>>) IN
  \A s \in DOMAIN a : a[s].k # "pruned" => a[s] = b[s]
(* a length is committed to: what exists is below it, what is absent isn't *)
LengthAgrees == Kind = "mmr" => LET a == Answers(pruned, claim) IN
  a[<<"len", 0>>].k = "is" => \A i \in 0..4 : /\ a[<<"get", i>>].k = "is" => i < a[<<"len", 0>>].v[1]
                                              /\ a[<<"get", i>>].k = "absent" => i >= a[<<"len", 0>>].v[1]
Emit == pruned = {} => PrintT(<<"PROGRAM", ToJson(term)>>)
=============================================================================
