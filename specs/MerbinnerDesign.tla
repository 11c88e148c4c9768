--------------------------- MODULE MerbinnerDesign ---------------------------
(* Design check: put, remove, lookup and subset as the implementation does    *)
(* them on trees (descend along the prefix, rebuild from the siblings),       *)
(* against maps.  All maps over all W-bit keys are reached, by every history. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, PySeq
CONSTANTS W, Values
VARIABLES t, m

Keys == [1..W -> {0, 1}]
Empty == [k |-> "empty", prefix |-> <<>>]
Leaf(k, v) == [k |-> "leaf", prefix |-> k, v |-> v]
Inner(a, b) == LET p == CommonPrefix(a.prefix, b.prefix) IN
  IF b.prefix[Len(p) + 1] = 1 THEN [k |-> "inner", prefix |-> p, l |-> a, r |-> b]
                              ELSE [k |-> "inner", prefix |-> p, l |-> b, r |-> a]
(* closest node first, then the siblings from the bottom up *)
RECURSIVE Descend(_, _)
Descend(n, key) ==
  IF n.k = "inner" /\ IsPrefixOf(n.prefix, key)
  THEN IF key[Len(n.prefix) + 1] = 1 THEN Append(Descend(n.r, key), n.l) ELSE Append(Descend(n.l, key), n.r)
  ELSE <<n>>
RECURSIVE Rebuild(_, _)
Rebuild(tip, sibs) == IF sibs = <<>> THEN tip ELSE Rebuild(Inner(tip, Head(sibs)), Tail(sibs))
TPut(n, k, v) ==
  LET d == Descend(n, k) IN
  IF Head(d).k = "empty" THEN Leaf(k, v)
  ELSE IF Head(d).k = "leaf" /\ Head(d).prefix = k THEN Rebuild(Leaf(k, v), Tail(d))
  ELSE Rebuild(Inner(Leaf(k, v), Head(d)), Tail(d))
THas(n, k) == LET d == Head(Descend(n, k)) IN d.k = "leaf" /\ d.prefix = k
TGet(n, k) == Head(Descend(n, k)).v
TRemove(n, k) == LET s == Tail(Descend(n, k)) IN IF s = <<>> THEN Empty ELSE Rebuild(Head(s), Tail(s))
RECURSIVE TSubset(_, _)
TSub(a, b) == a = b \/ (b.k # "empty" /\ TSubset(a, b))
TSubset(a, b) ==
  CASE a.k = "empty" -> TRUE
    [] a.k = "leaf"  -> THas(b, a.prefix) /\ TGet(b, a.prefix) = a.v
    [] OTHER -> IF a.prefix = b.prefix THEN TSub(a.l, b.l) /\ TSub(a.r, b.r)
                ELSE IF b.k = "inner" /\ IsPrefixOf(b.prefix, a.prefix)
                     THEN TSubset(a, IF a.prefix[Len(b.prefix) + 1] = 1 THEN b.r ELSE b.l)
                     ELSE FALSE

RECURSIVE Build(_)
Build(f) ==
  LET D == DOMAIN f IN
  IF D = {} THEN Empty
  ELSE IF Cardinality(D) = 1 THEN LET k == CHOOSE k \in D : TRUE IN Leaf(k, f[k])
  ELSE LET p == CHOOSE q \in {SubSeq(k, 1, n) : k \in D, n \in 0..W} :
                  /\ \A k \in D : IsPrefixOf(q, k)
                  /\ \E k, j \in D : k[Len(q) + 1] # j[Len(q) + 1]
       IN [k |-> "inner", prefix |-> p,
           l |-> Build([k \in {x \in D : x[Len(p)+1] = 0} |-> f[k]]),
           r |-> Build([k \in {x \in D : x[Len(p)+1] = 1} |-> f[k]])]

Init == t = Empty /\ m = <<>>
Next == \/ \E k \in Keys, v \in Values : t' = TPut(t, k, v) /\ m' = (k :> v) @@ m
        \/ \E k \in DOMAIN m : t' = TRemove(t, k) /\ m' = [j \in DOMAIN m \ {k} |-> m[j]]
Spec == Init /\ [][Next]_<<t, m>>

Canonical == t = Build(m)
LookupAgrees == \A k \in Keys : /\ THas(t, k) = (k \in DOMAIN m)
                                /\ k \in DOMAIN m => TGet(t, k) = m[k]
(* against every map with one binding added, changed or removed, and its own parts *)
Sub(f, g) == \A k \in DOMAIN f : k \in DOMAIN g /\ g[k] = f[k]
Near == {m} \cup {(k :> v) @@ m : k \in Keys, v \in Values} \cup {[j \in DOMAIN m \ {k} |-> m[j]] : k \in DOMAIN m}
        \cup {[j \in {k \in DOMAIN m : k[1] = b} |-> m[j]] : b \in {0, 1}} \cup {<<>>}
SubsetAgrees == \A o \in Near : TSub(t, Build(o)) = Sub(m, o) /\ TSub(Build(o), t) = Sub(o, m)
=============================================================================
