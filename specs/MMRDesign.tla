------------------------------ MODULE MMRDesign ------------------------------
(* Design check: the append and slice algorithms of the implementation, as    *)
(* written there on trees, against the documented recursive construction.     *)
(* Trees: [n, l, r, v].  hist is the ghost list; old are all earlier ranges.  *)
EXTENDS Integers, Sequences, PySeq, TLC
CONSTANTS MaxLen, MaxCuts

RECURSIVE Pow2Divisor(_)
Pow2Divisor(n) == IF n % 2 = 1 THEN 1 ELSE 2 * Pow2Divisor(n \div 2)
IsPow2(n) == n >= 1 /\ Pow2Divisor(n) = n
RightSize(n) == IF IsPow2(n) THEN n \div 2 ELSE Pow2Divisor(n)

Empty == [n |-> 0]
Leaf(v) == [n |-> 1, v |-> v]
Inner(l, r) == [n |-> l.n + r.n, l |-> l, r |-> r]
RECURSIVE Build(_)
Build(D) == IF D = <<>> THEN Empty ELSE IF Len(D) = 1 THEN Leaf(D[1])
  ELSE LET k == RightSize(Len(D)) IN Inner(Build(SubSeq(D, 1, Len(D) - k)), Build(SubSeq(D, Len(D) - k + 1, Len(D))))

BitAnd(a, b) == \E i \in 0..6 : (a \div 2^i) % 2 = 1 /\ (b \div 2^i) % 2 = 1

RECURSIVE Merge(_, _)
Merge(t, new) ==
  IF ~BitAnd(t.n, new.n) THEN Inner(t, new)
  ELSE IF t.n = new.n THEN Inner(t, new)
  ELSE Merge(t.l, Merge(t.r, new))
RECURSIVE App(_, _)
App(t, v) ==
  IF t.n = 0 THEN Leaf(v)
  ELSE IF t.n = 1 THEN Inner(t, Leaf(v))
  ELSE IF t.n % 2 = 0 THEN Inner(t, Leaf(v))
  ELSE Merge(t.l, App(t.r, v))
RECURSIVE Items(_)
Items(t) == IF t.n = 0 THEN <<>> ELSE IF t.n = 1 THEN <<t.v>> ELSE Items(t.l) \o Items(t.r)
RECURSIVE Ext(_, _)
Ext(t, vs) == IF vs = <<>> THEN t ELSE Ext(App(t, Head(vs)), Tail(vs))
RECURSIVE Get(_, _)
Get(t, i) == IF t.n = 1 THEN t.v ELSE IF i < t.l.n THEN Get(t.l, i) ELSE Get(t.r, i - t.l.n)
RECURSIVE Slice(_, _, _)
Slice(t, a0, b0) ==
  LET a == Clip(a0, 0, t.n)  b == Clip(b0, 0, t.n) IN
  IF t.n = 0 THEN t
  ELSE IF t.n = 1 THEN IF a <= 0 /\ b >= 1 THEN t ELSE Empty
  ELSE IF a >= b THEN Empty
  ELSE IF a <= 0 /\ b >= t.n THEN t
  ELSE IF a < t.l.n THEN LET r == Slice(t.l, a, b) IN
       IF b > t.l.n THEN Ext(r, Items(Slice(t.r, 0, b - t.l.n))) ELSE r
  ELSE Slice(t.r, a - t.l.n, b - t.l.n)

VARIABLES t, D, cuts, next
Init == t = Empty /\ D = <<>> /\ cuts = 0 /\ next = 0
DoAppend == next < MaxLen /\ t' = App(t, next) /\ D' = Append(D, next) /\ next' = next + 1 /\ cuts' = cuts
DoSlice == /\ cuts < MaxCuts /\ \E a \in 0..Len(D), b \in 0..Len(D) :
                 t' = Slice(t, a, b) /\ D' = SubSeq(D, a + 1, b)
           /\ cuts' = cuts + 1 /\ next' = next
Next == DoAppend \/ DoSlice
Spec == Init /\ [][Next]_<<t, D, cuts, next>>

Canonical == t = Build(D)
HoldsList == Items(t) = D /\ t.n = Len(D)
IndexAgrees == \A i \in 0..Len(D)-1 : Get(t, i) = D[i + 1]
(* no mountain is ever touched again: the perfect subtrees of a range are     *)
(* subtrees of every range grown from it *)
RECURSIVE Subtrees(_)
Subtrees(x) == IF x.n <= 1 THEN {x} ELSE {x} \cup Subtrees(x.l) \cup Subtrees(x.r)
MountainsStay == [][(next' = next + 1) => \A s \in Subtrees(t) : IsPow2(s.n) => s \in Subtrees(t')]_<<t, D, cuts, next>>
=============================================================================
