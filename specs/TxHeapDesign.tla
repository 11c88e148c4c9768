----------------------------- MODULE TxHeapDesign -----------------------------
(* Histories of constructing, copying and mutating.  No immutable object ever *)
(* changes, and none reaches a mutable one.                                   *)
EXTENDS TxHeap, FiniteSets, TLC, Json
CONSTANTS Depth, Kinds, Broken, Logged
VARIABLES heap, hs, d, log

Rec(r) == log' = IF Logged THEN Append(log, r) ELSE log
Step(r, rec) == heap' = r.h /\ hs' = Append(hs, r.id) /\ d' = d + 1 /\ Rec(rec)
K(a) == heap[hs[a]].k
M(a) == heap[hs[a]].m
A0 == [op |-> "", k |-> "", m |-> FALSE, a |-> 0, b |-> 0, f |-> "", v |-> "", i |-> 0]
H(n) == HexRep(IF n = 0 THEN "00" ELSE "ff", 32)

Init == heap = <<>> /\ hs = <<>> /\ d = 0 /\ log = <<>>
Default == \E k \in Kinds, m \in BOOLEAN : Step(PDefault(heap, k, m), [A0 EXCEPT !.op = "mk0", !.k = k, !.m = m])
From == \E a \in 1..Len(hs), m \in BOOLEAN : K(a) \in Kinds /\
          Step(IF m THEN FromM(heap, hs[a]) ELSE FromI(heap, hs[a]), [A0 EXCEPT !.op = "from", !.k = K(a), !.m = m, !.a = a])
MakeIn == \E a \in 1..Len(hs), m \in BOOLEAN : K(a) = "op" /\ "in" \in Kinds /\
          Step(IF Broken = "share" /\ ~m THEN Put(heap, [Node EXCEPT !.k = "in", !.ref = hs[a], !.n = "7"])
               ELSE PIn(heap, m, hs[a], "", "7"), [A0 EXCEPT !.op = "mkin", !.m = m, !.a = a])
MakeTx == \E a \in 1..Len(hs), m \in BOOLEAN : K(a) = "in" /\ "tx" \in Kinds /\
          LET l == PList(heap, TRUE, <<hs[a]>>)  o == PList(l.h, TRUE, <<>>) IN
          Step(PTx(o.h, m, l.id, o.id, "0", "1"), [A0 EXCEPT !.op = "mktx", !.m = m, !.a = a])
Get == \E a \in 1..Len(hs), f \in {"prevout", "vin"} :
          /\ (K(a) = "in" /\ f = "prevout") \/ (K(a) = "tx" /\ f = "vin")
          /\ Step([h |-> heap, id |-> Part(heap[hs[a]], f)], [A0 EXCEPT !.op = "get", !.a = a, !.f = f])
Item == \E a \in 1..Len(hs) : K(a) = "list" /\ Len(heap[hs[a]].items) > 0 /\
          Step([h |-> heap, id |-> heap[hs[a]].items[1]], [A0 EXCEPT !.op = "item", !.a = a, !.i = 0])
SetN == \E a \in 1..Len(hs) : K(a) \in {"op", "in", "out", "tx"} /\ M(a) /\ heap[hs[a]].n # "5" /\
          LET f == CASE K(a) = "op" -> "n" [] K(a) = "in" -> "nSequence" [] K(a) = "out" -> "nValue" [] K(a) = "tx" -> "nLockTime" IN
          /\ heap' = [heap EXCEPT ![hs[a]].n = "5"] /\ d' = d + 1 /\ hs' = hs
          /\ Rec([A0 EXCEPT !.op = "set", !.a = a, !.f = f, !.v = "5"])
AppendTo == \E a \in 1..Len(hs), b \in 1..Len(hs) : K(a) = "list" /\ M(a) /\ K(b) = "in" /\ Len(heap[hs[a]].items) < 2 /\
          /\ heap' = [heap EXCEPT ![hs[a]].items = Append(@, hs[b])] /\ d' = d + 1 /\ hs' = hs
          /\ Rec([A0 EXCEPT !.op = "append", !.a = a, !.b = b])
SetPrevout == \E a \in 1..Len(hs), b \in 1..Len(hs) : K(a) = "in" /\ M(a) /\ K(b) = "op" /\ heap[hs[a]].ref # hs[b] /\
          /\ heap' = [heap EXCEPT ![hs[a]].ref = hs[b]] /\ d' = d + 1 /\ hs' = hs
          /\ Rec([A0 EXCEPT !.op = "setref", !.a = a, !.b = b, !.f = "prevout"])
Next == d < Depth /\ (Default \/ From \/ MakeIn \/ MakeTx \/ Get \/ Item \/ SetN \/ AppendTo \/ SetPrevout)
Spec == Init /\ [][Next]_<<heap, hs, d, log>>

ImmutableReachesImmutable == \A i \in 1..Len(heap) : ~heap[i].m => \A j \in Reach(heap, i) : ~heap[j].m
NeverChanges == [][\A i \in 1..Len(heap) : ~heap[i].m => Show(heap', i) = Show(heap, i)]_<<heap>>
(* a fresh copy equals what it was made from *)
CopiesEqual == [][Len(hs') > Len(hs) => \A a \in 1..Len(hs) :
                   (Len(log') > Len(log) /\ log'[Len(log')].op = "from" /\ log'[Len(log')].a = a) => Bytes(heap', hs'[Len(hs')]) = Bytes(heap, hs[a])]_<<heap, hs, log>>
Emit == d = Depth => PrintT(<<"PROGRAM", ToJson(log)>>)
=============================================================================
