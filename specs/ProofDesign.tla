----------------------------- MODULE ProofDesign -----------------------------
(* Design check of pruning: one graph of four nodes (a shared child, a child  *)
(* two levels down), every history of up to MaxObjs objects made by pruning,  *)
(* reading, serializing and reloading any live object.                        *)
EXTENDS ProofGraph
CONSTANTS MaxObjs, MaxPrunes
VARIABLES objs, prunes, used      \* used[i]: attributes read directly from object i so far

K == [R |-> [attrs |-> <<"l", "r", "x">>], M |-> [attrs |-> <<"c", "y">>], L |-> [attrs |-> <<"z">>]]
Leaf0 == Construct(<<>>, "L", [z |-> Plain("1")])                                        \* 1
Mid   == Construct(Leaf0, "M", [c |-> Ref(1), y |-> Plain("2")])                         \* 2
Root  == Construct(Mid, "R", [l |-> Ref(2), r |-> Ref(1), x |-> Plain("3")])             \* 3
Base == 3
ContentHash(os, i) == Content(K, os, i)

vars == <<objs, prunes, used>>
Init == objs = Root /\ prunes = 0 /\ used = [i \in {} |-> {}]
Grow(o) == Len(o) <= MaxObjs /\ objs' = o
UsedOf(i) == IF i \in DOMAIN used THEN used[i] ELSE {}
DoPrune == \E i \in Base..Len(objs) : /\ prunes < MaxPrunes /\ Grow(Prune(objs, i)) /\ prunes' = prunes + 1
                                       /\ used' = used
DoAccess == \E i \in Base + 1..Len(objs) : \E n \in AttrSet(K, objs[i].cls) :
               LET r == Access(K, objs, i, n) IN
               /\ n \notin UsedOf(i)
               /\ r.k = "ok" /\ Grow(r.objs) /\ prunes' = prunes /\ used' = (i :> (UsedOf(i) \cup {n})) @@ used
DoReload == \E i \in Base..Len(objs) : LET t == Touch(K, objs, i) IN
               /\ prunes < MaxPrunes
               /\ t.k = "ok" /\ Grow(Load(K, t.objs, i)) /\ prunes' = prunes + 1 /\ used' = used
Next == DoPrune \/ DoAccess \/ DoReload
Spec == Init /\ [][Next]_vars

(* The commitment of what an object stands for: a reloaded object commits to  *)
(* pruned parts by their data hash, which is the content itself here.         *)
OriginalsUntouched == \A i \in 1..Base : objs[i] = Root[i]
FlagsTrue == \A i \in 1..Len(objs) :
    /\ objs[i].fully <=> (objs[i].at = NoAttrs)
    /\ objs[i].orig # 0 => objs[i].pruned
    /\ (objs[i].orig = 0 /\ ~objs[i].fully) =>
         (objs[i].pruned <=> \E n \in DOMAIN objs[i].at : objs[i].at[n].k = "o" /\ objs[objs[i].at[n].id].pruned)
CommitmentKept == [][\A i \in 1..Len(objs) : Content(K, objs', i) = Content(K, objs, i)]_vars
CopiesAgree == \A i \in 1..Len(objs) : objs[i].orig # 0 => \A n \in DOMAIN objs[i].at :
    LET v == objs[i].at[n]  w == Access(K, objs, objs[i].orig, n) IN
    w.k = "ok" /\ IF v.k = "p" THEN v = w.v ELSE Content(K, objs, v.id) = Content(K, w.objs, w.v.id)
(* exactly the nodes visited are revealed by a reload of a copy of the original *)
RECURSIVE Same(_, _, _)
Same(os, i, j) ==      \* object j (reloaded) shows what was visited in object i, and nothing else
  /\ os[i].cls = os[j].cls
  /\ os[j].fully = os[i].fully
  /\ ~os[j].fully => \A n \in AttrSet(K, os[i].cls) :
       IF os[j].at[n].k = "p" THEN os[j].at[n] = os[i].at[n]
       ELSE Same(os, os[i].at[n].id, os[j].at[n].id)
ReloadShowsVisited == \A i \in Base..Len(objs) : LET t == Touch(K, objs, i) IN
  t.k = "ok" =>
    LET ld == Load(K, t.objs, i) IN
    /\ Same(ld, i, Len(ld))
    /\ Content(K, ld, Len(ld)) = Content(K, objs, i)
    /\ \A k \in 1..Len(objs) : objs[k].fully = t.objs[k].fully      \* serializing reveals nothing
NotVisitedNotRevealed == \A i \in Base + 1..Len(objs) :
  (objs[i].orig # 0 /\ UsedOf(i) = {} /\ \A k \in 1..Len(objs) : objs[k].orig # i) => objs[i].fully
=============================================================================
