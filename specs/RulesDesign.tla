------------------------------ MODULE RulesDesign ------------------------------
(* Design check of the transaction rules, checked one after the other with a  *)
(* running sum, against their declarative form, over every transaction of a   *)
(* scaled-down system: money up to 4, scripts by length.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxIns, MaxOuts, Values, Lens, Broken
VARIABLES tx, pc, i, sum, seen, verdict

Max == 4
Val(v) == v - 1      \* configuration files cannot hold negative numbers
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Points == {"null", "a", "b", "zero"}       \* zero: the null hash with another index
Good ==
  /\ tx.ins # <<>> /\ tx.outs # <<>>
  /\ \A k \in 1..Len(tx.outs) : 0 <= tx.outs[k] /\ tx.outs[k] <= Max
  /\ LET RECURSIVE S(_)
         S(k) == IF k = 0 THEN 0 ELSE tx.outs[k] + S(k - 1) IN S(Len(tx.outs)) <= Max
  /\ \A j, k \in 1..Len(tx.ins) : tx.ins[j] = tx.ins[k] => j = k
  /\ IF tx.ins = <<"null">> THEN 2 <= tx.len /\ tx.len <= 100 ELSE \A k \in 1..Len(tx.ins) : tx.ins[k] # "null"

Init == /\ tx \in [ins : Seqs(Points, MaxIns), outs : Seqs({Val(v) : v \in Values}, MaxOuts), len : Lens]
        /\ pc = "empty" /\ i = 1 /\ sum = 0 /\ seen = {} /\ verdict = "?"
Reject == verdict' = "reject" /\ UNCHANGED <<tx, pc, i, sum, seen>>
Goto(p) == pc' = p /\ i' = 1 /\ UNCHANGED <<tx, sum, seen, verdict>>
Next ==
  /\ verdict = "?"
  /\ CASE pc = "empty" -> IF tx.ins = <<>> \/ tx.outs = <<>> THEN Reject ELSE Goto("outs")
       [] pc = "outs" -> IF i > Len(tx.outs) THEN Goto("ins")
                         ELSE IF tx.outs[i] < 0 \/ tx.outs[i] > Max \/ (Broken # "nosum" /\ sum + tx.outs[i] > Max) THEN Reject
                         ELSE i' = i + 1 /\ sum' = sum + tx.outs[i] /\ UNCHANGED <<tx, pc, seen, verdict>>
       [] pc = "ins" -> IF i > Len(tx.ins) THEN Goto("form")
                        ELSE IF tx.ins[i] \in seen THEN Reject
                        ELSE i' = i + 1 /\ seen' = seen \cup {tx.ins[i]} /\ UNCHANGED <<tx, pc, sum, verdict>>
       [] pc = "form" -> IF tx.ins = <<"null">> THEN (IF 2 <= tx.len /\ tx.len <= 100 THEN verdict' = "accept" /\ UNCHANGED <<tx, pc, i, sum, seen>> ELSE Reject)
                         ELSE IF (Broken = "first" /\ tx.ins[1] = "null") \/ (Broken # "first" /\ "null" \in seen) THEN Reject
                         ELSE verdict' = "accept" /\ UNCHANGED <<tx, pc, i, sum, seen>>
Spec == Init /\ [][Next]_<<tx, pc, i, sum, seen, verdict>> /\ WF_<<tx, pc, i, sum, seen, verdict>>(Next)
RightVerdict == verdict # "?" => (verdict = "accept" <=> Good)
Decides == <>(verdict # "?")
Emit == pc # "empty" \/ PrintT(<<"PROGRAM", ToJson(<<[op |-> "shape", ins |-> tx.ins, outs |-> tx.outs, len |-> tx.len]>>)>>)
=============================================================================
