--------------------------- MODULE ScriptParseDesign ---------------------------
(* Design check of parsing: scripts grow byte by byte; the operations found   *)
(* and what is left are always a partition of the bytes; building what was    *)
(* read parses to the same; adding bytes never changes operations already     *)
(* complete, nor lowers a count.                                              *)
EXTENDS Script, TLC, Json
CONSTANTS Alphabet, MaxLen, Broken
VARIABLES h

P(x) == IF Broken = "lax" THEN (LET p == Parse(x) IN [p EXCEPT !.ok = TRUE]) ELSE Parse(x)
Raw(p, x) == HexCat([i \in 1..Len(p.ops) |-> RawOp(x, p.ops[i])])
Init == h = ""
Next == HexLen(h) < MaxLen /\ \E b \in Alphabet : h' = h \o U8(b)
Spec == Init /\ [][Next]_h

Partition == LET p == P(h) IN Raw(p, h) = HexSub(h, 1, p.pos) /\ (p.ok <=> p.pos = HexLen(h))
Rebuild(p) == HexCat([i \in 1..Len(p.ops) |-> IF p.ops[i].push THEN PushBytes(p.ops[i].data) ELSE U8(p.ops[i].op)])
SameItems == LET p == Parse(h)  q == Parse(Rebuild(p)) IN
  /\ q.ok /\ Len(q.ops) = Len(p.ops)
  /\ \A i \in 1..Len(p.ops) : q.ops[i].push = p.ops[i].push /\ q.ops[i].data = p.ops[i].data
  /\ HexLen(Rebuild(p)) <= p.pos            \* nothing shorter could be written
Stable == [][LET p == Parse(h)  q == Parse(h') IN Len(q.ops) >= Len(p.ops) /\ SubSeq(q.ops, 1, Len(p.ops)) = p.ops]_h
NoSeparators == LET w == Without(h, "ab") IN Parse(w).ok /\ \A i \in 1..Len(Parse(w).ops) : Parse(w).ops[i].op # 171
Emit == PrintT(<<"PROGRAM", ToJson(<<[op |-> "script", script |-> h]>>)>>)
=============================================================================
