------------------------------- MODULE RpcDesign -------------------------------
(* Calls of proxies over connections that may fail.  A connection is a pipe   *)
(* of replies not yet read; a reply that comes late stays in it, so a         *)
(* connection is replaced (or refused) after a failure.  The node's answer to *)
(* a call is a function of the call alone: here, the call's argument.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Proxies, Args, Faults, Shared, MaxOps, Broken
VARIABLES pipe, next, used, got, ops

Conn(p) == IF Shared THEN 1 ELSE p
Conns == {Conn(p) : p \in Proxies}
Id(p) == IF Broken = "oneid" THEN 1 ELSE next[p]
Outcome(f, pile) ==      \* what reading the reply yields
  CASE f = "late" -> <<"exc">>
    [] f = "error" -> IF Broken = "noerror" THEN <<"ok", "null">> ELSE <<"exc">>
    [] f = "garbled" -> <<"exc">>
    [] f = "noresult" -> IF Broken = "null" THEN <<"ok", "null">> ELSE <<"exc">>
    [] OTHER -> pile
Init == pipe = [c \in Conns |-> <<>>] /\ next = [p \in Proxies |-> 1] /\ used = [p \in Proxies |-> <<>>] /\ got = <<>> /\ ops = <<>>
Call(p, a, f) ==
  LET c == Conn(p)
      rep == IF f = "ok" THEN <<"ok", a>> ELSE <<"exc">>
      q == Append(pipe[c], <<"ok", a>>)                        \* the node answers, at once or late
      front == IF f = "ok" THEN Head(q) ELSE Outcome(f, q[1])
  IN /\ got' = Append(got, [p |-> p, a |-> a, f |-> f, r |-> IF f = "ok" THEN front ELSE Outcome(f, <<>>)])
     /\ pipe' = [pipe EXCEPT ![c] = IF f = "late" THEN (IF Broken = "reuse" THEN q ELSE <<>>) ELSE Tail(q)]
     /\ used' = [used EXCEPT ![p] = Append(@, Id(p))]
     /\ next' = [next EXCEPT ![p] = @ + 1]
     /\ ops' = Append(ops, [op |-> "call", p |-> p, fault |-> f])
Next == Len(ops) < MaxOps /\ \E p \in Proxies, a \in Args, f \in Faults : Call(p, a, f)
Spec == Init /\ [][Next]_<<pipe, next, used, got, ops>>

(* a value is the node's answer to this very call, and every failure an error *)
Right == \A i \in 1..Len(got) : got[i].r = IF got[i].f = "ok" THEN <<"ok", got[i].a>> ELSE <<"exc">>
Fresh == \A p \in Proxies : \A i, j \in 1..Len(used[p]) : i # j => used[p][i] # used[p][j]
View == <<pipe, next, used, got>>
Emit == (Len(ops) = MaxOps /\ \A i \in 1..Len(got) : got[i].a = CHOOSE a \in Args : TRUE) => PrintT(<<"PROGRAM", ToJson(<<[op |-> "design", p |-> 0, fault |-> ""]>> \o ops)>>)
=============================================================================
