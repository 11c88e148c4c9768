------------------------------ MODULE ForgeTrace ------------------------------
(* No two views with one hash contradict each other.  st records every answer *)
(* ever given: st[<<hash, statement>>].  An answer is a value or (for         *)
(* elements and keys) absence; errors are not answers.                        *)
EXTENDS TraceBase
VARIABLES tid, l, st

Answer(e) == CASE e.out.k = "ok" -> <<e.out.v>>
               [] e.out.k = "exc" /\ e.absent # "" /\ \E i \in 1..Len(e.out.mro) : e.out.mro[i] = e.absent -> <<"absent">>
               [] OTHER -> <<>>
Key(e) == <<e.h, e.stmt>>
Tried(e) == e.out.k \in {"ok", "exc"}      \* no crash, hang or nonsense

(* statements that settle each other, by the first letters: length n of a     *)
(* list, and element i; e.num is n or i *)
LenOf(h) == <<h, "len">>
Agrees(e, a) ==
  CASE e.what = "get" /\ LenOf(e.h) \in DOMAIN st ->
         IF a[1] = "absent" THEN ~(e.num < st[LenOf(e.h)].n) ELSE e.num < st[LenOf(e.h)].n
    [] OTHER -> TRUE

Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] OTHER ->
      IF ~Tried(e) THEN [st |-> st, bad |-> <<Diff("driver-" \o e.op, "an answer or an error", e.out)>>]
      ELSE LET a == Answer(e) IN
        IF a = <<>> THEN [st |-> st, bad |-> <<>>]
        ELSE IF Key(e) \in DOMAIN st
        THEN [st |-> st, bad |-> Require("forge-" \o e.what, st[Key(e)].a = a[1], st[Key(e)].a, a[1])]
        ELSE [st |-> (Key(e) :> [a |-> a[1], n |-> e.len]) @@ st,
              bad |-> Require("forge-" \o e.what \o "-length", Agrees(e, a), <<"length", IF LenOf(e.h) \in DOMAIN st THEN st[LenOf(e.h)].n ELSE -1>>, a)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
