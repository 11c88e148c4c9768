----------------------------- MODULE TraceBase -----------------------------
(* What every trace specification shares: the recorded traces, outcomes, and  *)
(* total verdicts.  Each recorded event is always consumed; what it should    *)
(* have been according to the specification is compared with what was         *)
(* recorded, and any difference is printed.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Crypto

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

(* Expected outcomes *)
Ok(v)    == [k |-> "ok", v |-> v, cls |-> {}]
Exc(cs)  == [k |-> "exc", v |-> "", cls |-> cs]     \* an exception of one of the classes cs
AnyExc   == [k |-> "exc", v |-> "", cls |-> {"Exception"}]
Free     == [k |-> "free", v |-> "", cls |-> {}]    \* unspecified, but not a crash or hang

Matches(want, got) ==
  CASE want.k = "free" -> got.k \in {"ok", "exc"}
    [] want.k = "ok"   -> got.k = "ok" /\ got.v = want.v
    [] want.k = "exc"  -> got.k = "exc" /\ \E i \in 1..Len(got.mro) : got.mro[i] \in want.cls

Str(x) == ToString(x)

(* The differences found in one event: a sequence of records *)
Diff(clause, want, got) == [clause |-> clause, want |-> Str(want), got |-> Str(got)]
Expect(clause, want, got) == IF Matches(want, got) THEN <<>> ELSE <<Diff(clause, want, got)>>
Require(clause, cond, want, got) == IF cond THEN <<>> ELSE <<Diff(clause, want, got)>>

Report(t, i, bad) == bad = <<>> \/ PrintT(<<"MISMATCH", t, i, ToJson(bad)>>)
=============================================================================
