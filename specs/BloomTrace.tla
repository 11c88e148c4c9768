----------------------------- MODULE BloomTrace -----------------------------
(* Conformance of recorded bloom filter use to Bloom.  State: the filters     *)
(* made so far, by number, and the elements inserted into each.               *)
EXTENDS Bloom, TraceBase
VARIABLES tid, l, st

Elem(x) == IF x.kind = "outpoint" THEN OutpointBytes(x) ELSE x.data
Known(s, e) == s.fs[e.ref]
View(f) == [len |-> f.len, nhash |-> BOf(f.nhash), tweak |-> f.tweak, flags |-> f.flags]
Valid(e) == BLt("0", e.n) /\ BLt("0", e.num) /\ BLe(e.num, e.den)
FromWire(v) == [len |-> HexLen(v.data), nhash |-> BInt(v.nhash), tweak |-> v.tweak, flags |-> v.flags, base |-> v.data, set |-> <<>>, ins |-> {}]
Judge(s, e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "skip" -> <<>>
    [] e.op = "murmur" -> Expect("bloom-murmur", Ok(Murmur3(e.seed, e.data)), e.out)
    [] e.op = "new" /\ ~Valid(e) -> Expect("bloom-size", Free, e.out)
    [] e.op = "new" ->
         Require("bloom-size", e.out.k = "ok" /\ (e.out.k = "ok" => BOf(e.out.v.len) \in Lengths(e.n, e.num, e.den) /\ e.out.v.nhash \in HashCounts(e.n, e.out.v.len)
                                                     /\ e.out.v.tweak = e.tweak /\ e.out.v.flags = e.flags /\ e.out.v.within),
                 [len |-> Lengths(e.n, e.num, e.den), tweak |-> e.tweak, flags |-> e.flags, nhash |-> IF e.out.k = "ok" THEN HashCounts(e.n, e.out.v.len) ELSE {}], e.out)
    [] e.op = "insert" -> Expect("bloom-insert", Ok(""), e.out)
    [] e.op = "contains" -> Expect("bloom-contains", Ok(Contains(Known(s, e), Elem(e.elem))), e.out)
                            \o Require("bloom-missed", Elem(e.elem) \in Known(s, e).ins => e.out.k = "ok" /\ (e.out.k = "ok" => e.out.v), "contained", e.out)
    [] e.op = "ser" -> Expect("bloom-serialize", Ok(FilterBytes(Known(s, e))), e.out)
    [] e.op = "same" -> Expect("bloom-equal", Ok(FilterBytes(Known(s, e)) = FilterBytes(s.fs[e.other])), e.out)
    [] e.op = "within" -> Expect("bloom-limits", Ok(Within(Known(s, e))), e.out)
    [] e.op = "copy" -> Expect("bloom-roundtrip", Ok(View(Known(s, e))), e.out)
    [] e.op = "deser" -> LET r == RdFilter(e.h) IN
         Expect("bloom-deserialize", IF ~r.ok THEN Exc({"SerializationError"}) ELSE IF r.pos # HexLen(e.h) THEN Exc({"DeserializationExtraDataError"})
                                     ELSE Ok([len |-> HexLen(r.v.data), nhash |-> r.v.nhash, tweak |-> r.v.tweak, flags |-> r.v.flags]), e.out)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [fs |-> <<>>]
Nothing == [len |-> 0, nhash |-> 0, tweak |-> "0", flags |-> 0, base |-> "", set |-> <<>>, ins |-> {}]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET e == Traces[tid].ev[l + 1] IN
            /\ st' = CASE e.op = "new" /\ e.id > 0 -> [st EXCEPT !.fs = Append(@, IF e.out.k # "ok" THEN Nothing ELSE
                            [len |-> e.out.v.len, nhash |-> BInt(e.out.v.nhash), tweak |-> e.tweak, flags |-> e.flags, base |-> "", set |-> <<>>, ins |-> {}])]
                       [] e.op = "deser" /\ e.id > 0 -> [st EXCEPT !.fs = Append(@, IF e.out.k # "ok" \/ ~RdFilter(e.h).ok THEN Nothing ELSE FromWire(RdFilter(e.h).v))]
                       [] e.op = "copy" /\ e.id > 0 -> [st EXCEPT !.fs = Append(@, st.fs[e.ref])]
                       [] e.op = "insert" /\ e.out.k = "ok" -> [st EXCEPT !.fs[e.ref] = [Insert(@, Elem(e.elem)) EXCEPT !.ins = @ \cup {Elem(e.elem)}]]
                       [] OTHER -> st
            /\ Report(tid, l + 1, Judge(st, e))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
