------------------------------- MODULE NetTrace -------------------------------
(* Conformance of recorded serialization and deserialization to NetCodec.     *)
(* State: the stream being read (bytes, position).                            *)
EXTENDS NetCodec, TraceBase
VARIABLES tid, l, st

Streaming == {"varint", "bytes", "varstr", "u256v", "intv", "points", "txins", "txouts", "txs"}   \* no check for excess
Err(r) == IF r.why = "trunc" THEN Exc({"SerializationTruncationError"}) ELSE Exc({"SerializationError"})
Whole(t, h) == LET r == Rd(t, h, 0) IN
  IF ~r.ok THEN Err(r)
  ELSE IF r.pos < HexLen(h) /\ t \notin Streaming THEN Exc({"DeserializationExtraDataError"})
  ELSE Ok(r.v)

Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "enc" -> [st |-> st, bad |-> Expect("net-serialize", IF Good(e.t, e.v) THEN Ok(Enc(e.t, e.v)) ELSE AnyExc, e.out)]
    [] e.op = "dec" -> [st |-> st, bad |-> Expect("net-deserialize", Whole(e.t, e.h), e.out)]
    [] e.op = "extra" ->        \* the object and the padding the exception carries, or deserializing with padding allowed
         LET r == Rd(e.t, e.h, 0) IN
         [st |-> st, bad |-> Expect("net-excess", IF r.ok THEN Ok([v |-> r.v, pad |-> HexSub(e.h, r.pos + 1, HexLen(e.h))]) ELSE Err(r), e.out)]
    [] e.op = "open" -> [st |-> [h |-> e.h, pos |-> 0], bad |-> <<>>]
    [] e.op = "next" ->
         LET r == Rd(e.t, st.h, st.pos) IN
         [st |-> IF r.ok THEN [st EXCEPT !.pos = r.pos] ELSE st,
          bad |-> Expect("net-stream", IF r.ok THEN Ok([v |-> r.v, pos |-> r.pos]) ELSE Err(r), e.out)]
    [] e.op = "again" ->        \* an object, and what its bytes deserialize to
         [st |-> st, bad |-> Expect("net-again", Ok([eq |-> TRUE, same |-> TRUE, h1 |-> ObjHash(e.t, e.v), h2 |-> ObjHash(e.t, e.v), v |-> e.v]), e.out)]
    [] e.op = "eq" -> [st |-> st, bad |-> Expect("net-eq", Ok([eq |-> e.v = e.w, ne |-> e.v # e.w]), e.out)]
    [] e.op = "gethdr" -> [st |-> st, bad |-> Expect("net-header", Ok([e.v EXCEPT !.vtx = <<>>]), e.out)]
    [] e.op = "big" -> [st |-> st, bad |-> Expect("net-size", IF BLe(e.n, MaxSize) THEN Ok(e.n) ELSE Exc({"SerializationError"}), e.out)]
    [] e.op = "manyw" ->        \* a vector of n times the same element
         [st |-> st, bad |-> Expect("net-many", Ok([head |-> CompactSize(BOf(e.n)), elem |-> HexSub(Enc(e.t, <<e.v>>), 2, HexLen(Enc(e.t, <<e.v>>)))]), e.out)]
    [] e.op = "manyr" ->
         [st |-> st, bad |-> Expect("net-many", IF e.short = 0 THEN Ok([n |-> e.n, v |-> <<e.v>>]) ELSE Exc({"SerializationTruncationError"}), e.out)]
    [] e.op = "bn2vch" -> [st |-> st, bad |-> Expect("net-bignum", Ok(NumBytes(e.v)), e.out)]
    [] e.op = "vch2bn" -> [st |-> st, bad |-> Expect("net-bignum", Ok(NumOf(e.h)), e.out)]
    [] e.op = "bn2mpi" -> [st |-> st, bad |-> Expect("net-bignum", Ok(Mpi(e.v)), e.out)]
    [] e.op = "mpi2bn" -> [st |-> st, bad |-> Expect("net-bignum", Ok(IF MpiWell(e.h) THEN MpiOf(e.h) ELSE "None"), e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [h |-> "", pos |-> 0]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
