------------------------------- MODULE SerTrace -------------------------------
(* Conformance of recorded encodings and decodings to Codec.tla.              *)
(* Clauses: wire-* (encodings), check-* (which values a type admits).         *)
EXTENDS Codec, TraceBase
VARIABLES tid, l, st           \* st: bytes consumed so far by ctx reads

PT == Traces[1].pt
CT == Traces[1].ct
VT == Traces[1].vt
D(e) == LET r == DecType(PT, CT, VT, e.t, e.h, 0) IN IF r.ok /\ r.pos # HexLen(e.h) THEN Fail("trailing") ELSE r
DErr == Exc({"DeserializationError"})

CheckWant(p, v) ==
  CASE p.kind = "int" -> IF v.k # "int" THEN "type" ELSE IF BLt(v.n, 0) \/ BLt(p.hi, v.n) THEN "value" ELSE "ok"
    [] p.kind = "fixed" -> IF v.k # "bytes" THEN "type" ELSE IF v.n # p.hi THEN "value" ELSE "ok"
    [] p.kind = "var" -> IF v.k # "bytes" THEN "type" ELSE IF BLt(v.n, p.lo) \/ BLt(p.hi, v.n) THEN "value" ELSE "ok"
    [] p.kind \in {"bool", "bits", "tx", "outpoint"} -> IF v.k = p.kind THEN "ok" ELSE "type"
Verdict(w) == CASE w = "ok" -> Ok("") [] w = "type" -> Exc({"SerializerTypeError"}) [] w = "value" -> Exc({"SerializerValueError"})
InUnion(us, c) == \E i \in 1..Len(us) : us[i] \in {c, CT[c].base}

(* one primitive read from a buffer at position st *)
Rd(e) == CASE e.what = "varuint" -> DecVarUint(e.h, st)
           [] e.what = "bool" -> DecBool(e.h, st)
           [] e.what = "bytes" -> DecBytes(e.h, st, e.n)
           [] e.what = "varbytes" -> LET n == DecVarUint(e.h, st) IN IF n.ok THEN DecBytes(e.h, n.pos, n.v) ELSE n
RdErr(e, r) == IF r.why = "trunc" THEN Exc({"TruncationError"}) ELSE DErr

Expected(e) ==
  CASE e.op = "dec"     -> LET r == D(e) IN [c |-> "wire-", want |-> IF r.ok THEN Ok(r.v.s) ELSE DErr]
    [] e.op = "reenc"   -> [c |-> "wire-", want |-> Ok(e.h)]
    [] e.op = "dechash" -> [c |-> "wire-", want |-> LET r == D(e) IN IF r.ok THEN Ok(r.v.h) ELSE Free]
    [] e.op = "deceq"   -> [c |-> "wire-", want |-> Ok(TRUE)]
    [] e.op = "encint"   -> [c |-> "wire-", want |-> Ok(EncVarUint(e.v))]
    [] e.op = "encbool"  -> [c |-> "wire-", want |-> Ok(EncBool(e.v))]
    [] e.op = "encfixed" -> [c |-> "wire-", want |-> Ok(e.v)]
    [] e.op = "encvar"   -> [c |-> "wire-", want |-> Ok(EncVarUint(HexLen(e.v)) \o e.v)]
    [] e.op = "encbits"  -> [c |-> "wire-", want |-> Ok(EncBits(e.v))]
    [] e.op = "rd"       -> LET r == Rd(e) IN [c |-> "wire-", want |-> IF r.ok THEN Ok(r.v) ELSE RdErr(e, r)]
    [] e.op = "eof"      -> [c |-> "wire-", want |-> IF st = HexLen(e.h) THEN Ok("") ELSE Exc({"TrailingDataError"})]
    [] e.op = "check"    -> [c |-> "check-", want |-> Verdict(CheckWant(PT[e.t.t], e.v))]
    [] e.op = "ctor"     -> [c |-> "check-", want |-> Verdict(CheckWant(PT[e.t.t], e.v))]
    [] e.op = "checku"   -> [c |-> "check-", want |-> IF InUnion(e.us, e.cls) THEN Ok("") ELSE Exc({"SerializerTypeError"})]

Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] OTHER -> LET x == Expected(e) IN
         [st |-> IF e.op = "rd" THEN (LET r == Rd(e) IN IF r.ok THEN r.pos ELSE st) ELSE st,
          bad |-> Expect(x.c \o e.op, x.want, e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = 0
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
