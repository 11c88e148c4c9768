----------------------------- MODULE BitsTrace -----------------------------
(* Conformance of recorded operations on proofmarshal.bits to Bits.tla        *)
EXTENDS Bits, TraceBase
VARIABLES tid, l, st           \* st: the heap

V(i) == st[i].v
DesErr == {"DeserializationError"}

(* expected outcome (projected to the list of bits), and the new heap value *)
Mk(s)  == [want |-> Ok(s), new |-> BV(s)]
Err(c) == [want |-> Exc(c), new |-> None]
Obs(v) == [want |-> Ok(v), new |-> None]

Expected(e) ==
  CASE e.op = "lit"       -> Mk(e.bits)
    [] e.op = "same"      -> Mk(V(e.a))
    [] e.op = "frombytes" -> LET n == IF e.len = <<>> THEN 8 * HexLen(e.buf) ELSE e.len[1] IN
                             IF n < 0 \/ n > 8 * HexLen(e.buf) THEN Err({"ValueError"})
                             ELSE Mk(MkFromBytes(e.buf, n))
    [] e.op = "slice"     -> IF e.step = 0 THEN Err({"ValueError"}) ELSE Mk(PySlice(V(e.a), e.start, e.stop, e.step))
    [] e.op = "add"       -> Mk(V(e.a) \o V(e.b))
    [] e.op = "inv"       -> Mk(Inv(V(e.a)))
    [] e.op = "cp"        -> Mk(CommonPrefix(V(e.a), V(e.b)))
    [] e.op = "deser"     -> LET r == DecodeBits(e.buf) IN IF r.ok THEN Mk(r.v) ELSE Err(DesErr)
    [] e.op = "roundtrip" -> Mk(V(e.a))
    [] e.op = "index"     -> IF PyIndexOk(V(e.a), e.i) THEN Obs(PyIndex(V(e.a), e.i)) ELSE Err({"IndexError"})
    [] e.op = "len"       -> Obs(Len(V(e.a)))
    [] e.op = "bool"      -> Obs(V(e.a) # <<>>)
    [] e.op = "list"      -> Obs(V(e.a))
    [] e.op = "revlist"   -> Obs(Rev(V(e.a)))
    [] e.op = "contains"  -> Obs(\E i \in 1..Len(V(e.a)) : V(e.a)[i] = e.i)
    [] e.op = "startswith" -> Obs(IsPrefixOf(V(e.b), V(e.a)))
    [] e.op = "ser"       -> Obs(EncBits(V(e.a)))
    [] e.op = "eq"        -> Obs(V(e.a) = V(e.b))
    [] e.op = "ne"        -> Obs(V(e.a) # V(e.b))
    [] e.op = "lt"        -> Obs(LexLt(V(e.a), V(e.b)))
    [] e.op = "gt"        -> Obs(LexLt(V(e.b), V(e.a)))
    [] e.op = "le"        -> Obs(~LexLt(V(e.b), V(e.a)))
    [] e.op = "ge"        -> Obs(~LexLt(V(e.a), V(e.b)))
    [] e.op = "typeerror" -> Err({"TypeError"})
    [] e.op = "cmpother"  -> Obs(FALSE)
    [] e.op = "audit"     -> Obs(V(e.a))

Step(e) ==
  CASE e.op = "skip"  -> [st |-> Append(st, None), bad |-> <<>>]
    [] e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] OTHER -> LET x == Expected(e) IN
         [st |-> IF e.mk THEN Append(st, x.new) ELSE st, bad |-> Expect("bits-" \o e.op, x.want, e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
