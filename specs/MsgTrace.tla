------------------------------- MODULE MsgTrace -------------------------------
(* Conformance of recorded framing and decoding to Messages.  State: the      *)
(* chain selected, the bytes of the stream being read and how far.            *)
EXTENDS Messages, TraceBase
VARIABLES tid, l, st

ChainOf(s, e) == IF e.chain = "" THEN s.chain ELSE e.chain
At(s, e) == Unframe(ChainOf(s, e), s.h, s.pos)
(* an odd frame may be refused or passed over, or taken for what it says, but *)
(* for nothing else                                                            *)
OrRefused(r, pos, out, s) ==
  LET want == [k |-> "msg", cmd |-> r.cmd, v |-> r.v, pos |-> pos, again |-> IF r.cmd = "" THEN "" ELSE Frame(s.chain, r.cmd, r.v)] IN
  Require("msg-decode", out.k = "exc" \/ (out.k = "ok" /\ (out.v.k = "none" \/ (r.cmd # "" /\ out.v = want))), want, out)
Rejected == {"ValueError", "SerializationError"}
(* a message, or a part of one, made of nothing *)
Nowhere == <<"1", HexRep("00", 10) \o "ffff", "00000000", "0">>
FreshVersion(ver, time, nonce) == <<ver, "1", time, Nowhere, Nowhere, nonce, "2f707974686f6e2d626974636f696e2d302e302e312f", "-1">>
Judge(s, e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "select" -> Expect("msg-chain", Ok(""), e.out)
    [] e.op = "frame" -> Expect("msg-frame", Ok(Frame(ChainOf(s, e), e.cmd, e.v)), e.out)
    [] e.op = "fresh" -> Expect("msg-fresh", Ok(Frame(s.chain, e.cmd, e.v)), e.out)
    [] e.op = "freshversion" -> Expect("msg-fresh", LET v == FreshVersion(e.ver, e.time, e.nonce) IN Ok([v |-> v, frame |-> Frame(s.chain, "version", v)]), e.out)
    [] e.op = "part" -> Expect("msg-fresh", Ok(CASE e.t = "addr" -> EncF(IF e.time THEN "addrt" ELSE "addrnt", IF e.time THEN <<"0">> \o Nowhere ELSE Nowhere)
                                                 [] e.t = "locator" -> EncF("i32", e.ver) \o "00"
                                                 [] OTHER -> LET v == <<"1", "0", "0", "0", "0", <<>>, "0", "0", <<>>, "0", "", "", "">> IN HexCat([i \in 1..13 |-> EncF(Layout("ualert")[i], v[i])])), e.out)
    [] e.op = "same" -> Expect("msg-equal", Ok((e.cmd = e.cmd2) /\ Payload(e.cmd, e.v) = Payload(e.cmd2, e.v2)), e.out)
    [] e.op = "open" -> <<>>
    [] e.op = "read" ->
         LET r == At(s, e) IN
         CASE r.k = "reject" -> Expect("msg-decode", Exc(Rejected), e.out)
           [] r.k = "none" -> Expect("msg-decode", Ok([k |-> "none", cmd |-> "", v |-> <<>>, pos |-> r.pos, again |-> ""]), e.out)
           [] r.k = "odd" -> OrRefused(r, r.pos, e.out, s)
           [] r.k = "msg" /\ r.rest > 0 -> OrRefused(r, r.pos, e.out, s)
           [] OTHER -> Expect("msg-decode", Ok([k |-> "msg", cmd |-> r.cmd, v |-> r.v, pos |-> r.pos, again |-> Frame(s.chain, r.cmd, r.v)]), e.out)
    [] e.op = "whole" ->      \* exactly one frame, from bytes
         LET r == Unframe(s.chain, e.h, 0) IN
         CASE r.k = "reject" -> Expect("msg-decode", Exc(Rejected), e.out)
           [] r.k = "msg" /\ r.rest = 0 /\ r.pos = HexLen(e.h) -> Expect("msg-decode", Ok([k |-> "msg", cmd |-> r.cmd, v |-> r.v, pos |-> 0, again |-> Frame(s.chain, r.cmd, r.v)]), e.out)
           [] OTHER -> OrRefused(r, 0, e.out, s)
    [] e.op = "struct" ->     \* structures inside messages, on their own
         LET r == IF e.t = "ualert" THEN RdSeq(Layout("ualert"), 13, e.h, 0, <<>>) ELSE RdF(e.t, e.h, 0) IN
         IF ~r.ok \/ r.pos # HexLen(e.h) THEN Expect("msg-struct", Exc({"SerializationError"}), e.out)
         ELSE Expect("msg-struct", Ok([v |-> r.v, again |-> IF e.t = "ualert" THEN HexCat([i \in 1..13 |-> EncF(Layout("ualert")[i], r.v[i])]) ELSE EncF(e.t, r.v)]), e.out)

Init0 == [chain |-> "mainnet", h |-> "", pos |-> 0]
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = Init0
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET e == Traces[tid].ev[l + 1] IN
            /\ st' = CASE e.op = "select" -> [st EXCEPT !.chain = e.chain]
                       [] e.op = "open" -> [st EXCEPT !.h = e.h, !.pos = 0]
                       [] e.op = "read" -> [st EXCEPT !.pos = At(st, e).pos]
                       [] OTHER -> st
            /\ Report(tid, l + 1, Judge(st, e))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
