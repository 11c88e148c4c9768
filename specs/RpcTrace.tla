------------------------------- MODULE RpcTrace -------------------------------
(* Conformance of recorded RPC calls to Rpc.  State: the selected chain, the  *)
(* proxies made so far (configuration, ids used, whether the connection was   *)
(* left in doubt by a fault).                                                 *)
EXTENDS Rpc
VARIABLES tid, l, st

DefaultPort(chain) == IF chain = "mainnet" THEN 8332 ELSE 18332
(* where a proxy must connect to *)
Port(s, e) == CASE e.port > 0 -> e.port
                [] e.how = "conf" /\ e.sport > 0 -> e.sport
                [] e.how = "conf" -> DefaultPort(s.chain)
                [] OTHER -> 80
Proxy(s, e) == [host |-> e.host, port |-> IF e.ssl /\ e.how = "url" /\ e.port = 0 THEN 0 ELSE Port(s, e), path |-> e.path, auth |-> e.auth, ssl |-> e.ssl, ids |-> {}, doubt |-> FALSE]
P(s, e) == s.ps[e.ref]
Sent(e) == Len(e.reqs)
RequestOk(p, e, r) ==
  /\ r.verb = "POST" /\ r.path = p.path /\ r.auth = p.auth /\ r.json
  /\ r.host = p.host /\ (p.port = 0 \/ r.port = p.port) /\ r.tls = p.ssl
BadRequest(p, e, r) == Require("rpc-request", RequestOk(p, e, r), [path |-> p.path, auth |-> p.auth, host |-> p.host, port |-> p.port, tls |-> p.ssl], r)
Call(s, e) ==
  LET p == P(s, e)
      want == Outcome(s.chain, e)
  IN Require("rpc-once", Sent(e) = 1 \/ (p.doubt /\ Sent(e) = 0), "one request", e.reqs)
     \o (IF Sent(e) # 1 THEN <<>> ELSE LET r == e.reqs[1] IN
           BadRequest(p, e, r)
           \o Require("rpc-call", r.method = Method(e.m) /\ r.params = Params(e), [method |-> Method(e.m), params |-> Params(e)], r)
           \o Require("rpc-id", r.id \notin p.ids, "a fresh id", r.id))
     \o (IF p.doubt /\ e.out.k = "exc" THEN <<>> ELSE Expect("rpc-result", want, e.out))
     \o (IF e.fault = "error" /\ e.out.k = "exc" /\ e.m \notin Indexing /\ ~p.doubt THEN Require("rpc-error", e.error = e.sent, e.sent, e.error) ELSE <<>>)
Judge(s, e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "skip" -> <<>>
    [] e.op = "select" -> Expect("rpc-chain", Ok(""), e.out)
    [] e.op = "proxy" -> Expect("rpc-proxy", IF e.bad THEN AnyExc ELSE Ok(""), e.out)
    [] e.op = "call" -> Call(s, e)
    [] e.op = "wrongtype" -> Expect("rpc-argument", Exc({"TypeError"}), e.out) \o Require("rpc-argument", e.reqs = <<>>, "no request", e.reqs)
    [] e.op = "batch" ->
         Require("rpc-once", Sent(e) = 1 \/ (P(s, e).doubt /\ Sent(e) = 0), "one request", e.reqs)
         \o (IF Sent(e) # 1 THEN <<>> ELSE BadRequest(P(s, e), e, e.reqs[1]) \o Require("rpc-call", e.reqs[1].params = JList(e.calls), e.calls, e.reqs[1]))
         \o (IF P(s, e).doubt /\ e.out.k = "exc" THEN <<>> ELSE Expect("rpc-result", Ok(e.rep), e.out))
    [] e.op = "lx"   -> Expect("rpc-hex", IF IsHex(e.s) THEN Ok(HexRev(e.s)) ELSE AnyExc, e.out)
    [] e.op = "b2lx" -> Expect("rpc-hex", Ok(HexRev(e.h)), e.out)
    [] e.op = "x"    -> Expect("rpc-hex", IF IsHex(e.s) THEN Ok(e.s) ELSE AnyExc, e.out)
    [] e.op = "b2x"  -> Expect("rpc-hex", Ok(e.h), e.out)
    [] e.op = "money" -> Require("rpc-money", e.out.k = "ok" /\ (e.out.k = "ok" => Satoshis(e.out.v) = e.n), e.n, e.out)

Breaks == {"noresponse", "drop", "badstatus", "short"}
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [chain |-> "mainnet", ps |-> <<>>]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET e == Traces[tid].ev[l + 1] IN
            /\ st' = CASE e.op = "select" -> [st EXCEPT !.chain = e.chain]
                       [] e.op = "proxy" /\ e.id > 0 -> [st EXCEPT !.ps = Append(@, Proxy(st, e))]
                       [] e.op = "call" -> [st EXCEPT !.ps[e.ref].ids = @ \cup {e.reqs[i].id : i \in 1..Len(e.reqs)},
                                                      !.ps[e.ref].doubt = @ \/ e.fault \in Breaks]
                       [] OTHER -> st
            /\ Report(tid, l + 1, Judge(st, e))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
