------------------------------ MODULE AddrTrace ------------------------------
(* Conformance of recorded conversions to Base58.  State: the chain selected  *)
(* and the addresses made so far, by number.                                  *)
EXTENDS Base58, Ec, TraceBase
VARIABLES tid, l, st

BadAddr == Exc({"Base58Error", "ValueError"})
Made(a) == IF a = NoAddress THEN BadAddr ELSE Ok(a)
(* the address an event should make; NoAddress if none *)
Should(s, e) ==
  CASE e.op = "addr" -> IF ~B58Good(e.s) \/ ~CheckOk(e.s) THEN NoAddress ELSE FromData(s.chain, e.want, VerOf(e.s), DataOf(e.s))
    [] e.op = "addrbytes" -> FromData(s.chain, e.want, IF e.ver = -1 THEN Version(s.chain, e.want) ELSE e.ver, e.data)
    [] e.op = "fromscript" ->
         LET a == IF e.want = "p2pkh" THEN "" ELSE PayP2sh(e.script)
             b == IF e.want = "p2sh" THEN "" ELSE PayHash(e.script, e.noncanon, e.bare) IN
         CASE a # "" -> Address(s.chain, "p2sh", a) [] b # "" -> Address(s.chain, "p2pkh", b) [] OTHER -> NoAddress
    [] e.op = "frompubkey" -> IF e.invalid \/ EcPoint(e.pub) THEN Address(s.chain, "p2pkh", Hash160(e.pub)) ELSE NoAddress
    [] e.op = "redeem" -> IF HexLen(e.script) > 520 THEN NoAddress ELSE Address(s.chain, "p2sh", Hash160(e.script))
    [] OTHER -> NoAddress
Makes == {"addr", "addrbytes", "fromscript", "frompubkey", "redeem"}
(* a bare uncompressed public key: the historical hash of its first 64 bytes *)
Uncompressed(s, e) ==
  /\ e.op = "fromscript" /\ e.want # "p2sh" /\ e.bare /\ PayP2sh(e.script) = "" /\ PayHash(e.script, e.noncanon, TRUE) # "" /\ PayHash(e.script, e.noncanon, FALSE) = ""
  /\ HexLen(PubOf(e.script)) = 65
  /\ Matches(Ok(Address(s.chain, "p2pkh", Hash160(HexSub(PubOf(e.script), 1, 64)))), e.out)
Judge(s, e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "skip" -> <<>>
    [] e.op = "select" -> Expect("addr-chain", IF e.chain \in AddrChains THEN Ok("") ELSE Exc({"ValueError"}), e.out)
    [] e.op = "b58enc" -> Expect("addr-base58", Ok(B58Enc(e.h)), e.out)
    [] e.op = "b58dec" -> Expect("addr-base58", IF B58Good(e.s) THEN Ok(B58Dec(e.s)) ELSE Exc({"Base58Error"}), e.out)
    [] e.op = "data" -> Expect("addr-base58check", IF ~B58Good(e.s) THEN Exc({"InvalidBase58Error"}) ELSE IF ~CheckOk(e.s) THEN Exc({"Base58Error"})
                               ELSE Ok([ver |-> VerOf(e.s), data |-> DataOf(e.s), str |-> e.s]), e.out)
    [] e.op = "frombytes" -> Expect("addr-base58check", IF 0 <= e.ver /\ e.ver <= 255 THEN Ok([ver |-> e.ver, data |-> e.data, str |-> B58Check(e.ver, e.data)]) ELSE Exc({"ValueError"}), e.out)
    [] e.op = "frompubkey" /\ e.pub = "00" /\ ~e.invalid -> Expect("addr-make", Free, e.out)     \* the point at infinity
    [] Uncompressed(s, e) -> <<Diff("addr-bare-uncompressed", Should(s, e), e.out)>>
    [] e.op \in Makes -> Expect("addr-make", Made(Should(s, e)), e.out)
    [] e.op = "old" -> LET a == s.made[e.ref] IN
         Expect("addr-kept", Ok([kind |-> a.kind, hash |-> a.hash, ver |-> a.ver, str |-> a.str]), e.out)
    [] e.op = "oldscript" -> LET a == s.made[e.ref] IN
         IF Version(s.chain, a.kind) = a.ver \/ e.out.k = "ok" THEN Expect("addr-kept", Ok(a.script), e.out) ELSE Expect("addr-kept", AnyExc, e.out)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [chain |-> "mainnet", made |-> <<>>]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET e == Traces[tid].ev[l + 1] IN
            /\ st' = CASE e.op = "select" /\ e.chain \in AddrChains -> [st EXCEPT !.chain = e.chain]
                       [] e.op \in Makes /\ e.id > 0 -> [st EXCEPT !.made = Append(@, IF e.out.k = "ok" THEN e.out.v ELSE NoAddress)]
                       [] OTHER -> st
            /\ Report(tid, l + 1, Judge(st, e))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
