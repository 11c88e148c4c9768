------------------------------- MODULE KeyTrace -------------------------------
(* Conformance of recorded uses of keys.  State: the chain selected.  Keys    *)
(* are identified by what they were made from, which every event repeats.     *)
EXTENDS Base58, Ec, TraceBase
VARIABLES tid, l, st

HasSecret(s) == HexLen(s) = 32 /\ EcPubOf(s, TRUE) # ""
Wif(chain, secret, comp) == B58Check(Version(chain, "secret"), secret \o (IF comp THEN "01" ELSE ""))
WifGood(chain, s) == B58Good(s) /\ CheckOk(s) /\ VerOf(s) = Version(chain, "secret")
                     /\ (HexLen(DataOf(s)) = 32 \/ (HexLen(DataOf(s)) = 33 /\ HexAt(DataOf(s), 33) = 1))
Secret(s) == HexSub(DataOf(s), 1, 32)
Comp(s) == HexLen(DataOf(s)) = 33
About(secret, comp) == [pub |-> EcPubOf(secret, comp), comp |-> comp, valid |-> TRUE, full |-> TRUE]
Judge(c, e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "skip" -> <<>>
    [] e.op = "select" -> Expect("key-chain", Ok(""), e.out)
    [] e.op = "key" -> Expect("key-public", IF HexLen(e.secret) # 32 THEN AnyExc ELSE IF ~HasSecret(e.secret) THEN Free ELSE Ok(About(e.secret, e.comp)), e.out)
    [] e.op = "form" -> Expect("key-public", Ok(EcPubOf(e.secret, e.comp)), e.out)
    [] e.op = "sign" -> IF HexLen(e.digest) # 32 THEN Expect("key-sign", Exc({"ValueError"}), e.out)
                        ELSE IF e.out.k # "ok" THEN Expect("key-sign", Ok("a signature"), e.out)
                        ELSE Require("key-sign", EcVerify(EcPubOf(e.secret, TRUE), e.digest, e.out.v), "a valid signature", e.out)
    [] e.op = "verify" -> Expect("key-verify", IF HexLen(e.digest) # 32 THEN Free ELSE Ok(EcPoint(e.pub) /\ EcVerify(e.pub, e.digest, e.sig)), e.out)
    [] e.op = "pub" -> Expect("key-parse", Ok([valid |-> e.pub # "", full |-> EcPoint(e.pub) \/ e.pub = "00", comp |-> HexLen(e.pub) = 33, bytes |-> e.pub]), e.out)
    [] e.op = "ecdh" -> Expect("key-shared", Ok(LET s == EcShared(e.secret, EcPubOf(e.other, TRUE)) IN IF e.kdf = "raw" THEN s ELSE IF e.kdf = "sha" THEN Sha256(s) ELSE Hash256(s)), e.out)
    [] e.op = "der" -> Expect("key-private", Ok(EcPubOf(e.secret, e.comp)), e.out)
    [] e.op = "wif" -> Expect("key-text", IF HexLen(e.secret) # 32 THEN AnyExc ELSE IF ~HasSecret(e.secret) THEN Free
                                          ELSE Ok([str |-> Wif(c, e.secret, e.comp), about |-> About(e.secret, e.comp)]), e.out)
    [] e.op = "unwif" -> Expect("key-text", IF ~WifGood(c, e.s) THEN Exc({"Base58Error"}) ELSE IF ~HasSecret(Secret(e.s)) THEN Free
                                            ELSE Ok([secret |-> Secret(e.s), about |-> About(Secret(e.s), Comp(e.s)), str |-> e.s]), e.out)
    [] e.op = "again" -> Expect("key-kept", IF ~HasSecret(e.secret) THEN Free ELSE Ok(About(e.secret, e.comp)), e.out)      \* a key made before, looked at again

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = "mainnet"
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET e == Traces[tid].ev[l + 1] IN
            /\ st' = IF e.op = "select" THEN e.chain ELSE st
            /\ Report(tid, l + 1, Judge(st, e))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
