------------------------------ MODULE ScriptTrace ------------------------------
(* Conformance of recorded uses of scripts to Script: signature hashes (C14), *)
(* evaluation (C13), construction and classification (C19).                   *)
EXTENDS Rules, ScriptNames, TraceBase
VARIABLES tid, l, st

None == "None"
(* ---- building and reading ---- *)
SmallInt(n) == BLe("0", n) /\ BLe(n, "16")
ItemBytes(it) ==
  CASE it.t = "op" -> U8(it.v)
    [] it.t = "int" -> IF it.v = "0" THEN "00" ELSE IF SmallInt(it.v) THEN U8(BAdd(it.v, 80)) ELSE IF it.v = "-1" THEN "4f" ELSE PushBytes(NumBytes(it.v))
    [] OTHER -> PushBytes(it.v)
Built(items) == HexCat([i \in 1..Len(items) |-> ItemBytes(items[i])])
Cooked(o) ==
  IF o.push THEN [t |-> "bytes", v |-> o.data]
  ELSE IF o.op \in 81..96 THEN [t |-> "int", v |-> BOf(o.op - 80)] ELSE [t |-> "op", v |-> BOf(o.op)]
End(p) == IF p.ok THEN [end |-> "ok", data |-> ""] ELSE [end |-> p.why, data |-> IF p.why = "trunc" THEN p.data ELSE ""]
(* does the parse get past a plain push of what is missing *)
CookedIter(h) == LET p == Parse(h) IN [items |-> [i \in 1..Len(p.ops) |-> Cooked(p.ops[i])], end |-> End(p)]
RawIter(h) == LET p == Parse(h) IN
  [items |-> [i \in 1..Len(p.ops) |-> [op |-> p.ops[i].op, data |-> IF p.ops[i].push THEN p.ops[i].data ELSE None, at |-> p.ops[i].at]], end |-> End(p)]

Canonical(o) ==
  LET n == HexLen(o.data) IN
  CASE o.op > 96 -> TRUE
    [] 0 < o.op /\ o.op < 76 -> ~(n = 1 /\ HexAt(o.data, 1) <= 16)
    [] o.op = 76 -> n >= 76
    [] o.op = 77 -> n > 255
    [] o.op = 78 -> n > 65535
    [] OTHER -> TRUE
Classes(h) ==
  LET p == Parse(h) IN
  [p2sh |-> IsP2SH(h), push |-> PushOnly(h), canon |-> p.ok /\ \A i \in 1..Len(p.ops) : Canonical(p.ops[i]),
   unspendable |-> HexLen(h) > 0 /\ HexAt(h, 1) = 106, valid |-> p.ok, acc |-> SigOps(h, TRUE), leg |-> SigOps(h, FALSE)]
P2SHOf(h) == "a914" \o Hash160(h) \o "87"

(* ---- signature hashes ---- *)
RawSig(e) == Ok([hash |-> SigHash(e.script, e.tx, e.idx, e.type), err |-> e.idx >= Len(e.tx.vin) \/ NoSuchOutput(e.tx, e.idx, e.type)])
WantSig(e) == IF e.idx >= Len(e.tx.vin) THEN (IF e.raw THEN RawSig(e) ELSE Exc({"ValueError"}))
              ELSE IF ~Parses(e.script) THEN Free
              ELSE IF e.raw THEN RawSig(e)
              ELSE IF NoSuchOutput(e.tx, e.idx, e.type) THEN Exc({"ValueError"}) ELSE Ok([hash |-> SigHash(e.script, e.tx, e.idx, e.type), err |-> FALSE])

(* ---- evaluation ---- *)
WantEval(e) == LET m == Eval([script |-> e.script, tx |-> e.tx, idx |-> e.idx], e.stack) IN
               IF m.st = "ok" THEN Ok(m.stack) ELSE Exc({"EvalScriptError"})
WantVerify(e) == IF VerifyInput(e.sig, e.pub, e.tx, e.idx, e.p2sh) THEN Ok("") ELSE Exc({"ValidationError"})
(* a transaction spending another's output *)
WantSigOf(e) ==
  IF e.idx < 0 \/ e.idx >= Len(e.tx.vin) THEN Exc({"VerifySignatureError"})
  ELSE LET i == e.tx.vin[e.idx + 1] IN
       IF BLe(BOf(Len(e.from.vout)), i.prevout.n) \/ i.prevout.hash # Txid(e.from) THEN Exc({"VerifySignatureError"})
       ELSE IF VerifyInput(i.script, e.from.vout[BInt(i.prevout.n) + 1].script, e.tx, e.idx, FALSE) THEN Ok("") ELSE Exc({"ValidationError"})

Judge(e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "skip" -> <<>>
    [] e.op = "sighash" -> Expect("sighash", WantSig(e), e.out) \o Require("sighash-unchanged", e.after = e.tx, e.tx, e.after)
    [] e.op = "fad" -> Expect("sighash-delete", IF Parses(e.script) THEN Ok(Without(e.script, e.pat)) ELSE Free, e.out)
    [] e.op = "eval" -> Expect("eval", WantEval(e), e.out)
    [] e.op = "verify" -> Expect("verify", WantVerify(e), e.out)
    [] e.op = "vsig" -> Expect("verify-sig", WantSigOf(e), e.out)
    [] e.op = "build" -> Expect("script-build", Ok(Built(e.items)), e.out)
    [] e.op = "grow" -> Expect("script-build", Ok(e.script \o Built(e.items)), e.out)
    [] e.op = "buildbad" -> Expect("script-build", AnyExc, e.out)
    [] e.op = "iter" -> Expect("script-iter", Ok(CookedIter(e.script)), e.out)
    [] e.op = "raw" -> Expect("script-iter", Ok(RawIter(e.script)), e.out)
    [] e.op = "back" -> Expect("script-iter", Ok([items |-> [i \in 1..Len(e.items) |-> IF e.items[i] = [t |-> "int", v |-> "0"] THEN [t |-> "bytes", v |-> ""]
                                                        ELSE IF e.items[i] = [t |-> "int", v |-> "-1"] THEN [t |-> "op", v |-> "79"]
                                                        ELSE IF e.items[i].t = "int" /\ ~SmallInt(e.items[i].v) THEN [t |-> "bytes", v |-> NumBytes(e.items[i].v)]
                                                        ELSE e.items[i]], end |-> [end |-> "ok", data |-> ""]]), e.out)
    [] e.op = "class" -> Expect("script-class", Ok(Classes(e.script)), e.out)
    [] e.op = "p2sh" -> Expect("script-p2sh", IF e.check /\ HexLen(e.script) > MaxElement THEN Exc({"ValueError"}) ELSE Ok(P2SHOf(e.script)), e.out)
    [] e.op = "opn" -> Expect("script-op", IF 0 <= e.n /\ e.n <= 16 THEN Ok(IF e.n = 0 THEN 0 ELSE 80 + e.n) ELSE Exc({"ValueError"}), e.out)
    [] e.op = "nop" -> Expect("script-op", Ok([small |-> e.n = 0 \/ e.n \in 81..96]), e.out)
    [] e.op = "deopn" -> Expect("script-op", IF e.n = 0 THEN Ok(0) ELSE IF e.n \in 81..96 THEN Ok(e.n - 80) ELSE Exc({"ValueError"}), e.out)
    [] e.op = "pushdata" -> Expect("script-op", Ok(PushBytes(e.v)), e.out)
    [] e.op = "name" -> Expect("script-name", Ok(IF \E n \in DOMAIN OpCode : OpCode[n] = e.n
                                                 THEN [name |-> CHOOSE n \in DOMAIN OpCode : OpCode[n] = e.n, same |-> TRUE, mod |-> TRUE]
                                                 ELSE [name |-> "", same |-> TRUE, mod |-> TRUE]), e.out)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid /\ st' = st
         /\ Report(tid, l + 1, Judge(Traces[tid].ev[l + 1]))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
