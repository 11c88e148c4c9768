------------------------------ MODULE TextTrace ------------------------------
(* Conformance of what the library prints to Text.                            *)
EXTENDS Text, TraceBase
VARIABLES tid, l
PF == INSTANCE Seal      \* what proofs commit to

ProofText(e) == CASE e.t = "txproof" -> "TxProof(<" \o PF!TxProofHash(e.v) \o ">)"
                  [] e.t = "txin" -> "TxInProof(<" \o PF!PartHash(PF!TagTxIn, e.v) \o ">)"
                  [] e.t = "txout" -> "TxOutProof(<" \o PF!PartHash(PF!TagTxOut, e.v) \o ">)"
                  [] e.t = "outpoint" -> "OutPointProof(<" \o PF!OutPointProofHash(e.v) \o ">)"
                  [] e.t = "seal" -> (IF e.v.t = "f" THEN "FakeSingleUseSeal" ELSE "BitcoinSingleUseSeal") \o "(<" \o PF!SealHash(e.v) \o ">)"

(* a script of which only part can be read ends in the error, wherever that is *)
Shown(e) == e.out.k = "ok" /\ Denotes(e.kind, e.out.v) = Means(e.kind, e.v)
Judge(e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "show" -> Require("text-reads-back", Shown(e), Means(e.kind, e.v), IF e.out.k = "ok" THEN <<Denotes(e.kind, e.out.v), e.text>> ELSE e.out)
    [] e.op = "total" -> Expect("text-printable", Ok(""), e.out)        \* printing it works
    [] e.op = "proof" -> Expect("text-proof", Ok(ProofText(e)), e.out)   \* pruned or not; without the module
    [] e.op = "difficulty" ->
         Require("text-difficulty", IF Mantissa(e.bits) = "0" \/ Exponent(e.bits) > 60 THEN e.out.k \in {"ok", "exc"}
                                    ELSE e.out.k = "ok" /\ Near(<<e.out.v.num, e.out.v.den>>, Difficulty(e.bits)), Difficulty(e.bits), e.out)
    [] e.op = "short" -> Expect("text-short", Ok(HexSub(HexRev(BLE(e.v, 32)), 1, 8)), e.out)
    [] e.op = "opname" -> Expect("text-opname", IF e.name = "OP_INVALIDOPCODE" THEN Free ELSE IF e.name \in DOMAIN OpCode THEN Ok(BOf(OpCode[e.name])) ELSE Exc({"KeyError"}), e.out)
    [] e.op = "smallop" ->     \* the operation that pushes n, and back
         Expect("text-smallop", IF BLe("0", e.n) /\ BLe(e.n, "16") THEN Ok([op |-> IF e.n = "0" THEN "0" ELSE BAdd(e.n, 80), n |-> e.n, small |-> TRUE]) ELSE Exc({"ValueError"}), e.out)
    [] e.op = "opsmall" ->
         Expect("text-smallop", IF e.v = "0" THEN Ok([n |-> "0", small |-> TRUE]) ELSE IF BLe("81", e.v) /\ BLe(e.v, "96") THEN Ok([n |-> BSub(e.v, 80), small |-> TRUE])
                                ELSE Ok([n |-> "error", small |-> FALSE]), e.out)

TInit == tid \in 1..Len(Traces) /\ l = 0
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ Report(tid, l + 1, Judge(Traces[tid].ev[l + 1]))
TSpec == TInit /\ [][TNext]_<<tid, l>>
TView == <<tid, l>>
=============================================================================
