------------------------------ MODULE RulesTrace ------------------------------
(* Conformance of recorded checks to Rules.  State: the chain selected.       *)
EXTENDS Rules, TraceBase
VARIABLES tid, l, st

Chains == {"mainnet", "testnet", "regtest"}
Pass(c, cls) == IF c THEN Ok("") ELSE Exc({cls})
Judge(e) ==
  CASE e.op = "crash" -> <<Diff("crash", "no exception", e.why)>>
    [] e.op = "select" -> Expect("check-chain", IF e.chain \in Chains THEN Ok("") ELSE Exc({"ValueError"}), e.out)
    [] e.op = "tx" -> Expect("check-tx", Pass(GoodTransaction(e.tx), "CheckTransactionError"), e.out)
    [] e.op = "txfacts" -> Expect("check-facts", Ok([coinbase |-> IsCoinbase(e.tx), null |-> [i \in 1..Len(e.tx.vin) |-> e.tx.vin[i].prevout = NullPoint],
                                                    final |-> [i \in 1..Len(e.tx.vin) |-> e.tx.vin[i].seq = "4294967295"], sigops |-> TxSigOps(e.tx)]), e.out)
    [] e.op = "pow" -> Expect("check-pow", Pass(EnoughWork(st, e.hash, e.bits), "CheckProofOfWorkError"), e.out)
    [] e.op = "compact" -> Expect("check-compact", IF SignBit(e.bits) THEN Free ELSE Ok(Target(e.bits)), e.out)
    [] e.op = "u256" -> Expect("check-u256", Ok(BOfLE(e.h)), e.out)
    [] e.op = "money" -> Expect("check-money", Ok(BLe("0", e.v) /\ BLe(e.v, MaxMoney)), e.out)
    [] e.op = "header" -> Expect("check-header", Pass(GoodBlockHeader(st, e.b, e.pow, e.now), "CheckBlockHeaderError"), e.out)
    [] e.op = "block" -> Expect("check-block", Pass(GoodBlock(st, e.b, e.pow, e.root, e.now), "ValidationError"), e.out)
    [] e.op = "tree" -> Expect("check-merkle", Ok(MerkleTree(e.ids)), e.out)
    [] e.op = "root" -> Expect("check-merkle", IF e.b.vtx = <<>> THEN Exc({"ValueError"})
                               ELSE Ok([root |-> MerkleRoot(Txids(e.b)), tree |-> MerkleTree(Txids(e.b)), hash |-> BlockHash(e.b)]), e.out)
    [] e.op = "genesis" -> Expect("check-genesis", Ok([name |-> st, limit |-> Limit(st), half |-> IF st = "regtest" THEN "150" ELSE "210000", hash |->
          CASE st = "mainnet" -> "6fe28c0ab6f1b372c1a6a246ae63f74f931e8365e15a089c68d6190000000000"
            [] st = "testnet" -> "43497fd7f826957108f4a30fd9cec3aeba79972084e90ead01ea330900000000"
            [] OTHER -> "06226e46111a0b59caaf126043eb5bbf28c34f3a5e332a1fc7b2b73cf188910f",
        magic |-> CASE st = "mainnet" -> "f9beb4d9" [] st = "testnet" -> "0b110907" [] OTHER -> "fabfb5da",
        ports |-> CASE st = "mainnet" -> <<8333, 8332>> [] st = "testnet" -> <<18333, 18332>> [] OTHER -> <<18444, 18332>>,
        b58 |-> IF st = "mainnet" THEN <<0, 5, 128>> ELSE <<111, 196, 239>>]), e.out)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = "mainnet"
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET e == Traces[tid].ev[l + 1] IN
            /\ st' = IF e.op = "select" THEN (IF e.chain \in Chains THEN e.chain ELSE st) ELSE st
            /\ Report(tid, l + 1, Judge(e))
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
