-------------------------------- MODULE Rules --------------------------------
(* Bitcoin's context-free rules for transactions, headers and blocks.         *)
EXTENDS Script, FiniteSets

MaxMoney == "2100000000000000"
MaxBlockSize == 1000000
MaxBlockSigOps == 20000
NullPoint == [hash |-> HexRep("00", 32), n |-> "4294967295"]

IsCoinbase(t) == Len(t.vin) = 1 /\ t.vin[1].prevout = NullPoint
SumOut(t) == FoldLeft(LAMBDA a, o : BAdd(a, o.value), "0", t.vout)
GoodTransaction(t) ==
  /\ t.vin # <<>> /\ t.vout # <<>>
  /\ HexLen(TxBytes(t)) <= MaxBlockSize
  /\ \A i \in 1..Len(t.vout) : BLe("0", t.vout[i].value) /\ BLe(t.vout[i].value, MaxMoney)
  /\ BLe(SumOut(t), MaxMoney)
  /\ Cardinality({t.vin[i].prevout : i \in 1..Len(t.vin)}) = Len(t.vin)
  /\ IF IsCoinbase(t) THEN LET n == HexLen(t.vin[1].script) IN 2 <= n /\ n <= 100
     ELSE \A i \in 1..Len(t.vin) : t.vin[i].prevout # NullPoint

(* signature operations, up to the first invalid push *)
SigOps(h, accurate) ==
  LET p == Parse(h)
      count(i) == CASE p.ops[i].op \in {172, 173} -> 1
                    [] p.ops[i].op \in {174, 175} -> IF accurate /\ i > 1 /\ p.ops[i - 1].op \in 81..96 THEN p.ops[i - 1].op - 80 ELSE 20
                    [] OTHER -> 0 IN
  FoldLeft(LAMBDA a, i : a + count(i), 0, Upto(Len(p.ops)))
TxSigOps(t) == FoldLeft(LAMBDA a, i : a + SigOps(i.script, FALSE), 0, t.vin) + FoldLeft(LAMBDA a, o : a + SigOps(o.script, FALSE), 0, t.vout)

(* the target of a compact encoding without its sign bit *)
SignBit(c) == BMod(BDiv(c, "8388608"), 2) = "1"
Target(c) ==
  LET size == BInt(BMod(BDiv(c, "16777216"), 256))  word == BMod(c, "16777216") IN
  IF size <= 3 THEN BDiv(word, BPow("256", 3 - size)) ELSE BMul(word, BPow("256", size - 3))
Limit(chain) == BSub(BPow("2", IF chain = "regtest" THEN 255 ELSE 224), 1)
EnoughWork(chain, hash, bits) ==
  /\ ~SignBit(bits) /\ BLt("0", Target(bits)) /\ BLe(Target(bits), Limit(chain))
  /\ BLe(BOfLE(hash), Target(bits))
BlockHash(b) == Hash256(HeaderBytes(b))
GoodBlockHeader(chain, b, pow, now) ==
  /\ pow => EnoughWork(chain, BlockHash(b), b.bits)
  /\ BLe(b.time, BAdd(now, 7200))

(* Merkle trees: levels from the leaves to the root, an odd one paired with itself *)
MerkleUp(s) == [i \in 1..((Len(s) + 1) \div 2) |-> Hash256(s[2 * i - 1] \o (IF 2 * i <= Len(s) THEN s[2 * i] ELSE s[2 * i - 1]))]
RECURSIVE MerkleTree(_)
MerkleTree(s) == IF Len(s) <= 1 THEN s ELSE s \o MerkleTree(MerkleUp(s))
MerkleRoot(s) == LET t == MerkleTree(s) IN t[Len(t)]
Txids(b) == [i \in 1..Len(b.vtx) |-> Txid(b.vtx[i])]

GoodBlock(chain, b, pow, root, now) ==
  /\ GoodBlockHeader(chain, b, pow, now)
  /\ b.vtx # <<>>
  /\ HexLen(BlockBytes(b)) <= MaxBlockSize
  /\ IsCoinbase(b.vtx[1])
  /\ \A i \in 2..Len(b.vtx) : ~IsCoinbase(b.vtx[i])
  /\ \A i \in 1..Len(b.vtx) : GoodTransaction(b.vtx[i])
  /\ LET ids == Txids(b) IN Cardinality({ids[i] : i \in 1..Len(ids)}) = Len(ids)
  /\ FoldLeft(LAMBDA a, t : a + TxSigOps(t), 0, b.vtx) <= MaxBlockSigOps
  /\ root => b.root = MerkleRoot(Txids(b))
=============================================================================
