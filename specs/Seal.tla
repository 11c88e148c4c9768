--------------------------------- MODULE Seal ---------------------------------
(* Transaction proofs, single-use seals, their witnesses, and globally unique *)
(* maps: what each commits to, and what verifies.                             *)
(*   tx        see BtcWire                                                    *)
(*   txpart    [i, tx]           proof of an input or output                  *)
(*   seal      [t |-> "b", outpoint, nonce] or [t |-> "f", ch]                *)
(*   witness   [t |-> "b", seal, i, itx, o, otx] or [t |-> "f", seal]         *)
(*   node      [k |-> "U", prefix, seal], [k |-> "L", witness, key, value],   *)
(*             [k |-> "I", prefix, witness, left, right]                      *)
EXTENDS Integers, Sequences, Commit, BtcWire

TxPad == "4cf810b73dc605fbe6c2156a7041e370f4750e39d2d1573199c772c7324bd054"
TagTxIn  == "65d34d83329148139119bd7e29b9dea3"
TagTxOut == "ed6246637a204dd689809870003dfbe7"
TagOutPointProof == "557eb53363be497db1637d1875de9681"
TagFakeSeal == "e5690d7316e34f8fbd4f148c32d37baf"
TagFakeWitness == "a5092f563a31476aac811b00211140eb"
TagSeal == "b59093bf527f4d2a9a513c2e3d2f0c25"
TagWitness == "2ca464a01b8c4aa58e725d3aaa804cbd"
SubUnused == "dae47befd9a34971a6a41c67c5f02c11"
SubLeafP  == "0c60f34491094930aec1432c5750fcba"
SubInnerP == "6893cac7e83449cd8e9577707b0499b5"
LeafContents  == "59c17f37" \o "7e26" \o "4aea" \o "8a5b" \o "7c0db66af35b"
InnerContents == "b925044d" \o "320e" \o "4c1f" \o "9ef8" \o "20614d260676"

(* commitments *)
TxProofHash(tx) == HexXor(Txid(tx), TxPad)
PartHash(tag, p) == ProofHash(tag, DataHash(<<EncVarUint(p.i), TxProofHash(p.tx)>>))
OutPointProofHash(p) == ProofHash(TagOutPointProof, DataHash(<<TxProofHash(p.tx), EncVarUint(p.i)>>))
VarB(b) == EncVarUint(HexLen(b)) \o b
SealHash(s) == IF s.t = "f" THEN ProofHash(TagFakeSeal, DataHash(<<s.ch>>))
               ELSE ProofHash(TagSeal, DataHash(<<VarB(OutPoint(s.outpoint)), s.nonce>>))
WitnessHash(w) == IF w.t = "f" THEN ProofHash(TagFakeWitness, DataHash(<<SealHash(w.seal)>>))
  ELSE ProofHash(TagWitness, DataHash(<<SealHash(w.seal), PartHash(TagTxIn, [i |-> w.i, tx |-> w.itx]),
                                        PartHash(TagTxOut, [i |-> w.o, tx |-> w.otx])>>))

(* what exists *)
Exists(parts, i) == BLt(i, Len(parts))
PartAt(parts, i) == parts[BInt(i) + 1]

(* the three ways of committing to a digest in an output *)
Return(d) == "6a20" \o d
P2SH(d)   == "a914" \o Hash160(d) \o "87"
P2PKH(d)  == "76a914" \o Hash160(d) \o "88ac"
CommitsTo(script, d) == HexLen(d) = 32 /\ script \in {Return(d), P2SH(d), P2PKH(d)}

Closes(w) == /\ Exists(w.itx.vin, w.i)
             /\ PartAt(w.itx.vin, w.i).prevout = w.seal.outpoint
             /\ w.itx = w.otx
             /\ w.o = "0"
Witnesses(w, d) == IF w.t = "f" THEN w.seal.ch = d
                   ELSE Closes(w) /\ Exists(w.otx.vout, w.o) /\ CommitsTo(PartAt(w.otx.vout, w.o).script, d)

(* the transaction that would close seals over a digest *)
RECURSIVE Unique(_, _)
Unique(s, acc) == IF s = <<>> THEN acc
  ELSE Unique(Tail(s), IF \E i \in 1..Len(acc) : acc[i] = Head(s) THEN acc ELSE Append(acc, Head(s)))
Template(seals, d, meth, dust) ==
  LET ops == Unique([i \in 1..Len(seals) |-> seals[i].outpoint], <<>>) IN
  [version |-> "1", lock |-> "0",
   vin |-> [i \in 1..Len(ops) |-> [prevout |-> ops[i], script |-> "", seq |-> "4294967295"]],
   vout |-> <<[value |-> IF meth = "op_return" THEN "0" ELSE dust,
               script |-> CASE meth = "op_return" -> (IF HexLen(d) = 32 THEN Return(d) ELSE "?")
                            [] meth = "p2sh" -> P2SH(d) [] meth = "p2pkh" -> P2PKH(d)]>>]

(* globally unique maps; c = [tag, key, value]: key and value are "ser", or   *)
(* the hash tag of their class if they are proofs                             *)
NodeTag(c, k) == Derive(CASE k = "U" -> SubUnused [] k = "L" -> SubLeafP [] k = "I" -> SubInnerP, c.tag)
Contrib(tag, s) == IF tag = "ser" THEN s ELSE ProofHash(tag, DataHash(<<s>>))
SealOf(n) == IF n.k = "U" THEN n.seal ELSE n.witness.seal
Contents(c, n) ==
  IF n.k = "L" THEN Tagged(Derive(LeafContents, NodeTag(c, "L")), Contrib(c.key, n.key) \o Contrib(c.value, n.value))
  ELSE Tagged(Derive(InnerContents, NodeTag(c, "I")), SealHash(SealOf(n.left)) \o SealHash(SealOf(n.right)))
RECURSIVE NodeHash(_, _)
NodeHash(c, n) == ProofHash(NodeTag(c, n.k),
  CASE n.k = "U" -> DataHash(<<EncBits(n.prefix), SealHash(n.seal)>>)
    [] n.k = "L" -> DataHash(<<WitnessHash(n.witness), Contrib(c.key, n.key), Contrib(c.value, n.value)>>)
    [] n.k = "I" -> DataHash(<<EncBits(n.prefix), WitnessHash(n.witness), NodeHash(c, n.left), NodeHash(c, n.right)>>))

(* what is written for them, nothing being pruned *)
WTx(tx) == "00" \o VarB(TxBytes(tx))
WPart(p) == "00" \o EncVarUint(p.i) \o WTx(p.tx)
WOutPoint(p) == "00" \o WTx(p.tx) \o EncVarUint(p.i)
WSeal(s) == "00" \o (IF s.t = "f" THEN s.ch ELSE VarB(OutPoint(s.outpoint)) \o s.nonce)
WWitness(w) == "00" \o WSeal(w.seal) \o (IF w.t = "f" THEN "" ELSE WPart([i |-> w.i, tx |-> w.itx]) \o WPart([i |-> w.o, tx |-> w.otx]))
Which(x) == IF x.t = "f" THEN "00" ELSE "01"          \* of fake and real seals or witnesses
WContent(tag, s) == IF tag = "ser" THEN s ELSE "00" \o s
RECURSIVE WNode(_, _)
WNode(c, n) == "00" \o
  (CASE n.k = "U" -> "00" \o EncBits(n.prefix) \o Which(n.seal) \o WSeal(n.seal)
     [] n.k = "L" -> "01" \o Which(n.witness) \o WWitness(n.witness) \o WContent(c.key, n.key) \o WContent(c.value, n.value)
     [] n.k = "I" -> "02" \o EncBits(n.prefix) \o Which(n.witness) \o WWitness(n.witness) \o WNode(c, n.left) \o WNode(c, n.right))
NodeVerifies(c, n) == n.k = "U" \/ Witnesses(n.witness, Contents(c, n))
=============================================================================
