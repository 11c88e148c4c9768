-------------------------------- MODULE SusTool --------------------------------
(* The seal tool's commands over a file system: name -> file, where a file is *)
(* [t |-> "seal" | "witness" | "junk", v, hex].  A command's effect is         *)
(* [ok, out, files]: whether it succeeds, what it writes to standard output,  *)
(* and the files it creates, in order.                                        *)
EXTENDS Seal, TLC

SealBytes(s) == "00" \o VarB(OutPoint(s.outpoint)) \o s.nonce
TxProofBytes(tx) == "00" \o VarB(TxBytes(tx))
PartBytes(i, tx) == "00" \o EncVarUint(i) \o TxProofBytes(tx)
WitnessBytes(w) == "00" \o SealBytes(w.seal) \o PartBytes(w.i, w.itx) \o PartBytes(w.o, w.otx)

Exist(fs, n) == n \in DOMAIN fs
IsA(fs, n, t) == Exist(fs, n) /\ fs[n].t = t
Refused == [ok |-> FALSE, out |-> "", files |-> <<>>]
Succeeded(o, fl) == [ok |-> TRUE, out |-> o, files |-> fl]
File(n, t, v) == [name |-> n, t |-> t, v |-> v]

(* the nonce is the tool's choice *)
MkSeal(fs, outpoint, name, nonce) ==
  IF outpoint.n = "bad" \/ Exist(fs, name) THEN Refused
  ELSE Succeeded("", <<File(name, "seal", [t |-> "b", outpoint |-> outpoint, nonce |-> nonce])>>)

MkCloseTx(fs, d, names, meth) ==
  IF d = "bad" \/ \E i \in 1..Len(names) : ~IsA(fs, names[i], "seal") THEN Refused
  ELSE LET seals == [i \in 1..Len(names) |-> fs[names[i]].v] IN
       IF \E i, j \in 1..Len(names) : i # j /\ seals[i] = seals[j] THEN Refused
       ELSE Succeeded(TxBytes(Template(seals, d, meth, "600")), <<>>)

SpentBy(tx, o) == {i \in 1..Len(tx.vin) : tx.vin[i].prevout = o}
RECURSIVE MkWitness(_, _, _, _)
MkWitness(fs, tx, names, made) ==
  IF tx.lock = "bad" THEN Refused
  ELSE IF names = <<>> THEN Succeeded("", made)
  ELSE LET n == Head(names)  w == n \o ".witness" IN
       IF ~IsA(fs, n, "seal") THEN [Refused EXCEPT !.files = made]
       ELSE LET is == SpentBy(tx, fs[n].v.outpoint) IN
            IF is = {} \/ Exist(fs, w) \/ \E k \in 1..Len(made) : made[k].name = w THEN [Refused EXCEPT !.files = made]
            ELSE LET i == CHOOSE a \in is : \A b \in is : a <= b IN
                 MkWitness(fs, tx, Tail(names),
                           Append(made, File(w, "witness", [t |-> "b", seal |-> fs[n].v, i |-> BOf(i - 1), itx |-> tx, o |-> "0", otx |-> tx])))

(* d, sealfile, id: "" if not given *)
Verify(fs, name, d, sealfile, id) ==
  IF /\ IsA(fs, name, "witness") /\ d # "bad" /\ id # "bad"
     /\ LET w == fs[name].v IN
        /\ Closes(w)
        /\ (d # "" => Witnesses(w, d))
        /\ (sealfile # "" => IsA(fs, sealfile, "seal") /\ fs[sealfile].v = w.seal)
        /\ (id # "" => SealHash(w.seal) = id)
  THEN Succeeded("", <<>>) ELSE Refused

OutPointText(o) == HexRev(o.hash) \o ":" \o o.n
SealInfo(fs, name) == IF IsA(fs, name, "seal") THEN Succeeded(<<SealHash(fs[name].v), OutPointText(fs[name].v.outpoint)>>, <<>>) ELSE Refused
WitnessInfo(fs, name) == IF IsA(fs, name, "witness")
  THEN LET w == fs[name].v IN Succeeded(<<WitnessHash(w), HexRev(Txid(w.itx)), SealHash(w.seal), OutPointText(w.seal.outpoint)>>, <<>>)
  ELSE Refused
=============================================================================
