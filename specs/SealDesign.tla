------------------------------ MODULE SealDesign ------------------------------
(* Design check of single-use seals: a chain in which every outpoint is spent *)
(* at most once, transactions with any inputs and outputs.  What a seal can   *)
(* be shown to be closed over never changes once it is something, and is one  *)
(* digest.  The constants weaken the rules of verification one at a time.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Outpoints, Digests, MaxIns, MaxOuts, FirstOutput, ChecksSpend, SameTx, MaxTxs
VARIABLES chain

NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Txs == {[ins |-> i, outs |-> o] : i \in {s \in Seqs(Outpoints, 1, MaxIns) : NoDup(s)}, o \in Seqs(Digests \cup {"other"}, 0, MaxOuts)}
SpentOuts == UNION {{t.ins[i] : i \in 1..Len(t.ins)} : t \in chain}

Accepts(seal, a, i, b, k, d) ==
  /\ i \in 1..Len(a.ins) /\ (ChecksSpend => a.ins[i] = seal)
  /\ (SameTx => a = b)
  /\ (FirstOutput => k = 1)
  /\ k \in 1..Len(b.outs) /\ b.outs[k] = d
ClosedOver(c, seal) == {d \in Digests : \E a, b \in c, i \in 1..MaxIns, k \in 1..MaxOuts : Accepts(seal, a, i, b, k, d)}

Init == chain = {}
Mine == /\ Cardinality(chain) < MaxTxs
        /\ \E t \in Txs : /\ \A i \in 1..Len(t.ins) : t.ins[i] \notin SpentOuts
                          /\ chain' = chain \cup {t}
Next == Mine
Spec == Init /\ [][Next]_chain

AtMostOne == \A o \in Outpoints : Cardinality(ClosedOver(chain, o)) <= 1
NeverChanges == [][\A o \in Outpoints : ClosedOver(chain, o) # {} => ClosedOver(chain', o) = ClosedOver(chain, o)]_chain
(* no unspent outpoint is ever closed *)
OnlySpent == \A o \in Outpoints : o \notin SpentOuts => ClosedOver(chain, o) = {}
=============================================================================
