------------------------------- MODULE SigDesign -------------------------------
(* Design check of signature hashes: two transactions that differ in one      *)
(* place are told apart under a hash type exactly if the type covers it.      *)
(* What is hashed is compared itself (hashes are taken as injective).         *)
EXTENDS Script, TLC, Json
CONSTANTS MaxIns, MaxOuts, Types, Broken
VARIABLES tx, was, idx, type, place, code

Hs == <<HexRep("11", 32), HexRep("22", 32), HexRep("33", 32)>>
In(i) == [prevout |-> [hash |-> Hs[i], n |-> BOf(i)], script |-> "51", seq |-> BOf(i + 4)]
Out(i) == [value |-> BOf(100 * i), script |-> U8(80 + i)]
Tx(n, m) == [version |-> "1", vin |-> [i \in 1..n |-> In(i)], vout |-> [i \in 1..m |-> Out(i)], lock |-> "7"]

Base == BInt(BMod(type, 32))
Alone == BInt(BMod(BDiv(type, 128), 2)) = 1
Covered(p) ==
  CASE p.k \in {"version", "lock"} -> TRUE
    [] p.k = "code" -> p.i # 1                                  \* i = 1: a separator is inserted
    [] p.k = "script" -> FALSE
    [] p.k \in {"hash", "n", "drop"} -> ~Alone \/ p.i = idx + 1
    [] p.k = "seq" -> (p.i = idx + 1) \/ (~Alone /\ Base \notin {2, 3})
    [] p.k \in {"value", "outscript"} -> Base # 2 /\ (Base = 3 => p.i = idx + 1)
    [] p.k = "dropout" -> Base # 2 /\ (Base = 3 => FALSE)       \* the last output, when it is not the one signed
Places(t) == [k : {"version", "lock"}, i : {0}] \cup [k : {"code"}, i : {0, 1}] \cup [k : {"hash", "n", "seq", "script"}, i : 1..Len(t.vin)]
             \cup [k : {"value", "outscript"}, i : 1..Len(t.vout)]
             \cup (IF Len(t.vin) > idx + 1 THEN {[k |-> "drop", i |-> Len(t.vin)]} ELSE {})
             \cup (IF Len(t.vout) > idx + 1 THEN {[k |-> "dropout", i |-> Len(t.vout)]} ELSE {})
Alter(t, p) ==
  CASE p.k = "version" -> [t EXCEPT !.version = "2"]
    [] p.k = "lock" -> [t EXCEPT !.lock = "8"]
    [] p.k = "code" -> t
    [] p.k = "hash" -> [t EXCEPT !.vin[p.i].prevout.hash = HexRep("44", 32)]
    [] p.k = "n" -> [t EXCEPT !.vin[p.i].prevout.n = "9"]
    [] p.k = "seq" -> [t EXCEPT !.vin[p.i].seq = "0"]
    [] p.k = "script" -> [t EXCEPT !.vin[p.i].script = "52"]
    [] p.k = "value" -> [t EXCEPT !.vout[p.i].value = "1"]
    [] p.k = "outscript" -> [t EXCEPT !.vout[p.i].script = ""]
    [] p.k = "drop" -> [t EXCEPT !.vin = SubSeq(@, 1, Len(@) - 1)]
    [] p.k = "dropout" -> [t EXCEPT !.vout = SubSeq(@, 1, Len(@) - 1)]
NoPlace == [k |-> "", i |-> 0]
Code0 == "76ab87"
Code(p) == IF p.k # "code" THEN Code0 ELSE IF p.i = 0 THEN "77ab87" ELSE "ab7687"

Init == /\ \E n \in 1..MaxIns, m \in 0..MaxOuts : tx = Tx(n, m)
        /\ idx \in 0..Len(tx.vin) - 1 /\ type \in Types
        /\ was = tx /\ place = NoPlace /\ code = Code0
Next == /\ place = NoPlace
        /\ \E p \in Places(tx) : place' = p /\ tx' = Alter(tx, p) /\ code' = Code(p)
        /\ UNCHANGED <<was, idx, type>>
Spec == Init /\ [][Next]_<<tx, was, idx, type, place, code>>

Image(c, t) == LET s == SigHashTx(c, t, idx, type) IN
  CASE Broken = "keepseq" -> TxBytes([s EXCEPT !.vin = [i \in 1..Len(@) |-> [@[i] EXCEPT !.seq = t.vin[IF Alone THEN idx + 1 ELSE i].seq]]])
    [] Broken = "scripts" -> TxBytes([s EXCEPT !.vin = [i \in 1..Len(@) |-> [@[i] EXCEPT !.script = @ \o t.vin[IF Alone THEN idx + 1 ELSE i].script]]])
    [] OTHER -> TxBytes(s)
Defined(t) == ~NoSuchOutput(t, idx, type)
CommitsExactly == place # NoPlace /\ Defined(tx) /\ Defined(was) => ((Image(code, tx) # Image(Code0, was)) <=> Covered(place))
(* without the output a single-output type signs, nothing at all is covered *)
OneOrNothing == ~Defined(tx) => SigHash(code, tx, idx, type) = HashOne
Emit == place = NoPlace \/ PrintT(<<"PROGRAM", ToJson(<<[op |-> "sighash", tx |-> was, idx |-> idx, type |-> type, script |-> Code0],
                                                       [op |-> "sighash", tx |-> tx, idx |-> idx, type |-> type, script |-> code]>>)>>)
=============================================================================
