------------------------------ MODULE TextDesign ------------------------------
(* Objects and a way to print them: reading the print gives the object back,  *)
(* for every object over a few values of each field; not so for designs that  *)
(* drop digits, show hashes the wrong way round, or leave out what is not the *)
(* default.  Enumerates the objects for the driver.                           *)
EXTENDS Text, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxIO, Broken
VARIABLES obj, text

H(n) == CASE n = 0 -> Null32 [] n = 1 -> HexRep("ff", 32) [] n = 2 -> "01" \o HexRep("00", 30) \o "80"
Values == {"-9223372036854775808", "-1", "0", "1", "10", "99999999", "100000000", "100000001", "123450000000", "2100000000000000", "9223372036854775807"}
Scripts == {"", "00", "51", "60", "4f", "ba", "0100", "4c00", "4c0101", "76a90188ac", "02ab", "4d01", "6a4c", "ff"}
Points == [hash : {H(0), H(1), H(2)}, n : {"0", "1", "4294967295"}]
TxIns == [prevout : {[hash |-> H(0), n |-> "4294967295"], [hash |-> H(2), n |-> "0"]}, script : {"", "0100", "02ab"}, seq : {"0", "4294967295"}]
TxOuts == [value : Values, script : {"", "51", "6a4c"}]
Upto1(S) == {<<>>} \cup {<<x>> : x \in S}
UptoN(S, n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN Upto1(S) ELSE Upto1(S) \cup (S \X S)
FewIns == {[prevout |-> [hash |-> H(2), n |-> "7"], script |-> "00", seq |-> "1"], [prevout |-> [hash |-> H(0), n |-> "4294967295"], script |-> "", seq |-> "4294967295"]}
FewOuts == {[value |-> "-1", script |-> ""], [value |-> "150000000", script |-> "51"]}
Txs == [vin : UptoN(FewIns, MaxIO), vout : UptoN(FewOuts, MaxIO), lock : {"0", "4294967295"}, version : {"1", "-2147483648", "2"}]
Headers == [version : {"2", "-1"}, prev : {H(0), H(2)}, root : {H(0), H(2)}, time : {"0", "4294967295"}, bits : {"0", "486604799"}, nonce : {"0", "4294967295"}, vtx : {<<>>}]
Objects(k) == CASE k = "outpoint" -> Points [] k = "txin" -> TxIns [] k = "txout" -> TxOuts [] k = "tx" -> Txs
                [] k = "header" -> Headers [] k = "script" -> Scripts [] k = "op" -> {BOf(i) : i \in 0..255}

(* ---- a design ---- *)
I(v) == IF BLt(v, "0") THEN Node("neg", "", <<Node("int", BSub("0", v), <<>>)>>) ELSE Node("int", v, <<>>)
S(v) == Node("str", v, <<>>)
Call(f, a) == Node("call", f, a)
List(s) == Node("list", "", s)
NameOf(v) == IF \E n \in DOMAIN OpCode : BOf(OpCode[n]) = v THEN Node("name", CHOOSE n \in DOMAIN OpCode : BOf(OpCode[n]) = v, <<>>) ELSE Call("CScriptOp", <<I(v)>>)
Coins(v) ==
  LET q == BDiv(v, "1000000") IN
  IF BLt(v, "0") THEN I(v)
  ELSE Node("mul", "", <<IF Broken = "digits" THEN [t |-> "dec", v |-> q, a |-> <<>>, e |-> 2] ELSE [t |-> "dec", v |-> v, a |-> <<>>, e |-> 8], Node("name", "COIN", <<>>)>>)
ShowHash(h) == IF Broken = "order" THEN Call("lx", <<S(h)>>) ELSE Call("lx", <<S(HexRev(h))>>)
ShowItem(i) == CASE i.t = "op" -> NameOf(i.v) [] i.t = "int" -> I(i.v) [] i.t = "bytes" -> Call("x", <<S(i.v)>>)
                 [] i.t = "error" -> Call("ERROR", IF i.v = "none" THEN <<>> ELSE <<Call("x", <<S(i.v)>>)>>)
ShowScript(h) == LET o == Operations(h) IN Call("CScript", <<List([i \in 1..Len(o) |-> ShowItem(o[i])])>>)
ShowPoint(o) == IF o.n = "4294967295" /\ (o.hash = Null32 \/ Broken = "null") THEN Call("COutPoint", <<>>) ELSE Call("COutPoint", <<ShowHash(o.hash), I(o.n)>>)
ShowIn(i) == Call("CTxIn", <<ShowPoint(i.prevout), ShowScript(i.script), I(i.seq)>>)
ShowOut(o) == Call("CTxOut", <<Coins(o.value), ShowScript(o.script)>>)
ShowTx(t) == Call("CTransaction", <<List([i \in 1..Len(t.vin) |-> ShowIn(t.vin[i])]), List([i \in 1..Len(t.vout) |-> ShowOut(t.vout[i])]), I(t.lock)>>
                                  \o (IF Broken = "version" THEN <<>> ELSE <<I(t.version)>>))
ShowHeader(b) == Call("CBlockHeader", <<I(b.version), ShowHash(b.prev), ShowHash(b.root), I(b.time), I(b.bits), I(b.nonce)>>)
Show(k, v) == CASE k = "outpoint" -> ShowPoint(v) [] k = "txin" -> ShowIn(v) [] k = "txout" -> ShowOut(v) [] k = "tx" -> ShowTx(v)
                [] k = "header" -> ShowHeader(v) [] k = "script" -> ShowScript(v) [] k = "op" -> NameOf(v)

Init == obj = [k |-> "", v |-> ""] /\ text = Nothing
Make == obj.k = "" /\ text = Nothing /\ \E k \in Kinds : \E v \in Objects(k) : obj' = [k |-> k, v |-> v] /\ text' = text
Write == obj.k # "" /\ text = Nothing /\ text' = Show(obj.k, obj.v) /\ obj' = obj
Next == Make \/ Write
Spec == Init /\ [][Next]_<<obj, text>>

ReadsBack == text # Nothing => Denotes(obj.k, text) = Means(obj.k, obj.v)
Emit == (obj.k # "" /\ text = Nothing) => PrintT(<<"PROGRAM", ToJson([op |-> "show", kind |-> obj.k, v |-> obj.v])>>)
=============================================================================
