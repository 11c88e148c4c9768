---------------------------- MODULE NetStreamDesign ----------------------------
(* Objects written one after the other to a stream, which may be cut off      *)
(* anywhere, and read back one by one.  What is read is always a prefix of    *)
(* what was written; a reader that is not cut off gets everything; a reader   *)
(* that is, gets everything that is complete and then notices.                *)
EXTENDS NetCodec, FiniteSets, TLC, Json
CONSTANTS MaxObjs, Types, Broken, Cuts
VARIABLES items, wire, cut, pos, got, failed

H(n) == HexRep(CASE n = 0 -> "00" [] n = 1 -> "ff" [] n = 2 -> "a5", 32)
OPS == {[hash |-> H(0), n |-> "0"], [hash |-> H(1), n |-> "4294967295"]}
INS == [prevout : {[hash |-> H(0), n |-> "0"]}, script : {"", "ab"}, seq : {"4294967295"}]
OUTS == [value : {"-1", "253"}, script : {"", "fd01"}]
TX == {[version |-> "1", vin |-> i, vout |-> o, lock |-> "0"] : i \in {<<>>} \cup {<<x>> : x \in INS} \cup {<<x, x>> : x \in {[prevout |-> [hash |-> H(1), n |-> "1"], script |-> "", seq |-> "0"]}},
                                                        o \in {<<>>} \cup {<<x>> : x \in OUTS}}
HDR == {[version |-> "2", prev |-> H(0), root |-> H(2), time |-> "1", bits |-> "2", nonce |-> "3", vtx |-> <<>>]}
BLK == {[version |-> "2", prev |-> H(0), root |-> H(2), time |-> "1", bits |-> "2", nonce |-> "3", vtx |-> x] :
          x \in {<<>>, <<[version |-> "1", vin |-> <<>>, vout |-> <<>>, lock |-> "9"]>>}}
Values(t) == CASE t = "outpoint" -> OPS [] t = "txin" -> INS [] t = "txout" -> OUTS [] t = "tx" -> TX [] t = "header" -> HDR [] t = "block" -> BLK
               [] t = "varint" -> {"0", "252", "253", "65535", "65536", "4294967295", "4294967296", "18446744073709551615"}
               [] t = "bytes" -> {"", "00", "fdff", HexRep("11", 252), HexRep("11", 253)}
               [] t = "u256v" -> {<<>>, <<H(0)>>, <<H(1), H(2)>>}
               [] t = "intv" -> {<<>>, <<"-1">>, <<"1", "-2147483648">>}
(* the design with a fault: bytes without their length, lengths cut to a byte *)
WEnc(t, v) == CASE Broken = "nolen" /\ t = "bytes" -> v
                [] Broken = "byte" /\ t = "varint" -> BLE(v, 1)
                [] OTHER -> Enc(t, v)

Init == items = <<>> /\ wire = "" /\ cut = -1 /\ pos = 0 /\ got = <<>> /\ failed = FALSE
Write == /\ Len(items) < MaxObjs /\ cut = -1 /\ got = <<>> /\ pos = 0
         /\ \E t \in Types : \E v \in Values(t) : items' = Append(items, [t |-> t, v |-> v]) /\ wire' = wire \o WEnc(t, v)
         /\ UNCHANGED <<cut, pos, got, failed>>
Cut == /\ Cuts /\ cut = -1 /\ pos = 0 /\ HexLen(wire) > 0
       /\ \E k \in 0..HexLen(wire) - 1 : cut' = k /\ wire' = HexSub(wire, 1, k)
       /\ UNCHANGED <<items, pos, got, failed>>
Read == /\ Len(got) < Len(items) /\ ~failed
        /\ LET t == items[Len(got) + 1].t  r == Rd(t, wire, pos) IN
           IF r.ok THEN got' = Append(got, [t |-> t, v |-> r.v]) /\ pos' = r.pos /\ failed' = FALSE
           ELSE failed' = TRUE /\ UNCHANGED <<got, pos>>
        /\ UNCHANGED <<items, wire, cut>>
Next == Write \/ Cut \/ Read
Spec == Init /\ [][Next]_<<items, wire, cut, pos, got, failed>>

ReadsWhatWasWritten == \A i \in 1..Len(got) : got[i] = items[i]
RECURSIVE Ends(_)
Ends(n) == IF n = 0 THEN 0 ELSE Ends(n - 1) + HexLen(WEnc(items[n].t, items[n].v))
ConsumesExactly == pos = Ends(Len(got)) /\ pos <= HexLen(wire)
FailsOnlyWhenCut == failed => cut >= 0 /\ Ends(Len(got) + 1) > cut
Emit == (items # <<>> /\ pos = 0 /\ ~failed /\ got = <<>>) => PrintT(<<"PROGRAM", ToJson([items |-> items, cut |-> cut])>>)
=============================================================================
