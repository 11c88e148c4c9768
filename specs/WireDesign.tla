------------------------------ MODULE WireDesign ------------------------------
(* Design check of the encodings: over every byte string of bounded length    *)
(* from an alphabet of telling bytes, and every type, decoding is canonical;  *)
(* over sequences of fields, encoding is injective and self-delimiting.       *)
EXTENDS Codec, TLC
CONSTANTS MaxLen, MaxFields
VARIABLES bytes, fields, k

Alphabet == {"00", "01", "02", "03", "7f", "80", "81", "ff"}
PT == [u8 |-> [kind |-> "int", lo |-> "0", hi |-> "255"], u16 |-> [kind |-> "int", lo |-> "0", hi |-> "65535"],
       bool |-> [kind |-> "bool", lo |-> "0", hi |-> "0"], f2 |-> [kind |-> "fixed", lo |-> "2", hi |-> "2"],
       v2 |-> [kind |-> "var", lo |-> "1", hi |-> "2"], bits |-> [kind |-> "bits", lo |-> "0", hi |-> "0"]]
(* some values of each type, by their encoding *)
Values == [u8 |-> {"00", "01", "7f", "8001", "ff01"}, u16 |-> {"00", "01", "7f", "8001", "ffff03"},
           bool |-> {"00", "ff"}, f2 |-> {"0000", "0001", "0100", "8001", "ffff"},
           v2 |-> {"0100", "0101", "020000", "020001", "028001"}, bits |-> {"00", "0100", "0180", "0200", "0800", "090000", "090080"}]
Types == DOMAIN PT

vars == <<bytes, fields, k>>
Init == bytes = "" /\ fields = <<>> /\ k = 0
Grow == /\ fields = <<>> /\ HexLen(bytes) < MaxLen /\ \E a \in Alphabet : bytes' = bytes \o a /\ UNCHANGED <<fields, k>>
Field == /\ k = 0 /\ bytes = "" /\ Len(fields) < MaxFields
         /\ \E t \in Types : \E e \in Values[t] : fields' = Append(fields, <<t, e>>) /\ UNCHANGED <<bytes, k>>
Next == Grow \/ Field
Spec == Init /\ [][Next]_vars

Canonical == \A t \in Types : LET r == DecPlain(PT[t], bytes, 0) IN
  r.ok => r.pos <= HexLen(bytes) /\ r.v.s = HexSub(bytes, 1, r.pos)
(* and what is decoded doesn't depend on what follows *)
Prefix == \A t \in Types : LET r == DecPlain(PT[t], bytes, 0) IN
  r.ok => \A a \in {"00", "80", "ff"} : DecPlain(PT[t], bytes \o a, 0) = r
EncodingOf == HexCat([i \in 1..Len(fields) |-> fields[i][2]])
RECURSIVE ReadAll(_, _, _)
ReadAll(h, pos, i) == IF i > Len(fields) THEN pos = HexLen(h)
  ELSE LET r == DecPlain(PT[fields[i][1]], h, pos) IN r.ok /\ r.v.s = fields[i][2] /\ ReadAll(h, r.pos, i + 1)
FieldsInjective == ReadAll(EncodingOf, 0, 1)
=============================================================================
