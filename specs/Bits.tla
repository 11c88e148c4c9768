-------------------------------- MODULE Bits --------------------------------
(* Bit strings as values: the state is a heap of immutable sequences of bits, *)
(* every operation adds to it and never changes what is already in it.        *)
EXTENDS Integers, Sequences, PySeq, Wire

None == [t |-> "none", v |-> <<>>]
BV(s) == [t |-> "bits", v |-> s]
Inv(s) == [i \in 1..Len(s) |-> 1 - s[i]]

(* The result of each operation that makes a bit string *)
MkFromBytes(h, n) == UnpackBits(h, n)

(* Decoding of a complete serialization: as DecBits, and nothing after it *)
DecodeBits(h) == LET r == DecBits(h, 0) IN
  IF ~r.ok THEN r ELSE IF r.pos # HexLen(h) THEN Fail("trail") ELSE r
=============================================================================
