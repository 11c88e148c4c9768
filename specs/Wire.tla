-------------------------------- MODULE Wire --------------------------------
(* The primitive encodings of proofmarshal: booleans, LEB128 integers,        *)
(* fixed and variable bytes, bits.  Byte strings are hex.                     *)
EXTENDS Integers, Sequences, Crypto

Hex2 == [i \in 0..255 |-> Hex(<<i>>)]
EncBool(b) == IF b THEN "ff" ELSE "00"

RECURSIVE EncVarUint(_)              \* n: integer or big
EncVarUint(n) ==
  IF BLt(n, 128) THEN Hex2[BInt(BOf(n))]
  ELSE Hex2[BInt(BMod(n, 128)) + 128] \o EncVarUint(BDiv(n, 128))

(* Bits, most significant first, unused bits of the last byte zero *)
RECURSIVE BitsByte(_, _)
BitsByte(bs, k) == IF k = 8 THEN 0
  ELSE (IF k < Len(bs) THEN bs[k + 1] * (2 ^ (7 - k)) ELSE 0) + BitsByte(bs, k + 1)
NBytes(n) == (n + 7) \div 8
PackBits(bs) == Hex([i \in 1..NBytes(Len(bs)) |-> BitsByte(SubSeq(bs, 8 * i - 7, Len(bs)), 0)])
EncBits(bs) == EncVarUint(Len(bs)) \o PackBits(bs)
BitOf(byte, k) == (byte \div (2 ^ (7 - k))) % 2       \* k in 0..7
UnpackBits(h, n) == LET t == Unhex(h) IN [i \in 1..n |-> BitOf(t[((i - 1) \div 8) + 1], (i - 1) % 8)]

(* Decoding is total: [ok, v, pos] where pos is the number of bytes consumed. *)
(* A failure says which: "trunc", "bad".                                      *)
Fail(why) == [ok |-> FALSE, why |-> why, v |-> "", pos |-> 0]
Got(v, pos) == [ok |-> TRUE, why |-> "", v |-> v, pos |-> pos]

RECURSIVE DecVarUintFrom(_, _, _, _)
DecVarUintFrom(h, pos, acc, k) ==      \* k = number of bytes consumed already
  IF pos >= HexLen(h) THEN Fail("trunc")
  ELSE LET b == HexAt(h, pos + 1)
           acc1 == IF b % 128 = 0 THEN acc ELSE BAdd(acc, BMul(BPow("128", k), b % 128))
       IN IF b >= 128 THEN DecVarUintFrom(h, pos + 1, acc1, k + 1)
          ELSE IF b = 0 /\ k > 0 THEN Fail("bad")            \* not minimal
          ELSE Got(acc1, pos + 1)
DecVarUint(h, pos) == DecVarUintFrom(h, pos, "0", 0)          \* v: big

DecBool(h, pos) ==
  IF pos >= HexLen(h) THEN Fail("trunc")
  ELSE CASE HexAt(h, pos + 1) = 255 -> Got(TRUE, pos + 1)
         [] HexAt(h, pos + 1) = 0   -> Got(FALSE, pos + 1)
         [] OTHER -> Fail("bad")

DecBytes(h, pos, n) ==       \* n: big or integer
  IF BLt(HexLen(h) - pos, n) THEN Fail("trunc")
  ELSE LET k == BInt(BOf(n)) IN Got(HexSub(h, pos + 1, pos + k), pos + k)

DecBits(h, pos) ==
  LET n == DecVarUint(h, pos) IN
  IF ~n.ok THEN n
  ELSE LET nb == BDiv(BAdd(n.v, 7), 8)
           d  == DecBytes(h, n.pos, nb) IN
       IF ~d.ok THEN d
       ELSE LET len == BInt(n.v)
                bs  == UnpackBits(d.v, len) IN
            IF PackBits(bs) # d.v THEN Fail("bad") ELSE Got(bs, d.pos)
=============================================================================
