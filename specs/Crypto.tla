------------------------------- MODULE Crypto -------------------------------
(* Standard primitives, taken as given by every specification in here.  TLC   *)
(* evaluates them through the Java overrides in ../java/Crypto.java.          *)
(*                                                                            *)
(* Bytes are written either as lower-case hexadecimal strings ("hex") or as   *)
(* tuples over 0..255; integers that do not fit in TLC's 32 bits are decimal  *)
(* strings ("big").                                                           *)
EXTENDS Integers, Sequences

Unhex(h)        == CHOOSE x \in {} : TRUE  \* hex -> tuple
Hex(t)          == CHOOSE x \in {} : TRUE  \* tuple -> hex
HexLen(h)       == CHOOSE x \in {} : TRUE  \* number of bytes
HexSub(h, a, b) == CHOOSE x \in {} : TRUE  \* bytes a..b, 1-based, clipped
HexAt(h, i)     == CHOOSE x \in {} : TRUE  \* i'th byte, 1-based, as an integer
HexRev(h)       == CHOOSE x \in {} : TRUE
HexCat(s)       == CHOOSE x \in {} : TRUE  \* concatenation of a sequence of hex
HexRep(h, n)    == CHOOSE x \in {} : TRUE  \* h repeated n times
HexXor(a, b)    == CHOOSE x \in {} : TRUE
StrChars(s)     == CHOOSE x \in {} : TRUE

Sha256(m)       == CHOOSE x \in {} : TRUE  \* hex -> hex, tuple -> tuple
Hash256(m)      == CHOOSE x \in {} : TRUE  \* SHA256(SHA256(m))
Sha1(m)         == CHOOSE x \in {} : TRUE
Ripemd160(m)    == CHOOSE x \in {} : TRUE
Hash160(m)      == CHOOSE x \in {} : TRUE  \* RIPEMD160(SHA256(m))

BAdd(a, b)      == CHOOSE x \in {} : TRUE
BSub(a, b)      == CHOOSE x \in {} : TRUE
BMul(a, b)      == CHOOSE x \in {} : TRUE
BDiv(a, b)      == CHOOSE x \in {} : TRUE  \* floor
BMod(a, b)      == CHOOSE x \in {} : TRUE  \* in 0..b-1
BPow(a, n)      == CHOOSE x \in {} : TRUE
BCmp(a, b)      == CHOOSE x \in {} : TRUE  \* -1, 0, 1
BLt(a, b)       == CHOOSE x \in {} : TRUE
BLe(a, b)       == CHOOSE x \in {} : TRUE
BOf(n)          == CHOOSE x \in {} : TRUE  \* integer -> big
BInt(s)         == CHOOSE x \in {} : TRUE  \* big -> integer (must fit)
BFitsInt(s)     == CHOOSE x \in {} : TRUE  \* |s| < 2^30
BAnd(a, b)      == CHOOSE x \in {} : TRUE
BOr(a, b)       == CHOOSE x \in {} : TRUE
BXor(a, b)      == CHOOSE x \in {} : TRUE
BBits(a)        == CHOOSE x \in {} : TRUE  \* bit length of |a|
BLE(a, n)       == CHOOSE x \in {} : TRUE  \* big -> n bytes, two's complement LE
BOfLE(h)        == CHOOSE x \in {} : TRUE  \* unsigned LE bytes -> big
BIsNum(s)       == CHOOSE x \in {} : TRUE
=============================================================================
