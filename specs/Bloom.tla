------------------------------- MODULE Bloom -------------------------------
(* Bitcoin's bloom filters (BIP 37): MurmurHash3, which bits an element sets, *)
(* sizes for a number of elements and a false positive rate, and the network  *)
(* format.  32-bit words are big.                                             *)
EXTENDS BtcWire, FiniteSets

LOCAL M == "4294967296"
LOCAL Mul(a, b) == BMod(BMul(a, b), M)
LOCAL Add(a, b) == BMod(BAdd(a, b), M)
LOCAL Shr(x, r) == BDiv(x, BPow("2", r))
LOCAL Rotl(x, r) == BOr(BMod(BMul(x, BPow("2", r)), M), Shr(x, 32 - r))
LOCAL Scramble(k) == Mul(Rotl(Mul(k, "3432918353"), 15), "461845907")
RECURSIVE MmBody(_, _, _)
MmBody(h, d, pos) ==
  IF HexLen(d) - pos < 4
  THEN IF HexLen(d) = pos THEN h ELSE BXor(h, Scramble(BOfLE(HexSub(d, pos + 1, HexLen(d)))))
  ELSE MmBody(Add(Mul(Rotl(BXor(h, Scramble(BOfLE(HexSub(d, pos + 1, pos + 4)))), 13), "5"), "3864292196"), d, pos + 4)
LOCAL Mix(h, r) == BXor(h, Shr(h, r))
Murmur3(seed, d) ==
  LET h == BXor(MmBody(seed, d, 0), BOf(HexLen(d))) IN
  Mix(Mul(Mix(Mul(Mix(h, 16), "2246822507"), 13), "3266489909"), 16)

MaxFilter == 36000
MaxHashes == 50

(* bits of an element, 0-based *)
Bit(i, tweak, len, d) == BInt(BMod(Murmur3(Add(Mul(BOf(i), "4221880213"), BMod(tweak, M)), d), BOf(8 * len)))
BitsOf(nhash, tweak, len, d) == IF len = 0 THEN {} ELSE {Bit(i, tweak, len, d) : i \in 0..(nhash - 1)}
BitSet(v, b) == (v \div (2 ^ b)) % 2 = 1

(* real numbers, in units of 10^-40 *)
LOCAL One == BPow("10", 40)
LOCAL Ln2 == "6931471805599453094172321214581765680755"     \* 10^-40
LOCAL FMul(a, b) == BDiv(BMul(a, b), One)
RECURSIVE AtanhSum(_, _, _, _)
AtanhSum(z2, t, k, acc) == IF k > 99 \/ t = "0" \/ t = "-1" THEN acc ELSE AtanhSum(z2, FMul(t, z2), k + 2, BAdd(acc, BDiv(t, BOf(k))))
(* ln(num / den) for num >= den > 0 *)
Ln(num, den) ==
  LET k == BBits(BDiv(num, den))                              \* num/den = m 2^k, m in [1/2, 1)
      m == BDiv(BMul(num, One), BMul(den, BPow("2", k)))
      z == BDiv(BMul(BSub(m, One), One), BAdd(m, One))
  IN BAdd(BMul(BOf(k), Ln2), BMul("2", AtanhSum(FMul(z, z), z, 1, "0")))

(* values floating point may round to: the floor, or either side of an        *)
(* integer that is nearer than one part in 10^12                              *)
LOCAL Floors(a, b) == LET slack == BAdd(BDiv(a, BPow("10", 12)), "1") IN {BDiv(BSub(a, slack), b), BDiv(BAdd(a, slack), b)}
(* sizes for n elements at the rate num/den in (0, 1]: sets of big *)
Lengths(n, num, den) ==
  IF num = den THEN {"0"}
  ELSE {IF BLt(x, BOf(MaxFilter)) THEN (IF BLt(x, "0") THEN "0" ELSE x) ELSE BOf(MaxFilter) : x \in Floors(BMul(BMul(n, Ln(den, num)), One), BMul("8", BMul(Ln2, Ln2)))}
HashCounts(n, len) ==
  IF len = 0 THEN {"0"}
  ELSE {IF BLt(x, BOf(MaxHashes)) THEN x ELSE BOf(MaxHashes) : x \in Floors(BMul(BOf(8 * len), Ln2), BMul(n, One))}

OutpointBytes(o) == o.hash \o U32(o.n)
(* a filter: len bytes, those of base but for the ones in set *)
ByteOf(f, j) == IF j \in DOMAIN f.set THEN f.set[j] ELSE IF f.base = "" THEN 0 ELSE HexAt(f.base, j + 1)
HasBit(f, b) == BitSet(ByteOf(f, b \div 8), b % 8)
Contains(f, d) == \A b \in BitsOf(f.nhash, f.tweak, f.len, d) : HasBit(f, b)
RECURSIVE SetAll(_, _)
SetAll(f, bs) ==
  IF bs = {} THEN f
  ELSE LET b == CHOOSE b \in bs : TRUE IN
       SetAll(IF HasBit(f, b) THEN f ELSE [f EXCEPT !.set = [j \in (DOMAIN @) \cup {b \div 8} |-> IF j = b \div 8 THEN ByteOf(f, j) + 2 ^ (b % 8) ELSE @[j]]], bs \ {b})
Insert(f, d) == SetAll(f, BitsOf(f.nhash, f.tweak, f.len, d))
DataBytes(f) == Hex([j \in 1..f.len |-> ByteOf(f, j - 1)])
FilterBytes(f) == CompactSize(BOf(f.len)) \o DataBytes(f) \o U32(BOf(f.nhash)) \o U32(f.tweak) \o U8(BOf(f.flags))
Within(f) == f.len <= MaxFilter /\ f.nhash <= MaxHashes
(* decoding *)
RdFilter(h) ==
  LET d == RdVar(h, 0) IN
  IF ~d.ok THEN d
  ELSE LET a == RdUint(h, d.pos, 4) IN IF ~a.ok THEN a
  ELSE LET b == RdUint(h, a.pos, 4) IN IF ~b.ok THEN b
  ELSE LET c == RdUint(h, b.pos, 1) IN IF ~c.ok THEN c
  ELSE BGot([data |-> d.v, nhash |-> a.v, tweak |-> b.v, flags |-> BInt(c.v)], c.pos)
=============================================================================
