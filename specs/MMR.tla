--------------------------------- MODULE MMR ---------------------------------
(* Merkle mountain ranges: a list, and the commitment to it.                  *)
(* A class is described by c = [tag, leaf]: the base class's hash tag, and    *)
(* how values contribute ("ser": their serialization; otherwise the hash tag  *)
(* of the values' proof class, whose data are the serialization).  Values are *)
(* represented by their serialization.                                        *)
EXTENDS Integers, Sequences, PySeq, Commit

SubEmpty == "390de307878747b7b25d250aba02b1e5"
SubLeaf  == "4ea09c8e87f54978a82978d42ab8638a"
SubInner == "a7ca25ce8fee4063b02296b2dbcb392e"

RECURSIVE Pow2Divisor(_)
Pow2Divisor(n) == IF n % 2 = 1 THEN 1 ELSE 2 * Pow2Divisor(n \div 2)
IsPow2(n) == n >= 1 /\ Pow2Divisor(n) = n

(* Size of the right subtree: the smallest mountain, or half of a mountain *)
RightSize(n) == IF IsPow2(n) THEN n \div 2 ELSE Pow2Divisor(n)

(* The tree over a list, as nested lengths *)
RECURSIVE Shape(_)
Shape(n) == IF n <= 1 THEN <<n>>
            ELSE <<n>> \o Shape(n - RightSize(n)) \o Shape(RightSize(n))       \* preorder

Contrib(c, v) == IF c.leaf = "ser" THEN v ELSE ProofHash(c.leaf, DataHash(<<v>>))

RECURSIVE MHash(_, _), MDataHash(_, _)
MDataHash(c, D) ==
  LET n == Len(D) IN
  IF n = 0 THEN DataHash(<<>>)
  ELSE IF n = 1 THEN DataHash(<<Contrib(c, D[1])>>)
  ELSE LET k == RightSize(n) IN
       DataHash(<<MHash(c, SubSeq(D, 1, n - k)), MHash(c, SubSeq(D, n - k + 1, n)), EncVarUint(n)>>)
MHash(c, D) ==
  ProofHash(Derive(IF D = <<>> THEN SubEmpty ELSE IF Len(D) = 1 THEN SubLeaf ELSE SubInner, c.tag), MDataHash(c, D))

(* The serialization of an unpruned range.  Variant numbers in order of       *)
(* declaration; a value that is a proof has its own "not pruned" marker.      *)
RECURSIVE MSer(_, _)
MSer(c, D) ==
  LET n == Len(D) IN
  "00" \o IF n = 0 THEN "00"
  ELSE IF n = 1 THEN "01" \o (IF c.leaf = "ser" THEN "" ELSE "00") \o D[1]
  ELSE LET k == RightSize(n) IN
       "02" \o MSer(c, SubSeq(D, 1, n - k)) \o MSer(c, SubSeq(D, n - k + 1, n)) \o EncVarUint(n)

(* Ranges too long to write down: 2^k times one value, then the list tail,    *)
(* shorter than that.  Lengths are big.                                       *)
HugeLen(k, tail) == BAdd(BPow("2", k), Len(tail))
InnerHash(c, data) == ProofHash(Derive(SubInner, c.tag), data)
PairData(l, r, n) == DataHash(<<l, r, EncVarUint(n)>>)
RECURSIVE EqualHash(_, _, _)
EqualData(h, k) == PairData(h, h, BPow("2", k))
EqualHash(c, k, v) == IF k = 0 THEN MHash(c, <<v>>) ELSE InnerHash(c, EqualData(EqualHash(c, k - 1, v), k))
RECURSIVE HugeHash(_, _, _, _)
HugeData(c, k, v, tail) ==
  IF tail = <<>> THEN EqualData(EqualHash(c, k - 1, v), k)
  ELSE LET n == Len(tail)  r == Pow2Divisor(n) IN
       PairData(HugeHash(c, k, v, SubSeq(tail, 1, n - r)), MHash(c, SubSeq(tail, n - r + 1, n)), HugeLen(k, tail))
HugeHash(c, k, v, tail) == InnerHash(c, HugeData(c, k, v, tail))
HugeAt(k, v, tail, i) ==       \* <<>>: no such index
  LET n == HugeLen(k, tail)
      j == IF BLt(i, 0) THEN BAdd(i, n) ELSE i IN
  IF BLt(j, 0) \/ ~BLt(j, n) THEN <<>>
  ELSE IF BLt(j, BPow("2", k)) THEN <<v>> ELSE <<tail[BInt(BSub(j, BPow("2", k))) + 1]>>
(* from a before the end of the equal ones to b into the tail *)
HugePart(k, v, tail, a, b) == [i \in 1..a |-> v] \o SubSeq(tail, 1, b)
=============================================================================
