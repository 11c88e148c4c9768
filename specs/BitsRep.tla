------------------------------- MODULE BitsRep -------------------------------
(* Design check: the representation behind bit strings -- a shared buffer of  *)
(* bytes, of which only the first len bits count and the rest may be dirty -- *)
(* refines sequences of bits.  One action per operation of the implementation,*)
(* written as it works on buffers; a is the abstract value it should have.    *)
(* Bytes have W bits here, so that every length around byte boundaries, and   *)
(* every dirty tail, is covered exhaustively.                                 *)
EXTENDS Integers, Sequences, PySeq, TLC
CONSTANTS W, MaxLen, MaxBuf

VARIABLES x, a
Byte == 0..(2^W - 1)
NB(n) == (n + W - 1) \div W
BitAt(b, k) == (b \div (2^(W - 1 - k))) % 2          \* k in 0..W-1, MSB first
Abs(r) == [i \in 1..r.len |-> BitAt(r.buf[((i - 1) \div W) + 1], (i - 1) % W)]

RECURSIVE Val(_, _)
Val(bs, k) == IF k = W THEN 0 ELSE (IF k < Len(bs) THEN bs[k+1] * 2^(W-1-k) ELSE 0) + Val(bs, k+1)
Pack(bs) == [len |-> Len(bs), buf |-> [i \in 1..NB(Len(bs)) |-> Val(SubSeq(bs, W*i - W + 1, Len(bs)), 0)]]

(* from_bytes: any buffer long enough *)
Sources == UNION {[len : {n}, buf : [1..k -> Byte]] : n \in 0..3, k \in 0..2} 
Src == {r \in Sources : NB(r.len) <= Len(r.buf)}

Full(r) == SubSeq(r.buf, 1, r.len \div W)
Mask(k) == (2^W - 1) - (2^(W - k) - 1)               \* the first k bits
AndMask(b, k) == b - (b % 2^(W - k))
Tail_(r) == IF r.len % W = 0 THEN 0 ELSE AndMask(r.buf[(r.len \div W) + 1], r.len % W)

EqRep(r, s) == r.len = s.len /\ Full(r) = Full(s) /\ Tail_(r) = Tail_(s)

RECURSIVE Shift(_, _, _)
Shift(bytes, off, tail) ==
  IF bytes = <<>> THEN <<tail>>
  ELSE <<tail + (Head(bytes) \div 2^off)>> \o Shift(Tail(bytes), off, (Head(bytes) * 2^(W - off)) % 2^W)
Add(r, s) ==
  IF r.len = 0 THEN s ELSE IF s.len = 0 THEN r
  ELSE LET off == r.len % W IN
       [len |-> r.len + s.len,
        buf |-> Full(r) \o (IF off = 0 THEN s.buf
                            ELSE Shift(SubSeq(s.buf, 1, NB(s.len)), off, AndMask(r.buf[(r.len \div W) + 1], off)))]
Invert(r) == IF r.len = 0 THEN r
  ELSE LET m == Min2(Len(r.buf), (r.len \div W) + 1) IN
       [len |-> r.len, buf |-> [i \in 1..m |-> (2^W - 1) - r.buf[i]]]
Prefix(r, n) == IF n = 0 THEN [len |-> 0, buf |-> <<>>] ELSE [len |-> n, buf |-> r.buf]
Cut(r, i, j) == Pack(SubSeq(Abs(r), i + 1, j))

(* common_prefix: whole bytes first, then bit by bit in the byte that differs *)
RECURSIVE FirstDiff(_, _, _)
FirstDiff(r, s, i) == IF i >= r.len \div W THEN i ELSE IF r.buf[i+1] # s.buf[i+1] THEN i ELSE FirstDiff(r, s, i+1)
RECURSIVE Walk(_, _, _)
Walk(r, s, n) == IF n < r.len /\ BitAt(r.buf[(n \div W) + 1], n % W) = BitAt(s.buf[(n \div W) + 1], n % W)
                 THEN Walk(r, s, n + 1) ELSE n
CPrefix(p, q) == LET r == IF p.len <= q.len THEN p ELSE q
                     s == IF p.len <= q.len THEN q ELSE p
                     n == Walk(r, s, W * FirstDiff(r, s, 0))
                 IN [len |-> n, buf |-> IF n = 0 THEN <<>> ELSE r.buf]
Canon(r) == <<r.len, Full(r), Tail_(r)>>              \* what gets serialized

Init == \E r \in Src : x = r /\ a = Abs(r)
DoAdd == \E s \in Src : x' = Add(x, s) /\ a' = a \o Abs(s)
DoAddLeft == \E s \in Src : x' = Add(s, x) /\ a' = Abs(s) \o a
DoInvert == x' = Invert(x) /\ a' = [i \in 1..Len(a) |-> 1 - a[i]]
DoPrefix == \E n \in 0..x.len : x' = Prefix(x, n) /\ a' = SubSeq(a, 1, n)
DoCut == \E i \in 1..x.len : \E j \in i..x.len : x' = Cut(x, i, j) /\ a' = SubSeq(a, i + 1, j)
DoCPrefix == \E s \in Src : x' = CPrefix(x, s) /\ a' = CommonPrefix(a, Abs(s))
Next == DoAdd \/ DoAddLeft \/ DoInvert \/ DoPrefix \/ DoCut \/ DoCPrefix
Spec == Init /\ [][Next]_<<x, a>>

Bound == x.len <= MaxLen /\ Len(x.buf) <= MaxBuf
Refines == Abs(x) = a
LongEnough == NB(x.len) <= Len(x.buf)
EqAgrees == \A s \in Src : EqRep(x, s) = (a = Abs(s))
CanonAgrees == Canon(x) = Canon(Pack(a))
=============================================================================
