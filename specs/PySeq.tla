------------------------------- MODULE PySeq -------------------------------
(* Python's sequence protocol over TLA+ sequences: what "agrees with the      *)
(* plain list" means.  Optional slice bounds are sequences of length 0 or 1.  *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))

PyIndexOk(s, i) == -Len(s) <= i /\ i < Len(s)
PyIndex(s, i)   == s[(IF i < 0 THEN i + Len(s) ELSE i) + 1]

(* slice.indices(n) for a step # 0 *)
PyBound(x, n, lo, hi, dflt) ==
  IF x = <<>> THEN dflt
  ELSE LET v == IF x[1] < 0 THEN x[1] + n ELSE x[1] IN Clip(v, lo, hi)
PyStart(x, n, step) == IF step > 0 THEN PyBound(x, n, 0, n, 0) ELSE PyBound(x, n, -1, n - 1, n - 1)
PyStop(x, n, step)  == IF step > 0 THEN PyBound(x, n, 0, n, n) ELSE PyBound(x, n, -1, n - 1, -1)

PySliceLen(a, b, step) ==
  IF step > 0 THEN (IF a >= b THEN 0 ELSE ((b - a - 1) \div step) + 1)
  ELSE (IF a <= b THEN 0 ELSE ((a - b - 1) \div (-step)) + 1)

PySlice(s, start, stop, step) ==
  LET a == PyStart(start, Len(s), step)
      b == PyStop(stop, Len(s), step)
  IN [i \in 1..PySliceLen(a, b, step) |-> s[a + (i - 1) * step + 1]]

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE CommonLen(_, _, _)
CommonLen(a, b, i) == IF i >= Len(a) \/ i >= Len(b) \/ a[i + 1] # b[i + 1] THEN i ELSE CommonLen(a, b, i + 1)
CommonPrefix(a, b) == SubSeq(a, 1, CommonLen(a, b, 0))

(* lexicographic order, a proper prefix comes first *)
LexLt(a, b) == LET n == CommonLen(a, b, 0) IN
  IF n = Len(b) THEN FALSE ELSE IF n = Len(a) THEN TRUE ELSE a[n + 1] < b[n + 1]

IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
=============================================================================
