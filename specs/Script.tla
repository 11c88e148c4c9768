-------------------------------- MODULE Script --------------------------------
(* Bitcoin's script machine: parsing, signature hashes and evaluation, one    *)
(* opcode at a time.  Byte strings are hex; numbers big.                      *)
EXTENDS NetCodec, Ec, SequencesExt

(* ---- parsing ---- *)
LenBytes(b) == CASE b = 76 -> 1 [] b = 77 -> 2 [] b = 78 -> 4 [] OTHER -> 0
(* the operation at byte pos (0-based): ok, or why not ("nolen": the length of *)
(* a push is missing, "trunc": its data is)                                    *)
OpAt(h, pos) ==
  LET b == HexAt(h, pos + 1)  n == HexLen(h)  lb == LenBytes(b) IN
  IF b > 78 THEN [ok |-> TRUE, why |-> "", op |-> b, push |-> FALSE, data |-> "", at |-> pos, next |-> pos + 1]
  ELSE IF pos + 1 + lb > n THEN [ok |-> FALSE, why |-> "nolen", op |-> b, push |-> TRUE, data |-> "", at |-> pos, next |-> n]
  ELSE LET size == IF b < 76 THEN BOf(b) ELSE BOfLE(HexSub(h, pos + 2, pos + 1 + lb))
           rest == n - (pos + 1 + lb) IN
       IF BLt(rest, size) THEN [ok |-> FALSE, why |-> "trunc", op |-> b, push |-> TRUE, data |-> HexSub(h, pos + 2 + lb, n), at |-> pos, next |-> n]
       ELSE LET k == BInt(size) IN
            [ok |-> TRUE, why |-> "", op |-> b, push |-> TRUE, data |-> HexSub(h, pos + 2 + lb, pos + 1 + lb + k), at |-> pos, next |-> pos + 1 + lb + k]
Upto(n) == [i \in 1..n |-> i]
(* all operations up to the end or the first that cannot be parsed *)
Parse(h) ==
  FoldLeft(LAMBDA a, i : IF a.pos >= HexLen(h) \/ ~a.ok THEN a
                         ELSE LET o == OpAt(h, a.pos) IN
                              IF o.ok THEN [a EXCEPT !.ops = Append(@, o), !.pos = o.next] ELSE [a EXCEPT !.ok = FALSE, !.why = o.why, !.data = o.data],
           [ok |-> TRUE, why |-> "", data |-> "", ops |-> <<>>, pos |-> 0], Upto(HexLen(h)))
RawOp(h, o) == HexSub(h, o.at + 1, o.next)
PushBytes(d) ==       \* the shortest pushing operation
  LET n == HexLen(d) IN
  CASE n < 76 -> U8(n) \o d
    [] 76 <= n /\ n <= 255 -> "4c" \o U8(n) \o d
    [] 255 < n /\ n <= 65535 -> "4d" \o U16(n) \o d
    [] OTHER -> "4e" \o U32(n) \o d
(* a script without the operations that are, byte for byte, pat *)
Without(h, pat) == LET p == Parse(h) IN HexCat(SelectSeq([i \in 1..Len(p.ops) |-> RawOp(h, p.ops[i])], LAMBDA r : r # pat))
Parses(h) == Parse(h).ok

(* ---- signature hashes ---- *)
HashOne == "01" \o HexRep("00", 31)
SigHashTx(code, tx, idx, type) ==        \* idx: 0-based, type: integer 0..255 or big
  LET base == BInt(BMod(type, 32))
      any == BInt(BMod(BDiv(type, 128), 2)) = 1
      none == base = 2  single == base = 3
      clean == Without(code, "ab")
      ins == [i \in 1..Len(tx.vin) |->
                [tx.vin[i] EXCEPT !.script = IF i = idx + 1 THEN clean ELSE "",
                                  !.seq = IF (none \/ single) /\ i # idx + 1 THEN "0" ELSE @]]
      vin == IF any THEN <<ins[idx + 1]>> ELSE ins
      vout == IF none THEN <<>>
              ELSE IF single THEN [i \in 1..idx + 1 |-> IF i = idx + 1 THEN tx.vout[i] ELSE [value |-> "-1", script |-> ""]]
              ELSE tx.vout
  IN [tx EXCEPT !.vin = vin, !.vout = vout]
NoSuchOutput(tx, idx, type) == BInt(BMod(type, 32)) = 3 /\ idx >= Len(tx.vout)
SigHash(code, tx, idx, type) ==
  IF idx >= Len(tx.vin) \/ NoSuchOutput(tx, idx, type) THEN HashOne
  ELSE Hash256(TxBytes(SigHashTx(code, tx, idx, type)) \o U32(type))

(* ---- the machine ---- *)
MaxScript == 10000
MaxElement == 520
MaxOps == 201
MaxStack == 1000
Truth(v) == \E i \in 1..HexLen(v) : HexAt(v, i) # 0 /\ ~(i = HexLen(v) /\ HexAt(v, i) = 128)
Flag(b) == IF b THEN "01" ELSE ""
Disabled == {101, 102} \cup {126, 127, 128, 129} \cup {131, 132, 133, 134} \cup {141, 142} \cup {149, 150, 151, 152, 153}

M0(stack) == [st |-> "run", pc |-> 0, stack |-> stack, alt |-> <<>>, exec |-> <<>>, nops |-> 0, sep |-> 0]
Bad(m) == [m EXCEPT !.st = "fail"]
D(m) == Len(m.stack)
T(m, i) == m.stack[Len(m.stack) + 1 - i]           \* i = 1: top
Drop(m, n) == SubSeq(m.stack, 1, Len(m.stack) - n)
Repl(m, n, vals) == [m EXCEPT !.stack = Drop(m, n) \o vals]
Need(m, n, r) == IF D(m) < n THEN Bad(m) ELSE r
IsNum(v) == HexLen(v) <= 4
Num(v) == NumOf(v)
N1(m, F(_)) == IF D(m) < 1 THEN Bad(m) ELSE IF ~IsNum(T(m, 1)) THEN Bad(m) ELSE Repl(m, 1, <<NumBytes(F(Num(T(m, 1))))>>)
N2(m, F(_, _)) == IF D(m) < 2 THEN Bad(m) ELSE IF ~IsNum(T(m, 1)) \/ ~IsNum(T(m, 2)) THEN Bad(m)
                  ELSE Repl(m, 2, <<NumBytes(F(Num(T(m, 2)), Num(T(m, 1))))>>)
BN(b) == IF b THEN "1" ELSE "0"
H1(m, F(_)) == IF D(m) < 1 THEN Bad(m) ELSE Repl(m, 1, <<F(T(m, 1))>>)

CheckSig(env, sig, pub, code) ==
  /\ sig # ""
  /\ EcVerify(pub, SigHash(code, env.tx, env.idx, HexAt(sig, HexLen(sig))), HexSub(sig, 1, HexLen(sig) - 1))
CodeOf(env, m) == HexSub(env.script, m.sep + 1, HexLen(env.script))
DoCheckSig(env, m, verify) ==
  IF D(m) < 2 THEN Bad(m)
  ELSE LET sig == T(m, 2)  ok == CheckSig(env, sig, T(m, 1), Without(CodeOf(env, m), PushBytes(sig))) IN
       IF verify THEN (IF ok THEN Repl(m, 2, <<>>) ELSE Bad(m)) ELSE Repl(m, 2, <<Flag(ok)>>)

RECURSIVE WithoutAll(_, _), Matching(_, _, _, _)
WithoutAll(code, sigs) == IF sigs = <<>> THEN code ELSE WithoutAll(Without(code, PushBytes(Head(sigs))), Tail(sigs))
(* each signature for a later key than the one before *)
Matching(env, sigs, keys, code) ==
  IF sigs = <<>> THEN TRUE ELSE IF Len(sigs) > Len(keys) THEN FALSE
  ELSE Matching(env, IF CheckSig(env, Head(sigs), Head(keys), code) THEN Tail(sigs) ELSE sigs, Tail(keys), code)
FromTop(m, a, n) == [i \in 1..n |-> T(m, a + i - 1)]
DoMultiSig(env, m, verify) ==
  IF D(m) < 1 THEN Bad(m) ELSE IF ~IsNum(T(m, 1)) THEN Bad(m)
  ELSE LET nk == Num(T(m, 1)) IN
  IF BLt(nk, 0) \/ BLt(20, nk) THEN Bad(m)
  ELSE LET k == BInt(nk)  m1 == [m EXCEPT !.nops = @ + k] IN
  IF m1.nops > MaxOps \/ D(m) < k + 2 THEN Bad(m)
  ELSE IF ~IsNum(T(m, k + 2)) THEN Bad(m)
  ELSE LET ns == Num(T(m, k + 2)) IN
  IF BLt(ns, 0) \/ BLt(nk, ns) THEN Bad(m)
  ELSE LET s == BInt(ns) IN
  IF D(m) < k + s + 3 THEN Bad(m)
  ELSE LET sigs == FromTop(m, k + 3, s)  keys == FromTop(m, 2, k)
           ok == Matching(env, sigs, keys, WithoutAll(CodeOf(env, m), sigs)) IN
       IF verify THEN (IF ok THEN Repl(m1, k + s + 3, <<>>) ELSE Bad(m)) ELSE Repl(m1, k + s + 3, <<Flag(ok)>>)

Verify(m) == IF D(m) < 1 THEN Bad(m) ELSE IF Truth(T(m, 1)) THEN Repl(m, 1, <<>>) ELSE Bad(m)
PickAt(m, roll) ==
  IF D(m) < 2 THEN Bad(m) ELSE IF ~IsNum(T(m, 1)) THEN Bad(m)
  ELSE LET n == Num(T(m, 1))  m1 == Repl(m, 1, <<>>) IN
  IF BLt(n, 0) \/ BLe(D(m1), n) THEN Bad(m)
  ELSE LET k == BInt(n) + 1  v == T(m1, k)  s == m1.stack IN
       IF roll THEN [m1 EXCEPT !.stack = SubSeq(s, 1, Len(s) - k) \o SubSeq(s, Len(s) - k + 2, Len(s)) \o <<v>>]
       ELSE [m1 EXCEPT !.stack = Append(s, v)]

(* what one operation does where it is executed *)
Effect(env, m, o) ==
  LET op == o.op  t(i) == T(m, i) IN
  CASE o.push -> [m EXCEPT !.stack = Append(@, o.data)]
    [] op = 79 -> [m EXCEPT !.stack = Append(@, "81")]
    [] op \in 81..96 -> [m EXCEPT !.stack = Append(@, NumBytes(BOf(op - 80)))]
    [] op = 97 \/ op \in 176..185 -> m
    [] op \in {99, 100} -> IF D(m) < 1 THEN Bad(m) ELSE [Repl(m, 1, <<>>) EXCEPT !.exec = Append(@, IF op = 99 THEN Truth(t(1)) ELSE ~Truth(t(1)))]
    [] op = 105 -> Verify(m)
    [] op = 107 -> Need(m, 1, [Repl(m, 1, <<>>) EXCEPT !.alt = Append(@, t(1))])
    [] op = 108 -> IF m.alt = <<>> THEN Bad(m) ELSE [m EXCEPT !.stack = Append(@, m.alt[Len(m.alt)]), !.alt = SubSeq(@, 1, Len(@) - 1)]
    [] op = 109 -> Need(m, 2, Repl(m, 2, <<>>))
    [] op = 110 -> Need(m, 2, Repl(m, 0, <<t(2), t(1)>>))
    [] op = 111 -> Need(m, 3, Repl(m, 0, <<t(3), t(2), t(1)>>))
    [] op = 112 -> Need(m, 4, Repl(m, 0, <<t(4), t(3)>>))
    [] op = 113 -> Need(m, 6, Repl(m, 6, <<t(4), t(3), t(2), t(1), t(6), t(5)>>))
    [] op = 114 -> Need(m, 4, Repl(m, 4, <<t(2), t(1), t(4), t(3)>>))
    [] op = 115 -> Need(m, 1, IF Truth(t(1)) THEN Repl(m, 0, <<t(1)>>) ELSE m)
    [] op = 116 -> Repl(m, 0, <<NumBytes(BOf(D(m)))>>)
    [] op = 117 -> Need(m, 1, Repl(m, 1, <<>>))
    [] op = 118 -> Need(m, 1, Repl(m, 0, <<t(1)>>))
    [] op = 119 -> Need(m, 2, Repl(m, 2, <<t(1)>>))
    [] op = 120 -> Need(m, 2, Repl(m, 0, <<t(2)>>))
    [] op = 121 -> PickAt(m, FALSE)
    [] op = 122 -> PickAt(m, TRUE)
    [] op = 123 -> Need(m, 3, Repl(m, 3, <<t(2), t(1), t(3)>>))
    [] op = 124 -> Need(m, 2, Repl(m, 2, <<t(1), t(2)>>))
    [] op = 125 -> Need(m, 2, Repl(m, 2, <<t(1), t(2), t(1)>>))
    [] op = 130 -> Need(m, 1, Repl(m, 0, <<NumBytes(BOf(HexLen(t(1))))>>))
    [] op = 135 -> Need(m, 2, Repl(m, 2, <<Flag(t(1) = t(2))>>))
    [] op = 136 -> Need(m, 2, IF t(1) = t(2) THEN Repl(m, 2, <<>>) ELSE Bad(m))
    [] op = 139 -> N1(m, LAMBDA a : BAdd(a, 1))
    [] op = 140 -> N1(m, LAMBDA a : BSub(a, 1))
    [] op = 143 -> N1(m, LAMBDA a : BSub("0", a))
    [] op = 144 -> N1(m, BAbs)
    [] op = 145 -> N1(m, LAMBDA a : BN(a = "0"))
    [] op = 146 -> N1(m, LAMBDA a : BN(a # "0"))
    [] op = 147 -> N2(m, BAdd)
    [] op = 148 -> N2(m, BSub)
    [] op = 154 -> N2(m, LAMBDA a, b : BN(a # "0" /\ b # "0"))
    [] op = 155 -> N2(m, LAMBDA a, b : BN(a # "0" \/ b # "0"))
    [] op = 156 -> N2(m, LAMBDA a, b : BN(a = b))
    [] op = 157 -> (LET r == N2(m, LAMBDA a, b : BN(a = b)) IN IF r.st = "fail" THEN r ELSE Verify(r))
    [] op = 158 -> N2(m, LAMBDA a, b : BN(a # b))
    [] op = 159 -> N2(m, LAMBDA a, b : BN(BLt(a, b)))
    [] op = 160 -> N2(m, LAMBDA a, b : BN(BLt(b, a)))
    [] op = 161 -> N2(m, LAMBDA a, b : BN(BLe(a, b)))
    [] op = 162 -> N2(m, LAMBDA a, b : BN(BLe(b, a)))
    [] op = 163 -> N2(m, LAMBDA a, b : IF BLt(a, b) THEN a ELSE b)
    [] op = 164 -> N2(m, LAMBDA a, b : IF BLt(b, a) THEN a ELSE b)
    [] op = 165 -> IF D(m) < 3 THEN Bad(m) ELSE IF ~(IsNum(t(1)) /\ IsNum(t(2)) /\ IsNum(t(3))) THEN Bad(m)
                   ELSE Repl(m, 3, <<Flag(BLe(Num(t(2)), Num(t(3))) /\ BLt(Num(t(3)), Num(t(1))))>>)
    [] op = 166 -> H1(m, Ripemd160)
    [] op = 167 -> H1(m, Sha1)
    [] op = 168 -> H1(m, Sha256)
    [] op = 169 -> H1(m, Hash160)
    [] op = 170 -> H1(m, Hash256)
    [] op = 171 -> [m EXCEPT !.sep = o.next]
    [] op = 172 -> DoCheckSig(env, m, FALSE)
    [] op = 173 -> DoCheckSig(env, m, TRUE)
    [] op = 174 -> DoMultiSig(env, m, FALSE)
    [] op = 175 -> DoMultiSig(env, m, TRUE)
    [] op = 103 -> IF m.exec = <<>> THEN Bad(m) ELSE [m EXCEPT !.exec[Len(m.exec)] = ~@]
    [] op = 104 -> IF m.exec = <<>> THEN Bad(m) ELSE [m EXCEPT !.exec = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> Bad(m)          \* reserved, unknown, OP_RETURN, OP_VER

Executing(m) == \A i \in 1..Len(m.exec) : m.exec[i]
(* ... and where it is not: only conditionals are noticed *)
Skipped(m, o) == CASE ~o.push /\ o.op \in {99, 100} -> [m EXCEPT !.exec = Append(@, FALSE)]
                   [] ~o.push /\ o.op = 103 -> [m EXCEPT !.exec[Len(m.exec)] = ~@]
                   [] ~o.push /\ o.op = 104 -> [m EXCEPT !.exec = SubSeq(@, 1, Len(@) - 1)]
                   [] OTHER -> m
StepOp(env, m) ==
  IF m.pc >= HexLen(env.script) THEN [m EXCEPT !.st = IF m.exec = <<>> THEN "ok" ELSE "fail"]
  ELSE LET o == OpAt(env.script, m.pc) IN
  IF ~o.ok THEN Bad(m)
  ELSE IF ~o.push /\ o.op \in Disabled THEN Bad(m)
  ELSE IF o.push /\ HexLen(o.data) > MaxElement THEN Bad(m)
  ELSE LET m1 == [m EXCEPT !.pc = o.next, !.nops = IF o.op > 96 THEN @ + 1 ELSE @] IN
  IF m1.nops > MaxOps THEN Bad(m)
  ELSE LET m2 == IF Executing(m) THEN Effect(env, m1, o) ELSE Skipped(m1, o) IN
  IF m2.st = "run" /\ Len(m2.stack) + Len(m2.alt) > MaxStack THEN Bad(m) ELSE m2

Eval(env, stack) ==
  IF HexLen(env.script) > MaxScript THEN Bad(M0(stack))
  ELSE FoldLeft(LAMBDA m, i : IF m.st = "run" THEN StepOp(env, m) ELSE m, M0(stack), Upto(HexLen(env.script) + 1))

(* ---- verification of an input ---- *)
IsP2SH(h) == HexLen(h) = 23 /\ HexSub(h, 1, 2) = "a914" /\ HexAt(h, 23) = 135
PushOnly(h) == LET p == Parse(h) IN p.ok /\ \A i \in 1..Len(p.ops) : p.ops[i].op <= 96
EndsTrue(m) == m.st = "ok" /\ m.stack # <<>> /\ Truth(m.stack[Len(m.stack)])
VerifyInput(sig, pub, tx, idx, p2sh) ==
  LET e(s) == [script |-> s, tx |-> tx, idx |-> idx]
      a == Eval(e(sig), <<>>) IN
  /\ a.st = "ok"
  /\ EndsTrue(Eval(e(pub), a.stack))
  /\ (p2sh /\ IsP2SH(pub)) =>
       /\ PushOnly(sig)
       /\ EndsTrue(Eval(e(a.stack[Len(a.stack)]), SubSeq(a.stack, 1, Len(a.stack) - 1)))
=============================================================================
