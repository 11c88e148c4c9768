------------------------------- MODULE BtcWire -------------------------------
(* Bitcoin's network encodings.  Integers are decimal strings (big), byte     *)
(* strings hex.  Decoders are total: Got(value, bytes consumed) or Fail(why), *)
(* why = "trunc", "size" (beyond MAX_SIZE) or "bad".                          *)
EXTENDS Integers, Sequences, Crypto

MaxSize == 33554432      \* 0x02000000
BFail(why) == [ok |-> FALSE, why |-> why, v |-> "", pos |-> 0]
BGot(v, pos) == [ok |-> TRUE, why |-> "", v |-> v, pos |-> pos]

U8(n)  == BLE(n, 1)
U16(n) == BLE(n, 2)
U32(n) == BLE(n, 4)
U64(n) == BLE(n, 8)
Signed(b, bits) == IF BLt(b, BPow("2", bits - 1)) THEN b ELSE BSub(b, BPow("2", bits))
InU32(n) == BLe("0", n) /\ BLt(n, "4294967296")
InI32(n) == BLe("-2147483648", n) /\ BLt(n, "2147483648")
InI64(n) == BLe("-9223372036854775808", n) /\ BLt(n, "9223372036854775808")

CompactSize(n) ==
  CASE BLt(n, 253) -> U8(n)
    [] BLe(253, n) /\ BLe(n, 65535) -> "fd" \o U16(n)
    [] BLt(65535, n) /\ BLe(n, "4294967295") -> "fe" \o U32(n)
    [] OTHER -> "ff" \o U64(n)

RdBytes(h, pos, n) ==      \* n: integer or big
  IF BLt(MaxSize, n) THEN BFail("size")
  ELSE IF BLt(HexLen(h) - pos, n) THEN BFail("trunc")
  ELSE BGot(HexSub(h, pos + 1, pos + BInt(BOf(n))), pos + BInt(BOf(n)))
RdUint(h, pos, n) == LET r == RdBytes(h, pos, n) IN IF r.ok THEN BGot(BOfLE(r.v), r.pos) ELSE r
RdInt(h, pos, n)  == LET r == RdUint(h, pos, n) IN IF r.ok THEN BGot(Signed(r.v, 8 * n), r.pos) ELSE r
RdCompact(h, pos) ==
  LET b == RdUint(h, pos, 1) IN
  IF ~b.ok THEN b
  ELSE CASE b.v = "253" -> RdUint(h, b.pos, 2)
         [] b.v = "254" -> RdUint(h, b.pos, 4)
         [] b.v = "255" -> RdUint(h, b.pos, 8)
         [] OTHER -> b
RdVar(h, pos) == LET n == RdCompact(h, pos) IN IF n.ok THEN RdBytes(h, n.pos, n.v) ELSE n

EncVar(b) == CompactSize(HexLen(b)) \o b

OutPoint(o) == o.hash \o U32(o.n)
TxInBytes(i)  == OutPoint(i.prevout) \o EncVar(i.script) \o U32(i.seq)
TxOutBytes(o) == U64(o.value) \o EncVar(o.script)
VecBytes(encs) == CompactSize(Len(encs)) \o HexCat(encs)
TxBytes(t) == BLE(t.version, 4) \o VecBytes([i \in 1..Len(t.vin) |-> TxInBytes(t.vin[i])])
              \o VecBytes([i \in 1..Len(t.vout) |-> TxOutBytes(t.vout[i])]) \o U32(t.lock)
Txid(t) == Hash256(TxBytes(t))
HeaderBytes(b) == BLE(b.version, 4) \o b.prev \o b.root \o U32(b.time) \o U32(b.bits) \o U32(b.nonce)
BlockBytes(b) == HeaderBytes(b) \o VecBytes([i \in 1..Len(b.vtx) |-> TxBytes(b.vtx[i])])

RdOutPoint(h, pos) ==
  LET a == RdBytes(h, pos, 32) IN IF ~a.ok THEN a
  ELSE LET n == RdUint(h, a.pos, 4) IN IF ~n.ok THEN n ELSE BGot([hash |-> a.v, n |-> n.v], n.pos)
RdTxIn(h, pos) ==
  LET o == RdOutPoint(h, pos) IN IF ~o.ok THEN o
  ELSE LET s == RdVar(h, o.pos) IN IF ~s.ok THEN s
  ELSE LET q == RdUint(h, s.pos, 4) IN IF ~q.ok THEN q
  ELSE BGot([prevout |-> o.v, script |-> s.v, seq |-> q.v], q.pos)
RdTxOut(h, pos) ==
  LET v == RdInt(h, pos, 8) IN IF ~v.ok THEN v
  ELSE LET s == RdVar(h, v.pos) IN IF ~s.ok THEN s
  ELSE BGot([value |-> v.v, script |-> s.v], s.pos)

RECURSIVE RdTxIns(_, _, _, _), RdTxOuts(_, _, _, _)
RdTxIns(h, pos, n, acc) ==
  IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdTxIn(h, pos) IN IF ~r.ok THEN r ELSE RdTxIns(h, r.pos, BSub(n, 1), Append(acc, r.v))
RdTxOuts(h, pos, n, acc) ==
  IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdTxOut(h, pos) IN IF ~r.ok THEN r ELSE RdTxOuts(h, r.pos, BSub(n, 1), Append(acc, r.v))

RdTx(h, pos) ==
  LET v == RdInt(h, pos, 4) IN IF ~v.ok THEN v
  ELSE LET ni == RdCompact(h, v.pos) IN IF ~ni.ok THEN ni
  ELSE LET i == RdTxIns(h, ni.pos, ni.v, <<>>) IN IF ~i.ok THEN i
  ELSE LET no == RdCompact(h, i.pos) IN IF ~no.ok THEN no
  ELSE LET o == RdTxOuts(h, no.pos, no.v, <<>>) IN IF ~o.ok THEN o
  ELSE LET k == RdUint(h, o.pos, 4) IN IF ~k.ok THEN k
  ELSE BGot([version |-> v.v, vin |-> i.v, vout |-> o.v, lock |-> k.v], k.pos)

RdHeader(h, pos) ==
  LET v == RdInt(h, pos, 4) IN IF ~v.ok THEN v
  ELSE LET p == RdBytes(h, v.pos, 32) IN IF ~p.ok THEN p
  ELSE LET r == RdBytes(h, p.pos, 32) IN IF ~r.ok THEN r
  ELSE LET t == RdUint(h, r.pos, 4) IN IF ~t.ok THEN t
  ELSE LET b == RdUint(h, t.pos, 4) IN IF ~b.ok THEN b
  ELSE LET n == RdUint(h, b.pos, 4) IN IF ~n.ok THEN n
  ELSE BGot([version |-> v.v, prev |-> p.v, root |-> r.v, time |-> t.v, bits |-> b.v, nonce |-> n.v, vtx |-> <<>>], n.pos)
RECURSIVE RdTxs(_, _, _, _)
RdTxs(h, pos, n, acc) ==
  IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdTx(h, pos) IN IF ~r.ok THEN r ELSE RdTxs(h, r.pos, BSub(n, 1), Append(acc, r.v))
RdBlock(h, pos) ==
  LET d == RdHeader(h, pos) IN IF ~d.ok THEN d
  ELSE LET n == RdCompact(h, d.pos) IN IF ~n.ok THEN n
  ELSE LET t == RdTxs(h, n.pos, n.v, <<>>) IN IF ~t.ok THEN t
  ELSE BGot([d.v EXCEPT !.vtx = t.v], t.pos)
=============================================================================
