------------------------------- MODULE NetCodec -------------------------------
(* Bitcoin's network format for every structure of the library, by name of    *)
(* type; arbitrary precision numbers in script and MPI form.                  *)
EXTENDS BtcWire

(* ---- arbitrary precision numbers: sign and magnitude, shortest ---- *)
BNeg(v) == BLt(v, "0")
BAbs(v) == IF BNeg(v) THEN BSub("0", v) ELSE v
NumLen(v) == IF v = "0" THEN 0 ELSE (BBits(v) \div 8) + 1
NumBytes(v) == IF v = "0" THEN ""       \* little endian, the top bit is the sign
               ELSE BLE(IF BNeg(v) THEN BAdd(BAbs(v), BPow("2", 8 * NumLen(v) - 1)) ELSE v, NumLen(v))
NumOf(h) == IF h = "" THEN "0"
            ELSE LET top == BPow("2", 8 * HexLen(h) - 1)  u == BOfLE(h) IN
                 IF BLt(u, top) THEN u ELSE BSub("0", BSub(u, top))
Mpi(v) == HexRev(BLE(BOf(NumLen(v)), 4)) \o HexRev(NumBytes(v))
MpiWell(h) == HexLen(h) >= 4 /\ BOfLE(HexRev(HexSub(h, 1, 4))) = BOf(HexLen(h) - 4)
MpiOf(h) == NumOf(HexRev(HexSub(h, 5, HexLen(h))))

(* ---- vectors ---- *)
RECURSIVE RdInts(_, _, _, _), RdHashes(_, _, _, _), RdPoints(_, _, _, _)
RdInts(h, pos, n, acc) == IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdInt(h, pos, 4) IN IF ~r.ok THEN r ELSE RdInts(h, r.pos, BSub(n, 1), Append(acc, r.v))
RdHashes(h, pos, n, acc) == IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdBytes(h, pos, 32) IN IF ~r.ok THEN r ELSE RdHashes(h, r.pos, BSub(n, 1), Append(acc, r.v))
RdPoints(h, pos, n, acc) == IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdOutPoint(h, pos) IN IF ~r.ok THEN r ELSE RdPoints(h, r.pos, BSub(n, 1), Append(acc, r.v))
Counted(h, pos, Rest(_, _)) == LET n == RdCompact(h, pos) IN IF n.ok THEN Rest(n.pos, n.v) ELSE n

All(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
GoodOutPoint(o) == HexLen(o.hash) = 32 /\ InU32(o.n)
GoodTxIn(i) == GoodOutPoint(i.prevout) /\ InU32(i.seq)
GoodTxOut(o) == InI64(o.value)
GoodTx(t) == InI32(t.version) /\ InU32(t.lock) /\ All(t.vin, GoodTxIn) /\ All(t.vout, GoodTxOut)
GoodHeader(b) == InI32(b.version) /\ HexLen(b.prev) = 32 /\ HexLen(b.root) = 32 /\ InU32(b.time) /\ InU32(b.bits) /\ InU32(b.nonce)

(* representable at all *)
Good(t, v) ==
  CASE t = "outpoint" -> GoodOutPoint(v) [] t = "txin" -> GoodTxIn(v) [] t = "txout" -> GoodTxOut(v)
    [] t = "tx" -> GoodTx(v) [] t = "header" -> GoodHeader(v) [] t = "block" -> GoodHeader(v) /\ All(v.vtx, GoodTx)
    [] t = "varint" -> BLe("0", v) /\ BLt(v, "18446744073709551616")
    [] t \in {"bytes", "varstr"} -> TRUE
    [] t = "u256v" -> All(v, LAMBDA h : HexLen(h) = 32)
    [] t = "intv" -> All(v, InI32)
    [] t = "points" -> All(v, GoodOutPoint) [] t = "txins" -> All(v, GoodTxIn) [] t = "txouts" -> All(v, GoodTxOut)
    [] t = "txs" -> All(v, GoodTx)

Enc(t, v) ==
  CASE t = "outpoint" -> OutPoint(v) [] t = "txin" -> TxInBytes(v) [] t = "txout" -> TxOutBytes(v)
    [] t = "tx" -> TxBytes(v) [] t = "header" -> HeaderBytes(v) [] t = "block" -> BlockBytes(v)
    [] t = "varint" -> CompactSize(v)
    [] t \in {"bytes", "varstr"} -> EncVar(v)
    [] t = "u256v" -> VecBytes(v)
    [] t = "intv" -> VecBytes([i \in 1..Len(v) |-> BLE(v[i], 4)])
    [] t = "points" -> VecBytes([i \in 1..Len(v) |-> OutPoint(v[i])])
    [] t = "txins" -> VecBytes([i \in 1..Len(v) |-> TxInBytes(v[i])])
    [] t = "txouts" -> VecBytes([i \in 1..Len(v) |-> TxOutBytes(v[i])])
    [] t = "txs" -> VecBytes([i \in 1..Len(v) |-> TxBytes(v[i])])

Rd(t, h, pos) ==
  CASE t = "outpoint" -> RdOutPoint(h, pos) [] t = "txin" -> RdTxIn(h, pos) [] t = "txout" -> RdTxOut(h, pos)
    [] t = "tx" -> RdTx(h, pos) [] t = "header" -> RdHeader(h, pos) [] t = "block" -> RdBlock(h, pos)
    [] t = "varint" -> RdCompact(h, pos)
    [] t \in {"bytes", "varstr"} -> RdVar(h, pos)
    [] t = "u256v" -> Counted(h, pos, LAMBDA p, n : RdHashes(h, p, n, <<>>))
    [] t = "intv" -> Counted(h, pos, LAMBDA p, n : RdInts(h, p, n, <<>>))
    [] t = "points" -> Counted(h, pos, LAMBDA p, n : RdPoints(h, p, n, <<>>))
    [] t = "txins" -> Counted(h, pos, LAMBDA p, n : RdTxIns(h, p, n, <<>>))
    [] t = "txouts" -> Counted(h, pos, LAMBDA p, n : RdTxOuts(h, p, n, <<>>))
    [] t = "txs" -> Counted(h, pos, LAMBDA p, n : RdTxs(h, p, n, <<>>))

(* the hash of an object: of its bytes, of the header for a block *)
ObjHash(t, v) == IF t = "block" THEN Hash256(HeaderBytes(v)) ELSE Hash256(Enc(t, v))
=============================================================================
