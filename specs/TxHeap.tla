-------------------------------- MODULE TxHeap --------------------------------
(* Immutable and mutable outpoints, inputs, outputs and transactions as        *)
(* objects in a heap.  A node is                                              *)
(*   [k, m, s, n, ref, vin, vout, ver, items]                                 *)
(* k = "op" (s: hash, n), "in" (ref: prevout, s: script, n: sequence), "out"   *)
(* (s: script, n: value), "tx" (vin, vout: lists, n: lock time, ver), "list"   *)
(* (items; a tuple if not mutable) or "block" (vin: its transactions, s: its   *)
(* header without the version, ver).  m: mutable.                             *)
EXTENDS BtcWire

Node == [k |-> "", m |-> FALSE, s |-> "", n |-> "0", ref |-> 0, vin |-> 0, vout |-> 0, ver |-> "1", items |-> <<>>]
Put(h, node) == [h |-> Append(h, node), id |-> Len(h) + 1]
POp(h, m, hash, n) == Put(h, [Node EXCEPT !.k = "op", !.m = m, !.s = hash, !.n = n])
POut(h, m, value, script) == Put(h, [Node EXCEPT !.k = "out", !.m = m, !.n = value, !.s = script])
PList(h, m, items) == Put(h, [Node EXCEPT !.k = "list", !.m = m, !.items = items])

(* an immutable version: itself if it is immutable already, otherwise a copy of all of it *)
RECURSIVE FromI(_, _), EachI(_, _, _, _)
EachI(h, items, i, acc) == IF i > Len(items) THEN [h |-> h, items |-> acc]
                           ELSE LET r == FromI(h, items[i]) IN EachI(r.h, items, i + 1, Append(acc, r.id))
ITuple(h, id) == LET r == EachI(h, h[id].items, 1, <<>>) IN PList(r.h, FALSE, r.items)
FromI(h, id) ==
  LET x == h[id] IN
  IF ~x.m THEN [h |-> h, id |-> id]
  ELSE CASE x.k \in {"op", "out"} -> Put(h, [x EXCEPT !.m = FALSE])
         [] x.k = "in" -> LET p == FromI(h, x.ref) IN Put(p.h, [x EXCEPT !.m = FALSE, !.ref = p.id])
         [] x.k = "tx" -> LET a == ITuple(h, x.vin)  b == ITuple(a.h, x.vout) IN
                          Put(b.h, [x EXCEPT !.m = FALSE, !.vin = a.id, !.vout = b.id])
(* a mutable copy, sharing nothing *)
RECURSIVE FromM(_, _), EachM(_, _, _, _)
EachM(h, items, i, acc) == IF i > Len(items) THEN [h |-> h, items |-> acc]
                           ELSE LET r == FromM(h, items[i]) IN EachM(r.h, items, i + 1, Append(acc, r.id))
MList(h, id) == LET r == EachM(h, h[id].items, 1, <<>>) IN PList(r.h, TRUE, r.items)
FromM(h, id) ==
  LET x == h[id] IN
  CASE x.k \in {"op", "out"} -> Put(h, [x EXCEPT !.m = TRUE])
    [] x.k = "in" -> LET p == FromM(h, x.ref) IN Put(p.h, [x EXCEPT !.m = TRUE, !.ref = p.id])
    [] x.k = "tx" -> LET a == MList(h, x.vin)  b == MList(a.h, x.vout) IN
                     Put(b.h, [x EXCEPT !.m = TRUE, !.vin = a.id, !.vout = b.id])

(* the constructors: an immutable object takes immutable versions of its parts, a mutable one takes them as they are *)
PIn(h, m, ref, script, seq) ==
  IF m THEN Put(h, [Node EXCEPT !.k = "in", !.m = TRUE, !.ref = ref, !.s = script, !.n = seq])
  ELSE LET p == FromI(h, ref) IN Put(p.h, [Node EXCEPT !.k = "in", !.ref = p.id, !.s = script, !.n = seq])
PTx(h, m, vin, vout, lock, ver) ==
  IF m THEN Put(h, [Node EXCEPT !.k = "tx", !.m = TRUE, !.vin = vin, !.vout = vout, !.n = lock, !.ver = ver])
  ELSE LET a == ITuple(h, vin)  b == ITuple(a.h, vout) IN
       Put(b.h, [Node EXCEPT !.k = "tx", !.vin = a.id, !.vout = b.id, !.n = lock, !.ver = ver])
PBlock(h, vtx, ver, hdr) == LET a == ITuple(h, vtx) IN Put(a.h, [Node EXCEPT !.k = "block", !.vin = a.id, !.ver = ver, !.s = hdr])
NullOp == [hash |-> HexRep("00", 32), n |-> "4294967295"]
PDefault(h, k, m) ==
  CASE k = "op" -> POp(h, m, NullOp.hash, NullOp.n)
    [] k = "in" -> LET p == POp(h, m, NullOp.hash, NullOp.n) IN PIn(p.h, m, p.id, "", "4294967295")
    [] k = "out" -> POut(h, m, "-1", "")
    [] k = "tx" -> LET a == PList(h, m, <<>>)  b == PList(a.h, m, <<>>) IN PTx(b.h, m, a.id, b.id, "0", "1")

(* ---- what an object looks like ---- *)
VOp(h, id) == [hash |-> h[id].s, n |-> h[id].n]
VIn(h, id) == [prevout |-> VOp(h, h[id].ref), script |-> h[id].s, seq |-> h[id].n]
VOut(h, id) == [value |-> h[id].n, script |-> h[id].s]
VTx(h, id) == [version |-> h[id].ver, vin |-> [i \in 1..Len(h[h[id].vin].items) |-> VIn(h, h[h[id].vin].items[i])],
               vout |-> [i \in 1..Len(h[h[id].vout].items) |-> VOut(h, h[h[id].vout].items[i])], lock |-> h[id].n]
HdrBytes(h, id) == BLE(h[id].ver, 4) \o h[id].s
Txs(h, id) == h[h[id].vin].items
Bytes(h, id) == CASE h[id].k = "op" -> OutPoint(VOp(h, id)) [] h[id].k = "in" -> TxInBytes(VIn(h, id))
                  [] h[id].k = "out" -> TxOutBytes(VOut(h, id)) [] h[id].k = "tx" -> TxBytes(VTx(h, id))
                  [] h[id].k = "block" -> HdrBytes(h, id) \o VecBytes([i \in 1..Len(Txs(h, id)) |-> TxBytes(VTx(h, Txs(h, id)[i]))])
HashBytes(h, id) == Hash256(IF h[id].k = "block" THEN HdrBytes(h, id) ELSE Bytes(h, id))

(* all of it, and which parts are mutable *)
RECURSIVE Show(_, _), ShowAll(_, _, _)
ShowAll(h, items, i) == IF i > Len(items) THEN "" ELSE Show(h, items[i]) \o (IF i < Len(items) THEN "," ELSE "") \o ShowAll(h, items, i + 1)
Show(h, id) ==
  LET x == h[id]  t == IF x.m THEN "M" ELSE "I" IN
  CASE x.k = "op" -> t \o "op(" \o x.s \o ":" \o x.n \o ")"
    [] x.k = "in" -> t \o "in(" \o Show(h, x.ref) \o ":" \o x.s \o ":" \o x.n \o ")"
    [] x.k = "out" -> t \o "out(" \o x.n \o ":" \o x.s \o ")"
    [] x.k = "tx" -> t \o "tx(" \o Show(h, x.vin) \o Show(h, x.vout) \o x.n \o ":" \o x.ver \o ")"
    [] x.k = "list" -> IF x.m THEN "[" \o ShowAll(h, x.items, 1) \o "]" ELSE "<" \o ShowAll(h, x.items, 1) \o ">"
    [] x.k = "block" -> "block(" \o x.ver \o ":" \o x.s \o Show(h, x.vin) \o ")"

RECURSIVE Reach(_, _)
Reach(h, id) == {id} \cup (IF h[id].ref = 0 THEN {} ELSE Reach(h, h[id].ref))
                \cup (IF h[id].vin = 0 THEN {} ELSE Reach(h, h[id].vin)) \cup (IF h[id].vout = 0 THEN {} ELSE Reach(h, h[id].vout))
                \cup UNION {Reach(h, h[id].items[i]) : i \in 1..Len(h[id].items)}

(* ---- one operation: [h, id, ok]; id = 0: no new handle ---- *)
Field(x, f) == CASE f = "hash" -> x.s [] f \in {"n", "nSequence", "nValue", "nLockTime"} -> x.n [] f \in {"scriptSig", "scriptPubKey"} -> x.s
Setting(x, f, v) ==
  CASE f \in {"hash", "scriptSig", "scriptPubKey"} -> [x EXCEPT !.s = v]
    [] f \in {"n", "nSequence", "nValue", "nLockTime"} -> [x EXCEPT !.n = v]
    [] f = "nVersion" -> [x EXCEPT !.ver = v]
SettingRef(x, f, id) == CASE f = "prevout" -> [x EXCEPT !.ref = id] [] f = "vin" -> [x EXCEPT !.vin = id] [] f = "vout" -> [x EXCEPT !.vout = id]
Part(x, f) == CASE f = "prevout" -> x.ref [] f \in {"vin", "vtx"} -> x.vin [] f = "vout" -> x.vout
=============================================================================
