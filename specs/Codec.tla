-------------------------------- MODULE Codec --------------------------------
(* The serialized form of every declared type, as a total decoder.            *)
(*   PT  plain types: name -> [kind, lo, hi]                                  *)
(*   CT  proof classes: name -> [base, var, tag, sub, hashing, attrs, types]  *)
(*       types[i] = [u: is it a union, t: type name, us: classes of a union]  *)
(*   VT  base class -> its variants in order                                  *)
(* A decoded value is [s, h]: the value as text, and what it contributes to   *)
(* the hash of an object it is a field of.                                    *)
EXTENDS Integers, Sequences, Wire, Commit, BtcWire

TxPad == "4cf810b73dc605fbe6c2156a7041e370f4750e39d2d1573199c772c7324bd054"

Plain2(s, pos) == Got([s |-> s, h |-> s], pos)
DecPlain(p, h, pos) ==
  CASE p.kind = "int" ->
         LET r == DecVarUint(h, pos) IN
         IF ~r.ok THEN r ELSE IF BLt(p.hi, r.v) THEN Fail("bad") ELSE Plain2(EncVarUint(r.v), r.pos)
    [] p.kind = "bool" -> LET r == DecBool(h, pos) IN IF ~r.ok THEN r ELSE Plain2(EncBool(r.v), r.pos)
    [] p.kind = "fixed" -> LET r == DecBytes(h, pos, p.hi) IN IF ~r.ok THEN r ELSE Plain2(r.v, r.pos)
    [] p.kind = "var" ->
         LET n == DecVarUint(h, pos) IN
         IF ~n.ok THEN n
         ELSE IF BLt(n.v, p.lo) \/ BLt(p.hi, n.v) THEN Fail("bad")
         ELSE LET r == DecBytes(h, n.pos, n.v) IN IF ~r.ok THEN r ELSE Plain2(EncVarUint(n.v) \o r.v, r.pos)
    [] p.kind = "bits" -> LET r == DecBits(h, pos) IN IF ~r.ok THEN r ELSE Plain2(EncBits(r.v), r.pos)
    [] p.kind \in {"tx", "outpoint"} ->
         LET n == DecVarUint(h, pos) IN
         IF ~n.ok THEN n
         ELSE LET r == DecBytes(h, n.pos, n.v) IN
              IF ~r.ok THEN r
              ELSE LET x == IF p.kind = "tx" THEN RdTx(r.v, 0) ELSE RdOutPoint(r.v, 0) IN
                   IF ~x.ok \/ x.pos # HexLen(r.v) THEN Fail("bad")
                   ELSE LET e == IF p.kind = "tx" THEN TxBytes(x.v) ELSE OutPoint(x.v) IN
                        IF e # r.v THEN Fail("bad") ELSE Plain2(EncVarUint(n.v) \o r.v, r.pos)

ClassTag(c) == IF c.sub = "" THEN c.tag ELSE Derive(c.sub, c.tag)
HashOf(c, dh) == IF c.hashing = "tx" THEN HexXor(dh, TxPad) ELSE ProofHash(ClassTag(c), dh)
(* What comes first in a variable bytes encoding is its length *)
DataHashOf(c, contribs) ==
  IF c.hashing = "tx" THEN LET n == DecVarUint(contribs[1], 0) IN Hash256(HexSub(contribs[1], n.pos + 1, HexLen(contribs[1])))
  ELSE DataHash(contribs)

RECURSIVE JoinText(_, _)
JoinText(vs, i) == IF i > Len(vs) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o vs[i] \o JoinText(vs, i + 1)

RECURSIVE DecType(_, _, _, _, _, _), DecFields(_, _, _, _, _, _, _, _), DecClass(_, _, _, _, _, _)
DecType(PT, CT, VT, t, h, pos) ==
  IF t.u THEN
    LET i == DecVarUint(h, pos) IN
    IF ~i.ok THEN i
    ELSE IF BLe(Len(t.us), i.v) THEN Fail("bad")
    ELSE DecClass(PT, CT, VT, t.us[BInt(i.v) + 1], h, i.pos)
  ELSE IF t.t \in DOMAIN PT THEN DecPlain(PT[t.t], h, pos)
  ELSE DecClass(PT, CT, VT, t.t, h, pos)
DecClass(PT, CT, VT, name, h, pos) ==
  LET f == DecBool(h, pos) IN
  IF ~f.ok THEN f
  ELSE LET isvar == name \in DOMAIN VT
           base  == IF isvar THEN name ELSE CT[name].base
           i == IF base \in DOMAIN VT THEN DecVarUint(h, f.pos) ELSE Got("0", f.pos) IN
       IF ~i.ok THEN i
       ELSE IF base \in DOMAIN VT /\ BLe(Len(VT[base]), i.v) THEN Fail("bad")
       ELSE LET cname == IF base \in DOMAIN VT THEN VT[base][BInt(i.v) + 1] ELSE name IN
            IF f.v THEN LET d == DecBytes(h, i.pos, 32) IN
                        IF ~d.ok THEN d
                        ELSE Got([s |-> cname \o "<" \o d.v \o ">", h |-> HashOf(CT[cname], d.v)], d.pos)
            ELSE DecFields(PT, CT, VT, cname, h, i.pos, 1, [s |-> <<>>, h |-> <<>>])
DecFields(PT, CT, VT, cname, h, pos, k, acc) ==
  LET c == CT[cname] IN
  IF k > Len(c.types)
  THEN Got([s |-> cname \o "(" \o JoinText(acc.s, 1) \o ")", h |-> HashOf(c, DataHashOf(c, acc.h))], pos)
  ELSE LET r == DecType(PT, CT, VT, c.types[k], h, pos) IN
       IF ~r.ok THEN r
       ELSE DecFields(PT, CT, VT, cname, h, r.pos, k + 1, [s |-> Append(acc.s, r.v.s), h |-> Append(acc.h, r.v.h)])
=============================================================================
