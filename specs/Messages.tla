------------------------------- MODULE Messages -------------------------------
(* The peer-to-peer protocol: payload of every kind of message, frames, and a *)
(* total decoder of frames.  A message is [cmd, v], v the sequence of its     *)
(* fields as laid out below; "none" is a field absent in an old version.      *)
EXTENDS NetCodec

Chains == {"mainnet", "testnet", "regtest"}
Magic(chain) == CASE chain = "mainnet" -> "f9beb4d9" [] chain = "testnet" -> "0b110907" [] chain = "regtest" -> "fabfb5da"

Cmds == {"version", "verack", "addr", "alert", "inv", "getdata", "getblocks", "getheaders", "headers", "tx", "block", "getaddr", "ping", "pong", "mempool"}
CmdHex(c) ==
  CASE c = "version" -> "76657273696f6e" [] c = "verack" -> "76657261636b" [] c = "addr" -> "61646472" [] c = "alert" -> "616c657274"
    [] c = "inv" -> "696e76" [] c = "getdata" -> "67657464617461" [] c = "getblocks" -> "676574626c6f636b73" [] c = "getheaders" -> "67657468656164657273"
    [] c = "headers" -> "68656164657273" [] c = "tx" -> "7478" [] c = "block" -> "626c6f636b" [] c = "getaddr" -> "67657461646472"
    [] c = "ping" -> "70696e67" [] c = "pong" -> "706f6e67" [] c = "mempool" -> "6d656d706f6f6c"
CmdField(c) == CmdHex(c) \o HexRep("00", 12 - HexLen(CmdHex(c)))

Layout(c) ==
  CASE c = "version" -> <<"i32", "u64", "i64", "addrnt", "addrnt", "u64", "var", "i32">>
    [] c \in {"verack", "getaddr", "mempool"} -> <<>>
    [] c = "addr" -> <<"addrs">> [] c = "alert" -> <<"var", "var">> [] c \in {"inv", "getdata"} -> <<"invs">>
    [] c \in {"getblocks", "getheaders"} -> <<"i32", "u256v", "b32">>
    [] c = "headers" -> <<"blocks">> [] c = "tx" -> <<"tx">> [] c = "block" -> <<"block">> [] c \in {"ping", "pong"} -> <<"u64">>
    [] c = "ualert" -> <<"i32", "i64", "i64", "i32", "i32", "intv", "i32", "i32", "strs", "i32", "var", "var", "var">>
Sub(t) == CASE t = "addrnt" -> <<"u64", "b12", "b4", "be16">> [] t = "addrt" -> <<"u32", "u64", "b12", "b4", "be16">> [] t = "inv" -> <<"i32", "b32">>
Item(t) == CASE t = "addrs" -> "addrt" [] t = "invs" -> "inv" [] t = "blocks" -> "block" [] t = "strs" -> "var"
Sized(t) == CASE t = "b32" -> 32 [] t = "b12" -> 12 [] t = "b4" -> 4 [] t \in {"i32", "u32"} -> 4 [] t \in {"i64", "u64"} -> 8

RECURSIVE EncF(_, _)
EncF(t, v) ==
  CASE t \in {"i32", "u32", "i64", "u64"} -> BLE(v, Sized(t))
    [] t = "be16" -> HexRev(BLE(v, 2))
    [] t \in {"b32", "b12", "b4"} -> v
    [] t = "var" -> EncVar(v)
    [] t \in {"tx", "block", "u256v", "intv"} -> Enc(t, v)
    [] t \in {"addrnt", "addrt", "inv"} -> HexCat([i \in 1..Len(v) |-> EncF(Sub(t)[i], v[i])])
    [] t \in {"addrs", "invs", "blocks", "strs"} -> VecBytes([i \in 1..Len(v) |-> EncF(Item(t), v[i])])
(* how many fields the given version of a version message has *)
Fields(c, v) == IF c # "version" THEN Len(Layout(c)) ELSE IF BLt(v[1], 106) THEN 4 ELSE IF BLt(v[1], 209) THEN 7 ELSE 8
Payload(c, v) == HexCat([i \in 1..Fields(c, v) |-> EncF(Layout(c)[i], v[i])])
FrameOf(chain, cmdfield, p) == Magic(chain) \o cmdfield \o U32(BOf(HexLen(p))) \o HexSub(Hash256(p), 1, 4) \o p
Frame(chain, c, v) == FrameOf(chain, CmdField(c), Payload(c, v))

RECURSIVE RdF(_, _, _), RdSeq(_, _, _, _, _), RdItems(_, _, _, _, _)
RdF(t, h, pos) ==
  CASE t \in {"i32", "i64"} -> RdInt(h, pos, Sized(t))
    [] t \in {"u32", "u64"} -> RdUint(h, pos, Sized(t))
    [] t = "be16" -> LET r == RdBytes(h, pos, 2) IN IF r.ok THEN BGot(BOfLE(HexRev(r.v)), r.pos) ELSE r
    [] t \in {"b32", "b12", "b4"} -> RdBytes(h, pos, Sized(t))
    [] t = "var" -> RdVar(h, pos)
    [] t \in {"tx", "block", "u256v", "intv"} -> Rd(t, h, pos)
    [] t \in {"addrnt", "addrt", "inv"} -> RdSeq(Sub(t), Len(Sub(t)), h, pos, <<>>)
    [] t \in {"addrs", "invs", "blocks", "strs"} -> LET n == RdCompact(h, pos) IN IF n.ok THEN RdItems(Item(t), n.v, h, n.pos, <<>>) ELSE n
RdSeq(ts, n, h, pos, acc) ==
  IF Len(acc) = n THEN BGot(acc, pos)
  ELSE LET r == RdF(ts[Len(acc) + 1], h, pos) IN IF r.ok THEN RdSeq(ts, n, h, r.pos, Append(acc, r.v)) ELSE r
RdItems(t, n, h, pos, acc) ==
  IF n = "0" THEN BGot(acc, pos)
  ELSE LET r == RdF(t, h, pos) IN IF r.ok THEN RdItems(t, BSub(n, 1), h, r.pos, Append(acc, r.v)) ELSE r

(* a version announced as 10300 means 300; what follows depends on the version *)
RdPayload(c, h) ==
  IF c # "version" THEN RdSeq(Layout(c), Len(Layout(c)), h, 0, <<>>)
  ELSE LET w == RdF("i32", h, 0) IN IF ~w.ok THEN w
       ELSE LET v == IF w.v = "10300" THEN "300" ELSE w.v
                r == RdSeq(Layout(c), Fields(c, <<v>>), h, w.pos, <<v>>) IN
            IF ~r.ok THEN r ELSE BGot(r.v \o [i \in 1..(8 - Len(r.v)) |-> "none"], r.pos)

(* the known command of a frame's command field; "" if unknown, "?" if the    *)
(* field isn't a padded command at all                                        *)
KnownCmd(f) == IF \E c \in Cmds : CmdField(c) = f THEN CHOOSE c \in Cmds : CmdField(c) = f ELSE ""
FirstNul(f) == IF \E i \in 1..12 : HexAt(f, i) = 0 THEN CHOOSE i \in 1..12 : HexAt(f, i) = 0 /\ \A j \in 1..(i - 1) : HexAt(f, j) # 0 ELSE 13
CmdOdd(f) == (\E i \in FirstNul(f)..12 : HexAt(f, i) # 0) \/ (\E i \in 1..(FirstNul(f) - 1) : HexAt(f, i) < 32 \/ HexAt(f, i) > 126) \/ FirstNul(f) = 1

(* what such a field says up to its first NUL, all it may be taken for        *)
Said(f) == IF FirstNul(f) = 13 THEN f ELSE HexSub(f, 1, FirstNul(f) - 1) \o HexRep("00", 13 - FirstNul(f))

(* [k |-> "msg", cmd, v, pos], [k |-> "none", ..] for unknown commands,       *)
(* [k |-> "odd", ..] for strange ones and [k |-> "reject", ..]                *)
Unframe(chain, h, pos) ==
  LET no == [k |-> "reject", cmd |-> "", v |-> <<>>, pos |-> 0]
      hd == RdBytes(h, pos, 24) IN
  IF ~hd.ok THEN no
  ELSE IF HexSub(hd.v, 1, 4) # Magic(chain) THEN no
  ELSE LET body == RdBytes(h, hd.pos, BOfLE(HexSub(hd.v, 17, 20)))  f == HexSub(hd.v, 5, 16) IN
       IF ~body.ok THEN no
       ELSE IF HexSub(Hash256(body.v), 1, 4) # HexSub(hd.v, 21, 24) THEN no
       ELSE IF CmdOdd(f) THEN LET c == KnownCmd(Said(f))  p == IF c = "" THEN [ok |-> FALSE] ELSE RdPayload(c, body.v) IN
                             IF p.ok THEN [k |-> "odd", cmd |-> c, v |-> p.v, pos |-> body.pos] ELSE [no EXCEPT !.k = "odd", !.pos = body.pos]
       ELSE IF KnownCmd(f) = "" THEN [no EXCEPT !.k = "none", !.pos = body.pos]
       ELSE LET p == RdPayload(KnownCmd(f), body.v) IN
            IF ~p.ok THEN no ELSE [k |-> "msg", cmd |-> KnownCmd(f), v |-> p.v, pos |-> body.pos, rest |-> HexLen(body.v) - p.pos]
=============================================================================
