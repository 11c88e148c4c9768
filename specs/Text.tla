--------------------------------- MODULE Text ---------------------------------
(* The value an expression printed by the library denotes, with what its      *)
(* names mean on paper: x() and lx() read hexadecimal, COIN is 10^8, decimals *)
(* are exact, and the constructors have their documented default arguments.   *)
(*                                                                            *)
(* Expressions are trees of nodes [t, v, a]: calls (v: name, a: arguments),   *)
(* names, integers, decimals (v: all digits, e: how many after the point),    *)
(* strings, byte strings, products, negations and lists.                      *)
EXTENDS Base58, ScriptNames

Node(t, v, a) == [t |-> t, v |-> v, a |-> a, e |-> 0]
Nothing == [t |-> "nothing", v |-> "", a |-> <<>>, e |-> 0]

(* ---- numbers: exact fractions ---- *)
RECURSIVE Frac(_)
Frac(n) ==
  CASE n.t = "int" -> <<n.v, "1">>
    [] n.t = "dec" -> <<n.v, BPow("10", n.e)>>
    [] n.t = "name" /\ n.v = "COIN" -> <<"100000000", "1">>
    [] n.t = "neg" -> LET f == Frac(n.a[1]) IN <<BSub("0", f[1]), f[2]>>
    [] n.t = "mul" -> LET f == Frac(n.a[1])  g == Frac(n.a[2]) IN <<BMul(f[1], g[1]), BMul(f[2], g[2])>>
    [] OTHER -> <<"1", "0">>
Integer(n) == LET f == Frac(n) IN IF f[2] = "0" \/ BMod(f[1], f[2]) # "0" THEN "not an integer" ELSE BDiv(f[1], f[2])

(* ---- byte strings ---- *)
HexDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
IsHexText(s) == LET t == StrChars(s) IN Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : t[i] \in HexDigits
Bytes(n) ==
  IF n.t = "bytes" THEN n.v
  ELSE IF n.t = "call" /\ n.v \in {"x", "lx"} /\ Len(n.a) = 1 /\ n.a[1].t = "str" /\ IsHexText(n.a[1].v)
       THEN (IF n.v = "x" THEN n.a[1].v ELSE HexRev(n.a[1].v))
       ELSE "not bytes"

Arg(n, i, default) == IF Len(n.a) >= i THEN n.a[i] ELSE default
Is(n, names) == n.t = "call" /\ n.v \in names
Null32 == HexRep("00", 32)

(* ---- scripts: the operations listed, and where listing them ended ---- *)
Item(n) ==
  CASE n.t = "name" /\ n.v = "OP_0" -> [t |-> "bytes", v |-> ""]
    [] n.t = "name" /\ n.v \in DOMAIN OpCode -> [t |-> "op", v |-> BOf(OpCode[n.v])]
    [] n.t \in {"int", "neg"} -> LET i == Integer(n) IN
         IF i = "-1" THEN [t |-> "op", v |-> "79"] ELSE IF i = "0" THEN [t |-> "bytes", v |-> ""] ELSE IF BLt(i, "0") \/ BLt("16", i) THEN [t |-> "int", v |-> i] ELSE [t |-> "op", v |-> BAdd(i, 80)]
    [] Is(n, {"CScriptOp"}) /\ Len(n.a) = 1 -> [t |-> "op", v |-> Integer(n.a[1])]
    [] Is(n, {"ERROR"}) -> [t |-> "error", v |-> IF n.a = <<>> THEN "none" ELSE Bytes(n.a[1])]
    [] OTHER -> [t |-> "bytes", v |-> Bytes(n)]
Items(n) == IF Is(n, {"CScript"}) /\ Len(n.a) = 1 /\ n.a[1].t = "list" THEN [i \in 1..Len(n.a[1].a) |-> Item(n.a[1].a[i])]
            ELSE IF Is(n, {"CScript"}) /\ n.a = <<>> THEN <<>>
            ELSE <<[t |-> "not a script", v |-> ""]>>
(* what a script's own operations are listed as *)
Listed(o) == IF o.push THEN [t |-> "bytes", v |-> o.data] ELSE [t |-> "op", v |-> BOf(o.op)]
Operations(h) ==
  LET p == Parse(h) IN
  [i \in 1..Len(p.ops) |-> Listed(p.ops[i])] \o
  (IF p.ok THEN <<>> ELSE <<[t |-> "error", v |-> IF p.why = "trunc" THEN p.data ELSE "none"]>>)

(* ---- structures ---- *)
OutPointOf(n) ==
  IF Is(n, {"COutPoint", "CMutableOutPoint"}) /\ Len(n.a) <= 2
  THEN [hash |-> IF n.a = <<>> THEN Null32 ELSE Bytes(n.a[1]), n |-> Integer(Arg(n, 2, Node("int", "4294967295", <<>>)))]
  ELSE [hash |-> "not an outpoint", n |-> ""]
TxInOf(n) ==
  IF Is(n, {"CTxIn", "CMutableTxIn"}) /\ Len(n.a) <= 3
  THEN [prevout |-> OutPointOf(Arg(n, 1, Node("call", "COutPoint", <<>>))), script |-> Items(Arg(n, 2, Node("call", "CScript", <<>>))),
        seq |-> Integer(Arg(n, 3, Node("int", "4294967295", <<>>)))]
  ELSE [prevout |-> OutPointOf(Nothing), script |-> Items(Nothing), seq |-> ""]
TxOutOf(n) ==
  IF Is(n, {"CTxOut", "CMutableTxOut"}) /\ Len(n.a) <= 2
  THEN [value |-> Integer(Arg(n, 1, Node("int", "-1", <<>>))), script |-> Items(Arg(n, 2, Node("call", "CScript", <<>>)))]
  ELSE [value |-> "not an output", script |-> Items(Nothing)]
Each(n, F(_)) == IF n.t = "list" THEN [i \in 1..Len(n.a) |-> F(n.a[i])] ELSE <<>>
TxOf(n) ==
  IF Is(n, {"CTransaction", "CMutableTransaction"}) /\ Len(n.a) <= 4
  THEN LET none == Node("list", "", <<>>) IN
       [vin |-> Each(Arg(n, 1, none), TxInOf), vout |-> Each(Arg(n, 2, none), TxOutOf),
        lock |-> Integer(Arg(n, 3, Node("int", "0", <<>>))), version |-> Integer(Arg(n, 4, Node("int", "1", <<>>)))]
  ELSE [vin |-> <<>>, vout |-> <<>>, lock |-> "not a transaction", version |-> ""]
HeaderOf(n) ==
  IF Is(n, {"CBlockHeader", "CBlock"}) /\ Len(n.a) <= 6
  THEN LET zero == Node("int", "0", <<>>)  null == Node("bytes", Null32, <<>>) IN
       [version |-> Integer(Arg(n, 1, Node("int", "2", <<>>))), prev |-> Bytes(Arg(n, 2, null)), root |-> Bytes(Arg(n, 3, null)),
        time |-> Integer(Arg(n, 4, zero)), bits |-> Integer(Arg(n, 5, zero)), nonce |-> Integer(Arg(n, 6, zero))]
  ELSE [version |-> "not a header", prev |-> "", root |-> "", time |-> "", bits |-> "", nonce |-> ""]

(* the same with scripts as what they list *)
In(i)  == [i EXCEPT !.script = Operations(@)]
Out(o) == [o EXCEPT !.script = Operations(@)]
Tx(t)  == [vin |-> [i \in 1..Len(t.vin) |-> In(t.vin[i])], vout |-> [i \in 1..Len(t.vout) |-> Out(t.vout[i])], lock |-> t.lock, version |-> t.version]
Header(b) == [version |-> b.version, prev |-> b.prev, root |-> b.root, time |-> b.time, bits |-> b.bits, nonce |-> b.nonce]

(* hash tags are written like UUIDs *)
TagOf(n) == IF Is(n, {"HashTag"}) /\ Len(n.a) = 1 /\ n.a[1].t = "str"
            THEN FoldLeft(LAMBDA a, c : IF c = "-" THEN a ELSE a \o c, "", StrChars(n.a[1].v)) ELSE "not a tag"

(* the value of an expression, read as a kind of object *)
Denotes(kind, n) ==
  CASE kind = "outpoint" -> OutPointOf(n) [] kind = "txin" -> TxInOf(n) [] kind = "txout" -> TxOutOf(n) [] kind = "tx" -> TxOf(n)
    [] kind \in {"header", "block"} -> HeaderOf(n) [] kind = "script" -> Items(n) [] kind = "op" -> Item(n)
    [] kind = "tag" -> TagOf(n)
    [] kind = "ints" -> [name |-> n.v, v |-> IF n.t = "call" /\ Len(n.a) = 1 THEN Each(n.a[1], Integer) ELSE <<"not a list">>]
    [] kind = "hexes" -> [name |-> n.v, v |-> IF n.t = "call" /\ Len(n.a) = 1 THEN Each(n.a[1], Bytes) ELSE <<"not a list">>]
    [] kind = "text" -> [name |-> n.v, v |-> IF n.t = "call" /\ Len(n.a) = 1 /\ n.a[1].t = "str" THEN n.a[1].v ELSE "not a text"]
(* what it should be *)
Means(kind, v) ==
  CASE kind = "outpoint" -> v [] kind = "txin" -> In(v) [] kind = "txout" -> Out(v) [] kind = "tx" -> Tx(v)
    [] kind \in {"header", "block"} -> Header(v) [] kind = "script" -> Operations(v)
    [] kind = "op" -> IF v = "0" THEN [t |-> "bytes", v |-> ""] ELSE [t |-> "op", v |-> v]
    [] OTHER -> v

(* ---- difficulty: the easiest target over this one, as a fraction ---- *)
Mantissa(bits) == BMod(bits, 16777216)
Exponent(bits) == BInt(BDiv(bits, 16777216))
Difficulty(bits) ==
  LET e == Exponent(bits) IN
  <<BMul("65535", BPow("256", IF e < 29 THEN 29 - e ELSE 0)), BMul(Mantissa(bits), BPow("256", IF e > 29 THEN e - 29 ELSE 0))>>
(* f as near g as floating point numbers are *)
Near(f, g) ==
  LET d == BSub(BMul(f[1], g[2]), BMul(g[1], f[2])) IN
  BLe(BMul(IF BLt(d, "0") THEN BSub("0", d) ELSE d, BPow("2", 46)), BMul(g[1], f[2]))
=============================================================================
