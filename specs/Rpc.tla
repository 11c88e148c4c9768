--------------------------------- MODULE Rpc ---------------------------------
(* The JSON-RPC client: for a method and its arguments, the request that must *)
(* be sent; for that and the node's reply, what the caller must get.          *)
(*                                                                            *)
(* JSON values are canonical texts (object keys sorted, numbers exact).       *)
(* Converted values are texts with a prefix: x: bytes, tx:, block:, script:,  *)
(* addr:, out:, txout:; amounts are integers of satoshis.                     *)
EXTENDS Base58, TraceBase

Quote(s) == "\"" \o s \o "\""
Bool(b) == IF b THEN "true" ELSE "false"
Join(seq) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", seq)
JList(seq) == "[" \o Join(seq) \o "]"
JNum(n) == BOf(n)

HexDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
IsHex(s) == LET t == StrChars(s) IN Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : t[i] \in HexDigits

(* the exact number of satoshis a JSON number of bitcoins stands for: an      *)
(* integer, or "" if the number is not one of whole satoshis                  *)
DigitVal(c) == CHOOSE d \in 0..9 : c = ToString(d)
IsDigit(c) == \E d \in 0..9 : c = ToString(d)
DecNum(t) == FoldLeft(LAMBDA a, c : BAdd(BMul(a, "10"), BOf(DigitVal(c))), "0", t)
FindIn(t, S) == IF \E i \in 1..Len(t) : t[i] \in S THEN CHOOSE i \in 1..Len(t) : t[i] \in S ELSE Len(t) + 1
Satoshis(text) ==
  LET all == StrChars(text)
      neg == all[1] = "-"
      t == IF neg THEN Tail(all) ELSE all
      ie == FindIn(t, {"e", "E"})
      mant == SubSeq(t, 1, ie - 1)
      et == SubSeq(t, ie + 1, Len(t))
      eneg == et # <<>> /\ et[1] = "-"
      ed == IF et # <<>> /\ et[1] \in {"-", "+"} THEN Tail(et) ELSE et
      ex == BInt(DecNum(ed))
      dot == FindIn(mant, {"."})
      frac == SubSeq(mant, dot + 1, Len(mant))
      n == DecNum(SubSeq(mant, 1, dot - 1) \o frac)
      shift == (IF eneg THEN -ex ELSE ex) - Len(frac) + 8
      down == IF shift < 0 THEN BPow("10", -shift) ELSE "1"
      v == IF shift >= 0 THEN BMul(n, BPow("10", shift)) ELSE BDiv(n, down)
  IN IF BMod(n, down) # "0" THEN "" ELSE IF neg THEN BSub("0", v) ELSE v
(* and back: whole bitcoins as integers, anything else in satoshis *)
BitcoinsOf(sat) == IF BMod(sat, "100000000") = "0" THEN BDiv(sat, "100000000") ELSE sat \o "sat"

AddrText(chain, s) ==
  IF ~B58Good(s) \/ ~CheckOk(s) THEN ""
  ELSE LET a == FromData(chain, "any", VerOf(s), DataOf(s)) IN
       IF a = NoAddress THEN "" ELSE "addr:" \o a.kind \o ":" \o BOf(a.ver) \o ":" \o a.hash
TxText(h) == LET r == IF IsHex(h) THEN RdTx(h, 0) ELSE BFail("bad") IN IF r.ok /\ r.pos = HexLen(h) THEN "tx:" \o TxBytes(r.v) ELSE ""
BlockText(h) == LET r == IF IsHex(h) THEN RdBlock(h, 0) ELSE BFail("bad") IN IF r.ok /\ r.pos = HexLen(h) THEN "block:" \o BlockBytes(r.v) ELSE ""
HashText(h) == IF IsHex(h) THEN "x:" \o HexRev(h) ELSE ""
BytesText(h) == IF IsHex(h) THEN "x:" \o h ELSE ""
ScriptText(h) == IF IsHex(h) THEN "script:" \o h ELSE ""
(* converted, or an exception if it cannot be *)
OrBad(text) == IF text = "" THEN AnyExc ELSE Ok(text)
Money(text) == LET s == Satoshis(text) IN IF s = "" THEN Free ELSE Ok(s)

(* requests: method and parameters *)
Params(e) ==
  LET a == e.args IN
  CASE e.m = "getaccountaddress" -> JList(<<a.acct>>)
    [] e.m = "getbalance" -> JList(<<a.acct, JNum(a.conf)>>)
    [] e.m = "getblock" -> JList(<<Quote(HexRev(a.hash)), "false">>)
    [] e.m = "getblockhash" -> JList(<<JNum(a.n)>>)
    [] e.m \in {"getinfo", "getrawchangeaddress"} -> "[]"
    [] e.m = "getnewaddress" -> IF a.acct = "null" THEN "[]" ELSE JList(<<a.acct>>)
    [] e.m = "getrawmempool" -> IF a.verbose THEN "[true]" ELSE "[]"
    [] e.m = "getrawtransaction" -> JList(<<Quote(HexRev(a.hash)), IF a.verbose THEN "1" ELSE "0">>)
    [] e.m = "getreceivedbyaddress" -> JList(<<Quote(a.addr), JNum(a.conf)>>)
    [] e.m = "gettransaction" -> JList(<<Quote(HexRev(a.hash))>>)
    [] e.m = "gettxout" -> JList(<<Quote(HexRev(a.hash)), a.n, Bool(a.mempool)>>)
    [] e.m = "listunspent" -> JList(<<JNum(a.min), JNum(a.max)>> \o (IF a.filter THEN <<JList([i \in 1..Len(a.addrs) |-> Quote(a.addrs[i])])>> ELSE <<>>))
    [] e.m = "lockunspent" -> JList(<<Bool(a.unlock), JList([i \in 1..Len(a.outs) |-> "{\"txid\": " \o Quote(HexRev(a.outs[i].hash)) \o ", \"vout\": " \o a.outs[i].n \o "}"])>>)
    [] e.m = "sendrawtransaction" -> JList(<<Quote(TxBytes(a.tx))>> \o (IF a.high THEN <<"true">> ELSE <<>>))
    [] e.m = "sendtoaddress" -> JList(<<Quote(a.addr), BitcoinsOf(a.amount)>>)
    [] e.m = "signrawtransaction" -> JList(<<Quote(TxBytes(a.tx))>> \o a.more)
    [] e.m = "submitblock" -> JList(<<Quote(BlockBytes(a.block))>> \o a.more)
    [] e.m = "validateaddress" -> JList(<<Quote(a.addr)>>)
    [] e.m \in {"addnode", "addnodeonetry", "removenode"} -> JList(<<a.node, Quote(CASE e.m = "addnode" -> "add" [] e.m = "addnodeonetry" -> "onetry" [] OTHER -> "remove")>>)
    [] OTHER -> JList(a.more)
Method(m) == IF m \in {"addnodeonetry", "removenode"} THEN "addnode" ELSE m

(* results.  rep: the reply's result, as a text of the right kind, or a       *)
(* record of canonical JSON texts (its keys are those of the object) with the *)
(* raw texts of the parts to convert in e.raw                                 *)
DropKeys(r, ks) == [k \in (DOMAIN r) \ ks |-> r[k]]
With(r, k, v) == [q \in (DOMAIN r) \cup {k} |-> IF q = k THEN v ELSE r[q]]
HasKey(r, k) == k \in DOMAIN r
Indexing == {"getblock", "getblockhash", "getrawtransaction", "gettransaction"}

GetInfo(e) ==
  LET bal == IF HasKey(e.rep, "balance") THEN Satoshis(e.raw.balance) ELSE "0"
      fee == Satoshis(e.raw.paytxfee)
      r == With(e.rep, "paytxfee", fee)
  IN IF bal = "" \/ fee = "" THEN Free ELSE Ok(IF HasKey(r, "balance") THEN With(r, "balance", bal) ELSE r)
VerboseTx(e) ==
  LET t == TxText(e.raw.hex)
      b == IF HasKey(e.rep, "blockhash") THEN HashText(e.raw.blockhash) ELSE "null"
  IN IF t = "" \/ b = "" THEN AnyExc
     ELSE Ok(With(With(DropKeys(e.rep, {"hex", "txid", "version", "locktime", "vin", "vout"}), "tx", t), "blockhash", b))
TxOutInfo(e) ==
  LET v == Satoshis(e.raw.value)  h == HashText(e.raw.bestblock) IN
  IF ~IsHex(e.raw.script) \/ h = "" THEN AnyExc ELSE IF v = "" THEN Free
  ELSE Ok(With(With(DropKeys(e.rep, {"value", "scriptPubKey"}), "txout", "txout:" \o v \o ":" \o e.raw.script), "bestblock", h))
Unspent(chain, r, raw) ==
  LET v == Satoshis(raw.amount)
      r1 == With(With(With(DropKeys(r, {"txid", "vout"}), "outpoint", "out:" \o (IF IsHex(raw.txid) THEN HexRev(raw.txid) ELSE "") \o ":" \o raw.vout),
                      "scriptPubKey", ScriptText(raw.script)), "amount", v)
  IN IF HasKey(r, "address") THEN With(r1, "address", AddrText(chain, raw.address)) ELSE r1
UnspentBad(chain, r, raw) == ~IsHex(raw.txid) \/ ~IsHex(raw.script) \/ (HasKey(r, "address") /\ AddrText(chain, raw.address) = "")
ListUnspent(chain, e) ==
  IF \E i \in 1..Len(e.rep) : UnspentBad(chain, e.rep[i], e.raw[i]) THEN AnyExc
  ELSE IF \E i \in 1..Len(e.rep) : Satoshis(e.raw[i].amount) = "" THEN Free
  ELSE Ok([i \in 1..Len(e.rep) |-> Unspent(chain, e.rep[i], e.raw[i])])
Validated(chain, e) ==
  LET a == IF e.raw.valid THEN AddrText(chain, e.raw.address) ELSE "-"
      p == IF HasKey(e.rep, "pubkey") THEN BytesText(e.raw.pubkey) ELSE "-"
      r == IF e.raw.valid THEN With(e.rep, "address", a) ELSE e.rep
  IN IF a = "" \/ p = "" THEN AnyExc ELSE Ok(IF HasKey(e.rep, "pubkey") THEN With(r, "pubkey", p) ELSE r)
Converted(chain, e) ==
  CASE e.m \in {"getaccountaddress", "getnewaddress", "getrawchangeaddress"} -> OrBad(AddrText(chain, e.raw))
    [] e.m \in {"getbalance", "getreceivedbyaddress"} -> Money(e.raw)
    [] e.m = "getblock" -> OrBad(BlockText(e.raw))
    [] e.m \in {"getblockhash", "sendrawtransaction", "sendtoaddress"} -> OrBad(HashText(e.raw))
    [] e.m = "getinfo" -> GetInfo(e)
    [] e.m = "getrawmempool" -> IF e.args.verbose THEN Ok(e.rep) ELSE IF \E i \in 1..Len(e.raw) : ~IsHex(e.raw[i]) THEN AnyExc ELSE Ok([i \in 1..Len(e.raw) |-> HashText(e.raw[i])])
    [] e.m = "getrawtransaction" -> IF e.args.verbose THEN VerboseTx(e) ELSE OrBad(TxText(e.raw))
    [] e.m = "gettxout" -> TxOutInfo(e)
    [] e.m = "listunspent" -> ListUnspent(chain, e)
    [] e.m = "signrawtransaction" -> LET t == TxText(e.raw.hex) IN IF t = "" THEN AnyExc ELSE Ok(With(DropKeys(e.rep, {"hex"}), "tx", t))
    [] e.m = "validateaddress" -> Validated(chain, e)
    [] OTHER -> Ok(e.rep)

(* the node's way of answering: a result, an error, or nothing usable *)
NodeError(e) == IF e.m \in Indexing THEN Exc({"IndexError"}) ELSE Exc({"JSONRPCException"})
Outcome(chain, e) ==
  CASE e.fault \in {"ok", "noversion"} -> Converted(chain, e)
    [] e.fault = "error" -> NodeError(e)
    [] e.fault \in {"noresult", "noresponse"} -> NodeError(e)
    [] e.fault = "spent" -> Exc({"IndexError"})                 \* gettxout: no such output
    [] e.fault = "noerror" -> Free                              \* no error member at all
    [] OTHER -> AnyExc
=============================================================================
