-------------------------------- MODULE Base58 --------------------------------
(* Base58, checksummed data, and addresses per chain.                         *)
EXTENDS Script

B58Digits == "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B58Chars == StrChars(B58Digits)
B58At(n) == B58Chars[n + 1]
B58Is(c) == \E i \in 1..58 : B58Chars[i] = c
B58Of(c) == (CHOOSE i \in 1..58 : B58Chars[i] = c) - 1
StrOf(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)
Zeros(h) == LET n == HexLen(h) IN IF \A i \in 1..n : HexAt(h, i) = 0 THEN n ELSE (CHOOSE i \in 1..n : HexAt(h, i) # 0 /\ \A j \in 1..(i - 1) : HexAt(h, j) = 0) - 1
Ones(s)  == IF \A i \in 1..Len(s) : s[i] = "1" THEN Len(s) ELSE (CHOOSE i \in 1..Len(s) : s[i] # "1" /\ \A j \in 1..(i - 1) : s[j] = "1") - 1
RECURSIVE Digits58(_)
Digits58(n) == IF n = "0" THEN "" ELSE Digits58(BDiv(n, 58)) \o B58At(BInt(BMod(n, 58)))
B58Enc(h) == StrOf([i \in 1..Zeros(h) |-> "1"]) \o Digits58(BOfLE(HexRev(h)))
B58Good(s) == LET t == StrChars(s) IN \A i \in 1..Len(t) : B58Is(t[i])
B58Dec(s) == LET t == StrChars(s)
                 n == FoldLeft(LAMBDA a, c : BAdd(BMul(a, 58), BOf(B58Of(c))), "0", t)
             IN HexRep("00", Ones(t)) \o HexRev(BLE(n, (BBits(n) + 7) \div 8))

(* version, data, checksum *)
B58Check(ver, data) == LET k == BLE(BOf(ver), 1) \o data IN B58Enc(k \o HexSub(Hash256(k), 1, 4))
CheckOk(s) == LET k == B58Dec(s)  n == HexLen(k) IN n >= 5 /\ HexSub(Hash256(HexSub(k, 1, n - 4)), 1, 4) = HexSub(k, n - 3, n)
VerOf(s)  == HexAt(B58Dec(s), 1)
DataOf(s) == LET k == B58Dec(s) IN HexSub(k, 2, HexLen(k) - 4)

AddrChains == {"mainnet", "testnet", "regtest"}
Version(chain, kind) ==
  CASE kind = "p2pkh" -> IF chain = "mainnet" THEN 0 ELSE 111
    [] kind = "p2sh" -> IF chain = "mainnet" THEN 5 ELSE 196
    [] kind = "secret" -> IF chain = "mainnet" THEN 128 ELSE 239
AddrKinds == {"p2pkh", "p2sh"}
KindOf(chain, ver) == IF \E k \in AddrKinds : Version(chain, k) = ver THEN CHOOSE k \in AddrKinds : Version(chain, k) = ver ELSE ""
ScriptOf(kind, hash) == IF kind = "p2sh" THEN "a914" \o hash \o "87" ELSE "76a914" \o hash \o "88ac"
Address(chain, kind, hash) == [kind |-> kind, hash |-> hash, ver |-> Version(chain, kind), str |-> B58Check(Version(chain, kind), hash), script |-> ScriptOf(kind, hash)]
NoAddress == [kind |-> "", hash |-> "", ver |-> -1, str |-> "", script |-> ""]
(* what a string or (version, data) stands for on a chain, as one kind or any *)
FromData(chain, want, ver, data) ==
  LET k == KindOf(chain, ver) IN
  IF k = "" \/ HexLen(data) # 20 \/ (want # "any" /\ want # k) THEN NoAddress ELSE Address(chain, k, data)

(* what an output script pays to.  A script of canonical length is compared   *)
(* byte for byte for p2sh; for p2pkh pushes may have any form, and a bare     *)
(* public key stands for its hash.                                            *)
PayP2sh(h) == IF HexLen(h) = 23 /\ HexSub(h, 1, 2) = "a914" /\ HexAt(h, 23) = 135 THEN HexSub(h, 3, 22) ELSE ""
PayHash(h, noncanon, bare) ==
  LET p == Parse(h)
      norm == p.ok /\ \A i \in 1..Len(p.ops) : TRUE
      data(i) == p.ops[i].data
      at(i, op) == p.ops[i].op = op
      push(i, n) == p.ops[i].op \in 1..78 /\ HexLen(data(i)) = n /\ (noncanon \/ p.ops[i].op = n) IN
  CASE ~norm -> ""
    [] Len(p.ops) = 5 /\ at(1, 118) /\ at(2, 169) /\ push(3, 20) /\ at(4, 136) /\ at(5, 172) -> data(3)
    [] bare /\ Len(p.ops) = 2 /\ (push(1, 33) \/ push(1, 65)) /\ at(2, 172) -> Hash160(data(1))
    [] OTHER -> ""
PubOf(h) == LET p == Parse(h) IN p.ops[1].data
=============================================================================
