----------------------------- MODULE Base58Design -----------------------------
(* Base58 of every byte string and of every text in bounds: encoding and      *)
(* decoding are inverse, so nothing is lost and nothing has two forms.        *)
EXTENDS Base58, FiniteSets, TLC, Json
CONSTANTS MaxBytes, MaxChars, Byte, Chars, Broken
VARIABLES b, s
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}
Enc58(h) == CASE Broken = "zeros" -> Digits58(BOfLE(HexRev(h)))
            [] Broken = "onezero" -> (IF Zeros(h) > 0 THEN "1" ELSE "") \o Digits58(BOfLE(HexRev(h)))
            [] OTHER -> B58Enc(h)
Init == \/ b \in {HexCat([i \in 1..Len(t) |-> U8(t[i])]) : t \in Strings(Byte, MaxBytes)} /\ s = ""
        \/ s \in {StrOf(t) : t \in Strings(Chars, MaxChars)} /\ b = ""
Spec == Init /\ [][FALSE]_<<b, s>>
BytesBack == B58Dec(Enc58(b)) = b
TextBack  == Enc58(B58Dec(s)) = s
Emit == PrintT(<<"PROGRAM", ToJson(<<IF s = "" THEN [op |-> "b58enc", h |-> b] ELSE [op |-> "b58dec", s |-> s]>>)>>)
=============================================================================
