----------------------------- MODULE SusToolDesign -----------------------------
(* Design check of the seal tool, and programs to run it with: every sequence *)
(* of commands in a small world of two seal files, two outpoints and three    *)
(* transactions.                                                              *)
EXTENDS SusTool, Json
CONSTANTS Depth, NFirst, TestsExist       \* the first NFirst commands make seals; TestsExist: an existing file is not overwritten
VARIABLES fs, hist, grave                  \* grave: files overwritten
D1 == HexRep("11", 32)
D2 == HexRep("22", 32)
O(n) == [hash |-> HexRep("0" \o ToString(n), 32), n |-> ToString(n)]
In(n) == [prevout |-> O(n), script |-> "", seq |-> "0"]
Out(d) == [value |-> "0", script |-> Return(d)]
Tx(n) == CASE n = 1 -> [version |-> "1", lock |-> "0", vin |-> <<In(1)>>, vout |-> <<Out(D1), Out(D2)>>]
           [] n = 2 -> [version |-> "1", lock |-> "0", vin |-> <<In(2), In(1)>>, vout |-> <<Out(D2)>>]
           [] n = 3 -> [version |-> "1", lock |-> "0", vin |-> <<In(2)>>, vout |-> <<[value |-> "0", script |-> "51"], Out(D1)>>]
Dig(n) == CASE n = 0 -> "" [] n = 1 -> D1 [] n = 2 -> D2
Nonce(n) == HexRep("0" \o ToString(n), 16)
Seals == {"a", "b"}
Lists == {<<"a">>, <<"b">>, <<"a", "b">>}
(* every command has the same shape *)
C(c, n, names, d, sf) == [c |-> c, n |-> n, names |-> names, d |-> d, sf |-> sf]
Makes == {C("mkseal", o, <<f>>, 0, "") : o \in {1, 2}, f \in Seals}
Wits == {C("mkwitness", t, l, 0, "") : t \in 1..3, l \in Lists}
Others == {C("verify", 0, <<f \o ".witness">>, d, sf) : f \in Seals, d \in 0..2, sf \in Seals \cup {""}}
          \cup {C("mkclosetx", 0, l, 1, "") : l \in {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>}}
          \cup {C("sealinfo", 0, <<f>>, 0, "") : f \in {"a", "a.witness"}} \cup {C("witnessinfo", 0, <<f>>, 0, "") : f \in {"b", "b.witness"}}
Effect(c) ==
  CASE c.c = "mkseal" -> IF TestsExist THEN MkSeal(fs, O(c.n), c.names[1], Nonce(Len(hist)))
                         ELSE MkSeal(<<>>, O(c.n), c.names[1], Nonce(Len(hist)))
    [] c.c = "mkwitness" -> MkWitness(fs, Tx(c.n), c.names, <<>>)
    [] c.c = "verify" -> Verify(fs, c.names[1], Dig(c.d), c.sf, "")
    [] c.c = "mkclosetx" -> MkCloseTx(fs, D1, c.names, "op_return")
    [] c.c = "sealinfo" -> SealInfo(fs, c.names[1])
    [] c.c = "witnessinfo" -> WitnessInfo(fs, c.names[1])
RECURSIVE With(_, _)
With(f, files) == IF files = <<>> THEN f ELSE With((Head(files).name :> [t |-> Head(files).t, v |-> Head(files).v]) @@ f, Tail(files))
Do(c) == LET e == Effect(c) IN
  /\ fs' = With(fs, e.files)
  /\ hist' = Append(hist, c)
  /\ grave' = grave \cup {n \in DOMAIN fs : \E k \in 1..Len(e.files) : e.files[k].name = n}
Init == fs = <<>> /\ hist = <<>> /\ grave = {}
Next == /\ Len(hist) < Depth
        /\ \E c \in (IF Len(hist) < NFirst THEN Makes ELSE IF Len(hist) = NFirst THEN Wits \cup Makes ELSE Makes \cup Wits \cup Others) : Do(c)
Spec == Init /\ [][Next]_<<fs, hist, grave>>

NothingLost == grave = {}
WitnessFilesClose == \A n \in DOMAIN fs : fs[n].t = "witness" => Closes(fs[n].v)
(* a witness made by the tool verifies for its seal, and for at most one digest; never for another seal *)
VerifiesRight == \A n \in DOMAIN fs : fs[n].t = "witness" =>
   /\ Verify(fs, n, "", "", SealHash(fs[n].v.seal)).ok
   /\ ~(Verify(fs, n, D1, "", "").ok /\ Verify(fs, n, D2, "", "").ok)
   /\ \A m \in DOMAIN fs : fs[m].t = "seal" => (Verify(fs, n, "", m, "").ok <=> fs[m].v = fs[n].v.seal)
SealsDistinct == \A m, n \in DOMAIN fs : m # n /\ fs[m].t = "seal" /\ fs[n].t = "seal" => SealHash(fs[m].v) # SealHash(fs[n].v)
Emit == Len(hist) < Depth \/ PrintT(<<"PROGRAM", ToJson(hist)>>)
================================================================================
