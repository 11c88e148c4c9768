------------------------------- MODULE MsgDesign -------------------------------
(* A sender, a channel and a receiver.  Frames are sequences of symbols:      *)
(* magic, command, length, checksum, body; the checksum is ideal (the body    *)
(* itself, as a number).  The channel may change one symbol (not of a         *)
(* command, which no checksum covers), or cut the stream off.  The receiver   *)
(* decodes frame by frame and gives up at the first one it rejects.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMsgs, MaxBody, Broken
VARIABLES sent, wire, fault, at, pos, got, dead

M == 7    W == 6        \* the right and a wrong magic
Bodies == UNION {[1..n -> {0, 1}] : n \in 0..MaxBody}
Msgs == {"x", "y"} \X Bodies
RECURSIVE Sum(_, _)
Sum(b, i) == IF i = 0 THEN 1 ELSE 2 * Sum(b, i - 1) + b[i]
Check(b) == Sum(b, Len(b))
Enc(m) == <<[f |-> "magic", v |-> M], [f |-> "cmd", v |-> IF m[1] = "x" THEN 0 ELSE 1], [f |-> "len", v |-> Len(m[2])], [f |-> "chk", v |-> Check(m[2])]>>
          \o [i \in 1..Len(m[2]) |-> [f |-> "body", v |-> m[2][i]]]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Enc(Head(s)) \o Cat(Tail(s))
V(i) == wire[i].v

Init == sent = <<>> /\ wire = <<>> /\ fault = "none" /\ at = 0 /\ pos = 0 /\ got = <<>> /\ dead = FALSE
Send == /\ Len(sent) < MaxMsgs /\ fault = "none" /\ pos = 0 /\ got = <<>> /\ ~dead
        /\ \E m \in Msgs : sent' = Append(sent, m) /\ wire' = wire \o Enc(m)
        /\ UNCHANGED <<fault, at, pos, got, dead>>
Corrupt == /\ fault = "none" /\ pos = 0 /\ ~dead /\ got = <<>>
           /\ \/ \E i \in 1..Len(wire) : /\ wire[i].f # "cmd" /\ fault' = "change" /\ at' = i
                                         /\ \E v \in 0..M : v # V(i) /\ wire' = [wire EXCEPT ![i].v = v]
              \/ \E n \in 0..(Len(wire) - 1) : fault' = "cut" /\ at' = n /\ wire' = SubSeq(wire, 1, n)
           /\ UNCHANGED <<sent, pos, got, dead>>
Body(p, n) == [i \in 1..n |-> V(p + i)]
Left == Len(wire) - pos
Reject == dead' = TRUE /\ UNCHANGED <<sent, wire, fault, at, pos, got>>
Recv == /\ ~dead /\ (Left > 0 \/ fault = "cut") /\ Len(got) < MaxMsgs + 1
        /\ IF Left < 4 THEN Reject
           ELSE IF V(pos + 1) # M /\ Broken # "magic" THEN Reject
           ELSE LET n == V(pos + 3) IN
                IF Left < 4 + n THEN Reject
                ELSE IF Check(Body(pos + 4, n)) # V(pos + 4) /\ Broken # "nocheck" THEN Reject
                ELSE /\ got' = Append(got, <<IF V(pos + 2) = 0 THEN "x" ELSE "y", Body(pos + 4, n)>>)
                     /\ pos' = pos + 4 + (IF Broken = "short" /\ n > 0 THEN n - 1 ELSE n)
                     /\ UNCHANGED <<sent, wire, fault, at, dead>>
Next == Send \/ Corrupt \/ Recv
Spec == Init /\ [][Next]_<<sent, wire, fault, at, pos, got, dead>>

Faithful == Len(got) <= Len(sent) /\ \A i \in 1..Len(got) : got[i] = sent[i]
CleanDecodes == (fault = "none") => ~dead
RECURSIVE Ends(_)
Ends(n) == IF n = 0 THEN 0 ELSE Ends(n - 1) + 4 + Len(sent[n][2])
Sync == ~dead /\ Len(got) <= Len(sent) => pos = Ends(Len(got))
Notices == (~dead /\ pos >= Len(wire) /\ fault = "change") => FALSE     \* no altered stream is read to its end
Emit == (sent # <<>> /\ pos = 0 /\ ~dead /\ got = <<>> /\ (fault # "change" \/ V(at) \in {0, 1, W}))
        => PrintT(<<"PROGRAM", ToJson(<<[op |-> "shape", cmds |-> [i \in 1..Len(sent) |-> sent[i][1]], sizes |-> [i \in 1..Len(sent) |-> Len(sent[i][2])],
                                        fault |-> fault, field |-> IF fault = "change" THEN wire[at].f ELSE "", at |-> at]>>)>>)
=============================================================================
