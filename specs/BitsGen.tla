------------------------------- MODULE BitsGen -------------------------------
(* Programs over bit strings, enumerated: two sources, then Depth operations  *)
(* on any live values.                                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES prog, lens       \* lens: length of each value made so far

Lit(n, k) == [op |-> "lit", bits |-> [i \in 1..n |-> ((i * i + k) \div 2) % 2]]
FromBytes(h, n) == [op |-> "frombytes", buf |-> h, len |-> <<n>>]
Sources == { <<Lit(0, 0), 0>>, <<Lit(1, 1), 1>>, <<Lit(7, 0), 7>>, <<Lit(8, 1), 8>>, <<Lit(9, 1), 9>>,
             <<FromBytes("ff", 3), 3>>, <<FromBytes("a5ff", 8), 8>>, <<FromBytes("5aff7f", 15), 15>> }
Init == \E s \in Sources, t \in Sources : prog = <<s[1], t[1]>> /\ lens = <<s[2], t[2]>>
Do(op, n) == prog' = Append(prog, op) /\ lens' = Append(lens, n)
N == Len(prog)
Opt(x) == <<x>>
Next == /\ Len(prog) < 2 + Depth
        /\ \/ \E b \in 1..N : Do([op |-> "add", a |-> N, b |-> b], lens[N] + lens[b])
           \/ N > 2 /\ \E b \in 1..N-1 : Do([op |-> "add", a |-> b, b |-> N], lens[N] + lens[b])
           \/ Do([op |-> "inv", a |-> N], lens[N])
           \/ \E b \in 1..N-1 : Do([op |-> "cp", a |-> N, b |-> b], 0)
           \/ \E n \in {1, 3, 8, lens[N] - 1} : n > 0 /\ n < lens[N]
                 /\ Do([op |-> "slice", a |-> N, start |-> <<>>, stop |-> <<n>>, step |-> 1], n)
           \/ lens[N] > 2 /\ Do([op |-> "slice", a |-> N, start |-> <<1>>, stop |-> <<>>, step |-> 1], lens[N] - 1)
Spec == Init /\ [][Next]_<<prog, lens>>
Emit == Len(prog) < 2 + Depth \/ PrintT(<<"PROGRAM", ToJson(prog)>>)
=============================================================================
