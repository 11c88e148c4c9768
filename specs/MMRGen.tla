-------------------------------- MODULE MMRGen --------------------------------
(* Programs over mountain ranges: one of every starting length, then Depth    *)
(* appends, slices and extensions of the latest or the first range.           *)
EXTENDS Integers, Sequences, TLC, Json, PySeq
CONSTANTS MaxStart, Depth
VARIABLES prog, lens
Vals(n, s) == [i \in 1..n |-> (i * 7 + s) % 251]
Init == \E n \in 0..MaxStart : prog = <<[op |-> "new", vals |-> Vals(n, 0)]>> /\ lens = <<n>>
Do(op, n) == prog' = Append(prog, op) /\ lens' = Append(lens, n)
N == Len(prog)
Bounds(n) == {<<>>, <<0>>, <<1>>, <<n - 1>>, <<n>>, <<n + 1>>, <<-1>>, <<-n>>, <<n \div 2>>}
Next == /\ N <= Depth
        /\ \E a \in {1, N} :
             \/ Do([op |-> "append", a |-> a, v |-> 100 + N], lens[a] + 1)
             \/ \E s \in Bounds(lens[a]), e \in Bounds(lens[a]) :
                  Do([op |-> "slice", a |-> a, start |-> s, stop |-> e, step |-> 1],
                     PySliceLen(PyStart(s, lens[a], 1), PyStop(e, lens[a], 1), 1))
             \/ N > 1 /\ Do([op |-> "extendby", a |-> a, b |-> N], lens[a] + lens[N])
Spec == Init /\ [][Next]_<<prog, lens>>
Emit == N <= Depth \/ PrintT(<<"PROGRAM", ToJson(prog)>>)
=============================================================================
