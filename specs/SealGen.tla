------------------------------- MODULE SealGen -------------------------------
(* All small witnesses: right and wrong seal, input, output, transactions.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Rich
VARIABLE w
Outs == {"r1", "s1", "p1", "r2", "x"}       \* OP_RETURN/P2SH/P2PKH of digest 1, of digest 2, something else
Ins == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<2, 1, 3>>, <<2, 3>>}
OutSeqs == {<<>>} \cup {<<o>> : o \in Outs} \cup {<<a, b>> : a \in (IF Rich THEN Outs ELSE {"r1", "x", "s1"}), b \in (IF Rich THEN Outs ELSE {"r1", "r2", "p1"})}
Init == w \in [ins : Ins, outs : OutSeqs, i : 0..2, o : 0..1, same : BOOLEAN]
Spec == Init /\ [][UNCHANGED w]_w
Emit == PrintT(<<"PROGRAM", ToJson(w)>>)
=============================================================================
