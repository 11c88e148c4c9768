------------------------------ MODULE AddrDesign ------------------------------
(* Addresses of several chains handled while the selected chain changes.      *)
(* Strings are abstracted to (version, hash), which Base58Design justifies.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chains, Hashes, MaxOps, Broken
VARIABLES chain, made, ops, last

Ver(c, k) == CASE k = "p2pkh" -> IF c = "mainnet" THEN 0 ELSE 111
               [] k = "p2sh" -> IF Broken = "shared" THEN (IF c = "mainnet" THEN 0 ELSE 111) ELSE IF c = "mainnet" THEN 5 ELSE 196
Kinds == {"p2pkh", "p2sh"}
Same(c, d) == (c = "mainnet") = (d = "mainnet")
Parsed(c, str) == IF Broken = "nochain" THEN {k \in Kinds : \E d \in Chains : Ver(d, k) = str[1]} ELSE {k \in Kinds : Ver(c, k) = str[1]}

Init == chain = "mainnet" /\ made = <<>> /\ ops = <<>> /\ last = "none"
Log(o) == ops' = Append(ops, o)
Select == \E c \in Chains : chain' = c /\ Log([op |-> "select", chain |-> c]) /\ last' = "none" /\ UNCHANGED made
Make == \E k \in Kinds, h \in Hashes : /\ made' = Append(made, [chain |-> chain, kind |-> k, hash |-> h, str |-> <<Ver(chain, k), h>>])
                                       /\ Log([op |-> "make", kind |-> k, h |-> h]) /\ last' = "none" /\ UNCHANGED chain
Parse == \E i \in 1..Len(made), want \in Kinds \cup {"any"} :
           LET ks == {k \in Parsed(chain, made[i].str) : want \in {"any", k}} IN
           /\ last' = IF ks = {} THEN "reject" ELSE (IF Cardinality(ks) > 1 THEN "ambiguous" ELSE CHOOSE k \in ks : TRUE)
           /\ Log([op |-> "again", i |-> i, want |-> want]) /\ UNCHANGED <<chain, made>>
Next == Len(ops) < MaxOps /\ (Select \/ Make \/ Parse)
Spec == Init /\ [][Next]_<<chain, made, ops, last>>

OneToOne == \A i, j \in 1..Len(made) : Same(made[i].chain, made[j].chain) =>
              (made[i].str = made[j].str <=> made[i].kind = made[j].kind /\ made[i].hash = made[j].hash)
Apart == \A i, j \in 1..Len(made) : ~Same(made[i].chain, made[j].chain) => made[i].str # made[j].str
Verdict == LET o == ops[Len(ops)] IN
           (ops # <<>> /\ o.op = "again") =>
              last = (IF Same(made[o.i].chain, chain) /\ o.want \in {"any", made[o.i].kind} THEN made[o.i].kind ELSE "reject")
Emit == Len(ops) = MaxOps => PrintT(<<"PROGRAM", ToJson(ops)>>)
=============================================================================
