------------------------------- MODULE KeyDesign -------------------------------
(* Keys, signatures and their text forms, with ideal signatures: a signature  *)
(* is made by the holder of a secret, for a digest; anyone can make one for   *)
(* the point at infinity (see EcToy).  Public keys are handles, which bytes   *)
(* are parsed into; bytes that are no point leave the handle a point at       *)
(* infinity, which must not verify anything.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Secrets, Digests, Chains, MaxOps, Broken
VARIABLES chain, keys, sigs, texts, ops, last

Ver(c) == IF c = "mainnet" THEN 128 ELSE 239
Text(c, k) == <<Ver(c), k.sec, k.comp>>
Init == chain = "mainnet" /\ keys = <<>> /\ sigs = <<>> /\ texts = <<>> /\ ops = <<>> /\ last = [k |-> "none"]
Log(o) == ops' = Append(ops, o)
Select == \E c \in Chains : c # chain /\ chain' = c /\ Log([op |-> "select", chain |-> c]) /\ last' = [k |-> "none"] /\ UNCHANGED <<keys, sigs, texts>>
New == \E s \in Secrets, c \in BOOLEAN : /\ Len(keys) < 2 /\ keys' = Append(keys, [sec |-> s, comp |-> c]) /\ Log([op |-> "new", s |-> s, comp |-> c])
                                         /\ last' = [k |-> "none"] /\ UNCHANGED <<chain, sigs, texts>>
Junk == /\ Len(keys) < 2 /\ keys' = Append(keys, [sec |-> 0, comp |-> TRUE]) /\ Log([op |-> "junk"])       \* bytes that are no point
        /\ last' = [k |-> "none"] /\ UNCHANGED <<chain, sigs, texts>>
Sign == \E i \in 1..Len(keys), d \in Digests : /\ keys[i].sec # 0 /\ Len(sigs) < 2 /\ sigs' = Append(sigs, [by |-> keys[i].sec, d |-> d]) /\ Log([op |-> "signs", i |-> i, d |-> d])
                                               /\ last' = [k |-> "none"] /\ UNCHANGED <<chain, keys, texts>>
Forge == \E d \in Digests : /\ Len(sigs) < 2 /\ sigs' = Append(sigs, [by |-> 0, d |-> d]) /\ Log([op |-> "forge", d |-> d])
                            /\ last' = [k |-> "none"] /\ UNCHANGED <<chain, keys, texts>>
Accepts(k, s, d) == (k.sec # 0 \/ Broken = "infinity") /\ s.by = k.sec /\ (Broken = "digest" \/ s.d = d)
Verify == \E i \in 1..Len(keys), j \in 1..Len(sigs), d \in Digests :
            /\ last' = [k |-> "verify", i |-> i, j |-> j, d |-> d, r |-> Accepts(keys[i], sigs[j], d)]
            /\ Log([op |-> "verifies", i |-> i, j |-> j, d |-> d]) /\ UNCHANGED <<chain, keys, sigs, texts>>
Write == \E i \in 1..Len(keys) : /\ keys[i].sec # 0 /\ Len(texts) < 2 /\ texts' = Append(texts, [t |-> Text(chain, keys[i]), of |-> i, chain |-> chain]) /\ Log([op |-> "writes", i |-> i])
                                 /\ last' = [k |-> "none"] /\ UNCHANGED <<chain, keys, sigs>>
Read == \E j \in 1..Len(texts) : /\ last' = [k |-> "read", j |-> j, r |-> IF texts[j].t[1] = Ver(chain) \/ Broken = "anychain" THEN [sec |-> texts[j].t[2], comp |-> texts[j].t[3]] ELSE [sec |-> -1, comp |-> FALSE]]
                                 /\ Log([op |-> "reads", j |-> j]) /\ UNCHANGED <<chain, keys, sigs, texts>>
Next == Len(ops) < MaxOps /\ (Select \/ New \/ Junk \/ Sign \/ Forge \/ Verify \/ Write \/ Read)
Spec == Init /\ [][Next]_<<chain, keys, sigs, texts, ops, last>>

(* accepted exactly if the holder of that very secret signed that very digest *)
Sound == last.k = "verify" => (last.r <=> (sigs[last.j].by # 0 /\ sigs[last.j].by = keys[last.i].sec /\ sigs[last.j].d = last.d))
TextBack == last.k = "read" => last.r = (IF (texts[last.j].chain = "mainnet") = (chain = "mainnet") THEN keys[texts[last.j].of] ELSE [sec |-> -1, comp |-> FALSE])
Emit == (Len(ops) = MaxOps /\ last.k # "none") => PrintT(<<"PROGRAM", ToJson(ops)>>)
=============================================================================
