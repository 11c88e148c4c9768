----------------------------- MODULE BloomDesign -----------------------------
(* Filters under an arbitrary hash function, inserted into, queried, sent     *)
(* over the network and compared.  A filter is its bytes (of Width bits), the *)
(* number of hashes and a tweak; an element's hash is any number below Range, *)
(* reduced modulo the number of bits.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Elems, Lens, Hashes, Tweaks, Width, Range, MaxOps, Broken
VARIABLES hash, fs, ops

Funcs == [Elems \X (0..(Hashes - 1)) \X Tweaks -> 0..(Range - 1)]
BitsOf(f, e) == IF f.len = 0 THEN {} ELSE {hash[<<e, i, f.tweak>>] % (Width * f.len) : i \in 0..(Hashes - 1)}
Full(f) == f.bits = 0..(Width * f.len - 1)
Contains(f, e) == (Broken = "anybit" /\ BitsOf(f, e) \cap f.bits # {}) \/ BitsOf(f, e) \subseteq f.bits
(* over the network: bytes, hashes, tweak *)
LastByte(f) == IF f.bits = {} THEN 0 ELSE (CHOOSE b \in f.bits : \A c \in f.bits : c <= b) \div Width + 1
Sent(f) == CASE Broken = "trim" -> [f EXCEPT !.len = LastByte(f)]
             [] Broken = "tweak" -> [f EXCEPT !.tweak = CHOOSE t \in Tweaks : \A u \in Tweaks : t <= u]
             [] OTHER -> f
Init == hash \in Funcs /\ fs = <<>> /\ ops = <<>>
Log(o) == ops' = Append(ops, o) /\ UNCHANGED hash
New == \E n \in Lens, t \in Tweaks : fs' = Append(fs, [len |-> n, tweak |-> t, bits |-> {}, ins |-> {}]) /\ Log([op |-> "make", n |-> n, t |-> t])
Insert == \E i \in 1..Len(fs), e \in Elems : fs' = [fs EXCEPT ![i].bits = IF Broken = "full" /\ Full(fs[i]) THEN {} ELSE @ \cup BitsOf(fs[i], e), ![i].ins = @ \cup {e}] /\ Log([op |-> "insert", ref |-> i, e |-> e])
Copy == \E i \in 1..Len(fs) : fs' = Append(fs, Sent(fs[i])) /\ Log([op |-> "copy", ref |-> i])
Next == Len(ops) < MaxOps /\ (New \/ Insert \/ Copy)
Spec == Init /\ [][Next]_<<hash, fs, ops>>

NoMiss == \A i \in 1..Len(fs) : \A e \in fs[i].ins : Contains(fs[i], e)
(* what is contained is decided by the bits alone, and bits come from inserts *)
Exact == \A i \in 1..Len(fs) : /\ fs[i].bits = UNION {BitsOf(fs[i], e) : e \in fs[i].ins}
                               /\ \A e \in Elems : Contains(fs[i], e) => BitsOf(fs[i], e) \subseteq UNION {BitsOf(fs[i], g) : g \in fs[i].ins}
Grows == [][\A i \in 1..Len(fs) : fs[i].bits \subseteq fs'[i].bits]_fs
View == <<fs, ops>>
Emit == Len(ops) = MaxOps => PrintT(<<"PROGRAM", ToJson(ops)>>)
=============================================================================
