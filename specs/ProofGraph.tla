------------------------------ MODULE ProofGraph ------------------------------
(* Proof objects and pruning.  objs is a sequence of objects                  *)
(*                                                                            *)
(*   cls    class name                                                        *)
(*   at     what is there: attribute name -> value                            *)
(*   orig   the object this one is a pruned copy of, 0 if none                *)
(*   fully, pruned   the two flags                                            *)
(*   dh     commitment to the attributes, if that is all there is left        *)
(*                                                                            *)
(* and values are plain, [k |-> "p", s |-> serialization, id |-> 0], or       *)
(* another object, [k |-> "o", s |-> "", id |-> index].  K is the class       *)
(* table: class -> [attrs: names in order, ...].                              *)
EXTENDS Integers, Sequences, TLC
CONSTANT DHash(_, _)      \* the data hash of an object: DHash(objs, i)

Plain(s) == [k |-> "p", s |-> s, id |-> 0]
Ref(i)   == [k |-> "o", s |-> "", id |-> i]
NoAttrs  == <<>>

AttrSet(K, c) == {K[c].attrs[i] : i \in 1..Len(K[c].attrs)}

(* A new object out of given values: pruned if anything in it is *)
Construct(objs, c, at) ==
  Append(objs, [cls |-> c, at |-> at, orig |-> 0, fully |-> FALSE, dh |-> "",
                pruned |-> \E n \in DOMAIN at : at[n].k = "o" /\ objs[at[n].id].pruned])

(* A pruned copy: nothing in it *)
Prune(objs, i) ==
  Append(objs, [cls |-> objs[i].cls, at |-> NoAttrs, orig |-> i, fully |-> TRUE, pruned |-> TRUE, dh |-> ""])

(* Reading an attribute.  What isn't there is brought in from the original    *)
(* (which may be a pruned copy itself), proofs in turn pruned.                *)
RECURSIVE Access(_, _, _, _)
Access(K, objs, i, n) ==
  LET o == objs[i] IN
  IF n \in DOMAIN o.at THEN [k |-> "ok", v |-> o.at[n], objs |-> objs]
  ELSE IF o.orig = 0
       THEN [k |-> IF n \in AttrSet(K, o.cls) THEN "pruned" ELSE "noattr", v |-> Plain(""), objs |-> objs]
  ELSE LET r == Access(K, objs, o.orig, n) IN
       IF r.k # "ok" THEN r
       ELSE LET new  == IF r.v.k = "o" THEN Prune(r.objs, r.v.id) ELSE r.objs
                v    == IF r.v.k = "o" THEN Ref(Len(new)) ELSE r.v
                o2   == [new[i] EXCEPT !.at = (n :> v) @@ @, !.fully = FALSE]
            IN [k |-> "ok", v |-> v, objs |-> [new EXCEPT ![i] = o2]]

(* Serializing brings every attribute of the objects that aren't fully pruned *)
(* into view, but reveals nothing of the proofs among them.                   *)
RECURSIVE Touch(_, _, _), TouchAll(_, _, _, _)
Touch(K, objs, i) == IF objs[i].fully THEN [k |-> "ok", objs |-> objs] ELSE TouchAll(K, objs, i, K[objs[i].cls].attrs)
TouchAll(K, objs, i, names) ==
  IF names = <<>> THEN [k |-> "ok", objs |-> objs]
  ELSE LET r == Access(K, objs, i, Head(names)) IN
       IF r.k # "ok" THEN [k |-> r.k, objs |-> r.objs]
       ELSE LET t == IF r.v.k = "o" THEN Touch(K, r.objs, r.v.id) ELSE [k |-> "ok", objs |-> r.objs] IN
            IF t.k # "ok" THEN t ELSE TouchAll(K, t.objs, i, Tail(names))

(* What is read back from a serialization: a fresh structure, nothing behind it *)
RECURSIVE Load(_, _, _), LoadAll(_, _, _, _, _)
Load(K, objs, i) ==          \* objs after Touch; result: new object last
  IF objs[i].fully
  THEN Append(objs, [cls |-> objs[i].cls, at |-> NoAttrs, orig |-> 0, fully |-> TRUE, pruned |-> TRUE, dh |-> DHash(objs, i)])
  ELSE LoadAll(K, objs, i, K[objs[i].cls].attrs, NoAttrs)
LoadAll(K, objs, i, names, at) ==
  IF names = <<>> THEN Construct(objs, objs[i].cls, at)
  ELSE LET n == Head(names)  v == objs[i].at[n] IN
       IF v.k = "p" THEN LoadAll(K, objs, i, Tail(names), (n :> v) @@ at)
       ELSE LET sub == Load(K, objs, v.id) IN
            LoadAll(K, sub, i, Tail(names), (n :> Ref(Len(sub))) @@ at)

(* What an object stands for, whatever is pruned: nested sequences of strings *)
RECURSIVE Content(_, _, _)
Content(K, objs, i) ==
  IF objs[i].orig # 0 THEN Content(K, objs, objs[i].orig)
  ELSE IF objs[i].fully THEN objs[i].dh
  ELSE LET as == K[objs[i].cls].attrs IN
       [c |-> objs[i].cls,
        v |-> [j \in 1..Len(as) |-> LET v == objs[i].at[as[j]] IN
                 IF v.k = "p" THEN [c |-> v.s, v |-> <<>>] ELSE Content(K, objs, v.id)]]
=============================================================================
