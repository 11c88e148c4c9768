------------------------------ MODULE ProofTrace ------------------------------
(* Conformance of recorded operations on proof objects to ProofGraph.tla and  *)
(* Commit.tla.  Clauses: prune-* (what is there, flags), commit-* (hashes,    *)
(* equality), wire-* (serialized form), const-* (immutability), tag-*.        *)
EXTENDS ProofGraph, Commit, TraceBase, PySeq
VARIABLES tid, l, st          \* st = [objs, hs]: hs[h] = object behind handle h, or 0

K == Traces[1].classes
TagOf(c) == IF K[c].sub = "" THEN K[c].tag ELSE Derive(K[c].sub, K[c].tag)

RECURSIVE OHash(_, _), ODataHash(_, _)
ODataHash(objs, i) ==
  LET o == objs[i] IN
  IF o.orig # 0 THEN ODataHash(objs, o.orig)
  ELSE IF o.fully THEN o.dh
  ELSE DataHash([j \in 1..Len(K[o.cls].attrs) |->
         LET v == o.at[K[o.cls].attrs[j]] IN IF v.k = "p" THEN v.s ELSE OHash(objs, v.id)])
OHash(objs, i) == ProofHash(TagOf(objs[i].cls), ODataHash(objs, i))

UnionIndex(us, c) == (CHOOSE i \in 1..Len(us) : /\ us[i] \in {c, K[c].base}
                                                 /\ \A j \in 1..i-1 : us[j] \notin {c, K[c].base}) - 1
RECURSIVE OSer(_, _)
OSer(objs, i) ==        \* after Touch
  LET o == objs[i]  c == K[o.cls]
      variant == IF c.var < 0 THEN "" ELSE EncVarUint(c.var) IN
  IF o.fully THEN "ff" \o variant \o ODataHash(objs, i)
  ELSE "00" \o variant \o HexCat([j \in 1..Len(c.attrs) |->
         LET v == o.at[c.attrs[j]] IN
         IF v.k = "p" THEN v.s
         ELSE (IF c.us[j] = <<>> THEN "" ELSE EncVarUint(UnionIndex(c.us[j], objs[v.id].cls))) \o OSer(objs, v.id)])

(* (handles stand for whatever made them; 0 after an operation that failed)   *)
Same(w, c)        == [c |-> c, want |-> w, st |-> st]
New(objs, i, w, c) == [c |-> c, want |-> w, st |-> [objs |-> objs, hs |-> Append(st.hs, i)]]
Obj(i) == st.hs[i]
Name(objs, i) == "obj:" \o objs[i].cls

ArgValue(x) == IF x.k = "p" THEN Plain(x.s) ELSE Ref(Obj(x.h))
Expected(e) ==
  CASE e.op = "make" ->
         LET at == [n \in AttrSet(K, e.cls) |-> ArgValue(e.args[IndexOf(K[e.cls].attrs, n)])]
             o  == Construct(st.objs, e.cls, at) IN New(o, Len(o), Ok(Name(o, Len(o))), "prune-")
    [] e.op = "prune" -> LET o == Prune(st.objs, Obj(e.a)) IN New(o, Len(o), Ok(Name(o, Len(o))), "prune-")
    [] e.op = "acc" ->
         LET r == Access(K, st.objs, Obj(e.a), e.n) IN
        (CASE r.k = "ok" /\ r.v.k = "p" -> New(r.objs, 0, Ok(r.v.s), "prune-")
           [] r.k = "ok" /\ r.v.k = "o" -> New(r.objs, r.v.id, Ok(Name(r.objs, r.v.id)), "prune-")
           [] r.k = "pruned" -> New(r.objs, 0, Exc({"PrunedError"}), "prune-")
           [] r.k = "noattr" -> New(r.objs, 0, Exc({"AttributeError"}), "prune-"))
    [] e.op = "reload" ->
         LET t == Touch(K, st.objs, Obj(e.a)) IN
         IF t.k # "ok" THEN New(t.objs, 0, Exc({"PrunedError"}), "prune-")
         ELSE LET o == Load(K, t.objs, Obj(e.a)) IN New(o, Len(o), Ok(Name(o, Len(o))), "prune-")
    [] e.op = "ser" ->
         LET t == Touch(K, st.objs, Obj(e.a)) IN
         [c |-> "wire-", want |-> IF t.k # "ok" THEN Exc({"PrunedError"}) ELSE Ok(OSer(t.objs, Obj(e.a))),
          st |-> [st EXCEPT !.objs = t.objs]]
    [] e.op = "ispruned" -> Same(Ok(st.objs[Obj(e.a)].pruned), "prune-")
    [] e.op = "isfully"  -> Same(Ok(st.objs[Obj(e.a)].fully), "prune-")
    [] e.op = "hash"     -> Same(Ok(OHash(st.objs, Obj(e.a))), "commit-")
    [] e.op = "datahash" -> Same(Ok(ODataHash(st.objs, Obj(e.a))), "commit-")
    [] e.op = "eq"       -> Same(Ok(OHash(st.objs, Obj(e.a)) = OHash(st.objs, Obj(e.b))), "commit-")
    [] e.op = "ne"       -> Same(Ok(OHash(st.objs, Obj(e.a)) # OHash(st.objs, Obj(e.b))), "commit-")
    [] e.op = "inset"    -> Same(Ok(OHash(st.objs, Obj(e.a)) = OHash(st.objs, Obj(e.b))), "commit-")
    [] e.op = "eqother"  -> Same(Ok(FALSE), "commit-")
    [] e.op = "setattr"  -> Same(Exc({"TypeError"}), "const-")
    [] e.op = "delattr"  -> Same(Exc({"TypeError"}), "const-")
    \* hash tags
    [] e.op = "tag"      -> Same(Ok(e.hex), "tag-")
    [] e.op = "derive"   -> Same(Ok(Derive(e.t, e.s)), "tag-")
    [] e.op = "digest"   -> Same(Ok(Tagged(e.t, e.m)), "tag-")
    [] e.op = "tagstr"   -> Same(Ok(e.str), "tag-")

Dead(e) == \/ e.op \notin {"make", "tag", "derive", "digest", "tagstr"} /\ Obj(e.a) = 0
           \/ e.op \in {"eq", "ne", "inset"} /\ Obj(e.b) = 0
           \/ e.op = "make" /\ \E j \in 1..Len(e.args) : e.args[j].k = "o" /\ Obj(e.args[j].h) = 0
Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "skip"  -> [st |-> [st EXCEPT !.hs = Append(@, 0)], bad |-> <<>>]
    [] Dead(e)        -> [st |-> IF e.mk THEN [st EXCEPT !.hs = Append(@, 0)] ELSE st,
                          bad |-> <<Diff("driver", "no such object", e.op)>>]
    [] OTHER -> LET x == Expected(e) IN [st |-> x.st, bad |-> Expect(x.c \o e.op, x.want, e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [objs |-> <<>>, hs |-> <<>>]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
