------------------------------- MODULE MMRTrace -------------------------------
(* Conformance of recorded operations on mountain ranges to MMR.tla.          *)
(* Clauses: list-* (what it holds), commit-* (what it commits to).            *)
EXTENDS MMR, TraceBase
VARIABLES tid, l, st

None == [t |-> "none", v |-> <<>>]
LV(s) == [t |-> "mmr", v |-> s]
V(i) == st[i].v
C == Traces[tid].cls

Mk(s)   == [c |-> "list-", want |-> Ok(s), new |-> LV(s)]
Err(cs) == [c |-> "list-", want |-> Exc(cs), new |-> None]
Obs(v)  == [c |-> "list-", want |-> Ok(v), new |-> None]
ObsC(v) == [c |-> "commit-", want |-> Ok(v), new |-> None]

(* iteration may be checked against a long range by position only *)
Expected(e) ==
  CASE e.op = "new"      -> Mk(e.vals)
    [] e.op = "append"   -> Mk(Append(V(e.a), e.v))
    [] e.op = "extend"   -> Mk(V(e.a) \o e.vals)
    [] e.op = "extendby" -> Mk(V(e.a) \o V(e.b))
    [] e.op = "slice"    -> IF e.step = 0 THEN Err({"ValueError"})
                            ELSE IF e.step = 1 THEN Mk(PySlice(V(e.a), e.start, e.stop, 1))
                            ELSE IF e.out.k = "exc" THEN Err({"NotImplementedError"})
                            ELSE Mk(PySlice(V(e.a), e.start, e.stop, e.step))
    [] e.op = "reload"   -> Mk(V(e.a))
    [] e.op = "len"      -> Obs(Len(V(e.a)))
    [] e.op = "list"     -> Obs(V(e.a))
    [] e.op = "revlist"  -> Obs(Rev(V(e.a)))
    [] e.op = "index"    -> IF PyIndexOk(V(e.a), e.i) THEN Obs(PyIndex(V(e.a), e.i)) ELSE Err({"IndexError"})
    [] e.op = "indexall" -> Obs(V(e.a) \o V(e.a))
    [] e.op = "contains" -> Obs(\E i \in 1..Len(V(e.a)) : V(e.a)[i] = e.v)
    [] e.op = "typeerror" -> Err({"TypeError"})
    [] e.op = "perfect"  -> Obs(IsPow2(Len(V(e.a))))
    [] e.op = "hash"     -> ObsC(MHash(C, V(e.a)))
    [] e.op = "datahash" -> ObsC(MDataHash(C, V(e.a)))
    [] e.op = "shape"    -> ObsC(Shape(Len(V(e.a))))
    [] e.op = "ser"      -> ObsC(MSer(C, V(e.a)))
    [] e.op = "eq"       -> ObsC(V(e.a) = V(e.b))
    [] e.op = "hugelist" -> LET at == [i \in 1..Len(e.idx) |-> HugeAt(e.k, e.v, e.tail, e.idx[i])] IN
                            Obs([len |-> HugeLen(e.k, e.tail), perfect |-> e.tail = <<>>, at |-> at, pruned |-> at, reloaded |-> at,
                                 part |-> HugePart(e.k, e.v, e.tail, e.lo, e.hi)])
    [] e.op = "hugehash" -> ObsC([hash |-> HugeHash(C, e.k, e.v, e.tail), data |-> HugeData(C, e.k, e.v, e.tail)])
    [] e.op = "foreign"  -> ObsC(FALSE)        \* same list in a range of another class

Step(e) ==
  CASE e.op = "skip"  -> [st |-> Append(st, None), bad |-> <<>>]
    [] e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] OTHER -> LET x == Expected(e) IN
         [st |-> IF e.mk THEN Append(st, x.new) ELSE st, bad |-> Expect(x.c \o e.op, x.want, e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
