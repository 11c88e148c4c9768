---------------------------- MODULE MerbinnerTrace ----------------------------
(* Conformance of recorded operations on Merbinner trees to Merbinner.tla.    *)
(* Clauses: map-* (what it holds), commit-* (what it commits to).             *)
EXTENDS Merbinner, TraceBase
VARIABLES tid, l, st

None == [t |-> "none", v |-> <<>>]
MV(m) == [t |-> "map", v |-> m]
V(i) == st[i].v
C == Traces[tid].cls
U == Traces[tid].universe

Mk(m)   == [c |-> "map-", want |-> Ok(ItemsOf(U, m)), new |-> MV(m)]
Err(cs) == [c |-> "map-", want |-> Exc(cs), new |-> None]
Obs(v)  == [c |-> "map-", want |-> Ok(v), new |-> None]
ObsC(v) == [c |-> "commit-", want |-> Ok(v), new |-> None]

RECURSIVE Fits(_, _)
Fits(m, items) == items = <<>> \/ (Room(U, m, Head(items)[1]) /\ Fits(Put(m, Head(items)[1], Head(items)[2]), Tail(items)))
RECURSIVE PutAll(_, _)
PutAll(m, items) == IF items = <<>> THEN m ELSE PutAll(Put(m, Head(items)[1], Head(items)[2]), Tail(items))

Expected(e) ==
  CASE e.op = "new"    -> IF ~Fits(EmptyMap, e.items) THEN Err({"Exception"}) ELSE Mk(PutAll(EmptyMap, e.items))
    [] e.op = "put"    -> IF ~Room(U, V(e.a), e.k) THEN Err({"Exception"}) ELSE Mk(Put(V(e.a), e.k, e.v))
    [] e.op = "remove" -> IF Has(V(e.a), e.k) THEN Mk(Remove(V(e.a), e.k)) ELSE Err({"KeyError"})
    [] e.op = "reload" -> Mk(V(e.a))
    [] e.op = "lookup" -> IF Has(V(e.a), e.k) THEN Obs(V(e.a)[e.k]) ELSE Err({"KeyError"})
    [] e.op = "len"    -> Obs(Cardinality(DOMAIN V(e.a)))
    [] e.op = "items"  -> Obs(ItemsOf(U, V(e.a)))
    [] e.op = "keys"   -> Obs(KeysOf(U, V(e.a)))
    [] e.op = "iter"   -> Obs(KeysOf(U, V(e.a)))
    [] e.op = "values" -> LET it == ItemsOf(U, V(e.a)) IN Obs([i \in 1..Len(it) |-> it[i][2]])
    [] e.op = "subset" -> Obs(Subset(V(e.a), V(e.b)))
    [] e.op = "typeerror" -> Err({"TypeError"})
    [] e.op = "hash"     -> ObsC(BHash(C, U, V(e.a), KeysOf(U, V(e.a))))
    [] e.op = "datahash" -> ObsC(BDataHash(C, U, V(e.a), KeysOf(U, V(e.a))))
    [] e.op = "ser"      -> ObsC(BSer(C, U, V(e.a), KeysOf(U, V(e.a))))
    [] e.op = "shape"    -> ObsC(BShape(U, KeysOf(U, V(e.a))))
    [] e.op = "eq"       -> ObsC(V(e.a) = V(e.b))

(* The known finding about very deep trees: the code is recursive *)
Recursion(o) == o.k = "exc" /\ \E i \in 1..Len(o.mro) : o.mro[i] = "RecursionError"
Deep(e, x) == LET bad == Expect(x.c \o e.op, x.want, e.out) IN
  IF bad # <<>> /\ Recursion(e.out) THEN <<Diff(x.c \o "deep-recursion", x.want, e.out)>> ELSE bad
Step(e) ==
  CASE e.op = "skip"  -> [st |-> Append(st, None), bad |-> <<>>]
    [] e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "universe" -> [st |-> st, bad |-> Require("driver", UniverseOk(U), "sorted keys", U)]
    [] e.op = "deephash"   -> [st |-> st, bad |-> Deep(e, ObsC(BHash(C, U, V(e.a), KeysOf(U, V(e.a)))))]
    [] e.op = "deepsubset" -> [st |-> st, bad |-> Deep(e, Obs(Subset(V(e.a), V(e.b))))]
    [] OTHER -> LET x == Expected(e) IN
         [st |-> IF e.mk THEN Append(st, x.new) ELSE st, bad |-> Expect(x.c \o e.op, x.want, e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
