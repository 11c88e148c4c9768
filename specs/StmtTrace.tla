------------------------------ MODULE StmtTrace ------------------------------
(* Statements evaluated on ranges and maps, on their pruned copies, and on    *)
(* what is read back from pruned copies.  A handle is                         *)
(*   t      "mmr" or "mb";  v  the list / the map it commits to               *)
(*   orig   handle it is a pruned copy of, or 0                               *)
(*   whole  nothing missing, but for what's in  gone  (values that were       *)
(*          pruned away before they got there);  can  the parts that are       *)
(*          there otherwise                                                     *)
(*   did    statements it can evaluate although it isn't whole                *)
(*   seen, done   parts and statements used so far through this copy          *)
(* Parts of a range are item numbers, 0 standing for the top node (it holds   *)
(* the length); parts of a map are nodes, named by the set of keys below, and *)
(* those values that are proofs.                                              *)
EXTENDS TraceBase, Commit, PySeq
VARIABLES tid, l, st
MM == INSTANCE MMR
MB == INSTANCE Merbinner

C == Traces[tid].cls
U == Traces[tid].universe

None == [t |-> "none", v |-> <<>>, orig |-> 0, whole |-> FALSE, gone |-> {}, can |-> {}, did |-> {}, seen |-> {}, done |-> {}]
Whole(t, v) == [None EXCEPT !.t = t, !.v = v, !.whole = TRUE]

RECURSIVE Base(_)
Base(h) == IF st[h].orig = 0 THEN h ELSE Base(st[h].orig)
RECURSIVE Chain(_)
Chain(h) == IF st[h].orig = 0 THEN {h} ELSE {h} \cup Chain(st[h].orig)

(* Use parts, and note the statement, in a copy and the copies behind it *)
Mark(h, parts, stmts) == [i \in 1..Len(st) |-> IF i \in Chain(h) /\ st[i].orig # 0
                            THEN [st[i] EXCEPT !.seen = @ \cup parts, !.done = @ \cup stmts] ELSE st[i]]
There(h, part) == IF st[Base(h)].whole THEN part \notin st[Base(h)].gone ELSE part \in st[Base(h)].can
AllThere(h, parts) == \A i \in 1..Len(parts) : There(h, parts[i])

RECURSIVE AvailPrefix(_, _)
AvailPrefix(h, parts) == IF parts = <<>> \/ ~There(h, Head(parts)) THEN {} ELSE {Head(parts)} \cup AvailPrefix(h, Tail(parts))
Range(s) == {s[i] : i \in 1..Len(s)}
Missing == Exc({"PrunedError"})

(* A statement: its answer on the whole thing, and either the parts it needs, *)
(* in this order (exact), or just a name for it.  What a statement of the     *)
(* second kind used isn't known: once evaluated, it must stay possible, and   *)
(* there may be more there than we know of.                                   *)
Exact(parts, truth)   == [new |-> FALSE, exact |-> TRUE,  parts |-> parts, stmt |-> <<>>, truth |-> truth, r |-> None]
Loose(stmt, truth)    == [new |-> FALSE, exact |-> FALSE, parts |-> <<>>,  stmt |-> stmt, truth |-> truth, r |-> None]
Make(truth, r)        == [new |-> TRUE,  exact |-> TRUE,  parts |-> <<>>,  stmt |-> <<>>, truth |-> truth, r |-> r]

\* ranges
Top(v) == IF Len(v) <= 1 THEN <<>> ELSE <<0>>
V(h) == st[h].v
MmrGet(h, i) == IF PyIndexOk(V(h), i) THEN Exact(Top(V(h)) \o <<(IF i < 0 THEN i + Len(V(h)) ELSE i) + 1>>, Ok(PyIndex(V(h), i)))
                ELSE Exact(Top(V(h)), Exc({"IndexError"}))
Nums(n) == [i \in 1..n |-> i]

\* maps
Node(ks) == [n |-> Range(ks), v |-> FALSE]
Leaf(k, val) == IF val /\ C.leaf # "ser" THEN <<Node(<<k>>), [n |-> {k}, v |-> TRUE]>> ELSE <<Node(<<k>>)>>   \* values may be proofs
RECURSIVE PathTo(_, _)
PathTo(ks, k) ==
  IF ks = <<>> THEN <<>>
  ELSE IF Len(ks) = 1 THEN Leaf(ks[1], k \in Range(ks))
  ELSE <<Node(ks)>> \o IF IsPrefixOf(MB!Prefix(U, ks), U[k].bits)
         THEN PathTo(IF U[k].bits[Len(MB!Prefix(U, ks)) + 1] = 1 THEN MB!RightKeys(U, ks) ELSE MB!LeftKeys(U, ks), k)
         ELSE <<>>
Keys(h) == MB!KeysOf(U, V(h))
RECURSIVE InnerTo(_)
InnerTo(ks) == IF Len(ks) <= 1 THEN (IF ks = <<>> THEN <<>> ELSE Leaf(ks[1], TRUE))
               ELSE <<Node(ks)>> \o InnerTo(MB!LeftKeys(U, ks)) \o InnerTo(MB!RightKeys(U, ks))
Hash(t, v) == IF t = "mmr" THEN MM!MHash(C, v) ELSE MB!BHash(C, U, v, MB!KeysOf(U, v))
Made(t, v) == [None EXCEPT !.t = t, !.v = v]

MBSubset(a, b) == \A k \in DOMAIN a : k \in DOMAIN b /\ b[k] = a[k]
RECURSIVE PutAll(_, _)
PutAll(m, items) == IF items = <<>> THEN m ELSE PutAll(MB!Put(m, Head(items)[1], Head(items)[2]), Tail(items))

(* a part that is the value at key k of a map *)
ValueOf(k) == [n |-> {k}, v |-> TRUE]
AlsoGone(w, ps) == [w EXCEPT !.gone = @ \cup ps]
Expected(e) ==
  CASE e.op = "mmr" -> Make(Ok(Hash("mmr", e.vals)), AlsoGone(Whole("mmr", e.vals), Range(e.gone)))
    [] e.op = "mb"  -> LET m == PutAll(MB!EmptyMap, e.items) IN Make(Ok(Hash("mb", m)), AlsoGone(Whole("mb", m), {ValueOf(k) : k \in Range(e.gone)}))
    \* what comes of a whole one with values that may be pruned away
    [] e.op = "append2" -> Make(Ok(Hash("mmr", Append(V(e.a), e.val))),
                                [st[e.a] EXCEPT !.v = Append(@, e.val), !.gone = @ \cup (IF e.gone THEN {Len(V(e.a)) + 1} ELSE {}), !.seen = {}, !.done = {}])
    [] e.op = "put2" -> LET m == MB!Put(V(e.a), e.k, e.v) IN
                        Make(Ok(Hash("mb", m)), [st[e.a] EXCEPT !.v = m, !.gone = (@ \ {ValueOf(e.k)}) \cup (IF e.gone THEN {ValueOf(e.k)} ELSE {}), !.seen = {}, !.done = {}])
    [] e.op = "remove2" -> LET m == MB!Remove(V(e.a), e.k) IN
                        IF e.k \notin DOMAIN V(e.a) THEN Make(Exc({"KeyError"}), None)
                        ELSE Make(Ok(Hash("mb", m)), [st[e.a] EXCEPT !.v = m, !.gone = @ \ {ValueOf(e.k)}, !.seen = {}, !.done = {}])
    [] e.op = "slice2" -> LET m == PySlice(V(e.a), <<e.i>>, <<e.j>>, 1) IN
                        Make(Ok(Hash("mmr", m)), [st[e.a] EXCEPT !.v = m, !.gone = {q - e.i : q \in {x \in @ : x > e.i /\ x <= e.j}}, !.seen = {}, !.done = {}])
    [] e.op = "flag" -> Exact(<<>>, Ok(st[e.a].gone # {}))
    [] e.op = "prune" -> Make(Ok(Hash(st[e.a].t, V(e.a))), [Made(st[e.a].t, V(e.a)) EXCEPT !.orig = e.a])
    [] e.op = "reload" ->
         Make(Ok(Hash(st[e.a].t, V(e.a))),
              IF st[e.a].orig = 0 THEN [st[e.a] EXCEPT !.seen = {}, !.done = {}]
              ELSE [Made(st[e.a].t, V(e.a)) EXCEPT !.can = st[e.a].seen, !.did = st[e.a].done])
    [] e.op = "hash" -> Exact(<<>>, Ok(Hash(st[e.a].t, V(e.a))))
    \* ranges
    [] e.op = "get"  -> MmrGet(e.a, e.i)
    [] e.op = "len"  -> Exact(Top(V(e.a)), Ok(Len(V(e.a))))
    [] e.op = "iter" -> Exact(Top(V(e.a)) \o Nums(Len(V(e.a))), Ok(V(e.a)))
    [] e.op = "rev"  -> Exact(Top(V(e.a)) \o Rev(Nums(Len(V(e.a)))), Ok(Rev(V(e.a))))
    [] e.op = "append" -> Loose(<<"append">>, Ok(Hash("mmr", Append(V(e.a), e.val))))
    [] e.op = "slice"  -> Loose(<<"slice", Str(e.i), Str(e.j)>>, Ok(Hash("mmr", PySlice(V(e.a), <<e.i>>, <<e.j>>, 1))))
    \* maps
    [] e.op = "lookup" -> Exact(PathTo(Keys(e.a), e.k), IF e.k \in DOMAIN V(e.a) THEN Ok(V(e.a)[e.k]) ELSE Exc({"KeyError"}))
    [] e.op = "items"  -> Exact(InnerTo(Keys(e.a)), Ok(MB!ItemsOf(U, V(e.a))))
    [] e.op = "put"    -> Loose(<<"put", Str(e.k)>>, Ok(Hash("mb", MB!Put(V(e.a), e.k, e.v))))
    [] e.op = "remove" -> Loose(<<"remove", Str(e.k)>>, IF e.k \in DOMAIN V(e.a) THEN Ok(Hash("mb", MB!Remove(V(e.a), e.k))) ELSE Exc({"KeyError"}))
    [] e.op = "subset" -> Loose(<<"subset", Str(e.b)>>, Ok(MBSubset(V(e.a), V(e.b))))

Judge(e, x) ==
  LET b == st[Base(e.a)]
      ok == /\ Matches(x.truth, e.out)
            /\ (b.whole /\ ~x.exact) \/ (~b.whole /\ (b.did # {} \/ ~x.exact)) \/ AllThere(e.a, x.parts)
      pr == /\ Matches(Missing, e.out)
            /\ IF x.exact THEN ~AllThere(e.a, x.parts) ELSE ~b.whole /\ x.stmt \notin b.did
      seen == IF Matches(x.truth, e.out) THEN Range(x.parts) ELSE AvailPrefix(e.a, x.parts)
  IN [st |-> Mark(e.a, seen, IF x.exact THEN {} ELSE {IF Matches(x.truth, e.out) THEN x.stmt ELSE <<"?">>}),
      bad |-> Require("stmt-" \o e.op, ok \/ pr,
                      IF (x.exact /\ AllThere(e.a, x.parts)) \/ (~x.exact /\ (b.whole \/ x.stmt \in b.did)) THEN x.truth ELSE Missing,
                      e.out)]
Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "skip"  -> [st |-> Append(st, None), bad |-> <<>>]
    [] OTHER -> LET x == Expected(e) IN
         IF x.new THEN [st |-> Append(st, x.r), bad |-> Expect("stmt-" \o e.op, x.truth, e.out)]
         ELSE Judge(e, x)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
