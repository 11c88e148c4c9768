----------------------------- MODULE TxHeapTrace -----------------------------
(* Conformance of recorded histories of objects to TxHeap.  State: the heap   *)
(* and the handles of the program.                                            *)
EXTENDS TxHeap, TraceBase
VARIABLES tid, l, st

Id(e) == st.hs[e.a]
New(r) == [h |-> r.h, hs |-> Append(st.hs, r.id)]
SetNode(id, x) == [st EXCEPT !.h[id] = x]
AttrError == Exc({"AttributeError"})
NotItem == Exc({"TypeError", "AttributeError"})      \* tuples

(* the new state, if the operation is allowed *)
Do(e) ==
  CASE e.op = "mk0" -> New(PDefault(st.h, e.k, e.m))
    [] e.op = "mkop" -> New(POp(st.h, e.m, e.s, e.n))
    [] e.op = "mkout" -> New(POut(st.h, e.m, e.n, e.s))
    [] e.op = "mkin" -> New(PIn(st.h, e.m, Id(e), e.s, e.n))
    [] e.op = "mktx" -> New(PTx(st.h, e.m, st.hs[e.a], st.hs[e.b], e.n, e.ver))
    [] e.op = "mkblock" -> New(PBlock(st.h, Id(e), e.ver, e.s))
    [] e.op = "list" -> New(PList(st.h, TRUE, [i \in 1..Len(e.items) |-> st.hs[e.items[i]]]))
    [] e.op = "from" -> New(IF e.m THEN FromM(st.h, Id(e)) ELSE FromI(st.h, Id(e)))
    [] e.op = "get" -> New([h |-> st.h, id |-> Part(st.h[Id(e)], e.f)])
    [] e.op = "item" -> New([h |-> st.h, id |-> st.h[Id(e)].items[e.i + 1]])
    [] e.op = "set" -> IF st.h[Id(e)].m THEN SetNode(Id(e), Setting(st.h[Id(e)], e.f, e.v)) ELSE st
    [] e.op = "setref" -> IF st.h[Id(e)].m THEN SetNode(Id(e), SettingRef(st.h[Id(e)], e.f, st.hs[e.b])) ELSE st
    [] e.op = "append" -> IF st.h[Id(e)].m THEN SetNode(Id(e), [st.h[Id(e)] EXCEPT !.items = Append(@, st.hs[e.b])]) ELSE st
    [] e.op = "setitem" -> IF st.h[Id(e)].m THEN SetNode(Id(e), [st.h[Id(e)] EXCEPT !.items[e.i + 1] = st.hs[e.b]]) ELSE st
    [] e.op = "pop" -> IF st.h[Id(e)].m THEN SetNode(Id(e), [st.h[Id(e)] EXCEPT !.items = SubSeq(@, 1, Len(@) - 1)]) ELSE st
    [] OTHER -> st
Kept == {"mk0", "mkop", "mkout", "mkin", "mktx", "mkblock", "list", "from", "get", "item"}
After(e) ==       \* of a making operation, shown at once
  LET s == Do(e) IN Show(s.h, s.hs[Len(s.hs)])
(* what reading bytes makes: nothing of it was there before; only the outermost object and its lists may be mutable *)
RECURSIVE Fresh(_, _, _), FreshAll(_, _, _, _)
FreshAll(h, items, i, acc) == IF i > Len(items) THEN [h |-> h, items |-> acc]
                              ELSE LET r == Fresh(h, items[i], FALSE) IN FreshAll(r.h, items, i + 1, Append(acc, r.id))
Fresh(h, id, m) ==
  LET x == h[id] IN
  CASE x.k \in {"op", "out"} -> Put(h, [x EXCEPT !.m = m])
    [] x.k = "in" -> LET p == Fresh(h, x.ref, FALSE) IN Put(p.h, [x EXCEPT !.m = m, !.ref = p.id])
    [] x.k = "tx" -> LET i == FreshAll(h, h[x.vin].items, 1, <<>>)  a == PList(i.h, m, i.items)
                         o == FreshAll(a.h, h[x.vout].items, 1, <<>>)  b == PList(o.h, m, o.items) IN
                     Put(b.h, [x EXCEPT !.m = m, !.vin = a.id, !.vout = b.id])
Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "deser" ->        \* bytes of a handle, read back as another class: parts of its own
         LET n == Fresh(st.h, Id(e), e.m) IN
         [st |-> New(n), bad |-> Expect("tx-deserialize", Ok(Show(n.h, n.id)), e.out)]
    [] e.op \in Kept -> [st |-> Do(e), bad |-> Expect("tx-make", Ok(After(e)), e.out)]
    [] e.op \in {"set", "setref"} -> [st |-> Do(e), bad |-> Expect("tx-set", IF st.h[Id(e)].m THEN Ok("") ELSE AttrError, e.out)]
    [] e.op = "del" -> [st |-> st, bad |-> Expect("tx-set", AttrError, e.out)]
    [] e.op \in {"append", "setitem", "pop"} -> [st |-> Do(e), bad |-> Expect("tx-list", IF st.h[Id(e)].m THEN Ok("") ELSE NotItem, e.out)]
    [] e.op = "obs" -> [st |-> st, bad |-> Expect("tx-look", Ok([i \in 1..Len(st.hs) |-> Show(st.h, st.hs[i])]), e.out)]
    [] e.op = "hash" -> [st |-> st, bad |-> Expect("tx-hash", Ok(HashBytes(st.h, Id(e))), e.out)]
    [] e.op = "ser" -> [st |-> st, bad |-> Expect("tx-serialize", Ok(Bytes(st.h, Id(e))), e.out)]
    [] e.op = "eq" -> LET s == Bytes(st.h, Id(e)) = Bytes(st.h, st.hs[e.b]) IN
                      [st |-> st, bad |-> Expect("tx-eq", Ok([eq |-> s, ne |-> ~s, hash |-> s]), e.out)]
    [] e.op = "is" -> [st |-> st, bad |-> Expect("tx-same", Ok(Id(e) = st.hs[e.b]), e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [h |-> <<>>, hs |-> <<>>]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
