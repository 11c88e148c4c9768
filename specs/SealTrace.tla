------------------------------ MODULE SealTrace ------------------------------
(* Conformance of recorded uses of transaction proofs, seals, witnesses and   *)
(* globally unique maps to Seal.tla.  A handle is [t, v, orig, whole, did]:   *)
(* an object, or a pruned copy (orig), or what was read back (did: the        *)
(* statements that were evaluated before it was written).  Clauses: tx-*,     *)
(* seal-*, gumap-*.                                                           *)
EXTENDS Seal, TraceBase
VARIABLES tid, l, st

None == [t |-> "none", v |-> "", orig |-> 0, whole |-> FALSE, did |-> {}, done |-> {}]
Whole(t, v) == [None EXCEPT !.t = t, !.v = v, !.whole = TRUE]
GC == Traces[tid].gc
V(e) == st[e.a].v
T(e) == st[e.a].t
Rejected == Exc({"Exception"})

HashOf(t, v) == CASE t = "txproof" -> TxProofHash(v)
                  [] t = "txin" -> PartHash(TagTxIn, v) [] t = "txout" -> PartHash(TagTxOut, v)
                  [] t = "outpoint" -> OutPointProofHash(v)
                  [] t = "seal" -> SealHash(v)
                  [] t = "witness" -> WitnessHash(v)
                  [] t = "node" -> NodeHash(GC, v)
Written(t, v) == CASE t = "txproof" -> WTx(v) [] t \in {"txin", "txout"} -> WPart(v) [] t = "outpoint" -> WOutPoint(v)
                   [] t = "seal" -> WSeal(v) [] t = "witness" -> WWitness(v) [] t = "node" -> WNode(GC, v)
Area(t) == CASE t \in {"txproof", "txin", "txout", "outpoint"} -> "tx-" [] t \in {"seal", "witness"} -> "seal-" [] t = "node" -> "gumap-"

(* the answer to a statement about the whole thing *)
Accept(b) == IF b THEN Ok("") ELSE Rejected
Item(parts, i) == IF Exists(parts, i) THEN Ok(PartAt(parts, i)) ELSE Rejected
Truth(e, t, v) ==
  CASE e.s = "verify" -> (CASE t = "txproof" -> Ok("")
                            [] t = "txin" -> Accept(Exists(v.tx.vin, v.i))
                            [] t = "txout" -> Accept(Exists(v.tx.vout, v.i))
                            [] t = "witness" -> Accept(Closes(v))
                            [] t = "node" -> Accept(NodeVerifies(GC, v)))
    [] e.s = "vhash" -> Accept(Witnesses(v, e.d))
    [] e.s = "txin"  -> Item(v.tx.vin, v.i)
    [] e.s = "txout" -> Item(v.tx.vout, v.i)
    [] e.s = "tx"    -> Ok(IF t = "txproof" THEN v ELSE v.tx)
    [] e.s = "i"     -> Ok(v.i)
    [] e.s = "seal"  -> Ok(SealHash(IF t = "node" THEN SealOf(v) ELSE v.seal))
    [] e.s = "prefix" -> Ok(IF v.k = "L" THEN e.kp ELSE v.prefix)
(* available however much is pruned *)
Always(e, t, v) ==
  CASE e.op = "hash" -> HashOf(t, v)
    [] e.op = "txhash" -> Txid(v)
Stmt(e) == <<e.s, e.d>>
RECURSIVE Base(_)
Base(h) == IF st[h].orig = 0 THEN h ELSE Base(st[h].orig)
RECURSIVE Chain(_)
Chain(h) == IF st[h].orig = 0 THEN {h} ELSE {h} \cup Chain(st[h].orig)
Mark(h, s) == [i \in 1..Len(st) |-> IF i \in Chain(h) /\ st[i].orig # 0 THEN [st[i] EXCEPT !.done = @ \cup {s}] ELSE st[i]]

(* a map node made by closing the seal of an unused one: the seal and digest  *)
(* handed to the maker of witnesses *)
ClosedWith(e) == [seal |-> SealHash(V(e).seal), digest |-> Contents(GC, e.node)]

Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "skip" -> [st |-> Append(st, None), bad |-> <<>>]
    [] e.op = "make" -> [st |-> Append(st, Whole(e.t, e.v)), bad |-> Expect(Area(e.t) \o "make", Ok(HashOf(e.t, e.v)), e.out)]
    [] e.op = "close" -> [st |-> st, bad |-> Expect("gumap-close", Ok(ClosedWith(e)), e.out)]
    [] e.op = "prune" -> [st |-> Append(st, [None EXCEPT !.t = T(e), !.v = V(e), !.orig = e.a]), bad |-> Expect(Area(T(e)) \o "prune", Ok(HashOf(T(e), V(e))), e.out)]
    [] e.op = "reload" -> [st |-> Append(st, IF st[e.a].orig = 0 THEN [st[e.a] EXCEPT !.done = {}]
                                             ELSE [None EXCEPT !.t = T(e), !.v = V(e), !.did = st[e.a].done]),
                           bad |-> Expect(Area(T(e)) \o "reload", Ok(HashOf(T(e), V(e))), e.out)]
    [] e.op \in {"hash", "txhash"} -> [st |-> st, bad |-> Expect(Area(T(e)) \o e.op, Ok(Always(e, T(e), V(e))), e.out)]
    [] e.op = "write" -> [st |-> st, bad |-> Require(Area(T(e)) \o "write", ~st[e.a].whole \/ Matches(Ok(Written(T(e), V(e))), e.out), Written(T(e), V(e)), e.out)]
    [] e.op = "eq" -> [st |-> st, bad |-> Expect(Area(T(e)) \o "eq", Ok(HashOf(T(e), V(e)) = HashOf(st[e.b].t, st[e.b].v)), e.out)]
    [] e.op = "template" -> [st |-> st, bad |-> IF e.meth \in {"op_return", "p2sh", "p2pkh"}
                                               THEN Expect("seal-template", Ok(Template(e.seals, e.d, e.meth, e.dust)), e.out)
                                               ELSE Expect("seal-template", Rejected, e.out)]
    [] e.op = "say" ->
         LET t == Truth(e, T(e), V(e))  b == st[Base(e.a)]
             must == b.whole \/ Stmt(e) \in b.did
             ok == Matches(t, e.out) \/ (~must /\ Matches(Rejected, e.out)) IN
         [st |-> IF Matches(t, e.out) /\ e.out.k = "ok" THEN Mark(e.a, Stmt(e)) ELSE st,
          bad |-> Require(Area(T(e)) \o e.s, ok, t, e.out)]
    [] e.op = "carry" ->        \* said by somebody who has the bytes and nothing else
         LET t == Truth(e, T(e), V(e))  x == st[e.a]
             must == IF x.orig = 0 THEN x.whole \/ Stmt(e) \in x.did ELSE Stmt(e) \in x.done
             ok == Matches(t, e.out) \/ (~must /\ Matches(Rejected, e.out)) IN
         [st |-> st, bad |-> Require(Area(T(e)) \o e.s, ok, t, e.out)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = <<>>
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
=============================================================================
