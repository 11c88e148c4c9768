----------------------------- MODULE SusToolTrace -----------------------------
(* Conformance of recorded invocations of the seal tool to SusTool.tla.       *)
(* State: the files, and the nonces used.  An invocation records its exit     *)
(* status (ok), what it wrote (out) and the files created or changed.         *)
EXTENDS SusTool, TraceBase
VARIABLES tid, l, st
HexOf(t, v) == CASE t = "seal" -> SealBytes(v) [] t = "witness" -> WitnessBytes(v)
FileHex(f) == [name |-> f.name, hex |-> HexOf(f.t, f.v)]
FileHexes(fl) == [i \in 1..Len(fl) |-> FileHex(fl[i])]
RECURSIVE With(_, _)
With(f, files) == IF files = <<>> THEN f ELSE With((Head(files).name :> [t |-> Head(files).t, v |-> Head(files).v]) @@ f, Tail(files))

NonceOf(made) == IF Len(made) = 1 /\ HexLen(made[1].hex) = 54 THEN HexSub(made[1].hex, 39, 54) ELSE ""
(* a transaction asked for by its id is one the node of the chain in use knows; on: the chain it is on, "" for any *)
Chain(e) == IF \E i \in 1..Len(e.flags) : e.flags[i] = "-t" THEN "testnet" ELSE "mainnet"
Known(e) == IF e.on \in {"", Chain(e)} THEN e.tx ELSE [e.tx EXCEPT !.lock = "bad"]
Effect(e) ==
  CASE e.c = "mkseal" -> MkSeal(st.fs, e.outpoint, e.names[1], NonceOf(e.made))
    [] e.c = "mkwitness" -> MkWitness(st.fs, Known(e), e.names, <<>>)
    [] e.c = "verify" -> Verify(st.fs, e.names[1], e.d, e.sf, e.id)
    [] e.c = "mkclosetx" -> MkCloseTx(st.fs, e.d, e.names, e.meth)
    [] e.c = "sealinfo" -> SealInfo(st.fs, e.names[1])
    [] e.c = "witnessinfo" -> WitnessInfo(st.fs, e.names[1])
    [] e.c = "bad" -> Refused

Step(e) ==
  CASE e.op = "crash" -> [st |-> st, bad |-> <<Diff("crash", "no exception", e.why)>>]
    [] e.op = "away" -> [st |-> [st EXCEPT !.fs = <<>>], bad |-> <<>>]
    [] e.op = "put" -> [st |-> [st EXCEPT !.fs = (e.name :> [t |-> e.t, v |-> e.v]) @@ @],
                        bad |-> IF e.t = "junk" THEN <<>> ELSE Require("driver", e.hex = HexOf(e.t, e.v), HexOf(e.t, e.v), e.hex)]
    [] e.op = "cmd" ->
         LET f == Effect(e) IN
         [st |-> [fs |-> IF f.ok THEN With(st.fs, f.files)
                         ELSE With(st.fs, SubSeq(f.files, 1, IF Len(e.made) > Len(f.files) THEN Len(f.files) ELSE Len(e.made))),
                  nonces |-> IF e.c = "mkseal" /\ f.ok THEN st.nonces \cup {NonceOf(e.made)} ELSE st.nonces],
          bad |-> Require("tool-status-" \o e.c, e.out.k = "exit" /\ (e.out.v = "0") = f.ok, f.ok, e.out)
                  \o Require("tool-files-" \o e.c, IF f.ok THEN e.made = FileHexes(f.files)
                             ELSE (Len(e.made) <= Len(f.files) /\ e.made = SubSeq(FileHexes(f.files), 1, Len(e.made))) \/ (e.c = "mkseal" /\ \A i \in 1..Len(e.made) : ~Exist(st.fs, e.made[i].name)),
                             FileHexes(f.files), e.made)
                  \o Require("tool-lost-" \o e.c, e.lost = <<>>, "no file changed", e.lost)
                  \o (IF f.ok /\ e.c = "mkseal" THEN Require("tool-nonce", NonceOf(e.made) \notin st.nonces, "a fresh nonce", e.made) ELSE <<>>)
                  \o (IF f.ok /\ e.c \in {"mkclosetx", "sealinfo", "witnessinfo"} THEN Require("tool-output-" \o e.c, e.says = f.out, f.out, e.says) ELSE <<>>)]

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = [fs |-> <<>>, nonces |-> {}]
TNext == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ tid' = tid
         /\ LET r == Step(Traces[tid].ev[l + 1]) IN st' = r.st /\ Report(tid, l + 1, r.bad)
TSpec == TInit /\ [][TNext]_<<tid, l, st>>
TView == <<tid, l>>
================================================================================
