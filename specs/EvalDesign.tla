------------------------------- MODULE EvalDesign -------------------------------
(* Design check of the script machine: every script over an alphabet of       *)
(* operations, run one operation at a time.  done: the operations executed,   *)
(* as a script without conditionals.                                          *)
EXTENDS Script, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen, Stacks, Broken
VARIABLES script, m, start, done

StackOf == <<<<>>, <<"01", "80">>, <<"02">>>>
Tx0 == [version |-> "1", vin |-> <<[prevout |-> [hash |-> HexRep("00", 32), n |-> "0"], script |-> "", seq |-> "0"]>>, vout |-> <<>>, lock |-> "0"]
Env == [script |-> script, tx |-> Tx0, idx |-> 0]
Scripts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
BStep(e, x) ==
  IF x.pc >= HexLen(e.script) THEN StepOp(e, x)
  ELSE LET o == OpAt(e.script, x.pc) IN
    CASE Broken = "lazy" /\ o.ok /\ ~o.push /\ o.op \in Disabled /\ ~Executing(x) -> [x EXCEPT !.pc = o.next]
      [] Broken = "leak" /\ o.ok /\ o.push /\ ~Executing(x) -> [x EXCEPT !.pc = o.next, !.stack = Append(@, o.data)]
      [] Broken = "else" /\ o.ok /\ o.op = 103 /\ x.exec # <<>> -> [x EXCEPT !.pc = o.next, !.exec[Len(x.exec)] = FALSE]
      [] OTHER -> StepOp(e, x)
Init == /\ \E s \in Scripts(MaxLen) : script = HexCat([i \in 1..Len(s) |-> U8(s[i])])
        /\ \E i \in Stacks : start = StackOf[i] /\ m = M0(start) /\ done = ""
Next == /\ m.st = "run"
        /\ LET n == BStep(Env, m)  o == OpAt(script, m.pc) IN
           /\ m' = n
           /\ done' = IF m.pc >= HexLen(script) \/ ~o.ok THEN done
                      ELSE IF ~Executing(m) \/ o.op \in {103, 104} THEN done
                      ELSE done \o (IF o.op \in {99, 100} THEN "75" ELSE RawOp(script, o))
        /\ UNCHANGED <<script, start>>
Spec == Init /\ [][Next]_<<script, m, start, done>>

BigStep == m.st # "run" => (LET r == Eval(Env, start) IN r.st = m.st /\ (m.st = "ok" => r.stack = m.stack))
(* what ran, ran as if the rest were not there *)
StraightLine == m.st = "ok" => (LET r == Eval([Env EXCEPT !.script = done], start) IN r.st = "ok" /\ r.stack = m.stack)
NeverDisabled == m.st = "ok" => LET p == Parse(script) IN p.ok /\ \A i \in 1..Len(p.ops) : p.ops[i].op \notin Disabled
Count(op) == Cardinality({i \in 1..HexLen(script) : HexAt(script, i) \in op})
Balanced == m.st = "ok" /\ (\A b \in Alphabet : b = 0 \/ b > 78) => Count({99, 100}) = Count({104})
(* the machine never gets stuck and never runs backwards *)
Forward == [][m'.st = "fail" \/ m'.pc > m.pc \/ m.pc >= HexLen(script)]_<<script, m, start, done>>
Bounded == m.st # "fail" => Len(m.stack) + Len(m.alt) <= MaxStack /\ m.nops <= MaxOps
Emit == (m.st = "run" /\ m.pc = 0) => PrintT(<<"PROGRAM", ToJson([script |-> script, stack |-> start])>>)
=============================================================================
