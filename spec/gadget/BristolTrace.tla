---------------------------- MODULE BristolTrace ----------------------------
(* Descriptions parsed, levelled and evaluated by the real code.             *)
EXTENDS Bristol, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
vars == <<i, viol, cov>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
C == Parse(Ev.lines)
Same(e, c) == e.ands = Ands(c) /\ e.inputs = Bundles(0, c.ins) /\ e.outputs = OutWires(c) /\ e.nin = NIn(c) /\ e.wires = c.wires
ParseEv == LET good == WellFormed(Ev.lines) IN
  F(Ev.st # "panic", "reading a description panics")
  \o F(Ev.st = "panic" \/ good \/ Ev.st = "error", "a malformed description is accepted")
  \o F(Ev.st = "panic" \/ ~ good \/ Ev.st = "ok", "a well-formed description is refused")
  \o F(Ev.st # "ok" \/ ~ good \/ Same(Ev, C), "the circuit read is not the one described")
  \o F(Ev.st # "ok" \/ ~ good \/ (Formed(Ev.written) /\ Parse(Ev.written) = C), "the description written is not the one read")
LevelEv == F(Ev.st = "ok", "grouping into levels panics") \o F(Ev.st # "ok" \/ Same(Ev, C), "the levelled circuit is another one")
One(e, want, c, what) == F(e.st = "ok", "evaluating " \o what \o " fails")
  \o F(e.st # "ok" \/ e.unset = 0, "evaluating " \o what \o " reads a wire before it is written")
  \o F(e.st # "ok" \/ e.out = want, "evaluating " \o what \o " gives wrong outputs")
  \o F(e.st # "ok" \/ e.ands = Ands(c), "evaluating " \o what \o " runs another number of AND gates")
EvalEv == LET want == TLCEval(Result(C, Ev.x)) IN One(Ev.gates, want, C, "gate by gate") \o One(Ev.levels, want, C, "level by level")
ShapeEv == F(Ev.gates = "error" /\ Ev.levels = "error", "inputs of a wrong shape are not refused")
FileEv == F(Ev.st = "ok" /\ Ev.gates.st = "ok" /\ Ev.levels.st = "ok", Ev.name \o ": a shipped circuit is not read or evaluated")
  \o F(Ev.st # "ok" \/ (Ev.gates.out = Ev.levels.out /\ Ev.gates.unset + Ev.levels.unset = 0 /\ Ev.gates.ands = Ev.levels.ands /\ Ev.gates.ands = Ev.ands), Ev.name \o ": the evaluation orders differ")
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o (CASE Ev.ev = "parse" -> ParseEv [] Ev.ev = "level" -> LevelEv [] Ev.ev = "eval" -> EvalEv [] Ev.ev = "shape" -> ShapeEv [] Ev.ev = "file" -> FileEv)
        /\ LET key == Ev.ev \o (IF Ev.ev = "parse" THEN "." \o Ev.st ELSE "") IN cov' = (key :> ((IF key \in DOMAIN cov THEN cov[key] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
