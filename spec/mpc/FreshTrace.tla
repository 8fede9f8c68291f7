----------------------------- MODULE FreshTrace -----------------------------
(* Draws of correlated randomness over a large field, with equal values      *)
(* numbered equally: no secret and no share may ever repeat, whatever the    *)
(* history of draws, forks and refills, and both sharings of a pair have the *)
(* same secret.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = 0
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
Next == /\ i <= Len(Trace) /\ i' = i + 1 /\ cov' = cov + Len(Ev.draws)
        /\ viol' = viol \o F(Ev.fatal = "", "the run failed: " \o Ev.fatal)
             \o F(\A k \in 1..Len(Ev.draws) : Ev.draws[k].secret = Ev.draws[k].secret2, "the two sharings of a pair differ in their value")
             \o F(Distinct([k \in 1..Len(Ev.draws) |-> Ev.draws[k].secret]), "a random value is handed out twice")
             \o F(Ev.draws = <<>> \/ \A q \in 1..Len(Ev.draws[1].shares) : Distinct([k \in 1..Len(Ev.draws) |-> Ev.draws[k].shares[q]]), "a share of a random value repeats")
Spec == Init /\ [][Next]_<<i, viol, cov>>
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, draws |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
