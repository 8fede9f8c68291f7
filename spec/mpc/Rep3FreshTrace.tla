--------------------------- MODULE Rep3FreshTrace ---------------------------
(* Histories of draws and forks over large domains, equal values numbered    *)
(* equally. Every party i has two sources: its own, shared with the next      *)
(* party, and the previous party's. After any history:                       *)
(*  masks of the three parties add up to zero,                               *)
(*  replicated draws are consistent (second value = first of the previous),  *)
(*  permutations are permutations of the input, common to their two holders, *)
(*  what the garblers share is equal at both and unknown to the evaluator,   *)
(*  and no drawn value ever repeats, across draws, parties and forks.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
Prev(j) == IF j = 1 THEN 3 ELSE j - 1
Masks == {"maskf", "maskfv", "maske", "maskev", "maskp"}
Replicated == {"fes", "rand", "els", "ecs", "uint", "seeds", "sides", "perm"}
Garblers == {"shared", "delta"}
DrawOk(d) ==
  CASE d.op \in Masks -> d.zero /\ \A j \in 1..3 : Len(d.vals[j]) = Len(d.vals[1])
    [] d.op \in Replicated -> d.perm /\ \A j \in 1..3 : Len(d.vals[j]) = 2 /\ d.vals[j][2] = d.vals[Prev(j)][1]
    [] d.op \in Garblers -> d.vals[1] = <<>> /\ Len(d.vals[2]) = 1 /\ d.vals[2] = d.vals[3]
    [] OTHER -> TRUE
(* the distinct values a draw hands out; short permutations may coincide *)
RECURSIVE Flat(_, _)
Flat(s, k) == IF k = 0 THEN <<>> ELSE Flat(s, k - 1) \o s[k]
News(d) == CASE d.op \in Masks \/ d.op = "own" -> Flat(d.vals, 3)
             [] d.op = "perm" -> IF d.n < 25 THEN <<>> ELSE <<d.vals[1][1], d.vals[2][1], d.vals[3][1]>>
             [] d.op \in Replicated -> <<d.vals[1][1], d.vals[2][1], d.vals[3][1]>>
             [] OTHER -> d.vals[2]
RECURSIVE All(_, _, _)
All(ds, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN News(ds[lo])
                   ELSE All(ds, lo, (lo + hi) \div 2) \o All(ds, (lo + hi) \div 2 + 1, hi)
Distinct(s) == Cardinality({s[k] : k \in 1..Len(s)}) = Len(s)
Ops == {Ev.draws[k].op : k \in 1..Len(Ev.draws)}
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o F(Ev.fatal = "", "the run failed: " \o Ev.fatal)
             \o F(\A k \in 1..Len(Ev.draws) : DrawOk(Ev.draws[k]), "correlated randomness does not match between the parties")
             \o F((\E k \in 1..Len(Ev.draws) : ~ DrawOk(Ev.draws[k])) \/ Distinct(TLCEval(All(Ev.draws, 1, Len(Ev.draws)))), "a random value is handed out twice")
        /\ cov' = [o \in DOMAIN cov \cup Ops |-> (IF o \in DOMAIN cov THEN cov[o] ELSE 0) + Cardinality({k \in 1..Len(Ev.draws) : Ev.draws[k].op = o})]
Spec == Init /\ [][Next]_<<i, viol, cov>>
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
