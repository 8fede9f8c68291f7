-------------------------------- MODULE Hist --------------------------------
(* Judges observed view frequencies against what the specification proves    *)
(* (ShamirPrivacy, Rep3Privacy): a "uniform" histogram must be uniform over  *)
(* its cells, two "same" histograms must come from one distribution.         *)
(* Statistic: chi squared; an alarm needs a deviation of more than twelve    *)
(* standard deviations plus 60.                                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = 0
RECURSIVE SumSq(_, _)
SumSq(s, k) == IF k = 0 THEN 0 ELSE SumSq(s, k - 1) + s[k] * s[k]
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE Sum(s, k - 1) + s[k]
(* balanced recursion: histograms have thousands of cells *)
RECURSIVE SumRange(_, _, _)
SumRange(s, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN s[lo]
                       ELSE SumRange(s, lo, (lo + hi) \div 2) + SumRange(s, (lo + hi) \div 2 + 1, hi)
Total(s) == SumRange(s, 1, Len(s))
Exceeds(x, df) == LET e == x - df - 60 IN e > 40000 \/ (e > 0 /\ e * e > 288 * df)
MulDiv(a, b, c) == (a \div c) * b + ((a % c) * b) \div c
(* cells: number of possible cells; counts: the occupied ones *)
Cap(x) == IF x > 4000 THEN 4000 ELSE IF x < -4000 THEN -4000 ELSE x
(* many events per cell: squared deviations from the expectation, to stay within the integers of TLC *)
UniformBig(e) == LET nn == Total(e.counts)
                     ex == nn \div e.cells
                     dv == Total([k \in 1..Len(e.counts) |-> LET x == Cap(e.counts[k] - ex) IN (100 * x * x) \div ex]) \div 100
                 IN nn = e.runs /\ Len(e.counts) = e.cells /\ ~ Exceeds(dv, e.cells)
Uniform(e) == IF e.runs \div e.cells > 500 /\ e.runs > 30000 THEN UniformBig(e) ELSE
              LET nn == Total(e.counts)
                  sq == Total([k \in 1..Len(e.counts) |-> e.counts[k] * e.counts[k]])
              IN nn = e.runs /\ Len(e.counts) <= e.cells /\ ~ Exceeds(MulDiv(sq, e.cells, nn) - nn, e.cells)
(* pairs: <<count in the one, count in the other>> per occupied cell *)
Same(e) == LET st == Total([k \in 1..Len(e.pairs) |->
                     LET x == Cap(e.pairs[k][1] - e.pairs[k][2]) IN (100 * x * x) \div (e.pairs[k][1] + e.pairs[k][2])]) \div 100
           IN ~ Exceeds(st, Len(e.pairs))
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Ev.name \o ": " \o what]>>
Next == /\ i <= Len(Trace) /\ i' = i + 1 /\ cov' = cov + Ev.runs
        /\ viol' = viol \o (IF Ev.mode = "uniform"
              THEN F(Uniform(Ev), "not uniformly distributed")
              ELSE F(Same(Ev), "the distribution depends on the secrets"))
Spec == Init /\ [][Next]_<<i, viol, cov>>
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, runs |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
