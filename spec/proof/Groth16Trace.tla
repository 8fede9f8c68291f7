---------------------------- MODULE Groth16Trace ----------------------------
(* Quotients, proofs and verdicts of the real code over F_257 and F_40961.   *)
EXTENDS Groth16, Sharing, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* runs: the blindings of the proofs made in one group of runs               *)
VARIABLES i, viol, cov, runs
vars == <<i, viol, cov, runs>>
Ev == Trace[i]
p == Ev.p
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0] /\ runs = <<>>
Name == Ev.ev \o (IF Ev.ev = "verify" THEN "" ELSE "." \o Ev.red \o (IF Ev.ev = "prove" THEN "." \o Ev.mode ELSE ""))
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Name \o ": " \o what]>>
S == [nc |-> Ev.nc, ni |-> Ev.ni, nw |-> Ev.nw, a |-> Ev.a, b |-> Ev.b, c |-> Ev.c]

(* quotients                                                                 *)
LagAt(d, x) == TLCEval([j \in 1..d |-> Interp(p, Upto(d), [k \in 1..d |-> IF k = j THEN 1 ELSE 0], x)])
Value(o) == LET n == Len(o.h[1]) IN
  IF o.m = "plain" THEN o.h[1]
  ELSE IF o.m = "rep3" THEN TLCEval([k \in 1..n |-> (o.h[1][k] + o.h[2][k] + o.h[3][k]) % p])
  ELSE LET l == LagAt(2 * o.t + 1, 0) IN TLCEval([k \in 1..n |-> FSum(p, [j \in 1..(2 * o.t + 1) |-> (l[j] * o.h[j][k]) % p])])
OnPoly(o) == o.m # "shamir" \/ \A q \in (2 * o.t + 2)..o.n : \E l \in {LagAt(2 * o.t + 1, q)} :
  \A k \in 1..Len(o.h[1]) : o.h[q][k] = FSum(p, [j \in 1..(2 * o.t + 1) |-> (l[j] * o.h[j][k]) % p])
TooBig == Log2(Size(S)) > Two(p)
QapOut(o, want, exact) ==
  IF TooBig THEN F(Len(o.errs) = Len(o.h), o.m \o ": a domain larger than the field allows is not refused")
  ELSE IF Len(o.errs) > 0 THEN F(FALSE, o.m \o ": error " \o o.errs[1])
  ELSE IF \E q \in 1..Len(o.h) : Len(o.h[q]) # Len(want) THEN F(FALSE, o.m \o ": wrong number of values")
  ELSE F(Value(o) = want, o.m \o (IF exact THEN ": not the quotient" ELSE ": differs from the plain quotient")) \o F(OnPoly(o), o.m \o ": shares off the polynomial")
RECURSIVE Outs(_, _, _)
Outs(k, want, exact) == IF k > Len(Ev.outs) THEN <<>> ELSE QapOut(Ev.outs[k], want, exact) \o Outs(k + 1, want, exact)
Qap == IF TooBig THEN Outs(1, <<>>, TRUE)
       ELSE IF Ev.red = "circom" \/ Satisfied(p, S, Ev.z) THEN LET w == H(p, Ev.red, S, Ev.z) IN Outs(1, w, TRUE)
       (* no quotient exists: shared and plain computations still agree      *)
       ELSE IF Ev.outs[1].m = "plain" /\ Ev.outs[1].errs = <<>> THEN Outs(1, Ev.outs[1].h[1], FALSE)
       ELSE F(FALSE, "plain: error")

(* proofs                                                                    *)
K == Ev.key
Good == Ev.dp = 0 /\ Ev.dw = 0
Pub == SubSeq(Ev.z, 2, Ev.ni)
Pr == Ev.proofs[1]
Known == Ev.red = "circom" \/ Satisfied(p, S, Ev.z)
Provev ==
  IF ~ Good THEN F(Ev.nerr = Ev.parties /\ Ev.panics = 0, "an assignment of the wrong length is not refused by every party")
  ELSE IF Ev.nerr > 0 THEN F(FALSE, "error: " \o Ev.err)
  ELSE F(Cardinality({Ev.proofs[q] : q \in 1..Len(Ev.proofs)}) = 1 /\ Len(Ev.proofs) = Ev.parties, "the parties have different proofs")
       \o (IF ~ Known THEN <<>> ELSE LET h == H(p, Ev.red, S, Ev.z) IN
            F(Pr = Prove(p, K, S, Ev.z, h, BlindR(p, K, Ev.z, Pr), BlindS(p, K, Ev.z, Pr)), "not the proof of the assignment for any blinding"))
       \o F(Ev.verdict = (IF Verifies(p, K, Pub, Pr) THEN "accept" ELSE "reject"), "the verifier's verdict " \o Ev.verdict \o " is not that of the equation")
       \o (IF Ev.toxic = <<>> THEN <<>> ELSE
            F(Assert(Setup(p, Ev.red, S, Ev.toxic[1]) = K, "the key of the job is not the one of the setup"), "")
            \o F(~ Satisfied(p, S, Ev.z) \/ Ev.verdict = "accept", "the proof of a satisfying assignment does not verify"))
Blind == IF Ev.ev = "prove" /\ Good /\ Ev.nerr = 0 /\ Ev.group > 0 THEN <<[g |-> Ev.group, r |-> BlindR(p, K, Ev.z, Pr), s |-> BlindS(p, K, Ev.z, Pr)]>> ELSE <<>>
(* with 40 runs over 257 values, fewer than 24 different ones do not occur   *)
(* by chance (probability below 1e-9)                                        *)
Spread(l) == LET n == Len(l) IN n < 40 \/
  (/\ Cardinality({l[k].r : k \in 1..n}) >= 24 /\ Cardinality({l[k].s : k \in 1..n}) >= 24
   /\ Cardinality({(l[k].r - l[k].s) % p : k \in 1..n}) >= 24
   /\ Cardinality({(l[k].r + l[k].s) % p : k \in 1..n}) >= 24
   /\ Cardinality({k \in 1..(n - 1) : l[k].r = l[k + 1].s}) <= 12
   /\ Cardinality({FDiv(p, l[k].r, l[k].s) : k \in {x \in 1..n : l[x].s # 0}}) >= 20)
Fresh == IF i < Len(Trace) /\ Trace[i + 1].ev = "prove" /\ Trace[i + 1].group = Ev.group /\ Trace[i + 1].job = Ev.job THEN <<>>
         ELSE F(Spread(runs \o Blind), "the blinding values are not fresh in every run")

Verify == F(\A k \in 1..Len(Ev.cases) : LET c == Ev.cases[k] IN Verifies(p, K, c.pub, c.proof) <=> c.verdict = "accept", "the verdict is not that of the equation")
          \o F(\A k \in 1..Len(Ev.cases) : Ev.cases[k].verdict # "panic", "verification panics")
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o (IF Ev.ev = "qap" THEN Qap ELSE IF Ev.ev = "prove" THEN Provev \o (IF Ev.group > 0 THEN Fresh ELSE <<>>) ELSE Verify)
        /\ runs' = IF Ev.ev = "prove" /\ Ev.group > 0 /\ i < Len(Trace) /\ Trace[i + 1].job = Ev.job /\ Trace[i + 1].group = Ev.group THEN runs \o Blind ELSE <<>>
        /\ cov' = (Name :> ((IF Name \in DOMAIN cov THEN cov[Name] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
