------------------------------ MODULE PlonkTrace -------------------------------
(* Proofs and verdicts of the real PLONK code over F_40961.                  *)
EXTENDS Plonk, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* runs: the blindings of the proofs made in one group of runs; chance: the  *)
(* accepted proofs of false statements                                       *)
VARIABLES i, viol, cov, runs
vars == <<i, viol, cov, runs>>
Ev == Trace[i]
p == Ev.p
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0] /\ runs = <<>>
Name == Ev.ev \o (IF Ev.ev = "pprove" THEN "." \o Ev.mode ELSE "")
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Name \o ": " \o what]>>
K == Ev.vk

(* verdicts: "any" where a division by zero is met                           *)
Want(c, ch) == IF Len(c.pub) = K.npub /\ OnDomain(p, K, ch) THEN "any" ELSE IF PVerifies(p, K, c.pub, c.proof, ch) THEN "accept" ELSE "reject"
ChOf(c) == Challenges(p, K.xy, c.pub, c.xy, SubSeq(c.proof, 10, 15))
CaseOk(c) == \E w \in {Want(c, ChOf(c))} : w = "any" \/ ((w = "accept" <=> c.verdict = "accept") /\ c.verdict # "panic")
Bad(c) == IF CaseOk(c) THEN 0 ELSE 1
RECURSIVE FirstBad(_)
FirstBad(k) == IF k > Len(Ev.cases) THEN 0 ELSE IF CaseOk(Ev.cases[k]) THEN FirstBad(k + 1) ELSE k
(* the first made cases were made to satisfy the equation                    *)
Made == F(\A k \in 1..Ev.made : Ev.cases[k].verdict = "accept", "a proof that satisfies the equation is not accepted")
Verify == LET k == FirstBad(1) IN IF k = 0 THEN <<>> ELSE F(FALSE, "case " \o ToString(k) \o ": the verdict " \o Ev.cases[k].verdict \o " is not that of the equation")

(* proofs                                                                    *)
C == [n |-> Ev.N, npub |-> Ev.npub, nvars |-> Ev.nvars, adds |-> Ev.adds, map |-> Ev.map, q |-> Ev.q, k1 |-> Ev.k1, k2 |-> Ev.k2]
Good == Ev.dp = 0 /\ Ev.dw = 0 /\ Ev.bad = ""
Pr == Ev.proofs[1]
Case == Ev.cases[1]
(* everything a proof of true wires shows beside the equation                *)
Exact(sv, wv, ch, b) ==
  LET want == PProve(p, C, sv, wv, Pub(C, Ev.z), b, ch, Ev.tau)
  IN F(want = Pr, "not the proof of the assignment for any blinding")
Provev ==
  IF ~ Good THEN F(Ev.nerr = Ev.parties /\ Ev.panics = 0,
                   (IF Ev.bad = "" THEN "an assignment of the wrong length" ELSE "a malformed key (" \o Ev.bad \o ")")
                   \o " is not refused by every party" \o (IF Ev.panics > 0 THEN " but panics" ELSE ""))
  ELSE IF Ev.nerr > 0 THEN F(FALSE, "error in every attempt: " \o Ev.err)
  ELSE F(Cardinality({Ev.proofs[q] : q \in 1..Len(Ev.proofs)}) = 1 /\ Len(Ev.proofs) = Ev.parties, "the parties have different proofs")
       \o Verify
       \o F(Case.verdict = "accept" \/ ~ PSatisfied(p, C, Ev.z) \/ OnDomain(p, K, ChOf(Case)), "the proof of a satisfying assignment does not verify")
       \o (IF Ev.N > 16 \/ ~ PSatisfied(p, C, Ev.z) THEN <<>>
           ELSE LET sv == SigmaVals(p, C)
                    wv == Wires(p, C, Ev.z)
                    ch == ChOf(Case)
                IN F(Assert(PKey(p, C, sv, Ev.tau) = K.pts, "the key of the job is not the one of the circuit"), "")
                   \o (IF ~ Solvable(p, C, ch, Ev.tau) THEN <<>> ELSE Exact(sv, wv, ch, Blinding(p, C, sv, wv, Pub(C, Ev.z), ch, Ev.tau, Pr))))
Usable == Ev.ev = "pprove" /\ Good /\ Ev.nerr = 0 /\ Ev.group > 0 /\ Solvable(p, C, ChOf(Case), Ev.tau)
Blind == IF Usable THEN <<Blinding(p, C, SigmaVals(p, C), Wires(p, C, Ev.z), Pub(C, Ev.z), ChOf(Case), Ev.tau, Pr)>> ELSE <<>>
(* each of the eleven values takes many values in 30 runs or more, and no    *)
(* two of them are equal, or in a fixed relation, more than now and then;    *)
(* chance of more than 4 repetitions among 40 of 40961 values: below 1e-9    *)
Spread(l) == LET n == Len(l) IN n < 20 \/
  /\ \A x \in 1..11 : Cardinality({l[k][x] : k \in 1..n}) >= n - 4
  /\ \A x \in 1..11, y \in 1..11 : x < y =>
       /\ Cardinality({(l[k][x] - l[k][y]) % p : k \in 1..n}) >= n - 4
       /\ Cardinality({(l[k][x] + l[k][y]) % p : k \in 1..n}) >= n - 4
       /\ Cardinality({FMul(p, l[k][x], FInv(p, l[k][y])) : k \in 1..n}) >= n - 4
  /\ \A x \in 1..11, y \in 1..11 : Cardinality({k \in 1..(n - 1) : l[k][x] = l[k + 1][y]}) <= 3
More == i < Len(Trace) /\ Trace[i + 1].ev = "pprove" /\ Trace[i + 1].group = Ev.group /\ Trace[i + 1].job = Ev.job
Fresh == IF More THEN <<>> ELSE F(Spread(TLCEval(runs \o Blind)), "the blinding values are not fresh in every run")

Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o (IF Ev.ev = "pprove" THEN Provev \o (IF Ev.group > 0 THEN Fresh ELSE <<>>) ELSE Verify \o Made)
        /\ runs' = IF Ev.ev = "pprove" /\ Ev.group > 0 /\ More THEN runs \o Blind ELSE <<>>
        /\ cov' = (Name :> ((IF Name \in DOMAIN cov THEN cov[Name] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
