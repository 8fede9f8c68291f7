------------------------------ MODULE VmTrace ------------------------------
(* Runs of the real virtual machine, on every backend, against what the      *)
(* program means.                                                            *)
EXTENDS Circom, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES i, cur, viol, cov
vars == <<i, cur, viol, cov>>
Ev1 == Trace[i]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev1.job, what |-> what]>>
(* what each set of inputs leads to; and whether the code that was run is the program's *)
Meaning(j) ==
  LET J == Jobs[j + 1]
      pr == [p |-> J.p, nsig |-> J.prog.nsig, main |-> J.prog.main, funs |-> J.prog.funs, templs |-> J.prog.templs]
      K == J.prog.consts
      res == [k \in 1..Len(J.inputs) |-> TLCEval(Witness(pr, J.inputs[k]))]
  IN [job |-> j,
      coded |-> /\ \A f \in DOMAIN pr.funs : pr.funs[f].code = FunCode(K, pr.funs[f])
                /\ \A t \in DOMAIN pr.templs : pr.templs[t].code = TemplCode(K, pr.templs[t]),
      fail |-> IF \E k \in 1..Len(res) : res[k].fail = Undef THEN Undef ELSE IF \E k \in 1..Len(res) : res[k].fail # 0 THEN Failed ELSE 0,
      wit |-> [k \in 1..Len(res) |-> IF res[k].fail # 0 THEN <<>> ELSE [x \in 1..Len(J.prog.w2s) |-> res[k].sig[J.prog.w2s[x] + 1]]]]
Prev(j) == IF j = 1 THEN 3 ELSE j - 1
Judge(m, e) ==
  LET J == Jobs[e.job + 1]
      p == J.p
      b == e.backend
      n == Len(e.ok)
      T == J.prog.templs[J.prog.main]
      k0 == 1 + T.outs + J.amount
      wit == m.wit[e.elem]
      rest == Len(J.prog.w2s) - k0
      allok == \A j \in 1..n : e.ok[j]
      value(x) == CASE b \in {"plain", "bplain"} -> e.wit[1][x][1]
                    [] b \in {"rep3", "rep3y", "brep3"} -> (e.wit[1][x][1] + e.wit[2][x][1] + e.wit[3][x][1]) % p
                    [] OTHER -> Interp(p, [j \in 1..(J.sh[2] + 1) |-> j], [j \in 1..(J.sh[2] + 1) |-> e.wit[j][x][1]], 0)
      consistent(x) == CASE b \in {"rep3", "rep3y", "brep3"} -> \A j \in 1..3 : e.wit[j][x][2] = e.wit[Prev(j)][x][1]
                         [] b = "shamir" -> \A l \in 1..n : Interp(p, [j \in 1..(J.sh[2] + 1) |-> j], [j \in 1..(J.sh[2] + 1) |-> e.wit[j][x][1]], l) = e.wit[l][x][1]
                         [] OTHER -> TRUE
      wide == \A j \in 1..n : Len(e.wit[j]) = rest /\ Len(e.public[j]) = k0
      cons == wide /\ \A x \in 1..rest : consistent(x)
      named == IF J.amount + T.outs = 0 THEN <<>> ELSE [x \in 1..T.outs |-> wit[1 + x]]
      why == IF Len(e.why) = 0 THEN "" ELSE " (" \o e.why[1] \o ")"
  IN CASE m.fail = Undef -> <<>>
       [] m.fail = Failed -> F(\A j \in 1..n : ~ e.ok[j], b \o ": there is no witness, but the run succeeds")
       [] ~ allok -> F(FALSE, b \o ": there is a witness, but the run fails" \o why)
       [] OTHER -> F(wide, b \o ": wrong number of public or shared values")
                   \o F(~ wide \/ cons, b \o ": the parties' shares are not consistent")
                   \o F(~ wide \/ \A j \in 1..n : e.public[j] = SubSeq(wit, 1, k0), b \o ": wrong public values")
                   \o F(~ wide \/ \A j \in 1..n : e.out[j] = named, b \o ": wrong named output")
                   \o F(~ cons \/ \A x \in 1..rest : value(x) = wit[k0 + x], b \o ": wrong witness")
Kind(m, e) == e.backend \o (IF m.fail = Undef THEN " undefined" ELSE IF m.fail = Failed THEN " failing" ELSE "")
Init == i = 1 /\ cur = [job |-> -1] /\ viol = <<>> /\ cov = [x \in {} |-> 0]
Step(m) == \E v \in {Judge(m, Ev1)} :
  /\ viol' = viol \o v \o (IF cur.job = m.job THEN <<>> ELSE F(m.coded, "the code that was run is not the program's"))
  /\ cur' = m
  /\ cov' = LET c == Kind(m, Ev1) IN (c :> ((IF c \in DOMAIN cov THEN cov[c] ELSE 0) + 1)) @@ cov
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \E m \in {IF cur.job = Ev1.job THEN cur ELSE Meaning(Ev1.job)} : Step(m)
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
