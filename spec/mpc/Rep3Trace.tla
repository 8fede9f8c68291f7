------------------------------ MODULE Rep3Trace ------------------------------
(* Recorded runs of programs on the real replicated engine, replayed through *)
(* the ideal machine: after every step the components held by the parties    *)
(* must agree pairwise (party i's second component is party i-1's first) and *)
(* add up (or xor) to the machine's value; opened values must be the         *)
(* machine's at every party; an error must occur at all parties exactly      *)
(* where the machine fails; local operations do not communicate.             *)
EXTENDS Rep3, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, p, q, reg, viol, bad, cov, spur, prog
vars == <<i, p, q, reg, viol, bad, cov, spur, prog>>
Ev == Trace[i]
Init == i = 1 /\ p = 5 /\ q = 7 /\ reg = [x \in {} |-> 0] /\ viol = <<>> /\ bad = TRUE
        /\ cov = [x \in {} |-> 0] /\ spur = 0 /\ prog = 0
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
Count(c) == cov' = (c :> ((IF c \in DOMAIN cov THEN cov[c] ELSE 0) + 1)) @@ cov
Put(ds, vs) == [x \in DOMAIN reg \cup {ds[j] : j \in 1..Len(ds)} |->
                  IF \E j \in 1..Len(ds) : ds[j] = x THEN vs[CHOOSE j \in 1..Len(ds) : ds[j] = x] ELSE reg[x]]
Start == /\ Ev.ev = "start" /\ p' = Ev.p /\ q' = Ev.q /\ reg' = [x \in {} |-> 0]
         /\ LET v == F(Ev.fatal = "", "setup failed: " \o Ev.fatal) IN viol' = viol \o v /\ bad' = (v # <<>>)
         /\ prog' = prog + 1 /\ UNCHANGED <<cov, spur>>
AllOk == \A j \in 1..3 : Ev.ok[j]
NoneOk == \A j \in 1..3 : ~ Ev.ok[j]
Vals(rs) == [j \in 1..Len(rs) |-> reg[rs[j]]]
Prev(j) == IF j = 1 THEN 3 ELSE j - 1
Sh(j, k, s) == Ev.out[j][k][s]
XorLimbs(k) == [l \in 1..4 |-> (Sh(1, k, 1)[l] ^^ Sh(2, k, 1)[l]) ^^ Sh(3, k, 1)[l]]
Mod(ty) == CASE ty = "q" -> q [] ty = "k" -> 12289 [] OTHER -> p
(* a number out of the specification's range shows as -1 *)
Value(k) ==
  IF Ev.ty[k] = "b" THEN LET x == XorLimbs(k) IN IF x[4] # 0 \/ x[3] # 0 \/ x[2] >= 32768 THEN -1 ELSE x[1] + x[2] * 65536
  ELSE LET m == Mod(Ev.ty[k]) IN (((Sh(1, k, 1) + Sh(2, k, 1)) % m) + Sh(3, k, 1)) % m
StepNormal ==
  LET op == Ev.op
      va == Vals(Ev.a)
      r == IF op = "rand" THEN Ok(<<>>, <<>>) ELSE TLCEval(Rep3Result(p, op, va, Vals(Ev.b), Ev.c))
      kout == IF op = "rand" THEN 1 ELSE Len(r.out)
      wide == \A j \in 1..3 : Len(Ev.out[j]) = kout
      cons == wide /\ \A k \in 1..kout : \A j \in 1..3 : Sh(j, k, 2) = Sh(Prev(j), k, 1)
      kinds == wide /\ \A k \in 1..kout : Ev.ty[k] = OutKind(op)
      got == TLCEval([k \in 1..kout |-> Value(k)])
      v == IF ~ AllOk /\ ~ NoneOk THEN F(FALSE, op \o ": an error at some parties only")
           ELSE IF NoneOk THEN F(~ r.ok, op \o ": fails although it is defined")
           ELSE F(r.ok, op \o ": gives a result although it is undefined")
             \o F(~ r.ok \/ cons, op \o ": the parties' shares are not consistent")
             \o F(~ r.ok \/ ~ cons \/ kinds, op \o ": wrong kind of result")
             \o F(~ r.ok \/ ~ cons \/ ~ kinds \/ op = "rand" \/ Accept(p, op, va, r, got), op \o ": shares of a wrong value")
             \o F(~ r.ok \/ \A j \in 1..3 : Ev.open[j] = r.open, op \o ": wrong value opened")
             \o F(op \notin Rep3Local \/ Ev.msgs = 0, op \o ": a local operation sends messages")
      (* two random points of equal x coordinate: about two in p *)
      chance == AllOk /\ r.ok /\ op = "giszero" /\ cons /\ (\A k \in 1..kout : got[k] \in 0..1 /\ got[k] >= r.out[k])
      excused == (NoneOk /\ r.ok /\ op \in Rep3Masked) \/ (v # <<>> /\ chance)
  IN /\ viol' = IF excused THEN viol ELSE viol \o v
     /\ bad' = (v # <<>> /\ ~ chance)
     /\ spur' = IF excused THEN spur + 1 ELSE spur
     /\ reg' = IF (v = <<>> \/ chance) /\ r.ok /\ AllOk THEN Put(Ev.d, got) ELSE reg
     /\ Count(IF r.ok THEN op ELSE op \o " fails")
Step == /\ Ev.ev = "step" /\ (IF bad THEN UNCHANGED <<viol, bad, spur, reg, cov>> ELSE StepNormal)
        /\ UNCHANGED <<p, q, prog>>
End == /\ Ev.ev = "end"
       /\ viol' = IF bad THEN viol ELSE viol \o F(Ev.unread = 0, "messages left unread after the run")
       /\ UNCHANGED <<p, q, reg, bad, cov, spur, prog>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Start \/ Step \/ End)
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, spur |-> spur, events |-> Len(Trace), progs |-> prog])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
