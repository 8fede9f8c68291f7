----------------------------- MODULE ShamirTrace -----------------------------
(* Recorded runs of Shamir programs on the real engine, replayed through the *)
(* ideal Machine: after every step the shares of all parties must be a       *)
(* degree-t sharing of the machine's register, opened values must be the     *)
(* machine's, errors must occur at all parties exactly where the machine     *)
(* fails, and local operations must not communicate.                         *)
EXTENDS Machine, Sharing, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, p, n, t, reg, viol, bad, cov, spur, prog
vars == <<i, p, n, t, reg, viol, bad, cov, spur, prog>>
Ev == Trace[i]
Init == i = 1 /\ p = 5 /\ n = 3 /\ t = 1 /\ reg = [x \in {} |-> 0] /\ viol = <<>> /\ bad = TRUE
        /\ cov = [x \in {} |-> 0] /\ spur = 0 /\ prog = 0
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
Count(c) == cov' = (c :> ((IF c \in DOMAIN cov THEN cov[c] ELSE 0) + 1)) @@ cov
Put(ds, vs) == [x \in DOMAIN reg \cup {ds[j] : j \in 1..Len(ds)} |->
                  IF \E j \in 1..Len(ds) : ds[j] = x THEN vs[CHOOSE j \in 1..Len(ds) : ds[j] = x] ELSE reg[x]]
Start == /\ Ev.ev = "start" /\ p' = Ev.p /\ n' = Ev.n /\ t' = Ev.t /\ reg' = [x \in {} |-> 0]
         /\ LET v == F(Ev.fatal = "", "setup failed: " \o Ev.fatal) IN viol' = viol \o v /\ bad' = (v # <<>>)
         /\ prog' = prog + 1 /\ UNCHANGED <<cov, spur>>
AllOk == \A j \in 1..n : Ev.ok[j]
NoneOk == \A j \in 1..n : ~ Ev.ok[j]
Vals(rs) == [j \in 1..Len(rs) |-> reg[rs[j]]]
Width(m, k) == \A j \in 1..n : Len(m[j]) = k
StepNormal ==
  LET op == Ev.op
      r == IF op \in Random THEN Ok(<<>>, <<>>) ELSE Result(p, op, Vals(Ev.a), Vals(Ev.b), Ev.c)
      kout == IF op = "rand" THEN 1 ELSE IF op = "pair" THEN 2 ELSE Len(r.out)
      deg(k) == IF op = "pair" /\ k = 2 THEN 2 * t ELSE t
      wide == Width(Ev.out, kout)
      cons == wide /\ \A k \in 1..kout : ShOk(p, deg(k), Col(Ev.out, k))
      got == [k \in 1..kout |-> ShValue(p, deg(k), Col(Ev.out, k))]
      v == IF ~ AllOk /\ ~ NoneOk THEN F(FALSE, op \o ": an error at some parties only")
           ELSE IF NoneOk THEN F(~ r.ok, op \o ": fails although it is defined")
           ELSE F(r.ok, op \o ": gives a result although it is undefined")
             \o F(~ r.ok \/ cons, op \o ": the parties' shares are not a sharing of the right degree")
             \o F(~ r.ok \/ ~ cons \/ op \in Random \/ got = r.out, op \o ": shares of a wrong value")
             \o F(~ r.ok \/ \A j \in 1..n : Ev.open[j] = r.open, op \o ": wrong value opened")
             \o F(op # "pair" \/ ~ cons \/ got[1] = got[2], "pair: the two sharings differ in their value")
             \o F(op \notin Local \/ Ev.msgs = 0, op \o ": a local operation sends messages")
      excused == NoneOk /\ r.ok /\ op \in Masked
  IN /\ viol' = IF excused THEN viol ELSE viol \o v
     /\ bad' = (v # <<>>)
     /\ spur' = IF excused THEN spur + 1 ELSE spur
     /\ reg' = IF v = <<>> /\ r.ok THEN Put(Ev.d, got) ELSE reg
     /\ Count(IF r.ok THEN op ELSE op \o " fails")
Step == /\ Ev.ev = "step" /\ (IF bad THEN UNCHANGED <<viol, bad, spur, reg, cov>> ELSE StepNormal)
        /\ UNCHANGED <<p, n, t, prog>>
End == /\ Ev.ev = "end"
       /\ viol' = IF bad THEN viol ELSE viol \o F(Ev.unread = 0, "messages left unread after the run")
       /\ UNCHANGED <<p, n, t, reg, bad, cov, spur, prog>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Start \/ Step \/ End)
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, spur |-> spur, events |-> Len(Trace), progs |-> prog])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
