----------------------------- MODULE Ring3Trace -----------------------------
(* Recorded runs of programs on the real ring engine, its conversions, one-  *)
(* hot vectors, tables and sorting, replayed through the machine of module   *)
(* Ring3: after every step the components held by the parties must agree     *)
(* pairwise (party i's second is party i-1's first) and add up (or xor) to   *)
(* the machine's value; opened values must be the machine's everywhere;      *)
(* local operations do not communicate; no message is left unread.           *)
EXTENDS Ring3, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, p, q, reg, viol, bad, cov
vars == <<i, p, q, reg, viol, bad, cov>>
Ev == Trace[i]
Init == i = 1 /\ p = <<>> /\ q = <<>> /\ reg = [x \in {} |-> 0] /\ viol = <<>> /\ bad = TRUE /\ cov = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
Start == /\ Ev.ev = "start" /\ p' = Ev.p /\ q' = Ev.q /\ reg' = [x \in {} |-> 0]
         /\ LET v == F(Ev.fatal = "", "setup failed: " \o Ev.fatal) IN viol' = viol \o v /\ bad' = (v # <<>>)
         /\ UNCHANGED cov
Put(ds, vs) == [x \in DOMAIN reg \cup {ds[j] : j \in 1..Len(ds)} |->
                  IF \E j \in 1..Len(ds) : ds[j] = x THEN vs[CHOOSE j \in 1..Len(ds) : ds[j] = x] ELSE reg[x]]
Vals(rs) == [j \in 1..Len(rs) |-> reg[rs[j]]]
Prev(j) == IF j = 1 THEN 3 ELSE j - 1
Sh(j, k, s) == Ev.out[j][k][s]
Xor3(a, b, c) == [l \in 1..Len(a) |-> (a[l] ^^ D(b, l)) ^^ D(c, l)]
Value(k) == LET t == Ev.ty[k]
                a == Sh(1, k, 1)
                b == Sh(2, k, 1)
                c == Sh(3, k, 1)
            IN CASE t = "r" -> Trunc(Ev.tk[k], Sum3(a, b, c))
                 [] t \in {"x", "u", "nu"} -> Xor3(a, b, c)
                 [] t = "h" -> Red(q, Sum3(a, b, c))
                 [] OTHER -> Red(p, Sum3(a, b, c))
Replicated(t) == t \notin {"nu", "nf", "ng"}
Text(w) == IF Len(w) = 0 THEN "" ELSE " (" \o w[1] \o ")"
Name(e) == e.op \o (IF e.op \in {"cast", "r2f", "f2r", "a2b", "b2a", "rlt", "rle", "rgt", "rge", "req", "rneq"} THEN "." \o ToString(e.f) ELSE "")
Judge(e, va, vb) ==
  LET rel == e.op \in Relational
      r == IF rel THEN Out(<<>>) ELSE TLCEval(Result(e, va, vb, p))
      n == IF rel THEN Count(e, va, vb) ELSE Len(r.out)
      kind(j) == IF rel THEN KindAt(e, va, j) ELSE r.out[j]
      allok == \A j \in 1..3 : e.ok[j]
      wide == \A j \in 1..3 : Len(e.out[j]) = n
      kinds == wide /\ \A j \in 1..n : e.ty[j] = kind(j).t /\ e.tk[j] = kind(j).k
      cons == kinds /\ \A j \in 1..n : Replicated(e.ty[j]) => \A x \in 1..3 : Sh(x, j, 2) = Sh(Prev(x), j, 1)
      got == IF cons THEN TLCEval([j \in 1..n |-> Value(j)]) ELSE <<>>
      right == IF rel THEN Accept(e, va, vb, got) ELSE \A j \in 1..n : Same(got[j], r.out[j].v)
      opens == \A x \in 1..3 : Len(e.open[x]) = Len(r.open) /\ \A j \in 1..Len(r.open) : Same(e.open[x][j], r.open[j])
      v == IF ~ allok THEN F(FALSE, Name(e) \o ": fails although it is defined" \o Text(e.why))
           ELSE F(wide, Name(e) \o ": wrong number of results")
             \o F(~ wide \/ kinds, Name(e) \o ": wrong kind of result")
             \o F(~ kinds \/ cons, Name(e) \o ": the parties' shares are not consistent")
             \o F(~ cons \/ right, Name(e) \o ": shares of a wrong value")
             \o F(opens, Name(e) \o ": wrong value opened")
             \o F(~ IsLocal(e) \/ e.msgs = 0, Name(e) \o ": a local operation sends messages")
  IN <<v, got>>
(* bound by a quantifier: evaluated once *)
StepNormal == \E r \in {Judge(Ev, TLCEval(Vals(Ev.a)), TLCEval(Vals(Ev.b)))} :
  /\ viol' = viol \o r[1]
  /\ bad' = (r[1] # <<>>)
  /\ reg' = IF r[1] = <<>> THEN Put(Ev.d, r[2]) ELSE reg
  /\ cov' = LET c == Name(Ev) IN (c :> ((IF c \in DOMAIN cov THEN cov[c] ELSE 0) + 1)) @@ cov
Step == /\ Ev.ev = "step" /\ (IF bad THEN UNCHANGED <<viol, bad, reg, cov>> ELSE StepNormal)
        /\ UNCHANGED <<p, q>>
End == /\ Ev.ev = "end"
       /\ viol' = IF bad THEN viol ELSE viol \o F(Ev.unread = 0, "messages left unread after the run")
       /\ UNCHANGED <<p, q, reg, bad, cov>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Start \/ Step \/ End)
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
