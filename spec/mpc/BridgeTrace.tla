----------------------------- MODULE BridgeTrace -----------------------------
(* Replicated or additive shares of three parties turned into Shamir shares  *)
(* by the real code: the shares must lie on a line whose value at zero is the *)
(* secret, squares computed with them by the Shamir engine must be right,    *)
(* and turning replicated shares is local.                                   *)
EXTENDS Sharing, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
vars == <<i, viol, cov>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Ev.what \o ": " \o what]>>
Vals == [k \in 1..Len(Ev.vals) |-> Ev.vals[k] % Ev.p]
Opened == IF Ev.short THEN <<>> ELSE IF Ev.what = "point" THEN Vals ELSE [k \in 1..Len(Vals) |-> FMul(Ev.p, Vals[k], Vals[k])]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET m == Ev.shares
               full == Len(m) = 3 /\ \A j \in 1..3 : Len(m[j]) = Len(Vals)
           IN viol' = viol
                \o F(Ev.fatal = "", "failed: " \o Ev.fatal)
                \o F(Ev.fatal # "" \/ full, "wrong number of shares")
                \o F(~ full \/ \A k \in 1..Len(Vals) : ShOk(Ev.p, 1, Col(m, k)), "the shares do not lie on a line")
                \o F(~ full \/ \A k \in 1..Len(Vals) : ShValue(Ev.p, 1, Col(m, k)) = Vals[k], "the shares are of another value")
                \o F(Ev.fatal # "" \/ \A j \in 1..3 : Ev.open[j] = Opened, "the shares give wrong results when used")
                \o F(Ev.what \in {"add", "addvec"} \/ Ev.msgs = 0, "turning replicated shares sends messages")
        /\ cov' = (Ev.what :> ((IF Ev.what \in DOMAIN cov THEN cov[Ev.what] ELSE 0) + Len(Vals))) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
