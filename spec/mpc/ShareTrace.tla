----------------------------- MODULE ShareTrace -----------------------------
(* Dealt Shamir shares and reconstructions of the real code: the shares are  *)
(* a sharing of degree at most t of exactly the values dealt, and a          *)
(* reconstruction gives the values if at least t + 1 shares are used at      *)
(* their own positions, and is an error if there are too few shares, or a    *)
(* different number of shares and positions, or vectors of unequal length.   *)
EXTENDS Sharing, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
vars == <<i, viol, cov>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Ev.what \o ": " \o what]>>
Defined(x) == /\ Len(x.sh) = Len(x.co) /\ Len(x.sh) >= Ev.t + 1
              /\ (x.cut = <<>> \/ \A j \in 1..Len(x.cut) : x.cut[j] = Len(Ev.vals))
(* shares claimed for other positions: no statement beyond "no crash" *)
Straight(x) == x.sh = x.co
TestOk(x) == IF ~ Defined(x) THEN x.res = <<-1>> ELSE Straight(x) => x.res = [k \in 1..Len(Ev.vals) |-> Ev.vals[k] % Ev.p]
Zeros == [k \in 1..Ev.t |-> 0]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET m == Ev.shares
               full == Len(m) = Ev.n /\ \A j \in 1..Len(m) : Len(m[j]) = Len(Ev.vals)
           IN viol' = viol
                \o F(full, "wrong number of shares")
                \o F(~ full \/ \A k \in 1..Len(Ev.vals) : ShOk(Ev.p, Ev.t, Col(m, k)), "the shares do not lie on a polynomial of degree t")
                \o F(~ full \/ \A k \in 1..Len(Ev.vals) : ShValue(Ev.p, Ev.t, Col(m, k)) = Ev.vals[k] % Ev.p, "the shares are of another value")
                \o F(Ev.what # "zeros" \/ ~ full \/ SubSeq(Col(m, 1), Ev.n - Ev.t + 1, Ev.n) = Zeros, "the share at a zero position is not zero")
                \o F(\A x \in {Ev.tests[j] : j \in 1..Len(Ev.tests)} : ~ Defined(x) \/ TestOk(x), "reconstruction gives a wrong value")
                \o F(\A x \in {Ev.tests[j] : j \in 1..Len(Ev.tests)} : Defined(x) \/ TestOk(x), "reconstruction from too few or mismatching shares gives a value")
        /\ cov' = (Ev.what :> ((IF Ev.what \in DOMAIN cov THEN cov[Ev.what] ELSE 0) + Len(Ev.tests))) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
