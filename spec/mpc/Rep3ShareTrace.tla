--------------------------- MODULE Rep3ShareTrace ---------------------------
(* Dealt replicated and additive shares and reconstructions of the real code *)
(* ("values", "cuts": how many elements of its vector each party gives):     *)
(* party i's second component is party i-1's first, the components add up    *)
(* (or xor) to the values, vectors of equal length are reconstructed to their *)
(* values, vectors of different length are refused.                          *)
EXTENDS Rep3, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
vars == <<i, viol, cov>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Ev.what \o ": " \o what]>>
Prev(j) == IF j = 1 THEN 3 ELSE j - 1
Additive == Ev.what \in {"additive", "oneadditive", "additiveseeded", "oneadditiveseeded", "maybeadditive"}
Num(x) == IF x[4] # 0 \/ x[3] # 0 \/ x[2] >= 32768 THEN -1 ELSE x[1] + x[2] * 65536
Xor3(a, b, c) == Num([l \in 1..4 |-> (a[l] ^^ b[l]) ^^ c[l]])
Sum(k) == LET a == Ev.shares[1][k][1]  b == Ev.shares[2][k][1]  c == Ev.shares[3][k][1]
          IN IF Ev.what = "binary" THEN Xor3(a, b, c) ELSE (((a + b) % Ev.p) + c) % Ev.p
Vals == [k \in 1..Len(Ev.vals) |-> Ev.vals[k] % Ev.p]
Even(c) == c[1] = c[2] /\ c[2] = c[3]
Cut(c, k) == IF k > c THEN c ELSE k
Wanted(c) == IF Even(c) THEN SubSeq(Vals, 1, Cut(Len(Vals), c[1])) ELSE <<-1>>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET m == Ev.shares
               full == Len(m) = 3 /\ \A j \in 1..3 : Len(m[j]) = Len(Ev.vals)
               nc == Len(Ev.cuts)
           IN viol' = viol
                \o F(full, "wrong number of shares")
                \o F(~ full \/ Additive \/ \A k \in 1..Len(Ev.vals) : \A j \in 1..3 : m[j][k][2] = m[Prev(j)][k][1], "the holders of a component disagree")
                \o F(~ full \/ \A k \in 1..Len(Ev.vals) : Sum(k) = Vals[k], "the components are of another value")
                \o F(IF Additive THEN Ev.res = <<Vals>> ELSE \A k \in 1..nc : k <= Len(Ev.res) /\ Ev.res[k] = Wanted(Ev.cuts[k]),
                     "reconstruction gives a wrong value or does not refuse vectors of different lengths")
                \o F(Additive \/ \A k \in (nc + 1)..Len(Ev.res) : Ev.res[k] = <<-3>> \/ Ev.res[k] = Vals, "reconstruction of a single value is wrong")
        /\ cov' = (Ev.what :> ((IF Ev.what \in DOMAIN cov THEN cov[Ev.what] ELSE 0) + Len(Ev.res))) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
