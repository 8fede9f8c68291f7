----------------------------- MODULE ViewsTrace -----------------------------
(* What one of three parties sees while a proof of one statement is made     *)
(* several times (with fresh sharings and coins). known[q][net][f] are the   *)
(* messages of party f that party q knows. Everything exchanged is a share   *)
(* of something masked or blinded, so no message and no linear               *)
(* reconstruction from one message per party may hold the same value in      *)
(* every run: such a value is a function of the witness and the key alone.   *)
EXTENDS Field, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [views |-> 0, given_up |-> 0, messages |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> "views " \o Ev.sys \o "/" \o Ev.m \o ": " \o what]>>
Singles == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>}
Triples(e) == LET h == FInv(e.p, 2) IN
              CASE e.m = "rep3" -> {<<1, 1, 1>>}
                [] e.m = "shamir" -> {<<3, e.p - 3, 1>>}
                [] OTHER -> {<<1, 1, 1>>, <<3, e.p - 3, 1>>}
Pairs(e) == LET h == FInv(e.p, 2) IN
            CASE e.m = "rep3" -> {<<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>}
              [] OTHER -> {<<2, e.p - 1, 0>>, <<FMul(e.p, 3, h), 0, e.p - h>>, <<0, 3, e.p - 2>>}
At(e, c, a, b, d, r, k) == ((IF c[1] = 0 THEN 0 ELSE (c[1] * a.v[r][k]) % e.p) + (IF c[2] = 0 THEN 0 ELSE (c[2] * b.v[r][k]) % e.p)
                           + (IF c[3] = 0 THEN 0 ELSE (c[3] * d.v[r][k]) % e.p)) % e.p
Fixed(e, c, a, b, d, len) == \E k \in 1..len : LET x == At(e, c, a, b, d, 1, k) IN \A r \in 2..4 : At(e, c, a, b, d, r, k) = x
Fits(a, b) == a.len = b.len /\ a.kind = b.kind
Rng(s) == 1..Len(s)
NoSingle(e, ms) == \A f \in 1..3 : \A x \in Rng(ms[f]) : ~ Fixed(e, <<1, 0, 0>>, ms[f][x], ms[f][x], ms[f][x], ms[f][x].len)
NoPair(e, ms) == \A c \in Pairs(e) : LET f == IF c[1] # 0 THEN 1 ELSE 2
                                         g == IF c[3] # 0 THEN 3 ELSE 2
                                     IN \A x \in Rng(ms[f]) : \A y \in Rng(ms[g]) : Fits(ms[f][x], ms[g][y]) =>
                                        ~ Fixed(e, <<c[f], c[g], 0>>, ms[f][x], ms[g][y], ms[g][y], ms[f][x].len)
NoTriple(e, ms) == \A c \in Triples(e) : \A x \in Rng(ms[1]) : \A y \in Rng(ms[2]) : Fits(ms[1][x], ms[2][y]) =>
                     \A z \in Rng(ms[3]) : Fits(ms[1][x], ms[3][z]) => ~ Fixed(e, c, ms[1][x], ms[2][y], ms[3][z], ms[1][x].len)
All(e, P(_, _)) == \A q \in 1..3 : \A n \in 1..Len(e.known[q]) : P(e, e.known[q][n])
Count(e) == FSum(1000003, [q \in 1..3 |-> FSum(1000003, [n \in 1..Len(e.known[q]) |-> Len(e.known[q][n][1]) + Len(e.known[q][n][2]) + Len(e.known[q][n][3])])])
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ cov' = [views |-> cov.views + 1, given_up |-> cov.given_up + (IF Ev.full THEN 0 ELSE 1), messages |-> cov.messages + (IF Ev.full THEN Count(Ev) ELSE 0)]
        /\ viol' = viol \o (IF ~ Ev.full THEN <<>> ELSE
                F(All(Ev, NoSingle), "a message holds the same value in every run")
             \o F(All(Ev, NoPair), "two messages combine to the same value in every run")
             \o F(All(Ev, NoTriple), "three messages combine to the same value in every run"))
Spec == Init /\ [][Next]_<<i, viol, cov>>
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
