----------------------------- MODULE GrandTrace -----------------------------
(* The running products of the PLONK permutation argument, computed by the   *)
(* real code on shared values. Every party's result is a share of            *)
(* a1[1]a2[1]a3[1] ... a1[k]a2[k]a3[k] (or of its inverse). Grand shows that *)
(* what the protocol opens is uniform when every position has its own mask;  *)
(* here all positions hold the same factors, so whatever one party can       *)
(* combine from the vectors it sent and received (any linear reconstruction) *)
(* must look random from position to position: the same value at many        *)
(* positions is a function of the witness.                                   *)
EXTENDS Field, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [grand |-> 0, combinations |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> "grand: " \o what]>>
Prod(e) == LET f[k \in 0..Len(e.a1)] == IF k = 0 THEN 1 ELSE FMul(e.p, f[k - 1], FMul(e.p, e.a1[k], FMul(e.p, e.a2[k], e.a3[k]))) IN f
Want(e) == LET f == Prod(e) IN [k \in 1..Len(e.a1) |-> IF e.inv THEN FInv(e.p, f[k]) ELSE f[k]]
(* Shamir: party q holds the value at q *)
RECURSIVE BinTo(_, _)
BinTo(n, k) == IF k = 0 THEN 1 ELSE (BinTo(n, k - 1) * (n - k + 1)) \div k
(* value at 0 of the polynomial of degree below m through (j, y[j]), j = 1..m *)
AtZero(p, m, y) == FSum(p, [j \in 1..m |-> FMul(p, (IF j % 2 = 1 THEN 1 ELSE -1) * BinTo(m, j) % p, y[j])])
ShamirOk(e) == /\ Len(e.out) = e.n /\ \A q \in 1..e.n : Len(e.out[q][1]) = Len(e.a1)
               /\ LET w == Want(e) IN \A k \in 1..Len(e.a1) :
                     LET y == [q \in 1..e.n |-> e.out[q][1][k]] IN
                     /\ AtZero(e.p, e.t + 1, y) = w[k]
                     /\ \A s \in 1..(e.n - e.t - 1) : (* all shares lie on that polynomial: differences of order t + 1 vanish *)
                          FSum(e.p, [j \in 0 + 1..e.t + 2 |-> FMul(e.p, (IF j % 2 = 1 THEN 1 ELSE -1) * BinTo(e.t + 1, j - 1) % e.p, y[s + j - 1])]) = 0
Rep3Ok(e) == /\ Len(e.out) = 3 /\ \A q \in 1..3 : Len(e.out[q][1]) = Len(e.a1) /\ Len(e.out[q][2]) = Len(e.a1)
             /\ LET w == Want(e) IN \A k \in 1..Len(e.a1) :
                   /\ (e.out[1][1][k] + e.out[2][1][k] + e.out[3][1][k]) % e.p = w[k]
                   /\ \A q \in 1..3 : e.out[q][2][k] = e.out[(IF q = 1 THEN 3 ELSE q - 1)][1][k]
(* the vectors party q knows of party f: those it got from it, or (its own) those it sent *)
Known(e, q, f) == IF f = q THEN {e.vecs[q][o][k] : <<o, k>> \in {<<o, k>> \in (1..e.n) \X (1..40) : k <= Len(e.vecs[q][o])}}
                  ELSE {e.vecs[f][q][k] : k \in 1..Len(e.vecs[f][q])}
Coeffs(e) == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>} \cup
             (IF e.m = "rep3" THEN {<<1, 1, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>}
              ELSE LET h == FInv(e.p, 2) IN {<<3, -3, 1>>, <<2, -1, 0>>, <<FMul(e.p, 3, h), 0, e.p - h>>, <<0, 3, -2>>})
Pick(e, q, f, c) == IF c[f] = 0 THEN {<<>>} ELSE Known(e, q, f)
Comb(e, c, u, v, w) == [k \in 1..Len(e.a1) |-> ((IF u = <<>> THEN 0 ELSE ((c[1] % e.p) * u[k]) % e.p) + (IF v = <<>> THEN 0 ELSE ((c[2] % e.p) * v[k]) % e.p)
                                               + (IF w = <<>> THEN 0 ELSE ((c[3] % e.p) * w[k]) % e.p)) % e.p]
(* chance alone makes a few values equal: 0.01 pairs of 24, 0.8 pairs of 257 *)
Varied(e, s) == Cardinality({s[k] : k \in 1..Len(s)}) >= Len(s) - (IF Len(s) < 40 THEN 6 ELSE Len(s) \div 6)
Combos(e, q, c) == Cardinality(Pick(e, q, 1, c)) * Cardinality(Pick(e, q, 2, c)) * Cardinality(Pick(e, q, 3, c))
Masked(e) == \A q \in 1..3 : \A c \in Coeffs(e) : \A u \in Pick(e, q, 1, c) : \A v \in Pick(e, q, 2, c) : \A w \in Pick(e, q, 3, c) :
               Varied(e, Comb(e, c, u, v, w))
Count(e) == LET g(q) == FSum(1000003, [c \in 1..1 |-> LET cs == IF e.m = "rep3" THEN <<1, 1, 1>> ELSE <<3, -3, 1>> IN Combos(e, q, cs)]) IN g(1) + g(2) + g(3)
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ cov' = [grand |-> cov.grand + 1, combinations |-> cov.combinations + (IF Ev.equal THEN Count(Ev) ELSE 0)]
        /\ viol' = viol \o F(Ev.nerr = 0, "the parties report an error: " \o Ev.err)
             \o (IF Ev.nerr # 0 THEN <<>> ELSE
                  F(IF Ev.m = "rep3" THEN Rep3Ok(Ev) ELSE ShamirOk(Ev), "the shares are not those of the running products")
                  \o F(~ Ev.equal \/ Masked(Ev), "one party can combine what it sent and received into a value that depends on the witness alone"))
Spec == Init /\ [][Next]_<<i, viol, cov>>
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
