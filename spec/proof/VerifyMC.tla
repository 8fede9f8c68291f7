------------------------------ MODULE VerifyMC --------------------------------
(* What the verification equations rule out.                                 *)
(* Groth16 over F_7, for every key and proof of the sample: an accepted      *)
(* proof is rejected after a change of C always, of A (B) unless B (A) is    *)
(* zero, of a public input unless the key ignores it, and with any other     *)
(* number of public inputs.                                                  *)
(* PLONK over F_97: the one equation stands for two openings, one of them of *)
(* six values; where a value is not the one committed to, few of the batch-  *)
(* ing challenges u and v let the proof pass.                                *)
EXTENDS Plonk, Randomization
CONSTANTS NG, NP
VARIABLES sys, x, on
vars == <<sys, x, on>>
G == 7
GKeys == [alpha : 0..6, beta2 : 0..6, gamma : 1..6, delta2 : 1..6, ic : [1..3 -> 0..6]]
Num(s, k) == (((s % 9973) * (k * k + 37) + (s \div 9973) * (k * 7 + 3) + k * 71) % 10007) % 97
Nums(s, from, n) == [k \in 1..n |-> Num(s, from + k)]
PCase(s) == [pts |-> Nums(s, 0, 8), pub |-> Nums(s, 8, 2), com |-> Nums(s, 10, 7), ev |-> Nums(s, 17, 6),
             ch |-> [beta |-> Num(s, 24), gamma |-> Num(s, 25), alpha |-> Num(s, 26), xi |-> Num(s, 27), v |-> Num(s, 28), u |-> IF s % 16 = 0 THEN 0 ELSE Num(s, 29)],
             x2 |-> 1 + (Num(s, 30) % 96), d |-> 1 + (Num(s, 31) % 96)]
Init == /\ on = FALSE
        /\ \/ sys = "groth16" /\ \E k \in RandomSubset(NG, GKeys) : \E a \in 0..6, b \in 0..6 : \E u \in RandomSubset(3, [1..2 -> 0..6]) : x = [k |-> k, a |-> a, b |-> b, pub |-> u]
           \/ sys = "plonk" /\ \E s \in RandomSubset(NP, 0..2000000) : x = PCase(s)
Next == ~ on /\ on' = TRUE /\ UNCHANGED <<sys, x>>
Spec == Init /\ [][Next]_vars

(* Groth16                                                                   *)
K == x.k
IC == (K.ic[1] + K.ic[2] * x.pub[1] + K.ic[3] * x.pub[2]) % G
Cs == {c \in 0..6 : Verifies(G, K, x.pub, <<x.a, x.b, c>>)}
GOne == on /\ sys = "groth16" => Cardinality(Cs) = 1
GProof == CHOOSE c \in 0..6 : Verifies(G, K, x.pub, <<x.a, x.b, c>>)
GChange == on /\ sys = "groth16" => \A c \in Cs : \A d \in 1..6 :
  /\ Verifies(G, K, x.pub, <<(x.a + d) % G, x.b, c>>) <=> x.b = 0
  /\ Verifies(G, K, x.pub, <<x.a, (x.b + d) % G, c>>) <=> x.a = 0
  /\ Verifies(G, K, <<(x.pub[1] + d) % G, x.pub[2]>>, <<x.a, x.b, c>>) <=> K.ic[2] = 0
  /\ Verifies(G, K, <<x.pub[1], (x.pub[2] + d) % G>>, <<x.a, x.b, c>>) <=> K.ic[3] = 0
GLength == on /\ sys = "groth16" => \A c \in 0..6 :
  ~ Verifies(G, K, <<>>, <<x.a, x.b, c>>) /\ ~ Verifies(G, K, <<x.pub[1]>>, <<x.a, x.b, c>>) /\ ~ Verifies(G, K, x.pub \o <<0>>, <<x.a, x.b, c>>)

(* PLONK                                                                     *)
p == 97
PK == [pts |-> x.pts, k1 |-> 5, k2 |-> 7, x2 |-> x.x2, power |-> 3, npub |-> 2]
w == CircomRoot(97, 3)
Off(ch) == ~ OnDomain(p, PK, ch) /\ ch.xi # x.x2 /\ FMul(p, ch.xi, w) # x.x2
C8 == [n |-> 8, npub |-> 2, k1 |-> 5, k2 |-> 7]
LX == Basis(p, Powers(p, w, 8), x.ch.xi)
R == RVal(p, C8, x.pts, x.ev, x.ch, PiAt(p, C8, LX, x.pub), LX[1], x.com[4], x.com[5], x.com[6], x.com[7])
(* quotients for a linearisation that is worth 0 at xi                       *)
Prf(ch) == x.com \o << FDiv(p, Opened(p, ch, <<x.com[1], x.com[2], x.com[3], x.pts[6], x.pts[7]>>, x.ev, R), (x.x2 - ch.xi) % p),
                       FDiv(p, (x.com[4] - x.ev[6]) % p, (x.x2 - FMul(p, ch.xi, w)) % p) >> \o x.ev
Acc(prf, ch) == PVerifies(p, PK, x.pub, prf, ch)
Live == on /\ sys = "plonk" /\ Off(x.ch)
PMade == Live => Acc(Prf(x.ch), x.ch)
Vary(f, k) == [f EXCEPT ![k] = (@ + x.d) % p]
(* a changed quotient: rejected but for u = 0                                *)
PQuot == Live => \E f \in {Prf(x.ch)} : ~ Acc(Vary(f, 8), x.ch) /\ (Acc(Vary(f, 9), x.ch) <=> x.ch.u = 0)
(* both quotients wrong: one u at most                                       *)
PBatchU == Live => \E f \in {Prf(x.ch)} : Cardinality({u \in 0..96 : Acc(Vary([f EXCEPT ![8] = (@ + 1) % p], 9), [x.ch EXCEPT !.u = u])}) <= 1
(* quotients fixed before v is drawn: with an opened value changed at most   *)
(* five v pass                                                               *)
Fixed(ch) == FDiv(p, R, (x.x2 - ch.xi) % p)
PBatchV == Live => LET dl == [j \in 1..5 |-> (<<x.com[1], x.com[2], x.com[3], x.pts[6], x.pts[7]>>[j] - x.ev[j]) % p]
                                   IN Cardinality({v \in 1..96 : Acc([Prf(x.ch) EXCEPT ![8] = (Fixed(x.ch) + x.d) % p], [x.ch EXCEPT !.v = v])}) <= (IF \A j \in 1..5 : dl[j] = 0 THEN 0 ELSE 5)
PLength == Live => \A u \in {<<>>, <<x.pub[1]>>, x.pub \o <<0>>} : ~ PVerifies(p, PK, u, Prf(x.ch), x.ch)
(* a public input counts, unless xi is on the domain                         *)
PPub == Live => \A k \in 1..2 : ~ PVerifies(p, PK, Vary(x.pub, k), Prf(x.ch), x.ch)
===============================================================================
