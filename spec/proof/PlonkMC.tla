------------------------------- MODULE PlonkMC --------------------------------
(* Properties of the definitions over F_97 with eight rows, two public       *)
(* inputs, five signals of which the last two are sums:                      *)
(*  - the wires of every satisfying assignment close the grand product, the  *)
(*    total vanishes on the domain, and the proof verifies for all blinding  *)
(*    and challenges; the blinding can be read off the proof;                *)
(*  - where a gate fails, or wires that should be equal are not, the total   *)
(*    does not vanish, and the proof verifies at few points xi only.         *)
EXTENDS Plonk, Randomization
CONSTANTS NC, NCh
p == 97
VARIABLES C, z, cheat, ch, seed, tau, on
vars == <<C, z, cheat, ch, seed, tau, on>>
Rows == 1..8
(* a circuit from a few numbers: random wiring and selectors; qc makes every *)
(* gate hold for z unless broken says otherwise                              *)
Rnd(s, k) == ((s * 31 + k * 17 + s * k * 7 + ((k * k) % 97) * 5) % 97)
Make(s, zz, broken) ==
  LET map == [w \in 1..3 |-> [r \in 1..7 |-> IF r <= 2 THEN (IF w = 1 THEN r ELSE 0) ELSE Rnd(s + w, r) % 6]]
      q0 == [k \in 1..4 |-> [r \in Rows |-> IF r <= 2 THEN (IF k = 2 THEN 1 ELSE 0) ELSE IF r = 8 THEN 0 ELSE Rnd(s + 11 * k, r) % (IF k = 1 THEN 3 ELSE 97)]]
      c0 == [n |-> 8, npub |-> 2, nvars |-> 6, adds |-> <<<<1, 3, 5, 7>>, <<4, 2, 1, 96>>>>, map |-> map,
             q |-> q0 \o <<[r \in Rows |-> 0]>>, k1 |-> 5, k2 |-> 7]
      wv == Wires(p, c0, zz)
      qc == TLCEval([r \in Rows |-> ((IF r = broken THEN 1 + (s % 90) ELSE 0) - Gate(p, c0, wv, Pub(c0, zz), r)) % p])
  IN TLCEval([c0 EXCEPT !.q = q0 \o <<qc>>])
Init == /\ z \in RandomSubset(NC, {<<1, x, y, w>> : x \in {0, 5}, y \in 0..96, w \in {0, 1, 50}})
        /\ \E s \in RandomSubset(NC, 0..9999), br \in {0, 0, 4, 8} : C = Make(s, z, br)
        /\ cheat \in {0, 1}
        /\ ch \in RandomSubset(NCh, [beta : 1..96, gamma : 0..96, alpha : 1..96, xi : {21}, v : {3, 40}, u : {0, 9, 77}])
        /\ seed \in {0, 7}
        /\ tau \in {x \in {10, 23, 40} : FPow(97, x, 8) # 1}
        /\ on = FALSE
(* the properties are evaluated in the second state, by all workers          *)
Next == ~ on /\ on' = TRUE /\ UNCHANGED <<C, z, cheat, ch, seed, tau>>
Spec == Init /\ [][Next]_vars
b == [k \in 1..11 |-> Rnd(seed, k)]
sv == SigmaVals(p, C)
(* cheat: one position does not follow its signal                            *)
wv0 == Wires(p, C, z)
Pos == CHOOSE k \in 3..7 : C.map[1][k] # 0 \/ \A m \in 3..7 : C.map[1][m] = 0
wv1 == [wv0 EXCEPT ![1][Pos] = (@ + 1) % p]
GateOk(wv) == \A r \in Rows : Gate(p, C, wv, Pub(C, z), r) = 0
K == [pts |-> PKey(p, C, sv, tau), k1 |-> C.k1, k2 |-> C.k2, x2 |-> tau, power |-> 3, npub |-> 2]
W == PDomain(p, C)
(* xi must stay off the domain and its images                                *)
Fine(wv) == DenNonzero(p, C, sv, wv, ch) /\ Solvable(p, C, ch, tau) /\ Van(p, C, FMul(p, tau, W[2])) # 0
Perms == on => \A w \in 1..3 : {Sigma(C)[k] : k \in 1..24} = 1..24
Closed == on /\ cheat = 0 /\ DenNonzero(p, C, sv, wv0, ch) => ZEnd(p, C, W, sv, wv0, ch, ZVals(p, C, W, sv, wv0, ch)) = 1
TotalOn(wv, zv, r) == Total(p, C, PolysAt(p, C, W, sv, wv, zv, b, W[r]), Pub(C, z), ch, ZAt(p, C, W, zv, b, FMul(p, W[r], W[2])))
Vanishes == on /\ DenNonzero(p, C, sv, wv0, ch) /\ cheat = 0 =>
  \E zv \in {ZVals(p, C, W, sv, wv0, ch)} : \A r \in Rows : TotalOn(wv0, zv, r) = Gate(p, C, wv0, Pub(C, z), r)
Complete == on /\ cheat = 0 /\ GateOk(wv0) /\ Fine(wv0) =>
  \E k \in {K} : \E prf \in {PProve(p, C, sv, wv0, Pub(C, z), b, ch, tau)} :
    /\ PVerifies(p, k, Pub(C, z), prf, ch)
    /\ PermDen(p, [w |-> <<prf[1], prf[2], prf[3]>>, s |-> SubSeq(k.pts, 6, 8)], ch) # 0 => Blinding(p, C, sv, wv0, Pub(C, z), ch, tau, prf) = b
    /\ \A d \in {1, 50} : /\ PVerifies(p, k, <<(z[2] + d) % p, z[3]>>, prf, ch) <=> FALSE
                          /\ ~ PVerifies(p, k, <<z[2]>>, prf, ch)
(* few points xi are accepted: the difference has degree below 40, and the   *)
(* 32 points from which the quotient was interpolated are among its zeros    *)
Xis == RandomSubset(10, {x \in 1..96 : FPow(97, x, 8) # 1 /\ FPow(97, FMul(97, x, FInv(97, 5)), 32) # 1 /\ x # tau /\ FMul(97, x, CircomRoot(97, 3)) # tau})
Few(wv) == LET hits == {x \in Xis : LET c2 == [ch EXCEPT !.xi = x] IN PVerifies(p, K, Pub(C, z), PProve(p, C, sv, wv, Pub(C, z), b, c2, tau), c2)}
           IN Cardinality(hits) <= 7
GateSound == on /\ cheat = 0 /\ seed = 0 /\ ~ GateOk(wv0) /\ DenNonzero(p, C, sv, wv0, ch) => Few(wv0)
CopySound == on /\ cheat = 1 /\ seed = 0 /\ DenNonzero(p, C, sv, wv1, ch) /\ ZEnd(p, C, W, sv, wv1, ch, ZVals(p, C, W, sv, wv1, ch)) # 1 => Few(wv1)
=============================================================================
