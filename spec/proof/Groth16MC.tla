------------------------------ MODULE Groth16MC ------------------------------
(* Properties of the definitions over F_17: a proof made with a satisfying   *)
(* assignment verifies, whatever the blinding; one made with another         *)
(* assignment verifies only where the row polynomials meet at tau; the       *)
(* proofs of two witnesses for the same public inputs are the same set.      *)
EXTENDS Groth16, Randomization
CONSTANTS NRows, NZ, NT, Other
p == 17
VARIABLES red, S, z, z2, T, sat
vars == <<red, S, z, z2, T, sat>>
(* variables: the constant, one public input, two private ones               *)
AllRows == {<<<<c0, 0>>, <<c1, 1>>, <<c2, 2>>, <<c3, 3>>>> : c0 \in {0, 1}, c1 \in {0, 1, 16}, c2 \in {0, 2, 5}, c3 \in {0, 1, 16}}
Rows == RandomSubset(NRows, AllRows)
Toxic == RandomSubset(NT, [alpha : 1..4, beta : 2..4, gamma : {1, 3}, delta : {1, 2, 16}, tau : {x \in 1..16 : FPow(17, x, 8) # 1}])
(* makes z satisfy the row by its constant term                              *)
Fix(a, b, c, zz) == <<<<(c[1][1] + FMul(p, RowDot(p, a, zz), RowDot(p, b, zz)) - RowDot(p, c, zz)) % p, 0>>>> \o Tail(c)
Init == /\ red \in {"circom", "libsnark"}
        /\ z \in RandomSubset(NZ, {<<1, x, y, w>> : x \in {0, 3}, y \in 0..16, w \in {0, 1, 16}})
        /\ z2 = <<>>
        /\ sat \in BOOLEAN
        /\ \E a1 \in Rows, b1 \in Rows, c1 \in Rows, a2 \in Rows :
             S = [nc |-> 2, ni |-> 2, nw |-> 2, a |-> <<a1, a2>>, b |-> <<b1, c1>>,
                  c |-> IF sat THEN <<Fix(a1, b1, c1, z), Fix(a2, c1, b1, z)>> ELSE <<c1, b1>>]
        /\ T \in Toxic
(* another witness for the same public input, if there is one                *)
Next == /\ z2 = <<>>
        /\ \E y \in Other, w \in Other : z2' = <<1, z[2], y, w>>
        /\ Satisfied(p, S, z2') /\ Satisfied(p, S, z) /\ z2' # z
        /\ UNCHANGED <<red, S, z, T, sat>>
Spec == Init /\ [][Next]_vars
K == Setup(p, red, S, T)
RS == {<<0, 0>>, <<1, 0>>, <<0, 5>>, <<3, 16>>, <<7, 2>>}
Complete == (z2 = <<>> /\ Satisfied(p, S, z)) =>
  \E kk \in {K}, h \in {H(p, red, S, z)} : \A rs \in RS : Verifies(p, kk, <<z[2]>>, Prove(p, kk, S, z, h, rs[1], rs[2]))
Bound == (z2 = <<>> /\ Satisfied(p, S, z)) =>
  \E kk \in {K}, h \in {H(p, red, S, z)} : LET prf == Prove(p, kk, S, z, h, 3, 4) IN
     /\ BlindR(p, kk, z, prf) = 3 /\ BlindS(p, kk, z, prf) = 4
     /\ ~ Verifies(p, kk, <<>>, prf) /\ ~ Verifies(p, kk, <<z[2], 0>>, prf)
     /\ \A x \in 0..16 : Verifies(p, kk, <<x>>, prf) <=> (x = z[2] \/ kk.ic[2] = 0)
     /\ \A x \in 0..16 : Verifies(p, kk, <<z[2]>>, <<prf[1], prf[2], x>>) <=> x = prf[3]
Meet(n) == LET L == Basis(p, Powers(p, Root(p, red, Log2(n)), n), T.tau) IN
  FDot(p, L, [k \in 1..n |-> IF k <= S.nc THEN FMul(p, RowDot(p, S.a[k], z), RowDot(p, S.b[k], z)) ELSE 0]) = FDot(p, L, ValsOf(p, S, S.c, z))
Sound == (z2 = <<>> /\ red = "circom" /\ ~ Satisfied(p, S, z)) =>
  \E kk \in {K}, h \in {H(p, red, S, z)} : Verifies(p, kk, <<z[2]>>, Prove(p, kk, S, z, h, 2, 9)) <=> Meet(Size(S))
Hiding == z2 # <<>> =>
  \E kk \in {K}, h \in {H(p, red, S, z)}, h2 \in {H(p, red, S, z2)} :
    {Prove(p, kk, S, z, h, r, s) : r \in 0..16, s \in 0..16} = {Prove(p, kk, S, z2, h2, r, s) : r \in 0..16, s \in 0..16}
=============================================================================
