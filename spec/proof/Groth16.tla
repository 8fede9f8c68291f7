------------------------------- MODULE Groth16 -------------------------------
(* Groth16 in the exponents: every group element is its discrete logarithm.  *)
EXTENDS Qap
(* Lagrange basis of the domain W (n-th roots of unity) at x                 *)
Basis(p, W, x) ==
  LET n == Len(W)
      zx == (FPow(p, x, n) - 1) % p
      ninv == FInv(p, n % p)
  IN TLCEval([k \in 1..n |-> IF zx = 0 THEN (IF W[k] = x THEN 1 ELSE 0)
                             ELSE FMul(p, FMul(p, zx, ninv), FMul(p, W[k], FInv(p, (x - W[k]) % p)))])
ColDot(p, rows, L, v) == FSum(p, [k \in 1..Len(rows) |-> FMul(p, L[k], FSum(p, [e \in 1..Len(rows[k]) |-> IF rows[k][e][2] = v THEN rows[k][e][1] ELSE 0]))])
(* the key for toxic waste T = [alpha, beta, gamma, delta, tau]              *)
Setup(p, red, S, T) ==
  LET n == Size(S)
      pow == Log2(n)
      L == Basis(p, Powers(p, Root(p, red, pow), n), T.tau)
      nv == S.ni + S.nw
      A == TLCEval([v \in 1..nv |-> (ColDot(p, S.a, L, v - 1) + (IF v <= S.ni THEN L[S.nc + v] ELSE 0)) % p])
      B == TLCEval([v \in 1..nv |-> ColDot(p, S.b, L, v - 1)])
      C == TLCEval([v \in 1..nv |-> ColDot(p, S.c, L, v - 1)])
      K == TLCEval([v \in 1..nv |-> (T.beta * A[v] + ((T.alpha * B[v]) % p) + C[v]) % p])
      gi == FInv(p, T.gamma)
      di == FInv(p, T.delta)
      L2 == Basis(p, Powers(p, CircomRoot(p, pow + 1), 2 * n), T.tau)
      ts == Powers(p, T.tau, n)
      zt == (FPow(p, T.tau, n) - 1) % p
  IN [alpha |-> T.alpha, beta1 |-> T.beta, beta2 |-> T.beta, gamma |-> T.gamma, delta1 |-> T.delta, delta2 |-> T.delta,
      ic |-> [v \in 1..S.ni |-> FMul(p, K[v], gi)], lq |-> [v \in 1..S.nw |-> FMul(p, K[S.ni + v], di)],
      aq |-> A, bq1 |-> B, bq2 |-> B,
      hq |-> IF red = "circom" THEN [k \in 1..n |-> FMul(p, L2[2 * k], di)]
             ELSE [j \in 1..(n - 1) |-> FMul(p, FMul(p, ts[j], zt), di)]]

MinLen(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
DotMin(p, a, b) == FSum(p, [k \in 1..MinLen(a, b) |-> (a[k] * b[k]) % p])
PrA(p, K, z, r) == (K.alpha + DotMin(p, K.aq, z) + ((r * K.delta1) % p)) % p
PrB(p, K, z, s) == (K.beta2 + DotMin(p, K.bq2, z) + ((s * K.delta2) % p)) % p
PrB1(p, K, z, s) == (K.beta1 + DotMin(p, K.bq1, z) + ((s * K.delta1) % p)) % p
PrC(p, K, S, z, h, r, s) ==
  (DotMin(p, K.lq, SubSeq(z, S.ni + 1, Len(z))) + DotMin(p, K.hq, h) + FMul(p, s, PrA(p, K, z, r))
   + FMul(p, r, PrB1(p, K, z, s)) - FMul(p, FMul(p, r, s), K.delta1)) % p
Prove(p, K, S, z, h, r, s) == <<PrA(p, K, z, r), PrB(p, K, z, s), PrC(p, K, S, z, h, r, s)>>
(* the blinding a proof was made with                                        *)
BlindR(p, K, z, prf) == FDiv(p, (prf[1] - PrA(p, K, z, 0)) % p, K.delta1)
BlindS(p, K, z, prf) == FDiv(p, (prf[2] - PrB(p, K, z, 0)) % p, K.delta2)
(* pub without the constant                                                  *)
Verifies(p, K, pub, prf) ==
  /\ Len(pub) + 1 = Len(K.ic)
  /\ FMul(p, prf[1], prf[2]) =
       (FMul(p, K.alpha, K.beta2) + FMul(p, (K.ic[1] + DotMin(p, pub, Tail(K.ic))) % p, K.gamma) + FMul(p, prf[3], K.delta2)) % p
=============================================================================
