--------------------------------- MODULE Qap ---------------------------------
(* Rank-one constraint systems over F_p and their quotients.  A system S has *)
(* nc rows in each of the matrices a, b, c; a row is a sequence of           *)
(* <<coefficient, variable>>; the ni first variables are public and the      *)
(* first of them is the constant 1.                                          *)
EXTENDS Field, TLC
RECURSIVE UpTo2(_, _)
UpTo2(n, k) == IF k >= n THEN k ELSE UpTo2(n, 2 * k)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Size(S) == UpTo2(S.nc + S.ni, 1)
RowDot(p, row, z) == FSum(p, [e \in 1..Len(row) |-> (row[e][1] * z[row[e][2] + 1]) % p])
Satisfied(p, S, z) == \A k \in 1..S.nc : FMul(p, RowDot(p, S.a[k], z), RowDot(p, S.b[k], z)) = RowDot(p, S.c[k], z)

(* the domain: N-th roots of unity.  snarkjs takes its root from the least   *)
(* non-residue, arkworks from its fixed generator of the field's group       *)
RECURSIVE Adicity(_)
Adicity(m) == IF m % 2 = 1 THEN 0 ELSE 1 + Adicity(m \div 2)
Two(p) == Adicity(p - 1)
Odd(p) == (p - 1) \div 2^Two(p)
NonResidue(p) == CHOOSE q \in 2..(p - 1) : FPow(p, q, (p - 1) \div 2) = p - 1 /\ \A r \in 2..(q - 1) : FPow(p, r, (p - 1) \div 2) = 1
ArkGenerator(p) == 3
RootFrom(p, q, pow) == FPow(p, FPow(p, q, Odd(p)), 2^(Two(p) - pow))
CircomRoot(p, pow) == RootFrom(p, NonResidue(p), pow)
CircomShift(p, pow) == IF pow = Two(p) THEN FMul(p, NonResidue(p), NonResidue(p)) ELSE CircomRoot(p, pow + 1)
ArkRoot(p, pow) == RootFrom(p, ArkGenerator(p), pow)
Root(p, red, pow) == IF red = "circom" THEN CircomRoot(p, pow) ELSE ArkRoot(p, pow)

RECURSIVE PowersTo(_, _, _)
PowersTo(p, w, n) == IF n = 0 THEN <<>> ELSE LET t == PowersTo(p, w, n - 1) IN Append(t, IF t = <<>> THEN 1 % p ELSE (t[n - 1] * w) % p)
Powers(p, w, n) == TLCEval(PowersTo(p, w, n))

(* values of the row polynomials on the domain; the public inputs get rows   *)
(* of their own in a, so that they are bound                                 *)
ValsA(p, S, z) == TLCEval([k \in 1..Size(S) |-> IF k <= S.nc THEN RowDot(p, S.a[k], z) ELSE IF k <= S.nc + S.ni THEN z[k - S.nc] ELSE 0])
ValsOf(p, S, rows, z) == TLCEval([k \in 1..Size(S) |-> IF k <= S.nc THEN RowDot(p, rows[k], z) ELSE 0])

(* coefficients of the polynomial with the given values on the domain W      *)
Coefs(p, W, v) ==
  LET n == Len(v)
      ninv == FInv(p, n % p)
  IN TLCEval([j \in 1..n |-> FMul(p, ninv, FSum(p, [k \in 1..n |-> (v[k] * W[((-(j - 1) * (k - 1)) % n) + 1]) % p]))])
(* values on the coset shift * W                                             *)
OnCoset(p, W, shift, c) ==
  LET n == Len(c)
      sh == Powers(p, shift, n)
      d == TLCEval([j \in 1..n |-> (c[j] * sh[j]) % p])
  IN TLCEval([k \in 1..n |-> FSum(p, [j \in 1..n |-> (d[j] * W[(((j - 1) * (k - 1)) % n) + 1]) % p])])

(* circom: the values of A B - C on the odd half of the double domain, where *)
(* C interpolates the products of the rows                                   *)
CircomH(p, S, z) ==
  LET n == Size(S)
      W == Powers(p, CircomRoot(p, Log2(n)), n)
      g == CircomShift(p, Log2(n))
      a == ValsA(p, S, z)
      b == ValsOf(p, S, S.b, z)
      ab == TLCEval([k \in 1..n |-> (a[k] * b[k]) % p])
      x == OnCoset(p, W, g, Coefs(p, W, a))
      y == OnCoset(p, W, g, Coefs(p, W, b))
      c == OnCoset(p, W, g, Coefs(p, W, ab))
  IN TLCEval([k \in 1..n |-> (x[k] * y[k] - c[k]) % p])
(* libsnark: the coefficients of (A B - C) / Z, Z = x^N - 1, which exists as *)
(* a polynomial when the assignment satisfies the system                     *)
LibsnarkH(p, S, z) ==
  LET n == Size(S)
      W == Powers(p, ArkRoot(p, Log2(n)), n)
      a == Coefs(p, W, ValsA(p, S, z))
      b == Coefs(p, W, ValsOf(p, S, S.b, z))
  IN TLCEval([j \in 1..n |-> IF j = n THEN 0 ELSE FSum(p, [k \in 1..(n - j) |-> (a[j + k] * b[n + 1 - k]) % p])])
H(p, red, S, z) == IF red = "circom" THEN CircomH(p, S, z) ELSE LibsnarkH(p, S, z)
=============================================================================
