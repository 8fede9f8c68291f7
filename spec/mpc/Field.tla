-------------------------------- MODULE Field --------------------------------
(* Arithmetic modulo a small prime p (p * p must fit in 31 bits).           *)
EXTENDS Integers, Sequences
FAdd(p, a, b) == (a + b) % p
FSub(p, a, b) == (a - b) % p
FMul(p, a, b) == (a * b) % p
FNeg(p, a) == (-a) % p
RECURSIVE FPow(_, _, _)
FPow(p, a, e) == IF e = 0 THEN 1 % p
                 ELSE LET h == FPow(p, a, e \div 2)
                          s == (h * h) % p
                      IN IF e % 2 = 1 THEN (s * a) % p ELSE s
FInv(p, a) == FPow(p, a, p - 2)
FDiv(p, a, b) == (a * FInv(p, b)) % p
RECURSIVE FSumTo(_, _, _)
FSumTo(p, s, k) == IF k = 0 THEN 0 ELSE (FSumTo(p, s, k - 1) + s[k]) % p
FSum(p, s) == FSumTo(p, s, Len(s))
RECURSIVE FProdTo(_, _, _)
FProdTo(p, s, k) == IF k = 0 THEN 1 ELSE (FProdTo(p, s, k - 1) * s[k]) % p
FProd(p, s) == FProdTo(p, s, Len(s))
FDot(p, a, b) == FSum(p, [j \in 1..Len(a) |-> (a[j] * b[j]) % p])
(* c[1] + c[2] x + c[3] x^2 + ... *)
RECURSIVE HornerFrom(_, _, _, _)
HornerFrom(p, c, x, j) == IF j > Len(c) THEN 0 ELSE (c[j] + x * HornerFrom(p, c, x, j + 1)) % p
PolyEval(p, c, x) == HornerFrom(p, c, x, 1)
(* the value at x of the polynomial of degree < Len(xs) through (xs[j], ys[j]) *)
Interp(p, xs, ys, x) ==
  FSum(p, [j \in 1..Len(xs) |->
    LET oth == [k \in 1..Len(xs) |-> k]
        num == FProd(p, [k \in 1..Len(xs) |-> IF k = j THEN 1 ELSE (x - xs[k]) % p])
        den == FProd(p, [k \in 1..Len(xs) |-> IF k = j THEN 1 ELSE (xs[j] - xs[k]) % p])
    IN (((ys[j] * num) % p) * FInv(p, den)) % p])
=============================================================================
