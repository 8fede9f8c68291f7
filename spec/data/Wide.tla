-------------------------------- MODULE Wide --------------------------------
(* Unsigned integers of a fixed number of bits as sequences of digits of W   *)
(* bits, least significant first. A value of K bits has Digits(K) digits; if *)
(* K is not a multiple of W, only the low K bits may be set.                 *)
EXTENDS Integers, Sequences, Bitwise, TLC
CONSTANT W
B == 2 ^ W
Digits(K) == (K + W - 1) \div W
Zero(n) == [j \in 1..n |-> 0]
D(a, j) == IF j >= 1 /\ j <= Len(a) THEN a[j] ELSE 0
(* keep the low K bits *)
TopMod(K) == IF K % W = 0 THEN B ELSE 2 ^ (K % W)
Trunc(K, v) == LET n == Digits(K)
                   a == TLCEval(v)
               IN TLCEval([j \in 1..n |-> IF j = n THEN D(a, j) % TopMod(K) ELSE D(a, j)])
Well(K, a) == Len(a) = Digits(K) /\ (\A j \in 1..Len(a) : a[j] >= 0 /\ a[j] < B) /\ a = Trunc(K, a)
(* carry propagation over n digits of unreduced (possibly negative) columns *)
RECURSIVE CarryFrom(_, _, _, _, _)
CarryFrom(c, n, j, carry, acc) ==
  IF j > n THEN acc
  ELSE LET s == TLCEval(D(c, j) + carry) IN CarryFrom(c, n, j + 1, TLCEval(s \div B), TLCEval(Append(acc, s % B)))
Carry(c, n) == CarryFrom(TLCEval(c), n, 1, 0, <<>>)
AddN(n, a, b) == Carry([j \in 1..n |-> D(a, j) + D(b, j)], n)
SubN(n, a, b) == Carry([j \in 1..n |-> D(a, j) - D(b, j)], n)
(* number of digits up to the highest one that is not zero *)
RECURSIVE EffFrom(_, _)
EffFrom(a, j) == IF j = 0 THEN 0 ELSE IF a[j] # 0 THEN j ELSE EffFrom(a, j - 1)
Eff(a) == EffFrom(a, Len(a))
Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y
(* a[lo] * b[c + 1 - lo] + ... + a[hi] * b[c + 1 - hi] *)
RECURSIVE ColSum(_, _, _, _, _, _)
ColSum(a, b, c, lo, hi, acc) == IF lo > hi THEN acc ELSE ColSum(a, b, c, lo + 1, hi, acc + a[lo] * b[c + 1 - lo])
MulN(n, a, b) == LET la == TLCEval(Eff(a))
                     lb == TLCEval(Eff(b))
                 IN Carry([c \in 1..n |-> IF c >= la + lb THEN 0 ELSE ColSum(a, b, c, Max(1, c + 1 - lb), Min(c, la), 0)], n)
(* operations modulo 2^K *)
Add(K, a, b) == Trunc(K, AddN(Digits(K), a, b))
Sub(K, a, b) == Trunc(K, SubN(Digits(K), a, b))
Mul(K, a, b) == Trunc(K, MulN(Digits(K), a, b))
Neg(K, a) == Sub(K, Zero(Digits(K)), a)
Ones(K) == Trunc(K, [j \in 1..Digits(K) |-> B - 1])
WXor(K, u, v) == LET a == TLCEval(u)
                    b == TLCEval(v)
                IN TLCEval([j \in 1..Digits(K) |-> D(a, j) ^^ D(b, j)])
WAnd(K, u, v) == LET a == TLCEval(u)
                    b == TLCEval(v)
                IN TLCEval([j \in 1..Digits(K) |-> D(a, j) & D(b, j)])
WOr(K, u, v) == LET a == TLCEval(u)
                    b == TLCEval(v)
                IN TLCEval([j \in 1..Digits(K) |-> D(a, j) | D(b, j)])
WNot(K, a) == WXor(K, a, Ones(K))
Bit(a, n) == (D(a, n \div W + 1) \div 2 ^ (n % W)) % 2
Shl(K, a, n) == IF n >= K THEN Zero(Digits(K))
  ELSE LET q == n \div W
           r == n % W
       IN Trunc(K, [j \in 1..Digits(K) |-> ((D(a, j - q) * 2 ^ r) % B) + D(a, j - q - 1) \div 2 ^ (W - r)])
Shr(K, a, n) == IF n >= K THEN Zero(Digits(K))
  ELSE LET q == n \div W
           r == n % W
       IN TLCEval([j \in 1..Digits(K) |-> D(a, j + q) \div 2 ^ r + ((D(a, j + q + 1) * 2 ^ (W - r)) % B)])
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, j) == IF j = 0 THEN 0 ELSE IF D(a, j) < D(b, j) THEN -1 ELSE IF D(a, j) > D(b, j) THEN 1 ELSE CmpFrom(a, b, j - 1)
Cmp(a, b) == CmpFrom(a, b, Max(Len(a), Len(b)))
Same(a, b) == Cmp(a, b) = 0
RECURSIVE DigitLen(_)
DigitLen(d) == IF d = 0 THEN 0 ELSE 1 + DigitLen(d \div 2)
RECURSIVE LenFrom(_, _)
LenFrom(a, j) == IF j = 0 THEN 0 ELSE IF a[j] # 0 THEN W * (j - 1) + DigitLen(a[j]) ELSE LenFrom(a, j - 1)
BitLen(a) == LenFrom(a, Len(a))
Mask(K, n) == Sub(K, Shl(K, <<1>>, n), <<1>>)      \* for n = K: 0 - 1
SetBit(K, a, n, v) == IF Bit(a, n) = v THEN Trunc(K, a) ELSE WXor(K, a, Shl(K, <<1>>, n))
Cast(K, a) == Trunc(K, a)
Fits(K, a) == Same(a, Trunc(K, a))
(* a = q * b + r with r < b, over the integers *)
IsDivMod(a, b, q, r) == LET n == Len(a) + Len(b) + 1
                        IN Cmp(r, b) = -1 /\ Same(a, AddN(n, MulN(n, TLCEval(q), TLCEval(b)), r))
====
