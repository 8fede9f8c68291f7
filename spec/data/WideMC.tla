------------------------------- MODULE WideMC -------------------------------
(* The digit-wise definitions of Wide are integer arithmetic modulo 2^K:     *)
(* every pair of operands, every shift, for several widths K.                *)
EXTENDS Wide
CONSTANT Ks
VARIABLES k, x, y
RECURSIVE Val(_, _)
Val(a, j) == IF j > Len(a) THEN 0 ELSE a[j] + B * Val(a, j + 1)
V(a) == Val(a, 1)
Rep(K, v) == [j \in 1..Digits(K) |-> (v \div B ^ (j - 1)) % B]
Init == k \in Ks /\ x \in 0..(2 ^ k - 1) /\ y \in 0..(2 ^ k - 1)
Next == UNCHANGED <<k, x, y>>
Spec == Init /\ [][Next]_<<k, x, y>>
M == 2 ^ k
a == Rep(k, x)
b == Rep(k, y)
RECURSIVE Len2(_)
Len2(v) == IF v = 0 THEN 0 ELSE 1 + Len2(v \div 2)
Good ==
  /\ Well(k, a) /\ V(a) = x
  /\ V(Add(k, a, b)) = (x + y) % M /\ V(Sub(k, a, b)) = (x - y) % M /\ V(Mul(k, a, b)) = (x * y) % M
  /\ V(Neg(k, a)) = (-x) % M /\ V(WNot(k, a)) = M - 1 - x
  /\ V(WXor(k, a, b)) = x ^^ y /\ V(WAnd(k, a, b)) = x & y /\ V(WOr(k, a, b)) = x | y
  /\ Cmp(a, b) = (IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0)
  /\ BitLen(a) = Len2(x)
  /\ y <= k + 3 => V(Shl(k, a, y)) = (x * 2 ^ y) % M /\ V(Shr(k, a, y)) = x \div 2 ^ y /\ Bit(a, y) = (x \div 2 ^ y) % 2
  /\ y < k => \A v \in 0..1 : V(SetBit(k, a, y, v)) = x - Bit(a, y) * 2 ^ y + v * 2 ^ y
  /\ y <= k => V(Mask(k, y)) = 2 ^ y - 1
  /\ y > 0 => IsDivMod(a, b, Rep(k, x \div y), Rep(k, x % y))
  /\ (y > 0 /\ x > y) => ~ IsDivMod(a, b, Rep(k, x \div y - 1), Rep(k, x % y))
  /\ \A c \in Ks : V(Cast(c, a)) = x % 2 ^ c /\ Fits(c, a) = (x < 2 ^ c)
=============================================================================
