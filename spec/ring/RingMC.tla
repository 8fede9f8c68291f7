------------------------------- MODULE RingMC -------------------------------
(* Replicated sharing of numbers modulo 2^K, at the level of components:     *)
(* x = x1 + x2 + x3 (arithmetic) or x1 ^^ x2 ^^ x3 (binary). The local       *)
(* formulas of the engine lead to components of the right result whatever    *)
(* the components of the operands are.                                        *)
(*  1  product: every party's local terms and the zero share add up           *)
(*  2  arithmetic to binary: two chained prefix adders on the components;     *)
(*     binary to arithmetic: subtraction of two random components             *)
(*  3  comparisons and the equality test on the borrow bit                    *)
(*  4  injection of single bits: x + y - 2 x y, twice                          *)
(*  5  narrowing components is local; widening them is not, and goes through   *)
(*     bits: the wider binary sharing of the same bits                         *)
(*  6  division, bit by bit, as in the garbled circuits                        *)
(*  7  limbs: cutting a number in pieces and joining them                      *)
EXTENDS Rep3Bits
CONSTANTS MaxK, MaxDivK, MaxLimbK
VARIABLES on, k, x, y
vars == <<on, k, x, y>>
M(w) == 2 ^ w
Low(v, w) == v % M(w)
Init == on = 0 /\ k = 0 /\ x = <<0, 0, 0>> /\ y = <<0, 0, 0>>
Next == /\ on = 0
        /\ \/ on' \in {1, 2, 5} /\ k' \in 1..MaxK /\ x' \in [1..3 -> 0..(M(k') - 1)] /\ y' = <<0, 0, 0>>
           \/ on' = 4 /\ k' \in 1..MaxK /\ x' \in [1..3 -> {0, 1}] /\ y' = <<0, 0, 0>>
           \/ on' = 3 /\ k' \in 1..MaxDivK /\ x' \in {<<v, 0, 0>> : v \in 0..(M(k') - 1)} /\ y' = <<0, 0, 0>>
           \/ on' = 6 /\ k' \in 1..MaxDivK /\ x' \in {<<v, 0, 0>> : v \in 0..(M(k') - 1)} /\ y' = <<0, 0, 0>>
           \/ on' = 7 /\ k' \in 1..MaxLimbK /\ x' \in {<<v, 0, 0>> : v \in 0..(M(k') - 1)} /\ y' = <<0, 0, 0>>
Spec == Init /\ [][Next]_vars
Sum(v, w) == Low(v[1] + v[2] + v[3], w)
XorOf(v) == (v[1] ^^ v[2]) ^^ v[3]
Prev(j) == IF j = 1 THEN 3 ELSE j - 1
(* party j holds components j and j - 1 *)
LocalMul(a, b, j) == a[j] * b[j] + a[j] * b[Prev(j)] + a[Prev(j)] * b[j]
ProductRight == on = 1 => \A b \in [1..3 -> 0..(M(k) - 1)] :
                  Low(LocalMul(x, b, 1) + LocalMul(x, b, 2) + LocalMul(x, b, 3), k) = Low(Sum(x, k) * Sum(b, k), k)
Adder(a, b, w) == Low(Ks(a, b, w), w)
ToBits == on = 2 => Adder(Adder(x[1], x[2], k), x[3], k) = Sum(x, k)
(* binary to arithmetic: random components z1, z2; the third is opened to two parties *)
FromBits == on = 2 => \A z1 \in 0..(M(k) - 1), z2 \in {0, 1, M(k) - 1, M(k) \div 2} :
              LET third == Low(M(k) * 2 + XorOf(x) - z1 - z2, k) IN Sum(<<z1, z2, third>>, k) = XorOf(x)
Flag(c) == IF c THEN 1 ELSE 0
CompareRight == on = 3 => \A v \in 0..(M(k) - 1) :
                  /\ Ge(x[1], v, k) = Flag(x[1] >= v)
                  /\ 1 - Ge(v, x[1], k) = Flag(x[1] > v)
                  /\ Zero(x[1] ^^ v, k) = Flag(x[1] = v)
AXor(a, b, w) == Low(a + b + 2 * M(w) - 2 * a * b, w)
InjectRight == on = 4 => AXor(AXor(x[1], x[2], k), x[3], k) = XorOf(x)
Narrow == on = 5 => \A w \in 1..k : Sum(<<Low(x[1], w), Low(x[2], w), Low(x[3], w)>>, w) = Low(Sum(x, k), w)
NarrowBits == on = 5 => \A w \in 1..k : XorOf(<<Low(x[1], w), Low(x[2], w), Low(x[3], w)>>) = Low(XorOf(x), w)
(* the components themselves, read in the wider ring, do not add up to the value unless there is no carry *)
WidenLocal == on = 5 => (Sum(x, k + 1) = Sum(x, k) <=> Low((x[1] + x[2] + x[3]) \div M(k), 1) = 0)
WidenBits == on = 5 => XorOf(x) < M(k)
(* ------------------------------------------------------------- division *)
(* acc is kept in as many bits as steps were made; the borrow of the partial subtraction is the quotient's bit *)
RECURSIVE DivFrom(_, _, _, _, _, _)
DivFrom(a, d, w, j, acc, q) ==
  IF j < 0 THEN <<q, acc>>
  ELSE LET n == w - j                                     \* bits of the accumulator in this step
           t == Low(2 * acc, n) + ((a \div M(j)) % 2)
           ge == Ge(t, d, w)
           rest == Low(t + M(w) - d, w)
       IN DivFrom(a, d, w, j - 1, TLCEval(Low(IF ge = 1 THEN rest ELSE t, n)), TLCEval(2 * q + ge))
DivRight == on = 6 => \A d \in 1..(M(k) - 1) : DivFrom(x[1], d, k, k - 1, 0, 0) = <<x[1] \div d, x[1] % d>>
ShiftDiv == on = 6 => \A s \in 0..(k + 1) : x[1] \div M(s) = IF s >= k THEN 0 ELSE x[1] \div M(s)
(* ---------------------------------------------------------------- limbs *)
Limb(v, l, j) == Low(v \div M(l * j), l)
RECURSIVE Join(_, _, _, _)
Join(v, l, n, j) == IF j = n THEN 0 ELSE Limb(v, l, j) * M(l * j) + Join(v, l, n, j + 1)
LimbsRight == on = 7 => \A l \in 1..k : LET n == (k + l - 1) \div l IN
                /\ Join(x[1], l, n, 0) = x[1]
                /\ \A m \in 0..n : Join(x[1], l, m, 0) = Low(x[1], IF l * m > k THEN k ELSE l * m)
=============================================================================
