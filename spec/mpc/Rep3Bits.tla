------------------------------ MODULE Rep3Bits ------------------------------
(* The boolean circuits behind the conversions and comparisons, on plain bit *)
(* strings (sharing by xor is linear, and every conjunction is a             *)
(* multiplication, see Rep3MC):                                              *)
(*  Ks     prefix adder of w bits giving w + 1 bits                           *)
(*  AddP   sum modulo p of two numbers below p: add, subtract p, select       *)
(*  Ge     comparison by subtraction                                          *)
(*  Zero   test for zero by a tree of conjunctions over padded halves         *)
(*  Batch  the odd-even merge sort network                                    *)
EXTENDS Integers, Sequences, Bitwise, FiniteSets, TLC
RECURSIVE Len2(_)
Len2(x) == IF x = 0 THEN 0 ELSE 1 + Len2(x \div 2)
CeilLog2(x) == Len2(x - 1)
Mask(w) == 2 ^ w - 1
(* generate and propagate, doubling the distance in every round *)
RECURSIVE KsRounds(_, _, _, _, _)
KsRounds(p, g, w, i, d) ==
  IF i = d THEN g
  ELSE LET s == 2 ^ i
           m == Mask(w - s)
           ps == p \div 2 ^ s
           r1 == ps & (g & m)
           r2 == ps & (p & m)
       IN KsRounds(TLCEval(r2 * 2 ^ s), TLCEval(g ^^ (r1 * 2 ^ s)), w, i + 1, d)
Inner(p, g, w) == (KsRounds(p, g, w, 0, CeilLog2(w)) * 2) ^^ p
Ks(x, y, w) == Inner(x ^^ y, x & y, w)
(* 2^w + x - y *)
Sub(x, y, w) == LET z == y ^^ Mask(w)
                    p == x ^^ z
                IN Inner(p, (x & z) ^^ (p & 1), w) ^^ 1
Sel(c, t, f) == f ^^ (c & (f ^^ t))
AddP(x, y, w, pp) ==
  LET s == Ks(x, y, w)
      k == w + 1
      c == 2 ^ k - pp
      d == Inner(s ^^ c, s & c, k)
      ov == IF (d \div 2 ^ k) % 2 = 1 THEN Mask(w) ELSE 0
  IN Sel(ov, d & Mask(w), s & Mask(w))
Ge(x, y, w) == (Sub(x, y, w) \div 2 ^ w) % 2
RECURSIVE ZeroTree(_, _)
ZeroTree(x, len) == IF len = 1 THEN x % 2
                    ELSE LET pad == len % 2 = 1
                             l == IF pad THEN len + 1 ELSE len
                             y == IF pad THEN x | 2 ^ (l - 1) ELSE x
                             h == l \div 2
                         IN ZeroTree(TLCEval((y & Mask(h)) & ((y \div 2 ^ h) & Mask(h))), h)
Zero(x, w) == ZeroTree(x ^^ Mask(w), w)
(* ---------------------------------------------------------------- sorting *)
(* the comparators (i, j) of Batcher's network for n inputs, in order *)
RECURSIVE Inside(_, _, _, _, _, _)
Inside(n, pp, k, j, i, acc) ==
  IF j + k >= n THEN acc
  ELSE IF i >= k \/ j + i + k >= n THEN Inside(n, pp, k, j + 2 * k, 0, acc)
  ELSE Inside(n, pp, k, j, i + 1,
              IF (j + i) \div (2 * pp) = (j + i + k) \div (2 * pp) THEN Append(acc, <<j + i + 1, j + i + k + 1>>) ELSE acc)
RECURSIVE OverK(_, _, _, _)
OverK(n, pp, k, acc) == IF k = 0 THEN acc ELSE OverK(n, pp, k \div 2, Inside(n, pp, k, k % pp, 0, acc))
RECURSIVE OverP(_, _, _)
OverP(n, pp, acc) == IF pp >= n THEN acc ELSE OverP(n, 2 * pp, OverK(n, pp, pp, acc))
Network(n) == OverP(n, 1, <<>>)
RECURSIVE Run(_, _, _)
Run(s, net, k) == IF k > Len(net) THEN s
                  ELSE LET i == net[k][1]
                           j == net[k][2]
                       IN Run(IF s[i] > s[j] THEN [s EXCEPT ![i] = s[j], ![j] = s[i]] ELSE s, net, k + 1)
Batch(s) == Run(s, Network(Len(s)), 1)
=============================================================================
