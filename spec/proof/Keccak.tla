------------------------------- MODULE Keccak --------------------------------
(* Keccak-256 (the padding of the original submission).  A lane of 64 bits   *)
(* is four numbers of 16 bits, least significant first.                      *)
EXTENDS Integers, Sequences, TLC, Bitwise
LXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
(* (not a) and b                                                             *)
LAndNot(a, b) == <<(65535 - a[1]) & b[1], (65535 - a[2]) & b[2], (65535 - a[3]) & b[3], (65535 - a[4]) & b[4]>>
LRot(a, r) == LET q == r \div 16
                  up == 2^(r % 16)
                  dn == 2^(16 - (r % 16))
              IN [j \in 1..4 |-> ((a[((j - 1 - q) % 4) + 1] * up) % 65536) + (a[((j - 2 - q) % 4) + 1] \div dn)]
Offsets == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
RC == <<<<1, 0, 0, 0>>,
        <<32898, 0, 0, 0>>,
        <<32906, 0, 0, 32768>>,
        <<32768, 32768, 0, 32768>>,
        <<32907, 0, 0, 0>>,
        <<1, 32768, 0, 0>>,
        <<32897, 32768, 0, 32768>>,
        <<32777, 0, 0, 32768>>,
        <<138, 0, 0, 0>>,
        <<136, 0, 0, 0>>,
        <<32777, 32768, 0, 0>>,
        <<10, 32768, 0, 0>>,
        <<32907, 32768, 0, 0>>,
        <<139, 0, 0, 32768>>,
        <<32905, 0, 0, 32768>>,
        <<32771, 0, 0, 32768>>,
        <<32770, 0, 0, 32768>>,
        <<128, 0, 0, 32768>>,
        <<32778, 0, 0, 0>>,
        <<10, 32768, 0, 32768>>,
        <<32897, 32768, 0, 32768>>,
        <<32896, 0, 0, 32768>>,
        <<1, 32768, 0, 0>>,
        <<32776, 32768, 0, 32768>>>>
At(x, y) == (x % 5) + 5 * (y % 5) + 1
Theta(s) ==
  LET c == TLCEval([x \in 1..5 |-> LXor(LXor(LXor(s[x], s[x + 5]), LXor(s[x + 10], s[x + 15])), s[x + 20])])
      d == TLCEval([x \in 1..5 |-> LXor(c[((x - 2) % 5) + 1], LRot(c[(x % 5) + 1], 1))])
  IN TLCEval([k \in 1..25 |-> LXor(s[k], d[((k - 1) % 5) + 1])])
(* position (X, Y) receives the lane (x, y) with X = y, Y = 2x + 3y          *)
Src == TLCEval([k \in 1..25 |-> LET X == (k - 1) % 5
                                    Y == (k - 1) \div 5
                                IN At(X + 3 * Y, X)])
RhoPi(s) == TLCEval([k \in 1..25 |-> LRot(s[Src[k]], Offsets[Src[k]])])
Chi(s, rc) ==
  TLCEval([k \in 1..25 |-> LET x == (k - 1) % 5
                               y == (k - 1) \div 5
                               v == LXor(s[k], LAndNot(s[At(x + 1, y)], s[At(x + 2, y)]))
                           IN IF k = 1 THEN LXor(v, rc) ELSE v])
RECURSIVE Rounds(_, _)
Rounds(s, k) == IF k > 24 THEN s ELSE Rounds(Chi(RhoPi(Theta(s)), RC[k]), k + 1)

Rate == 136
Pad(m) == LET z == Rate - (Len(m) % Rate) IN m \o (IF z = 1 THEN <<129>> ELSE <<1>> \o [j \in 1..(z - 2) |-> 0] \o <<128>>)
Absorb(s, m, at) ==
  TLCEval([k \in 1..25 |-> IF k > Rate \div 8 THEN s[k]
                           ELSE LXor(s[k], [j \in 1..4 |-> m[at + 8 * (k - 1) + 2 * j - 1] + 256 * m[at + 8 * (k - 1) + 2 * j]])])
RECURSIVE Blocks(_, _, _)
Blocks(s, m, at) == IF at = Len(m) THEN s ELSE Blocks(Rounds(Absorb(s, m, at), 1), m, at + Rate)
(* 32 bytes                                                                  *)
Keccak256(m) == LET s == Blocks([k \in 1..25 |-> <<0, 0, 0, 0>>], TLCEval(Pad(m)), 0)
                IN TLCEval([j \in 1..32 |-> LET l == s[((j - 1) \div 8) + 1][(((j - 1) % 8) \div 2) + 1] IN IF j % 2 = 1 THEN l % 256 ELSE l \div 256])
=============================================================================
