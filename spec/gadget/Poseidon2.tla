------------------------------ MODULE Poseidon2 ------------------------------
(* The Poseidon2 permutation by its definition (Grassi, Khovratovich,        *)
(* Schofnegger), over a small prime p, with explicit matrices.  A parameter  *)
(* set P has fields p, t (width), d (exponent), rf1, rf2 (external rounds    *)
(* before and after), diag (diagonal of the internal matrix minus 1), ext    *)
(* (external round constants, one row per round), int (internal ones).       *)
EXTENDS Field, TLC
M4 == << <<5, 7, 1, 3>>, <<4, 6, 1, 1>>, <<1, 3, 5, 7>>, <<1, 1, 4, 6>> >>
Widths == {2, 3, 4, 8, 12, 16, 20, 24}
(* the matrix of the external rounds: circ(2,1), circ(2,1,1), M4, or circ(2 M4, M4, ..., M4) *)
ExtM(t) == [i \in 1..t |-> [j \in 1..t |->
  IF t < 4 THEN IF i = j THEN 2 ELSE 1
  ELSE IF t = 4 THEN M4[i][j]
  ELSE (IF (i - 1) \div 4 = (j - 1) \div 4 THEN 2 ELSE 1) * M4[((i - 1) % 4) + 1][((j - 1) % 4) + 1]]]
(* the matrix of the internal rounds: all ones plus the diagonal *)
IntM(P) == [i \in 1..P.t |-> [j \in 1..P.t |-> (1 + IF i = j THEN P.diag[i] ELSE 0) % P.p]]
MatVec(p, m, s) == [i \in 1..Len(s) |-> FDot(p, m[i], s)]
Sbox(P, x) == FPow(P.p, x, P.d)
ExtRound(P, s, r) == MatVec(P.p, ExtM(P.t), [i \in 1..P.t |-> Sbox(P, (s[i] + P.ext[r][i]) % P.p)])
IntRound(P, s, r) == MatVec(P.p, IntM(P), [i \in 1..P.t |-> IF i = 1 THEN Sbox(P, (s[1] + P.int[r]) % P.p) ELSE s[i]])
NumRounds(P) == P.rf1 + Len(P.int) + P.rf2
NumSbox(P) == (P.rf1 + P.rf2) * P.t + Len(P.int)
Round(P, s, r) == IF r <= P.rf1 THEN ExtRound(P, s, r)
                  ELSE IF r <= P.rf1 + Len(P.int) THEN IntRound(P, s, r - P.rf1)
                  ELSE ExtRound(P, s, r - Len(P.int))
RECURSIVE RoundsTo(_, _, _)
RoundsTo(P, s, r) == IF r = 0 THEN TLCEval(MatVec(P.p, ExtM(P.t), s)) ELSE TLCEval(Round(P, RoundsTo(P, s, r - 1), r))
Perm(P, s) == RoundsTo(P, s, NumRounds(P))
(* the masked S-box: the powers of a random r are shared, y = x - r is public *)
Masked(p, y, r) == FSum(p, << FPow(p, y, 5), FMul(p, FMul(p, FPow(p, y, 4), r), 5), FMul(p, FMul(p, FPow(p, y, 3), FPow(p, r, 2)), 10),
  FMul(p, FMul(p, FPow(p, y, 2), FPow(p, r, 3)), 10), FMul(p, FMul(p, y, FPow(p, r, 4)), 5), FPow(p, r, 5) >>)

(* ---- hash trees: Hash of a group of `arity` values padded to the width *)
Pad(P, g) == [i \in 1..P.t |-> IF i <= Len(g) THEN g[i] ELSE 0]
Hash(P, mode, g) == LET h == Perm(P, Pad(P, g))[1] IN IF mode = "sponge" THEN h ELSE (h + g[1]) % P.p
Level(P, mode, a, v) == [k \in 1..(Len(v) \div a) |-> Hash(P, mode, SubSeq(v, (k - 1) * a + 1, k * a))]
RECURSIVE Levels(_, _, _, _)
Levels(P, mode, a, v) == IF Len(v) = 1 THEN << v >> ELSE <<v>> \o Levels(P, mode, a, TLCEval(Level(P, mode, a, v)))
Root(P, mode, a, v) == LET l == Levels(P, mode, a, v) IN l[Len(l)][1]
(* membership witness of leaf i (from 0): on each level the siblings in order and the own position *)
RECURSIVE APow(_, _)
APow(a, k) == IF k = 0 THEN 1 ELSE a * APow(a, k - 1)
WitOf(ls, a, i) == [k \in 1..(Len(ls) - 1) |->
  LET at == i \div APow(a, k - 1)
      g == SubSeq(ls[k], (at \div a) * a + 1, (at \div a) * a + a)
      pos == at % a
  IN [pos |-> pos, other |-> SubSeq(g, 1, pos) \o SubSeq(g, pos + 2, a)]]
RECURSIVE PathTo(_, _, _, _, _)
PathTo(P, mode, leaf, wit, k) ==
  IF k = 0 THEN leaf
  ELSE LET below == TLCEval(PathTo(P, mode, leaf, wit, k - 1))
       IN Hash(P, mode, SubSeq(wit[k].other, 1, wit[k].pos) \o <<below>> \o SubSeq(wit[k].other, wit[k].pos + 1, Len(wit[k].other)))
Accepts(P, mode, root, leaf, wit) ==
  LET a == Len(wit[1].other) + 1
  IN /\ \A k \in 1..Len(wit) : Len(wit[k].other) = a - 1 /\ wit[k].pos < a
     /\ PathTo(P, mode, leaf, wit, Len(wit)) = root
=============================================================================
