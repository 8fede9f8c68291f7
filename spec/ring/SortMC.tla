------------------------------- MODULE SortMC -------------------------------
(* One-hot vectors, table lookups and the radix sort, as the engine computes *)
(* them on shared values, on plain values with every random choice explicit. *)
(*  1  one-hot vector by recursion on the bits of the index                   *)
(*  2  reading a table at r ^^ index with a random one-hot vector of r, and   *)
(*     with two vectors of half the length; entries past the end are zero    *)
(*  3  writing by l + e (v - l)                                               *)
(*  4  radix sort: stable permutation of every bit, applied to the next bit   *)
(*     by shuffling, opening the destinations and placing; composed; shuffles *)
(*     are arbitrary; public keys behind the private ones or in given places  *)
EXTENDS Rep3Bits
CONSTANTS MaxIdx, MaxTab, MaxN, MaxBits
VARIABLES on, n, par, keys, perm, round
vars == <<on, n, par, keys, perm, round>>
Perms(m) == {s \in [1..m -> 1..m] : \A a, b \in 1..m : a # b => s[a] # s[b]}
(* ------------------------------------------------------------ one-hot *)
BitOf(v, j) == (v \div 2 ^ j) % 2
Xor2(a, b) == (a + b) % 2
RECURSIVE Fold(_, _, _)
Fold(s, j, acc) == IF j > Len(s) THEN acc ELSE Fold(s, j + 1, Xor2(acc, s[j]))
RECURSIVE Ohv(_, _)
Ohv(k, v) ==
  IF k = 0 THEN <<1>>
  ELSE LET top == BitOf(v, k - 1)
       IN IF k = 1 THEN <<1 - top, top>>
          ELSE LET f == TLCEval(Ohv(k - 1, v % 2 ^ (k - 1)))
                   part == TLCEval([j \in 1..(Len(f) - 1) |-> f[j] * top])
                   e == TLCEval(Append(part, Fold(part, 1, top)))
               IN TLCEval([j \in 1..Len(f) |-> Xor2(f[j], e[j])] \o e)
OneHot(k, v) == [j \in 1..(2 ^ k) |-> IF j = v + 1 THEN 1 ELSE 0]
(* -------------------------------------------------------------- tables *)
Log2(m) == CeilLog2(m)
Tab(m) == [j \in 1..m |-> 7 * j + 3]
Entry(t, j) == IF j < Len(t) THEN t[j + 1] ELSE 0
RECURSIVE XorSel(_, _, _, _)
XorSel(e, t, c, j) == IF j = Len(e) THEN 0 ELSE (IF e[j + 1] = 1 THEN Entry(t, j ^^ c) ELSE 0) ^^ XorSel(e, t, c, j + 1)
Read(t, idx, r) == LET k == Log2(Len(t)) IN XorSel(Ohv(k, r), t, r ^^ idx, 0)
(* low depth: an even number of bits, at least two halves *)
RECURSIVE XorSel2(_, _, _, _, _, _)
XorSel2(e0, e1, t, c, j, m) == IF j = m THEN 0
  ELSE (IF e0[j \div Len(e1) + 1] = 1 /\ e1[(j % Len(e1)) + 1] = 1 THEN Entry(t, j ^^ c) ELSE 0) ^^ XorSel2(e0, e1, t, c, j + 1, m)
ReadLow(t, idx, r0, r1, h) == XorSel2(Ohv(h, r0), Ohv(h, r1), t, (r0 * 2 ^ h + r1) ^^ idx, 0, 2 ^ (2 * h))
RECURSIVE SumSel(_, _, _)
SumSel(e, t, j) == IF j > Len(t) THEN 0 ELSE e[j] * t[j] + SumSel(e, t, j + 1)
Write(t, e, v) == [j \in 1..Len(t) |-> e[j] * (v - t[j]) + t[j]]
(* ------------------------------------------------------------- sorting *)
(* destination of every position: the zeros first, in order, then the ones *)
RECURSIVE Count(_, _, _)
Count(b, v, j) == IF j = 0 THEN 0 ELSE Count(b, v, j - 1) + (IF b[j] = v THEN 1 ELSE 0)
BitPerm(b) == LET m == Len(b) IN [j \in 1..m |-> (1 - b[j]) * Count(b, 0, j) + b[j] * (Count(b, 0, m) + Count(b, 1, j))]
(* shuffle the destinations and the values alike, open the destinations, place the values *)
Shuffle(s, v) == [j \in 1..Len(v) |-> v[s[j]]]
Place(rho, v, s) == LET o == Shuffle(s, rho)
                        w == Shuffle(s, v)
                    IN [d \in 1..Len(v) |-> w[CHOOSE j \in 1..Len(v) : o[j] = d]]
(* shuffle sigma, open it, take phi there, shuffle back *)
Compose(sigma, phi, s) == LET o == Shuffle(s, sigma)
                              w == [j \in 1..Len(o) |-> phi[o[j]]]
                          IN [d \in 1..Len(w) |-> w[CHOOSE j \in 1..Len(w) : s[j] = d]]
BitsAt(ks, j) == [x \in 1..Len(ks) |-> BitOf(ks[x], j)]
(* the stable order of the low bits *)
StableRank(ks, w, x) == Cardinality({z \in 1..Len(ks) : ks[z] % 2 ^ w < ks[x] % 2 ^ w \/ (ks[z] % 2 ^ w = ks[x] % 2 ^ w /\ z <= x)})
Init == on = 0 /\ n = 0 /\ par = 0 /\ keys = <<>> /\ perm = <<>> /\ round = 0
Start == /\ on = 0 /\ UNCHANGED round
         /\ \/ on' = 1 /\ n' \in 0..MaxIdx /\ par' \in 0..(2 ^ n' - 1) /\ keys' = <<>> /\ perm' = <<>>
            \/ on' = 2 /\ n' \in 1..MaxTab /\ par' \in 0..(n' - 1) /\ keys' = <<>> /\ perm' = <<>>
            \/ /\ on' = 4 /\ n' \in 1..MaxN /\ par' = 0
               /\ keys' \in [1..n' -> 0..(2 ^ MaxBits - 1)]
               /\ perm' = BitPerm(BitsAt(keys', 0))
Sort == /\ on = 4 /\ round < MaxBits - 1
        /\ \E s1, s2 \in Perms(n) :
             LET b == Place(perm, BitsAt(keys, round + 1), s1)
             IN perm' = Compose(perm, BitPerm(b), s2)
        /\ round' = round + 1 /\ UNCHANGED <<on, n, par, keys>>
Next == Start \/ Sort
Spec == Init /\ [][Next]_vars
OhvRight == on = 1 => Ohv(n, par) = OneHot(n, par)
ReadRight == on = 2 => \A r \in 0..(2 ^ Log2(n) - 1) : Read(Tab(n), par, r) = Tab(n)[par + 1]
ReadLowRight == on = 2 => LET h == (Log2(n) + 1) \div 2 IN
                  \A r0, r1 \in 0..(2 ^ h - 1) : ReadLow(Tab(n), par, r0, r1, h) = Tab(n)[par + 1]
SharedReadRight == on = 2 => SumSel(Ohv(Log2(n), par), Tab(n), 1) = Tab(n)[par + 1]
WriteRight == on = 2 => Write(Tab(n), Ohv(Log2(n), par), 99) = [Tab(n) EXCEPT ![par + 1] = 99]
(* after every round the permutation is the stable sorting one for the bits done, whatever the shuffles were *)
SortRight == on = 4 => \A x \in 1..n : perm[x] = StableRank(keys, round + 1, x)
PlaceRight == on = 4 => \A s \in Perms(n) : LET v == Place(perm, keys, s) IN
                \A d \in 1..(n - 1) : v[d] % 2 ^ (round + 1) <= v[d + 1] % 2 ^ (round + 1)
=============================================================================
