----------------------------- MODULE Rep3BitsMC -----------------------------
(* The circuits are right for every modulus and every pair of operands up to *)
(* the bound; the sorting network sorts every sequence of zeros and ones (and *)
(* hence every sequence) of every length up to the bound.                    *)
EXTENDS Rep3Bits
CONSTANTS MaxP, MaxW, MaxN
VARIABLES on, k, x, seq
vars == <<on, k, x, seq>>
Init == on = 0 /\ k = 0 /\ x = 0 /\ seq = <<>>
Next == /\ on = 0
        /\ \/ on' = 1 /\ k' \in 3..MaxP /\ x' \in 0..(k' - 1) /\ seq' = <<>>
           \/ on' = 2 /\ k' \in 1..MaxW /\ x' \in 0..(2 ^ k' - 1) /\ seq' = <<>>
           \/ on' = 3 /\ k' \in 1..MaxN /\ x' = 0 /\ seq' \in [1..k' -> {0, 1}]
Spec == Init /\ [][Next]_vars
(* every odd modulus, prime or not *)
AddRight == on = 1 /\ k % 2 = 1 => LET w == Len2(k) IN \A y \in 0..(k - 1) : AddP(x, y, w, k) = (x + y) % k
CompareRight == on = 2 => \A y \in 0..(2 ^ k - 1) : Ge(x, y, k) = IF x >= y THEN 1 ELSE 0
SumRight == on = 2 => \A y \in 0..(2 ^ k - 1) : Ks(x, y, k) = x + y
ZeroRight == on = 2 => Zero(x, k) = IF x = 0 THEN 1 ELSE 0
SortRight == on = 3 => LET s == Batch(seq) IN \A j \in 1..(k - 1) : s[j] <= s[j + 1]
=============================================================================
