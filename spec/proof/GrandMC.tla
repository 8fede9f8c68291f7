------------------------------ MODULE GrandMC ------------------------------
(* Running products of shared factors c[1..L] in constant rounds: masks      *)
(* r[0..L] are drawn, m[k] = r[k-1] c[k] / r[k] is opened, and the k-th      *)
(* product is (m[1] ... m[k]) * r[k] / r[0]. Checked exhaustively over a     *)
(* small field: the result is right for all factors and masks, and what is   *)
(* opened has the same distribution (over the masks) for all nonzero         *)
(* factors. With one mask for all positions (Own = FALSE) it has not.        *)
EXTENDS Field, FiniteSets, TLC
CONSTANTS P, L, Own
Unit == 1..(P - 1)
Masks == IF Own THEN [0..L -> Unit] ELSE {[k \in 0..L |-> x] : x \in Unit}
VARIABLES c, r
vars == <<c, r>>
Init == c \in [1..L -> 0..(P - 1)] /\ r \in Masks
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Opened(cc, rr) == [k \in 1..L |-> FMul(P, FMul(P, rr[k - 1], cc[k]), FInv(P, rr[k]))]
Running(s) == LET f[k \in 0..L] == IF k = 0 THEN 1 ELSE FMul(P, f[k - 1], s[k]) IN f
Right == LET o == Running(Opened(c, r)) w == Running(c)
         IN \A k \in 1..L : FMul(P, o[k], FMul(P, FInv(P, r[0]), r[k])) = w[k]
(* all masks that lead from these factors to the opened values at hand: as many as for any other factors *)
Ways(cc, o) == Cardinality({rr \in Masks : Opened(cc, rr) = o})
Hidden == (\A k \in 1..L : c[k] # 0) => Ways(c, Opened(c, r)) = Ways([k \in 1..L |-> 1], Opened(c, r))
=============================================================================
