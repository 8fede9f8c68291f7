------------------------------ MODULE BridgeMC ------------------------------
(* Local translation: party j (1-based) scales its two components by the     *)
(* values at j of the lines that are 1 at zero and 0 at the position of the  *)
(* party not holding the component. Additive shares are scaled by the        *)
(* inverse Lagrange coefficient and their degree is reduced; what the king    *)
(* receives is masked by a sharing of degree 2.                              *)
EXTENDS Sharing, FiniteSets, TLC
CONSTANTS P
Zq == 0..(P - 1)
VARIABLES on, s
vars == <<on, s>>
Init == on = 0 /\ s = <<0, 0, 0>>
Next == on = 0 /\ on' = 1 /\ s' \in Zq \X Zq \X Zq
Spec == Init /\ [][Next]_vars
(* component c (1..3) is held by parties c and c + 1; the other party's share of it is zero *)
Other(c) == IF c = 1 THEN 3 ELSE c - 1
Line(c, x) == Interp(P, <<0, Other(c)>>, <<1, 0>>, x)
Pv(j) == IF j = 1 THEN 3 ELSE j - 1
Translated(j) == (FMul(P, s[j], Line(j, j)) + FMul(P, s[Pv(j)], Line(Pv(j), j))) % P
Sum == (s[1] + s[2] + s[3]) % P
LocalRight == on = 1 => LET sh == [j \in 1..3 |-> Translated(j)] IN ShOk(P, 1, sh) /\ ShValue(P, 1, sh) = Sum
(* additive: scaled shares are a sharing of degree 2 of the sum *)
Coef(j) == Interp(P, <<1, 2, 3>>, [k \in 1..3 |-> IF k = j THEN 1 ELSE 0], 0)
Scaled(j) == FDiv(P, s[j], Coef(j))
AddRight == on = 1 => Interp(P, <<1, 2, 3>>, [j \in 1..3 |-> Scaled(j)], 0) = Sum
(* the king's view of the masked scaled shares is the same for every additive sharing: all of them are possible, once each *)
KingView(t) == {<<(FDiv(P, t[2], Coef(2)) + x) % P, (FDiv(P, t[3], Coef(3)) + y) % P>> : x \in Zq, y \in Zq}
Hides == on = 1 => KingView(s) = Zq \X Zq
=============================================================================
