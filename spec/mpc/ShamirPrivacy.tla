---------------------------- MODULE ShamirPrivacy ----------------------------
(* What one party of three (T = 1) sees while values are multiplied,         *)
(* inverted, or multiplied and opened: for every choice of its own shares,   *)
(* the messages it receives have the same distribution whatever the secrets  *)
(* (for an opening: whatever the secrets with the same opened value).        *)
(* With Masks = FALSE the product is opened without the sharing of zero;     *)
(* that variant is refuted (it was the implementation's, see DESIGN.md).     *)
EXTENDS Sharing, FiniteSets, TLC
CONSTANTS P, Masks, Owns
Zq == 0..(P - 1)
VARIABLES j, own, sec, pc
vars == <<j, own, sec, pc>>
(* own = <<share of a, share of b, share of r (degree 1), share of r (degree 2)>> *)
Init == j \in 1..3 /\ own \in Owns \X Owns \X Owns \X Owns /\ sec = <<0, 0>> /\ pc = "start"
Next == pc = "start" /\ pc' = "done" /\ sec' \in Zq \X Zq /\ UNCHANGED <<j, own>>
Spec == Init /\ [][Next]_vars
(* the line through (0, s) and (j, x); the parabola with top coefficient c as well *)
Line(s, x) == <<s, FDiv(P, (x - s) % P, j)>>
Parab(s, x, c) == <<s, FDiv(P, (x - s - c * j * j) % P, j), c>>
At(c, x) == PolyEval(P, c, x)
KingShare(v, x) == Interp(P, <<0, 3>>, <<v, 0>>, x)
MulMsgs(s, r, c) ==
  LET A == Line(s[1], own[1])  B == Line(s[2], own[2])  R2 == Parab(r, own[4], c)
      M(k) == (At(A, k) * At(B, k) + At(R2, k)) % P
      v == Interp(P, <<1, 2, 3>>, <<M(1), M(2), M(3)>>, 0)
  IN IF j = 1 THEN <<M(2), M(3)>> ELSE IF j = 2 THEN <<KingShare(v, 2)>> ELSE <<>>
(* the zero sharing is the difference of a double sharing *)
Zero(c) == IF Masks THEN Parab(0, (own[4] - own[3]) % P, c) ELSE <<0>>
OpenMsgs(a, b, B, c) ==
  LET A == Line(a, own[1])
      M(k) == (At(A, k) * At(B, k) + At(Zero(c), k)) % P
  IN <<M(1), M(2), M(3)>>
Bag(g) == LET f == TLCEval(g)
              vals == {f[x] : x \in DOMAIN f} IN [v \in vals |-> Cardinality({x \in DOMAIN f : f[x] = v})]
MulView(s) == Bag([x \in Zq \X Zq |-> MulMsgs(s, x[1], x[2])])
MulOpenView(s) == Bag([c \in Zq |-> OpenMsgs(s[1], s[2], Line(s[2], own[2]), c)])
InvView(a) == Bag([x \in Zq \X Zq |-> OpenMsgs(a, x[1], Line(x[1], own[2]), x[2])])
MulHides == MulView(sec) = MulView(<<0, 0>>)
KingSeesUniform == j = 1 => MulView(sec) = [m \in Zq \X Zq |-> 1]
InvHides == sec[1] # 0 => InvView(sec[1]) = InvView(1)
(* compare with the canonical pair of the same product *)
MulOpenHides == MulOpenView(sec) = MulOpenView(IF (sec[1] * sec[2]) % P = 0 THEN <<0, 0>> ELSE <<1, (sec[1] * sec[2]) % P>>)
=============================================================================
