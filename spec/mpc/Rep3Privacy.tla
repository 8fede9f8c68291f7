---------------------------- MODULE Rep3Privacy ----------------------------
(* What one party sees in the interactive steps of the replicated engine:    *)
(* for every choice of its own components and of the masks it knows, the      *)
(* messages it receives are distributed alike whatever the secrets, and       *)
(* where a single element is received it is uniform.                         *)
(* With Masks = FALSE products are reshared without the sharing of zero;      *)
(* with Common = TRUE the elements of a vector share one mask; both variants  *)
(* are refuted.                                                              *)
EXTENDS Field, FiniteSets, TLC
CONSTANTS P, Masks, Common, Own
Zq == 0..(P - 1)
Nx(i) == (i + 1) % 3
Pv(i) == (i + 2) % 3
VARIABLES j, own, sec, pc
vars == <<j, own, sec, pc>>
(* own: this party's components (own, previous) of two values, and its two sources of the mask *)
Init == j \in 0..2 /\ own \in [1..6 -> Own] /\ sec = <<0, 0>> /\ pc = "start"
Next == pc = "start" /\ pc' = "done" /\ sec' \in Zq \X Zq /\ UNCHANGED <<j, own>>
Spec == Init /\ [][Next]_vars
(* component functions that agree with what party j holds and sum to v *)
Comp(v, x, y) == [i \in 0..2 |-> IF i = j THEN x ELSE IF i = Pv(j) THEN y ELSE (v - x - y) % P]
(* r: the sources; party j knows r[j] and r[j-1], the third is unknown *)
Src(u) == [i \in 0..2 |-> IF i = j THEN own[5] ELSE IF i = Pv(j) THEN own[6] ELSE u]
Zero(r, i) == IF Masks THEN (r[i] - r[Pv(i)]) % P ELSE 0
Local(A, B, r, i) == (FMul(P, A[i], B[i]) + FMul(P, A[i], B[Pv(i)]) + FMul(P, A[Pv(i)], B[i]) + Zero(r, i)) % P
Bag(g) == LET f == TLCEval(g)
              vs == {f[x] : x \in DOMAIN f} IN [v \in vs |-> Cardinality({x \in DOMAIN f : f[x] = v})]
(* the product of both values, received from the previous party *)
MulMsg(s, u) == Local(Comp(s[1], own[1], own[2]), Comp(s[2], own[3], own[4]), Src(u), Pv(j))
MulView(s) == Bag([u \in Zq |-> MulMsg(s, u)])
(* squares of both values, as one vector *)
VecMsg(s, u, w) == LET A == Comp(s[1], own[1], own[2])  B == Comp(s[2], own[3], own[4])
                   IN <<Local(A, A, Src(u), Pv(j)), Local(B, B, Src(IF Common THEN u ELSE w), Pv(j))>>
VecView(s) == Bag([x \in Zq \X Zq |-> VecMsg(s, x[1], x[2])])
(* a bit: the components are bits *)
Xor(x, y) == IF x = y THEN 0 ELSE 1
Bit(x) == x % 2
BComp(v) == [i \in 0..2 |-> IF i = j THEN Bit(own[1]) ELSE IF i = Pv(j) THEN Bit(own[2]) ELSE Xor(v, Xor(Bit(own[1]), Bit(own[2])))]
InjMsg(v, u) ==
  LET A == BComp(v)  r == Src(u)
      m1 == (Zero(r, 1) + Xor(A[1], A[0])) % P
  IN CASE j = 2 -> m1
       [] j = 1 -> (Zero(r, 0) + A[2] - 2 * A[2] * Zero(r, 0)) % P
       [] OTHER -> (Zero(r, 2) - 2 * A[2] * ((m1 + Zero(r, 2)) % P)) % P
InjView(v) == Bag([u \in Zq |-> InjMsg(v, u)])
MulHides == MulView(sec) = [m \in Zq |-> 1]
VecHides == VecView(sec) = [m \in Zq \X Zq |-> 1]
InjHides == InjView(sec[1] % 2) = [m \in Zq |-> 1]
=============================================================================
