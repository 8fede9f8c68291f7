------------------------------ MODULE ShamirMC ------------------------------
(* The multiplication protocol of the Shamir engine: every party masks its   *)
(* local product with its part of a double sharing and sends it to the king  *)
(* (party 1), who interpolates the masked product and deals it with a known  *)
(* polynomial that is zero at the last t positions; everybody subtracts the  *)
(* degree-t part of the mask.  All secrets, polynomials and interleavings.   *)
EXTENDS Sharing, FiniteSets, TLC
CONSTANTS P, N, T, Secrets, Coefs
Parties == 1..N
King == 1
Zq == 0..(P - 1)
Senders == 2..(2 * T + 1)
Receivers == 2..(N - T)
VARIABLES pa, pb, rt, r2t, toking, fromking, got, share, opened
vars == <<pa, pb, rt, r2t, toking, fromking, got, share, opened>>
At(c, x) == PolyEval(P, c, x)
Polys(s, d) == {<<s>> \o q : q \in [1..d -> Coefs]}
Masked(j) == (At(pa, j) * At(pb, j) + At(r2t, j)) % P
(* the polynomial of degree T with value v at 0 and zeros at N-T+1..N *)
KingShare(v, x) == Interp(P, <<0>> \o [k \in 1..T |-> N - T + k], <<v>> \o [k \in 1..T |-> 0], x)
Init == /\ pa \in UNION {Polys(s, T) : s \in Secrets} /\ pb \in UNION {Polys(s, T) : s \in Secrets}
        /\ \E r \in Secrets : rt \in Polys(r, T) /\ r2t \in Polys(r, 2 * T)
        /\ toking = [j \in Parties |-> <<>>] /\ fromking = [j \in Parties |-> <<>>]
        /\ got = [j \in Parties |-> -1] /\ share = [j \in Parties |-> -1] /\ opened = [j \in Parties |-> -1]
Send(j) == /\ j \in Senders /\ got[j] = -1 /\ got' = [got EXCEPT ![j] = -2]
           /\ toking' = [toking EXCEPT ![j] = Append(@, Masked(j))]
           /\ UNCHANGED <<pa, pb, rt, r2t, fromking, share, opened>>
(* the king reads its senders in order *)
KingRecv == \E j \in Senders : /\ toking[j] # <<>> /\ \A k \in Senders : k < j => got[k] >= 0
              /\ got' = [got EXCEPT ![j] = Head(toking[j])] /\ toking' = [toking EXCEPT ![j] = Tail(@)]
              /\ UNCHANGED <<pa, pb, rt, r2t, fromking, share, opened>>
KingDeal == /\ share[King] = -1 /\ \A j \in Senders : got[j] >= 0
            /\ LET v == Interp(P, Upto(2 * T + 1), [j \in 1..(2 * T + 1) |-> IF j = King THEN Masked(King) ELSE got[j]], 0)
               IN /\ fromking' = [j \in Parties |-> IF j \in Receivers THEN <<KingShare(v, j)>> ELSE <<>>]
                  /\ share' = [share EXCEPT ![King] = (KingShare(v, King) - At(rt, King)) % P]
            /\ UNCHANGED <<pa, pb, rt, r2t, toking, got, opened>>
Recv(j) == /\ j \in Receivers /\ fromking[j] # <<>> /\ share[j] = -1
           /\ share' = [share EXCEPT ![j] = (Head(fromking[j]) - At(rt, j)) % P] /\ fromking' = [fromking EXCEPT ![j] = Tail(@)]
           /\ UNCHANGED <<pa, pb, rt, r2t, toking, got, opened>>
Silent(j) == /\ j > N - T /\ share[j] = -1 /\ (j \in Senders => got[j] # -1)
             /\ share' = [share EXCEPT ![j] = (0 - At(rt, j)) % P]
             /\ UNCHANGED <<pa, pb, rt, r2t, toking, fromking, got, opened>>
Done == \A j \in Parties : share[j] >= 0
(* every party reads the shares of itself and the T parties before it *)
Before(j, k) == ((j - 1 - k) % N) + 1
Open(j) == /\ Done /\ opened[j] = -1
           /\ opened' = [opened EXCEPT ![j] = Interp(P, [k \in 1..(T + 1) |-> Before(j, k - 1)], [k \in 1..(T + 1) |-> share[Before(j, k - 1)]], 0)]
           /\ UNCHANGED <<pa, pb, rt, r2t, toking, fromking, got, share>>
Next == KingRecv \/ KingDeal \/ \E j \in Parties : Send(j) \/ Recv(j) \/ Silent(j) \/ Open(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Product == (pa[1] * pb[1]) % P
Correct == Done => /\ ShOk(P, T, share) /\ ShValue(P, T, share) = Product
OpensRight == \A j \in Parties : opened[j] # -1 => opened[j] = Product
Finishes == \A j \in Parties : opened[j] # -1
NoStuck == (~ ENABLED Next) => Finishes
=============================================================================
