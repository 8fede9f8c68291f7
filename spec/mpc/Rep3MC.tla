------------------------------- MODULE Rep3MC -------------------------------
(* The interactive steps of the replicated engine. Party i (0, 1, 2) holds   *)
(* the components i and i-1 of every value. Party i and i+1 share a source    *)
(* of randomness giving r[i] (party i's own) and party i also knows r[i-1];   *)
(* r[i] - r[i-1] is party i's part of a sharing of zero.                     *)
(*  "mul"    product: local product plus zero part, sent to the next party   *)
(*  "inject" a bit shared by xor into an arithmetic sharing                  *)
(*  "r23"    a value held by two parties only is dealt anew to all three     *)
(* All secrets, sharings, masks and interleavings over a small field.        *)
EXTENDS Field, FiniteSets, TLC
CONSTANTS P, Protos, Vals
Zq == 0..(P - 1)
Pt == 0..2
Nx(i) == (i + 1) % 3
Pv(i) == (i + 2) % 3
VARIABLES proto, a, b, r, chan, res, pc
vars == <<proto, a, b, r, chan, res, pc>>
Sharings(v) == {[i \in Pt |-> IF i = 0 THEN x ELSE IF i = 1 THEN y ELSE (v - x - y) % P] : x \in Vals, y \in Vals}
Xor(x, y) == IF x = y THEN 0 ELSE 1
BitSharings(v) == {[i \in Pt |-> IF i = 0 THEN x ELSE IF i = 1 THEN y ELSE Xor(v, Xor(x, y))] : x \in {0, 1}, y \in {0, 1}}
Init == /\ proto \in Protos
        /\ a \in (IF proto = "inject" THEN UNION {BitSharings(v) : v \in {0, 1}} ELSE UNION {Sharings(v) : v \in Zq})
        /\ b \in (IF proto = "mul" THEN UNION {Sharings(v) : v \in Zq} ELSE {[i \in Pt |-> 0]})
        /\ r \in [Pt -> Vals]
        /\ chan = [x \in Pt \X Pt |-> <<>>]
        /\ res = [i \in Pt |-> [a |-> -1, b |-> -1]] /\ pc = [i \in Pt |-> "start"]
Zero(i) == (r[i] - r[Pv(i)]) % P
Send(f, t, m) == chan' = [chan EXCEPT ![<<f, t>>] = Append(@, m)]
Got(f, t) == chan[<<f, t>>] # <<>>
Msg(f, t) == Head(chan[<<f, t>>])
Take(f, t) == chan' = [chan EXCEPT ![<<f, t>>] = Tail(@)]
(* ------------------------------------------------ multiplication *)
Local(i) == (FMul(P, a[i], b[i]) + FMul(P, a[i], b[Pv(i)]) + FMul(P, a[Pv(i)], b[i]) + Zero(i)) % P
MulSend(i) == /\ proto = "mul" /\ pc[i] = "start" /\ pc' = [pc EXCEPT ![i] = "sent"]
              /\ res' = [res EXCEPT ![i].a = Local(i)] /\ Send(i, Nx(i), Local(i)) /\ UNCHANGED <<proto, a, b, r>>
MulRecv(i) == /\ proto = "mul" /\ pc[i] = "sent" /\ Got(Pv(i), i) /\ pc' = [pc EXCEPT ![i] = "done"]
              /\ res' = [res EXCEPT ![i].b = Msg(Pv(i), i)] /\ Take(Pv(i), i) /\ UNCHANGED <<proto, a, b, r>>
(* ---------------------------------------------- injection of a bit *)
(* party 1 knows x = a[0] xor a[1], parties 2 and 0 know y = a[2]; the result is x + y - 2xy *)
X1 == (Zero(1) + Xor(a[1], a[0])) % P
InjSend(i) == /\ proto = "inject" /\ pc[i] = "start" /\ i \in {0, 1}
              /\ LET m == IF i = 1 THEN X1 ELSE (Zero(0) + a[2] - 2 * a[2] * Zero(0)) % P
                 IN Send(i, Nx(i), m) /\ res' = [res EXCEPT ![i].a = m] /\ pc' = [pc EXCEPT ![i] = "sent"]
              /\ UNCHANGED <<proto, a, b, r>>
InjThird == /\ proto = "inject" /\ pc[2] = "start" /\ Got(1, 2)
            /\ LET x == Msg(1, 2)
                   m == (Zero(2) - 2 * a[2] * ((x + Zero(2)) % P)) % P
               IN /\ res' = [res EXCEPT ![2] = [a |-> m, b |-> x]]
                  /\ chan' = [chan EXCEPT ![<<1, 2>>] = Tail(@), ![<<2, 0>>] = Append(@, m)]
            /\ pc' = [pc EXCEPT ![2] = "done"] /\ UNCHANGED <<proto, a, b, r>>
InjRecv(i) == /\ proto = "inject" /\ pc[i] = "sent" /\ Got(Pv(i), i) /\ pc' = [pc EXCEPT ![i] = "done"]
              /\ res' = [res EXCEPT ![i].b = Msg(Pv(i), i)] /\ Take(Pv(i), i) /\ UNCHANGED <<proto, a, b, r>>
(* ------------------- resharing without party 0: it gets random components *)
(* party 1 knows its own part a[1] + a[0], party 2 knows a[2]; the components r[0] (parties 0, 1) and r[2] (parties 2, 0) are random *)
Dif(i) == IF i = 1 THEN (a[1] + a[0] - r[0]) % P ELSE (a[2] - r[2]) % P
R23(i) == /\ proto = "r23" /\ pc[i] = "start"
          /\ IF i = 0 THEN res' = [res EXCEPT ![0] = [a |-> r[0], b |-> r[2]]] /\ pc' = [pc EXCEPT ![0] = "done"] /\ UNCHANGED chan
             ELSE Send(i, 3 - i, Dif(i)) /\ pc' = [pc EXCEPT ![i] = "sent"] /\ UNCHANGED res
          /\ UNCHANGED <<proto, a, b, r>>
R23Recv(i) == /\ proto = "r23" /\ pc[i] = "sent" /\ i \in {1, 2} /\ Got(3 - i, i) /\ Take(3 - i, i) /\ pc' = [pc EXCEPT ![i] = "done"]
              /\ LET s == (Dif(i) + Msg(3 - i, i)) % P
                 IN res' = [res EXCEPT ![i] = IF i = 1 THEN [a |-> s, b |-> r[0]] ELSE [a |-> r[2], b |-> s]]
              /\ UNCHANGED <<proto, a, b, r>>
Next == InjThird \/ \E i \in Pt : MulSend(i) \/ MulRecv(i) \/ InjSend(i) \/ InjRecv(i) \/ R23(i) \/ R23Recv(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sum(v) == (v[0] + v[1] + v[2]) % P
Expected == CASE proto = "mul" -> FMul(P, Sum(a), Sum(b)) [] proto = "inject" -> Xor(a[0], Xor(a[1], a[2])) [] OTHER -> Sum(a)
Done == \A i \in Pt : pc[i] = "done"
Correct == Done => /\ \A i \in Pt : res[i].b = res[Pv(i)].a
                   /\ (res[0].a + res[1].a + res[2].a) % P = Expected
                   /\ \A x \in Pt \X Pt : chan[x] = <<>>
NoStuck == (~ ENABLED Next) => Done
=============================================================================
