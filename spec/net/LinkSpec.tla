------------------------------ MODULE LinkSpec ------------------------------
(* One link of Transport reduced to what its two users can observe:        *)
(* accepted frames, received frames, failure, and flush coverage.          *)
EXTENDS Integers, Sequences
VARIABLES acc, rcv, down, ended, safe
v == <<acc, rcv, down, ended, safe>>
Init == acc = <<>> /\ rcv = <<>> /\ down = FALSE /\ ended = FALSE /\ safe = 0
Accept == \E c \in 1..(Len(acc) + 10) : acc' = Append(acc, c) /\ UNCHANGED <<rcv, down, ended, safe>>
Deliver == /\ ~ ended /\ Len(rcv) < Len(acc) /\ rcv' = Append(rcv, acc[Len(rcv) + 1])
           /\ UNCHANGED <<acc, down, ended, safe>>
Fail == ~ down /\ down' = TRUE /\ UNCHANGED <<acc, rcv, ended, safe>>
End == /\ down /\ ~ ended
       /\ \A j \in 1..Len(acc) : acc[j] <= safe => j <= Len(rcv)     \* nothing flushed is missing
       /\ ended' = TRUE /\ UNCHANGED <<acc, rcv, down, safe>>
Flushed == ~ down /\ safe' >= safe /\ safe' # safe /\ UNCHANGED <<acc, rcv, down, ended>>
Next == Accept \/ Deliver \/ Fail \/ End \/ Flushed
Spec == Init /\ [][Next]_v
=============================================================================
