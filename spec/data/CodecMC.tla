------------------------------ MODULE CodecMC -------------------------------
(* Exhaustive: every list of up to MaxLen elements survives, no truncation   *)
(* is accepted, two values never share an encoding, widths only depend on    *)
(* the count, and a receiver of one value refuses every other count.         *)
EXTENDS Codec
CONSTANTS MaxLen
VARIABLES xs, cut
Elem == [1..W -> Byte]
Init == xs = <<>> /\ cut = -1
Next == \/ cut = -1 /\ Len(xs) < MaxLen /\ \E e \in Elem : xs' = Append(xs, e) /\ UNCHANGED cut
        \/ cut = -1 /\ \E c \in 0..(Width(MaxLen) - 1) : c < Len(EncList(xs)) /\ cut' = c /\ UNCHANGED xs
Spec == Init /\ [][Next]_<<xs, cut>>
RoundTrip == DecList(EncList(xs)) = <<xs>>
Truncated == cut # -1 => DecList(SubSeq(EncList(xs), 1, cut)) = None
Counted == DecOne(EncList(xs)) = (IF Len(xs) = 1 THEN <<xs[1]>> ELSE None)
Fixed == Len(EncList(xs)) = Width(Len(xs))
=============================================================================
