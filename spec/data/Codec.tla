------------------------------- MODULE Codec --------------------------------
(* The wire format of messages: a count in H bytes (little endian), followed *)
(* by that many elements of W bytes each. Base is the number of byte values. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Base, H, W
Byte == 0..(Base - 1)
Num(s) == LET f[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE f[j - 1] + s[j] * Base ^ (j - 1) IN f[Len(s)]
Dig(n, l) == [j \in 1..l |-> (n \div Base ^ (j - 1)) % Base]
Width(n) == H + n * W
EncList(xs) == LET f[j \in 0..Len(xs)] == IF j = 0 THEN Dig(Len(xs), H) ELSE f[j - 1] \o xs[j] IN f[Len(xs)]
(* a refusal is <<>>, a result <<value>> *)
None == <<>>
(* readers of a list stop after the announced number of elements *)
DecList(b) == IF Len(b) < H THEN None
              ELSE LET n == Num(SubSeq(b, 1, H)) IN
                   IF Len(b) < Width(n) THEN None
                   ELSE <<[j \in 1..n |-> SubSeq(b, H + (j - 1) * W + 1, H + j * W)]>>
(* a receiver that expects one value *)
DecOne(b) == LET l == DecList(b) IN IF l = None THEN None ELSE IF Len(l[1]) # 1 THEN None ELSE <<l[1][1]>>
=============================================================================
