------------------------------ MODULE KeccakMC -------------------------------
EXTENDS Keccak
VARIABLE n
Init == n \in 0..40
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_n
(* published digests of the empty message and of "abc", and of 0, 1, .. over more than one block *)
Known ==
  /\ Keccak256(<<>>) = <<197, 210, 70, 1, 134, 247, 35, 60, 146, 126, 125, 178, 220, 199, 3, 192, 229, 0, 182, 83, 202, 130, 39, 59, 123, 250, 216, 4, 93, 133, 164, 112>>
  /\ Keccak256(<<97, 98, 99>>) = <<78, 3, 101, 122, 234, 69, 169, 79, 199, 212, 123, 168, 38, 200, 214, 103, 192, 209, 230, 227, 58, 100, 160, 54, 236, 68, 245, 143, 161, 45, 108, 69>>
Shape == Len(Keccak256([j \in 1..(n * 7) |-> j % 256])) = 32
=============================================================================
