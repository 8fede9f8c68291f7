------------------------------- MODULE Sharing -------------------------------
(* Shamir sharings: party j (1-based) holds the value at j of a polynomial   *)
(* of degree at most t whose value at 0 is the secret.                       *)
EXTENDS Field
Upto(k) == [j \in 1..k |-> j]
ShValue(p, t, sh) == Interp(p, Upto(t + 1), SubSeq(sh, 1, t + 1), 0)
ShOk(p, t, sh) == \A j \in (t + 2)..Len(sh) : sh[j] = Interp(p, Upto(t + 1), SubSeq(sh, 1, t + 1), j)
(* transposes [party][k] into the share vector of the k-th value            *)
Col(m, k) == [i \in 1..Len(m) |-> m[i][k]]
=============================================================================
