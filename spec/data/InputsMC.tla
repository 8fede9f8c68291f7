------------------------------ MODULE InputsMC ------------------------------
(* Several providers each fill some elements of the inputs of a circuit and  *)
(* leave gaps: merging their parts gives the whole input, in every order,    *)
(* and is refused exactly when two of them fill one private element or fill  *)
(* one public element differently.                                           *)
EXTENDS Inputs
CONSTANTS P, NP
VARIABLES whole, parts, done
Num(v) == [t |-> "num", neg |-> FALSE, hex |-> 0, mag |-> v, els |-> <<>>]
Gap == [t |-> "none", neg |-> FALSE, hex |-> 0, mag |-> 0, els |-> <<>>]
Arr(s) == [t |-> "arr", neg |-> FALSE, hex |-> 0, mag |-> 0, els |-> s]
(* one scalar and one nested array of three elements *)
Shape(a, x, y, z) == <<[name |-> "a", val |-> a], [name |-> "b", val |-> Arr(<<x, Arr(<<y, z>>)>>)]>>
Vals == 0..(P - 1)
Cells == 1..4
Public == {"a"}
Of(f) == Shape(f[1], f[2], f[3], f[4])
Fill(f) == Of([c \in Cells |-> IF f[c] = -1 THEN Gap ELSE Num(f[c])])
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
(* a provider without the scalar leaves out its name *)
Part(f) == LET e == Fill(f) IN IF f[1] = -1 THEN <<e[2]>> ELSE e
Map(f) == AsSeq({[name |-> e.name, base |-> e.base, shared |-> e.base \notin Public, val |-> e.val] : e \in Flat(P, Part(f))})
Init == whole = [c \in Cells |-> -1] /\ parts = [k \in 1..NP |-> [c \in Cells |-> -1]] /\ done = 0
(* cell by cell: whoever fills it *)
Next == /\ done < 4 /\ done' = done + 1
        /\ \E who \in SUBSET (1..NP), v \in Vals : \E w \in [who -> Vals] :
             /\ who # {} \/ v = 0
             /\ whole' = [whole EXCEPT ![done + 1] = IF who = {} THEN -1 ELSE v]
             /\ (who = {} \/ \E k \in who : w[k] = v)
             /\ parts' = [k \in 1..NP |-> IF k \in who THEN [parts[k] EXCEPT ![done + 1] = w[k]] ELSE parts[k]]
Spec == Init /\ [][Next]_<<whole, parts, done>>
Maps == [k \in 1..NP |-> Map(parts[k])]
Owners(c) == {k \in 1..NP : parts[k][c] # -1}
Allowed == /\ \A c \in 2..4 : Cardinality(Owners(c)) <= 1
           /\ \A j, k \in Owners(1) : parts[j][1] = parts[k][1]
Refusal == done = 4 => (Mergeable(Public, Maps) <=> Allowed)
Union == done = 4 /\ Allowed => Merged(Maps) = {[name |-> e.name, shared |-> e.shared, val |-> e.val] : e \in {Map(whole)[j] : j \in 1..Len(Map(whole))}}
Positions == done = 4 => \A e \in Flat(P, Part(whole)) : e.base = "b" => e.name \in {"b[0]", "b[1]", "b[2]"}
=============================================================================
