------------------------------ MODULE InputGen ------------------------------
(* Random inputs, provider maps, batches and witnesses for the real code.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES k, out
P == atoi(IOEnv.GEN_P)
Names == {"a", "b", "in", "x_1", "key"}
R(S) == RandomElement(IF k > 100 THEN {0} ELSE S)      \* state-level, so that it is drawn anew
Num(z) == [t |-> "num", neg |-> R({TRUE, FALSE, FALSE}), hex |-> R({0, 0, 1, 1, 2, 3}), mag |-> IF R(1..6) = 1 THEN R({P - 1, P, P + 1, 2 * P, 0}) ELSE R(0..(P - 1)), els |-> <<>>]
Bool(z) == [t |-> "bool", neg |-> FALSE, hex |-> 0, mag |-> R(0..1), els |-> <<>>]
Gap == [t |-> "none", neg |-> FALSE, hex |-> 0, mag |-> 0, els |-> <<>>]
RECURSIVE Tree(_), Els(_, _)
Els(d, n) == IF n = 0 THEN <<>> ELSE TLCEval(<<Tree(d)>> \o Els(d, n - 1))
Tree(d) == LET c == TLCEval(R(1..10)) IN
  IF d > 0 /\ c <= 4 THEN [t |-> "arr", neg |-> FALSE, hex |-> 0, mag |-> 0, els |-> Els(d - 1, TLCEval(R(0..4)))]
  ELSE IF c = 5 THEN Bool(d) ELSE IF c = 6 THEN Gap ELSE Num(d)
Top(z) == LET c == TLCEval(R(1..3)) IN IF c = 1 THEN Num(0) ELSE IF c = 2 THEN Bool(0) ELSE [t |-> "arr", neg |-> FALSE, hex |-> 0, mag |-> 0, els |-> Els(2, TLCEval(R(0..5)))]
RECURSIVE NameList(_, _)
NameList(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(R(S)) IN <<x>> \o NameList(S \ {x}, n - 1)
Input(z) == LET l == TLCEval(NameList(Names, R(1..5))) IN TLCEval([j \in 1..Len(l) |-> [name |-> l[j], val |-> TLCEval(Top(j))]])
Public(z) == TLCEval(NameList(Names, R(0..3)))
(* provider maps: names unique within a map *)
AllEntries == {[name |-> IF x < 0 THEN n ELSE n \o "[" \o ToString(x) \o "]", base |-> n, shared |-> s, val |-> 0] : n \in {"a", "b", "in"}, x \in -1..2, s \in {TRUE, FALSE}}
RECURSIVE Map(_, _)
Map(S, n) == IF n = 0 \/ S = {} THEN <<>>
             ELSE LET x == TLCEval(R(S)) IN <<[x EXCEPT !.val = R(1..2)]>> \o Map({y \in S : y.name # x.name}, n - 1)
RECURSIVE Maps(_)
Maps(n) == IF n = 0 THEN <<>> ELSE TLCEval(<<Map(AllEntries, R(0..4))>> \o Maps(n - 1))
Rows(n, b, bad) == TLCEval([j \in 1..n |-> TLCEval([x \in 1..(IF bad = j THEN b + 1 ELSE b) |-> R(0..(P - 1))])])
Job(c) == CASE c <= 4 -> [kind |-> "split", input |-> Input(c), public |-> Public(c)]
  [] c <= 6 -> [kind |-> "merge", maps |-> Maps(TLCEval(R(0..4))), public |-> TLCEval(NameList({"a", "b", "in"}, R(0..2)))]
  [] c <= 7 -> LET b == TLCEval(R(0..4)) IN [kind |-> "unbatch", public |-> Rows(TLCEval(R(0..3)), b, TLCEval(R({0, 0, 0, 1, 2}))), witness |-> Rows(TLCEval(R(0..5)), b, TLCEval(R({0, 0, 0, 0, 2})))]
  [] OTHER -> LET n == TLCEval(R(0..7)) IN [kind |-> "witness", vals |-> TLCEval([j \in 1..n |-> R(0..(P - 1))]), np |-> TLCEval(R(0..n))]
Init == k = 0 /\ out = <<>>
Next == /\ k < 12
        /\ \E c \in {TLCEval(R(1..8))} : out' = Append(out, TLCEval(Job(c)))
        /\ k' = k + 1
Spec == Init /\ [][Next]_<<k, out>>
Emit == k = 12 => PrintT(<<"JOBS", ToJson(out)>>)
=============================================================================
