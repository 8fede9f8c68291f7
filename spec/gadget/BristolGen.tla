----------------------------- MODULE BristolGen -----------------------------
(* Random circuit descriptions, most of them well formed, some with one or   *)
(* two changed tokens or lines.                                              *)
EXTENDS Bristol, Json, IOUtils
VARIABLES k, out
R(S) == RandomElement(IF k > 100 THEN {0} ELSE S)
N(n) == [w |-> "", v |-> n]
Wd(s) == [w |-> s, v |-> 0]
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET e == TLCEval(R(S)) IN <<e>> \o TLCEval(Perm(S \ {e}))
RECURSIVE GateLines(_, _)
(* avail: wires written; todo: wires still to write *)
GateLines(avail, todo) ==
  IF todo = <<>> THEN <<>>
  ELSE LET o == todo[1]
           kd == TLCEval(IF avail = {} THEN "EQ" ELSE R({"EQ", "EQW", "INV", "AND", "XOR"}))
           a == TLCEval(IF kd = "EQ" THEN R({0, 1}) ELSE R(avail))
           b == TLCEval(IF kd = "EQ" THEN a ELSE R(avail))
           l == IF kd \in {"AND", "XOR"} THEN <<N(2), N(1), N(a), N(b), N(o), Wd(kd)>> ELSE <<N(1), N(1), N(a), N(o), Wd(kd)>>
       IN <<l>> \o TLCEval(GateLines(avail \cup {o}, Tail(todo)))
SizeList(n, m) == TLCEval([j \in 1..n |-> R(0..m)])
RECURSIVE Cut(_, _)
Cut(s, m) == IF Sum(s) <= m THEN s ELSE TLCEval(Cut(Tail(s), m))
Line(l) == TLCEval(<<N(Len(l))>> \o [j \in 1..Len(l) |-> N(l[j])])
Doc(z) == LET ins == TLCEval(SizeList(TLCEval(R(0..3)), 2))
              g == TLCEval(R(0..8))
              ni == Sum(ins)
              outs == TLCEval(Cut(SizeList(TLCEval(R(0..3)), 3), ni + g))
              todo == TLCEval(Perm(ni..(ni + g - 1)))
          IN TLCEval(<<<<N(g), N(ni + g)>>, Line(ins), Line(outs), <<>>>> \o GateLines(0..(ni - 1), todo))
Words == {"EQ", "EQW", "INV", "AND", "XOR", "xor", "NAND", "-1", "EQX"}
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Insert(s, j, x) == SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s))
Mutate(d) ==
  LET c == TLCEval(R(1..12))
      j == TLCEval(R(1..Len(d)))
      l == d[j]
      t == TLCEval(R(1..(IF l = <<>> THEN 1 ELSE Len(l))))
      x == TLCEval(IF R(1..12) = 1 THEN 70000 ELSE R(0..12)) IN
  TLCEval(CASE c <= 5 -> IF l = <<>> THEN d ELSE [d EXCEPT ![j][t] = IF IsNum(l[t]) THEN N(x) ELSE Wd(R(Words))]
    [] c = 6 -> IF l = <<>> THEN d ELSE [d EXCEPT ![j] = Without(l, t)]
    [] c = 7 -> [d EXCEPT ![j] = Insert(l, t, N(x))]
    [] c = 8 -> Without(d, j)
    [] c = 9 -> Insert(d, j, l)
    [] c = 10 -> IF j = Len(d) THEN d ELSE [d EXCEPT ![j] = d[j + 1], ![j + 1] = l]
    [] c = 11 -> Insert(d, j, <<>>)
    [] c = 12 -> Append(d, IF R({1, 2}) = 1 THEN <<>> ELSE <<N(x), Wd("AND")>>))
Init == k = 0 /\ out = <<>>
Next == /\ k < 12
        /\ \E d \in {TLCEval(Doc(k))} : \E m \in {TLCEval(R(0..5))} :
             out' = Append(out, TLCEval(IF m <= 2 THEN d ELSE IF m <= 4 THEN Mutate(d) ELSE Mutate(Mutate(d))))
        /\ k' = k + 1
Spec == Init /\ [][Next]_<<k, out>>
Emit == k = 12 => PrintT(<<"DOCS", ToJson(out)>>)
=============================================================================
