------------------------------ MODULE Bristol -------------------------------
(* Circuit descriptions as lines of tokens, what makes one well formed, and  *)
(* what a circuit computes. A token is a number [w |-> "", v] or a word.     *)
EXTENDS Integers, Sequences, TLC, FiniteSets
IsNum(t) == t.w = ""
Nums(l) == \A j \in 1..Len(l) : IsNum(l[j])
Sum(s) == LET f[j \in 0..Len(s)] == IF j = 0 THEN 0 ELSE f[j - 1] + s[j] IN f[Len(s)]
Vals(l) == [j \in 1..Len(l) |-> l[j].v]
(* a list of sizes with its length in front *)
SizesOk(l) == Len(l) >= 1 /\ Nums(l) /\ Len(l) = l[1].v + 1
Sizes(l) == SubSeq(Vals(l), 2, Len(l))
Unary(w) == w \in {"EQ", "EQW", "INV"}
Binary(w) == w \in {"AND", "XOR"}
GateOk(l) == \/ /\ Len(l) = 5 /\ Nums(SubSeq(l, 1, 4)) /\ Unary(l[5].w) /\ l[1].v = 1 /\ l[2].v = 1
                /\ (l[5].w = "EQ" => l[3].v \in {0, 1})
             \/ /\ Len(l) = 6 /\ Nums(SubSeq(l, 1, 5)) /\ Binary(l[6].w) /\ l[1].v = 2 /\ l[2].v = 1
Gate(l) == IF Len(l) = 5 THEN [k |-> l[5].w, a |-> l[3].v, b |-> l[3].v, o |-> l[4].v]
           ELSE [k |-> l[6].w, a |-> l[3].v, b |-> l[4].v, o |-> l[5].v]
Reads(g) == IF g.k = "EQ" THEN {} ELSE {g.a, g.b}
Formed(ls) ==
  /\ Len(ls) >= 4 /\ Len(ls[1]) = 2 /\ Nums(ls[1]) /\ SizesOk(ls[2]) /\ SizesOk(ls[3]) /\ ls[4] = <<>>
  /\ Len(ls) >= 4 + ls[1][1].v
  /\ \A j \in 5..Len(ls) : IF j <= 4 + ls[1][1].v THEN GateOk(ls[j]) ELSE ls[j] = <<>>
Parse(ls) == [wires |-> ls[1][2].v, ins |-> Sizes(ls[2]), outs |-> Sizes(ls[3]), gates |-> [j \in 1..ls[1][1].v |-> Gate(ls[4 + j])]]
NIn(c) == Sum(c.ins)
Inputs(c) == 0..(NIn(c) - 1)
OutsUpto(c, j) == {c.gates[k].o : k \in 1..j}
(* every wire is written exactly once, before it is read, and the wires are 0 .. wires - 1 *)
Sound(c) ==
  /\ NIn(c) + Len(c.gates) = c.wires
  /\ \A j \in 1..Len(c.gates) : /\ c.gates[j].o \notin Inputs(c) \cup OutsUpto(c, j - 1)
                                /\ c.gates[j].o \in 0..(c.wires - 1)
                                /\ Reads(c.gates[j]) \subseteq Inputs(c) \cup OutsUpto(c, j - 1)
  /\ Sum(c.outs) <= c.wires
WellFormed(ls) == Formed(ls) /\ Sound(Parse(ls))
Value(g, v) == CASE g.k = "EQ" -> g.a
  [] g.k = "EQW" -> v[g.a]
  [] g.k = "INV" -> 1 - v[g.a]
  [] g.k = "AND" -> v[g.a] * v[g.b]
  [] g.k = "XOR" -> (v[g.a] + v[g.b]) % 2
(* gate by gate *)
RECURSIVE Run(_, _, _)
Run(c, v, j) == IF j > Len(c.gates) THEN v ELSE Run(c, TLCEval((c.gates[j].o :> Value(c.gates[j], v)) @@ v), j + 1)
Start(c, x) == [w \in Inputs(c) |-> x[w + 1]]
(* the bundles of wires, one after the other from wire f on *)
Bundles(f, sizes) == [j \in 1..Len(sizes) |-> [k \in 1..sizes[j] |-> f + Sum(SubSeq(sizes, 1, j - 1)) + k - 1]]
OutWires(c) == Bundles(c.wires - Sum(c.outs), c.outs)
Result(c, x) == LET v == TLCEval(Run(c, Start(c, x), 1)) IN [j \in 1..Len(c.outs) |-> [k \in 1..c.outs[j] |-> v[OutWires(c)[j][k]]]]
Ands(c) == Cardinality({j \in 1..Len(c.gates) : c.gates[j].k = "AND"})
=============================================================================
