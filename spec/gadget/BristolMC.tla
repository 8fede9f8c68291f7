----------------------------- MODULE BristolMC ------------------------------
(* Every small circuit, every input, every order of evaluation in which a    *)
(* gate runs once its inputs are there - in particular every grouping into   *)
(* levels that respects the depth - gives the outputs of the description,    *)
(* and never gets stuck.                                                     *)
EXTENDS Bristol
CONSTANTS NI, NG, Kinds
VARIABLES c, x, v, ran
vars == <<c, x, v, ran>>
Circ(g) == [wires |-> NI + NG, ins |-> <<NI>>, outs |-> <<2>>, gates |-> g]
Gates(j) == {[k |-> k, a |-> a, b |-> b, o |-> o] : k \in Kinds, a \in 0..(NI + NG - 1), b \in 0..(NI + NG - 1), o \in NI..(NI + NG - 1)}
Fine(g) == /\ (g.k = "EQ" => g.a \in {0, 1} /\ g.b = g.a)
           /\ (g.k \in {"EQW", "INV"} => g.b = g.a)
           /\ (g.k \in {"AND", "XOR"} => g.a <= g.b)
RECURSIVE Circuits(_)
Circuits(j) == IF j = 0 THEN {<<>>}
               ELSE UNION {{Append(s, g) : g \in {g \in Gates(j) : /\ Fine(g)
                                                                    /\ g.o \notin {s[q].o : q \in 1..Len(s)}
                                                                    /\ Reads(g) \subseteq (0..(NI - 1)) \cup {s[q].o : q \in 1..Len(s)}}} : s \in Circuits(j - 1)}
Init == /\ c \in {Circ(g) : g \in Circuits(NG)} /\ Sound(c)
        /\ x \in [1..NI -> {0, 1}] /\ v = Start(c, x) /\ ran = {}
Next == /\ \E j \in (1..Len(c.gates)) \ ran : /\ Reads(c.gates[j]) \subseteq DOMAIN v
                                              /\ v' = (c.gates[j].o :> Value(c.gates[j], v)) @@ v
                                              /\ ran' = ran \cup {j}
        /\ UNCHANGED <<c, x>>
Spec == Init /\ [][Next]_vars
Confluent == ran = 1..NG => v = Run(c, Start(c, x), 1)
NotStuck == ran # 1..NG => ENABLED Next
(* depths as the levels use them: ANDs first, then everything else of that level *)
RECURSIVE Depth(_)
Writer(w) == CHOOSE g \in {c.gates[j] : j \in 1..NG} : g.o = w
Max(S) == CHOOSE m \in S : \A n \in S : n <= m
Depth(w) == IF w < NI THEN <<0, 0>>
            ELSE LET g == Writer(w)
                     d == {Depth(r) : r \in Reads(g)} IN
                 IF d = {} THEN <<0, 0>>
                 ELSE IF g.k = "AND" THEN <<Max({y[1] : y \in d}) + 1, 0>>
                 ELSE <<Max({y[1] : y \in d}), Max({y[2] : y \in {z \in d : z[1] = Max({y[1] : y \in d})}}) + 1>>
Before(d, e) == d[1] < e[1] \/ (d[1] = e[1] /\ d[2] < e[2])
LevelsSound == ran = {} => \A j \in 1..NG : \A r \in Reads(c.gates[j]) : r >= NI => Before(Depth(r), Depth(c.gates[j].o))
=============================================================================
