-------------------------------- MODULE VmMC --------------------------------
(* The virtual machine itself: bytecode run step by step on values of which  *)
(* some are shared. A shared value may not decide where execution goes, so   *)
(* both branches of a shared condition run and every effect is selected by   *)
(* the condition. Checked: what the machine ends with is what the program    *)
(* means, whichever values are shared.                                       *)
EXTENDS Circom, FiniteSets
CONSTANTS P, Deep
V(x, sh) == [v |-> x, sh |-> sh]
Pub(x) == V(x, FALSE)
Op2(op, a, b) == V(Bin(P, op, a.v, b.v), a.sh \/ b.sh)
And2(a, b) == V((a.v * b.v) % P, a.sh \/ b.sh)
Not1(a) == V((1 - a.v) % P, a.sh)
Mux(c, t, f) == V(IF c.v = 1 THEN t.v ELSE f.v, c.sh \/ t.sh \/ f.sh)
-----------------------------------------------------------------------------
(* programs: signals 0, 1 are outputs; 2 is a bit, 3 any value, 4 a public bit *)
K == <<0, 1, 2>>
C0 == <<"c", 0>>
C1 == <<"c", 1>>
BitS == <<"s", 2>>
Any1 == <<"s", 3>>
PubBit == <<"s", 4>>
Leaf == {<<"ss", 0, <<Any1>>>>, <<"ss", 1, <<<<"Add", <<"s", 0>>, C1>>>>>>, <<"sv", 0, <<<<"Div", C1, Any1>>>>>>, <<"as", Any1>>}
Conds == {BitS, PubBit, <<"Eq", Any1, C0>>}
Ifs(T, E) == {<<"if", c, <<t>>, <<>>>> : c \in Conds, t \in T} \cup {<<"if", c, <<t>>, <<e>>>> : c \in Conds, t \in T, e \in E}
L1 == Leaf \cup Ifs(Leaf, Leaf)
Leaf2 == IF Deep = 0 THEN {<<"ss", 0, <<Any1>>>>, <<"as", Any1>>} ELSE Leaf
L2 == IF Deep = 2 THEN Ifs(L1, L1) ELSE Ifs(Leaf \cup Ifs(Leaf2, Leaf2), Leaf2)
End == <<"ss", 1, <<<<"Add", <<"s", 1>>, <<"v", 0>>>>>>>>
Templates == {<<s, End>> : s \in L2} \cup {<<s, t, End>> : s \in Ifs(Leaf2, Leaf2), t \in Ifs(Leaf2, Leaf2)}
(* functions: parameter 0 any value, 1 a public bit, 2 a bit; one local *)
FConds == {<<"Eq", <<"v", 0>>, C0>>, <<"v", 1>>, <<"v", 2>>}
RetA == <<"ret", C1>>
RetB == <<"ret", <<"Div", C1, <<"v", 0>>>>>>
FLeaf == {RetA, RetB, <<"as", <<"v", 0>>>>, <<"sv", 3, <<<<"Div", C1, <<"v", 0>>>>>>>>}
FIfs == {<<"if", c, <<t>>, <<>>>> : c \in FConds, t \in FLeaf} \cup {<<"if", c, <<t>>, <<e>>>> : c \in FConds, t \in {RetA, RetB}, e \in {RetA, <<"sv", 3, <<C1>>>>}}
FShort == {<<"if", c, <<t>>, <<>>>> : c \in FConds, t \in {RetA, <<"as", <<"v", 0>>>>}}
FNest == IF Deep = 2 THEN {<<"if", c, <<s>>, e>> : c \in FConds, s \in FIfs, e \in {<<>>, <<RetA>>}} ELSE {<<"if", c, <<s>>, <<>>>> : c \in FConds, s \in FIfs}
FLoop == <<"while", <<"Lt", <<"v", 4>>, <<"c", 2>>>>, <<<<"if", <<"Eq", <<"v", 0>>, <<"v", 4>>>>, <<<<"ret", <<"Add", <<"v", 4>>, C1>>>>>>, <<>>>>, <<"sv", 4, <<<<"Add", <<"v", 4>>, C1>>>>>>>>>>
Last == {<<"ret", <<"Add", <<"v", 3>>, C1>>>>, RetB}
Bodies == {<<s, l>> : s \in FNest, l \in Last} \cup {<<s, t, l>> : s \in FIfs, t \in IF Deep = 0 THEN FShort ELSE FIfs, l \in IF Deep = 0 THEN {RetB} ELSE Last}
          \cup {<<FLoop, l>> : l \in Last} \cup {<<<<"if", c, <<RetA>>, <<RetB>>>>>> : c \in FConds}
Args == <<Any1, PubBit, BitS>>
CallF == <<"call", "f", Args, 1, 0>>
Looping(b) == b[1][1] = "while"
Mains(b) == {<<CallF, <<"ss", 0, <<<<"v", 0>>>>>>>>}
            \cup (IF Looping(b) THEN {<<<<"if", PubBit, <<CallF>>, <<>>>>, <<"ss", 0, <<<<"v", 0>>>>>>>>}
                  ELSE {<<<<"if", c, <<CallF>>, e>>, <<"ss", 0, <<<<"v", 0>>>>>>>> : c \in Conds, e \in {<<>>, <<<<"sv", 0, <<C1>>>>>>}})
G == <<<<"if", <<"Eq", <<"v", 0>>, C0>>, <<RetA>>, <<>>>>, RetB>>
ViaG == {<<<<"if", c, <<<<"call", "g", <<<<"v", 0>>>>, 1, 3>>>>, <<>>>>, l>> : c \in FConds, l \in Last} \cup {<<s, <<"call", "g", <<<<"v", 0>>>>, 1, 3>>, l>> : s \in FIfs, l \in Last}
Fun(n, v, b) == [params |-> n, vars |-> v, body |-> b]
Prog(main, f) == [p |-> P, nsig |-> 6, main |-> "main",
  funs |-> [n \in {"f", "g"} |-> IF n = "f" THEN Fun(3, 5, f) ELSE Fun(1, 1, G)],
  templs |-> [n \in {"main"} |-> [name |-> "main", ins |-> 3, outs |-> 2, vars |-> 1, map |-> <<>>, body |-> main]]]
AllProgs == {Prog(b, G) : b \in Templates} \cup UNION {{Prog(m, f) : m \in Mains(f)} : f \in Bodies \cup ViaG}
Coded(pr) == [pr |-> pr, main |-> TemplCode(K, pr.templs["main"]), f |-> FunCode(K, pr.funs["f"]), g |-> FunCode(K, pr.funs["g"])]
Progs == LET S == AllProgs IN {Coded(q) : q \in S}
-----------------------------------------------------------------------------
VARIABLES q, ins, m
vs == <<q, ins, m>>
(* m: at (which code), ip, fs (values), is (indices), ifs, vars, rets (returns under shared conditions), calls, sig, st *)
Fresh(x) == [at |-> "main", ip |-> 1, fs |-> <<>>, is |-> <<>>, ifs |-> <<>>, vars |-> <<Pub(0)>>, rets |-> <<>>, calls |-> <<>>,
             sig |-> <<Pub(0), Pub(0), V(x[1], x[4]), V(x[2], x[5]), Pub(x[3])>>, st |-> "run"]
Code == IF m.at = "main" THEN q.main ELSE IF m.at = "f" THEN q.f ELSE q.g
Top(s) == s[Len(s)]
Rest(s, k) == SubSeq(s, 1, Len(s) - k)
SharedIfs(s) == {k \in 1..Len(s) : s[k].kind = "shared"}
IsShared == SharedIfs(m.ifs) # {}
Cond == LET S == SharedIfs(m.ifs) IN m.ifs[CHOOSE k \in S : \A j \in S : j <= k].acc
RECURSIVE NotTaken(_, _)
NotTaken(rs, c) == IF rs = <<>> THEN c ELSE NotTaken(Tail(rs), And2(c, Not1(Head(rs).c)))
Callers == LET RECURSIVE all(_)
               all(k) == IF k > Len(m.calls) THEN <<>> ELSE m.calls[k].rets \o all(k + 1)
           IN all(1)
(* the shared condition under which an instruction takes effect *)
Masked == IsShared \/ Callers # <<>> \/ m.rets # <<>>
Active == NotTaken(Callers \o m.rets, IF IsShared THEN Cond ELSE Pub(1))
Fail(s) == m' = [m EXCEPT !.st = s]
Leave(v) == LET c == Top(m.calls)
            IN m' = [m EXCEPT !.at = c.at, !.ip = c.ip + 1, !.vars = c.vars, !.rets = c.rets, !.fs = Append(c.fs, v), !.is = c.is, !.calls = Rest(@, 1)]
RECURSIVE Combine(_, _)
Combine(rs, acc) == IF rs = <<>> THEN acc ELSE Combine(Tail(rs), V((acc.v + (Head(rs).c.v * Head(rs).v.v)) % P, acc.sh \/ Head(rs).c.sh \/ Head(rs).v.sh))
Step ==
  LET I == Code[m.ip]
      t == Top(m.fs)
      next == m.ip + 1
      push(x, k) == [m EXCEPT !.ip = next, !.fs = Append(Rest(@, k), x)]
  IN CASE I[1] = "PushConstant" -> m' = push(Pub(K[I[2] + 1]), 0)
       [] I[1] = "PushIndex" -> m' = [m EXCEPT !.ip = next, !.is = Append(@, I[2])]
       [] I[1] = "LoadSignals" -> m' = [m EXCEPT !.ip = next, !.fs = Append(@, m.sig[Top(m.is) + 1]), !.is = Rest(@, 1)]
       [] I[1] = "LoadVars" -> m' = [m EXCEPT !.ip = next, !.fs = Append(@, m.vars[Top(m.is) + 1]), !.is = Rest(@, 1)]
       [] I[1] = "StoreSignals" -> m' = [m EXCEPT !.ip = next, !.sig[Top(m.is) + 1] = IF IsShared THEN Mux(Cond, t, @) ELSE t, !.is = Rest(@, 1), !.fs = Rest(@, 1)]
       [] I[1] = "StoreVars" -> m' = [m EXCEPT !.ip = next, !.vars[Top(m.is) + 1] = IF IsShared THEN Mux(Cond, t, @) ELSE t, !.is = Rest(@, 1), !.fs = Rest(@, 1)]
       [] I[1] \in {"Add", "Sub", "Mul", "Eq", "Lt"} -> m' = push(Op2(I[1], m.fs[Len(m.fs) - 1], t), 2)
       [] I[1] = "Div" -> LET d == IF Masked THEN Mux(Active, t, Pub(1)) ELSE t
                          IN IF d.v = 0 THEN Fail("failed") ELSE m' = push(Op2("Div", m.fs[Len(m.fs) - 1], d), 2)
       [] I[1] = "Assert" -> LET a == IF Masked THEN Mux(Active, t, Pub(1)) ELSE t
                             IN IF a.v = 0 THEN Fail("failed") ELSE m' = [m EXCEPT !.ip = next, !.fs = Rest(@, 1)]
       [] I[1] = "If" ->
            IF t.sh THEN LET last == IF IsShared THEN Cond ELSE Pub(1)
                         IN m' = [m EXCEPT !.ip = next, !.fs = Rest(@, 1), !.ifs = Append(@, [kind |-> "shared", last |-> last, acc |-> And2(last, t), cond |-> t])]
            ELSE IF t.v = 0
                 THEN m' = [m EXCEPT !.ip = @ + I[2], !.fs = Rest(@, 1), !.ifs = IF Code[m.ip + I[2] - 1] = <<"EndTruthyBranch", 0>> THEN @ ELSE Append(@, [kind |-> "public"])]
                 ELSE m' = [m EXCEPT !.ip = next, !.fs = Rest(@, 1), !.ifs = Append(@, [kind |-> "public"])]
       [] I[1] = "EndTruthyBranch" ->
            IF Top(m.ifs).kind = "public" THEN m' = [m EXCEPT !.ip = @ + (IF I[2] > 1 THEN I[2] ELSE 1), !.ifs = Rest(@, 1)]
            ELSE IF I[2] = 0 THEN m' = [m EXCEPT !.ip = next, !.ifs = Rest(@, 1)]
            ELSE m' = [m EXCEPT !.ip = next, !.ifs[Len(m.ifs)].acc = And2(Top(m.ifs).last, Not1(Top(m.ifs).cond))]
       [] I[1] = "EndFalsyBranch" -> m' = [m EXCEPT !.ip = next, !.ifs = Rest(@, 1)]
       [] I[1] = "JumpIfFalse" -> IF t.sh THEN Fail("leak") ELSE m' = [m EXCEPT !.ip = IF t.v = 0 THEN @ + I[2] ELSE next, !.fs = Rest(@, 1)]
       [] I[1] = "JumpBack" -> m' = [m EXCEPT !.ip = @ - I[2]]
       [] I[1] = "Call" -> LET f == q.pr.funs[I[2]]
                               args == SubSeq(m.fs, Len(m.fs) - f.params + 1, Len(m.fs))
                           IN m' = [m EXCEPT !.calls = Append(@, [at |-> m.at, ip |-> m.ip, vars |-> m.vars, rets |-> m.rets, fs |-> Rest(m.fs, f.params), is |-> m.is]),
                                    !.at = I[2], !.ip = 1, !.rets = <<>>, !.fs = <<>>, !.is = <<>>, !.vars = [k \in 1..f.vars |-> IF k <= f.params THEN args[k] ELSE Pub(0)]]
       [] I[1] = "ReturnFun" ->
            IF IsShared THEN m' = [m EXCEPT !.ip = next, !.fs = Rest(@, 1), !.rets = Append(@, [c |-> NotTaken(m.rets, Cond), v |-> t])]
            ELSE IF m.rets # <<>> THEN Leave(Combine(Append(m.rets, [c |-> NotTaken(m.rets, Pub(1)), v |-> t]), Pub(0)))
            ELSE Leave(t)
       [] I[1] = "ReturnSharedIfFun" -> Leave(Combine(m.rets, Pub(0)))
       [] I[1] = "Return" -> Fail("done")
Init == /\ q \in Progs
        /\ ins \in (0..1) \X (0..(IF Deep = 0 THEN 1 ELSE 2)) \X (0..1) \X BOOLEAN \X BOOLEAN
        /\ m = Fresh(ins)
Next == m.st = "run" /\ Step /\ UNCHANGED <<q, ins>>
Spec == Init /\ [][Next]_vs /\ WF_vs(Next)
Ended == <>(m.st # "run")
-----------------------------------------------------------------------------
NoLeak == m.st # "leak"
(* a finished run has the program's witness; a failed one had none *)
Right == m.st \in {"done", "failed"} =>
  LET w == Witness(q.pr, <<ins[1], ins[2], ins[3]>>)
  IN CASE w.fail = Undef -> TRUE
       [] w.fail # 0 -> m.st = "failed"
       [] OTHER -> m.st = "done" /\ \A k \in 1..5 : m.sig[k].v = w.sig[k + 1]
(* nothing is left behind; what does not depend on a shared value is public *)
Clean == m.st = "done" => SharedIfs(m.ifs) = {} /\ m.calls = <<>> /\ m.fs = <<>> /\ m.is = <<>>
Tagged == (m.st = "done" /\ ~ ins[4] /\ ~ ins[5]) => \A k \in 1..5 : ~ m.sig[k].sh
=============================================================================
