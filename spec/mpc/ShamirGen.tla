------------------------------ MODULE ShamirGen ------------------------------
(* Random programs of the ideal Machine: registers with their values, and    *)
(* states of correlated randomness that are drawn from, refilled and forked. *)
(* An operation that fails on the ideal machine ends in no register.         *)
EXTENDS Machine, TLC, Json, IOUtils, FiniteSets
P == atoi(IOEnv.GEN_P)
STEPS == atoi(IOEnv.GEN_STEPS)
KIND == IOEnv.GEN_KIND        \* "field" | "local" | "point" | "rand"
VARIABLES vals, kind, prog, nst, done
vars == <<vals, kind, prog, nst, done>>
Init == vals = <<>> /\ kind = <<>> /\ prog = <<>> /\ nst = 1 /\ done = FALSE
Regs(k) == {r \in 1..Len(vals) : kind[r] = k}
(* a state-level operator, so that it is drawn anew at every use *)
Rnd(S) == RandomElement(IF done THEN {0} ELSE S)
PickF == Rnd(Regs("f"))
PickG == Rnd(Regs("g"))
(* values with emphasis on the special ones *)
Const == LET x == Rnd(1..10) IN CASE x = 1 -> 0 [] OTHER -> LET y == Rnd(1..8) IN CASE y = 1 -> 1 [] OTHER -> LET z == Rnd(1..7) IN CASE z = 1 -> P - 1 [] OTHER -> Rnd(0..(P - 1))
Form(k) == Rnd(0..k)
Emit(op, A0, B0, C0, f0, outkinds) ==
  \E A \in {TLCEval(A0)}, B \in {TLCEval(B0)}, C \in {TLCEval(C0)}, f \in {TLCEval(f0)} :
  LET va == [j \in 1..Len(A) |-> vals[A[j]]]
      vb == [j \in 1..Len(B) |-> vals[B[j]]]
      r == IF op \in Random THEN Ok([j \in 1..Len(outkinds) |-> 0], <<>>) ELSE Result(P, op, va, vb, C)
      ok == r.ok
      d == IF ok THEN [j \in 1..Len(r.out) |-> Len(vals) + j] ELSE <<>>
  IN /\ prog' = Append(prog, [op |-> op, d |-> d, a |-> A, b |-> B, c |-> C, f |-> f])
     /\ vals' = IF ok THEN vals \o r.out ELSE vals
     /\ kind' = IF ok THEN kind \o [j \in 1..Len(r.out) |-> IF op \in Random THEN "r" ELSE outkinds[1]] ELSE kind
     /\ nst' = IF op = "fork" THEN nst + 1 ELSE nst
     /\ UNCHANGED done
Vec(S(_)) == [j \in 1..Rnd(1..5) |-> S(j)]
F1(j) == PickF
G1(j) == PickG
Inputs == \E m \in {TLCEval(Rnd(1..4))} : \E C \in {TLCEval([j \in 1..m |-> Const])} :
             \/ Emit("input", <<>>, <<>>, C, Form(1), <<"f">>)
             \/ KIND = "point" /\ Emit("ginput", <<>>, <<>>, C, 0, <<"g">>)
SameLen(v) == [j \in 1..Len(v) |-> PickF]
Locals ==
  \E v \in {TLCEval(Vec(F1))} : \E w \in {TLCEval(SameLen(v))} : \E x \in {TLCEval(Const)} : \E a \in {TLCEval(PickF)} : \E b \in {TLCEval(PickF)} :
  \/ Emit("add", <<a>>, <<b>>, <<>>, Form(6), <<"f">>)
  \/ Emit("sub", <<a>>, <<b>>, <<>>, Form(5), <<"f">>)
  \/ Emit("addv", v, w, <<>>, 0, <<"f">>)
  \/ Emit("subv", v, w, <<>>, 0, <<"f">>)
  \/ Emit("addp", <<a>>, <<>>, <<x>>, Form(4), <<"f">>)
  \/ Emit("mulp", <<a>>, <<>>, <<x>>, Form(4), <<"f">>)
  \/ Emit("neg", <<a>>, <<>>, <<>>, Form(2), <<"f">>)
  \/ Emit("zero", <<>>, <<>>, <<>>, Form(1), <<"f">>)
  \/ Emit("promote", <<>>, <<>>, <<x, Const>>, Form(1), <<"f">>)
  \/ Emit("evalpoly", v, <<>>, <<x>>, 0, <<"f">>)
  \/ Emit("divsp", <<a>>, <<>>, <<x>>, 0, <<"f">>)
Inter ==
  \E v \in {TLCEval(Vec(F1))} : \E w \in {TLCEval(SameLen(v))} : \E x \in {TLCEval(Const)} : \E a \in {TLCEval(PickF)} : \E b \in {TLCEval(PickF)} :
  \/ Emit("mul", <<a>>, <<b>>, <<>>, 0, <<"f">>)
  \/ Emit("mulv", v, w, <<>>, 0, <<"f">>)
  \/ Emit("mull", v, w, <<>>, 0, <<"f">>)
  \/ Emit("open", <<a>>, <<>>, <<>>, 0, <<>>)
  \/ Emit("openv", v, <<>>, <<>>, 0, <<>>)
  \/ Emit("mulopenv", v, w, <<>>, 0, <<>>)
  \/ P > 10000 /\ Emit("inv", <<a>>, <<>>, <<>>, 0, <<"f">>)
  \/ P > 10000 /\ Emit("invv", v, <<>>, <<>>, 0, <<"f">>)
  \/ P > 10000 /\ Emit("div", <<a>>, <<b>>, <<>>, 0, <<"f">>)
  \/ P > 10000 /\ Emit("divps", <<a>>, <<>>, <<x>>, 0, <<"f">>)
Rands ==
  \E y \in {TLCEval(Rnd(0..6))} : \E s \in {TLCEval(Rnd(0..(nst - 1)))} :
  \/ Emit("rand", <<>>, <<>>, <<>>, 0, <<"r">>)
  \/ Emit("pair", <<>>, <<>>, <<>>, 0, <<"r", "r">>)
  \/ Emit("buffer", <<>>, <<>>, <<y>>, 0, <<>>)
  \/ nst > 1 /\ Emit("use", <<>>, <<>>, <<s>>, 0, <<>>)
(* a fork may not take more than is there: top up first *)
Fork ==
  \E x \in {TLCEval(Rnd(0..3))} :
  /\ prog' = prog \o <<[op |-> "buffer", d |-> <<>>, a |-> <<>>, b |-> <<>>, c |-> <<x>>, f |-> 0],
                      [op |-> "fork", d |-> <<>>, a |-> <<>>, b |-> <<>>, c |-> <<x>>, f |-> 0]>>
  /\ nst' = nst + 1 /\ UNCHANGED <<vals, kind, done>>
Points ==
  \E a \in {TLCEval(PickG)} : \E b \in {TLCEval(PickG)} : \E x \in {TLCEval(Const)} : \E u \in {TLCEval(PickF)} : \E vf \in {TLCEval(Vec(F1))} : \E vg \in {TLCEval([j \in 1..Len(vf) |-> PickG])} :
  \/ Emit("gadd", <<a>>, <<b>>, <<>>, Form(4), <<"g">>)
  \/ Emit("gsub", <<a>>, <<b>>, <<>>, Form(4), <<"g">>)
  \/ Emit("gaddp", <<a>>, <<>>, <<x>>, Form(1), <<"g">>)
  \/ Emit("gsubp", <<a>>, <<>>, <<x>>, Form(1), <<"g">>)
  \/ Emit("gmulpp", <<u>>, <<>>, <<x>>, 0, <<"g">>)
  \/ Emit("gmulps", <<a>>, <<>>, <<x>>, 0, <<"g">>)
  \/ Emit("gmul", <<a>>, <<u>>, <<>>, 0, <<"g">>)
  \/ Emit("gpromote", <<>>, <<>>, <<x>>, 0, <<"g">>)
  \/ Emit("gmsm", vf, <<>>, [j \in 1..Len(vf) |-> Const], 0, <<"g">>)
  \/ Emit("gopen", <<a>>, <<>>, <<>>, 0, <<>>)
  \/ Emit("gopenv", vg, <<>>, <<>>, 0, <<>>)
  \/ Emit("gopenhalf", <<a>>, <<u>>, <<>>, 0, <<>>)
  \/ Emit("gopenf", <<a>>, <<u>>, <<>>, 0, <<>>)
  \/ Emit("gopenfv", vg, vf, <<>>, 0, <<>>)
Step == IF Regs("f") = {} \/ (KIND = "point" /\ Regs("g") = {}) \/ Rnd(1..8) = 1 THEN Inputs
        ELSE CASE KIND = "local" -> Locals
               [] KIND = "point" -> IF Rnd(1..6) = 1 THEN Locals ELSE Points
               [] KIND = "rand" -> \E x \in {TLCEval(Rnd(1..10))} : IF x < 6 THEN Rands ELSE IF x = 6 /\ nst < 5 THEN Fork ELSE Inter
               [] OTHER -> \E x \in {TLCEval(Rnd(1..10))} : IF x < 4 THEN Locals ELSE IF x = 10 THEN Rands ELSE Inter
Next == \/ ~ done /\ Len(prog) < STEPS /\ Step
        \/ ~ done /\ Len(prog) >= STEPS /\ done' = TRUE /\ UNCHANGED <<vals, kind, prog, nst>>
           /\ PrintT(<<"PROG", ToJson([prog |-> prog])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
