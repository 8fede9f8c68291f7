------------------------------- MODULE Rep3Gen -------------------------------
(* Random programs of the ideal machine of the replicated engine. Every      *)
(* operation has an entry: the shapes and kinds of its operands, the domain  *)
(* of its constants, the number of its forms, and what its operands must     *)
(* satisfy. Registers hold values of kind "f" (field), "b" (bits), "g"       *)
(* (points).                                                                 *)
EXTENDS Rep3, Json, IOUtils, FiniteSets
P == atoi(IOEnv.GEN_P)
STEPS == atoi(IOEnv.GEN_STEPS)
KIND == IOEnv.GEN_KIND        \* "arith" | "cmp" | "bin" | "conv" | "gc" | "point"
W == Bits(P)
VARIABLES vals, kind, prog, nst, done
vars == <<vals, kind, prog, nst, done>>
Init == vals = <<>> /\ kind = <<>> /\ prog = <<>> /\ nst = 1 /\ done = FALSE
Rnd(S) == RandomElement(IF done THEN {0} ELSE S)
(* op, shape of A, kind of A, shape of B, kind of B, domain of C, number of forms, condition *)
T(op, sa, ka, sb, kb, dom, forms) == [op |-> op, sa |-> sa, ka |-> ka, sb |-> sb, kb |-> kb, dom |-> dom, forms |-> forms]
Ops ==
  CASE KIND = "arith" -> <<
      T("add", "1", "f", "1", "f", "", 6), T("sub", "1", "f", "1", "f", "", 5), T("addv", "v", "f", "a", "f", "", 1), T("subv", "v", "f", "a", "f", "", 1),
      T("addp", "1", "f", "", "", "f", 2), T("subsp", "1", "f", "", "", "f", 1), T("subps", "1", "f", "", "", "f", 1), T("mulp", "1", "f", "", "", "f", 5),
      T("dbl", "1", "f", "", "", "", 2), T("neg", "1", "f", "", "", "", 2), T("zero", "", "", "", "", "", 3), T("promote", "", "", "", "", "fv", 3),
      T("promotes", "", "", "", "", "ff", 1), T("addmulp", "1", "f", "1", "f", "f", 1), T("evalpoly", "v", "f", "", "", "f", 1), T("pow2", "1", "f", "", "", "shp", 1),
      T("divsp", "1", "f", "", "", "f", 1), T("mul", "1", "f", "1", "f", "", 1), T("mulv", "v", "f", "a", "f", "", 1), T("mull", "v", "f", "a", "f", "", 1),
      T("open", "1", "f", "", "", "", 1), T("openv", "v", "f", "", "", "", 1), T("mulopen", "1", "f", "1", "f", "", 1), T("mulopenv", "v", "f", "a", "f", "", 1),
      T("cmux", "3", "f", "", "", "", 1), T("cmuxv", "4", "f", "3", "f", "", 1), T("addmul", "3", "f", "", "", "", 1), T("rand", "", "", "", "", "", 1),
      T("pow", "1", "f", "", "", "f", 1), T("axor", "1", "f", "1", "f", "", 1), T("axorv", "v", "f", "a", "f", "", 1), T("r23", "v", "f", "", "", "party", 1),
      T("fork", "", "", "", "", "", 1), T("use", "", "", "", "", "state", 1),
      T("inv", "1", "f", "", "", "", 1), T("invv", "v", "f", "", "", "", 1), T("div", "1", "f", "1", "f", "", 1), T("divps", "1", "f", "", "", "f", 1),
      T("sqrt", "1", "f", "", "", "", 1)>>
    [] KIND = "cmp" -> <<
      T("lt", "1", "f", "1", "f", "", 1), T("le", "1", "f", "1", "f", "", 1), T("gt", "1", "f", "1", "f", "", 1), T("ge", "1", "f", "1", "f", "", 1),
      T("ltp", "1", "f", "", "", "f", 1), T("lep", "1", "f", "", "", "f", 1), T("gtp", "1", "f", "", "", "f", 1), T("gep", "1", "f", "", "", "f", 1),
      T("gebit", "1", "f", "1", "f", "", 1), T("lepbit", "1", "f", "", "", "f", 1), T("gepbit", "1", "f", "", "", "f", 1),
      T("eq", "1", "f", "1", "f", "", 1), T("eqv", "v", "f", "a", "f", "", 1), T("eqp", "1", "f", "", "", "f", 1), T("eqpv", "v", "f", "", "", "fa", 1),
      T("eqbit", "1", "f", "1", "f", "", 1), T("eqbitv", "v", "f", "a", "f", "", 1), T("eqbitp", "1", "f", "", "", "f", 1), T("eqbitpv", "v", "f", "", "", "fa", 1),
      T("neq", "1", "f", "1", "f", "", 1), T("neqp", "1", "f", "", "", "f", 1), T("iszero", "1", "f", "", "", "", 1), T("sub", "1", "f", "1", "f", "", 1),
      T("addp", "1", "f", "", "", "f", 1), T("bopen", "1", "b", "", "", "", 2)>>
    [] KIND = "bin" -> <<
      T("bxor", "1", "b", "1", "b", "", 2), T("bxorp", "1", "b", "", "", "b", 2), T("bxorpv", "v", "b", "", "", "ba", 1), T("bor", "1", "b", "1", "b", "", 1),
      T("borp", "1", "b", "", "", "b", 1), T("band", "1", "b", "1", "b", "", 1), T("bandv", "v", "b", "a", "b", "", 1), T("bandp", "1", "b", "", "", "b", 1),
      T("bshr", "1", "b", "", "", "shr", 1), T("bshl", "1", "s", "", "", "sh", 1), T("shlps", "1", "b", "", "", "f", 1), T("bopen", "1", "b", "", "", "", 2),
      T("bpromote", "", "", "", "", "bv", 1), T("bcmux", "3", "b", "", "", "", 1), T("bcmuxv", "6", "b", "", "", "", 1), T("bortree", "v", "b", "", "", "", 1),
      T("biszero", "1", "s", "", "", "", 1), T("biszerov", "v", "s", "", "", "", 1)>>
    [] KIND = "conv" -> <<
      T("a2b", "1", "f", "", "", "", 4), T("a2bv", "v", "f", "", "", "", 2), T("b2a", "1", "r", "", "", "", 4), T("b2av", "v", "r", "", "", "", 1),
      T("bitinj", "1", "t", "", "", "", 2), T("bitinjv", "v", "t", "", "", "", 1), T("a2y2a", "1", "f", "", "", "", 4), T("a2y2av", "v", "f", "", "", "", 1),
      T("b2y2b", "v", "r", "", "", "", 2), T("add", "1", "f", "1", "f", "", 6), T("bxorp", "1", "t", "", "", "t", 2), T("eqbit", "1", "f", "1", "f", "", 1),
      T("mulp", "1", "f", "", "", "f", 3), T("bopen", "1", "b", "", "", "", 2), T("openv", "v", "f", "", "", "", 1)>>
    [] KIND = "gc" -> <<
      T("decomp", "v", "f", "", "", "dec", 2), T("decompo", "v", "f", "", "", "dec", 2), T("slice", "v", "f", "", "", "slice", 2), T("modp2", "1", "f", "", "", "mod", 1),
      T("divp2", "v", "f", "", "", "div", 2), T("idiv", "v", "f", "a", "n", "", 2), T("idivp", "v", "f", "", "", "na", 2), T("idivs", "v", "n", "", "", "fa", 2),
      T("slxor", "v", "f", "a", "f", "rot", 2), T("sland", "v", "f", "a", "f", "rot", 2), T("slxorf", "v", "f", "a", "f", "filter", 2),
      T("sort", "v", "f", "", "", "mod", 1), T("add", "1", "f", "1", "f", "", 1)>>
    [] OTHER -> <<
      T("gadd", "1", "g", "1", "g", "", 5), T("gsub", "1", "g", "1", "g", "", 5), T("gaddp", "1", "g", "", "", "f", 1), T("gsubp", "1", "g", "", "", "f", 1),
      T("gmulpp", "1", "f", "", "", "f", 1), T("gmulps", "1", "g", "", "", "f", 1), T("gmul", "1", "g", "1", "f", "", 1), T("gmulv", "v", "g", "a", "f", "", 1),
      T("gpromote", "", "", "", "", "f", 1), T("gzero", "", "", "", "", "", 1), T("gmsm", "v", "f", "", "", "fa", 1), T("gopen", "1", "g", "", "", "", 1),
      T("gopenv", "v", "g", "", "", "", 1), T("gopenhalf", "1", "g", "1", "f", "", 1), T("gopenf", "1", "g", "1", "f", "", 1), T("gopenfv", "v", "g", "a", "f", "", 1),
      T("giszero", "1", "g", "", "", "", 2), T("mulv", "v", "f", "a", "f", "", 1)>>
(* registers of a kind; "s": short bit strings, "r": canonical field elements in bits, "n": non-zero; "t": bits whose components are single bits *)
BitOut == {"gebit", "lepbit", "gepbit", "eqbit", "eqbitv", "eqbitp", "eqbitpv", "giszero", "biszero", "biszerov"}
IsBits(op, A, B, C, f) == \/ op \in BitOut \/ (op = "binput" /\ f = 3)
                          \/ op \in {"bxor", "bxorp", "bxorpv"} /\ \A j \in 1..Len(A) : kind[A[j]] = "t" /\ (\A k \in 1..Len(B) : kind[B[k]] = "t") /\ (\A k \in 1..Len(C) : C[k] < 2)
Regs(k) == {r \in 1..Len(vals) : CASE k = "s" -> kind[r] \in {"b", "t"} /\ vals[r] < 2 ^ W
                                    [] k = "r" -> kind[r] \in {"b", "t"} /\ vals[r] < P
                                    [] k = "b" -> kind[r] \in {"b", "t"}
                                    [] k = "n" -> kind[r] = "f" /\ vals[r] # 0
                                    [] OTHER -> kind[r] = k}
Const == LET x == Rnd(1..10) IN CASE x = 1 -> 0 [] OTHER -> LET y == Rnd(1..8) IN CASE y = 1 -> 1 [] OTHER -> LET z == Rnd(1..7) IN CASE z = 1 -> P - 1 [] OTHER -> Rnd(0..(P - 1))
BConst == LET x == Rnd(1..6) IN IF x = 1 THEN Rnd(0..(2 ^ W - 1)) ELSE Const
Width(s, n) == CASE s = "" -> 0 [] s = "1" -> 1 [] s = "3" -> 3 [] s = "4" -> 4 [] s = "6" -> 6 [] s = "a" -> n [] OTHER -> Rnd(1..5)
Pick(k, n) == [j \in 1..n |-> Rnd(Regs(k))]
Dom(d, f, A) ==
  CASE d = "" -> <<>>
    [] d \in {"f"} -> <<Const>>
    [] d = "ff" -> <<Const, Const>>
    [] d = "fv" -> [j \in 1..Rnd(1..4) |-> Const]
    [] d = "fa" -> [j \in 1..Len(A) |-> Const]
    [] d = "na" -> [j \in 1..Len(A) |-> Rnd(1..(P - 1))]
    [] d = "b" -> <<BConst>>
    [] d = "bv" -> [j \in 1..Rnd(1..3) |-> BConst]
    [] d = "ba" -> [j \in 1..Len(A) |-> BConst]
    [] d = "t" -> <<Rnd(0..1)>>
    [] d = "sh" -> <<Rnd(0..(IF W < 12 THEN W ELSE 12))>>
    [] d = "shr" -> <<IF Rnd(1..5) = 1 THEN Const ELSE Rnd(0..W)>>
    [] d = "shp" -> <<IF Rnd(1..5) = 1 THEN Const ELSE Rnd(0..(W - 1))>>
    [] d = "bits" -> [j \in 1..Rnd(1..3) |-> Rnd(0..1)]
    [] d = "party" -> <<Rnd(0..2)>>
    [] d = "state" -> <<Rnd(0..(nst - 1))>>
    [] d = "dec" -> LET t == TLCEval(Rnd(1..W)) IN <<t, Rnd(1..(CASE t >= 13 -> 13 [] t = W /\ W < 13 -> W - 1 [] OTHER -> t))>>
    [] d = "slice" -> LET b == TLCEval(Rnd(2..W)) IN LET m == TLCEval(Rnd(1..(b - 1))) IN <<Rnd(0..m), m, b>>
    [] d = "mod" -> <<Rnd(1..W)>>
    [] d = "div" -> <<Rnd(1..(W - 1))>>
    [] d = "rot" -> LET t == TLCEval(Rnd(1..W)) IN <<Rnd(1..(IF t = W THEN W - 1 ELSE t)), 0, t>>
    [] OTHER -> LET w == TLCEval(Rnd(2..4)) IN LET k == TLCEval(Rnd(1..(W \div w))) IN
                [j \in 1..(3 * k) |-> IF j <= k THEN 2 ^ w ELSE IF j <= 2 * k THEN 0 ELSE Rnd(0..1)]
(* one value at a time where the form is the single one *)
Single == {"decomp", "decompo", "slice", "divp2", "idiv", "idivp", "idivs", "slxor", "sland", "slxorf", "giszero"}
Emit(o) ==
  \E f \in {TLCEval(IF o.op = "binput" /\ o.forms = 4 THEN 3 ELSE Rnd(0..(o.forms - 1)))} :
  \E n \in {TLCEval(IF o.op \in Single /\ f = 0 THEN 1 ELSE Width(o.sa, 0))} :
  \E A \in {TLCEval(Pick(o.ka, n))} : \E B \in {TLCEval(Pick(o.kb, Width(o.sb, n)))} : \E C \in {TLCEval(Dom(o.dom, f, A))} :
  LET va == [j \in 1..Len(A) |-> vals[A[j]]]
      vb == [j \in 1..Len(B) |-> vals[B[j]]]
      r == TLCEval(IF o.op = "rand" THEN Ok(<<0>>, <<>>) ELSE Rep3Result(P, o.op, va, vb, C))
      keep == r.ok /\ o.op # "sqrt"
      d == IF r.ok THEN [j \in 1..Len(r.out) |-> Len(vals) + j] ELSE <<>>
      k == IF o.op \in {"rand", "sqrt"} THEN "x" ELSE IF IsBits(o.op, A, B, C, f) THEN "t" ELSE OutKind(o.op)
  IN /\ prog' = Append(prog, [op |-> o.op, d |-> d, a |-> A, b |-> B, c |-> C, f |-> f])
     /\ vals' = IF r.ok THEN vals \o r.out ELSE vals
     /\ kind' = IF r.ok THEN kind \o [j \in 1..Len(r.out) |-> k] ELSE kind
     /\ nst' = IF o.op = "fork" THEN nst + 1 ELSE nst
     /\ UNCHANGED done
Kinds == CASE KIND = "point" -> {"f", "g"} [] KIND = "conv" -> {"f", "b", "t"} [] KIND = "bin" -> {"b", "t"} [] OTHER -> {"f"}
In(k) == \E m \in {TLCEval(Rnd(2..4))} :
           CASE k = "f" -> Emit(T("input", "", "", "", "", "fv", 3))
             [] k = "b" -> IF KIND = "bin" THEN Emit(T("binput", "", "", "", "", "bv", 3)) ELSE Emit(T("binput", "", "", "", "", "fv", 2))
             [] k = "t" -> Emit(T("binput", "", "", "", "", "bits", 4))
             [] OTHER -> Emit(T("ginput", "", "", "", "", "fv", 2))
Missing == {k \in Kinds : Regs(k) = {}}
Ready(o) == /\ (o.ka = "" \/ Regs(o.ka) # {}) /\ (o.kb = "" \/ Regs(o.kb) # {})
            /\ (o.op = "use" => nst > 1) /\ (o.op = "fork" => nst < 4)
            /\ (o.op \in {"inv", "invv", "div", "divps", "sqrt", "giszero"} => P > 10000)
Step == IF Missing # {} THEN In(CHOOSE k \in Missing : TRUE)
        ELSE IF Rnd(1..7) = 1 THEN \E k \in {TLCEval(Rnd(Kinds))} : In(k)
        ELSE \E j \in {TLCEval(Rnd({x \in 1..Len(Ops) : Ready(Ops[x])}))} : Emit(Ops[j])
Next == \/ ~ done /\ Len(prog) < STEPS /\ Step
        \/ ~ done /\ Len(prog) >= STEPS /\ done' = TRUE /\ UNCHANGED <<vals, kind, prog, nst>>
           /\ PrintT(<<"PROG", ToJson([prog |-> prog])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
