------------------------------- MODULE Circom -------------------------------
(* Witness generation: a small circom-like language, what it means, and how  *)
(* it is laid out as bytecode.                                               *)
(*                                                                           *)
(* An expression is a sequence whose first element names it:                 *)
(*   <<"c", value>>                  constant                                *)
(*   <<"v", o>> <<"vi", o, s, e>>    variable, variable at o + s * e         *)
(*   <<"s", o>> <<"si", o, s, e>>    signal of this component                *)
(*   <<"o", c, o>> <<"om", c, m, o>> signal of a sub-component               *)
(*   <<"Neg", e>> <<"EqN", es, es>> <<op, e, e>>                             *)
(* A statement:                                                              *)
(*   <<"sv", o, es>> <<"svi", o, s, i, e>>  store variables                  *)
(*   <<"ss", o, es>> <<"ssi", o, s, i, e>>  store signals                    *)
(*   <<"if", c, T, E>> <<"while", c, B>>                                     *)
(*   <<"call", f, es, n, o>>         call with n results into variables      *)
(*   <<"ret", e>> <<"retn", o, n>>   return a value, or n variables          *)
(*   <<"as", e>> <<"log", e>>                                                *)
(*   <<"mk", t, off, jump, n>>       create n sub-components                 *)
(*   <<"in", c, o, es>> <<"inm", c, m, o, es>>  feed a sub-component         *)
(* A program is a record of functions [params, vars, body], templates        *)
(* [name, ins, outs, vars, map, body] and the name of the main template.     *)
EXTENDS Field, Bitwise, TLC, Sequences
Failed == -1      \* no witness exists
Undef == -2       \* outside of what the language defines
Half(p) == (p + 1) \div 2
(* the number that a field element stands for, shifted so that negative ones come first *)
Signed(p, z) == (z - Half(p)) % p
B(x) == IF x THEN 1 ELSE 0
RECURSIVE Pow2(_, _)
Pow2(p, k) == IF k = 0 THEN 1 ELSE (2 * Pow2(p, k - 1)) % p
Root(p, a) == IF \E r \in 0..(p \div 2) : (r * r) % p = a THEN CHOOSE r \in 0..(p \div 2) : (r * r) % p = a ELSE Failed
Bin(p, op, a, b) ==
  CASE op = "Add" -> (a + b) % p
    [] op = "Sub" -> (a - b) % p
    [] op = "Mul" -> (a * b) % p
    [] op = "Div" -> IF b = 0 THEN Failed ELSE FDiv(p, a, b)
    [] op = "IntDiv" -> IF b = 0 THEN Undef ELSE a \div b
    [] op = "Mod" -> IF b = 0 THEN Undef ELSE a % b
    [] op = "Pow" -> FPow(p, a, b)
    [] op = "Lt" -> B(Signed(p, a) < Signed(p, b))
    [] op = "Le" -> B(Signed(p, a) <= Signed(p, b))
    [] op = "Gt" -> B(Signed(p, a) > Signed(p, b))
    [] op = "Ge" -> B(Signed(p, a) >= Signed(p, b))
    [] op = "Eq" -> B(a = b)
    [] op = "Neq" -> B(a # b)
    [] op = "ShiftR" -> IF b > 30 THEN 0 ELSE a \div (2 ^ b)
    [] op = "ShiftL" -> (a * Pow2(p, b)) % p
    [] op = "BitAnd" -> (a & b) % p
    [] op = "BitOr" -> (a | b) % p
    [] op = "BitXor" -> (a ^^ b) % p
    [] op = "BoolAnd" -> IF a \in {0, 1} /\ b \in {0, 1} THEN a * b ELSE Undef
    [] op = "BoolOr" -> IF a \in {0, 1} /\ b \in {0, 1} THEN B(a + b > 0) ELSE Undef
RECURSIVE Ev(_, _, _), EvAll(_, _, _, _)
(* st: vars, sig, off (where the component's signals start), comps, done, ret, fail *)
Sig(st, a) == st.sig[a + 1]
Ev(p, st, e) ==
  CASE e[1] = "c" -> e[2] % p
    [] e[1] = "v" -> st.vars[e[2] + 1]
    [] e[1] = "vi" -> LET i == Ev(p, st, e[4]) IN IF i < 0 THEN i ELSE IF e[2] + (e[3] * i) + 1 > Len(st.vars) THEN Undef ELSE st.vars[e[2] + (e[3] * i) + 1]
    [] e[1] = "s" -> Sig(st, st.off + e[2])
    [] e[1] = "si" -> LET i == Ev(p, st, e[4]) IN IF i < 0 THEN i ELSE Sig(st, st.off + e[2] + (e[3] * i))
    [] e[1] = "o" -> Sig(st, st.comps[e[2] + 1].off + e[3])
    [] e[1] = "om" -> Sig(st, st.comps[e[2] + 1].off + e[4] + st.comps[e[2] + 1].map[e[3] + 1])
    [] e[1] = "Neg" -> LET x == Ev(p, st, e[2]) IN IF x < 0 THEN x ELSE (-x) % p
    [] e[1] = "EqN" -> LET a == EvAll(p, st, e[2], 1)
                           b == EvAll(p, st, e[3], 1)
                       IN IF \E k \in 1..Len(a) : a[k] < 0 THEN Failed ELSE IF \E k \in 1..Len(b) : b[k] < 0 THEN Failed ELSE B(a = b)
    [] OTHER -> LET a == Ev(p, st, e[2])
                    b == Ev(p, st, e[3])
                IN IF a < 0 THEN a ELSE IF b < 0 THEN b ELSE Bin(p, e[1], a, b)
EvAll(p, st, es, k) == IF k > Len(es) THEN <<>> ELSE <<Ev(p, st, es[k])>> \o EvAll(p, st, es, k + 1)
Bad(vs) == \E k \in 1..Len(vs) : vs[k] < 0
First(vs) == vs[CHOOSE k \in 1..Len(vs) : vs[k] < 0 /\ \A j \in 1..(k - 1) : vs[j] >= 0]
Zeros(n) == [k \in 1..n |-> 0]
(* s with vs stored from position a on, growing when needed *)
PutAt(s, a, vs) == [k \in 1..(IF a + Len(vs) > Len(s) THEN a + Len(vs) ELSE Len(s)) |->
                     IF k > a /\ k <= a + Len(vs) THEN vs[k - a] ELSE IF k <= Len(s) THEN s[k] ELSE 0]
Slice(s, a, n) == [k \in 1..n |-> IF a + k <= Len(s) THEN s[a + k] ELSE 0]
Bit(x, k) == IF k > 30 THEN 0 ELSE (x \div (2 ^ k)) % 2
RECURSIVE Msb(_, _, _)
Msb(p, bits, acc) == IF bits = <<>> THEN acc ELSE Msb(p, Tail(bits), ((2 * acc) + Head(bits)) % p)
(* what the library templates compute: outputs and intermediate signals *)
Library == {"Num2Bits", "AddBits", "IsZero"}
LibRun(p, name, ins, outs) ==
  CASE name = "Num2Bits" -> [out |-> [k \in 1..outs |-> Bit(ins[1], k - 1)], mid |-> <<>>]
    [] name = "AddBits" -> LET n == Len(ins) \div 2
                               s == (Msb(p, SubSeq(ins, 1, n), 0) + Msb(p, SubSeq(ins, n + 1, 2 * n), 0)) % p
                           IN [out |-> [k \in 1..n |-> Bit(s, n - k)], mid |-> <<Bit(s, n)>>]
    [] OTHER -> [out |-> <<B(ins[1] = 0)>>, mid |-> <<IF ins[1] = 0 THEN 0 ELSE FInv(p, ins[1])>>]
RECURSIVE Run(_, _, _, _), Exec(_, _, _), RunComp(_, _, _, _), Feed(_, _, _, _, _), Make(_, _, _, _, _, _)
Run(pr, st, ss, k) == IF k > Len(ss) \/ st.done \/ st.fail # 0 THEN st ELSE Run(pr, TLCEval(Exec(pr, st, ss[k])), ss, k + 1)
RunComp(pr, t, off, sig) ==
  LET T == pr.templs[t]
      in == Slice(sig, off + T.outs, T.ins)
      lib == LibRun(pr.p, T.name, in, T.outs)
      r == Run(pr, [vars |-> Zeros(T.vars), sig |-> sig, off |-> off, comps |-> <<>>, done |-> FALSE, ret |-> <<>>, fail |-> 0], T.body, 1)
  IN IF T.name \in Library
     THEN [sig |-> PutAt(PutAt(sig, off, lib.out), off + T.outs + T.ins, lib.mid), fail |-> 0]
     ELSE [sig |-> r.sig, fail |-> r.fail]
Make(pr, st, t, off, jump, n) ==
  IF n = 0 THEN st
  ELSE LET r == IF pr.templs[t].ins = 0 THEN RunComp(pr, t, off, st.sig) ELSE [sig |-> st.sig, fail |-> 0]
       IN IF r.fail # 0 THEN [st EXCEPT !.fail = r.fail]
          ELSE Make(pr, [st EXCEPT !.sig = r.sig, !.comps = Append(@, [t |-> t, off |-> off, map |-> pr.templs[t].map, got |-> 0])], t, off + jump, jump, n - 1)
Feed(pr, st, c, o, vs) ==
  LET C == st.comps[c + 1]
      sig == PutAt(st.sig, C.off + o, vs)
      got == C.got + Len(vs)
      st2 == [st EXCEPT !.sig = sig, !.comps[c + 1].got = got]
  IN IF got = pr.templs[C.t].ins
     THEN LET r == RunComp(pr, C.t, C.off, sig) IN [st2 EXCEPT !.sig = r.sig, !.fail = r.fail]
     ELSE st2
Stored(st, field, a, vs) ==
  IF Bad(vs) THEN [st EXCEPT !.fail = First(vs)]
  ELSE IF field = "vars" THEN [st EXCEPT !.vars = PutAt(@, a, vs)] ELSE [st EXCEPT !.sig = PutAt(@, st.off + a, vs)]
Exec(pr, st, s) ==
  LET p == pr.p IN
  CASE s[1] \in {"sv", "ss"} -> Stored(st, IF s[1] = "sv" THEN "vars" ELSE "sig", s[2], TLCEval(EvAll(p, st, s[3], 1)))
    [] s[1] \in {"svi", "ssi"} -> LET i == Ev(p, st, s[4])
                                      vs == TLCEval(EvAll(p, st, <<s[5]>>, 1))
                                  IN IF i < 0 THEN [st EXCEPT !.fail = i] ELSE Stored(st, IF s[1] = "svi" THEN "vars" ELSE "sig", s[2] + (s[3] * i), vs)
    [] s[1] = "if" -> LET c == Ev(p, st, s[2])
                      IN IF c < 0 THEN [st EXCEPT !.fail = c]
                         ELSE IF c > 1 THEN [st EXCEPT !.fail = Undef]
                         ELSE Run(pr, st, IF c = 1 THEN s[3] ELSE s[4], 1)
    [] s[1] = "while" -> LET c == Ev(p, st, s[2])
                         IN IF c < 0 THEN [st EXCEPT !.fail = c]
                            ELSE IF c = 0 THEN st
                            ELSE LET st2 == TLCEval(Run(pr, st, s[3], 1)) IN IF st2.done \/ st2.fail # 0 THEN st2 ELSE Exec(pr, st2, s)
    [] s[1] = "call" -> LET vs == TLCEval(EvAll(p, st, s[3], 1))
                        IN IF Bad(vs) THEN [st EXCEPT !.fail = First(vs)]
                           ELSE IF s[2] = "sqrt_0" THEN LET r == Root(p, vs[1]) IN IF r < 0 THEN [st EXCEPT !.fail = r] ELSE [st EXCEPT !.vars = PutAt(@, s[5], <<r>>)]
                           ELSE LET f == pr.funs[s[2]]
                                    r == TLCEval(Run(pr, [st EXCEPT !.vars = PutAt(Zeros(f.vars), 0, vs), !.ret = <<>>], f.body, 1))
                                IN IF r.fail # 0 THEN [st EXCEPT !.fail = r.fail]
                                   ELSE IF Len(r.ret) # s[4] THEN [st EXCEPT !.fail = Undef]
                                   ELSE [st EXCEPT !.vars = PutAt(@, s[5], r.ret)]
    [] s[1] = "ret" -> LET x == Ev(p, st, s[2]) IN IF x < 0 THEN [st EXCEPT !.fail = x] ELSE [st EXCEPT !.ret = <<x>>, !.done = TRUE]
    [] s[1] = "retn" -> [st EXCEPT !.ret = Slice(st.vars, s[2], s[3]), !.done = TRUE]
    [] s[1] = "as" -> LET x == Ev(p, st, s[2]) IN IF x < 0 THEN [st EXCEPT !.fail = x] ELSE IF x = 0 THEN [st EXCEPT !.fail = Failed] ELSE st
    [] s[1] = "log" -> LET x == Ev(p, st, s[2]) IN IF x < 0 THEN [st EXCEPT !.fail = x] ELSE st
    [] s[1] = "mk" -> Make(pr, st, s[2], st.off + s[3], s[4], s[5])
    [] s[1] = "in" -> LET vs == TLCEval(EvAll(p, st, s[4], 1)) IN IF Bad(vs) THEN [st EXCEPT !.fail = First(vs)] ELSE Feed(pr, st, s[2], s[3], vs)
    [] s[1] = "inm" -> LET vs == TLCEval(EvAll(p, st, s[5], 1))
                       IN IF Bad(vs) THEN [st EXCEPT !.fail = First(vs)] ELSE Feed(pr, st, s[2], s[4] + st.comps[s[2] + 1].map[s[3] + 1], vs)
(* all signals after a run of the main component, or the reason why there is no witness *)
Witness(pr, inputs) ==
  LET T == pr.templs[pr.main]
      sig == PutAt(PutAt(Zeros(pr.nsig), 0, <<1>>), 1 + T.outs, inputs)
  IN RunComp(pr, pr.main, 1, sig)
-----------------------------------------------------------------------------
(* the layout as bytecode *)
Idx(K, v) == (CHOOSE k \in 1..Len(K) : K[k] = v) - 1
RECURSIVE CE(_, _), CEs(_, _, _), CS(_, _), CB(_, _, _)
At(K, e) == CE(K, e[4]) \o <<<<"ToIndex">>, <<"PushIndex", e[3]>>, <<"MulIndex">>, <<"PushIndex", e[2]>>, <<"AddIndex">>>>
CE(K, e) ==
  CASE e[1] = "c" -> <<<<"PushConstant", Idx(K, e[2])>>>>
    [] e[1] = "v" -> <<<<"PushIndex", e[2]>>, <<"LoadVars", 1>>>>
    [] e[1] = "s" -> <<<<"PushIndex", e[2]>>, <<"LoadSignals", 1>>>>
    [] e[1] = "vi" -> At(K, e) \o <<<<"LoadVars", 1>>>>
    [] e[1] = "si" -> At(K, e) \o <<<<"LoadSignals", 1>>>>
    [] e[1] = "o" -> <<<<"PushIndex", e[3]>>, <<"PushIndex", e[2]>>, <<"OutputSubComp", 0, 0, 1>>>>
    [] e[1] = "om" -> <<<<"PushIndex", e[4]>>, <<"PushIndex", e[2]>>, <<"OutputSubComp", 1, e[3], 1>>>>
    [] e[1] = "Neg" -> CE(K, e[2]) \o <<<<"Neg">>>>
    [] e[1] = "EqN" -> CEs(K, e[2], 1) \o CEs(K, e[3], 1) \o <<<<"Eq", Len(e[2])>>>>
    [] e[1] = "Eq" -> CE(K, e[2]) \o CE(K, e[3]) \o <<<<"Eq", 1>>>>
    [] OTHER -> CE(K, e[2]) \o CE(K, e[3]) \o <<<<e[1]>>>>
CEs(K, es, k) == IF k > Len(es) THEN <<>> ELSE CE(K, es[k]) \o CEs(K, es, k + 1)
CS(K, s) ==
  CASE s[1] \in {"sv", "ss"} -> CEs(K, s[3], 1) \o <<<<"PushIndex", s[2]>>, <<IF s[1] = "sv" THEN "StoreVars" ELSE "StoreSignals", Len(s[3])>>>>
    [] s[1] \in {"svi", "ssi"} -> CE(K, s[5]) \o At(K, s) \o <<<<IF s[1] = "svi" THEN "StoreVars" ELSE "StoreSignals", 1>>>>
    [] s[1] = "if" -> LET T == CB(K, s[3], 1)
                          E == CB(K, s[4], 1)
                      IN CE(K, s[2]) \o <<<<"If", Len(T) + 2>>>> \o T
                         \o (IF s[4] = <<>> THEN <<<<"EndTruthyBranch", 0>>>> ELSE <<<<"EndTruthyBranch", Len(E) + 2>>>> \o E \o <<<<"EndFalsyBranch">>>>)
    [] s[1] = "while" -> LET C == CE(K, s[2])
                             W == CB(K, s[3], 1)
                         IN C \o <<<<"JumpIfFalse", Len(W) + 2>>>> \o W \o <<<<"JumpBack", Len(W) + Len(C) + 1>>>>
    [] s[1] = "call" -> CEs(K, s[3], 1) \o <<<<"Call", s[2], s[4]>>, <<"PushIndex", s[5]>>, <<"StoreVars", s[4]>>>>
    [] s[1] = "ret" -> CE(K, s[2]) \o <<<<"ReturnFun">>>>
    [] s[1] = "retn" -> <<<<"PushIndex", s[2]>>, <<"ReturnFun">>>>
    [] s[1] = "as" -> CE(K, s[2]) \o <<<<"Assert", 1>>>>
    [] s[1] = "log" -> CE(K, s[2]) \o <<<<"Log">>, <<"LogString", 0>>, <<"LogFlush", 1>>>>
    [] s[1] = "mk" -> <<<<"PushIndex", s[3]>>, <<"PushIndex", s[4]>>, <<"CreateCmp", s[2], s[5]>>>>
    [] s[1] = "in" -> CEs(K, s[4], 1) \o <<<<"PushIndex", s[3]>>, <<"PushIndex", s[2]>>, <<"InputSubComp", 0, 0, Len(s[4])>>>>
    [] s[1] = "inm" -> CEs(K, s[5], 1) \o <<<<"PushIndex", s[4]>>, <<"PushIndex", s[2]>>, <<"InputSubComp", 1, s[3], Len(s[5])>>>>
CB(K, ss, k) == IF k > Len(ss) THEN <<>> ELSE CS(K, ss[k]) \o CB(K, ss, k + 1)
FunCode(K, f) == CB(K, f.body, 1) \o <<<<"ReturnSharedIfFun">>>>
TemplCode(K, t) == CB(K, t.body, 1) \o <<<<"Return">>>>
=============================================================================
