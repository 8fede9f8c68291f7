------------------------------ MODULE RingTrace ------------------------------
(* Results of the ring and wide-integer types of the real code, each form of *)
(* an operation side by side, against arithmetic modulo 2^K of module Wide.  *)
EXTENDS Wide, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
vars == <<i, viol, cov>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
IntOf(v) == [j \in 1..8 |-> IF j <= 3 THEN (v \div B ^ (j - 1)) % B ELSE 0]
Fail == <<>>
(* the value every form has to give; an empty sequence: the conversion is refused *)
Expect(e) == CASE e.op = "add" -> Add(e.k, e.a, e.b)
  [] e.op = "sub" -> Sub(e.k, e.a, e.b)
  [] e.op = "mul" -> Mul(e.k, e.a, e.b)
  [] e.op = "neg" -> Neg(e.k, e.a)
  [] e.op = "xor" -> WXor(e.k, e.a, e.b)
  [] e.op = "and" -> WAnd(e.k, e.a, e.b)
  [] e.op = "or" -> WOr(e.k, e.a, e.b)
  [] e.op = "not" -> WNot(e.k, e.a)
  [] e.op = "cmp" -> <<Cmp(e.a, e.b) + 1>>
  [] e.op = "bits" -> IntOf(BitLen(e.a))
  [] e.op = "iszero" -> <<IF BitLen(e.a) = 0 THEN 1 ELSE 0>>
  [] e.op = "one" -> Trunc(e.k, <<1>>)
  [] e.op = "cast" -> Cast(e.ck, e.a)
  [] e.op = "fit" -> IF Fits(e.ck, e.a) THEN Cast(e.ck, e.a) ELSE Fail
  [] e.op = "shl" -> Shl(e.k, e.a, e.n)
  [] e.op = "shr" -> Shr(e.k, e.a, e.n)
  [] e.op = "bit" -> <<Bit(e.a, e.n)>>
  [] e.op = "setbit" -> SetBit(e.k, e.a, e.n, e.b[1])
  [] e.op = "mask" -> IF e.n > e.k THEN Fail ELSE Mask(e.k, e.n)
  [] e.op = "randbits" -> Mask(e.k, e.n)
  [] e.op = "const" -> Trunc(e.ck, e.b)
(* results of one digit may be given with the full width of the type *)
Agree(e, o, x) == IF x = Fail THEN ~ o.ok /\ o.v = <<>>
                  ELSE o.ok /\ (IF e.op = "bit" THEN Same(o.v, x) ELSE o.v = x)
DivOk(e, o) == LET n == Digits(e.k)
               IN o.ok /\ Len(o.v) = 2 * n /\ IsDivMod(e.a, e.b, SubSeq(o.v, 1, n), SubSeq(o.v, n + 1, 2 * n))
(* remainder modulo e.b; the event says which quotient it takes *)
ModOk(e, o) == o.ok /\ Len(o.v) = Digits(e.ck) /\ IsDivMod(e.a, e.b, e.q, o.v)
BadForms(e) == IF e.op = "mod" THEN {e.outs[j].f : j \in {j \in 1..Len(e.outs) : ~ ModOk(e, e.outs[j])}}
               ELSE IF e.op = "divmod" THEN {e.outs[j].f : j \in {j \in 1..Len(e.outs) : ~ DivOk(e, e.outs[j])}}
               ELSE LET x == TLCEval(Expect(e)) IN {e.outs[j].f : j \in {j \in 1..Len(e.outs) : ~ Agree(e, e.outs[j], x)}}
(* a row of results: one left operand, all right operands of 8 bits *)
Row(e, b) == CASE e.op = "add" -> (e.a + b) % 256
  [] e.op = "sub" -> (e.a - b) % 256
  [] e.op = "mul" -> (e.a * b) % 256
  [] e.op = "xor" -> e.a ^^ b
  [] e.op = "and" -> e.a & b
  [] e.op = "or" -> e.a | b
  [] e.op = "cmp" -> IF e.a < b THEN 0 ELSE IF e.a > b THEN 2 ELSE 1
RowBad(e) == IF Len(e.v) = 256 /\ \A b \in 0..255 : e.v[b + 1] = Row(e, b) THEN {} ELSE {e.f}
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ LET bad == IF Ev.ev = "tab" THEN RowBad(Ev) ELSE BadForms(Ev)
           IN viol' = IF bad = {} THEN viol
                      ELSE Append(viol, [at |-> i, job |-> Ev.job, what |-> Ev.ty \o ": " \o Ev.op \o " gives a wrong result (" \o (CHOOSE f \in bad : TRUE) \o ")"])
        /\ cov' = LET key == Ev.ty \o "." \o Ev.op IN (key :> ((IF key \in DOMAIN cov THEN cov[key] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
