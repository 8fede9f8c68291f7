-------------------------------- MODULE Rep3 --------------------------------
(* The ideal machine of the replicated three-party engine. It extends the    *)
(* machine shared with the Shamir engine by bit strings (held as numbers),   *)
(* comparisons of canonical representatives, conversions between the         *)
(* arithmetic, binary and garbled representations, the functions evaluated   *)
(* in garbled circuits, and the affine coordinates of points.                *)
(* p is the order of the scalar field.                                       *)
EXTENDS Machine, Bitwise, TLC
Bool(c) == IF c THEN 1 ELSE 0
(* number of bits of the modulus *)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
Bits(p) == BitLen(p)
Map1(Op(_), A) == [j \in 1..Len(A) |-> Op(A[j])]
(* ------------------------------------------------------------------ curves *)
(* y^2 = x^3 + a x + b over a field of q elements, with a generator of order p *)
Curve(p) == CASE p = 5 -> [q |-> 7, a |-> 1, b |-> 1, x |-> 0, y |-> 1]
              [] p = 11 -> [q |-> 7, a |-> 1, b |-> 6, x |-> 1, y |-> 1]
              [] p = 257 -> [q |-> 227, a |-> 16, b |-> 37, x |-> 2, y |-> 109]
              [] OTHER -> [q |-> 40739, a |-> 32838, b |-> 565, x |-> 1, y |-> 34306]
Inf == [x |-> 0, y |-> 0, inf |-> 1]
PAdd(E, P, Q) ==
  IF P.inf = 1 THEN Q ELSE IF Q.inf = 1 THEN P
  ELSE IF P.x = Q.x /\ (P.y + Q.y) % E.q = 0 THEN Inf
  ELSE LET num == IF P = Q THEN (3 * FMul(E.q, P.x, P.x) + E.a) % E.q ELSE (Q.y - P.y) % E.q
           den == IF P = Q THEN (2 * P.y) % E.q ELSE (Q.x - P.x) % E.q
           l == TLCEval(FDiv(E.q, num, den))
           x == TLCEval((FMul(E.q, l, l) - P.x - Q.x) % E.q)
       IN [x |-> x, y |-> (FMul(E.q, l, (P.x - x) % E.q) - P.y) % E.q, inf |-> 0]
RECURSIVE PMul(_, _, _)
PMul(E, k, P) == IF k = 0 THEN Inf
                 ELSE LET h == TLCEval(PMul(E, k \div 2, P))
                          d == TLCEval(PAdd(E, h, h))
                      IN IF k % 2 = 1 THEN PAdd(E, d, P) ELSE d
PointOf(p, k) == LET E == Curve(p) IN PMul(E, k, [x |-> E.x, y |-> E.y, inf |-> 0])
(* ------------------------------------------------------------- bit strings *)
Low(v, k) == IF k >= 30 THEN v ELSE v % 2 ^ k
Shr(v, k) == IF k >= 30 THEN 0 ELSE v \div 2 ^ k
(* the chunks of w bits of the low t bits of v, least significant first *)
Chunks(v, t, w) == [j \in 1..((t + w - 1) \div w) |-> Low(Shr(Low(v, t), (j - 1) * w), w)]
RECURSIVE Cat(_, _)
Cat(s, j) == IF j > Len(s) THEN <<>> ELSE s[j] \o Cat(s, j + 1)
Concat(s) == Cat(s, 1)
(* chunks of the widths ws *)
RECURSIVE Pieces(_, _, _)
Pieces(v, ws, j) == IF j > Len(ws) THEN <<>> ELSE <<Low(v, ws[j])>> \o Pieces(Shr(v, ws[j]), ws, j + 1)
Log2(x) == BitLen(x) - 1
(* a table row: the slices of both operands and of their combination *)
SliceXor(x, y, w, t) == Chunks(x, t, w) \o Chunks(y, t, w) \o Chunks(Low(x, t) ^^ Low(y, t), t, w)
SliceAnd(x, y, w, t) == Chunks(x, t, w) \o Chunks(y, t, w) \o Chunks(Low(x, t) & Low(y, t), t, w)
(* the same with a filter that leaves only the two lowest bits of a slice of the combination *)
SliceXorF(x, y, ws, fs) ==
  LET px == Pieces(x, ws, 1)
      py == Pieces(y, ws, 1)
  IN px \o py \o [j \in 1..Len(ws) |-> LET z == px[j] ^^ py[j] IN IF fs[j] = 1 THEN z % 4 ELSE z]
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> \/ x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sorted(Tail(s)))
(* ------------------------------------------------------------------ machine *)
Residue(p, a) == a = 0 \/ FPow(p, a, (p - 1) \div 2) = 1
XorA(p, a, b) == (a + b - 2 * FMul(p, a, b)) % p
Vec2(A, B, Op(_, _)) == [j \in 1..Len(A) |-> Op(A[j], B[j])]
Arith(p, op, A, B, C) ==
  CASE op = "subsp" -> Ok(<<(A[1] - C[1]) % p>>, <<>>)
    [] op = "subps" -> Ok(<<(C[1] - A[1]) % p>>, <<>>)
    [] op = "dbl" -> Ok(<<(2 * A[1]) % p>>, <<>>)
    [] op = "promotes" -> Ok(<<C[1] % p>>, <<>>)
    [] op = "addmulp" -> Ok(<<(A[1] + FMul(p, B[1], C[1] % p)) % p>>, <<>>)
    [] op = "addmul" -> Ok(<<(A[1] + FMul(p, A[2], A[3])) % p>>, <<>>)
    [] op = "pow2" -> IF C[1] % p < Bits(p) THEN Ok(<<FMul(p, A[1], FPow(p, 2 % p, C[1] % p))>>, <<>>) ELSE Fails
    [] op = "mulopen" -> Ok(<<>>, <<FMul(p, A[1], B[1])>>)
    [] op = "cmux" -> Ok(<<(A[3] + FMul(p, A[1], (A[2] - A[3]) % p)) % p>>, <<>>)
    [] op = "cmuxv" -> Ok([j \in 1..Len(B) |-> (B[j] + FMul(p, A[1], (A[j + 1] - B[j]) % p)) % p], <<>>)
    [] op = "pow" -> Ok(<<FPow(p, A[1], C[1] % p)>>, <<>>)
    [] op \in {"axor", "axorv"} -> Ok([j \in 1..Len(A) |-> XorA(p, A[j], B[j])], <<>>)
    [] op \in {"r23", "a2y2a", "a2y2av"} -> Ok(A, <<>>)
    [] OTHER -> Fails
(* comparisons: operand values lie in 0..p-1 *)
Compare(p, op, A, B, C) ==
  LET c == IF C = <<>> THEN 0 ELSE C[1] % p
      cs == [j \in 1..Len(C) |-> C[j] % p]
  IN CASE op = "lt" -> Ok(<<Bool(A[1] < B[1])>>, <<>>)
       [] op = "le" -> Ok(<<Bool(A[1] <= B[1])>>, <<>>)
       [] op = "gt" -> Ok(<<Bool(A[1] > B[1])>>, <<>>)
       [] op \in {"ge", "gebit"} -> Ok(<<Bool(A[1] >= B[1])>>, <<>>)
       [] op = "ltp" -> Ok(<<Bool(A[1] < c)>>, <<>>)
       [] op \in {"lep", "lepbit"} -> Ok(<<Bool(A[1] <= c)>>, <<>>)
       [] op = "gtp" -> Ok(<<Bool(A[1] > c)>>, <<>>)
       [] op \in {"gep", "gepbit"} -> Ok(<<Bool(A[1] >= c)>>, <<>>)
       [] op \in {"eq", "eqbit", "eqv", "eqbitv"} -> Ok([j \in 1..Len(A) |-> Bool(A[j] = B[j])], <<>>)
       [] op \in {"eqp", "eqbitp", "eqpv", "eqbitpv"} -> Ok([j \in 1..Len(A) |-> Bool(A[j] = cs[j])], <<>>)
       [] op = "neq" -> Ok(<<Bool(A[1] # B[1])>>, <<>>)
       [] op = "neqp" -> Ok(<<Bool(A[1] # c)>>, <<>>)
       [] op = "iszero" -> Ok(<<>>, <<Bool(A[1] = 0)>>)
       [] OTHER -> Fails
Comparisons == {"lt", "le", "gt", "ge", "ltp", "lep", "gtp", "gep", "gebit", "lepbit", "gepbit", "eq", "eqv", "eqp", "eqpv", "eqbit", "eqbitv",
                "eqbitp", "eqbitpv", "neq", "neqp", "iszero"}
(* bit strings; the condition of a selection selects bit by bit *)
RECURSIVE OrAll(_)
OrAll(s) == IF s = <<>> THEN 0 ELSE Head(s) | OrAll(Tail(s))
Sel(c, t, f) == (c & t) ^^ (f ^^ (c & f))
Binary(p, op, A, B, C) ==
  CASE op \in {"binput", "bpromote"} -> Ok(C, <<>>)
    [] op = "bxor" -> Ok(<<A[1] ^^ B[1]>>, <<>>)
    [] op \in {"bxorp", "bxorpv"} -> Ok([j \in 1..Len(A) |-> A[j] ^^ C[j]], <<>>)
    [] op = "bor" -> Ok(<<A[1] | B[1]>>, <<>>)
    [] op = "borp" -> Ok(<<A[1] | C[1]>>, <<>>)
    [] op \in {"band", "bandv"} -> Ok([j \in 1..Len(A) |-> A[j] & B[j]], <<>>)
    [] op = "bandp" -> Ok(<<A[1] & C[1]>>, <<>>)
    [] op = "bshr" -> Ok(<<Shr(A[1], C[1] % p)>>, <<>>)
    [] op = "bshl" -> IF C[1] % p < Bits(p) THEN Ok(<<A[1] * 2 ^ (C[1] % p)>>, <<>>) ELSE Fails
    [] op = "shlps" -> Ok(<<FMul(p, C[1] % p, FPow(p, 2 % p, A[1] % 256))>>, <<>>)
    [] op = "bopen" -> Ok(<<>>, A)
    [] op \in {"bcmux", "bcmuxv"} -> LET k == Len(A) \div 3 IN Ok([j \in 1..k |-> Sel(A[j], A[k + j], A[2 * k + j])], <<>>)
    [] op = "bortree" -> Ok(<<OrAll(A)>>, <<>>)
    [] op \in {"biszero", "biszerov"} -> Ok([j \in 1..Len(A) |-> Bool(A[j] = 0)], <<>>)
    [] OTHER -> Fails
Convert(p, op, A, B, C) ==
  CASE op \in {"a2b", "a2bv", "b2a", "b2av", "b2y2b"} -> Ok(A, <<>>)
    [] op \in {"bitinj", "bitinjv"} -> Ok(A, <<>>) \* of single bits
    [] op = "giszero" -> Ok([j \in 1..Len(A) |-> Bool(A[j] = 0)], <<>>)
    [] op = "p2f" -> Ok(Concat([j \in 1..Len(A) |-> LET P == PointOf(p, A[j]) IN <<P.x, P.y, P.inf>>]), <<>>)
    [] OTHER -> Fails
Garbled(p, op, A, B, C) ==
  CASE op \in {"decomp", "decompo"} -> Ok(Concat([j \in 1..Len(A) |-> Chunks(A[j], C[1], C[2])]), <<>>)
    [] op = "slice" -> Ok(Concat([j \in 1..Len(A) |-> <<Low(Shr(A[j], C[1]), C[2] - C[1]), Low(Shr(A[j], C[2]), C[3] - C[2])>>]), <<>>)
    [] op = "modp2" -> Ok(<<Low(A[1], C[1])>>, <<>>)
    [] op = "divp2" -> Ok([j \in 1..Len(A) |-> Shr(A[j], C[1])], <<>>)
    [] op = "idiv" -> Ok([j \in 1..Len(A) |-> A[j] \div B[j]], <<>>)
    [] op = "idivp" -> Ok([j \in 1..Len(A) |-> A[j] \div (C[j] % p)], <<>>)
    [] op = "idivs" -> Ok([j \in 1..Len(A) |-> (C[j] % p) \div A[j]], <<>>)
    [] op = "slxor" -> Ok(Concat([j \in 1..Len(A) |-> SliceXor(A[j], B[j], C[1], C[3])]), <<>>)
    [] op = "sland" -> Ok(Concat([j \in 1..Len(A) |-> SliceAnd(A[j], B[j], C[1], C[3])]), <<>>)
    [] op = "slxorf" -> LET k == Len(C) \div 3
                            ws == [j \in 1..k |-> Log2(C[j])]
                            fs == [j \in 1..k |-> C[2 * k + j]]
                        IN Ok(Concat([j \in 1..Len(A) |-> SliceXorF(A[j], B[j], ws, fs)]), <<>>)
    [] op = "sort" -> Ok(Sorted([j \in 1..Len(A) |-> Low(A[j], C[1])]), <<>>)
    [] OTHER -> Fails
Ariths == {"subsp", "subps", "dbl", "promotes", "addmulp", "addmul", "pow2", "mulopen", "cmux", "cmuxv", "pow", "axor", "axorv", "r23", "a2y2a", "a2y2av"}
Binaries == {"binput", "bpromote", "bxor", "bxorp", "bxorpv", "bor", "borp", "band", "bandv", "bandp", "bshr", "bshl", "shlps", "bopen", "bcmux", "bcmuxv",
             "bortree", "biszero", "biszerov"}
Converts == {"a2b", "a2bv", "b2a", "b2av", "b2y2b", "bitinj", "bitinjv", "giszero", "p2f"}
Garbleds == {"decomp", "decompo", "slice", "modp2", "divp2", "idiv", "idivp", "idivs", "slxor", "sland", "slxorf", "sort"}
(* the square root is any of the roots: an acceptance condition instead of a result *)
Rep3Result(p, op, A, B, C) ==
  CASE op \in Ariths -> Arith(p, op, A, B, C)
    [] op \in Comparisons -> Compare(p, op, A, B, C)
    [] op \in Binaries -> Binary(p, op, A, B, C)
    [] op \in Converts -> Convert(p, op, A, B, C)
    [] op \in Garbleds -> Garbled(p, op, A, B, C)
    [] op = "sqrt" -> IF Residue(p, A[1]) THEN Ok(<<0>>, <<>>) ELSE Fails
    [] op = "gzero" -> Ok(<<0>>, <<>>)
    [] op = "gmulv" -> Ok([j \in 1..Len(A) |-> FMul(p, A[j], B[j])], <<>>)
    [] OTHER -> Result(p, op, A, B, C)
(* the results got are what the operation defines *)
Accept(p, op, A, r, got) ==
  CASE op = "sqrt" -> FMul(p, got[1], got[1]) = A[1]
    [] op = "p2f" -> \A j \in 1..Len(A) : got[3 * j] = r.out[3 * j] /\ (A[j] # 0 => got[3 * j - 2] = r.out[3 * j - 2] /\ got[3 * j - 1] = r.out[3 * j - 1])
    [] OTHER -> got = r.out
Rep3Local == Local \cup {"subsp", "subps", "dbl", "promotes", "addmulp", "pow2", "binput", "bpromote", "bxor", "bxorp", "bxorpv", "borp", "bandp",
                         "bshr", "bshl", "gzero", "rand"}
Rep3Masked == Masked \cup {"sqrt", "p2f", "giszero"}
(* the kind of value an operation gives *)
OutKind(op) == CASE op \in {"gebit", "lepbit", "gepbit", "eqbit", "eqbitv", "eqbitp", "eqbitpv", "a2b", "a2bv", "b2y2b", "giszero"} -> "b"
                 [] op = "shlps" -> "f"
                 [] op \in Binaries -> "b"
                 [] op \in {"ginput", "gpromote", "gzero", "gadd", "gsub", "gaddp", "gsubp", "gmulpp", "gmulps", "gmul", "gmulv", "gmsm"} -> "g"
                 [] op = "p2f" -> "q"
                 [] op = "decompo" -> "k"
                 [] OTHER -> "f"
=============================================================================
