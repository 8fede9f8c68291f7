-------------------------------- MODULE Ring3 --------------------------------
(* The ideal machine of replicated ring sharing and of what is built on it:  *)
(* registers hold numbers as sequences of bytes (module Wide, W = 8), either *)
(* of a ring of K bits (shared by a sum or bitwise), of the prime field p,   *)
(* of the second field q, or discrete logarithms modulo p. Every operation   *)
(* acts on the numbers as its mathematical definition says.                  *)
EXTENDS Wide, FiniteSets
O(t, k, v) == [t |-> t, k |-> k, v |-> v]
Rs(K, vs) == [j \in 1..Len(vs) |-> O("r", K, vs[j])]
Xs(K, vs) == [j \in 1..Len(vs) |-> O("x", K, vs[j])]
Fs(vs) == [j \in 1..Len(vs) |-> O("f", 0, vs[j])]
Gs(vs) == [j \in 1..Len(vs) |-> O("g", 0, vs[j])]
Us(vs) == [j \in 1..Len(vs) |-> O("u", 0, vs[j])]
Tag(t, vs) == [j \in 1..Len(vs) |-> O(t, 0, vs[j])]
Out(o) == [out |-> o, open |-> <<>>]
Open(o) == [out |-> <<>>, open |-> o]
BB(x) == <<IF x THEN 1 ELSE 0>>
(* a small number *)
RECURSIVE SmallFrom(_, _)
SmallFrom(v, j) == IF j > Len(v) \/ j > 3 THEN 0 ELSE v[j] + 256 * SmallFrom(v, j + 1)
Small(v) == SmallFrom(v, 1)
One(b) == Same(b, <<1>>)
(* a number below m or below 3 m, modulo m *)
Red1(m, a) == IF Cmp(a, m) = -1 THEN a ELSE SubN(Len(a), a, m)
Red(m, a) == Red1(m, TLCEval(Red1(m, a)))
Sum3(a, b, c) == LET n == Max(Len(a), Max(Len(b), Len(c))) + 1 IN AddN(n, TLCEval(AddN(n, a, b)), c)
RECURSIVE PowFrom(_, _, _, _, _)
PowFrom(K, a, e, j, acc) == IF j < 0 THEN acc
  ELSE LET s == TLCEval(Mul(K, acc, acc)) IN PowFrom(K, a, e, j - 1, TLCEval(IF Bit(e, j) = 1 THEN Mul(K, s, a) ELSE s))
Pow(K, a, e) == PowFrom(K, a, e, BitLen(e) - 1, Trunc(K, <<1>>))
RECURSIVE OrAll(_, _)
OrAll(K, vs) == IF Len(vs) = 0 THEN Zero(Digits(K)) ELSE WOr(K, Head(vs), TLCEval(OrAll(K, Tail(vs))))
(* bits lo .. lo + n - 1 *)
Slice(a, lo, n) == LET K == 8 * Len(a) + n IN Trunc(n, Shr(K, Trunc(K, a), lo))
P2(n) == CHOOSE k \in 0..24 : 2 ^ k >= n /\ \A m \in 0..24 : 2 ^ m >= n => m >= k
OneHot(n, i) == [j \in 1..n |-> BB(j = i + 1)]
At(l, i) == IF i < Len(l) THEN l[i + 1] ELSE <<0>>
Parts(l, lens) == [j \in 1..Len(lens) |->
  LET RECURSIVE Off(_)
      Off(x) == IF x = 1 THEN 0 ELSE lens[x - 1] + Off(x - 1)
  IN SubSeq(l, Off(j) + 1, Off(j) + lens[j])]
(* stable sorting permutation: the positions in ascending order of their keys *)
Less(keys, x, y) == Cmp(keys[x], keys[y]) = -1 \/ (Same(keys[x], keys[y]) /\ x < y)
Rank(keys, x) == Cardinality({y \in 1..Len(keys) : Less(keys, y, x)}) + 1
Sorted(keys) == LET r == TLCEval([x \in 1..Len(keys) |-> Rank(keys, x)])
                IN [pos \in 1..Len(keys) |-> CHOOSE x \in 1..Len(keys) : r[x] = pos]
(* merges two lists of keys in the order of the flags: 1 takes from the first *)
Merge(a, b, order) == [j \in 1..Len(order) |->
  LET n == Cardinality({x \in 1..j : order[x] = 1}) IN IF order[j] = 1 THEN a[n] ELSE b[j - n]]
Low(n, keys) == [j \in 1..Len(keys) |-> Trunc(n, keys[j])]
(* the machine: e is the step; A, B the values of its registers, W its public numbers, C small public numbers *)
Result(e, A, B_, p) ==
  LET K == e.k
      Wk(j) == Trunc(K, e.w[j])
      cmp(f(_)) == Out(Xs(1, <<BB(f(Cmp(A[1], IF e.f = 0 THEN B_[1] ELSE Wk(1))))>>))
  IN CASE e.op = "rinput" -> Out(Rs(K, e.w))
  [] e.op = "xinput" -> Out(Xs(K, e.w))
  [] e.op = "finput" -> Out(Fs(e.w))
  [] e.op = "ginput" -> Out(Gs(e.w))
  [] e.op = "uinput" -> Out(Us(e.w))
  [] e.op \in {"radd"} -> Out(Rs(K, <<Add(K, A[1], B_[1])>>))
  [] e.op = "rsub" -> Out(Rs(K, <<Sub(K, A[1], B_[1])>>))
  [] e.op = "raddv" -> Out(Rs(K, [j \in 1..Len(A) |-> Add(K, A[j], B_[j])]))
  [] e.op = "rsubv" -> Out(Rs(K, [j \in 1..Len(A) |-> Sub(K, A[j], B_[j])]))
  [] e.op = "raddp" -> Out(Rs(K, <<Add(K, A[1], Wk(1))>>))
  [] e.op = "rsubsp" -> Out(Rs(K, <<Sub(K, A[1], Wk(1))>>))
  [] e.op = "rsubps" -> Out(Rs(K, <<Sub(K, Wk(1), A[1])>>))
  [] e.op = "rmulp" -> Out(Rs(K, <<Mul(K, A[1], Wk(1))>>))
  [] e.op = "rneg" -> Out(Rs(K, <<Neg(K, A[1])>>))
  [] e.op = "rdbl" -> Out(Rs(K, <<Add(K, A[1], A[1])>>))
  [] e.op = "rpromote" -> Out(Rs(K, [j \in 1..Len(e.w) |-> Wk(j)]))
  [] e.op = "raddmulp" -> Out(Rs(K, <<Add(K, A[1], Mul(K, A[2], Wk(1)))>>))
  [] e.op = "raddmul" -> Out(Rs(K, <<Add(K, A[1], Mul(K, A[2], A[3]))>>))
  [] e.op \in {"rmul", "rmulv", "rmull", "rmull1"} -> Out(Rs(K, [j \in 1..Len(A) |-> Mul(K, A[j], B_[j])]))
  [] e.op \in {"ropen", "ropenv", "xopen"} -> Open(A)
  [] e.op \in {"rmulopen", "rmulopenv"} -> Open([j \in 1..Len(A) |-> Mul(K, A[j], B_[j])])
  [] e.op = "rcmux" -> Out(Rs(K, <<IF One(A[1]) THEN A[2] ELSE A[3]>>))
  [] e.op = "rpow" -> Out(Rs(K, <<Pow(K, A[1], Wk(1))>>))
  [] e.op = "rpow2" -> Out(Rs(K, <<Shl(K, A[1], Small(Wk(1)))>>))
  [] e.op \in {"raxor", "raxorv"} -> Out(Rs(K, [j \in 1..Len(A) |-> WXor(K, A[j], B_[j])]))
  [] e.op = "rlt" -> cmp(LAMBDA c : c = -1)
  [] e.op = "rle" -> cmp(LAMBDA c : c # 1)
  [] e.op = "rgt" -> cmp(LAMBDA c : c = 1)
  [] e.op = "rge" -> cmp(LAMBDA c : c # -1)
  [] e.op = "req" -> cmp(LAMBDA c : c = 0)
  [] e.op = "rneq" -> cmp(LAMBDA c : c # 0)
  [] e.op = "riszero" -> Open(<<BB(BitLen(A[1]) = 0)>>)
  [] e.op = "xxor" -> Out(Xs(K, <<WXor(K, A[1], B_[1])>>))
  [] e.op = "xxorp" -> Out(Xs(K, <<WXor(K, A[1], Wk(1))>>))
  [] e.op = "xor" -> Out(Xs(K, <<WOr(K, A[1], B_[1])>>))
  [] e.op = "xorp" -> Out(Xs(K, <<WOr(K, A[1], Wk(1))>>))
  [] e.op \in {"xand", "xandv"} -> Out(Xs(K, [j \in 1..Len(A) |-> WAnd(K, A[j], B_[j])]))
  [] e.op = "xandp" -> Out(Xs(K, <<WAnd(K, A[1], Wk(1))>>))
  [] e.op = "xshr" -> Out(Xs(K, <<Shr(K, A[1], IF e.f = 0 THEN Small(Wk(1)) ELSE e.c[1])>>))
  [] e.op = "xshl" -> Out(Xs(K, <<Shl(K, A[1], IF e.f = 0 THEN Small(Wk(1)) ELSE e.c[1])>>))
  [] e.op = "xnot" -> Out(Xs(K, <<WNot(K, A[1])>>))
  [] e.op = "xpromote" -> Out(Xs(K, <<Wk(1)>>))
  [] e.op = "xcmux" -> Out(Xs(K, <<WOr(K, WAnd(K, A[1], A[2]), WAnd(K, WNot(K, A[1]), A[3]))>>))
  [] e.op = "xortree" -> Out(Xs(K, <<OrAll(K, A)>>))
  [] e.op = "xiszero" -> Out(Xs(1, <<BB(BitLen(A[1]) = 0)>>))
  [] e.op = "xget" -> Out(Xs(1, <<<<Bit(A[1], e.c[1])>>>>))
  [] e.op \in {"a2b", "a2bv", "b2y2b"} -> Out(Xs(K, A))
  [] e.op \in {"b2a", "b2av", "inj", "injbit", "a2y2a"} -> Out(Rs(K, A))
  [] e.op = "cast" -> Out(Rs(e.k2, [j \in 1..Len(A) |-> Cast(e.k2, A[j])]))
  [] e.op \in {"r2f", "r2fbig", "bits2f"} -> Out(Fs(A))
  [] e.op = "f2r" -> Out(Rs(K, [j \in 1..Len(A) |-> Cast(K, A[j])]))
  [] e.op = "decomp" -> LET n == e.c[1] IN Out(Rs(K, [j \in 1..n * Len(A) |-> Cast(K, Slice(A[(j - 1) \div n + 1], ((j - 1) % n) * e.c[2], e.c[2]))]))
  [] e.op = "divp2" -> Out(Rs(K, [j \in 1..Len(A) |-> Shr(K, A[j], e.c[1])]))
  [] e.op = "ohv" -> Out(Xs(1, OneHot(2 ^ e.c[1], Small(Trunc(e.c[1], A[1])))))
  [] e.op = "tread" -> Out(Us(<<At(e.w, Small(A[1]))>>))
  [] e.op = "treadlow" -> Out(Tag("nu", <<At(e.w, Small(A[1]))>>))
  [] e.op = "treadsh" -> Out(Tag("nf", <<At(B_, Small(A[1]))>>))
  [] e.op \in {"twrite", "plwrite"} -> LET l == IF Len(e.w) > 0 THEN e.w ELSE B_
                                        IN Out(Fs([j \in 1..Len(l) |-> IF j = Small(A[1]) + 1 THEN A[2] ELSE l[j]]))
  [] e.op \in {"gtwrite", "gplwrite"} -> LET l == IF Len(e.w) > 0 THEN e.w ELSE B_
                                        IN Out(Gs([j \in 1..Len(l) |-> IF j = Small(A[1]) + 1 THEN A[2] ELSE l[j]]))
  [] e.op = "tmulti" -> LET ls == Parts(e.w, e.c) IN Out(Tag("nu", [j \in 1..Len(ls) |-> At(ls[j], Small(A[1]))]))
  [] e.op = "plmulti" -> LET ls == Parts(e.w, e.c) IN Out(Fs([j \in 1..Len(ls) |-> At(ls[j], Small(A[1]))]))
  [] e.op \in {"gtmulti", "gplmulti"} -> LET ls == Parts(e.w, e.c) IN Out(Gs([j \in 1..Len(ls) |-> At(ls[j], Small(A[1]))]))
  [] e.op = "gtread" -> Out(Gs(<<At(e.w, Small(A[1]))>>))
  [] e.op = "gtreadsh" -> Out(Tag("ng", <<At(B_, Small(A[1]))>>))
  [] e.op = "plread" -> Out(Fs(<<At(IF Len(e.w) > 0 THEN e.w ELSE B_, Small(A[1]))>>))
  [] e.op = "gplread" -> Out(Gs(<<At(IF Len(e.w) > 0 THEN e.w ELSE B_, Small(A[1]))>>))
  [] e.op = "plbin" -> Out(Us(<<At(e.w, Small(A[1]))>>))
  [] e.op = "plohv" -> Out(Fs(OneHot(2 ^ P2(e.c[1]), Small(A[1]))))
  [] e.op = "plwohv" -> LET n == e.c[1] IN Out(Fs([j \in 1..n |-> IF One(B_[n + j]) THEN A[1] ELSE B_[j]]))
  (* the table and the vector have the same length *)
  [] e.op = "gplwohv" -> LET n == Len(B_) \div 2 IN Out(Gs([j \in 1..n |-> IF One(B_[n + j]) THEN A[1] ELSE B_[j]]))
  [] e.op = "sort" -> LET all == TLCEval(A \o e.w)
                          s == TLCEval(Sorted(Low(e.c[1], all)))
                      IN Out(Fs([j \in 1..Len(all) |-> all[s[j]]]))
  [] e.op = "sortby" -> LET order == Tail(e.c)
                            n == Len(order)
                            s == TLCEval(Sorted(Low(e.c[1], Merge(A, e.w, order))))
                        IN Out(Fs([j \in 1..Len(B_) |-> B_[((j - 1) \div n) * n + s[((j - 1) % n) + 1]]]))
  [] e.op = "fopen" -> Open(A)
(* operations judged by a relation on the values obtained *)
Relational == {"rrand", "randohv", "div", "divsp", "divps", "divlimbs", "divlimbsw", "divfq"}
Quot(a, b, q) == LET n == Len(a) + Len(b) + 2
                     m == TLCEval(MulN(n, q, b))
                 IN Cmp(m, a) # 1 /\ Cmp(a, AddN(n, m, b)) = -1
RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(K, limbs, l, j) == IF j > Len(limbs) THEN Zero(Digits(K)) ELSE AddN(Digits(K), Shl(K, Trunc(K, limbs[j]), l * (j - 1)), TLCEval(JoinFrom(K, limbs, l, j + 1)))
Limbs(vs, l) == /\ \A j \in 1..Len(vs) : BitLen(vs[j]) <= l
Join(vs, l) == JoinFrom(l * Len(vs), vs, l, 1)
Count(e, A, B_) == CASE e.op = "rrand" -> 1
  [] e.op = "randohv" -> 2 ^ e.c[1] + 1
  [] e.op \in {"div", "divsp"} -> Len(A)
  [] e.op = "divps" -> Len(B_)
  [] e.op \in {"divlimbs", "divlimbsw"} -> 2 * e.c[1] * Len(A)
  [] e.op = "divfq" -> (e.c[1] + 1) * Len(A)
KindAt(e, A, j) == CASE e.op \in {"rrand", "div", "divsp", "divps"} -> O("r", e.k, 0)
  [] e.op = "randohv" -> O("x", IF j = 1 THEN e.k ELSE 1, 0)
  [] e.op \in {"divlimbs", "divlimbsw"} -> O("f", 0, 0)
  [] e.op = "divfq" -> O(IF j <= e.c[1] * Len(A) THEN "f" ELSE "h", 0, 0)
Accept(e, A, B_, got) == CASE e.op = "rrand" -> TRUE
  [] e.op = "randohv" -> LET n == 2 ^ e.c[1] IN /\ BitLen(got[1]) <= e.c[1]
                                               /\ \A j \in 1..n : Same(got[j + 1], BB(j = Small(got[1]) + 1))
  [] e.op = "div" -> \A j \in 1..Len(A) : Quot(A[j], B_[j], got[j])
  [] e.op = "divsp" -> \A j \in 1..Len(A) : Quot(A[j], e.w[j], got[j])
  [] e.op = "divps" -> \A j \in 1..Len(B_) : Quot(e.w[j], B_[j], got[j])
  [] e.op \in {"divlimbs", "divlimbsw"} ->
       LET n == e.c[1] IN \A j \in 1..Len(A) :
         LET q == SubSeq(got, (j - 1) * 2 * n + 1, (j - 1) * 2 * n + n)
             r == SubSeq(got, (j - 1) * 2 * n + n + 1, j * 2 * n)
         IN Limbs(q, e.c[2]) /\ Limbs(r, e.c[2]) /\ IsDivMod(A[j], e.w[1], Join(q, e.c[2]), Join(r, e.c[2]))
  [] e.op = "divfq" ->
       LET n == e.c[1] IN \A j \in 1..Len(A) :
         LET q == SubSeq(got, (j - 1) * n + 1, j * n) IN Limbs(q, e.c[2]) /\ IsDivMod(A[j], e.w[1], Join(q, e.c[2]), got[n * Len(A) + j])
(* operations that need no communication *)
Local == {"rinput", "xinput", "finput", "ginput", "uinput", "radd", "rsub", "raddv", "rsubv", "raddp", "rsubsp", "rsubps", "rmulp", "rneg", "rdbl",
          "rpromote", "raddmulp", "rrand", "rpow2", "xxor", "xxorp", "xorp", "xandp", "xshr", "xshl", "xnot", "xpromote", "xget"}
IsLocal(e) == e.op \in Local \/ (e.op = "cast" /\ e.f = 3)
=============================================================================
