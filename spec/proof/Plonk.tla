-------------------------------- MODULE Plonk ---------------------------------
(* PLONK with known exponents, as snarkjs has it.  A circuit C has           *)
(*   n     rows, a power of two                                              *)
(*   npub  public inputs; the first npub rows bind them                      *)
(*   nvars signals; signal 0 is not used and reads 0                         *)
(*   adds  <<s, t, f, g>>: the last signals are f * s + g * t, in this order *)
(*   map   for the wires a, b, c, the signal of every row (0 where missing)  *)
(*   q     the selectors qm ql qr qo qc of every row                         *)
(*   k1 k2 the shifts that keep the three columns apart                      *)
(* A proof is <<a b c z t1 t2 t3 wxi wxiw>> in exponents and the evaluations *)
(* <<a b c s1 s2 zw>>.                                                       *)
EXTENDS Groth16, Keccak, FiniteSets
RECURSIVE WithAdds(_, _, _, _)
WithAdds(p, s, adds, k) ==
  IF k > Len(adds) THEN s
  ELSE WithAdds(p, Append(s, (FMul(p, s[adds[k][1] + 1], adds[k][3]) + FMul(p, s[adds[k][2] + 1], adds[k][4])) % p), adds, k + 1)
(* z begins with the constant 1, then the public inputs                      *)
Signals(p, C, z) == TLCEval(WithAdds(p, <<0>> \o Tail(z), C.adds, 1))
SigAt(C, w, r) == IF r <= Len(C.map[w]) THEN C.map[w][r] ELSE 0
Wires(p, C, z) == LET s == Signals(p, C, z) IN TLCEval([w \in 1..3 |-> [r \in 1..C.n |-> s[SigAt(C, w, r) + 1]]])
Gate(p, C, wv, pub, r) ==
  (FMul(p, C.q[1][r], FMul(p, wv[1][r], wv[2][r])) + FMul(p, C.q[2][r], wv[1][r]) + FMul(p, C.q[3][r], wv[2][r])
   + FMul(p, C.q[4][r], wv[3][r]) + C.q[5][r] - (IF r <= C.npub THEN pub[r] ELSE 0)) % p
Pub(C, z) == SubSeq(z, 2, C.npub + 1)
PSatisfied(p, C, z) == LET wv == Wires(p, C, z) IN \A r \in 1..C.n : Gate(p, C, wv, Pub(C, z), r) = 0

(* the permutation: every position goes to the previous one with the same    *)
(* signal, the first to the last; positions in the order a1 b1 c1 a2 ..      *)
RECURSIVE PrevPos(_, _, _)
PrevPos(C, sig, k) == IF k = 0 THEN 0 ELSE IF SigAt(C, ((k - 1) % 3) + 1, ((k - 1) \div 3) + 1) = sig THEN k ELSE PrevPos(C, sig, k - 1)
Sigma(C) == TLCEval([k \in 1..(3 * C.n) |->
  LET sig == SigAt(C, ((k - 1) % 3) + 1, ((k - 1) \div 3) + 1)
      q == PrevPos(C, sig, k - 1)
  IN IF q # 0 THEN q ELSE PrevPos(C, sig, 3 * C.n)])
PDomain(p, C) == Powers(p, CircomRoot(p, Log2(C.n)), C.n)
Label(p, C, W, k) == FMul(p, W[((k - 1) \div 3) + 1], <<1, C.k1, C.k2>>[((k - 1) % 3) + 1])
SigmaVals(p, C) == LET W == PDomain(p, C)
                       s == Sigma(C)
                   IN TLCEval([w \in 1..3 |-> [r \in 1..C.n |-> Label(p, C, W, s[3 * (r - 1) + w])]])
(* the commitments qm ql qr qo qc s1 s2 s3 for tau                           *)
PKey(p, C, sv, tau) ==
  LET L == Basis(p, PDomain(p, C), tau) IN TLCEval([k \in 1..8 |-> FDot(p, L, IF k <= 5 THEN C.q[k] ELSE sv[k - 5])])

(* the grand product of the permutation argument for challenges beta, gamma  *)
NumAt(p, C, W, wv, ch, r) == FProd(p, [w \in 1..3 |-> (wv[w][r] + FMul(p, ch.beta, FMul(p, <<1, C.k1, C.k2>>[w], W[r])) + ch.gamma) % p])
DenAt(p, C, sv, wv, ch, r) == FProd(p, [w \in 1..3 |-> (wv[w][r] + FMul(p, ch.beta, sv[w][r]) + ch.gamma) % p])
RECURSIVE ZTo(_, _, _, _, _, _, _)
ZTo(p, C, W, sv, wv, ch, r) ==
  IF r = 1 THEN <<1>>
  ELSE LET t == ZTo(p, C, W, sv, wv, ch, r - 1)
       IN Append(t, FMul(p, t[r - 1], FDiv(p, NumAt(p, C, W, wv, ch, r - 1), DenAt(p, C, sv, wv, ch, r - 1))))
ZVals(p, C, W, sv, wv, ch) == TLCEval(ZTo(p, C, W, sv, wv, ch, C.n))
ZEnd(p, C, W, sv, wv, ch, zv) == FMul(p, zv[C.n], FDiv(p, NumAt(p, C, W, wv, ch, C.n), DenAt(p, C, sv, wv, ch, C.n)))
DenNonzero(p, C, sv, wv, ch) == \A r \in 1..C.n : DenAt(p, C, sv, wv, ch, r) # 0

(* all polynomials at x.  b: the eleven blinding values, b[1] and b[2] for   *)
(* wire a (b[1] x + b[2], times the vanishing polynomial), b[3], b[4] for b, *)
(* b[5], b[6] for c, b[7] x^2 + b[8] x + b[9] for z                          *)
Van(p, C, x) == (FPow(p, x, C.n) - 1) % p
Lin(p, b, j, x) == (FMul(p, b[j], x) + b[j + 1]) % p
Quad(p, b, x) == (FMul(p, ((FMul(p, b[7], x) + b[8]) % p), x) + b[9]) % p
ZAt(p, C, W, zv, b, x) == (FDot(p, Basis(p, W, x), zv) + FMul(p, Quad(p, b, x), Van(p, C, x))) % p
PolysAt(p, C, W, sv, wv, zv, b, x) ==
  LET L == Basis(p, W, x)
      zh == Van(p, C, x)
      q == TLCEval([k \in 1..5 |-> FDot(p, L, C.q[k])])
      s == TLCEval([k \in 1..3 |-> FDot(p, L, sv[k])])
      wb == TLCEval([k \in 1..3 |-> (FDot(p, L, wv[k]) + FMul(p, Lin(p, b, 2 * k - 1, x), zh)) % p])
  IN [x |-> x, L |-> L, zh |-> zh, q |-> q, s |-> s, w |-> wb,
      z |-> (FDot(p, L, zv) + FMul(p, Quad(p, b, x), zh)) % p]
PermNum(p, C, P, ch) == FProd(p, [w \in 1..3 |-> (P.w[w] + FMul(p, ch.beta, FMul(p, <<1, C.k1, C.k2>>[w], P.x)) + ch.gamma) % p])
PermDen(p, P, ch) == FProd(p, [w \in 1..3 |-> (P.w[w] + FMul(p, ch.beta, P.s[w]) + ch.gamma) % p])
GateAt(p, C, P, pub) ==
  (FMul(p, P.q[1], FMul(p, P.w[1], P.w[2])) + FMul(p, P.q[2], P.w[1]) + FMul(p, P.q[3], P.w[2]) + FMul(p, P.q[4], P.w[3]) + P.q[5]
   - FSum(p, [j \in 1..C.npub |-> FMul(p, P.L[j], pub[j])])) % p
(* everything that has to vanish on the domain, in one polynomial; zx is the *)
(* value of z at the next point of the domain                                *)
Total(p, C, P, pub, ch, zx) ==
  (GateAt(p, C, P, pub) + FMul(p, ch.alpha, (FMul(p, PermNum(p, C, P, ch), P.z) - FMul(p, PermDen(p, P, ch), zx)) % p)
   + FMul(p, FMul(p, ch.alpha, ch.alpha), FMul(p, (P.z - 1) % p, P.L[1]))) % p

(* coefficients of the quotient, from 4n points of a coset that does not     *)
(* meet the domain                                                           *)
Coset(p, C) == NonResidue(p)
TCoefs(p, C, W, sv, wv, zv, b, pub, ch) ==
  LET m == 4 * C.n
      W4 == Powers(p, CircomRoot(p, Log2(m)), m)
      g == Coset(p, C)
      v == TLCEval([k \in 1..m |->
             LET P == PolysAt(p, C, W, sv, wv, zv, b, FMul(p, g, W4[k]))
             IN FDiv(p, Total(p, C, P, pub, ch, ZAt(p, C, W, zv, b, FMul(p, P.x, W[2]))), P.zh)])
      c == Coefs(p, W4, v)
      gi == Powers(p, FInv(p, g), m)
  IN TLCEval([k \in 1..m |-> FMul(p, c[k], gi[k])])
Part(c, from, to) == [k \in 1..(to - from + 1) |-> c[from + k - 1]]
(* the three parts of the quotient, tied together by b[10] and b[11]         *)
TParts(p, C, tc, b, x) ==
  LET n == C.n
      xn == FPow(p, x, n)
  IN << (PolyEval(p, Part(tc, 1, n), x) + FMul(p, b[10], xn)) % p,
        (PolyEval(p, Part(tc, n + 1, 2 * n), x) - b[10] + FMul(p, b[11], xn)) % p,
        (PolyEval(p, Part(tc, 2 * n + 1, 4 * n), x) - b[11]) % p >>

(* The prover, given all challenges.  W[2] is the generator of the domain.   *)
RVal(p, C, key, ev, ch, pi, l1, z, t1, t2, t3) ==
  (* the linearisation for the committed values z, t1, t2, t3 and key        *)
  LET xn == FPow(p, ch.xi, C.n)
      a2 == FMul(p, ch.alpha, ch.alpha)
      num == FProd(p, [w \in 1..3 |-> (ev[w] + FMul(p, ch.beta, FMul(p, <<1, C.k1, C.k2>>[w], ch.xi)) + ch.gamma) % p])
      den == FMul(p, (ev[1] + FMul(p, ch.beta, ev[4]) + ch.gamma) % p, (ev[2] + FMul(p, ch.beta, ev[5]) + ch.gamma) % p)
  IN (FMul(p, key[1], FMul(p, ev[1], ev[2])) + FMul(p, key[2], ev[1]) + FMul(p, key[3], ev[2]) + FMul(p, key[4], ev[3]) + key[5] + pi
      + FMul(p, ch.alpha, (FMul(p, num, z) - FMul(p, FMul(p, den, ev[6]), (ev[3] + FMul(p, ch.beta, key[8]) + ch.gamma) % p)) % p)
      + FMul(p, FMul(p, a2, l1), (z - 1) % p)
      - FMul(p, (xn - 1) % p, (t1 + FMul(p, xn, t2) + FMul(p, FMul(p, xn, xn), t3)) % p)) % p
PiAt(p, C, L, pub) == (- FSum(p, [j \in 1..C.npub |-> FMul(p, L[j], pub[j])])) % p
(* the value the opening at xi opens, before and after the division          *)
Opened(p, ch, vals, ev, r) ==
  (r + FSum(p, [k \in 1..5 |-> FMul(p, FPow(p, ch.v, k), (vals[k] - ev[k]) % p)])) % p
PProve(p, C, sv, wv, pub, b, ch, tau) ==
  LET W == PDomain(p, C)
      zv == ZVals(p, C, W, sv, wv, ch)
      T == PolysAt(p, C, W, sv, wv, zv, b, tau)
      X == PolysAt(p, C, W, sv, wv, zv, b, ch.xi)
      zw == ZAt(p, C, W, zv, b, FMul(p, ch.xi, W[2]))
      tc == TCoefs(p, C, W, sv, wv, zv, b, pub, ch)
      t == TParts(p, C, tc, b, tau)
      tx == TParts(p, C, tc, b, ch.xi)
      ev == <<X.w[1], X.w[2], X.w[3], X.s[1], X.s[2], zw>>
      key == T.q \o T.s
      keyx == X.q \o X.s
      pi == PiAt(p, C, X.L, pub)
      rt == RVal(p, C, key, ev, ch, pi, X.L[1], T.z, t[1], t[2], t[3])
      (* not zero where the constraints fail: the prover drops it            *)
      rx == RVal(p, C, keyx, ev, ch, pi, X.L[1], X.z, tx[1], tx[2], tx[3])
      wxi == FDiv(p, (Opened(p, ch, <<T.w[1], T.w[2], T.w[3], T.s[1], T.s[2]>>, ev, rt) - rx) % p, (tau - ch.xi) % p)
      wxiw == FDiv(p, (T.z - zw) % p, (tau - FMul(p, ch.xi, W[2])) % p)
  IN TLCEval(<<T.w[1], T.w[2], T.w[3], T.z, t[1], t[2], t[3], wxi, wxiw>> \o ev)

(* The verifier.  K = [pts: the eight commitments, k1, k2, x2, power, npub]  *)
PVerifies(p, K, pub, prf, ch) ==
  LET C == [n |-> 2^K.power, npub |-> K.npub, k1 |-> K.k1, k2 |-> K.k2]
      w == CircomRoot(p, K.power)
      zh == (FPow(p, ch.xi, C.n) - 1) % p
      L == TLCEval([j \in 1..(IF K.npub = 0 THEN 1 ELSE K.npub) |-> LET wj == FPow(p, w, j - 1) IN
             FDiv(p, FMul(p, wj, zh), FMul(p, C.n % p, (ch.xi - wj) % p))])
      ev == SubSeq(prf, 10, 15)
      r == RVal(p, C, K.pts, ev, ch, PiAt(p, C, L, pub), L[1], prf[4], prf[5], prf[6], prf[7])
      f == Opened(p, ch, <<prf[1], prf[2], prf[3], K.pts[6], K.pts[7]>>, ev, r)
      g == (prf[4] - ev[6]) % p
  IN /\ Len(pub) = K.npub
     /\ FMul(p, (prf[8] + FMul(p, ch.u, prf[9])) % p, K.x2)
          = (FMul(p, ch.xi, prf[8]) + FMul(p, FMul(p, ch.u, FMul(p, ch.xi, w)), prf[9]) + f + FMul(p, ch.u, g)) % p
(* the challenge is one of the points at which the Lagrange basis is read    *)
OnDomain(p, K, ch) == FPow(p, ch.xi, 2^K.power) = 1

(* Fiat-Shamir: numbers and coordinates as two bytes, big-endian; the        *)
(* neutral element (no coordinates) as zeros                                 *)
B2(v) == <<v \div 256, v % 256>>
BPt(c) == IF c = <<>> THEN <<0, 0, 0, 0>> ELSE B2(c[1]) \o B2(c[2])
RECURSIVE Cat(_, _)
Cat(f, k) == IF k > Len(f) THEN <<>> ELSE f[k] \o Cat(f, k + 1)
BPts(l) == Cat([k \in 1..Len(l) |-> BPt(l[k])], 1)
BNums(l) == Cat([k \in 1..Len(l) |-> B2(l[k])], 1)
RECURSIVE ModAll(_, _, _, _)
ModAll(p, d, k, acc) == IF k > Len(d) THEN acc ELSE ModAll(p, d, k + 1, (acc * 256 + d[k]) % p)
Hash(p, bytes) == ModAll(p, Keccak256(bytes), 1, 0)
(* kxy: coordinates of the key, xy: of the proof                             *)
Challenges(p, kxy, pub, xy, ev) ==
  LET beta == Hash(p, BPts(kxy) \o BNums(pub) \o BPts(SubSeq(xy, 1, 3)))
      gamma == Hash(p, B2(beta))
      alpha == Hash(p, B2(beta) \o B2(gamma) \o BPt(xy[4]))
      xi == Hash(p, B2(alpha) \o BPts(SubSeq(xy, 5, 7)))
      v == Hash(p, B2(xi) \o BNums(ev))
      u == Hash(p, BPts(SubSeq(xy, 8, 9)))
  IN TLCEval([beta |-> beta, gamma |-> gamma, alpha |-> alpha, xi |-> xi, v |-> v, u |-> u])

(* The blinding a proof of satisfying wires was made with: wires from the    *)
(* commitment and the opened value, z from these two and from what the       *)
(* quotient's value at tau says of z at the point after it                   *)
Line(p, x1, y1, x2, y2) == LET s == FDiv(p, (y2 - y1) % p, (x2 - x1) % p) IN <<s, (y1 - FMul(p, s, x1)) % p>>
NoB == [k \in 1..11 |-> 0]
Blinding(p, C, sv, wv, pub, ch, tau, prf) ==
  LET W == PDomain(p, C)
      zv == ZVals(p, C, W, sv, wv, ch)
      T == PolysAt(p, C, W, sv, wv, zv, NoB, tau)
      X == PolysAt(p, C, W, sv, wv, zv, NoB, ch.xi)
      ln == TLCEval([w \in 1..3 |-> Line(p, tau, FDiv(p, (prf[w] - T.w[w]) % p, T.zh), ch.xi, FDiv(p, (prf[9 + w] - X.w[w]) % p, X.zh))])
      tn == FPow(p, tau, C.n)
      tt == FMul(p, (prf[5] + FMul(p, tn, prf[6]) + FMul(p, FMul(p, tn, tn), prf[7])) % p, T.zh)
      P == [T EXCEPT !.w = <<prf[1], prf[2], prf[3]>>, !.z = prf[4]]
      (* Total is linear in the value zx                                     *)
      at0 == Total(p, C, P, pub, ch, 0)
      zx == FDiv(p, (at0 - tt) % p, FMul(p, ch.alpha, PermDen(p, P, ch)))
      x1 == FMul(p, tau, W[2])
      x2 == FMul(p, ch.xi, W[2])
      qx(x, y) == FDiv(p, (y - FDot(p, Basis(p, W, x), zv)) % p, Van(p, C, x))
      xs == <<tau, x1, x2>>
      ys == <<qx(tau, prf[4]), qx(x1, zx), qx(x2, prf[15])>>
      c0 == Interp(p, xs, ys, 0)
      at1 == Interp(p, xs, ys, 1)
      atm == Interp(p, xs, ys, p - 1)
      half == FInv(p, 2)
      b == <<ln[1][1], ln[1][2], ln[2][1], ln[2][2], ln[3][1], ln[3][2],
             (FMul(p, half, (at1 + atm) % p) - c0) % p, FMul(p, half, (at1 - atm) % p), c0, 0, 0>>
      tc == TCoefs(p, C, W, sv, wv, zv, b, pub, ch)
      t == TParts(p, C, tc, NoB, tau)
  IN TLCEval([b EXCEPT ![10] = FDiv(p, (prf[5] - t[1]) % p, tn), ![11] = (t[3] - prf[7]) % p])
(* where one of these divisions is by zero (tau or xi on the domain, ..)     *)
Solvable(p, C, ch, tau) ==
  /\ Van(p, C, tau) # 0 /\ Van(p, C, ch.xi) # 0 /\ ch.alpha # 0 /\ ch.xi # 0
  /\ LET w == CircomRoot(p, Log2(C.n)) IN Cardinality({tau, FMul(p, tau, w), FMul(p, ch.xi, w)}) = 3 /\ tau # ch.xi
=============================================================================
