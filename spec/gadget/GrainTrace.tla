----------------------------- MODULE GrainTrace -----------------------------
(* The published BN254 parameter sets of Poseidon2 are the output of a Grain *)
(* LFSR: a register of 80 bits is loaded with the description of the         *)
(* instance, 160 bits are discarded, of each following pair of bits the      *)
(* second counts if the first is one; 254 counting bits are a number, which  *)
(* is a round constant if it is below the modulus (and dropped otherwise).   *)
(* Order: external constants of the first half, internal ones, external ones *)
(* of the second half.  For widths from 4 on the diagonal of the internal    *)
(* matrix is then drawn (modulo p, without dropping) until the matrix has no *)
(* invariant subspaces: the published sets use candidate 4 (width 4) and 6   *)
(* (width 16), counted from 0.  The trace holds the sets of the real code.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bits == 254
VARIABLES i, reg, skip, acc, n, viol
vars == <<i, reg, skip, acc, n, viol>>
RECURSIVE Bin(_, _)
Bin(v, l) == IF l = 0 THEN <<>> ELSE Bin(v \div 2, l - 1) \o <<v % 2>>
Rec(k) == Trace[k]
Load(k) == LET r == Rec(k) IN TLCEval(Bin(1, 2) \o Bin(0, 4) \o Bin(Bits, 12) \o Bin(r.t, 12) \o Bin(r.rf1 + r.rf2, 10) \o Bin(r.rp, 10) \o [x \in 1..30 |-> 1])
New(g) == [j \in 1..16 |-> (g[j] + g[j + 13] + g[j + 23] + g[j + 38] + g[j + 51] + g[j + 62]) % 2]
RECURSIVE Shrink(_, _)
Shrink(b, j) == IF j > Len(b) THEN <<>> ELSE (IF b[j] = 1 THEN <<b[j + 1]>> ELSE <<>>) \o Shrink(b, j + 2)
RECURSIVE Less(_, _, _)
Less(a, b, j) == IF j > Len(a) THEN FALSE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE Less(a, b, j + 1)
(* sum of two numbers of equal length, most significant bit first, cut to that length *)
RECURSIVE AddC(_, _, _, _)
AddC(a, b, j, c) == IF j = 0 THEN <<>> ELSE LET s == a[j] + b[j] + c IN AddC(a, b, j - 1, s \div 2) \o <<s % 2>>
Plus(a, b) == AddC(a, b, Len(a), 0)
One == [j \in 1..Bits |-> IF j = Bits THEN 1 ELSE 0]
Cand(t) == IF t = 4 THEN 4 ELSE 6
Consts(r) == (r.rf1 + r.rf2) * r.t + r.rp
Total(r) == IF r.t < 4 THEN Consts(r) ELSE Consts(r) + (Cand(r.t) + 1) * r.t
ShapeOk(r) == /\ r.rf1 = 4 /\ r.rf2 = 4 /\ r.rp = (IF r.t = 16 THEN 57 ELSE 56)
              /\ Len(r.ext) = 8 /\ (\A x \in 1..8 : Len(r.ext[x]) = r.t) /\ Len(r.int) = r.rp /\ Len(r.diag) = r.t
(* what the code has where the k-th number (from 0) belongs *)
Expected(r, k) ==
  IF k < r.rf1 * r.t THEN r.ext[(k \div r.t) + 1][(k % r.t) + 1]
  ELSE IF k < r.rf1 * r.t + r.rp THEN r.int[k - r.rf1 * r.t + 1]
  ELSE LET e == k - r.rp IN r.ext[(e \div r.t) + 1][(e % r.t) + 1]
Small(r) == IF r.t = 2 THEN <<1, 2>> ELSE <<1, 1, 2>>
DiagOk(r) == r.t >= 4 \/ r.diag = [x \in 1..r.t |-> Bin(0, Bits - 8) \o Bin(Small(r)[x], 8)]
Begin(k) == /\ i' = k /\ skip' = 10 /\ acc' = <<>> /\ n' = 0
            /\ reg' = IF k <= Len(Trace) THEN Load(k) ELSE <<>>
Init == i = 1 /\ reg = Load(1) /\ skip = 10 /\ acc = <<>> /\ n = 0 /\ viol = <<>>
Bad(what) == viol' = viol \o <<[at |-> i, job |-> Rec(i).job, what |-> "parameters of width " \o ToString(Rec(i).t) \o ": " \o what]>>
Clock == reg' = SubSeq(reg, 17, 80) \o New(reg)
Step ==
  /\ i <= Len(Trace)
  /\ LET r == Rec(i) IN
     IF n = 0 /\ skip = 10 /\ ~ (ShapeOk(r) /\ DiagOk(r)) THEN Bad("number of rounds or small matrix") /\ Begin(i + 1)
     ELSE IF n = Total(r) THEN Begin(i + 1) /\ UNCHANGED viol
     ELSE IF skip > 0 THEN Clock /\ skip' = skip - 1 /\ UNCHANGED <<i, acc, n, viol>>
     ELSE IF Len(acc) < Bits THEN Clock /\ acc' = acc \o Shrink(New(reg), 1) /\ UNCHANGED <<i, skip, n, viol>>
     ELSE LET v == SubSeq(acc, 1, Bits) IN
          /\ acc' = SubSeq(acc, Bits + 1, Len(acc)) /\ UNCHANGED <<reg, skip>>
          /\ IF n < Consts(r)
             THEN IF ~ Less(v, r.modulus, 1) THEN UNCHANGED <<i, n, viol>>
                  ELSE /\ n' = n + 1 /\ i' = i
                       /\ IF v = Expected(r, n) THEN UNCHANGED viol ELSE Bad("round constant " \o ToString(n))
             ELSE LET d == n - Consts(r) IN
                  /\ n' = n + 1 /\ i' = i
                  /\ IF d < Cand(r.t) * r.t THEN UNCHANGED viol
                     ELSE LET w == Plus(r.diag[(d % r.t) + 1], One) IN
                          IF w = v \/ (Less(w, v, 1) /\ Plus(w, r.modulus) = v) THEN UNCHANGED viol ELSE Bad("diagonal " \o ToString(d % r.t))
Next == Step
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> [parameters |-> Len(Trace)], events |-> Len(Trace)])>>)
=============================================================================
