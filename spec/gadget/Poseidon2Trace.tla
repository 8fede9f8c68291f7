--------------------------- MODULE Poseidon2Trace ---------------------------
(* Permutations and hash trees of the real code, plain and on shares.        *)
EXTENDS Poseidon2, Sharing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov, ref
vars == <<i, viol, cov, ref>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0] /\ ref = <<>>
Name == Ev.ev \o "." \o (IF Ev.ev = "merkle" THEN Ev.tree ELSE Ev.mode) \o "." \o (IF Ev.ev \in {"merkle", "mshared"} THEN "" ELSE Ev.form)
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> Name \o ": " \o what]>>
P == [p |-> Ev.p, t |-> Ev.t, d |-> Ev.d, rf1 |-> Ev.rf1, rf2 |-> Ev.rf2, diag |-> Ev.diag, ext |-> Ev.ext, int |-> Ev.int]
Want == [k \in 1..Len(Ev.ins) |-> Perm(P, Ev.ins[k])]
(* one shared value: sh[party] is the list of components the party holds    *)
Consistent(sh) == IF Ev.mode = "shamir" THEN ShOk(Ev.p, Ev.deg, [j \in 1..Len(sh) |-> sh[j][1]])
                  ELSE IF Ev.mode = "rep3" THEN sh[1][2] = sh[3][1] /\ sh[2][2] = sh[1][1] /\ sh[3][2] = sh[2][1]
                  ELSE TRUE
Value(sh) == IF Ev.mode = "shamir" THEN ShValue(Ev.p, Ev.deg, [j \in 1..Len(sh) |-> sh[j][1]])
             ELSE IF Ev.mode = "rep3" THEN (sh[1][1] + sh[2][1] + sh[3][1]) % Ev.p
             ELSE sh[1][1]
Of(m, k, c) == [j \in 1..Len(m) |-> m[j][k][c]]
Shape(m, ks, c) == \A j \in 1..Len(m) : Len(m[j]) = ks /\ \A k \in 1..ks : Len(m[j][k]) = c
Plain == IF Ev.fatal # "" THEN F(FALSE, Ev.fatal)
         ELSE F(Ev.outs = Want, "not the permutation")
              \o F(Ev.ok = NumRounds(P), "number of rounds") \o F(Ev.sbox = NumSbox(P), "number of S-boxes")
Shared ==
  IF Ev.fatal # "" THEN F(FALSE, "error: " \o Ev.fatal)
  ELSE LET ks == Len(Ev.ins)
           ok == Shape(Ev.sh, ks, Ev.t)
           tl == IF Ev.traces[1] = <<>> THEN 0 ELSE Len(Ev.traces[1][1])
           tr == tl > 0
           tok == ~ tr \/ Shape(Ev.traces, ks, tl)
       IN F(ok, "shape")
          \o F(~ ok \/ \A k \in 1..ks, c \in 1..Ev.t : Consistent(Of(Ev.sh, k, c)), "inconsistent shares")
          \o F(~ ok \/ \A k \in 1..ks : \E w \in {Perm(P, Ev.ins[k])} : \A c \in 1..Ev.t : Value(Of(Ev.sh, k, c)) = w[c], "not the permutation")
          \o F(Ev.consumed, "randomness left over") \o F(Ev.unread = 0, "messages left over")
          \o F(tok, "shape of the trace")
          \o F(~ tr \/ ~ tok \/ ref = <<>> \/ Ev.mode = "plaincircom" \/
               (/\ \A k \in 1..ks : Len(ref[k]) = tl
                /\ \A k \in 1..ks, c \in 1..tl : Consistent(Of(Ev.traces, k, c)) /\ Value(Of(Ev.traces, k, c)) = ref[k][c]), "the trace differs from the plain trace")
Merkle ==
  IF Ev.fatal # "" THEN F(FALSE, Ev.fatal)
  ELSE LET ls == TLCEval(Levels(P, Ev.tree, Ev.arity, Ev.leaves))
           root == ls[Len(ls)][1]
       IN F(Ev.root = root, "wrong root")
          \o F(\A k \in 1..Len(Ev.wits) : Ev.wits[k].root = root, "wrong root with witness")
          \o F(\A k \in 1..Len(Ev.wits) : Ev.wits[k].wit = WitOf(ls, Ev.arity, Ev.wits[k].i), "wrong witness")
          \o F(\A k \in 1..Len(Ev.tests) : LET x == Ev.tests[k] IN
                 x.res = "panic" \/ x.res = (IF Accepts(P, Ev.tree, x.root, x.leaf, x.wit) THEN "yes" ELSE "no"), "a path is judged wrongly")
          \o F(\A k \in 1..Len(Ev.tests) : LET x == Ev.tests[k] IN x.res = "panic" =>
                 (x.wit = <<>> \/ Len(x.wit[1].other) + (IF Ev.tree = "sponge" THEN 2 ELSE 1) > Ev.t), "verifying a path panics")
MShared ==
  IF Ev.fatal # "" THEN F(FALSE, "error: " \o Ev.fatal)
  ELSE F(Consistent(Ev.sh), "inconsistent shares of the root")
       \o F(Value(Ev.sh) = Root(P, Ev.tree, Ev.arity, Ev.leaves), "wrong root")
(* a plain trace becomes the reference of the following records of the job   *)
Traces(m) == [k \in 1..Len(m[1]) |-> [c \in 1..Len(m[1][k]) |-> m[1][k][c][1]]]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o (IF Ev.ev = "plain" THEN Plain ELSE IF Ev.ev = "shared" THEN Shared ELSE IF Ev.ev = "merkle" THEN Merkle ELSE MShared)
        /\ ref' = IF Ev.ev = "shared" /\ Ev.mode = "plaincircom" THEN (IF Ev.fatal = "" THEN Traces(Ev.traces) ELSE <<>>)
                  ELSE IF i > 1 /\ Trace[i - 1].job # Ev.job THEN <<>> ELSE ref
        /\ cov' = (Name :> ((IF Name \in DOMAIN cov THEN cov[Name] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
