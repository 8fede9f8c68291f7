------------------------------ MODULE MerkleMC ------------------------------
(* Hash trees over an ideal (injective) hash: terms.  A tree is built level  *)
(* by level; then a claim (root, leaf value, witness) is made: an honest one *)
(* for some position, or one with the leaf or the witness of another tree    *)
(* position.  It is accepted iff the leaf is the one at the position the     *)
(* witness names.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Arity, Height, Vals
RECURSIVE Pw(_)
Pw(k) == IF k = 0 THEN 1 ELSE Arity * Pw(k - 1)
N == Pw(Height)
Up(v) == [k \in 1..(Len(v) \div Arity) |-> SubSeq(v, (k - 1) * Arity + 1, k * Arity)]
RECURSIVE Grow(_)
Grow(v) == IF Len(v) = 1 THEN << v >> ELSE <<v>> \o Grow(Up(v))
Wit(ls, i) == [k \in 1..Height |->
  LET at == i \div Pw(k - 1)
      g == SubSeq(ls[k], (at \div Arity) * Arity + 1, (at \div Arity) * Arity + Arity)
  IN [pos |-> at % Arity, other |-> SubSeq(g, 1, (at % Arity)) \o SubSeq(g, (at % Arity) + 2, Arity)]]
VARIABLES leaves, node, level, claim, wit
vars == <<leaves, node, level, claim, wit>>
Ls == Grow(leaves)
Init == /\ leaves \in {[k \in 1..N |-> <<f[k]>>] : f \in [1..N -> Vals]}
        /\ \E i \in 0..(N - 1) : wit = Wit(Ls, i)
        /\ \E v \in Vals : claim = <<v>> /\ node = <<v>>
        /\ level = 0
(* the verifier climbs one level *)
Climb == /\ level < Height
         /\ LET w == wit[level + 1] IN node' = SubSeq(w.other, 1, w.pos) \o <<node>> \o SubSeq(w.other, w.pos + 1, Arity - 1)
         /\ level' = level + 1 /\ UNCHANGED <<leaves, claim, wit>>
Next == Climb \/ (level = Height /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
RECURSIVE Index(_)
Index(k) == IF k > Height THEN 0 ELSE wit[k].pos * Pw(k - 1) + Index(k + 1)
Sound == level = Height => ((node = Ls[Height + 1][1]) <=> (claim = leaves[Index(1) + 1]))
OnPath == \A k \in 0..Height : k = level /\ claim = leaves[Index(1) + 1] => \E x \in 1..Len(Ls[k + 1]) : node = Ls[k + 1][x]
=============================================================================
