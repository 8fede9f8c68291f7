------------------------------- MODULE Inputs -------------------------------
(* Named inputs of a circuit, their flattening into single elements, the     *)
(* split into party shares and the merge of several providers' inputs.       *)
(* A value is a number (sign, notation, magnitude), a truth value, a gap     *)
(* ("?") that stands for an element someone else provides, or an array.      *)
EXTENDS Sharing, TLC, FiniteSets
RECURSIVE Leaves(_)

(* the elements of a value in reading order *)
Leaves(v) == IF v.t # "arr" THEN <<v>>
             ELSE LET f[j \in 0..Len(v.els)] == IF j = 0 THEN <<>> ELSE f[j - 1] \o Leaves(v.els[j]) IN f[Len(v.els)]
FieldValue(p, v) == IF v.t = "bool" THEN v.mag ELSE IF v.neg THEN (-(v.mag % p)) % p ELSE v.mag % p
(* decimal numerals that are not below the modulus may be refused *)
MayRefuse(p, v) == v.t = "num" /\ v.hex = 0 /\ v.mag >= p
Elements(p, e) ==
  IF e.val.t = "arr"
  THEN LET l == Leaves(e.val) IN {[name |-> e.name \o "[" \o ToString(j - 1) \o "]", base |-> e.name, val |-> FieldValue(p, l[j])] : j \in {j \in 1..Len(l) : l[j].t # "none"}}
  ELSE {[name |-> e.name, base |-> e.name, val |-> FieldValue(p, e.val)]}
Flat(p, inp) == UNION {Elements(p, inp[j]) : j \in 1..Len(inp)}
RefusalAllowed(p, inp) == \E j \in 1..Len(inp) : \E k \in 1..Len(Leaves(inp[j].val)) : MayRefuse(p, Leaves(inp[j].val)[k])
(* merging: the union; a name may only occur again if it is public and has the same value *)
Entries(maps) == {<<k, j>> \in (1..Len(maps)) \X (1..20) : j <= Len(maps[k])}
At(maps, kj) == maps[kj[1]][kj[2]]
Clash(public, x, y) == x.name = y.name /\ (x.base \notin public \/ x.val # y.val \/ x.shared # y.shared)
Mergeable(public, maps) == \A a, b \in Entries(maps) : a[1] # b[1] => ~ Clash(public, At(maps, a), At(maps, b))
Merged(maps) == {[name |-> At(maps, a).name, shared |-> At(maps, a).shared, val |-> At(maps, a).val] : a \in Entries(maps)}
(* replicated shares: party i holds (a_i, a_(i-1)); the value is the sum of the a_i *)
RepOk(a, b) == \A j \in 1..3 : b[j] = a[IF j = 1 THEN 3 ELSE j - 1]
RepValue(p, a) == (a[1] + a[2] + a[3]) % p
=============================================================================
