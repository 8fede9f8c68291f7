----------------------------- MODULE InputTrace -----------------------------
(* Splits, merges, unbatchings and shared witnesses of the real code.        *)
EXTENDS Inputs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov
vars == <<i, viol, cov>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0]
Set(s) == {s[j] : j \in 1..Len(s)}
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
AllSame(s, v) == \A j \in 1..Len(s) : s[j] = v
Deinter(raw, o) == [j \in 1..3 |-> raw[2 * j - 1 + o]]
ShareGood(e, raw, v) ==
  IF e.proto = "rep3" THEN Len(raw) = 6 /\ RepOk(Deinter(raw, 0), Deinter(raw, 1)) /\ RepValue(e.p, Deinter(raw, 0)) = v
  ELSE Len(raw) = e.n /\ ShOk(e.p, e.t, raw) /\ ShValue(e.p, e.t, raw) = v
Split(e) ==
  LET want == Flat(e.p, e.input)
      got == Set(e.got)
      val(nm) == (CHOOSE w \in want : w.name = nm).val
      known == {g \in got : g.name \in {w.name : w \in want}}
  IN IF ~ e.ok THEN F(RefusalAllowed(e.p, e.input), "split refuses a valid input")
     ELSE F(\A w \in want : w.name \in {g.name : g \in got}, "split loses an element")
       \o F(\A g \in got : g.name \in {w.name : w \in want}, "split invents an element")
       \o F(\A g \in known : LET base == (CHOOSE w \in want : w.name = g.name).base IN AllSame(g.kinds, IF base \in Set(e.public) THEN "public" ELSE "shared"),
            "split shares a public element or publishes a private one")
       \o F(\A g \in known : \A j \in 1..Len(g.pubs) : g.pubs[j] = val(g.name), "a public element has a wrong value")
       \o F(\A g \in known : g.raw = <<>> \/ ShareGood(e, g.raw, val(g.name)), "the shares of an element are not a sharing of its value")
Merge(e) ==
  LET good == Mergeable(Set(e.public), e.maps)
  IN F(good \/ ~ e.ok, "merge accepts a duplicate") \o F(~ good \/ e.ok, "merge refuses disjoint inputs")
     \o F(~ good \/ ~ e.ok \/ (Set(e.got) = Merged(e.maps) /\ Len(e.got) = Cardinality(Merged(e.maps))), "merge does not give the union")
Unbatch(e) ==
  LET rows == e.public \o e.witness
      b == IF e.public = <<>> THEN 0 ELSE Len(e.public[1])
      good == e.public # <<>> /\ \A j \in 1..Len(rows) : Len(rows[j]) = b
  IN IF ~ good THEN F(e.public = <<>> \/ ~ e.ok, "unbatching rows of different lengths gives witnesses")
     ELSE F(e.ok /\ Len(e.got) = b, "unbatching gives a wrong number of witnesses")
       \o F(~ e.ok \/ Len(e.got) # b \/ \A k \in 1..b : /\ e.got[k].public = [j \in 1..Len(e.public) |-> e.public[j][k]]
                                                        /\ e.got[k].witness = [j \in 1..Len(e.witness) |-> e.witness[j][k]]
                                                        /\ e.got[k].verify = SubSeq(e.got[k].public, 2, Len(e.got[k].public)),
            "unbatching does not transpose")
Col3(m, k) == [j \in 1..Len(m) |-> m[j][k]]
Wit(e) ==
  LET pub == SubSeq(e.vals, 1, e.np)
      m == Len(e.vals) - e.np
      lens == Len(e.a) = e.n /\ (\A j \in 1..Len(e.a) : Len(e.a[j]) = m) /\ (\A j \in 1..Len(e.b) : Len(e.b[j]) = m)
      v(k) == e.vals[e.np + k]
  IN F(Len(e.pubs) = e.n /\ \A j \in 1..Len(e.pubs) : e.pubs[j] = pub, "public inputs differ from those of the witness (" \o e.how \o ")")
     \o F(lens, "wrong number of witness shares (" \o e.how \o ")")
     \o F(~ lens \/ \A k \in 1..m : IF e.how = "shamir" THEN ShOk(e.p, e.t, Col3(e.a, k)) /\ ShValue(e.p, e.t, Col3(e.a, k)) = v(k)
                                    ELSE RepValue(e.p, Col3(e.a, k)) = v(k) /\ (e.b = <<>> \/ RepOk(Col3(e.a, k), Col3(e.b, k))),
          "the witness shares are not a sharing of the witness (" \o e.how \o ")")
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o (CASE Ev.ev = "split" -> Split(Ev) [] Ev.ev = "merge" -> Merge(Ev) [] Ev.ev = "unbatch" -> Unbatch(Ev) [] Ev.ev = "witness" -> Wit(Ev))
        /\ LET key == Ev.ev \o (IF Ev.ev = "witness" THEN "." \o Ev.how ELSE IF Ev.ev = "unbatch" THEN "" ELSE IF Ev.ok THEN ".ok" ELSE ".refused")
           IN cov' = (key :> ((IF key \in DOMAIN cov THEN cov[key] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
