------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The rendezvous of the session networks, seen from one party Me of N.    *)
(* Peers with a lower number are dialled by Me when it starts a session;   *)
(* peers with a higher number dial Me at any time and announce a session   *)
(* and themselves.  Unclaimed connections wait in `table`, one per         *)
(* (session, peer); a call that started a session collects one connection  *)
(* per peer.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  me, n,      \* this party and the number of parties
  conns,      \* Seq([sid, q, st]) with st in {"pend", "held", "given", "closed"}
  table,      \* <<sid, q>> -> index of the unclaimed connection, 0: none
  calls       \* Seq([sid, st, got]) with st in {"wait", "ok", "fail", "done"}
svars == <<me, n, conns, table, calls>>

Peers == (0 .. n - 1) \ {me}
Lower == { q \in Peers : q < me }
Higher == { q \in Peers : q > me }
Key(s, q) == <<s, q>>
At(t, s, q) == IF <<s, q>> \in DOMAIN t THEN t[<<s, q>>] ELSE 0
Put(t, s, q, c) == [k \in DOMAIN t \cup {<<s, q>>} |-> IF k = <<s, q>> THEN c ELSE t[k]]

InitWith(m, num) == /\ me = m /\ n = num /\ conns = <<>> /\ calls = <<>>
                    /\ table = [k \in {} |-> 0]

(* Collect what is available, in order of party number; stop at the first  *)
(* peer whose connection has not arrived.                                  *)
RECURSIVE Collect(_, _, _, _)
Collect(q, c, cs, t) ==          \* q: next peer, c: the call, cs: conns, t: table
  IF q = n THEN [call |-> [c EXCEPT !.st = "ok"],
                 conns |-> [j \in 1..Len(cs) |-> IF \E p \in DOMAIN c.got : c.got[p] = j
                                                 THEN [cs[j] EXCEPT !.st = "given"] ELSE cs[j]],
                 table |-> t]
  ELSE IF q = me THEN Collect(q + 1, c, cs, t)
  ELSE IF c.got[q] # 0 THEN Collect(q + 1, c, cs, t)
  ELSE IF At(t, c.sid, q) # 0
       THEN LET j == At(t, c.sid, q) IN
            Collect(q + 1, [c EXCEPT !.got = [@ EXCEPT ![q] = j]],
                    [cs EXCEPT ![j].st = "held"], Put(t, c.sid, q, 0))
       ELSE [call |-> c, conns |-> cs, table |-> t]

Waiting(s) == { w \in 1..Len(calls) : calls[w].st = "wait" /\ calls[w].sid = s }
Active(s) == { w \in 1..Len(calls) : calls[w].st \in {"wait", "ok"} /\ calls[w].sid = s }

(* Me starts session s: dial the lower peers, then collect the higher.     *)
RECURSIVE DialLower(_, _, _, _)
DialLower(q, s, cs, got) ==
  IF q \notin Lower THEN [conns |-> cs, got |-> got]
  ELSE DialLower(q + 1, s, Append(cs, [sid |-> s, q |-> q, st |-> "held"]), [got EXCEPT ![q] = Len(cs) + 1])
Start(s) ==
  /\ Active(s) = {}
  /\ LET d == DialLower(0, s, conns, [q \in Peers |-> 0])
         r == Collect(0, [sid |-> s, st |-> "wait", got |-> d.got], d.conns, table) IN
     /\ calls' = Append(calls, r.call) /\ conns' = r.conns /\ table' = r.table
  /\ UNCHANGED <<me, n>>

(* A peer dials Me for session s.                                          *)
Dial(s, q) ==
  LET new == Len(conns) + 1
      cs == Append(conns, [sid |-> s, q |-> q, st |-> "pend"])
      old == At(table, s, q)
      \* the newest one wins
      cs2 == IF old # 0 THEN [cs EXCEPT ![old].st = "closed"] ELSE cs
      t2 == Put(table, s, q, new)
      W == Waiting(s) IN
  /\ IF W = {} THEN conns' = cs2 /\ table' = t2 /\ UNCHANGED calls
     ELSE LET w == CHOOSE w \in W : TRUE
              r == Collect(0, calls[w], cs2, t2) IN
          conns' = r.conns /\ table' = r.table /\ calls' = [calls EXCEPT ![w] = r.call]
  /\ UNCHANGED <<me, n>>

HeldBy(ws) == { j \in 1..Len(conns) : \E w \in ws : \E q \in Peers : calls[w].got[q] = j }
Close(js) == [j \in 1..Len(conns) |-> IF j \in js THEN [conns[j] EXCEPT !.st = "closed"] ELSE conns[j]]
AllWaiting == { w \in 1..Len(calls) : calls[w].st = "wait" }
Failed(ws) == [w \in 1..Len(calls) |-> IF w \in ws THEN [calls[w] EXCEPT !.st = "fail"] ELSE calls[w]]

(* The waiting period of every waiting call is over.                       *)
GiveUp ==
  /\ AllWaiting # {}
  /\ calls' = Failed(AllWaiting) /\ conns' = Close(HeldBy(AllWaiting))
  /\ UNCHANGED <<me, n, table>>
(* Nothing happened for longer than the idle period: unclaimed connections *)
(* are closed, calls that still wait fail.                                 *)
Idle ==
  /\ calls' = Failed(AllWaiting)
  /\ conns' = Close(HeldBy(AllWaiting) \cup { j \in 1..Len(conns) : conns[j].st = "pend" })
  /\ table' = [k \in {} |-> 0]
  /\ UNCHANGED <<me, n>>
(* A session's network is dropped; its number may be used again.           *)
DropNet(w) ==
  /\ calls[w].st = "ok"
  /\ calls' = [calls EXCEPT ![w].st = "done"] /\ conns' = Close(HeldBy({w}))
  /\ UNCHANGED <<me, n, table>>
(* A connection that never completes its announcement and closes.          *)
Garbage == UNCHANGED svars

(* --------------------------------------------------------- invariants -- *)
(* a connection belongs to at most one call                                *)
OneOwner == \A w1, w2 \in 1..Len(calls) : \A q1, q2 \in Peers :
  (calls[w1].got[q1] # 0 /\ calls[w1].got[q1] = calls[w2].got[q2]) => (w1 = w2 /\ q1 = q2)
(* sessions are never mixed up                                             *)
OwnSession == \A w \in 1..Len(calls) : \A q \in Peers : calls[w].got[q] # 0 =>
  /\ conns[calls[w].got[q]].sid = calls[w].sid /\ conns[calls[w].got[q]].q = q
(* a session that started has a connection to everybody                    *)
Complete == \A w \in 1..Len(calls) : calls[w].st \in {"ok", "done"} => \A q \in Peers : calls[w].got[q] # 0
(* nobody waits for a connection that is there                             *)
NoMissedRendezvous == \A w \in AllWaiting : \E q \in Peers :
  /\ calls[w].got[q] = 0 /\ At(table, calls[w].sid, q) = 0
  /\ \A p \in Peers : p < q => calls[w].got[p] # 0
(* the table holds exactly the unclaimed connections; only one per key     *)
TableExact == \A j \in 1..Len(conns) : conns[j].st = "pend" <=> At(table, conns[j].sid, conns[j].q) = j
(* superseded connections are never handed out                             *)
Newest == \A w \in 1..Len(calls) : \A q \in Peers : \A j \in 1..Len(conns) :
  LET g == calls[w].got[q] IN
  (g # 0 /\ j < g /\ conns[j].sid = conns[g].sid /\ conns[j].q = conns[g].q) => conns[j].st # "pend"
ClosedStays == \A w \in 1..Len(calls) : calls[w].st = "ok" => \A q \in Peers : conns[calls[w].got[q]].st = "given"
Inv == OneOwner /\ OwnSession /\ Complete /\ NoMissedRendezvous /\ TableExact /\ Newest /\ ClosedStays

(* What the peers and the callers can see.                                 *)
Obs == [conns |-> [j \in 1..Len(conns) |-> IF conns[j].st = "closed" THEN 0 ELSE 1],
        calls |-> [w \in 1..Len(calls) |-> calls[w].st],
        got |-> [w \in 1..Len(calls) |->
                   IF calls[w].st \in {"ok", "done"}
                   THEN [x \in 1..n |-> IF x - 1 = me THEN 0 ELSE calls[w].got[x - 1]]
                   ELSE [x \in 1..n |-> 0]]]
=============================================================================
