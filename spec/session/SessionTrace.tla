----------------------------- MODULE SessionTrace -----------------------------
(* Histories recorded at one party of the real session networks, whose     *)
(* peers are played by the harness, replayed through Session: after every  *)
(* step the observed state of all connections and calls, and the identity  *)
(* of the connection each started session talks over, must be the model's. *)
EXTENDS Session, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, sid, cov, bad
vars == <<svars, i, viol, sid, cov, bad>>
Ev == Trace[i]
Init == InitWith(0, 2) /\ i = 1 /\ viol = <<>> /\ sid = -1 /\ cov = [x \in {} |-> 0] /\ bad = FALSE
F(cond, what) == IF cond THEN <<>> ELSE <<[prop |-> "N07", at |-> i, sid |-> sid, what |-> what]>>
(* only the first disagreement of a history is reported: afterwards model  *)
(* and implementation are in different states                              *)
Fin(v, c) == /\ viol' = IF bad THEN viol ELSE viol \o v
             /\ bad' = (bad \/ v # <<>>)
             /\ i' = i + 1
             /\ cov' = (c :> ((IF c \in DOMAIN cov THEN cov[c] ELSE 0) + 1)) @@ cov
Cmp(o, m) ==
  F(o.conns = m.conns, IF Len(o.conns) # Len(m.conns) THEN "wrong number of connections"
                       ELSE IF \E j \in 1..Len(m.conns) : m.conns[j] = 0 /\ o.conns[j] = 1
                       THEN "a superseded, expired or released connection is still open"
                       ELSE "a connection was closed that is waiting or in use")
  \o F(o.calls = m.calls, "a session start has the wrong outcome")
  \o F(o.calls = m.calls => o.got = m.got, "a session talks over the wrong connection")
  \o F(o.misc = <<>>, "a frame or announcement of a session is wrong")
Act ==
  CASE Ev.o = "start" -> IF Active(Ev.s) = {} THEN Start(Ev.s) ELSE UNCHANGED svars
    [] Ev.o = "dial" -> Dial(Ev.s, Ev.q)
    [] Ev.o = "giveup" -> IF AllWaiting # {} THEN GiveUp ELSE UNCHANGED svars
    [] Ev.o = "idle" -> Idle
    [] Ev.o = "drop" -> IF calls[Ev.s].st = "ok" THEN DropNet(Ev.s) ELSE UNCHANGED svars
    [] OTHER -> Garbage
Reset == /\ Ev.e = "sreset"
         /\ me' = Ev.me /\ n' = Ev.n /\ conns' = <<>> /\ calls' = <<>> /\ table' = [k \in {} |-> 0]
         /\ sid' = Ev.id /\ bad' = FALSE /\ i' = i + 1 /\ UNCHANGED <<viol, cov>>
Oper == /\ Ev.e = "op" /\ Act /\ Fin(Cmp(Ev.obs, Obs'), Ev.o) /\ UNCHANGED sid
Early == /\ Ev.e = "early" /\ UNCHANGED <<svars, sid>>
         /\ Fin(F(FALSE, "a session start gave up before its waiting period"), "early")
(* the machine was too slow for the timing assumptions of the history      *)
Void == /\ Ev.e = "void" /\ UNCHANGED <<svars, sid, viol, cov>> /\ bad' = TRUE /\ i' = i + 1
Next == i <= Len(Trace) /\ (Reset \/ Oper \/ Early \/ Void)
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
