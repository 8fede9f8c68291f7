--------------------------- MODULE TransportTrace ---------------------------
(***************************************************************************)
(* Conformance: histories recorded from the real transports (harness vnet) *)
(* are replayed through the actions of Transport.  Every event is bound to *)
(* its action; the conditions under which the abstract machine allows the  *)
(* event are evaluated in the current abstract state, and each condition   *)
(* that fails is collected in `viol` under the property it belongs to.     *)
(***************************************************************************)
EXTENDS Transport, TLC, Json, IOUtils

JsonTrace == ndJsonDeserialize(IOEnv.TRACE)
Trace == JsonTrace

VARIABLES i, viol, sid, slow, snapS, cov
vars == <<tvars, i, viol, sid, slow, snapS, cov>>

Ev == Trace[i]
Flag(cond, prop, what) == IF cond THEN <<>> ELSE <<[prop |-> prop, at |-> i, sid |-> sid, what |-> what]>>

Empty == [backend |-> "none", n |-> 2, nets |-> 1, maxf |-> <<0, 0>>, timeout |-> -1,
          flushto |-> -1, grace |-> -1, bound |-> -1, connect |-> -1, fam |-> ""]

Init == /\ InitWith(Empty) /\ i = 1 /\ viol = <<>> /\ sid = -1
        /\ slow = <<>> /\ snapS = <<>> /\ cov = [x \in {} |-> 0]

Step(v, c) ==
  /\ i' = i + 1
  /\ viol' = viol \o v
  /\ cov' = (c :> ((IF c \in DOMAIN cov THEN cov[c] ELSE 0) + 1)) @@ cov
Same == UNCHANGED tvars
Keep == UNCHANGED <<sid, slow, snapS>>

Grace == IF cfg.grace = -1 THEN 4000 ELSE cfg.grace   \* allowance for scheduling delays, ms
Known(p, q, k) == <<p, q, k>> \in Links

OfParty(x, p) == IF x = -1 THEN -1 ELSE x

Reset ==
  /\ Ev.e = "reset"
  /\ LET c == [backend |-> Ev.backend, n |-> Ev.n, nets |-> Ev.nets, maxf |-> Ev.maxf,
               timeout |-> Ev.timeout, flushto |-> Ev.flushto, grace |-> Ev.grace,
               bound |-> Ev.bound, connect |-> Ev.connect, fam |-> Ev.fam] IN
     /\ cfg' = c
     /\ sent' = [l \in LinksOf(c.n, c.nets) |-> <<>>]
     /\ nxt' = [l \in LinksOf(c.n, c.nets) |-> 0]
     /\ stat' = [l \in LinksOf(c.n, c.nets) |-> "up"]
     /\ lim' = [l \in LinksOf(c.n, c.nets) |-> -1]
     /\ guar' = [l \in LinksOf(c.n, c.nets) |-> 0]
     /\ dead' = [l \in LinksOf(c.n, c.nets) |-> FALSE]
     /\ stall' = [l \in LinksOf(c.n, c.nets) |-> FALSE]
     /\ flushed' = [l \in LinksOf(c.n, c.nets) |-> 0]
     /\ snapF' = [x \in NetsOf(c.n, c.nets) |-> [q \in {} |-> 0]]
     /\ sb' = [l \in LinksOf(c.n, c.nets) |-> 0]
     /\ rb' = [l \in LinksOf(c.n, c.nets) |-> 0]
     /\ rpend' = [l \in LinksOf(c.n, c.nets) |-> 0]
     /\ closed' = {}
     /\ slow' = [x \in NetsOf(c.n, c.nets) |-> [q \in {} |-> <<0, 0>>]]
     /\ snapS' = [x \in NetsOf(c.n, c.nets) |-> [q \in {} |-> <<0, 0>>]]
     /\ sid' = Ev.sid
  /\ Step(<<>>, "reset")

(* Setup: every party obtains the requested networks and its own identity. *)
Setup ==
  /\ Ev.e = "setup"
  /\ Step(Flag(Ev.ok, "N08", "setup failed")
          \o Flag(\A j \in DOMAIN Ev.ids : Ev.ids[j] = Ev.p, "N08", "network reports a wrong party id")
          \o Flag(Ev.ok => (Len(Ev.ids) = cfg.nets \/ cfg.fam \in {"session", "fork"}), "N08", "wrong number of networks"), "setup")
  /\ Same /\ Keep

SendC ==
  /\ Ev.e = "send"
  /\ IF Known(Ev.p, Ev.q, Ev.k)
     THEN SendCall(<<Ev.p, Ev.q, Ev.k>>, [len |-> Ev.len, h |-> Ev.h, c |-> Ev.c, st |-> "pend", ts |-> 0])
     ELSE Same
  /\ Step(<<>>, "send") /\ Keep

SendR ==
  /\ Ev.e = "sendret"
  /\ LET l == <<Ev.p, Ev.q, Ev.k>> IN
     IF ~ Known(Ev.p, Ev.q, Ev.k)
     THEN /\ Same
          /\ Step(Flag(~ Ev.ok, "N08", "send to an unknown party succeeded")
                  \o Flag(Ev.ok \/ ~ Ev.panic, "N08", "send to an unknown party panicked"), "send-unknown")
     ELSE LET len == sent[l][IdxOf(l, Ev.c)].len
              big == MustRefuse(l, len) IN
          /\ SendRet(l, Ev.c, Ev.ok, Ev.t)
          /\ Step(Flag(big => ~ Ev.ok, "N02", "oversized frame accepted by the sender")
                  \o Flag(Ev.ok \/ ~ Ev.panic, "N01", "send panicked")
                  \o Flag((~ big /\ ~ Ev.ok) => (MayFail(l) \/ cfg.timeout # -1),
                          IF len = MaxF(l[1]) THEN "N02" ELSE "N01", "send failed on a healthy link")
                  \o Flag((~ big /\ ~ Ev.ok /\ ~ MayFail(l) /\ cfg.timeout # -1) => Ev.dt >= cfg.timeout,
                          "N06", "send gave up before the timeout"),
                  IF big THEN "send-big" ELSE IF Ev.ok THEN "send-ok" ELSE "send-fail")
  /\ Keep

RecvC ==
  /\ Ev.e = "rcall"
  /\ IF Known(Ev.q, Ev.p, Ev.k) THEN RecvCall(<<Ev.q, Ev.p, Ev.k>>) ELSE Same
  /\ Step(<<>>, "rcall") /\ Keep

(* Which property a wrong delivery belongs to: everything is N01, except   *)
(* on links that are cut (N03).                                            *)
DeliveryProp(l) == IF dead[l] \/ (stat[l] = "cut" /\ ~ HasNext(l)) THEN "N03" ELSE "N01"
(* If the frame is not the next one, resynchronise on the frame it is.     *)
Resync(l, len, h) ==
  LET c == {j \in 1..Len(sent[l]) : sent[l][j].len = len /\ sent[l][j].h = h}
  IN IF c = {} THEN nxt[l] ELSE Max2(nxt[l], CHOOSE j \in c : TRUE)
RecvR ==
  /\ Ev.e = "recv"
  /\ LET l == <<Ev.q, Ev.p, Ev.k>> IN
     IF ~ Known(Ev.q, Ev.p, Ev.k)
     THEN /\ Same
          /\ Step(Flag(~ Ev.ok, "N08", "receive from an unknown party succeeded")
                  \o Flag(Ev.ok \/ ~ Ev.panic, "N08", "receive from an unknown party panicked"), "recv-unknown")
     ELSE IF Ev.ok
     THEN LET good == IsNextFrame(l, Ev.len, Ev.h) IN
          /\ Deliver(l, Ev.len, IF good THEN NextIdx(l) ELSE Resync(l, Ev.len, Ev.h))
          /\ Step(Flag(good, DeliveryProp(l), "delivered frame is not the next one of this link")
                  \o Flag(DeliverSize(l, Ev.len), "N02", "frame above the receiver's limit delivered")
                  \o Flag(DeliverAlive(l), "N03", "frame delivered after the terminal error"), "recv-ok")
     ELSE LET may == MayErr(l)
              waited == cfg.timeout # -1 /\ Ev.dt >= cfg.timeout
              stale == HasNext(l) /\ ~ stall[l] /\ ~ TooBigFor(l, sent[l][NextIdx(l)].len)
                       /\ sent[l][NextIdx(l)].st = "ok"
                       /\ Ev.t - sent[l][NextIdx(l)].ts >= Grace
              lossProp == IF stat[l] = "cut" /\ <<l[1], l[3]>> \in closed THEN "N04"
                          ELSE IF stat[l] = "cut" THEN "N03"
                          ELSE IF HasNext(l) /\ sent[l][NextIdx(l)].len = MaxF(l[2]) THEN "N02"
                          ELSE IF cfg.timeout # -1 THEN "N06" ELSE "N01"
          IN
          /\ IF may THEN RecvFail(l) ELSE RecvGiveUp(l)
          /\ Step(Flag(~ Ev.panic, "N01", "receive panicked")
                  \o Flag(may \/ cfg.timeout # -1, lossProp, "receive failed although a frame is due or the link is healthy")
                  \o Flag((~ may /\ cfg.timeout # -1) => waited, "N06", "receive gave up before the timeout")
                  \o Flag((~ may /\ waited) => ~ stale, lossProp, "receive timed out although a frame had long been sent")
                  \o Flag((may /\ cfg.bound # -1) => Ev.dt <= cfg.bound, "N03", "the error of a failed peer took too long")
                  \o Flag((~ may /\ waited) => Ev.dt <= cfg.timeout + Grace, "N06", "receive timeout overrun"),
                  IF may THEN "recv-err" ELSE "recv-timeout")
  /\ Keep

FlushC == /\ Ev.e = "fcall" /\ FlushCall(Ev.p, Ev.k) /\ Step(<<>>, "fcall") /\ Keep
FlushR ==
  /\ Ev.e = "flush"
  /\ FlushRet(Ev.p, Ev.k, Ev.ok)
  /\ Step(Flag(Ev.ok \/ FlushMayFail(Ev.p, Ev.k), "N04", "flush failed on healthy links")
          \o Flag(Ev.ok \/ ~ Ev.panic, "N04", "flush panicked")
          \o Flag(cfg.flushto # -1 => Ev.dt <= cfg.flushto * (cfg.n - 1) + Grace, "N06", "flush timeout overrun")
          \o Flag((~ Ev.ok /\ cfg.flushto # -1 /\ (\E q \in P \ {Ev.p} : stall[<<Ev.p, q, Ev.k>>])
                   /\ (\A q \in P \ {Ev.p} : stat[<<Ev.p, q, Ev.k>>] = "up"))
                  => Ev.dt >= cfg.flushto, "N06", "flush gave up before its timeout"),
          IF Ev.ok THEN "flush-ok" ELSE "flush-err")
  /\ Keep
MustFail ==
  /\ Ev.e = "mustfail"
  /\ Same
  /\ Step(Flag(Ev.failed, "N04", "flush kept succeeding although the peer connection failed with data pending"), "mustfail")
  /\ Keep

StatC ==
  /\ Ev.e = "scall"
  /\ slow' = [slow EXCEPT ![<<Ev.p, Ev.k>>] =
       [q \in P \ {Ev.p} |-> <<SentLow(<<Ev.p, q, Ev.k>>), RecvLow(<<q, Ev.p, Ev.k>>)>>]]
  /\ Same /\ UNCHANGED <<sid, snapS>> /\ Step(<<>>, "scall")
Others(p) == P \ {p}
StatR ==
  /\ Ev.e = "stats"
  /\ LET st == Ev.st
         ids == {st[j][1] : j \in DOMAIN st}
         lowOf(q) == slow[<<Ev.p, Ev.k>>][q] IN
     /\ Step(Flag(Ev.ok, "N05", "statistics unavailable")
             \o Flag(ids = Others(Ev.p) /\ Len(st) = cfg.n - 1, "N05", "statistics cover the wrong parties")
             \o Flag(\A j \in 1..Len(st)-1 : st[j][1] < st[j+1][1], "N05", "statistics are not ordered by party")
             \o Flag(\A j \in DOMAIN st : st[j][1] \in Others(Ev.p) =>
                       /\ st[j][2] >= lowOf(st[j][1])[1]
                       /\ st[j][2] <= SentHigh(<<Ev.p, st[j][1], Ev.k>>), "N05", "sent bytes are wrong")
             \o Flag(\A j \in DOMAIN st : st[j][1] \in Others(Ev.p) =>
                       /\ st[j][3] >= lowOf(st[j][1])[2]
                       /\ st[j][3] <= RecvHigh(<<st[j][1], Ev.p, Ev.k>>), "N05", "received bytes are wrong"),
             "stats")
     /\ snapS' = [snapS EXCEPT ![<<Ev.p, Ev.k>>] =
          [q \in Others(Ev.p) |-> IF \E j \in DOMAIN st : st[j][1] = q
                                  THEN LET j == CHOOSE j \in DOMAIN st : st[j][1] = q IN <<st[j][2], st[j][3]>>
                                  ELSE <<0, 0>>]]
  /\ Same /\ UNCHANGED <<sid, slow>>
(* difference between now and the previous statistics call of this network *)
DiffR ==
  /\ Ev.e = "diff"
  /\ LET st == Ev.st
         prev == snapS[<<Ev.p, Ev.k>>]
         was(q) == IF q \in DOMAIN prev THEN prev[q] ELSE <<0, 0>> IN
     Step(Flag(Ev.ok /\ {st[j][1] : j \in DOMAIN st} = Others(Ev.p), "N05", "difference covers the wrong parties")
          \o Flag(\A j \in DOMAIN st : st[j][1] \in Others(Ev.p) =>
               /\ st[j][2] >= slow[<<Ev.p, Ev.k>>][st[j][1]][1] - was(st[j][1])[1]
               /\ st[j][2] <= SentHigh(<<Ev.p, st[j][1], Ev.k>>) - was(st[j][1])[1]
               /\ st[j][3] >= slow[<<Ev.p, Ev.k>>][st[j][1]][2] - was(st[j][1])[2]
               /\ st[j][3] <= RecvHigh(<<st[j][1], Ev.p, Ev.k>>) - was(st[j][1])[2],
               "N05", "difference of snapshots is not the traffic between them"), "diff")
  /\ Same /\ Keep

DropC == /\ Ev.e = "dcall" /\ Drop(Ev.p, Ev.k) /\ Step(<<>>, "drop") /\ Keep
DropR == /\ Ev.e = "drop" /\ Same
         /\ Step(Flag(Ev.ok \/ ~ Ev.panic, "N04", "drop panicked"), "dropret") /\ Keep
KillC == /\ Ev.e = "kill" /\ Crash(Ev.p) /\ Step(<<>>, "kill") /\ Keep
CutC ==
  /\ Ev.e = "cut"
  /\ LET keep == [l \in Links |-> Len(sent[l]) + Ev.full]
         must == [l \in Links |-> IF Ev.rst THEN 0 ELSE Len(sent[l]) + Ev.full] IN
     Cut(Ev.p, Ev.q, keep, must)
  /\ Step(<<>>, "cut") /\ Keep
StallC == /\ Ev.e = "stall" /\ Stall(Ev.p, Ev.q, Ev.on) /\ Step(<<>>, "stall") /\ Keep
(* Foreign bytes announcing a frame above the limit: the receiver must fail *)
(* and deliver nothing of it.                                               *)
InjectC ==
  /\ Ev.e = "inject"
  /\ LET l == <<Ev.p, Ev.q, 0>> IN
     SendCall(l, [len |-> MaxF(Ev.q) + 1, h |-> -1, c |-> -i, st |-> "ok", ts |-> Ev.t])
  /\ Step(<<>>, "inject") /\ Keep
ForkR ==
  /\ Ev.e = "fork" /\ Same
  /\ Step(Flag(Ev.ok, "N08", "fork failed")
          \o Flag(Ev.ok => \A j \in DOMAIN Ev.ids : Ev.ids[j] = Ev.p, "N08", "forked network reports a wrong party id"), "fork")
  /\ Keep

(* A session start: long waits are made by all parties, short ones not.    *)
InitR ==
  /\ Ev.e = "init" /\ Same
  /\ Step(Flag(Ev.w >= 5000 => Ev.ok, "N07", "a session that all parties started setup failed")
          \o Flag(Ev.w < 5000 => ~ Ev.ok, "N07", "a session started although a party is missing")
          \o Flag(Ev.ok => \A j \in DOMAIN Ev.ids : Ev.ids[j] = Ev.p, "N07", "session network reports a wrong party id"), "init")
  /\ Keep

(* A lane that never returned from a call.                                 *)
Hang ==
  /\ Ev.e = "hang"
  /\ LET l == <<Ev.q, Ev.p, Ev.k>>
         s == <<Ev.p, Ev.q, Ev.k>> IN
     Step(CASE Ev.o \in {"recv", "drain"} /\ Known(Ev.q, Ev.p, Ev.k) ->
                 Flag(cfg.timeout = -1, "N06", "receive with a timeout never returned")
                 \o Flag(~ (HasNext(l) /\ ~ stall[l]),
                         IF stat[l] = "cut" /\ <<l[1], l[3]>> \in closed THEN "N04"
                         ELSE IF stat[l] = "cut" THEN "N03" ELSE "N01", "a frame that was sent never arrived")
                 \o Flag(~ (stat[l] = "cut" /\ ~ HasNext(l)), "N03", "receive from a failed peer blocks forever")
                 \o Flag(~ dead[l], "N03", "receive after the terminal error blocks forever")
            [] Ev.o = "recv" /\ ~ Known(Ev.q, Ev.p, Ev.k) -> Flag(FALSE, "N08", "receive from an unknown party blocks forever")
            [] Ev.o = "send" /\ ~ Known(Ev.p, Ev.q, Ev.k) -> Flag(FALSE, "N08", "send to an unknown party blocks forever")
            [] Ev.o = "send" /\ Known(Ev.p, Ev.q, Ev.k) ->
                 Flag(stall[s] \/ stat[s] = "cut", "N01", "send on a healthy link never returned")
            [] Ev.o = "flush" ->
                 Flag(cfg.flushto = -1, "N06", "flush with a timeout never returned")
                 \o Flag(FlushMayFail(Ev.p, Ev.k), "N04", "flush on healthy links never returned")
                 \o Flag(\A q \in P \ {Ev.p} : stat[<<Ev.p, q, Ev.k>>] = "up", "N04", "flush never returned although the peer connection failed")
            [] Ev.o = "untilfail" ->
                 Flag(stat[s] # "cut", "N04", "flush never returned although the peer connection failed")
            [] Ev.o = "drop" ->
                 Flag(cfg.fam \notin {"session", "drop", "flush", "flusherr"}, "N04", "drop never returned")
            [] Ev.o = "init" -> Flag(FALSE, "N07", "a session start never returned")
            [] OTHER -> <<>>, "hang")
  /\ Same /\ Keep

Skip == /\ Ev.e \in {"end", "killed", "leak", "mark", "icall"} /\ Same /\ Keep /\ Step(<<>>, "skip")

Next ==
  /\ i <= Len(Trace)
  /\ \/ Reset \/ Setup \/ SendC \/ SendR \/ RecvC \/ RecvR \/ FlushC \/ FlushR \/ MustFail
     \/ StatC \/ StatR \/ DiffR \/ DropC \/ DropR \/ KillC \/ CutC \/ StallC \/ InjectC \/ ForkR
     \/ InitR \/ Hang \/ Skip

Spec == Init /\ [][Next]_vars

(* Printed once the whole history has been explained; the driver reads it. *)
Report ==
  i = Len(Trace) + 1 =>
    PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Sane == NoInvented \/ viol # <<>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
