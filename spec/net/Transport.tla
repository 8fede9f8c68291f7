----------------------------- MODULE Transport -----------------------------
(***************************************************************************)
(* The abstract transport of mpc-net: n parties, `nets` parallel networks, *)
(* and for every ordered pair of parties and every network one link        *)
(* <<from, to, net>> that carries frames.                                  *)
(*                                                                         *)
(* A frame is [len, h, c, st, ts]: length, content hash, unique number,    *)
(* state of its send ("pend": the call has not returned, "ok", "fail"),    *)
(* and time at which send returned.  Every backend (in-memory, TCP, TLS,   *)
(* QUIC, async and blocking sessions) is claimed to be an implementation   *)
(* of this machine; TransportImpl refines it with the queue / wire / queue *)
(* pipeline and TransportTrace checks recorded histories against it.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,      \* [backend, n, nets, maxf, timeout, flushto, grace, bound, ...]
  sent,     \* link -> Seq(frame): every send that was called
  nxt,      \* link -> number of entries of sent[l] that the receiver is past
  stat,     \* link -> "up" | "cut"  (cut: peer closed, crashed or dropped)
  lim,      \* link -> last entry that may still be delivered (-1: no bound)
  guar,     \* link -> entries that must be delivered even though cut
  dead,     \* link -> receiver has already seen the terminal error
  stall,    \* link -> bytes are held back (a stalled peer)
  flushed,  \* link -> entries covered by a successful flush
  snapF,    \* <<p,k>> -> [peer -> Len(sent)] at the start of a running flush
  sb, rb,   \* link -> payload bytes of successful sends / receives
  rpend,    \* link -> number of receive calls in progress
  closed    \* set of <<p,k>>: networks dropped or lost in a crash

tvars == <<cfg, sent, nxt, stat, lim, guar, dead, stall, flushed, snapF, sb, rb, rpend, closed>>

P == 0 .. cfg.n - 1
K == 0 .. cfg.nets - 1
LinksOf(n, nets) == { l \in (0..n-1) \X (0..n-1) \X (0..nets-1) : l[1] # l[2] }
Links == LinksOf(cfg.n, cfg.nets)
NetsOf(n, nets) == (0..n-1) \X (0..nets-1)
MaxF(p) == cfg.maxf[p + 1]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

InitWith(c) ==
  /\ cfg = c
  /\ sent = [l \in LinksOf(c.n, c.nets) |-> <<>>]
  /\ nxt = [l \in LinksOf(c.n, c.nets) |-> 0]
  /\ stat = [l \in LinksOf(c.n, c.nets) |-> "up"]
  /\ lim = [l \in LinksOf(c.n, c.nets) |-> -1]
  /\ guar = [l \in LinksOf(c.n, c.nets) |-> 0]
  /\ dead = [l \in LinksOf(c.n, c.nets) |-> FALSE]
  /\ stall = [l \in LinksOf(c.n, c.nets) |-> FALSE]
  /\ flushed = [l \in LinksOf(c.n, c.nets) |-> 0]
  /\ snapF = [x \in NetsOf(c.n, c.nets) |-> <<>>]
  /\ sb = [l \in LinksOf(c.n, c.nets) |-> 0]
  /\ rb = [l \in LinksOf(c.n, c.nets) |-> 0]
  /\ rpend = [l \in LinksOf(c.n, c.nets) |-> 0]
  /\ closed = {}

(* Index of the next frame the receiver is entitled to: failed sends were  *)
(* refused and must not arrive; pending ones may or may not be there yet.  *)
RECURSIVE SkipFail(_, _)
SkipFail(s, i) == IF i <= Len(s) /\ s[i].st = "fail" THEN SkipFail(s, i + 1) ELSE i
NextIdx(l) == SkipFail(sent[l], nxt[l] + 1)

InLim(l, i) == lim[l] = -1 \/ i <= lim[l]
HasNext(l) == NextIdx(l) <= Len(sent[l]) /\ InLim(l, NextIdx(l))

TooBigFor(l, len) == len > MaxF(l[2])

(* ------------------------------------------------------------ sending *)
SendCall(l, f) ==
  /\ sent' = [sent EXCEPT ![l] = Append(@, f)]
  /\ UNCHANGED <<cfg, nxt, stat, lim, guar, dead, stall, flushed, snapF, sb, rb, rpend, closed>>

IdxOf(l, c) == CHOOSE i \in 1..Len(sent[l]) : sent[l][i].c = c

(* A send must be refused iff the frame is above the sender's own limit;   *)
(* it may otherwise only fail because the link is cut (or, with a timeout, *)
(* because the peer does not take data).                                   *)
MustRefuse(l, len) == len > MaxF(l[1])
MayFail(l) == stat[l] = "cut" \/ dead[<<l[2], l[1], l[3]>>] \/ stall[l]
SendRet(l, c, ok, t) ==
  /\ sent' = [sent EXCEPT ![l][IdxOf(l, c)].st = IF ok THEN "ok" ELSE "fail",
                          ![l][IdxOf(l, c)].ts = t]
  /\ sb' = [sb EXCEPT ![l] = IF ok THEN @ + sent[l][IdxOf(l, c)].len ELSE @]
  /\ UNCHANGED <<cfg, nxt, stat, lim, guar, dead, stall, flushed, snapF, rb, rpend, closed>>

(* ----------------------------------------------------------- receiving *)
RecvCall(l) ==
  /\ rpend' = [rpend EXCEPT ![l] = @ + 1]
  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, dead, stall, flushed, snapF, sb, rb, closed>>

(* The frame delivered is the next one: order, identity and link.          *)
IsNextFrame(l, len, h) ==
  HasNext(l) /\ LET f == sent[l][NextIdx(l)] IN f.len = len /\ f.h = h
DeliverSize(l, len) == len <= MaxF(l[2])
DeliverAlive(l) == ~ dead[l]
Deliver(l, len, i) ==
  /\ nxt' = [nxt EXCEPT ![l] = i]
  /\ rb' = [rb EXCEPT ![l] = @ + len]
  /\ rpend' = [rpend EXCEPT ![l] = Max2(0, @ - 1)]
  /\ UNCHANGED <<cfg, sent, stat, lim, guar, dead, stall, flushed, snapF, sb, closed>>

(* A receive may fail terminally only when the link is cut and everything  *)
(* that must arrive has been delivered, or when the next frame is above    *)
(* the receiver's limit.                                                   *)
NextTooBig(l) == HasNext(l) /\ TooBigFor(l, sent[l][NextIdx(l)].len)
AllGuaranteed(l) == SkipFail(sent[l], nxt[l] + 1) > guar[l]
MayErr(l) == \/ dead[l]
             \/ NextTooBig(l)
             \/ stat[l] = "cut" /\ AllGuaranteed(l)
RecvFail(l) ==
  /\ dead' = [dead EXCEPT ![l] = TRUE]
  /\ rpend' = [rpend EXCEPT ![l] = Max2(0, @ - 1)]
  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, stall, flushed, snapF, sb, rb, closed>>
(* With a receive timeout a receive may also give up without a frame.      *)
RecvGiveUp(l) ==
  /\ rpend' = [rpend EXCEPT ![l] = Max2(0, @ - 1)]
  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, dead, stall, flushed, snapF, sb, rb, closed>>

(* ------------------------------------------------------- flush and drop *)
FlushCall(p, k) ==
  /\ snapF' = [snapF EXCEPT ![<<p, k>>] = [q \in P \ {p} |-> Len(sent[<<p, q, k>>])]]
  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, dead, stall, flushed, sb, rb, rpend, closed>>
FlushMayFail(p, k) == \E q \in P \ {p} : MayFail(<<p, q, k>>)
FlushRet(p, k, ok) ==
  /\ flushed' = IF ok
                THEN [l \in Links |-> IF l[1] = p /\ l[3] = k
                                      THEN Max2(flushed[l], snapF[<<p, k>>][l[2]])
                                      ELSE flushed[l]]
                ELSE flushed
  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, dead, stall, snapF, sb, rb, rpend, closed>>

(* Dropping normally: everything sent before still arrives, then the peer  *)
(* sees the end.                                                           *)
Drop(p, k) ==
  /\ closed' = closed \cup {<<p, k>>}
  /\ stat' = [l \in Links |-> IF l[3] = k /\ p \in {l[1], l[2]} THEN "cut" ELSE stat[l]]
  /\ lim' = [l \in Links |-> IF l[3] = k /\ l[1] = p /\ lim[l] = -1 THEN Len(sent[l]) ELSE lim[l]]
  /\ guar' = [l \in Links |-> IF l[3] = k /\ l[1] = p /\ stat[l] = "up" THEN Len(sent[l]) ELSE guar[l]]
  /\ UNCHANGED <<cfg, sent, nxt, dead, stall, flushed, snapF, sb, rb, rpend>>

(* A crash of p: on backends whose flush hands data to the operating       *)
(* system, flushed frames survive the process.                             *)
Survives == cfg.backend \in {"tcp", "tls", "tcps", "tcpsb"}
Crash(p) ==
  /\ closed' = closed \cup {<<p, k>> : k \in K}
  /\ stat' = [l \in Links |-> IF p \in {l[1], l[2]} THEN "cut" ELSE stat[l]]
  /\ lim' = [l \in Links |-> IF l[1] = p /\ lim[l] = -1 THEN Len(sent[l]) ELSE lim[l]]
  /\ guar' = [l \in Links |-> IF l[1] = p /\ stat[l] = "up"
                              THEN IF Survives THEN flushed[l] ELSE 0
                              ELSE guar[l]]
  /\ UNCHANGED <<cfg, sent, nxt, dead, stall, flushed, snapF, sb, rb, rpend>>

(* The stream from p to q is cut so that at most `keep` of its entries are *)
(* complete; with reset, complete ones may be lost as well.                *)
Cut(p, q, keep, must) ==
  /\ stat' = [l \in Links |-> IF {l[1], l[2]} = {p, q} THEN "cut" ELSE stat[l]]
  /\ lim' = [l \in Links |-> IF l[1] = p /\ l[2] = q THEN keep[l] ELSE lim[l]]
  /\ guar' = [l \in Links |-> IF l[1] = p /\ l[2] = q THEN must[l] ELSE guar[l]]
  /\ UNCHANGED <<cfg, sent, nxt, dead, stall, flushed, snapF, sb, rb, rpend, closed>>

Stall(p, q, on) ==
  /\ stall' = [l \in Links |-> IF l[1] = p /\ l[2] = q THEN on ELSE stall[l]]
  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, dead, flushed, snapF, sb, rb, rpend, closed>>

(* ----------------------------------------------------------- statistics *)
SentLow(l) == sb[l]
RECURSIVE PendSum(_, _)
PendSum(s, i) == IF i > Len(s) THEN 0
                 ELSE (IF s[i].st = "pend" THEN s[i].len ELSE 0) + PendSum(s, i + 1)
SentHigh(l) == sb[l] + PendSum(sent[l], 1)
RecvLow(l) == rb[l]
RecvHigh(l) == rb[l] + (IF rpend[l] > 0 /\ HasNext(l) THEN sent[l][NextIdx(l)].len ELSE 0)

(* ----------------------------------------------------------- invariants *)
TypeOK ==
  /\ \A l \in Links : nxt[l] \in 0..Len(sent[l]) /\ sb[l] >= 0 /\ rb[l] >= 0
(* Nothing beyond the cut is ever delivered.                               *)
NoInvented == \A l \in Links : lim[l] # -1 => nxt[l] <= lim[l]
(* Received bytes never exceed what was handed to the link.                *)
StatsSound == \A l \in Links : rb[l] <= SentHigh(l)
=============================================================================
